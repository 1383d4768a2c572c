"""Symbolic datetimes.

A SymDT is a wall-clock time (a symbolic number of seconds since 1970-01-01 of the naive calendar)
plus a concrete tzinfo. Calendar arithmetic is linear once year and month are decided (by forking);
time zone regimes are decided by running the real pytz code on these objects.
"""
import builtins
import calendar
import datetime as _dt
import zoneinfo as _zi
import z3

from . import core
from .core import SymInt, SymReal, SymBase, is_sym, lift, mkbool, Unsupported

import pytz

_real_datetime = _dt.datetime
_real_timedelta = _dt.timedelta

EPOCH = _dt.date(1970, 1, 1).toordinal()


def _month_table(y0=1960, y1=2110):
    rows = []
    for y in range(y0, y1):
        for m in range(1, 13):
            rows.append(((_dt.date(y, m, 1).toordinal() - EPOCH) * 86400, y, m))
    return rows


MONTHS = _month_table()


def naive_seconds(d):
    """Seconds of the naive wall clock of a real datetime (exact)."""
    from fractions import Fraction
    s = (d.toordinal() - EPOCH) * 86400 + d.hour * 3600 + d.minute * 60 + d.second
    if d.microsecond:
        return Fraction(s) + Fraction(d.microsecond, 1000000)
    return s


def td_seconds(td):
    from fractions import Fraction
    s = td.days * 86400 + td.seconds
    if td.microseconds:
        return Fraction(s) + Fraction(td.microseconds, 1000000)
    return s


def _num(x):
    """Symbolic or concrete number of seconds as a Sym."""
    return lift(x)


class SymTD(SymBase):
    """Difference of symbolic datetimes."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    @property
    def __class__(self):
        return _real_timedelta

    def total_seconds(self):
        return core.to_real(lift(self.s))

    @property
    def days(self):
        return core._arith('floordiv', lift(self.s), 86400, False).__trunc__()

    @property
    def seconds(self):
        s = lift(self.s)
        if type(s) is SymReal:
            s = s.__floor__()
        return s % 86400

    @property
    def microseconds(self):
        s = lift(self.s)
        if type(s) is SymInt:
            return 0
        return ((s - s.__floor__()) * 1000000).__floor__()

    def _o(self, o):
        if type(o) is SymTD:
            return o.s
        if isinstance(o, _real_timedelta):
            return td_seconds(o)
        return None

    def __lt__(self, o): return core._cmp('lt', lift(self.s), self._o(o))
    def __le__(self, o): return core._cmp('le', lift(self.s), self._o(o))
    def __gt__(self, o): return core._cmp('gt', lift(self.s), self._o(o))
    def __ge__(self, o): return core._cmp('ge', lift(self.s), self._o(o))
    def __eq__(self, o): return False if self._o(o) is None else core._cmp('eq', lift(self.s), self._o(o))
    def __ne__(self, o): return True if self._o(o) is None else core._cmp('ne', lift(self.s), self._o(o))
    def __hash__(self): return 419
    def __neg__(self): return SymTD(-lift(self.s))
    def __abs__(self): return SymTD(abs(lift(self.s)))
    def __bool__(self): return bool(lift(self.s) != 0)

    def __add__(self, o):
        if isinstance(o, _real_timedelta):
            return SymTD(lift(self.s) + self._o(o))
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _real_timedelta):
            return SymTD(lift(self.s) - self._o(o))
        return NotImplemented

    def __mul__(self, o): return SymTD(lift(self.s) * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, _real_timedelta):
            return lift(self.s) / self._o(o)
        return SymTD(lift(self.s) / o)

    def __repr__(self): return '<symbolic timedelta>'
    __str__ = __repr__


class SymDT(SymBase):
    __slots__ = ('w', 'tzinfo', '_ymc', 'fold')
    min = _real_datetime.min
    max = _real_datetime.max

    def __init__(self, w, tzinfo=None, fold=0):
        self.w = lift(w)
        self.tzinfo = tzinfo
        self._ymc = None
        self.fold = fold

    @property
    def __class__(self):
        return _real_datetime

    # -- fields ---------------------------------------------------------------
    def _sec(self):
        """Whole seconds of the wall clock, as a SymInt."""
        if type(self.w) is SymInt:
            return self.w
        return self.w.__floor__()

    def _ym(self):
        if self._ymc is None:
            w = self.w
            lo, hi = 0, len(MONTHS)
            # find the month the current model is in first, so that forced comparisons are few
            while hi - lo > 1:
                mid = (lo + hi) // 2
                b = MONTHS[mid][0]
                if w < b:
                    hi = mid
                else:
                    lo = mid
            self._ymc = MONTHS[lo]
        return self._ymc

    @property
    def year(self):
        return self._ym()[1]

    @property
    def month(self):
        return self._ym()[2]

    @property
    def day(self):
        start = self._ym()[0]
        return (self._sec() - start) // 86400 + 1

    @property
    def hour(self):
        return (self._sec() % 86400) // 3600

    @property
    def minute(self):
        return (self._sec() % 3600) // 60

    @property
    def second(self):
        return self._sec() % 60

    @property
    def microsecond(self):
        if type(self.w) is SymInt:
            return 0
        return ((self.w - self.w.__floor__()) * 1000000).__floor__()

    def weekday(self):
        # 1970-01-01 was a Thursday
        return (self._sec() // 86400 + 3) % 7

    def isoweekday(self):
        return self.weekday() + 1

    def toordinal(self):
        return self._sec() // 86400 + EPOCH

    # -- construction -----------------------------------------------------------
    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None,
                microsecond=None, tzinfo=True, *, fold=None):
        tz = self.tzinfo if tzinfo is True else tzinfo
        d = self._replace(year, month, day, hour, minute, second, microsecond, tz)
        if type(d) is SymDT:
            d.fold = self.fold if fold is None else fold
            return d
        return d.replace(fold=self.fold if fold is None else fold)

    def _replace(self, year, month, day, hour, minute, second, microsecond, tz):
        if year is None and month is None and day is None and hour is None and minute is None \
                and second is None and microsecond is None:
            return SymDT(self.w, tz)
        if year is None and month is None and day is None:
            # time of the day only: no need to decide the month
            sec = self._sec()
            base = sec - sec % 86400
            for v, hi in ((hour, 24), (minute, 60), (second, 60), (microsecond, 1000000)):
                if v is not None and not (0 <= v < hi):
                    raise ValueError('time component out of range')
            return _mk(base, self.hour if hour is None else hour, self.minute if minute is None else minute,
                       self.second if second is None else second,
                       self.microsecond if microsecond is None else microsecond, tz)
        return make(self.year if year is None else year, self.month if month is None else month,
                    self.day if day is None else day, self.hour if hour is None else hour,
                    self.minute if minute is None else minute, self.second if second is None else second,
                    self.microsecond if microsecond is None else microsecond, tz)

    def date(self):
        return self._concrete().date()

    def _concrete(self):
        """One concrete datetime (the path no longer covers the others)."""
        from fractions import Fraction
        w = self.w
        if type(w) is SymInt:
            s, us = core.CTX.pin_real(w), 0
        else:
            s = core.CTX.pin_real(w)
        s = Fraction(s)
        d = _real_datetime(1970, 1, 1) + _real_timedelta(seconds=int(s // 1),
                                                         microseconds=int((s - s // 1) * 1000000))
        return d.replace(tzinfo=self.tzinfo, fold=self.fold)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self._concrete(), name)

    # -- zones -------------------------------------------------------------------
    def utcoffset(self):
        if self.tzinfo is None:
            return None
        if isinstance(self.tzinfo, _zi.ZoneInfo):
            return zi_info(self)[0]
        if isinstance(self.tzinfo, _dt.timezone):
            return self.tzinfo.utcoffset(None)
        return self.tzinfo.utcoffset(self)

    def dst(self):
        if self.tzinfo is None:
            return None
        if isinstance(self.tzinfo, _zi.ZoneInfo):
            return zi_info(self)[1]
        if isinstance(self.tzinfo, _dt.timezone):
            return None
        return self.tzinfo.dst(self)

    def tzname(self):
        if self.tzinfo is None:
            return None
        if isinstance(self.tzinfo, _zi.ZoneInfo):
            return zi_info(self)[2]
        if isinstance(self.tzinfo, _dt.timezone):
            return self.tzinfo.tzname(None)
        return self.tzinfo.tzname(self)

    def _utc(self):
        """Seconds of the UTC wall clock = epoch seconds."""
        off = self.utcoffset()
        if off is None:
            return None
        o = td_seconds(off)
        return self.w - o if o else self.w

    def timestamp(self):
        u = self._utc()
        if u is None:
            u = self.w      # the sandbox and the checks run with TZ=UTC
        return core.to_real(u)

    def astimezone(self, tz=None):
        if tz is None:
            tz = _dt.timezone.utc
        if tz is self.tzinfo:
            return self
        u = self._utc()
        if u is None:
            u = self.w
        return from_utc(u, tz)

    # -- arithmetic and comparisons -------------------------------------------------
    def __add__(self, o):
        if type(o) is SymTD:
            return SymDT(self.w + o.s, self.tzinfo)
        if isinstance(o, _real_timedelta):
            return SymDT(self.w + td_seconds(o), self.tzinfo)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is SymTD:
            return SymDT(self.w - o.s, self.tzinfo)
        if isinstance(o, _real_timedelta):
            return SymDT(self.w - td_seconds(o), self.tzinfo)
        if isinstance(o, _real_datetime):
            a, b, _ = self._pair(o, True)
            return SymTD(a - b)
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _real_datetime):
            a, b, _ = self._pair(o, True)
            return SymTD(b - a)
        return NotImplemented

    def _pair(self, o, strict):
        if type(o) is SymDT:
            n1, n2 = self.tzinfo is None, o.tzinfo is None
            if n1 != n2:
                if strict:
                    raise TypeError("can't compare offset-naive and offset-aware datetimes")
                return None, None, False
            if n1 or self.tzinfo is o.tzinfo:
                return self.w, o.w, True
            return self._utc(), o._utc(), True
        n1, n2 = self.tzinfo is None, o.tzinfo is None
        if n1 != n2:
            if strict:
                raise TypeError("can't compare offset-naive and offset-aware datetimes")
            return None, None, False
        if n1 or self.tzinfo is o.tzinfo:
            return self.w, lift(naive_seconds(o)), True
        return self._utc(), lift(naive_seconds(o) - td_seconds(o.utcoffset())), True

    def _c(self, name, o):
        if not isinstance(o, _real_datetime):
            return NotImplemented
        a, b, ok = self._pair(o, name not in ('eq', 'ne'))
        if not ok:
            return name == 'ne'
        return core._cmp(name, a, b)

    def __lt__(self, o): return self._c('lt', o)
    def __le__(self, o): return self._c('le', o)
    def __gt__(self, o): return self._c('gt', o)
    def __ge__(self, o): return self._c('ge', o)
    def __eq__(self, o): return self._c('eq', o)
    def __ne__(self, o): return self._c('ne', o)

    def __hash__(self):
        return 418

    # -- text ------------------------------------------------------------------------
    def isoformat(self, sep='T', timespec='auto'):
        us = self.microsecond
        s = '%04d-%02d-%s%s%s:%s:%s' % (self.year, self.month, self.day, sep, self.hour, self.minute, self.second)
        if is_sym(us) and bool(us != 0):
            s += '.%s' % us
        off = self.utcoffset()
        if off is not None:
            o = int(td_seconds(off))
            s += '%s%02d:%02d' % ('+' if o >= 0 else '-', abs(o) // 3600, abs(o) % 3600 // 60)
        return s

    def __str__(self):
        return '<symbolic datetime>'

    __repr__ = __str__

    def __format__(self, spec):
        return '<symbolic datetime>'


def _mk(day_start, h, mi, s, us, tz):
    w = lift(day_start) + lift(h) * 3600 + lift(mi) * 60 + lift(s)
    if is_sym(us) or us:
        w = w + lift(us) / 1000000
    return SymDT(w, tz)


def make(y, m, d, h=0, mi=0, s=0, us=0, tz=None):
    if not any(is_sym(x) for x in (y, m, d, h, mi, s, us)):
        return _real_datetime(y, m, d, h, mi, s, us, tz)
    y = y.__index__()
    m = m.__index__()
    if not (1 <= m <= 12):
        raise ValueError('month must be in 1..12')
    dim = calendar.monthrange(y, m)[1]
    if not (1 <= d <= dim):
        raise ValueError('day is out of range for month')
    for v, hi, n in ((h, 24, 'hour'), (mi, 60, 'minute'), (s, 60, 'second'), (us, 1000000, 'microsecond')):
        if is_sym(v) and _in_range_by_construction(v, hi):
            continue
        if not (0 <= v < hi):
            raise ValueError('%s out of range' % n)
    start = (_dt.date(y, m, 1).toordinal() - EPOCH) * 86400
    day = lift(d)
    return _mk((day - 1) * 86400 + start, h, mi, s, us, tz)


def _in_range_by_construction(v, hi):
    return False


def zi_info(d):
    """What zoneinfo tells about a local time: the regime is decided as zoneinfo does, with the transitions
    of the pytz zone of the same name (they come from the same data base)."""
    z = pytz.timezone(d.tzinfo.key)
    times = getattr(z, '_utc_transition_times', None)
    if times is None:
        off = z.utcoffset(None)
        return off, z.dst(None), z.tzname(None)
    infos = z._transition_info
    lo, hi = 0, len(times)      # regime lo is the current one: times[lo] <= d < times[lo + 1]
    pick = min if d.fold else max
    while hi - lo > 1:
        mid = (lo + hi) // 2
        edge = naive_seconds(times[mid]) + pick(td_seconds(infos[mid - 1][0]), td_seconds(infos[mid][0]))
        if d.w >= edge:
            lo = mid
        else:
            hi = mid
    return infos[lo]


def from_utc(u, tz):
    """Epoch seconds -> SymDT on tz."""
    u = lift(u)
    if type(u) is SymReal and u.l.allint():
        u = SymInt(l=u.l)
    if tz is None or tz is pytz.UTC or tz is _dt.timezone.utc:
        return SymDT(u, tz)
    if hasattr(tz, '_utc_transition_times'):
        # the real pytz code, on a symbolic naive UTC time
        return tz.fromutc(SymDT(u, None))
    if isinstance(tz, _zi.ZoneInfo):
        o = from_utc(u, pytz.timezone(tz.key)).utcoffset()
        d = SymDT(u + td_seconds(o), tz)
        if d.utcoffset() != o:
            d.fold = 1
        return d
    if isinstance(tz, _dt.timezone):
        return SymDT(u + td_seconds(tz.utcoffset(None)), tz)
    off = getattr(tz, '_offset', None)      # dateutil tzoffset
    if off is not None:
        return SymDT(u + td_seconds(off), tz)
    off = getattr(tz, '_utcoffset', None)   # pytz static zones
    if off is not None:
        return SymDT(u + td_seconds(off), tz)
    if type(tz).__name__ == '_FixedOffset':
        return SymDT(u + td_seconds(tz.utcoffset(None)), tz)
    raise Unsupported('time zone %r' % (tz,))


class _DTMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _real_datetime)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, _real_datetime)

    def __call__(cls, *a, **kw):
        tz = kw.pop('tzinfo', None)
        a = list(a)
        if len(a) > 7:
            tz = a[7]
            a = a[:7]
        names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond']
        vals = dict(zip(names, a))
        vals.update({k: v for k, v in kw.items() if k in names})
        if any(is_sym(v) for v in vals.values()):
            return make(vals['year'], vals['month'], vals['day'], vals.get('hour', 0), vals.get('minute', 0),
                        vals.get('second', 0), vals.get('microsecond', 0), tz)
        return _real_datetime(*a, tzinfo=tz, **kw)

    def __getattr__(cls, n):
        return getattr(_real_datetime, n)

    def __eq__(cls, o):
        return o is cls or o is _real_datetime

    def __hash__(cls):
        return hash(_real_datetime)


class datetime_shim(metaclass=_DTMeta):
    @staticmethod
    def fromtimestamp(ts, tz=None):
        if is_sym(ts):
            return from_utc(ts, tz if tz is not None else None)
        return _real_datetime.fromtimestamp(ts, tz)

    @staticmethod
    def utcfromtimestamp(ts):
        if is_sym(ts):
            return SymDT(ts, None)
        return _real_datetime.utcfromtimestamp(ts)

    @staticmethod
    def strptime(s, f):
        return _real_datetime.strptime(s, f)

    @staticmethod
    def now(tz=None):
        return _real_datetime.now(tz)


class _TDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _real_timedelta)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, _real_timedelta)

    def __call__(cls, *a, **kw):
        if any(is_sym(v) for v in list(a) + list(kw.values())):
            names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
            f = {'days': 86400, 'seconds': 1, 'microseconds': 1e-6, 'milliseconds': 1e-3, 'minutes': 60,
                 'hours': 3600, 'weeks': 604800}
            v = dict(zip(names, a))
            v.update(kw)
            t = 0
            for k, x in v.items():
                if k in ('microseconds', 'milliseconds'):
                    if is_sym(x) or x:
                        t = t + lift(x) / (1000000 if k == 'microseconds' else 1000)
                else:
                    t = t + x * f[k]
            return SymTD(t)
        return _real_timedelta(*a, **kw)

    def __getattr__(cls, n):
        return getattr(_real_timedelta, n)

    def __eq__(cls, o):
        return o is cls or o is _real_timedelta

    def __hash__(cls):
        return hash(_real_timedelta)


class timedelta_shim(metaclass=_TDMeta):
    pass


class _ModShim:
    datetime = datetime_shim
    timedelta = timedelta_shim

    def __getattr__(self, n):
        return getattr(_dt, n)


module_shim = _ModShim()


def replacements():
    return {id(_dt): module_shim, id(_real_datetime): datetime_shim, id(_real_timedelta): timedelta_shim}
