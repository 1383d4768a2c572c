From a487eeb2607290d6f37e7daa24ae29d1892303d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 01/84] fix: inserting or popping items must keep the series
 ordered, in succession and with consistent data

---
 timeseria/datastructures.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 3b21f9d..6eb28a1 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -681,14 +681,7 @@ class Series(list):
 
         # Check data type and set if not done already
         if self and self._item_data_reference:
-            if not type(self._item_data_reference) == type(item.data):
-                raise TypeError('Got different data: {} vs {}'.format(self._item_data_reference.__class__.__name__, item.data.__class__.__name__))
-            if isinstance(self._item_data_reference, list):
-                if len(self._item_data_reference) != len(item.data):
-                    raise ValueError('Got different data lengths: {} vs {}'.format(len(self._item_data_reference), len(item.data)))
-            if isinstance(self._item_data_reference, dict):
-                if set(self._item_data_reference.keys()) != set(item.data.keys()):
-                    raise ValueError('Got different data labels: {} vs {}'.format(self._item_data_reference.keys(), item.data.keys()))
+            self._check_item_data(item)
         else:
             try:
                 self._item_data_reference = item.data
@@ -698,6 +691,18 @@ class Series(list):
         # Append
         super(Series, self).append(item)
 
+    def _check_item_data(self, item):
+        if not type(self._item_data_reference) == type(item.data):
+            raise TypeError('Got different data: {} vs {}'.format(self._item_data_reference.__class__.__name__, item.data.__class__.__name__))
+
+        if isinstance(self._item_data_reference, list):
+            if len(self._item_data_reference) != len(item.data):
+                raise ValueError('Got different data lengths: {} vs {}'.format(len(self._item_data_reference), len(item.data)))
+
+        if isinstance(self._item_data_reference, dict):
+            if set(self._item_data_reference.keys()) != set(item.data.keys()):
+                raise ValueError('Got different data labels: {} vs {}'.format(self._item_data_reference.keys(), item.data.keys()))
+
     def __sum__(self, other):
         raise NotImplementedError
 
@@ -742,6 +747,12 @@ class Series(list):
 
         if len(self) > 0:
 
+            # Handle negative and out of bounds positions as the list does
+            if i < 0:
+                i = max(0, len(self) + i)
+            elif i > len(self):
+                i = len(self)
+
             # Check valid type
             if not isinstance(x, self.item_type):
                 raise TypeError('Got incompatible type "{}", can only accept "{}"'.format(x.__class__.__name__, self.item_type.__name__))
@@ -767,11 +778,15 @@ class Series(list):
                 try:
                     self[0].__succedes__
                 except AttributeError:
-                    if not x > self[i-1]:
+                    if not (x > self[i-1] and self[i] > x):
                         raise ValueError('Cannot insert element "{}" in position "{}" with element "{}" as not in order'.format(x,i, self[i])) from None
                 else:
                     raise IndexError('Cannot insert an item in the middle of a series whose items follow a succession'.format(i))
 
+            # Check data
+            if self._item_data_reference:
+                self._check_item_data(x)
+
             super(Series, self).insert(i,x)
 
         else:
@@ -800,7 +815,7 @@ class Series(list):
         if len(self) == 0:
             raise IndexError('Cannot pop from an empty series')
         if i is not None:
-            if i not in [0, len(self)]:
+            if i not in [0, -1, len(self)-1, -len(self)]:
                 try:
                     self[0].__succedes__
                 except AttributeError:
-- 
2.43.0


From 16d8c0781a6769989a6ace5446a493077bf6355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 02/84] fix: keep the time series resolution in step with
 refused appends, insertions, removals, pops and clears

---
 timeseria/datastructures.py | 165 +++++++++++++++++++++---------------
 1 file changed, 99 insertions(+), 66 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 6eb28a1..77ecb6f 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1241,88 +1241,121 @@ class TimeSeries(Series):
 
         if isinstance(item, TimePoint):
 
-            try:
-                self.prev_t
-            except AttributeError:
-                pass
-            else:
-                # Check time ordering and handle the resolution.
+            # Check time ordering
+            if len(self) > 0 and hasattr(self, 'prev_t'):
 
-                # The following if is to support the deepcopy, otherwise the original prev_t will be used
-                # TODO: maybe move the above to a "hasattr" plus an "and" instead of this logic?
-                if len(self)>0:
+                # logger.debug('Checking time ordering for t="%s" (prev_t="%s")', item.t, self.prev_t)
+                if item.t < self.prev_t:
+                    raise ValueError('Time t="{}" is out of order (prev t="{}")'.format(item.t, self.prev_t))
 
-                    # logger.debug('Checking time ordering for t="%s" (prev_t="%s")', item.t, self.prev_t)
-                    if item.t < self.prev_t:
-                        raise ValueError('Time t="{}" is out of order (prev t="{}")'.format(item.t, self.prev_t))
+                if item.t == self.prev_t:
+                    raise ValueError('Time t="{}" is a duplicate'.format(item.t))
 
-                    if item.t == self.prev_t:
-                        raise ValueError('Time t="{}" is a duplicate'.format(item.t))
+        elif isinstance(item, TimeSlot):
 
-                    try:
-                        self._resolution
+            # Slots can belong to the same series if they are in succession (tested with the __succedes__ method)
+            # and if they have the same unit, which we test here instead as the __succedes__ is more general.
 
-                    except AttributeError:
+            self._check_slot(item)
 
-                        # Set the resolution as seconds for a bit of performance
-                        self._resolution_as_seconds = item.t - self.prev_t
+        else:
+            raise TypeError('Adding data to a time series only accepts TimePoints o TimeSlots (got "{}")'.format(item.__class__.__name__))
 
-                        # Set the resolution as time unit (up to the microsecond)
-                        time_diff = item.t - self.prev_t
-                        time_diff = int(time_diff*10000000)/10000000
-                        self._resolution = TimeUnit(_to_time_unit_string(time_diff, friendlier=True))
+        # Call the series append
+        super(TimeSeries, self).append(item)
 
-                    else:
-                        # If the resolution is constant (not variable), check that it still is
-                        if self._resolution != 'variable':
-                            if self._resolution_as_seconds != (item.t - self.prev_t):
-                                # ...otherwise, mark it as variable
-                                del self._resolution_as_seconds
-                                self._resolution = 'variable'
-            finally:
-                # Delete the autodetected sampling interval cache if present
-                try:
-                    del self._autodetected_sampling_interval
-                    del self._autodetected_sampling_interval_confidence
-                except:
-                    pass
-                # And set the prev
-                self.prev_t = item.t
+        # Lastly, and only if the item was accepted, handle the resolution
+        self._track_resolution(item, first = len(self) == 1)
 
-        elif isinstance(item, TimeSlot):
+    def insert(self, i, x):
+        if len(self) > 0 and isinstance(x, TimeSlot):
+            self._check_slot(x)
+        super(TimeSeries, self).insert(i, x)
+        self._refresh_resolution()
 
-            # Slots can belong to the same series if they are in succession (tested with the __succedes__ method)
-            # and if they have the same unit, which we test here instead as the __succedes__ is more general.
+    def remove(self, x):
+        super(TimeSeries, self).remove(x)
+        self._refresh_resolution()
 
-            # Check the timezone (only for slots, points are not affected by timezones)
-            if not self.tz:
-                # If no timezone set, use the item one's
-                self._tz = item.tz
+    def pop(self, i=None):
+        item = super(TimeSeries, self).pop(i)
+        self._refresh_resolution()
+        return item
 
-            else:
-                # Else, check for the same timezone
-                if self._tz != item.tz:
-                    raise ValueError('Cannot append slots on different timezones (I have "{}" and you tried to add "{}")'.format(self.tz, item.start.tz))
+    def clear(self):
+        super(TimeSeries, self).clear()
+        self._refresh_resolution()
+
+    insert.__doc__ = Series.insert.__doc__
+    remove.__doc__ = Series.remove.__doc__
+    pop.__doc__ = Series.pop.__doc__
+    clear.__doc__ = Series.clear.__doc__
+
+    def _check_slot(self, item):
 
+        # Check the timezone (only for slots, points are not affected by timezones)
+        if self.tz and self.tz != item.tz:
+            raise ValueError('Cannot append slots on different timezones (I have "{}" and you tried to add "{}")'.format(self.tz, item.start.tz))
+
+        # Check the unit
+        if len(self) > 0 and self._resolution != item.unit:
+            # Try for floating point precision errors
+            abort = False
             try:
-                if self._resolution != item.unit:
-                    # Try for floating point precision errors
-                    abort = False
-                    try:
-                        if not _is_close(self._resolution, item.unit):
-                            abort = True
-                    except (TypeError, ValueError, NotImplementedError):
-                        abort = True
-                    if abort:
-                        raise ValueError('Cannot add slots with a different unit than the series resolution (I have "{}" and you tried to add "{}")'.format(self._resolution, item.unit))
-            except AttributeError:
-                self._resolution = item.unit
+                if not _is_close(self._resolution, item.unit):
+                    abort = True
+            except (TypeError, ValueError, NotImplementedError):
+                abort = True
+            if abort:
+                raise ValueError('Cannot add slots with a different unit than the series resolution (I have "{}" and you tried to add "{}")'.format(self._resolution, item.unit))
+
+    def _track_resolution(self, item, first):
+
+        # Forget what was detected or guessed on the previous items
+        for attribute in ['_TimeSeries__autodetected_sampling_interval', '_TimeSeries__autodetected_sampling_interval_confidence', '_guessed_resolution']:
+            self.__dict__.pop(attribute, None)
+        if first:
+            for attribute in ['prev_t', '_resolution', '_resolution_as_seconds']:
+                self.__dict__.pop(attribute, None)
 
-        else:
-            raise TypeError('Adding data to a time series only accepts TimePoints o TimeSlots (got "{}")'.format(item.__class__.__name__))
+        if isinstance(item, TimePoint):
+            if not first:
+                try:
+                    self._resolution
 
-        # Lastly, call the series append
-        super(TimeSeries, self).append(item)
+                except AttributeError:
+
+                    # Set the resolution as seconds for a bit of performance
+                    self._resolution_as_seconds = item.t - self.prev_t
+
+                    # Set the resolution as time unit (up to the microsecond)
+                    time_diff = item.t - self.prev_t
+                    time_diff = int(time_diff*10000000)/10000000
+                    self._resolution = TimeUnit(_to_time_unit_string(time_diff, friendlier=True))
+
+                else:
+                    # If the resolution is constant (not variable), check that it still is
+                    if self._resolution != 'variable':
+                        if self._resolution_as_seconds != (item.t - self.prev_t):
+                            # ...otherwise, mark it as variable
+                            del self._resolution_as_seconds
+                            self._resolution = 'variable'
+
+            # And set the prev
+            self.prev_t = item.t
+
+        else:
+            if first:
+                self._resolution = item.unit
+                if not hasattr(self, '_tz'):
+                    # If no timezone set, use the item one's
+                    self._tz = item.tz
+
+    def _refresh_resolution(self):
+        for attribute in ['prev_t', '_resolution', '_resolution_as_seconds']:
+            self.__dict__.pop(attribute, None)
+        for i, item in enumerate(list(self)):
+            self._track_resolution(item, first = i == 0)
 
     def _item_by_t(self, t):
         # TODO: improve performance, bisection first, then use an index?
-- 
2.43.0


From 40b6d46887461fe9b52470f6faa93b98cab4244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 03/84] fix: time unit strings of fractional seconds

---
 timeseria/utilities.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 40bb075..cb6105e 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -956,7 +956,12 @@ def _to_float(string,no_data_placeholders=[],label=None):
 def _to_time_unit_string(seconds, friendlier=True):
     """Converts seconds to a (friendlier) time unit string, as 1s, 1h, 10m etc.)"""
 
-    seconds_str = str(seconds).replace('.0', '')
+    seconds_str = str(seconds)
+    if 'e' in seconds_str:
+        # Avoid the scientific notation
+        seconds_str = '{:.7f}'.format(seconds).rstrip('0').rstrip('.')
+    if seconds_str.endswith('.0'):
+        seconds_str = seconds_str[:-2]
     if friendlier:
         if seconds_str == '60':
             seconds_str = '1m'
-- 
2.43.0


From bdb1062403df23a1891fdf034e4ebc04050cf1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 04/84] fix: time points on the same time zone must not be
 treated as on different ones across DST changes

---
 timeseria/datastructures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 77ecb6f..74a6e3a 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -123,6 +123,9 @@ class TimePoint(Point):
                             pass
                         else:
                             self._tz = kwargs['dt'].tzinfo
+                            # Pytz datetimes carry the time zone at a given DST offset: get the time zone itself
+                            if getattr(self._tz, 'zone', None):
+                                self._tz = timezonize(self._tz.zone)
                             #raise NotImplementedError('Not yet tz from dt ("{}")'.format(kwargs['dt']))
 
             #else:
-- 
2.43.0


From f84bafdbc5ae0978a374fcf52005282c2bb05b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 05/84] fix: views must not leak items outside their bounds nor
 break on nested iteration

---
 timeseria/datastructures.py | 68 +++++++++++++------------------------
 1 file changed, 23 insertions(+), 45 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 74a6e3a..3be20df 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1849,6 +1849,10 @@ class TimeSeriesView(TimeSeries):
     """A time series view."""
 
     def __init__(self, *items, series=None, from_i=None, to_i=None, **kwargs):
+        if series is not None:
+            # Set the bounds as the slicing does
+            from_i, to_i, _ = slice(from_i, to_i).indices(len(series))
+            to_i = max(from_i, to_i)
         self.series = series
         self.from_i = from_i
         self.to_i = to_i
@@ -1856,40 +1860,27 @@ class TimeSeriesView(TimeSeries):
         # Call parent init in case we are using the series view as a normal series
         super().__init__(*items, **kwargs)
 
-    def __getitem__(self, arg):
-
+    def _item_by_i(self, i):
         if self.series:
+            # TODO: empty views are let through as the evaluation of window-less models asks for their last item
+            if len(self) and (i < -len(self) or i >= len(self)):
+                raise IndexError('View index out of range')
+            return self.series[self.from_i + i] if i >= 0 else self.series[self.to_i + i]
+        else:
+            return super()._item_by_i(i)
 
+    def __getitem__(self, arg):
+        if self.series:
             if isinstance(arg, slice):
-
-                if isinstance(arg.start, int):
-                    if arg.start>=0:
-                        slice_start =  self.from_i + arg.start
-                    else:
-                        slice_start =  self.to_i - abs(arg.start)
-                elif arg.start is None:
-                    slice_start = self.from_i
-                else:
-                    slice_start = arg.start
-
-                if isinstance(arg.stop, int):
-                    if arg.stop>=0:
-                        slice_stop =  self.from_i + arg.stop
-                    else:
-                        slice_stop =  self.to_i - abs(arg.stop)
-                elif arg.stop is None:
-                    slice_stop = self.to_i
+                if isinstance(arg.start, (int, type(None))) and isinstance(arg.stop, (int, type(None))):
+                    # Positions are relative to the view, and never go beyond it
+                    slice_start, slice_stop, _ = slice(arg.start, arg.stop).indices(len(self))
+                    return self.series[self.from_i + slice_start : self.from_i + slice_stop]
                 else:
-                    slice_stop = arg.stop
-
-                return self.series[slice_start:slice_stop]
-
+                    return super().__getitem__(arg)
             else:
                 if isinstance(arg, int):
-                    if arg>=0:
-                        return self.series[self.from_i + arg]
-                    else:
-                        return self.series[self.to_i - abs(arg)]
+                    return self._item_by_i(arg)
                 else:
                     return super().__getitem__(arg)
         else:
@@ -1897,26 +1888,10 @@ class TimeSeriesView(TimeSeries):
 
     def __iter__(self):
         if self.series:
-            self.count = 0
-            return self
+            return (self.series[i] for i in range(self.from_i, self.to_i))
         else:
             return super().__iter__()
 
-    def __next__(self):
-        if self.series:
-            this_i = self.count + self.from_i
-
-            if this_i >= self.to_i:
-                # If reached the end stop
-                raise StopIteration
-
-            else:
-                # Otherwise return the corresponding item
-                self.count += 1
-                return self.series[this_i]
-        else:
-            return super().__next__()
-
     def __len__(self):
         if self.series:
             return self.to_i-self.from_i
@@ -1945,6 +1920,9 @@ class TimeSeriesView(TimeSeries):
     @property
     def resolution(self):
         if self.series:
+            if self.series.resolution == 'variable':
+                # The items of the view might still be equally spaced
+                return self.series.slice(self.from_i, self.to_i).resolution
             return self.series.resolution
         else:
             return super().resolution
-- 
2.43.0


From 6c5b3dcbfe5cc165af748d9c72a38ecc1923380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 06/84] fix: items must not share their data indexes with the
 items they are derived from

---
 timeseria/datastructures.py | 4 ++++
 timeseria/operations.py     | 1 +
 2 files changed, 5 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 3be20df..d96d6db 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -203,6 +203,8 @@ class DataPoint(Point):
             else:
                 if not isinstance(data_indexes, dict):
                     raise ValueError('Got type "{}" for data_indexes, was expecitng a dict'.format(data_indexes.__class__.__name__))
+                # Never share the data indexes with the caller, nor with other items
+                data_indexes = dict(data_indexes)
         except KeyError:
             data_indexes = {}
         #else:
@@ -505,6 +507,8 @@ class DataSlot(Slot):
             else:
                 if not isinstance(data_indexes, dict):
                     raise ValueError('Got type "{}" for data_indexes, was expecitng a dict'.format(data_indexes.__class__.__name__))
+                # Never share the data indexes with the caller, nor with other items
+                data_indexes = dict(data_indexes)
         except KeyError:
             data_indexes = {}
         #else:
diff --git a/timeseria/operations.py b/timeseria/operations.py
index 70906f5..a63087f 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -867,6 +867,7 @@ class Filter(Operation):
         for item in series:
             filtered_item = copy(item)
             filtered_item._data = {data_label: item._data_by_label(data_label) for data_label in data_labels}
+            filtered_item._data_indexes = dict(item.data_indexes)
             filtered_series.append(filtered_item)
 
         # Re-set reference data as well
-- 
2.43.0


From 07b12b8342db2e94a78ab5a51a714ccacc03e572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 07/84] fix: item access by out of range negative positions,
 position lookup and whole-series slicing

---
 timeseria/datastructures.py | 8 +++++++-
 timeseria/operations.py     | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index d96d6db..2704219 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -846,7 +846,11 @@ class Series(list):
         used to limit the search to a particular subsequence of the list. The returned index is
         computed relative to the beginning of the full sequence rather than the start argument.
         """
-        super(Series, self).index(x, start, end)
+        if start is None:
+            start = 0
+        if end is None:
+            end = len(self)
+        return super(Series, self).index(x, start, end)
 
     def copy(self):
         """Return a shallow copy of the series."""
@@ -1388,6 +1392,8 @@ class TimeSeries(Series):
                 return self.slice(from_t=arg.start, to_t=arg.stop)
             elif isinstance(arg.start, datetime) or isinstance(arg.stop, datetime):
                 return self.slice(from_dt=arg.start, to_dt=arg.stop)
+            elif arg.start is None and arg.stop is None:
+                return self.slice()
             else:
                 raise ValueError('Don\'t know how to slice for data type "{}"'.format(arg.start.__class__.__name__))
         elif isinstance(arg, str):
diff --git a/timeseria/operations.py b/timeseria/operations.py
index a63087f..66fa240 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -837,6 +837,8 @@ class Get(Operation):
         # Handle negative index
         if at_i is not None and at_i < 0:
             at_i = len(series) - abs(at_i)
+            if at_i < 0:
+                raise IndexError('Index out of range')
 
         if at_i is not None:
             return series._item_by_i(at_i)
-- 
2.43.0


From d96ed9ec3b0f189c464644c056c7b09593b5f251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 08/84] fix: derivatives and integrals in-place, on more
 labels, on list data and at the ends of variable resolution series

---
 timeseria/operations.py | 54 +++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 66fa240..314f9ab 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -240,7 +240,6 @@ class Derivative(Operation):
         if normalize:
             if series.resolution == 'variable':
                 variable_resolution = True
-                sampling_interval = series._autodetected_sampling_interval
             else:
                 variable_resolution = False
                 if isinstance(series.resolution, TimeUnit):
@@ -264,6 +263,10 @@ class Derivative(Operation):
         except TypeError:
             data_is_keyvalue = False
 
+        # Get the labels and the values beforehand, as in in-place mode the item data changes while computing
+        data_labels = series.data_labels()
+        values = [{data_label: item._data_by_label(data_label) for data_label in data_labels} for item in series]
+
         for i, item in enumerate(series):
 
             # Skip the first element if computing diffs
@@ -273,7 +276,7 @@ class Derivative(Operation):
             if not inplace:
                 der_data = series[0].data.__class__()
 
-            for data_label in series.data_labels():
+            for data_label in data_labels:
                 diff_left = None
                 diff_right = None
                 diff = None
@@ -282,19 +285,26 @@ class Derivative(Operation):
                     if i == 0:
                         raise ConsistencyException('We should never get here')
                     else:
-                        diff = series[i]._data_by_label(data_label) - series[i-1]._data_by_label(data_label)
+                        diff = values[i][data_label] - values[i-1][data_label]
                 else:
                     # Compute the derivative
                     if i == 0:
                         # Right increment for the first item
-                        diff_right = series[i+1]._data_by_label(data_label) - series[i]._data_by_label(data_label)
+                        diff_right = values[i+1][data_label] - values[i][data_label]
                     elif i == len(series)-1:
                         # Left increment for the last item. Divide by two if not normalizing by time resolution
-                        diff_left = series[i]._data_by_label(data_label) - series[i-1]._data_by_label(data_label)
+                        diff_left = values[i][data_label] - values[i-1][data_label]
                     else:
                         # Both left and right increment for the items in the middle
-                        diff_left = series[i]._data_by_label(data_label) - series[i-1]._data_by_label(data_label)
-                        diff_right = series[i+1]._data_by_label(data_label) - series[i]._data_by_label(data_label)
+                        diff_left = values[i][data_label] - values[i-1][data_label]
+                        diff_right = values[i+1][data_label] - values[i][data_label]
+
+                # If the resolution is variable, one-sided increments are normalized on their own interval
+                if normalize and variable_resolution:
+                    if i == 0:
+                        sampling_interval = series[i+1].t - series[i].t
+                    else:
+                        sampling_interval = series[i].t - series[i-1].t
 
                 # Combine and normalize (if required) the increments to get the actual derivative
                 if normalize:
@@ -373,7 +383,6 @@ class Integral(Operation):
         if normalize:
             if series.resolution == 'variable':
                 variable_resolution = True
-                sampling_interval = series._autodetected_sampling_interval
             else:
                 variable_resolution = False
                 if isinstance(series.resolution, TimeUnit):
@@ -397,7 +406,12 @@ class Integral(Operation):
         except TypeError:
             data_is_keyvalue = False
 
+        # Get the labels and the values beforehand, as in in-place mode the item data changes while computing
+        data_labels = series.data_labels()
+        values = [{data_label: item._data_by_label(data_label) for data_label in data_labels} for item in series]
+
         last_values={}
+        prev_right_components={}
 
         for i, item in enumerate(series):
 
@@ -410,18 +424,18 @@ class Integral(Operation):
 
                 if isinstance(offset,dict):
                     if data_is_keyvalue:
-                        for data_label in series.data_labels():
+                        for data_label in data_labels:
                             prev_data['{}_{}'.format(data_label,postfix)] = offset[data_label]
                     else:
-                        for data_label in series.data_labels():
+                        for data_label in data_labels:
                             prev_data.append(offset[data_label])
                 else:
                     if data_is_keyvalue:
-                        for data_label in series.data_labels():
+                        for data_label in data_labels:
                             prev_data['{}_{}'.format(data_label,postfix)] = offset
                     else:
-                        for data_label in series.data_labels():
-                            prev_data.append(offset[data_label])
+                        for data_label in data_labels:
+                            prev_data.append(offset)
 
                 if isinstance(item, Point):
                     int_series.append(item.__class__(t = item.t - series.resolution,
@@ -440,28 +454,26 @@ class Integral(Operation):
             if not inplace:
                 data = series[0].data.__class__()
 
-            for data_label in series.data_labels():
+            for data_label in data_labels:
 
                 # Get the value
                 if not normalize:
-                    value = series[i]._data_by_label(data_label)
+                    value = values[i][data_label]
                 else:
                     # Compute the integral
                     if i == 0:
                         value=0
-                        prev_right_component = series[i]._data_by_label(data_label)
+                        prev_right_components[data_label] = values[i][data_label]
                     else:
-                        left_component = (series[i-1]._data_by_label(data_label)*2) - prev_right_component
+                        left_component = (values[i-1][data_label]*2) - prev_right_components[data_label]
                         # The "value" below is actually an increment, see below at  value = last_values[data_label] + value
                         value = left_component
-                        prev_right_component = left_component
+                        prev_right_components[data_label] = left_component
 
                 # Normalize the cumulative to get the actual integral
                 if normalize:
                     if variable_resolution:
-                        if i == 0:
-                            value = value * sampling_interval
-                        else:
+                        if i > 0:
                             value = value * (series[i].t - series[i-1].t)
                     else:
                         value = value * sampling_interval
-- 
2.43.0


From 65c818e7eb66785351ab6d78d2fb4d83c23cec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 09/84] fix: detecting the sampling interval must terminate and
 count all the spacings

---
 timeseria/datastructures.py | 16 +++++++++-------
 timeseria/utilities.py      | 18 ++++++++++--------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 2704219..04cac7f 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1513,11 +1513,10 @@ class TimeSeries(Series):
                 self._guessed_resolution
             except AttributeError:
                 self._guessed_resolution = TimeUnit(_to_time_unit_string(self._autodetected_sampling_interval, friendlier=True))
-            finally:
-                if confidence:
-                    return {'value': self._guessed_resolution, 'confidence': self._autodetected_sampling_interval_confidence}
-                else:
-                    return self._guessed_resolution
+            if confidence:
+                return {'value': self._guessed_resolution, 'confidence': self._autodetected_sampling_interval_confidence}
+            else:
+                return self._guessed_resolution
 
     @property
     def _resolution_string(self):
@@ -1525,8 +1524,11 @@ class TimeSeries(Series):
             resolution_string = 'undefined resolution'
         else:
             if self.resolution == 'variable':
-                autodetected_sampling_interval_as_str = TimeUnit(_to_time_unit_string(self._autodetected_sampling_interval, friendlier=True))
-                resolution_string = 'variable resolution (~{})'.format(autodetected_sampling_interval_as_str)
+                try:
+                    autodetected_sampling_interval_as_str = TimeUnit(_to_time_unit_string(self._autodetected_sampling_interval, friendlier=True))
+                    resolution_string = 'variable resolution (~{})'.format(autodetected_sampling_interval_as_str)
+                except ValueError:
+                    resolution_string = 'variable resolution'
             else:
                 resolution_string = '{} resolution'.format(self.resolution)
         return resolution_string
diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index cb6105e..ec74771 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -102,15 +102,17 @@ def detect_sampling_interval(timeseries, confidence=False):
     while _is_almost_equal(len(diffs), len(timeseries)):
         or_diffs=diffs
         diffs={}
-        for diff in or_diffs:
-            diff=round(diff)
+        for or_diff in or_diffs:
+            # Never round to zero, which is not an interval
+            diff=round(or_diff) or or_diff
             if diff not in diffs:
-                diffs[diff] = 1
+                diffs[diff] = or_diffs[or_diff]
             else:
-                diffs[diff] +=1
+                diffs[diff] += or_diffs[or_diff]
 
         if i > 10:
-            raise Exception('Cannot automatically detect the sampling interval')
+            raise ValueError('Cannot automatically detect the sampling interval')
+        i += 1
 
     most_common_diff_total = 0
     most_common_diff = None
@@ -957,9 +959,9 @@ def _to_time_unit_string(seconds, friendlier=True):
     """Converts seconds to a (friendlier) time unit string, as 1s, 1h, 10m etc.)"""
 
     seconds_str = str(seconds)
-    if 'e' in seconds_str:
-        # Avoid the scientific notation
-        seconds_str = '{:.7f}'.format(seconds).rstrip('0').rstrip('.')
+    if 'e' in seconds_str or len(seconds_str.partition('.')[2]) > 6:
+        # Avoid the scientific notation and do not go beyond the microsecond
+        seconds_str = '{:.6f}'.format(seconds).rstrip('0').rstrip('.')
     if seconds_str.endswith('.0'):
         seconds_str = seconds_str[:-2]
     if friendlier:
-- 
2.43.0


From 24dee7165321582b073c1bfee895d756b54cbed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 10/84] fix: transformations must not leave weights on the
 source nor add made up values, data losses are never more than one

---
 timeseria/transformations.py | 27 ++++++++++++++++-----------
 timeseria/utilities.py       | 21 +++++++--------------
 2 files changed, 23 insertions(+), 25 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 44b9c9c..b5ed5be 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -83,7 +83,8 @@ class _TimeSeriesDenseView(TimeSeriesView):
                 this_point = self.series[this_i]
 
 
-                if prev_point.valid_to < this_point.valid_from:
+                # (beyond the floating point precision)
+                if this_point.valid_from - prev_point.valid_to > 1e-6:
 
                     # yes, we do have a gap. Add a missing point by interpolation
 
@@ -229,8 +230,8 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
             # middle point from the series_dense_view_extended. Otherwise, we must compute it from
             # scratch as we are upsamping with no data loss but still no points belonging to the slot.
 
+            series_dense_view = None
             if data_loss==1:
-                series_dense_view = None
                 for point in series_dense_view_extended:
                     try:
                         if point._interpolated:
@@ -239,15 +240,11 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
                             series_dense_view = series.__class__(point)
                     except AttributeError:
                         pass
-                if not series_dense_view:
-                    raise ConsistencyException('Could not find any reconstructed point in a fully missing slot')
-            else:
+
+            if not series_dense_view:
                 # Just create a point based on the series_dense_view_extended weights (TODO: are we including the interpolated?):
-                new_point_data = {data_label:0 for data_label in data_labels}
-                for point in series_dense_view_extended:
-                    for data_label in data_labels:
-                        point.data[data_label] += point.data[data_label] * point.weight
-                new_point_t = (to_t - from_t) /2
+                new_point_data = avg(series_dense_view_extended)
+                new_point_t = from_t + ((to_t - from_t) /2)
                 series_dense_view = TimeSeries(DataTimePoint(t=new_point_t, data=new_point_data, tz=series.tz))
 
         else:
@@ -273,7 +270,7 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
     #  Compute slot data
     elif target=='slot':
 
-        if data_loss == 1 and fill_with:
+        if data_loss == 1 and fill_with is not None:
             for data_label in data_labels:
                 for operation in operations:
                     data['{}_{}'.format(data_label, operation.__name__)] = fill_with
@@ -367,6 +364,14 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
         # Set the index in the data indexes
         new_element.data_indexes[index] = new_element_index_value
 
+    # The weights are relative to this item only: do not leave them on the series points,
+    # or other operations on the series would use them as well
+    for point in series_dense_view_extended:
+        try:
+            del point.weight
+        except AttributeError:
+            pass
+
     # Return
     return new_element
 
diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index ec74771..6e2429b 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -759,24 +759,17 @@ def _compute_data_loss(series, from_t, to_t, force=False, sampling_interval=None
 
             if point.data_loss:
 
-                # Set validity
-                point_valid_from_t = point.t - (sampling_interval/2)
-                point_valid_to_t = point.t + (sampling_interval/2)
-
                 # Skip points which have not to be taken into account
-                if point_valid_to_t < from_t:
+                if point.valid_to < from_t:
                     continue
-                if point_valid_from_t >= to_t:
+                if point.valid_from >= to_t:
                     continue
 
-                # Compute the contribution of this point data loss: overlapping
-                # first point, overlapping last point, or all included?
-                if point_valid_from_t < from_t:
-                    point_contribution = abs(from_t - point_valid_to_t)
-                elif point_valid_to_t >= to_t:
-                    point_contribution = abs(to_t - point_valid_from_t)
-                else:
-                    point_contribution = sampling_interval
+                # Compute the contribution of this point data loss as for the coverage,
+                # i.e. over the part of its validity region within the interval
+                point_valid_from_t = point.valid_from if point.valid_from >= from_t else from_t
+                point_valid_to_t = point.valid_to if point.valid_to < to_t else to_t
+                point_contribution = point_valid_to_t - point_valid_from_t
 
                 #logger.debug('----------------')
                 #count+=1
-- 
2.43.0


From 605c637e2c17e5350a92226f2ea645e25e88796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 11/84] fix: aggregating by calendar units data starting on a
 local time which does not exist the day after

---
 timeseria/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index b5ed5be..f8b3f7a 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -504,7 +504,7 @@ class Transformation(object):
             logger.info('Using auto-detected sampling interval: %ss', validity)
 
         # Check if upsamplimg (with some tolearance):
-        if validity > (self.time_unit.as_seconds(series[0].dt) * 1.10):
+        if validity > (self.time_unit.as_seconds(self.time_unit.floor(series[0].dt)) * 1.10):
             logger.warning('You are upsampling, which is not well tested yet. Expect potential issues.')
 
         # Compute validity regions
-- 
2.43.0


From 00041c93b58f83b220ec26463a9a8eaf4528f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:58 +0000
Subject: [PATCH 12/84] fix: interpolators must look up the neighbours
 properly, refuse to extrapolate and support list data

---
 timeseria/interpolators.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/timeseria/interpolators.py b/timeseria/interpolators.py
index 6e147f8..32d3956 100644
--- a/timeseria/interpolators.py
+++ b/timeseria/interpolators.py
@@ -37,7 +37,7 @@ class LinearInterpolator(Interpolator):
                     next_i = i
                     break
 
-            if next_i is None:
+            if next_i is None or prev_i < 0:
                 raise ValueError('Trying to interpolate a point outside the series: prev_i="{}", next_i="{}", at="{}", series="{}"'.format(prev_i, next_i, at, self.series))
 
         else:
@@ -49,7 +49,7 @@ class LinearInterpolator(Interpolator):
         next_point = self.series[next_i]
 
         # Compute the increment with respect to the interpolation
-        interpolated_data = self.series[0].data.__class__()
+        interpolated_data = {}
 
         # Example:
         # Indexes  0 1 2 3 4 5 6 7
@@ -69,14 +69,17 @@ class LinearInterpolator(Interpolator):
 
             else:
                 # Compute the "growth" ratio
-                diff = next_point.data[label] - prev_point.data[label]
+                diff = next_point._data_by_label(label) - prev_point._data_by_label(label)
                 delta_t = next_point.t - prev_point.t
                 ratio = diff / delta_t
 
                 # Compute the value of the data for the new point
-                interpolated_data[label] = prev_point.data[label] + ((at-prev_point.t)*ratio)
+                interpolated_data[label] = prev_point._data_by_label(label) + ((at-prev_point.t)*ratio)
 
 
+        if not isinstance(prev_point.data, dict):
+            return [interpolated_data[label] for label in self.series.data_labels()]
+
         return interpolated_data
 
 
@@ -89,12 +92,12 @@ class UniformInterpolator(Interpolator):
 
     def evaluate(self, at, prev_i=None, next_i=None):
 
-        if prev_i and next_i is None:
+        if prev_i is not None and next_i is None:
             raise ValueError('If you provide the prev_i you also need to provide the next_i')
-        if next_i and prev_i is None:
+        if next_i is not None and prev_i is None:
             raise ValueError('If you provide the next_i you also need to provide the prev_i')
 
-        if not prev_i:
+        if prev_i is None and next_i is None:
             logger.warning('You are not providing the prev_i and next_i, this will cause the interpolator to look for them and likely introduce a slow down')
 
             # Search for the prev_i:
@@ -102,9 +105,9 @@ class UniformInterpolator(Interpolator):
                 if item.t > at:
                     prev_i = i-1
                     next_i = i
-                break
+                    break
 
-            if next_i is None:
+            if next_i is None or prev_i < 0:
                 raise ValueError('Trying to interpolate a point outside the series')
 
         else:
@@ -116,10 +119,13 @@ class UniformInterpolator(Interpolator):
         next_point = self.series[next_i]
 
         # Compute the increment with respect to the interpolation
-        interpolated_data = self.series[0].data.__class__()
+        interpolated_data = {}
 
         for label in self.series.data_labels():
-            interpolated_data[label] = prev_point.data[label] + ((next_point.data[label] - prev_point.data[label]) /2)
+            interpolated_data[label] = prev_point._data_by_label(label) + ((next_point._data_by_label(label) - prev_point._data_by_label(label)) /2)
+
+        if not isinstance(prev_point.data, dict):
+            return [interpolated_data[label] for label in self.series.data_labels()]
 
         return interpolated_data
 
-- 
2.43.0


From 12b4db3209a3f75178c05810c90774dc71a9a045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 13/84] fix: time units can be initialized with the value as a
 keyword argument

---
 timeseria/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/units.py b/timeseria/units.py
index b175157..1d7350c 100644
--- a/timeseria/units.py
+++ b/timeseria/units.py
@@ -150,8 +150,8 @@ class TimeUnit(TimeSpan, Unit):
         if args and (isinstance(args[0], int) or isinstance(args[0], float)):
             args = list(args)
             args[0] = '{}s'.format(args[0])
-        if kwargs and 'value' in kwargs and (isinstance(kwargs['seconds'], int) or isinstance(kwargs['seconds'], float)) :
-            kwargs['seconds'] = kwargs.pop('value')
+        if kwargs and 'value' in kwargs and (isinstance(kwargs['value'], int) or isinstance(kwargs['value'], float)):
+            kwargs['value'] = '{}s'.format(kwargs['value'])
         super(TimeUnit, self).__init__(*args, **kwargs)
 
     # Support for TimePoints and this TimeUnit class
-- 
2.43.0


From 86f54fe16255268714097b09d4c15f0cd38f30fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 14/84] fix: subtracting a unit from a point

---
 timeseria/units.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/units.py b/timeseria/units.py
index 1d7350c..22a313f 100644
--- a/timeseria/units.py
+++ b/timeseria/units.py
@@ -66,6 +66,10 @@ class Unit(object):
             raise NotImplementedError('Don\'t know how to subtract Units with {}'.format(other.__class__.__name__))
 
     def __rsub__(self, other):
+        if hasattr(other, 'coordinates'):
+            if len(other.coordinates) > 1:
+                raise NotImplementedError('Cannot subtract multidimensional objects')
+            return other.__class__(other.coordinates[0] - self.value)
         return -self.__sub__(other)
 
     def __truediv__(self, other):
-- 
2.43.0


From 8b219b19591e6775d47fb2493105ea838bc3a939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:28 +0000
Subject: [PATCH 15/84] fix: storing and loading series of a single slot, with
 uneven indexes, special labels or as subclasses

---
 timeseria/datastructures.py |  8 ++++----
 timeseria/storages.py       | 26 ++++++++++++++++++++------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 04cac7f..05747f6 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1543,7 +1543,7 @@ class TimeSeries(Series):
         """Load a series from a (CSV) file, in Timeseria format."""
 
         metadata = None
-        with open(file_name) as f:
+        with open(file_name, encoding='utf-8') as f:
             for line in f:
                 if line.startswith('#'):
                     if line.startswith('# Extra parameters:'):
@@ -1562,7 +1562,7 @@ class TimeSeries(Series):
             force_slot_unit = None
 
         from .storages import CSVFileStorage
-        storage = CSVFileStorage(file_name)
+        storage = CSVFileStorage(file_name, timestamp_column='epoch', timestamp_format='epoch', encoding='utf-8')
         loaded_series = storage.get(force_points=force_points, force_slots=force_slots, force_tz=force_tz, force_slot_unit=force_slot_unit)
 
         if loaded_series.__class__ == cls:
@@ -1570,7 +1570,7 @@ class TimeSeries(Series):
         else:
             # TODO: the following is a huge performance hit...
             series_items = loaded_series.contents()
-            cls(*series_items)
+            return cls(*series_items)
 
 
     def save(self, file_name, overwrite=False, **kwargs):
@@ -1662,7 +1662,7 @@ class TimeSeries(Series):
         else:
             # TODO: the following is a huge performance hit...
             series_items = loaded_series.contents()
-            cls(*series_items)
+            return cls(*series_items)
 
     def to_csv(self, file_name, overwrite=False, **kwargs):
         """Store the time series as a CSV file."""
diff --git a/timeseria/storages.py b/timeseria/storages.py
index 6e8f4fa..2abcedd 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -262,8 +262,9 @@ class CSVFileStorage(Storage):
 
                     # If it is, use it as labels (and continue with the next line)
                     if not_converted: # == len(line_items):
-                        column_indexes = [i for i in range(len(line_items)) if _sanitize_string(line_items[i],NO_DATA_PLACEHOLDERS)]
-                        column_labels = [_sanitize_string(label,NO_DATA_PLACEHOLDERS) for label in line_items if _sanitize_string(label,NO_DATA_PLACEHOLDERS)]
+                        # Note: columns with no label are not used, but they must keep their position
+                        column_labels = [_sanitize_string(label) for label in line_items]
+                        column_indexes = [i for i in range(len(line_items)) if column_labels[i]]
                         logger.debug('Set column indexes = "%s"  and column labels = "%s"', column_indexes, column_labels)
                         continue
 
@@ -579,10 +580,18 @@ class CSVFileStorage(Storage):
                     pass
                 if len(sample_timepointseries)>10:
                     break
-            detected_sampling_interval = detect_sampling_interval(sample_timepointseries)
+            if force_slots and force_slot_unit:
+                detected_sampling_interval = None
+            else:
+                detected_sampling_interval = detect_sampling_interval(sample_timepointseries)
+
+            # Slot unit already set
+            if force_slots and force_slot_unit:
+                detected_series_type = DataTimeSlot
+                auto_slot_unit = force_slot_unit
 
             # Years
-            if detected_sampling_interval in [86400*365, 886400*366]:
+            elif detected_sampling_interval in [86400*365, 86400*366]:
                 detected_series_type = DataTimeSlot
                 auto_slot_unit = TimeUnit('1Y')
 
@@ -751,7 +760,12 @@ class CSVFileStorage(Storage):
         # Set data_indexes here once for all or there will be a slowdown afterwards
         data_indexes = series._all_data_indexes()
 
-        with open(self.filename, 'w') as csv_file:
+        # Labels which would be read back as something else cannot be stored
+        for label in series.data_labels():
+            if not str(label) or str(label) != _sanitize_string(str(label)) or str(label).startswith('__') or ',' in str(label):
+                raise ValueError('Cannot store the data label "{}" in a CSV file'.format(label))
+
+        with open(self.filename, 'w', encoding='utf-8') as csv_file:
 
             # 0) Dump CSV-storage specific metadata & chck type
             if issubclass(series.item_type, DataTimePoint):
@@ -781,7 +795,7 @@ class CSVFileStorage(Storage):
                     data_part = ','.join([str(item.data[int(data_label)]) for data_label in series.data_labels()])
                 else:
                     data_part = ','.join([str(item.data[data_label]) for data_label in series.data_labels()])
-                data_indexes_part = ','.join([str(item.data_indexes[index]) for index in data_indexes])
+                data_indexes_part = ','.join([str(item.data_indexes.get(index)) for index in data_indexes])
                 if data_indexes_part:
                     csv_file.write('{},{},{}\n'.format(item.t, data_part, data_indexes_part))
                 else:
-- 
2.43.0


From 3d5b8af3a7356307524ed2d587926ffd8b2564db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 16/84] fix: periodicity index of items before the epoch and of
 calendar resolutions

---
 timeseria/utilities.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 6e2429b..815f8bb 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -878,7 +878,17 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
     if not dst_affected:
 
         # Get index based on item timestamp, normalized to unit, modulus periodicity
-        periodicity_index =  int(item.t / resolution_s) % periodicity
+        if isinstance(resolution, TimeUnit) and (resolution.years or resolution.months or resolution.weeks or resolution.days):
+            # Calendar units have variable length, so count them on the calendar
+            if resolution.years:
+                periodicity_index = (item.dt.year // resolution.years) % periodicity
+            elif resolution.months:
+                periodicity_index = ((item.dt.year*12 + item.dt.month - 1) // resolution.months) % periodicity
+            else:
+                days = item.dt.toordinal() - datetime(1970,1,1).toordinal()
+                periodicity_index = (days // (resolution.weeks*7 + resolution.days)) % periodicity
+        else:
+            periodicity_index = int(item.t // resolution_s) % periodicity
 
     else:
 
@@ -889,7 +899,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
 
         if dst_timedelta.days == 0 and dst_timedelta.seconds == 0:
             # No DST
-            periodicity_index = int(item.t / resolution_s) % periodicity
+            periodicity_index = int(item.t // resolution_s) % periodicity
 
         else:
             # DST
@@ -903,7 +913,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
             dst_offset_s = dst_timedelta.seconds # 3600 usually
 
             # Compute the periodicity index
-            periodicity_index = (int((item.t + dst_offset_s) / resolution_s) % periodicity)
+            periodicity_index = (int((item.t + dst_offset_s) // resolution_s) % periodicity)
 
     return periodicity_index
 
-- 
2.43.0


From d44e89b75ffe9bf7434b9079dab0936d85887240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:43 +0000
Subject: [PATCH 17/84] fix: evaluating reconstructors predicting lists of
 items, as the linear interpolation one

---
 timeseria/models/reconstructors.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index fb324e6..203d671 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -242,7 +242,12 @@ class Reconstructor(Model):
                         real_values.append(series[j].data[data_label])
 
                     # Add predicted and real values to the overall data to be later used for the RMS etc.
-                    overall_predicted_values += predicted_values[data_label]
+                    if isinstance(predicted_values, dict):
+                        # Dict of lists
+                        overall_predicted_values += predicted_values[data_label]
+                    else:
+                        # List of dicts
+                        overall_predicted_values += [step_predicted_values[data_label] for step_predicted_values in predicted_values]
                     overall_actual_values += real_values
                     processed_samples+=1
 
-- 
2.43.0


From 66b6ae9ce4350b68e82b65eea87aa542cca0e684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 18/84] fix: periodic average forecaster with explicit windows,
 single-item windows and automatic periodicities of more labels

---
 timeseria/models/forecasters.py | 46 +++++++++++++++++----------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index e15e6bb..92ad8a1 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -487,32 +487,34 @@ class PeriodicAverageForecaster(Forecaster):
         for data_label in series.data_labels():
             # Set or detect periodicity
             if periodicity == 'auto':
-                periodicity =  detect_periodicity(series[data_label])
-                logger.info('Detected periodicity for "%s": %sx %s', data_label, periodicity, series.resolution)
+                label_periodicity = detect_periodicity(series[data_label])
+                logger.info('Detected periodicity for "%s": %sx %s', data_label, label_periodicity, series.resolution)
+            else:
+                label_periodicity = periodicity
 
-            self.data['periodicities'][data_label]  = periodicity
+            self.data['periodicities'][data_label]  = label_periodicity
 
             # Set window
             if self._window != 'auto':
-                self.data['windows'][data_label] = self._window
+                self.data['windows'][data_label] = int(self._window)
             else:
-                logger.info('Using a window of "{}" for "{}"'.format(periodicity, data_label))
-                self.data['windows'][data_label]= periodicity
-
-                sums   = {}
-                totals = {}
-                processed = 0
-                for item in series:
-                    if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
-                        continue
-                    periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected)
-                    if not periodicity_index in sums:
-                        sums[periodicity_index] = item.data[data_label]
-                        totals[periodicity_index] = 1
-                    else:
-                        sums[periodicity_index] += item.data[data_label]
-                        totals[periodicity_index] +=1
-                    processed += 1
+                logger.info('Using a window of "{}" for "{}"'.format(label_periodicity, data_label))
+                self.data['windows'][data_label]= label_periodicity
+
+            sums   = {}
+            totals = {}
+            processed = 0
+            for item in series:
+                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                    continue
+                periodicity_index = _get_periodicity_index(item, series.resolution, label_periodicity, dst_affected)
+                if not periodicity_index in sums:
+                    sums[periodicity_index] = item.data[data_label]
+                    totals[periodicity_index] = 1
+                else:
+                    sums[periodicity_index] += item.data[data_label]
+                    totals[periodicity_index] +=1
+                processed += 1
 
             if not processed:
                 raise ValueError('Too much data loss (not a single element below the limit), cannot fit!')
@@ -571,7 +573,7 @@ class PeriodicAverageForecaster(Forecaster):
                     diffs += (real_value - predict_value)
 
                 # Sum the avg diff between the real and the forecast on the window to the forecast (the offset)
-                offset = diffs/j
+                offset = diffs/self.data['windows'][data_label]
 
                 # Compute the forecast data
                 periodicity_index = _get_periodicity_index(predict_timestamp,
-- 
2.43.0


From 455a617b579871bfebc0a71cc8e75fd5cd9f8c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:00 +0000
Subject: [PATCH 19/84] fix: fitting models on data with a data loss index set
 to none, as in forecasted slots

---
 timeseria/models/base.py           | 4 ++--
 timeseria/models/forecasters.py    | 2 +-
 timeseria/models/reconstructors.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index f7ef855..8ce7afc 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -579,13 +579,13 @@ class _KerasModel(Model):
                 # Add window elements
                 window_elements_vector = []
                 for j in range(window):
-                    if data_loss_limit is not None and 'data_loss' in series[i-window+j].data_indexes and series[i-window+j].data_indexes['data_loss'] >= data_loss_limit:
+                    if data_loss_limit is not None and series[i-window+j].data_loss is not None and series[i-window+j].data_loss >= data_loss_limit:
                         raise TooMuchDataLoss()
                     window_elements_vector.append(series[i-window+j])
 
                 # Add target values
                 target_values_sub_vector = []
-                if data_loss_limit is not None and 'data_loss' in series[i].data_indexes and series[i].data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and series[i].data_loss is not None and series[i].data_loss >= data_loss_limit:
                     raise TooMuchDataLoss()
                 for target_data_label in target_data_labels:
                     target_values_sub_vector.append(series[i].data[target_data_label])
diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 92ad8a1..4714bfe 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -505,7 +505,7 @@ class PeriodicAverageForecaster(Forecaster):
             totals = {}
             processed = 0
             for item in series:
-                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and item.data_loss is not None and item.data_loss >= data_loss_limit:
                     continue
                 periodicity_index = _get_periodicity_index(item, series.resolution, label_periodicity, dst_affected)
                 if not periodicity_index in sums:
diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 203d671..6f2b75b 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -416,7 +416,7 @@ class PeriodicAverageReconstructor(Reconstructor):
             totals = {}
             processed = 0
             for item in series:
-                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and item.data_loss is not None and item.data_loss >= data_loss_limit:
                     continue
                 periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected=dst_affected)
                 if not periodicity_index in sums:
-- 
2.43.0


From 8b64bea263691512ceb05b819a15d4f129ae0c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 20/84] fix: models must be usable on single-point series, as
 intended

---
 timeseria/models/base.py        |  6 +++---
 timeseria/models/forecasters.py | 22 ++++++++++++++--------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 8ce7afc..dcd8f22 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -223,7 +223,7 @@ class Model():
             if isinstance(series, TimeSeries):
                 _check_timeseries(series)
                 if self._is_parametric():
-                    if isinstance(series.item_type, Point) and len(series) == 1:
+                    if issubclass(series.item_type, Point) and len(series) == 1:
                         # Do not check if the data is a point time series and has only one item
                         pass
                     else:
@@ -263,7 +263,7 @@ class Model():
             if isinstance(series, TimeSeries):
                 _check_timeseries(series)
                 if self._is_parametric():
-                    if isinstance(series.item_type, Point) and len(series) == 1:
+                    if issubclass(series.item_type, Point) and len(series) == 1:
                         # Do not check if the data is a point time series and has only one item
                         pass
                     else:
@@ -297,7 +297,7 @@ class Model():
             if isinstance(series, TimeSeries):
                 _check_timeseries(series)
                 if self._is_parametric():
-                    if isinstance(series.item_type, Point) and len(series) == 1:
+                    if issubclass(series.item_type, Point) and len(series) == 1:
                         # Do not check if the data is a point time series and has only one item
                         pass
                     else:
diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 4714bfe..abde529 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -98,6 +98,9 @@ class Forecaster(Model):
         else:
             predicted_data = self.predict(series, steps=steps)
 
+        # Single-point series have no resolution, use the one the forecaster was fitted on
+        resolution = series.resolution if series.resolution is not None else self.data.get('resolution')
+
         # Handle list of predictions or single prediction
         forecast_start_item = series[-1]
         if isinstance(predicted_data,list):
@@ -109,12 +112,12 @@ class Forecaster(Model):
 
                 if isinstance(series[0], Slot):
                     forecast.append(DataTimeSlot(start = last_item.end,
-                                                 unit  = series.resolution,
+                                                 unit  = resolution,
                                                  data_loss = None,
                                                  #tz = series.tz,
                                                  data = data))
                 else:
-                    forecast.append(DataTimePoint(t = last_item.t + series.resolution,
+                    forecast.append(DataTimePoint(t = last_item.t + resolution,
                                                   tz = series.tz,
                                                   data = data))
                 last_item = forecast[-1]
@@ -123,12 +126,12 @@ class Forecaster(Model):
                 predicted_data.update(context_data)
             if isinstance(series[0], Slot):
                 forecast = DataTimeSlot(start = forecast_start_item.end,
-                                        unit  = series.resolution,
+                                        unit  = resolution,
                                         data_loss = None,
                                         #tz = series.tz,
                                         data  = predicted_data)
             else:
-                forecast = DataTimePoint(t = forecast_start_item.t + self.data['resolution'],
+                forecast = DataTimePoint(t = forecast_start_item.t + resolution,
                                          tz = series.tz,
                                          data  = predicted_data)
 
@@ -534,6 +537,9 @@ class PeriodicAverageForecaster(Forecaster):
         if len(series) < self.data['window']:
             raise ValueError('The series length ({}) is shorter than the model window ({})'.format(len(series), self.data['window']))
 
+        # Single-point series have no resolution, use the one the forecaster was fitted on
+        resolution = series.resolution if series.resolution is not None else self.data['resolution']
+
         # Get forecast start item
         predict_start_item = series[-1]
 
@@ -548,14 +554,14 @@ class PeriodicAverageForecaster(Forecaster):
             # Set forecast timestamp
             if isinstance(series[0], Slot):
                 try:
-                    predict_timestamp = predict_timestamps[-1] + series.resolution
+                    predict_timestamp = predict_timestamps[-1] + resolution
                     predict_timestamps.append(predict_timestamp)
                 except IndexError:
                     predict_timestamp = predict_start_item.end
                     predict_timestamps.append(predict_timestamp)
 
             else:
-                predict_timestamp = TimePoint(t = predict_start_item.t + (series.resolution.as_seconds()*step), tz = predict_start_item.tz )
+                predict_timestamp = TimePoint(t = predict_start_item.t + (resolution.as_seconds()*step), tz = predict_start_item.tz )
 
             # Perform the forecast for each data label
             this_step_predict_data = {}
@@ -567,7 +573,7 @@ class PeriodicAverageForecaster(Forecaster):
                     series_index = len(series) - 1 - self.data['windows'][data_label] + j
                     real_value = series[series_index].data[data_label]
                     predict_value = self.data['averages'][data_label][_get_periodicity_index(series[series_index],
-                                                                                              series.resolution,
+                                                                                              resolution,
                                                                                               self.data['periodicities'][data_label],
                                                                                               dst_affected=self.data['dst_affected'])]
                     diffs += (real_value - predict_value)
@@ -577,7 +583,7 @@ class PeriodicAverageForecaster(Forecaster):
 
                 # Compute the forecast data
                 periodicity_index = _get_periodicity_index(predict_timestamp,
-                                                           series.resolution,
+                                                           resolution,
                                                            self.data['periodicities'][data_label],
                                                            dst_affected=self.data['dst_affected'])
 
-- 
2.43.0


From a054bffad48a43f97a234b2e930a5477bf786372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 21/84] fix: forecasters refusing to be applied in-place must
 leave the series as it was

---
 timeseria/models/forecasters.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index abde529..b9be777 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -145,8 +145,16 @@ class Forecaster(Model):
             if not context_data:
                 raise ValueError('Applying a forecaster fit to target specific data labels requires to give context data (target_data_labels={})'.format(self.data['target_data_labels']))
 
-        if not inplace:
-            series = series.duplicate()
+        if inplace:
+            # Forecast on a duplicate first, so that if this is refused the series is left as it was
+            forecasted_items = list(self.apply(series, steps=steps, context_data=context_data))[len(series):]
+            for item in series:
+                item.data_indexes['forecast'] = 0
+            for item in forecasted_items:
+                series.append(item)
+            return None
+
+        series = series.duplicate()
 
         input_series_len = len(series)
 
@@ -190,10 +198,7 @@ class Forecaster(Model):
         if input_series_len + steps != len(series):
             raise ValueError('There are missing forecasts. If your model does not support multi-step forecasting, raise a NotImplementedError if steps>1 and Timeseria will handle it for you.')
 
-        if not inplace:
-            return series
-        else:
-            return None
+        return series
 
     @Model.evaluate_function
     def evaluate(self, series, steps=1, error_metrics='auto', punctual_error_metrics=None, plot_error_distribution=False,
-- 
2.43.0


From 9e4ef1466e4f609b7eed2a93b9eddca3634ac45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:30 +0000
Subject: [PATCH 22/84] fix: reconstructors refusing to be applied in-place
 must leave the series as it was

---
 timeseria/models/reconstructors.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 6f2b75b..8137211 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -46,8 +46,15 @@ class Reconstructor(Model):
 
         logger.debug('Using data_loss_threshold="%s"', data_loss_threshold)
 
-        if not inplace:
-            series = series.duplicate()
+        if inplace:
+            # Reconstruct on a duplicate first, so that if this is refused the series is left as it was
+            for item, reconstructed_item in zip(series, self.apply(series, data_loss_threshold=data_loss_threshold)):
+                if reconstructed_item.data_indexes['data_reconstructed']:
+                    item._data = reconstructed_item.data
+                item.data_indexes['data_reconstructed'] = reconstructed_item.data_indexes['data_reconstructed']
+            return None
+
+        series = series.duplicate()
 
         gap_start_i = None
 
@@ -76,10 +83,7 @@ class Reconstructor(Model):
             logger.debug('Detected last gap: from #%s to %s', gap_start_i, i)
             self._reconstruct(series, from_i=gap_start_i, to_i=i, inplace=True)
 
-        if not inplace:
-            return series
-        else:
-            return None
+        return series
 
     def _reconstruct(self, series, from_i, to_i, inplace=False):
         logger.debug('Called _reconstruct from #%s to #%s', from_i, to_i)
-- 
2.43.0


From 9722db088e29c097f1b2f3f9623faf5901b7c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:23 +0000
Subject: [PATCH 23/84] fix: events reaching the end of the series must be
 marked as any other

---
 timeseria/models/anomaly_detectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 1eb623d..0250ee0 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -107,13 +107,13 @@ class AnomalyDetector(Model):
         if event_start is not None:
 
             # When was the last event over?
-            event_end = len(event_timeseries)
+            event_end = event_start
             for i in range(len(event_timeseries)-1, event_start, -1):
                 if  event_timeseries[i].data_indexes['anomaly'] >= index_treshold:
                     event_end = i
                     break
             logger.debug('  event was ended @ element #%s', event_end)
-            event_persistence =  event_end - event_start
+            event_persistence =  event_end - event_start + 1
             if event_persistence < min_persistence:
                 logger.debug('  discarding as below minimum persistence')
             else:
-- 
2.43.0


From 51de13d23d6dd57702ff15ea9a7b744f4f238d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:41 +0000
Subject: [PATCH 24/84] fix: marking events must support items without an
 anomaly index, as those with data losses

---
 timeseria/models/anomaly_detectors.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 0250ee0..695d87b 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -64,20 +64,24 @@ class AnomalyDetector(Model):
             event_timeseries = timeseries.duplicate()
         event_start = None
 
+        # Items for which the anomaly index could not be computed (i.e. because of data losses) are not anomalous
+        def is_anomalous(item):
+            return item.data_indexes.get('anomaly') is not None and item.data_indexes['anomaly'] >= index_treshold
+
         for i, item in enumerate(event_timeseries):
 
             # Set no event by default
             item.data_indexes['anomaly_event'] = 0
 
             # Detect new (potential) event start
-            if item.data_indexes['anomaly'] >= index_treshold:
+            if is_anomalous(item):
                 if event_start is None:
                     logger.debug('Starting to suspect event @ element #%s',i)
                     event_start = i
 
             # Detect event end
             if event_start is not None:
-                if item.data_indexes['anomaly'] < index_treshold:
+                if not is_anomalous(item):
                     logger.debug('Evaluating element #%s to trigger an event end', i)
 
                     # Are we still within the max gap? If so, don't close the (potential) event yet
@@ -86,7 +90,7 @@ class AnomalyDetector(Model):
                     event_ended = True
                     logger.debug('  checking elements from #%s to #%s', from_i, to_i)
                     for j in range(from_i, to_i+1):
-                        if event_timeseries[j].data_indexes['anomaly'] >= index_treshold:
+                        if is_anomalous(event_timeseries[j]):
                             event_ended = False
                     if event_ended:
                         logger.debug('  event was ended @ element #%s', i - max_gap - 1)
@@ -109,7 +113,7 @@ class AnomalyDetector(Model):
             # When was the last event over?
             event_end = event_start
             for i in range(len(event_timeseries)-1, event_start, -1):
-                if  event_timeseries[i].data_indexes['anomaly'] >= index_treshold:
+                if is_anomalous(event_timeseries[i]):
                     event_end = i
                     break
             logger.debug('  event was ended @ element #%s', event_end)
-- 
2.43.0


From 9f7cd939f29964e04927920b36c62f0d1c94033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 25/84] fix: the anomaly index must be bounded and follow the
 size of the error also if the error distribution is not centered

---
 timeseria/models/anomaly_detectors.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 695d87b..5315462 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -705,9 +705,8 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                 else:
                     raise ValueError('Unknown error type "{}"'.format(self.data['error_metric']))
 
-                # Reverse values on the left side of the error distribution
-                if prediction_error < self.data['error_distributions_params'][data_label]['loc']:
-                    prediction_error =  abs(prediction_error) + self.data['error_distributions_params'][data_label]['loc']
+                # The index boundaries are in terms of the size of the error, regardless of its side
+                prediction_error = abs(prediction_error)
 
                 # Compute the anomaly index in the given range (which defaults to 0, max_err)
                 # Below the start it means anomaly (0), above always anomaly (1). In the middle it
@@ -730,6 +729,9 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                             anomaly_index = index_type(x, y, x_start, x_end, y_start, y_end)
                         else:
                             raise ValueError('Unknown index type "{}"'.format(index_type))
+                    if index_type in ['lin', 'log']:
+                        # The error distribution might not be always decreasing within the boundaries
+                        anomaly_index = min(max(anomaly_index, 0), 1)
 
                 if threshold is not None:
                     if anomaly_index < threshold:
-- 
2.43.0


From 5eed3af048dc7feaa0aad3117f437bbba565d339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:38 +0000
Subject: [PATCH 26/84] fix: anomaly detection with data losses after the item,
 with tuple bounds and on items not processed

---
 timeseria/models/anomaly_detectors.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 5315462..fc8e2b8 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -582,7 +582,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         for data_label in series.data_labels():
             abs_prediction_errors = [abs(prediction_error) for prediction_error in self.data['prediction_errors'][data_label]]
             y_maxes[data_label] = error_distribution_functions[data_label](self.data['error_distributions_params'][data_label]['loc'])
-            this_index_bounds = index_bounds[:]
+            this_index_bounds = list(index_bounds)
 
             for i in range(2):
                 if isinstance(this_index_bounds[i], str):
@@ -659,12 +659,13 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                         break
                 if not abort:
                     if issubclass(self.model_class, Reconstructor):
-                        if series[i-j-1].data_loss is not None and series[i+j+1].data_loss >= data_loss_threshold:
-                            abort=True
-                            break
+                        for j in range(self.data['model_window']):
+                            if series[i+j+1].data_loss is not None and series[i+j+1].data_loss >= data_loss_threshold:
+                                abort=True
+                                break
             if abort:
-                # Just append the item as-is and continue
-                result_series.append(item)
+                # Just append the item as-is (but not shared with the original series) and continue
+                result_series.append(deepcopy(item))
                 continue
 
             # Start computing the anomaly index
@@ -750,7 +751,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                         if 'err' in details:
                             item.data['{}_err'.format(data_label)] = prediction_error
                         if 'adh' in details:
-                            item.data['{}_adh)'.format(data_label)] = y/y_max
+                            item.data['{}_adh'.format(data_label)] = y/y_max
                     elif isinstance(details, bool):
                         item.data['{}_pred'.format(data_label)] = predicted
                         item.data['{}_err'.format(data_label)] = prediction_error
-- 
2.43.0


From 7c4d796d8aaafcc66432c7f6063665a849d39c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 27/84] fix: a refused fit must leave the model parameters as
 they were

---
 timeseria/models/base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index dcd8f22..3d8ddc7 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -175,6 +175,9 @@ class Model():
             if not isinstance(series, TimeSeries):
                 raise TypeError('Models work only with TimeSeries data for now (got "{}")'.format(series.__class__.__name__))
 
+            # Keep the current parameters, to be restored should the fit be refused
+            previous_data = dict(self.data)
+
             # If TimeSeries data, check it
             if isinstance(series, TimeSeries):
                 _check_timeseries(series)
@@ -192,7 +195,11 @@ class Model():
                     pass
 
             # Call fit logic
-            fit_output = fit_function(self, series, *args, **kwargs)
+            try:
+                fit_output = fit_function(self, series, *args, **kwargs)
+            except Exception:
+                self.data = previous_data
+                raise
 
             self.data['fitted_at'] = now_s()
             self.fitted = True
-- 
2.43.0


From 2321a049d171f61ab763a463a5188f740618b6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 28/84] fix: periodic average reconstructors loaded from a file
 could not be used

---
 timeseria/models/reconstructors.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 8137211..d9abd8e 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -377,6 +377,13 @@ class PeriodicAverageReconstructor(Reconstructor):
 
     window = 1
 
+    @classmethod
+    def load(cls, path):
+        model = super().load(path)
+        # Convert the average dict keys back to integers
+        model.data['averages'] = {int(key):value for key, value in model.data['averages'].items()}
+        return model
+
     @Reconstructor.fit_function
     def fit(self, series, periodicity='auto', dst_affected=False, offset_method='average', data_loss_limit=1.0, verbose=False):
         # TODO: periodicity, dst_affected, offset_method -> move them in the init?
-- 
2.43.0


From 0445c05d12b36cb4149b16d765eb87f6be272f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 29/84] fix: models fitted on series with no resolution could
 not be loaded back

---
 timeseria/models/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 3d8ddc7..9ca827e 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -103,7 +103,7 @@ class Model():
 
         # Convert resolution to TimeUnit if any. TODO: right now only TimeSeries have the resolution,
         # but might change in case of adding the resolution attribute also to generic series.
-        if 'resolution' in model.data:
+        if model.data.get('resolution') is not None:
             model.data['resolution'] = TimeUnit(model.data['resolution'])
 
         return model
@@ -133,7 +133,7 @@ class Model():
         # Temporary change the resolution to its string representation (if any)
         if 'resolution' in self.data:
             resolution_obj = self.data['resolution']
-            self.data['resolution'] = str(resolution_obj)
+            self.data['resolution'] = str(resolution_obj) if resolution_obj is not None else None
 
         # Write the data
         try:
-- 
2.43.0


From 4543fefbc14712c71142d6fca8db1f21e34c8b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 30/84] fix: anomaly detectors fitted without storing the
 errors could not be applied

---
 timeseria/models/anomaly_detectors.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index fc8e2b8..141e6d7 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -427,6 +427,18 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
             self.data['actual_values'] = actual_values
             self.data['predicted_values'] = predicted_values
             self.data['prediction_errors'] = prediction_errors
+        else:
+            # Discard those of a previous fit, if any
+            for key in ['actual_values', 'predicted_values', 'prediction_errors']:
+                self.data.pop(key, None)
+
+            # These are in any case required for the index bounds
+            self.data['max_errors'] = {}
+            self.data['avg_errors'] = {}
+            for data_label in series.data_labels():
+                abs_prediction_errors = [abs(prediction_error) for prediction_error in prediction_errors[data_label]]
+                self.data['max_errors'][data_label] = max(abs_prediction_errors)
+                self.data['avg_errors'][data_label] = sum(abs_prediction_errors)/len(abs_prediction_errors)
 
         logger.info('Anomaly detector fitted')
 
@@ -580,16 +592,22 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         y_maxes = {}
 
         for data_label in series.data_labels():
-            abs_prediction_errors = [abs(prediction_error) for prediction_error in self.data['prediction_errors'][data_label]]
+            if 'prediction_errors' in self.data:
+                abs_prediction_errors = [abs(prediction_error) for prediction_error in self.data['prediction_errors'][data_label]]
+                max_error = max(abs_prediction_errors)
+                avg_error = sum(abs_prediction_errors)/len(abs_prediction_errors)
+            else:
+                max_error = self.data['max_errors'][data_label]
+                avg_error = self.data['avg_errors'][data_label]
             y_maxes[data_label] = error_distribution_functions[data_label](self.data['error_distributions_params'][data_label]['loc'])
             this_index_bounds = list(index_bounds)
 
             for i in range(2):
                 if isinstance(this_index_bounds[i], str):
                     if this_index_bounds[i] == 'max_err':
-                        this_index_bounds[i] = max(abs_prediction_errors)
+                        this_index_bounds[i] = max_error
                     elif this_index_bounds[i] == 'avg_err':
-                        this_index_bounds[i] = sum(abs_prediction_errors)/len(abs_prediction_errors)
+                        this_index_bounds[i] = avg_error
                     elif this_index_bounds[i].endswith('_sigma'):
                         this_index_bounds[i] = float(this_index_bounds[i].replace('_sigma',''))*self.data['stdevs'][data_label]
                     elif this_index_bounds[i].endswith('sig'):
-- 
2.43.0


From 5c6efa2105c187f51d2edb2de3d695db4534d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 31/84] fix: the MAPE of the reconstructors was relative to the
 predicted values instead of the actual ones

---
 timeseria/models/reconstructors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index d9abd8e..7b39ff9 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -267,7 +267,7 @@ class Reconstructor(Model):
                 if 'MAE' in metrics:
                     evaluation_score['MAE_{}_steps'.format(steps_round)] = mean_absolute_error(overall_predicted_values, overall_actual_values)
                 if 'MAPE' in metrics:
-                    evaluation_score['MAPE_{}_steps'.format(steps_round)] = mean_absolute_percentage_error(overall_predicted_values, overall_actual_values)
+                    evaluation_score['MAPE_{}_steps'.format(steps_round)] = mean_absolute_percentage_error(overall_actual_values, overall_predicted_values)
 
         # Compute overall RMSE
         if 'RMSE' in metrics:
-- 
2.43.0


From 0235015cb7d34ee90eaad6797938eff760abeaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 32/84] fix: evaluating forecasters with no window and
 returning the results series raised a KeyError

---
 timeseria/models/forecasters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index b9be777..4a998fc 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -271,7 +271,7 @@ class Forecaster(Model):
                 raise ValueError('Returning the evaluation series is only supported with single step ahead forecasts')
 
             results_series = series.duplicate()
-            if self.data['window']:
+            if self.data.get('window'):
                 results_series = results_series[self.data['window']:]
 
         # Support vars
-- 
2.43.0


From 74c20f7afecd68703dd133fbc989720e9febd4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 33/84] fix: changing the time zone of an empty series raised
 an UnboundLocalError

---
 timeseria/datastructures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 05747f6..80750d0 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1437,9 +1437,9 @@ class TimeSeries(Series):
 
     def change_tz(self, tz):
         """Change the time zone of the time series, in-place."""
-        for time_point in self:
-            time_point.change_tz(tz)
-        self._tz = time_point.tz
+        for item in self:
+            item.change_tz(tz)
+        self._tz = timezonize(tz)
 
     def as_tz(self, tz):
         """Get a copy of the time series on a new time zone."""
-- 
2.43.0


From 2758d6549e02b5eb5fdac0d9755dabfcdac19ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 34/84] fix: changing the time zone of a slot also moved the
 points shared with its neighbours

---
 timeseria/datastructures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 80750d0..b004104 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -2,7 +2,7 @@
 """Base data structures as Points, Slots and Series."""
 
 import json
-from copy import deepcopy
+from copy import copy, deepcopy
 from pandas import DataFrame
 from datetime import datetime
 from pytz import UTC
@@ -450,6 +450,9 @@ class TimeSlot(Slot):
 
     def change_tz(self, tz):
         """Change the time zone of the slot, in-place."""
+        # Start and end points might be shared with other slots
+        self.start = copy(self.start)
+        self.end = copy(self.end)
         self.start.change_tz(tz)
         self.end.change_tz(tz)
         self.tz = self.start.tz
-- 
2.43.0


From b9a267a119a30f21bdb6e7218bb5940f8a5f98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:02 +0000
Subject: [PATCH 35/84] fix: comparing slots with unrelated objects raised an
 AttributeError

---
 timeseria/datastructures.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index b004104..a40b032 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -352,11 +352,14 @@ class Slot():
         return self.__repr__()
 
     def __eq__(self, other):
-        if not self.start == other.start:
-            return False
-        if not self.end == other.end:
+        try:
+            if not self.start == other.start:
+                return False
+            if not self.end == other.end:
+                return False
+            return True
+        except AttributeError:
             return False
-        return True
 
     def __succedes__(self, other):
         if other.end != self.start:
@@ -539,8 +542,11 @@ class DataSlot(Slot):
             return 'Slot @ [{},{}] with data "{}"'.format(self.start.__coordinates_repr__, self.end.__coordinates_repr__, self.data)
 
     def __eq__(self, other):
-        if self._data != other._data:
-            return False
+        try:
+            if self._data != other._data:
+                return False
+        except AttributeError:
+            pass
         return super(DataSlot, self).__eq__(other)
 
     @property
-- 
2.43.0


From b5e05796370ed6a0a0c8dcaae92a42185996976e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 36/84] fix: cross validation never held out the last items
 when their number was not a multiple of the rounds

---
 timeseria/models/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 9ca827e..1d5beae 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -367,7 +367,11 @@ class Model():
         evaluations = []
         for i in range(rounds):
             validate_from_i = round_items*i
-            validate_to_i =   (round_items*i)+round_items
+            if i == rounds-1:
+                # The last round takes all the remaining items
+                validate_to_i = len(series)
+            else:
+                validate_to_i = (round_items*i)+round_items
             validate_from_t = series[validate_from_i].t
             try:
                 validate_to_t = series[validate_to_i].t
-- 
2.43.0


From 2e8882c96bcbc96c6cd177d7b7e59a65ee51a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 37/84] fix: cross validation with more rounds than items
 fitted and evaluated on the wrong items

---
 timeseria/models/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 1d5beae..15057ed 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -341,6 +341,10 @@ class Model():
         if isinstance(series, TimeSeries):
             _check_timeseries(series)
 
+        # Check the rounds, each one requires something to fit and something to evaluate on
+        if rounds < 2 or rounds > len(series):
+            raise ValueError('Cannot cross-validate on #{} items with {} rounds'.format(len(series), rounds))
+
         # Decouple evaluate from fit args
         fit_kwargs = {}
         evaluate_kwargs = {}
-- 
2.43.0


From 346b9c6a41c449d63573d8417400bd00d81558ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 38/84] fix: the LSTM forecaster could not target a list of
 data labels

---
 timeseria/models/forecasters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 4a998fc..9452746 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -898,10 +898,10 @@ class LSTMForecaster(Forecaster, _KerasModel):
         else:
             if isinstance(target, str):
                 target_data_labels = [target]
-            elif isinstance(target_data_labels, list):
+            elif isinstance(target, list):
                 target_data_labels = target
             else:
-                raise TypeError('Don\'t know how to target for data labels as type "{}"'.format(target_data_labels.__class__.__name__))
+                raise TypeError('Don\'t know how to target for data labels as type "{}"'.format(target.__class__.__name__))
             for target_data_label in target_data_labels:
                 if target_data_label not in series.data_labels():
                     raise ValueError('Cannot target data label "{}" as not found in the series labels ({})'.format(target_data_label, series.data_labels()))
-- 
2.43.0


From 0165a78669ceb702499988f61700ff7e70a0c160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 39/84] fix: the LSTM forecaster raised a ZeroDivisionError
 when fitted on constant data

---
 timeseria/models/forecasters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 9452746..ce5c21b 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -935,6 +935,11 @@ class LSTMForecaster(Forecaster, _KerasModel):
             min_values = series.min()
             max_values = series.max()
 
+            # Constant data labels have no range to scale on
+            for data_label in max_values:
+                if max_values[data_label] == min_values[data_label]:
+                    max_values[data_label] = min_values[data_label] + 1
+
             # Normalize series
             for datapoint in series:
                 for data_label in datapoint.data:
-- 
2.43.0


From c25d06137a7240d5fde14d66cbc1e203542a75ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 40/84] fix: the LSTM forecaster kept on normalizing once
 fitted again without normalization

---
 timeseria/models/forecasters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index ce5c21b..3d1c140 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -949,6 +949,12 @@ class LSTMForecaster(Forecaster, _KerasModel):
             self.data['min_values'] = min_values
             self.data['max_values'] = max_values
 
+        else:
+
+            # Forget the normalization factors of a previous fit, if any
+            self.data.pop('min_values', None)
+            self.data.pop('max_values', None)
+
         # Move to matrix representation
         window_elements_matrix, target_values_vector, context_data_vector = self._to_matrix_representation(series = series,
                                                                                                            window = self.data['window'],
-- 
2.43.0


From 487fd5f58e84f8bf8cb8f0a8126ff2bc7d50bfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:56 +0000
Subject: [PATCH 41/84] fix: context data could not be used by the LSTM
 forecaster on slots, nor on a single point

---
 timeseria/models/base.py        | 7 +++++--
 timeseria/models/forecasters.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 15057ed..197dced 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -14,7 +14,7 @@ import shutil
 from ..exceptions import NotFittedError
 from ..utilities import _check_timeseries, _check_resolution, _check_data_labels, _item_is_in_range
 from ..units import TimeUnit
-from ..datastructures import Point, Series, TimeSeries, TimeSeriesView
+from ..datastructures import Point, Slot, Series, TimeSeries, TimeSeriesView
 
 # Setup logging
 import logging
@@ -641,7 +641,10 @@ class _KerasModel(Model):
         # Handle context data if any (as "fake", context datapoint).
         if context_data:
             context_datapoint_dt = window_datapoints[-1].dt + time_unit
-            context_datapoint = window_datapoints[-1].__class__(dt = context_datapoint_dt, data = context_data)
+            if isinstance(window_datapoints[-1], Slot):
+                context_datapoint = window_datapoints[-1].__class__(dt = context_datapoint_dt, unit = time_unit, data = context_data)
+            else:
+                context_datapoint = window_datapoints[-1].__class__(dt = context_datapoint_dt, data = context_data)
             window_datapoints.append(context_datapoint)
 
         # Compute the features
diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 3d1c140..efec430 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -1042,7 +1042,7 @@ class LSTMForecaster(Forecaster, _KerasModel):
                     context_data[data_label] = (context_data[data_label] - self.data['min_values'][data_label]) / (self.data['max_values'][data_label] - self.data['min_values'][data_label])
 
         # Compute window (plus context) features
-        window_features = self._compute_window_features(window_datapoints, data_labels=self.data['data_labels'], time_unit=series.resolution, features=self.data['features'], context_data=context_data)
+        window_features = self._compute_window_features(window_datapoints, data_labels=self.data['data_labels'], time_unit=self.data['resolution'], features=self.data['features'], context_data=context_data)
 
         # Perform the predict and set prediction data
         yhat = self.keras_model.predict(array([window_features]), verbose=verbose)
-- 
2.43.0


From 7acbdbbb27d5a3eb56d8b148c91a6972af6644f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 42/84] fix: guessing the resolution of empty series and
 detecting the sampling interval of a single point raised unrelated errors

---
 timeseria/datastructures.py | 4 ++--
 timeseria/utilities.py      | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index a40b032..36129cc 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1509,10 +1509,10 @@ class TimeSeries(Series):
                confidence (bool): if to return, together with the guessed resolution, also its confidence (in a 0-1 range).
 
         """
-        if not issubclass(self.item_type, TimePoint):
-            raise NotImplementedError('Guessing the resolution is implemented only for point series')
         if not self:
             raise ValueError('Cannot guess the resolution for an empty time series')
+        if not issubclass(self.item_type, TimePoint):
+            raise NotImplementedError('Guessing the resolution is implemented only for point series')
         if len(self) == 1:
             raise ValueError('Cannot guess the resolution for a time series with only one point')
         if self.resolution != 'variable':
diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 815f8bb..a132321 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -86,6 +86,9 @@ def detect_encoding(file_name, streaming=False):
 def detect_sampling_interval(timeseries, confidence=False):
     """Detect the sampling interval of a time series."""
 
+    if confidence and len(timeseries) < 2:
+        raise ValueError('Cannot detect the sampling interval of a time series with less than two points')
+
     diffs={}
     prev_point=None
     for point in timeseries:
-- 
2.43.0


From 1fa4169bbdf9daf7a89feedf61b5a0f9e436f771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 43/84] fix: validity regions cut on an interval could leave
 their point out

---
 timeseria/utilities.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index a132321..5766d40 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -635,13 +635,6 @@ def _compute_validity_regions(series, from_t=None, to_t=None, sampling_interval=
         if to_t is not None and point_valid_from_t > to_t:
             break
 
-        # Shrink with respect to start-end if required
-        if cut:
-            if from_t is not None and point_valid_from_t < from_t:
-                point_valid_from_t = from_t
-            if to_t is not None and point_valid_to_t > to_t:
-                point_valid_to_t = to_t
-
         # Shrink if overlaps: if the previous point validity overlap with ours, resize both
         if prev_point_t is not None:
             if point_valid_from_t < validity_segments[prev_point_t][1]:
@@ -656,6 +649,17 @@ def _compute_validity_regions(series, from_t=None, to_t=None, sampling_interval=
         # Set previous point timestamp
         prev_point_t = point.t
 
+    # Shrink with respect to start-end if required. This comes last, or the overlaps would not be computed correctly
+    if cut:
+        for t in list(validity_segments):
+            if from_t is not None and validity_segments[t][0] < from_t:
+                validity_segments[t][0] = from_t
+            if to_t is not None and validity_segments[t][1] > to_t:
+                validity_segments[t][1] = to_t
+            if validity_segments[t][0] > validity_segments[t][1]:
+                # Nothing left within the interval
+                del validity_segments[t]
+
     return validity_segments
 
 
-- 
2.43.0


From 0a12f03f605ce64b28502f221d90ab48294ced97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 44/84] fix: data frames with a yearly or weekly frequency were
 not converted to slots

---
 timeseria/datastructures.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 36129cc..f107b53 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1697,25 +1697,18 @@ class TimeSeries(Series):
 
         else:
 
-            # Calendar
-            unit_str_pd=unit_str_pd.replace('A', 'Y')    # Year (end) ?
-            unit_str_pd=unit_str_pd.replace('Y', 'Y')    # Year (end) )
-            unit_str_pd=unit_str_pd.replace('AS', 'Y')   # Year (start)
-            unit_str_pd=unit_str_pd.replace('YS', 'Y')   # Year (start)
-            unit_str_pd=unit_str_pd.replace('MS', 'M')   # Month (start)
-            unit_str_pd=unit_str_pd.replace('M', 'M')    # Month (end)
-            unit_str_pd=unit_str_pd.replace('D', 'D')    # Day
-
-            # Physical
-            unit_str_pd=unit_str_pd.replace('H', 'h')    # Hour
-            unit_str_pd=unit_str_pd.replace('T', 'm')    # Minute
-            unit_str_pd=unit_str_pd.replace('min', 'm')  # Minute
-            unit_str_pd=unit_str_pd.replace('S', 's')    # Second
-
-            if len(unit_str_pd) == 1:
-                unit_str = '1'+unit_str_pd
-            else:
-                unit_str = unit_str_pd
+            # Separate the multiplier, and leave out where the period is anchored (i.e. "2W-SUN", "AS-JAN")
+            unit_type_pd = unit_str_pd.split('-')[0].lstrip('0123456789')
+            unit_value = unit_str_pd.split('-')[0][:-len(unit_type_pd)] or '1'
+
+            # Calendar (year, month and day, starts and ends) and physical units
+            unit_str = unit_value + {'A': 'Y', 'AS': 'Y', 'Y': 'Y', 'YS': 'Y',
+                                     'M': 'M', 'MS': 'M',
+                                     'W': 'W',
+                                     'D': 'D',
+                                     'H': 'h',
+                                     'T': 'm', 'min': 'm',
+                                     'S': 's'}.get(unit_type_pd, unit_type_pd)
 
             unit_type = ''.join([char for char in unit_str if not char.isdigit()])
 
@@ -1734,6 +1727,8 @@ class TimeSeries(Series):
         if item_type==DataTimeSlot:
 
             # Init the unit
+            if not unit_str_pd:
+                raise ValueError('Cannot infer the frequency of the dataframe, cannot create slots')
             unit = TimeUnit(unit_str)
 
             # Create data time points list
-- 
2.43.0


From 6e51938afd936175567eef321bbc0cd6b577c7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 45/84] fix: the data loss was read from data frames as one of
 the data labels

---
 timeseria/datastructures.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index f107b53..4fda61a 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -3,7 +3,7 @@
 
 import json
 from copy import copy, deepcopy
-from pandas import DataFrame
+from pandas import DataFrame, notna
 from datetime import datetime
 from pytz import UTC
 from propertime import Time
@@ -1747,8 +1747,13 @@ class TimeSeries(Series):
 
                 # Prepare data
                 data = {}
+                data_indexes = {}
                 for i,label in enumerate(labels):
-                    data[label] = row[1][i]
+                    if label == 'data_loss':
+                        if notna(row[1].iloc[i]):
+                            data_indexes[label] = row[1].iloc[i]
+                    else:
+                        data[label] = row[1].iloc[i]
 
                 if dt.tzinfo is None:
                     if not naive_warned:
@@ -1756,7 +1761,7 @@ class TimeSeries(Series):
                         naive_warned = True
                     dt = UTC.localize(dt)
 
-                datatimeslots.append(DataTimeSlot(dt=dt, unit=unit, data=data))
+                datatimeslots.append(DataTimeSlot(dt=dt, unit=unit, data=data, data_indexes=data_indexes))
 
             # Set the list of data time points
             return cls(*datatimeslots)
@@ -1778,8 +1783,13 @@ class TimeSeries(Series):
 
                 # Prepare data
                 data = {}
+                data_indexes = {}
                 for i,label in enumerate(labels):
-                    data[label] = row[1][i]
+                    if label == 'data_loss':
+                        if notna(row[1].iloc[i]):
+                            data_indexes[label] = row[1].iloc[i]
+                    else:
+                        data[label] = row[1].iloc[i]
 
                 if dt.tzinfo is None:
                     if not naive_warned:
@@ -1787,7 +1797,7 @@ class TimeSeries(Series):
                         naive_warned = True
                     dt = UTC.localize(dt)
 
-                datatimepoints.append(DataTimePoint(dt=dt, data=data))
+                datatimepoints.append(DataTimePoint(dt=dt, data=data, data_indexes=data_indexes))
 
             # Set the list of data time points
             return cls(*datatimepoints)
-- 
2.43.0


From 193ef23377fb3016e1eda59d0ce15d9138666ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:26 +0000
Subject: [PATCH 46/84] fix: series with list data could not be converted to
 data frames

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 4fda61a..1f670f7 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1819,7 +1819,7 @@ class TimeSeries(Series):
 
         df = DataFrame(columns=columns)
         for item in self:
-            values = [item.data[data_label] for data_label in data_labels]
+            values = [item._data_by_label(data_label) for data_label in data_labels]
             if dump_data_loss:
                 df = df.append(DataFrame([[item.dt]+values+[item.data_loss]], columns=columns))
             else:
-- 
2.43.0


From 20c35c28ea69c3ca7d98fc7c38071a5c4afefcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:44 +0000
Subject: [PATCH 47/84] fix: the tail of zero items was the entire series

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 1f670f7..df7a64a 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1174,7 +1174,7 @@ class Series(list):
             Args:
                 n: the number of last elements to return .
         """
-        return list(self[-n:])
+        return list(self[-n:]) if n else []
 
 
 
-- 
2.43.0


From 420906d7c0fa52b230f9fd170c5026d1b9841527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:44 +0000
Subject: [PATCH 48/84] fix: looking items up in views, or iterating them in
 reverse, never found any

---
 timeseria/datastructures.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index df7a64a..25e8cba 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1918,6 +1918,24 @@ class TimeSeriesView(TimeSeries):
         else:
             return super().__iter__()
 
+    def __reversed__(self):
+        if self.series:
+            return (self.series[i] for i in range(self.to_i-1, self.from_i-1, -1))
+        else:
+            return super().__reversed__()
+
+    def __contains__(self, x):
+        if self.series:
+            return any(item is x or item == x for item in self)
+        else:
+            return super().__contains__(x)
+
+    def index(self, x, start=None, end=None):
+        if self.series:
+            return list(self).index(x, 0 if start is None else start, len(self) if end is None else end)
+        else:
+            return super().index(x, start, end)
+
     def __len__(self):
         if self.series:
             return self.to_i-self.from_i
-- 
2.43.0


From 882b7c31b8f42f6b3d25a02f590116ac8243aee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:05 +0000
Subject: [PATCH 49/84] fix: views were all equal to each other, and different
 from the series they denote

---
 timeseria/datastructures.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 25e8cba..ed630c9 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1930,6 +1930,18 @@ class TimeSeriesView(TimeSeries):
         else:
             return super().__contains__(x)
 
+    def __eq__(self, other):
+        if self.series and isinstance(other, list):
+            return list(self) == list(other)
+        else:
+            return super().__eq__(other)
+
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return super().__hash__()
+
     def index(self, x, start=None, end=None):
         if self.series:
             return list(self).index(x, 0 if start is None else start, len(self) if end is None else end)
-- 
2.43.0


From e58d1a87da3007d7f0d8b72dac1addcce1343ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:18 +0000
Subject: [PATCH 50/84] fix: the step was silently ignored when slicing time
 series, now it is refused

---
 timeseria/datastructures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index ed630c9..987caa8 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1391,6 +1391,8 @@ class TimeSeries(Series):
 
     def __getitem__(self, arg):
         if isinstance(arg, slice):
+            if arg.step not in (None, 1):
+                raise ValueError('Slicing time series with a step is not supported (got a step of "{}")'.format(arg.step))
             if isinstance(arg.start, int) or isinstance(arg.stop, int):
                 return self.slice(from_i=arg.start, to_i=arg.stop)
             elif isinstance(arg.start, float) or isinstance(arg.stop, float):
@@ -1898,7 +1900,7 @@ class TimeSeriesView(TimeSeries):
     def __getitem__(self, arg):
         if self.series:
             if isinstance(arg, slice):
-                if isinstance(arg.start, (int, type(None))) and isinstance(arg.stop, (int, type(None))):
+                if isinstance(arg.start, (int, type(None))) and isinstance(arg.stop, (int, type(None))) and arg.step in (None, 1):
                     # Positions are relative to the view, and never go beyond it
                     slice_start, slice_stop, _ = slice(arg.start, arg.stop).indices(len(self))
                     return self.series[self.from_i + slice_start : self.from_i + slice_stop]
-- 
2.43.0


From 8c11a187a97d3ab724de5c442ad7571aaa173e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 51/84] fix: new items were checked against the labels of an
 item removed in the meanwhile

---
 timeseria/datastructures.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 987caa8..daa2e89 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -708,16 +708,19 @@ class Series(list):
         super(Series, self).append(item)
 
     def _check_item_data(self, item):
-        if not type(self._item_data_reference) == type(item.data):
-            raise TypeError('Got different data: {} vs {}'.format(self._item_data_reference.__class__.__name__, item.data.__class__.__name__))
+        # Check against the current first item, as the labels might have been edited since it was appended
+        reference = self[0].data
 
-        if isinstance(self._item_data_reference, list):
-            if len(self._item_data_reference) != len(item.data):
-                raise ValueError('Got different data lengths: {} vs {}'.format(len(self._item_data_reference), len(item.data)))
+        if not type(reference) == type(item.data):
+            raise TypeError('Got different data: {} vs {}'.format(reference.__class__.__name__, item.data.__class__.__name__))
 
-        if isinstance(self._item_data_reference, dict):
-            if set(self._item_data_reference.keys()) != set(item.data.keys()):
-                raise ValueError('Got different data labels: {} vs {}'.format(self._item_data_reference.keys(), item.data.keys()))
+        if isinstance(reference, list):
+            if len(reference) != len(item.data):
+                raise ValueError('Got different data lengths: {} vs {}'.format(len(reference), len(item.data)))
+
+        if isinstance(reference, dict):
+            if set(reference.keys()) != set(item.data.keys()):
+                raise ValueError('Got different data labels: {} vs {}'.format(reference.keys(), item.data.keys()))
 
     def __sum__(self, other):
         raise NotImplementedError
-- 
2.43.0


From 9ce55a4ebdb58ed95a9359ea65ad9148d94e9f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 52/84] fix: renaming a data label to another one of the series
 silently overwrote its values

---
 timeseria/datastructures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index daa2e89..4ba0af6 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -935,6 +935,8 @@ class Series(list):
         """Rename a data label, in-place."""
         if len(self) > 0 and not self._item_data_reference:
             raise TypeError('Series items have no data, cannot rename a label')
+        if len(self) > 0 and new_data_label != old_data_label and {old_data_label, new_data_label} <= set(self.data_labels()):
+            raise ValueError('The series already has a data label "{}", cannot rename "{}"'.format(new_data_label, old_data_label))
         for item in self:
             # TODO: move to the DataPoint/DataSlot?
             item.data[new_data_label] = item.data.pop(old_data_label)
-- 
2.43.0


From 9a1ab3b69458fe5ad3b170f9ed20615ce4e6e94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:09 +0000
Subject: [PATCH 53/84] fix: marks in time zones behind UTC could not be
 plotted

---
 timeseria/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 24e70b4..59ce28f 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -105,7 +105,7 @@ def _utc_fake_s_from_dt(dt):
     if '+' in dt_str:
         return s_from_dt(dt_from_str(dt_str.split('+')[0]+'+00:00'))
     elif '-' in dt_str:
-        return s_from_dt(dt_from_str(dt_str.split('-')[0]+'+00:00'))
+        return s_from_dt(dt_from_str(dt_str.rsplit('-', 1)[0]+'+00:00'))
     else:
         raise ValueError('Cannot convert to fake UTC epoch a datetime without a timezone')
 
-- 
2.43.0


From ca9f468d654bb50a4701b04013ddc2b6514ae9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:09 +0000
Subject: [PATCH 54/84] fix: plots with aggregation left out the last items

---
 timeseria/plots.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 59ce28f..f33a219 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -233,7 +233,11 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
                     pass
 
             # Dump aggregated data?
-            if (i!=0)  and ((i % aggregate_by)==0):
+            if (i % aggregate_by)==0 or i == len(serie):
+
+                # The last aggregation might have less items
+                aggregated_items = (i % aggregate_by) or aggregate_by
+
                 if issubclass(serie.item_type, DataTimePoint):
                     last_t = item.t
                 elif issubclass(serie.item_type,DataTimeSlot):
@@ -243,7 +247,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
 
                 # Data
                 for i, label in enumerate(labels):
-                    avg = data_sums[i]/aggregate_by
+                    avg = data_sums[i]/aggregated_items
                     if full_precision:
                         data_part+='[{},{},{}],'.format(data_mins[i], avg, data_maxs[i])
                     else:
@@ -252,7 +256,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
                 # data_indexes
                 for i, index in enumerate(data_indexes_to_plot):
                     if index_sums[i] is not None:
-                        aggregated_index_value = index_sums[i]/aggregate_by
+                        aggregated_index_value = index_sums[i]/aggregated_items
                         if full_precision:
                             data_part+='[0,{},{}],'.format(aggregated_index_value,aggregated_index_value)
                         else:
-- 
2.43.0


From fb107b8bf8574acb088ce2bc49c7d7fc32313649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:09 +0000
Subject: [PATCH 55/84] fix: plots with aggregation counted items without an
 index as if it were zero

---
 timeseria/plots.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index f33a219..c15fa76 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -167,6 +167,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
             data_mins = [None for label in labels]
             data_maxs = [None for label in labels]
             index_sums = [0 for index in data_indexes_to_plot]
+            index_counts = [0 for index in data_indexes_to_plot]
 
 
         #====================
@@ -229,6 +230,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
                     index_value = item.data_indexes[index]
                     if index_value is not None:
                         index_sums[j] += index_value
+                        index_counts[j] += 1
                 except KeyError:
                     pass
 
@@ -255,8 +257,8 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
 
                 # data_indexes
                 for i, index in enumerate(data_indexes_to_plot):
-                    if index_sums[i] is not None:
-                        aggregated_index_value = index_sums[i]/aggregated_items
+                    if index_counts[i]:
+                        aggregated_index_value = index_sums[i]/index_counts[i]
                         if full_precision:
                             data_part+='[0,{},{}],'.format(aggregated_index_value,aggregated_index_value)
                         else:
@@ -284,6 +286,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
                 data_mins = [None for label in labels]
                 data_maxs = [None for label in labels]
                 index_sums = [0 for index in data_indexes_to_plot]
+                index_counts = [0 for index in data_indexes_to_plot]
                 first_t = None
 
         #====================
-- 
2.43.0


From 2301aee50737fc0464e9277f4f4678b72a365636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:09 +0000
Subject: [PATCH 56/84] fix: the vertical range of plots left negative values
 out

---
 timeseria/plots.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index c15fa76..b6004fd 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -729,13 +729,13 @@ function legendFormatter(data) {
         plot_max = str(global_max+((global_max-global_min)*0.1))
     else:
         # Case where there is a straight line
-        plot_min = str(global_min*0.99)
-        plot_max = str(global_max*1.01)
+        plot_min = str(global_min-(abs(global_min)*0.01 or 0.01))
+        plot_max = str(global_max+(abs(global_max)*0.01 or 0.01))
 
     # Overwrite plot min and max?
     if value_range != 'auto':
-        plot_min = str(value_range[0]*0.99)
-        plot_max = str(value_range[1]*1.01)
+        plot_min = str(value_range[0]-(abs(value_range[0])*0.01))
+        plot_max = str(value_range[1]+(abs(value_range[1])*0.01))
 
     #dygraphs_javascript += '"Timestamp,{}\\n{}",'.format(labels, dg_data)
     dygraphs_javascript += '{},'.format(dg_data)
-- 
2.43.0


From 2fed7c2e2300efe2ebb18eca607019219abfa4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:09 +0000
Subject: [PATCH 57/84] fix: transformations ended where asked to only if there
 was no gap there

---
 timeseria/transformations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index f8b3f7a..ac9c755 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -588,6 +588,10 @@ class Transformation(object):
                 while slot_end_t <= point.t:
                     logger.debug('Checking for end %s with point %s', slot_end_t, point.t)
 
+                    if slot_start_t is not None and slot_start_t >= to_t:
+                        # If the slot is after the end, which happens if there is a gap there, we are done
+                        break
+
                     if slot_start_t is None:
                         # If we are in the pre-first slot, just silently spin a new slot
                         pass
-- 
2.43.0


From 61bbd669c0fdb9bc3c194616c929b5628713e1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:09 +0000
Subject: [PATCH 58/84] fix: moving averages with a wrong window were refused
 with an unrelated error

---
 timeseria/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 314f9ab..7ffb9d0 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -763,7 +763,7 @@ class MAvg(Operation):
         _check_indexed_data(series)
 
         if not window or window <1:
-            raise ValueError('A integer window >0 is required (got window="{}"'.frmat(window))
+            raise ValueError('A integer window >0 is required (got window="{}")'.format(window))
 
         if inplace:
             raise NotImplementedError('Computing a moving average in-place is not supported as it would change the series length')
-- 
2.43.0


From 9c664188f4d8da31a26bffb1b62f71963a76f4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:39 +0000
Subject: [PATCH 59/84] fix: the Prophet reconstructor asked for UTC times
 while being fitted on local ones

---
 timeseria/models/reconstructors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 7b39ff9..7e36621 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -541,7 +541,7 @@ class ProphetReconstructor(Reconstructor, _ProphetModel):
         items_to_reconstruct = []
         for j in range(from_i, to_i+1):
             items_to_reconstruct.append(series[j])
-        data_to_reconstruct = [self._remove_timezone(dt_from_s(item.t)) for item in items_to_reconstruct]
+        data_to_reconstruct = [self._remove_timezone(item.dt) for item in items_to_reconstruct]
         dataframe_to_reconstruct = DataFrame(data_to_reconstruct, columns = ['ds'])
 
         # Apply Prophet fit
-- 
2.43.0


From d93c83835b2f162ad75afce59ebfc0de862b4fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:53 +0000
Subject: [PATCH 60/84] fix: the ARIMA forecaster did not work with the
 supported versions of statsmodels

---
 timeseria/models/forecasters.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index efec430..5729aa6 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -710,7 +710,7 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
     @Forecaster.fit_function
     def fit(self, series, verbose=False):
 
-        import statsmodels.api as sm
+        from statsmodels.tsa.arima.model import ARIMA
 
         if len(series.data_labels()) > 1:
             raise Exception('Multivariate time series require to have the data_label of the prediction specified')
@@ -719,8 +719,8 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
         data = array(series.to_df()[data_label])
 
         # Save model and fit
-        self.model = sm.tsa.ARIMA(data, (self.p,self.d,self.q))
-        self.model_res = self.model.fit(disp=verbose)
+        self.model = ARIMA(data, order=(self.p,self.d,self.q))
+        self.model_res = self.model.fit(method_kwargs={'disp': verbose})
 
         # Save the series we used for the fit.
         self.fit_series = series
@@ -739,8 +739,8 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
         if self.fit_series[-1].t != series[-1].t:
             raise NonContiguityError('Sorry, this model can be applied only on a time series ending with the same timestamp as the time series used for the fit.')
 
-        # Return the predicion. We need the [0] to access yhat, other indexes are erorrs etc.
-        return [{data_label: value} for value in self.model_res.forecast(steps)[0]]
+        # Return the predicion
+        return [{data_label: value} for value in self.model_res.forecast(steps)]
 
 
 #=========================
-- 
2.43.0


From 0a0d3d319fbc11c1e709c57dce6c5434e1923268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:57 +0000
Subject: [PATCH 61/84] fix: ARIMA forecasters forecasted the past once the
 series used for the fit was extended

---
 timeseria/models/forecasters.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 5729aa6..ee6ec0b 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -641,8 +641,8 @@ class ProphetForecaster(Forecaster, _ProphetModel):
         # Fit tjhe Prophet model
         self.prophet_model.fit(data)
 
-        # Save the series we used for the fit.
-        self.fit_series = series
+        # Save the series we used for the fit (as it is now, it might be changed later on).
+        self.fit_series = series.duplicate()
 
         # Prophet, as the ARIMA models, has no window
         self.data['window'] = 0
@@ -722,8 +722,8 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
         self.model = ARIMA(data, order=(self.p,self.d,self.q))
         self.model_res = self.model.fit(method_kwargs={'disp': verbose})
 
-        # Save the series we used for the fit.
-        self.fit_series = series
+        # Save the series we used for the fit (as it is now, it might be changed later on).
+        self.fit_series = series.duplicate()
 
         # The ARIMA models, as Prophet, have no window
         self.data['window'] = 0
@@ -781,8 +781,8 @@ class AARIMAForecaster(Forecaster, _ARIMAModel):
 
         self.model = autoarima_model
 
-        # Save the series we used for the fit.
-        self.fit_series = series
+        # Save the series we used for the fit (as it is now, it might be changed later on).
+        self.fit_series = series.duplicate()
 
         # The ARIMA models, as Prophet, have no window
         self.data['window'] = 0
-- 
2.43.0


From b59742a5b53aae9f588606228d487469b7b63167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:32 +0000
Subject: [PATCH 62/84] fix: slots up to more than one second apart, or
 overlapping, were considered in succession with present-day timestamps

---
 timeseria/datastructures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 4ba0af6..f90c038 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -444,8 +444,9 @@ class TimeSlot(Slot):
     # Overwrite parent succedes, this has better performance as it checks for only one dimension
     def __succedes__(self, other):
         if other.end.t != self.start.t:
-            # Take into account floating point rounding errors
-            if _is_close(other.end.t, self.start.t):
+            # Take into account floating point rounding errors, which are absolute (or present-day
+            # timestamps would be considered as close even if more than one second apart)
+            if _is_close(other.end.t, self.start.t, rel_tol=0, abs_tol=1e-6):
                 return True
             return False
         else:
-- 
2.43.0


From 33741bfc35a48765d336dff6e0c845a3d0a43bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:14 +0000
Subject: [PATCH 63/84] fix: replacing, deleting and extending with the
 operators could leave series out of order or with a wrong resolution

---
 timeseria/datastructures.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index f90c038..3f8885c 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -850,6 +850,34 @@ class Series(list):
         """Remove all items from the series."""
         super(Series, self).clear()
 
+    # The operators editing the list in place have to enforce the order or the succession as well
+    def __setitem__(self, i, x):
+        if isinstance(i, slice):
+            raise NotImplementedError('Replacing more than one item at a time is not supported')
+        items = list(self)
+        items[i] = x
+        # This checks the resulting items all together
+        self.__class__(*items)
+        super(Series, self).__setitem__(i, x)
+
+    def __delitem__(self, i):
+        items = list(self)
+        del items[i]
+        # This checks the remaining items all together
+        self.__class__(*items)
+        super(Series, self).__delitem__(i)
+
+    def __iadd__(self, items):
+        items = list(items)
+        # This checks all the items before starting to append them
+        self.__class__(*(list(self) + items))
+        for item in items:
+            self.append(item)
+        return self
+
+    def __imul__(self, n):
+        raise NotImplementedError('Repeating the items is not compatible with an ordering')
+
     def index(self, x, start=None, end=None):
         """
         Return zero-based index in the series of the item whose value is equal to x.
@@ -1312,6 +1340,14 @@ class TimeSeries(Series):
         super(TimeSeries, self).clear()
         self._refresh_resolution()
 
+    def __setitem__(self, i, x):
+        super(TimeSeries, self).__setitem__(i, x)
+        self._refresh_resolution()
+
+    def __delitem__(self, i):
+        super(TimeSeries, self).__delitem__(i)
+        self._refresh_resolution()
+
     insert.__doc__ = Series.insert.__doc__
     remove.__doc__ = Series.remove.__doc__
     pop.__doc__ = Series.pop.__doc__
-- 
2.43.0


From 1c198261aaee1f0c67e907d9b8bc4aeed2c347cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:34 +0000
Subject: [PATCH 64/84] fix: dividing zero by a unit raised ZeroDivisionError

---
 timeseria/units.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/units.py b/timeseria/units.py
index 22a313f..c514b81 100644
--- a/timeseria/units.py
+++ b/timeseria/units.py
@@ -84,6 +84,8 @@ class Unit(object):
                 raise NotImplementedError('Cannot divide multidimensional objects')
 
     def __rtruediv__(self, other):
+        if is_numerical(self.value) and is_numerical(other):
+            return other / self.value
         return ( 1 / self.__truediv__(other))
 
     def __mul__(self, other):
-- 
2.43.0


From 512b6c4363990fb50b095823595daba5c3a7f72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:31 +0000
Subject: [PATCH 65/84] fix: merging series with list data raised TypeError or
 summed up the wrong values

---
 timeseria/operations.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 7ffb9d0..279aeb3 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -1114,15 +1114,15 @@ class Merge(Operation):
                 item = series[i + offsets[series]]
 
                 # Data
-                for data_label in item.data:
+                for data_label in item.data_labels():
                     if data_label not in data_count:
                         data_count[data_label] = 1
                     else:
                         data_count[data_label] += 1
                     if data_label not in data_sum:
-                        data_sum[data_label] = item.data[data_label]
+                        data_sum[data_label] = item._data_by_label(data_label)
                     else:
-                        data_sum[data_label] += item.data[data_label]
+                        data_sum[data_label] += item._data_by_label(data_label)
 
                 # Data indexes
                 for data_index in item.data_indexes:
@@ -1139,6 +1139,9 @@ class Merge(Operation):
             # Finalize data
             for data_label in data_sum:
                 data[data_label]  = data_sum[data_label]  / data_count[data_label]
+            if all(isinstance(series[0].data, list) for series in seriess):
+                # The labels are the positions in the lists
+                data = [data[str(j)] for j in range(len(data))]
 
             # Finalize data indexes
             for data_index in data_indexes_sum:
-- 
2.43.0


From 35a7c81d378c1ce47ffc71228a643b9c27ca38e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:37 +0000
Subject: [PATCH 66/84] fix: loading slots with missing rows dropped the data
 indexes of the row after the gap or raised KeyError

---
 timeseria/storages.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 2abcedd..fe0df7a 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -732,9 +732,9 @@ class CSVFileStorage(Storage):
                             # We are arrived, append all the missing items and then the item we originally tried to and break
                             for j, missing_timestamp in enumerate(missing_timestamps):
                                 # Set data by interpolation
-                                interpolated_data = {data_label: (((items[i][1][data_label]-items[i-1][1][data_label])/(len(missing_timestamps)+1)) * (j+1)) + items[i-1][1][data_label]  for data_label in  items[-1][1] }
+                                interpolated_data = {data_label: (((items[i][1][data_label]-items[i-1][1][data_label])/(len(missing_timestamps)+1)) * (j+1)) + items[i-1][1][data_label]  for data_label in  items[i][1] }
                                 series.append(DataTimeSlot(t=missing_timestamp, unit=slot_unit, data=interpolated_data, data_loss=1, tz=tz))
-                            series.append(DataTimeSlot(t=item[0], unit=slot_unit, data=item[1], data_loss=DEFAULT_SLOT_DATA_LOSS, tz=tz))
+                            series.append(DataTimeSlot(t=item[0], unit=slot_unit, data=item[1], data_indexes=data_indexes, tz=tz))
                             break
 
                         else:
-- 
2.43.0


From 242693f865c72a14679cbfa4317e5e9d113ebddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:25 +0000
Subject: [PATCH 67/84] fix: explicit starts and ends of transformations were
 rounded on UTC instead of the timezone of the series, and ignored if zero

---
 timeseria/transformations.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index ac9c755..9c6d4b2 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -435,12 +435,13 @@ class Transformation(object):
                     raise ValueError('Cannot use "{}" as end value, not a datetime nor an epoch timestamp'.format(end))
 
         # Set "from". TODO: check against shifted rounding if points?
-        if from_t:
-            from_dt = dt_from_s(from_t)
+        if from_t is not None:
+            from_dt = dt_from_s(from_t, tz=series.tz)
             if from_dt != self.time_unit.round(from_dt):
                 raise ValueError('The provided from_t is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, from_t))
-        elif from_dt:
+        elif from_dt is not None:
             from_t = s_from_dt(from_dt)
+            from_dt = as_tz(from_dt, series.tz)
             if from_dt != self.time_unit.round(from_dt):
                 raise ValueError('The provided from_dt is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, from_dt))
         else:
@@ -466,12 +467,13 @@ class Transformation(object):
                 raise ValueError('Don\'t know how to target "{}"'.format(target))
 
         # Set "to". TODO: check against shifted rounding if points?
-        if to_t:
-            to_dt = dt_from_s(to_t)
+        if to_t is not None:
+            to_dt = dt_from_s(to_t, tz=series.tz)
             if to_dt != self.time_unit.round(to_dt):
                 raise ValueError('The provided to_t is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, to_t))
-        elif to_dt:
+        elif to_dt is not None:
             to_t = s_from_dt(to_dt)
+            to_dt = as_tz(to_dt, series.tz)
             if to_dt != self.time_unit.round(to_dt):
                 raise ValueError('The provided to_dt is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, to_dt))
         else:
-- 
2.43.0


From 54588c50f4b0c3c1a2f2fbb267ef2e283154b779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:25 +0000
Subject: [PATCH 68/84] fix: resampling from an explicit start was shifted of
 half unit, and transformations starting before the data failed

---
 timeseria/transformations.py | 49 ++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 9c6d4b2..478e268 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -444,27 +444,38 @@ class Transformation(object):
             from_dt = as_tz(from_dt, series.tz)
             if from_dt != self.time_unit.round(from_dt):
                 raise ValueError('The provided from_dt is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, from_dt))
-        else:
-            if target == 'points':
-                from_t = series[0].t  - (self.time_unit.as_seconds() /2)
-                from_dt = dt_from_s(from_t, tz=series.tz)
-                from_dt = self.time_unit.round(from_dt, how='floor' if include_extremes else 'ceil')
-                from_t = s_from_dt(from_dt) + (self.time_unit.as_seconds() /2)
-                from_dt = dt_from_s(from_t)
 
-            elif target == 'slots':
-                from_t = series[0].t
-                from_dt = dt_from_s(from_t, tz=series.tz)
-                if from_dt == self.time_unit.round(from_dt):
-                    # Only for the start, and only for the slots, if the first point is
-                    # exactly equal to the first slot start, leave it as it is to include it.
-                    pass
-                else:
-                    from_dt = self.time_unit.round(from_dt, how='floor' if include_extremes else 'ceil')
-                from_t = s_from_dt(from_dt)
-                from_dt = dt_from_s(from_t)
+        # The start provided, if any: for the points, which are in the center, move it back of half unit
+        requested_from_t = from_t
+        if requested_from_t is not None and target == 'points':
+            requested_from_t = requested_from_t - (self.time_unit.as_seconds() /2)
+
+        # Compute in any case the first start for which there is data
+        if target == 'points':
+            from_t = series[0].t  - (self.time_unit.as_seconds() /2)
+            from_dt = dt_from_s(from_t, tz=series.tz)
+            from_dt = self.time_unit.round(from_dt, how='floor' if include_extremes else 'ceil')
+            from_t = s_from_dt(from_dt) + (self.time_unit.as_seconds() /2)
+            from_dt = dt_from_s(from_t)
+
+        elif target == 'slots':
+            from_t = series[0].t
+            from_dt = dt_from_s(from_t, tz=series.tz)
+            if from_dt == self.time_unit.round(from_dt):
+                # Only for the start, and only for the slots, if the first point is
+                # exactly equal to the first slot start, leave it as it is to include it.
+                pass
             else:
-                raise ValueError('Don\'t know how to target "{}"'.format(target))
+                from_dt = self.time_unit.round(from_dt, how='floor' if include_extremes else 'ceil')
+            from_t = s_from_dt(from_dt)
+            from_dt = dt_from_s(from_t)
+        else:
+            raise ValueError('Don\'t know how to target "{}"'.format(target))
+
+        # Start later if so requested
+        if requested_from_t is not None and requested_from_t > from_t:
+            from_t = requested_from_t
+            from_dt = dt_from_s(from_t)
 
         # Set "to". TODO: check against shifted rounding if points?
         if to_t is not None:
-- 
2.43.0


From 50e6cdcf4a14bedefcdc0d1fa411468ebef15869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:43 +0000
Subject: [PATCH 69/84] fix: data indexes with names a CSV file cannot carry
 were stored in files which could not be loaded, or under other names

---
 timeseria/storages.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index fe0df7a..5a87c0f 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -764,6 +764,9 @@ class CSVFileStorage(Storage):
         for label in series.data_labels():
             if not str(label) or str(label) != _sanitize_string(str(label)) or str(label).startswith('__') or ',' in str(label):
                 raise ValueError('Cannot store the data label "{}" in a CSV file'.format(label))
+        for index in data_indexes:
+            if not index or '__'+index != _sanitize_string('__'+index) or ',' in index:
+                raise ValueError('Cannot store the data index "{}" in a CSV file'.format(index))
 
         with open(self.filename, 'w', encoding='utf-8') as csv_file:
 
-- 
2.43.0


From 6d57a37da3e882056a2892a53b3d4958f032a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:13 +0000
Subject: [PATCH 70/84] fix: CSV files stored by Timeseria were read back with
 the encoding, separator and columns set or detected for other files

---
 timeseria/storages.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 5a87c0f..8bc86ca 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -4,6 +4,7 @@
 import os
 import pytz
 import datetime
+from copy import copy
 from .utilities import detect_encoding, _sanitize_string, _is_list_of_integers, _to_float
 from .units import TimeUnit
 from .datastructures import TimePoint, DataTimePoint, DataTimeSlot, TimeSeries
@@ -19,6 +20,7 @@ HARD_DEBUG = False
 POSSIBLE_TIMESTAMP_labelS = ['timestamp', 'epoch']
 NO_DATA_PLACEHOLDERS = ['na', 'nan', 'null', 'nd', 'undef']
 DEFAULT_SLOT_DATA_LOSS = None
+STORED_FILE_HEADER = '# Generated by Timeseria CSVFileStorage'
 
 
 #======================
@@ -187,6 +189,16 @@ class CSVFileStorage(Storage):
         if force_points and force_slots:
             raise ValueError('Got both as_points and as_slots, set only one or none')
 
+        # Files stored by Timeseria are always in the same format, regardless of the settings for the others
+        with open(self.filename, 'rb') as csv_file:
+            if csv_file.readline().startswith(STORED_FILE_HEADER.encode('utf-8')):
+                self = copy(self)
+                self.encoding = 'utf-8'
+                self.separator = ','
+                self.comment_chars = ['#']
+                self.timestamp_column, self.timestamp_format = 'epoch', 'epoch'
+                self.date_column, self.time_column = None, None
+
         # Line counter
         line_number=0
 
@@ -450,7 +462,7 @@ class CSVFileStorage(Storage):
                         if _is_list_of_integers(data_labels):
                             # Case where we have been given a list of integers
                             data_label_indexes = data_labels
-                            self.data_type = list
+                            data_type = list
 
                         else:
                             # Case where we have been given a list of labels
@@ -772,12 +784,12 @@ class CSVFileStorage(Storage):
 
             # 0) Dump CSV-storage specific metadata & chck type
             if issubclass(series.item_type, DataTimePoint):
-                csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
+                csv_file.write('{} at {}\n'.format(STORED_FILE_HEADER, now_dt()))
                 csv_file.write('# {}\n'.format(series))
                 csv_file.write('# Extra parameters: {{"type": "points", "tz": "{}", "resolution": "{}"}}\n'.format(series.tz, series.resolution))
 
             elif issubclass(series.item_type, DataTimeSlot):
-                csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
+                csv_file.write('{} at {}\n'.format(STORED_FILE_HEADER, now_dt()))
                 csv_file.write('# {}\n'.format(series))
                 csv_file.write('# Extra parameters: {{"type": "slots", "tz": "{}", "resolution": "{}"}}\n'.format(series.tz, series.resolution))
 
-- 
2.43.0


From 51d4b12f816ca496a6748f4e4b1f9fe06939e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:54 +0000
Subject: [PATCH 71/84] fix: slots with list data could not be loaded with
 missing rows, and skip_errors did not apply to slots out of place

---
 timeseria/storages.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 8bc86ca..2681125 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -734,24 +734,31 @@ class CSVFileStorage(Storage):
                     series.append(datatimeslot)
 
                 except ValueError as e:
-                    # The only ValueError that could (should) arise here is a "Not in succession" error.
+                    # The only ValueError that could (should) arise here is a "Not in succession" error, which is
+                    # fine as long as there are only missing items between this one and the last one appended.
                     missing_timestamps = []
-                    prev_dt = dt_from_s(items[i-1][0], tz=tz)
-                    while True:
-                        dt = prev_dt + slot_unit
-                        # Note: the equal here is just to prevent endless loops, the check shoudl actally be just an equal
-                        if s_from_dt(dt) >= item[0]:
-                            # We are arrived, append all the missing items and then the item we originally tried to and break
-                            for j, missing_timestamp in enumerate(missing_timestamps):
-                                # Set data by interpolation
-                                interpolated_data = {data_label: (((items[i][1][data_label]-items[i-1][1][data_label])/(len(missing_timestamps)+1)) * (j+1)) + items[i-1][1][data_label]  for data_label in  items[i][1] }
-                                series.append(DataTimeSlot(t=missing_timestamp, unit=slot_unit, data=interpolated_data, data_loss=1, tz=tz))
-                            series.append(DataTimeSlot(t=item[0], unit=slot_unit, data=item[1], data_indexes=data_indexes, tz=tz))
-                            break
+                    dt = series[-1].end.dt if series else None
+                    while dt is not None and s_from_dt(dt) < item[0]:
+                        missing_timestamps.append(s_from_dt(dt))
+                        dt = dt + slot_unit
+
+                    if not missing_timestamps or s_from_dt(dt) != item[0]:
+                        if self.skip_errors:
+                            if not self.silence_errors:
+                                logger.error(e)
+                            continue
+                        raise e from None
 
+                    # Append all the missing items, setting data by interpolation, and then the item we originally tried to
+                    prev_data = series[-1].data
+                    for j, missing_timestamp in enumerate(missing_timestamps):
+                        position = (j+1)/(len(missing_timestamps)+1)
+                        if isinstance(prev_data, dict):
+                            interpolated_data = {data_label: prev_data[data_label] + (item[1][data_label]-prev_data[data_label])*position for data_label in prev_data}
                         else:
-                            missing_timestamps.append(s_from_dt(dt))
-                        prev_dt = dt
+                            interpolated_data = [prev_data[k] + (item[1][k]-prev_data[k])*position for k in range(len(prev_data))]
+                        series.append(DataTimeSlot(t=missing_timestamp, unit=slot_unit, data=interpolated_data, data_loss=1, tz=tz))
+                    series.append(DataTimeSlot(t=item[0], unit=slot_unit, data=item[1], data_indexes=data_indexes, tz=tz))
 
         return series
 
-- 
2.43.0


From f26486863ab11ab6728f9d7489b75aa2a9cb877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:18 +0000
Subject: [PATCH 72/84] fix: values and timezones which cannot be loaded back
 were stored in CSV files

---
 timeseria/datastructures.py |  7 +++++++
 timeseria/storages.py       | 11 +++++++++++
 2 files changed, 18 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 3f8885c..466027f 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1629,6 +1629,13 @@ class TimeSeries(Series):
     def save(self, file_name, overwrite=False, **kwargs):
         """Save the time series as a (CSV) file, in Timeseria format."""
         from .storages import CSVFileStorage
+
+        # The timezone is stored by name: if there is no such one, it would not be possible to load the series back
+        try:
+            timezonize(str(self.tz))
+        except Exception:
+            raise ValueError('Cannot store a series on the timezone "{}"'.format(self.tz)) from None
+
         storage = CSVFileStorage(file_name, **kwargs)
         storage.put(self, overwrite=overwrite)
 
diff --git a/timeseria/storages.py b/timeseria/storages.py
index 2681125..673afc4 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -787,6 +787,17 @@ class CSVFileStorage(Storage):
             if not index or '__'+index != _sanitize_string('__'+index) or ',' in index:
                 raise ValueError('Cannot store the data index "{}" in a CSV file'.format(index))
 
+        # Values which would not be read back, or would be as something else, cannot be stored as well
+        for item in series:
+            values = list(item.data.values()) if isinstance(item.data, dict) else list(item.data)
+            for value in values + [value for value in item.data_indexes.values() if value is not None]:
+                try:
+                    if ',' in str(value):
+                        raise FloatConversionError(value)
+                    _to_float(str(value), NO_DATA_PLACEHOLDERS)
+                except FloatConversionError:
+                    raise ValueError('Cannot store the value "{}" in a CSV file'.format(value)) from None
+
         with open(self.filename, 'w', encoding='utf-8') as csv_file:
 
             # 0) Dump CSV-storage specific metadata & chck type
-- 
2.43.0


From 24a49caa38d1faf20c84d90a937053a35fc2213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:25 +0000
Subject: [PATCH 73/84] fix: forecasters with context were given also what they
 had to predict when evaluated

---
 timeseria/models/forecasters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index ee6ec0b..a6e3a33 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -63,7 +63,9 @@ class Forecaster(Model):
     def _get_predicted_value(self, series, i, data_label, with_context):
 
         if with_context:
-            prediction = self.predict(series.view(from_i=0, to_i=i), steps=1, context_data=series[i].data)
+            # Only the context must be provided, and not the target data as well
+            context_data = {context_data_label: series[i].data[context_data_label] for context_data_label in self.data['context_data_labels']}
+            prediction = self.predict(series.view(from_i=0, to_i=i), steps=1, context_data=context_data)
         else:
             prediction = self.predict(series.view(from_i=0, to_i=i), steps=1)
 
-- 
2.43.0


From 5a3e868643040c30d7b67753af841ff41b85e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:11 +0000
Subject: [PATCH 74/84] fix: point series with sub-second spacings not exactly
 representable had a variable resolution

---
 timeseria/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 466027f..fa8b398 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1398,7 +1398,8 @@ class TimeSeries(Series):
                 else:
                     # If the resolution is constant (not variable), check that it still is
                     if self._resolution != 'variable':
-                        if self._resolution_as_seconds != (item.t - self.prev_t):
+                        # (up to the microsecond, as sub-second timestamps are in general not exact)
+                        if abs(self._resolution_as_seconds - (item.t - self.prev_t)) > 0.0000005:
                             # ...otherwise, mark it as variable
                             del self._resolution_as_seconds
                             self._resolution = 'variable'
-- 
2.43.0


From d1d68e9a624094fe9ab1868037ae8e3febceb249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:11 +0000
Subject: [PATCH 75/84] fix: the periodicity index did not advance by one on
 sub-second timestamps

---
 timeseria/utilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 5766d40..e472251 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -881,7 +881,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
             raise NotImplementedError('Sorry, periodocity in multi-dimensional spaces are not defined')
         resolution_s = resolution
 
-    # Compute periodicity index
+    # Compute periodicity index (up to the microsecond, as sub-second timestamps are in general not exact)
     if not dst_affected:
 
         # Get index based on item timestamp, normalized to unit, modulus periodicity
@@ -895,7 +895,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
                 days = item.dt.toordinal() - datetime(1970,1,1).toordinal()
                 periodicity_index = (days // (resolution.weeks*7 + resolution.days)) % periodicity
         else:
-            periodicity_index = int(item.t // resolution_s) % periodicity
+            periodicity_index = int((item.t + 0.0000005) // resolution_s) % periodicity
 
     else:
 
@@ -906,7 +906,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
 
         if dst_timedelta.days == 0 and dst_timedelta.seconds == 0:
             # No DST
-            periodicity_index = int(item.t // resolution_s) % periodicity
+            periodicity_index = int((item.t + 0.0000005) // resolution_s) % periodicity
 
         else:
             # DST
@@ -920,7 +920,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
             dst_offset_s = dst_timedelta.seconds # 3600 usually
 
             # Compute the periodicity index
-            periodicity_index = (int((item.t + dst_offset_s) // resolution_s) % periodicity)
+            periodicity_index = (int((item.t + dst_offset_s + 0.0000005) // resolution_s) % periodicity)
 
     return periodicity_index
 
-- 
2.43.0


From 923145c7da61474ca09e3cf9d25dad154e18510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:48 +0000
Subject: [PATCH 76/84] fix: plots of labels or indexes with commas or quotes
 in their names were broken

---
 timeseria/plots.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index b6004fd..cdd7811 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -694,31 +694,29 @@ function legendFormatter(data) {
     _check_data_for_plot(series[0].data)
 
     # Loop over all the data labels
-    labels=''
+    labels=[]
     if data_labels_to_plot:
         for data_label_to_plot in data_labels_to_plot:
             if isinstance(series[0].data, list) or isinstance(series[0].data, tuple):
                 if len(data_labels_to_plot) == 1:
-                    labels='value,'
+                    labels.append('value')
                 else:
-                    labels += 'value {},'.format(data_label_to_plot)
+                    labels.append('value {}'.format(data_label_to_plot))
             else:
-                labels += '{},'.format(data_label_to_plot)
-        # Remove last comma
-        labels = labels[0:-1]
+                labels.append('{}'.format(data_label_to_plot))
     else:
-        labels='value'
+        labels.append('value')
 
     # Set index labels
     for index in data_indexes_to_plot:
-        labels+=',{}'.format(index)
+        labels.append('{}'.format(index))
 
     # Handle series mark (as index)
     if mark and RENDER_MARK_AS_INDEX:
-        labels+=',data_mark'
+        labels.append('data_mark')
 
     # Prepare labels string list for Dygraphs
-    labels_list = ['Timestamp'] + labels.split(',')
+    labels_list = ['Timestamp'] + labels
 
     # Get series data in Dygraphs format (and aggregate if too much data and find global min and max)
     global_min, global_max, dg_data = _to_dg_data(series, data_labels_to_plot, data_indexes_to_plot, full_precision, aggregate_by, mark)
@@ -838,7 +836,7 @@ animatedZooms: true,"""
 
         # Now create the entry for this data index
         dygraphs_javascript += """
-        '"""+data_index_to_plot+"""': {
+        """+repr(str(data_index_to_plot))+""": {
          //customBars: false, // Does not work?
          axis: 'y2',
          drawPoints: false,
@@ -865,7 +863,7 @@ animatedZooms: true,"""
     # Add all non-index series to be included in the miniplot
     for label in data_labels_to_plot:
         dygraphs_javascript += """
-           '"""+str(label)+"""': {
+           """+repr(str(label))+""": {
              showInRangeSelector:true
            },"""
 
-- 
2.43.0


From f56f4a5cc6530bdf5d0290914c5ce5168b7c36db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:27 +0000
Subject: [PATCH 77/84] fix: zoneinfo time zones lost items when converting to
 dictionaries and were not compatible with the same pytz ones

---
 timeseria/datastructures.py | 18 +++++++++---------
 timeseria/storages.py       |  8 ++++----
 timeseria/utilities.py      | 16 ++++++++++++++--
 3 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index fa8b398..12d9071 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -7,10 +7,10 @@ from pandas import DataFrame, notna
 from datetime import datetime
 from pytz import UTC
 from propertime import Time
-from propertime.utils import s_from_dt , dt_from_s, timezonize, dt_from_str, str_from_dt
+from propertime.utils import s_from_dt , dt_from_s, dt_from_str, str_from_dt
 
 from .units import Unit, TimeUnit
-from .utilities import _is_close, _to_time_unit_string
+from .utilities import _is_close, _to_time_unit_string, _timezonize
 from .utilities import _is_index_based, _is_key_based, _has_numerical_values
 from .exceptions import ConsistencyException
 
@@ -98,7 +98,7 @@ class TimePoint(Point):
         # Handle timezone if any (removing it from kwargs)
         tz = kwargs.pop('tz', None)
         if tz:
-            self._tz = timezonize(tz)
+            self._tz = _timezonize(tz)
 
         # Do we have to handle kwargs?
         if kwargs:
@@ -122,10 +122,10 @@ class TimePoint(Point):
                         if kwargs['dt'].tzinfo == UTC:
                             pass
                         else:
-                            self._tz = kwargs['dt'].tzinfo
+                            self._tz = _timezonize(kwargs['dt'].tzinfo)
                             # Pytz datetimes carry the time zone at a given DST offset: get the time zone itself
                             if getattr(self._tz, 'zone', None):
-                                self._tz = timezonize(self._tz.zone)
+                                self._tz = _timezonize(self._tz.zone)
                             #raise NotImplementedError('Not yet tz from dt ("{}")'.format(kwargs['dt']))
 
             #else:
@@ -166,7 +166,7 @@ class TimePoint(Point):
 
     def change_tz(self, tz):
         """Change the time zone of the point, in-place."""
-        self._tz = timezonize(tz)
+        self._tz = _timezonize(tz)
 
     @property
     def dt(self):
@@ -1278,7 +1278,7 @@ class TimeSeries(Series):
         # Handle timezone
         tz = kwargs.pop('tz', None)
         if tz:
-            self._tz = timezonize(tz)
+            self._tz = _timezonize(tz)
 
         # Call parent init
         super(TimeSeries, self).__init__(*args, **kwargs)
@@ -1493,7 +1493,7 @@ class TimeSeries(Series):
         """Change the time zone of the time series, in-place."""
         for item in self:
             item.change_tz(tz)
-        self._tz = timezonize(tz)
+        self._tz = _timezonize(tz)
 
     def as_tz(self, tz):
         """Get a copy of the time series on a new time zone."""
@@ -1633,7 +1633,7 @@ class TimeSeries(Series):
 
         # The timezone is stored by name: if there is no such one, it would not be possible to load the series back
         try:
-            timezonize(str(self.tz))
+            _timezonize(str(self.tz))
         except Exception:
             raise ValueError('Cannot store a series on the timezone "{}"'.format(self.tz)) from None
 
diff --git a/timeseria/storages.py b/timeseria/storages.py
index 673afc4..9ba4495 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -5,10 +5,10 @@ import os
 import pytz
 import datetime
 from copy import copy
-from .utilities import detect_encoding, _sanitize_string, _is_list_of_integers, _to_float
+from .utilities import detect_encoding, _sanitize_string, _is_list_of_integers, _to_float, _timezonize
 from .units import TimeUnit
 from .datastructures import TimePoint, DataTimePoint, DataTimeSlot, TimeSeries
-from propertime.utils import dt_from_str, dt_from_s, s_from_dt, timezonize, now_dt
+from propertime.utils import dt_from_str, dt_from_s, s_from_dt, now_dt
 from .exceptions import NoDataException, FloatConversionError, ConsistencyException
 
 # Setup logging
@@ -222,9 +222,9 @@ class CSVFileStorage(Storage):
 
         # Set and timezonize the timezone. Using this in the points or slots will be just a pointer
         if force_tz:
-            tz = timezonize(force_tz)
+            tz = _timezonize(force_tz)
         else:
-            tz = timezonize(self.tz)
+            tz = _timezonize(self.tz)
 
         # Loop over all CSV rows
         # TODO: evaluate rU vs newline='\n'
diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index e472251..3aaf6d8 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -10,8 +10,9 @@ from chardet.universaldetector import UniversalDetector
 from numpy import fft
 from scipy.signal import find_peaks
 from .exceptions import ConsistencyException, FloatConversionError
-from datetime import datetime
-from propertime.utils import s_from_dt
+from datetime import datetime, timezone
+from pytz import UnknownTimeZoneError
+from propertime.utils import s_from_dt, timezonize
 import subprocess
 from collections import namedtuple
 import numpy as np
@@ -27,6 +28,17 @@ import logging
 logger = logging.getLogger(__name__)
 
 
+def _timezonize(tz):
+    """Convert to a time zone, always as a pytz one where possible. Besides being not comparable with the pytz ones, zoneinfo
+    time zones would cause the datetimes within a local time occurring twice (DST changes) to be considered as the same."""
+    try:
+        return timezonize('UTC' if tz is timezone.utc else getattr(tz, 'key', None) or tz)
+    except UnknownTimeZoneError:
+        if isinstance(tz, str):
+            raise
+        return timezonize(tz)
+
+
 def ensure_reproducibility():
     """Ensure reproducibility by fixing seeds and initial conditions for: Random, Numpy, Keras and Tensorflow."""
 
-- 
2.43.0


From d21007c661cd3bb32d57eacc213ffd85c071a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:06 +0000
Subject: [PATCH 78/84] fix: the points at a given density were searched on the
 wrong side of distributions with locations far from zero

---
 timeseria/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 3aaf6d8..3d8eb82 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -452,9 +452,9 @@ class DistributionFunction():
 
         start = self.params['loc']
         if side == 'right':
-            end = self.params['scale']*wideness
+            end = start + (self.params['scale']*wideness)
         elif side == 'left':
-            end = -(self.params['scale']*wideness)
+            end = start - (self.params['scale']*wideness)
         else:
             raise ValueError('unknown side "{}"'.format(side))
 
-- 
2.43.0


From b75259331688ff7067b4f8e7ae38aa506bc12823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:05 +0000
Subject: [PATCH 79/84] fix: items with any data were accepted in series whose
 first item has zero or empty data

---
 timeseria/datastructures.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 12d9071..a6f34e2 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -697,7 +697,7 @@ class Series(list):
                     raise TypeError('Object of class "{}" does not implement a "__gt__" or a "__succedes__" method, cannot append it to a Series (which is ordered)'.format(item.__class__.__name__)) from None
 
         # Check data type and set if not done already
-        if self and self._item_data_reference:
+        if self and self._item_data_reference is not None:
             self._check_item_data(item)
         else:
             try:
@@ -804,7 +804,7 @@ class Series(list):
                     raise IndexError('Cannot insert an item in the middle of a series whose items follow a succession'.format(i))
 
             # Check data
-            if self._item_data_reference:
+            if self._item_data_reference is not None:
                 self._check_item_data(x)
 
             super(Series, self).insert(i,x)
@@ -953,7 +953,7 @@ class Series(list):
         """Returns the labels of the data carried by the series items. If data is a dictionary, then
         these are the dictionary keys, if data  is list-like, then these are the list indexes
         (as strings). Other formats are not supported."""
-        if len(self) > 0 and not self._item_data_reference:
+        if len(self) > 0 and self._item_data_reference is None:
             raise TypeError('Series items have no data, cannot get data labels')
         if len(self) == 0:
             return None
@@ -962,7 +962,7 @@ class Series(list):
 
     def rename_data_label(self, old_data_label, new_data_label):
         """Rename a data label, in-place."""
-        if len(self) > 0 and not self._item_data_reference:
+        if len(self) > 0 and self._item_data_reference is None:
             raise TypeError('Series items have no data, cannot rename a label')
         if len(self) > 0 and new_data_label != old_data_label and {old_data_label, new_data_label} <= set(self.data_labels()):
             raise ValueError('The series already has a data label "{}", cannot rename "{}"'.format(new_data_label, old_data_label))
@@ -972,7 +972,7 @@ class Series(list):
 
     def remove_data_label(self, data_label):
         """Remove a data label, in-place."""
-        if len(self) > 0 and not self._item_data_reference:
+        if len(self) > 0 and self._item_data_reference is None:
             raise TypeError('Series items have no data, cannot rename a label')
         for item in self:
             # TODO: move to the DataPoint/DataSlot?
@@ -980,14 +980,14 @@ class Series(list):
 
     def remove_data_index(self, data_index):
         """Remove a data index, in-place."""
-        if len(self) > 0 and not self._item_data_reference:
+        if len(self) > 0 and self._item_data_reference is None:
             raise TypeError('Series items have no data, cannot rename data indexes')
         for item in self:
             item.data_indexes.pop(data_index, None)
 
     def remove_data_loss(self):
         """Remove the ``data_loss`` index, in-place."""
-        if len(self) > 0 and not self._item_data_reference:
+        if len(self) > 0 and self._item_data_reference is None:
             raise TypeError('Series items have no data, cannot remove the data loss')
         for item in self:
             item.data_indexes.pop('data_loss', None)
-- 
2.43.0


From 2f182038ad17e1b1d092152c4013bb28e2f8175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:31 +0000
Subject: [PATCH 80/84] fix: data frames of quarters or of less than one second
 could not be converted to slots

---
 timeseria/datastructures.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index a6f34e2..a3bbdc1 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1762,6 +1762,14 @@ class TimeSeries(Series):
                                      'T': 'm', 'min': 'm',
                                      'S': 's'}.get(unit_type_pd, unit_type_pd)
 
+            # Quarters, milliseconds and microseconds are multiples (or fractions) of other units
+            if unit_type_pd in ['Q', 'QS']:
+                unit_str = '{}M'.format(int(unit_value)*3)
+            elif unit_type_pd in ['L', 'ms']:
+                unit_str = '{}s'.format(int(unit_value)/1000)
+            elif unit_type_pd in ['U', 'us']:
+                unit_str = '{:.6f}s'.format(int(unit_value)/1000000)
+
             unit_type = ''.join([char for char in unit_str if not char.isdigit()])
 
             if unit_type in ['Y', 'M', 'D']:
-- 
2.43.0


From e767d167b4744aa7086321dedc2116f6179b98be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:31 +0000
Subject: [PATCH 81/84] fix: slots with fractional starts or ends could have no
 unit, for the floating point noise in their length

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index a3bbdc1..5a695cd 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -468,7 +468,7 @@ class TimeSlot(Slot):
             return self._unit
         except AttributeError:
             # Use the string representation to handle floating point seconds
-            self._unit = TimeUnit(str(self.end.t-self.start.t)+'s')
+            self._unit = TimeUnit(_to_time_unit_string(self.end.t-self.start.t, friendlier=False))
             return self._unit
 
     @property
-- 
2.43.0


From cdce07f2dc07d42163ccea6bcfecdcb9b0bf720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:24 +0000
Subject: [PATCH 82/84] fix: derivatives and integrals of series on calendar
 units were wrong, using the length of the first slot for all of them

---
 timeseria/operations.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 279aeb3..6065303 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -210,6 +210,12 @@ class Sum(Operation):
 #  Operations returning series
 #=================================
 
+def _is_calendar(resolution):
+    # Calendar units (days, weeks, months and years) have no fixed length
+    return (isinstance(resolution, TimeUnit) and
+            bool(resolution.years or resolution.months or resolution.weeks or resolution.days))
+
+
 class Derivative(Operation):
     """Derivative operation (callable object)."""
 
@@ -238,7 +244,8 @@ class Derivative(Operation):
             raise NotImplementedError('Computing differences in-place is not supported as it would change the series length')
 
         if normalize:
-            if series.resolution == 'variable':
+            if series.resolution == 'variable' or _is_calendar(series.resolution):
+                # Calendar units have no fixed length, use the one of each interval for them as well
                 variable_resolution = True
             else:
                 variable_resolution = False
@@ -381,7 +388,8 @@ class Integral(Operation):
                 raise TypeError('Series items are not Points nor Slots, cannot compute an integral')
 
         if normalize:
-            if series.resolution == 'variable':
+            if series.resolution == 'variable' or _is_calendar(series.resolution):
+                # Calendar units have no fixed length, use the one of each interval for them as well
                 variable_resolution = True
             else:
                 variable_resolution = False
-- 
2.43.0


From 472558fb4badd191c8c9c4cd7be821f4aa6527df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:52 +0000
Subject: [PATCH 83/84] fix: points filling the gaps when aggregating are on
 the time zone of the series

---
 timeseria/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 478e268..6bca8d4 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -114,7 +114,7 @@ class _TimeSeriesDenseView(TimeSeriesView):
                     new_point_data = self.interpolator.evaluate(new_point_t, prev_i=this_i-1, next_i=this_i)
 
                     # Create the new point
-                    new_point = this_point.__class__(t = new_point_t, data = new_point_data)
+                    new_point = this_point.__class__(t = new_point_t, data = new_point_data, tz = this_point.tz)
                     new_point.valid_from = new_point_valid_from
                     new_point.valid_to = new_point_valid_to
                     new_point._interpolated = True
-- 
2.43.0


From 9f7082d7c8d8990d5d6137ed61dd52af11ac6318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:26 +0000
Subject: [PATCH 84/84] fix: do not take the first row of a CSV file for the
 labels if it is in the time formats requested

Without a header, and with timestamps (or dates and times) in a custom format, the first row was
taken as the labels of the columns: its values were lost and given as names to the data.
---
 timeseria/storages.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 9ba4495..c88efcf 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -270,7 +270,16 @@ class CSVFileStorage(Storage):
                             try:
                                 dt_from_str(_sanitize_string(value,NO_DATA_PLACEHOLDERS))
                             except:
-                                not_converted += 1
+                                # Or is it in one of the formats requested?
+                                for requested_format in [self.timestamp_format, self.date_format, self.time_format]:
+                                    try:
+                                        if '%' in requested_format:
+                                            datetime.datetime.strptime(_sanitize_string(value,NO_DATA_PLACEHOLDERS), requested_format)
+                                            break
+                                    except (TypeError, ValueError):
+                                        pass
+                                else:
+                                    not_converted += 1
 
                     # If it is, use it as labels (and continue with the next line)
                     if not_converted: # == len(line_items):
-- 
2.43.0

