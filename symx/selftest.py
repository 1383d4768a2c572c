"""setup_cmd: the toolchain is there and the engine finds a planted counterexample and proves its absence."""
from . import core, api, explore


def main():
    import z3

    def bad(S):
        x = S.real('x'); y = S.int('y', 0, 10)
        r = x * 2 if x > y else y - x
        S.check(r >= 0, 'nonneg')
        S.check(r != 7, 'never seven')

    def good(S):
        x = S.real('x'); y = S.int('y', 0, 10)
        r = abs(x) + y % 3 + (y // 3) * 3
        S.check(S.eq(r, abs(x) + y), 'divmod')

    class R:
        def run(self, module, prop, case, params, inputs, timeout=0):
            return explore.run_concrete(bad, params, inputs)
        def close(self): pass
    explore.REPLAYER = R()
    cfg = dict(seed=1, query_timeout_ms=5000, path_timeout=20, max_violations=1, validate=0, validate_p=0)
    r = explore.explore(api.Case('T', bad, [], [], None, ()), '', {}, [[]], 20, cfg)
    assert r['violations'], r
    r = explore.explore(api.Case('T', good, [], [], None, ()), '', {}, [[]], 20, cfg)
    assert not r['violations'] and r['completed'] and not r['spurious'], r
    print('selftest ok, z3', z3.get_version_string())
    return 0
