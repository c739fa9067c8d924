"""Checks of the readahead cache and of the readers."""
import random

from core import Check

FACTORS = [(2, 1), (3, 1), (1, 1), (3, 2), (1, 2), (5, 4), (0, 1), (7, 8), (16, 1), (-1, 1),
           (13, 10), (11, 10), (500009, 1), (400003, 7)]
BIG_INITS = [40000, (1 << 20) + 1, (1 << 24) + 3, 1 << 26, (1 << 30) + 1]
BASES = [(1 << 31) - 20, 1 << 31, (1 << 32) - 20, 1 << 32, 5 << 33, (1 << 62) + 3, (1 << 63) + 3]


def tla_set(xs):
    return '{' + ', '.join(xs) + '}'


def ahead_design(c: Check):
    """Model-check the cache; returns the schedules of the model."""
    def cfg(k, inits, fs, faults, record, inv):
        return (f'SPECIFICATION Spec\nINVARIANTS Transparent Reliable Locked {inv}\n'
                f'PROPERTIES NoRefetch {"" if record else "Returns"}\nCONSTANTS N = 6\nK = {k}\n'
                f'Inits = {tla_set(map(str, inits))}\nFactors <- {fs}\nMaxFaults = {faults}\n'
                f'Record = {"TRUE" if record else "FALSE"}\nCHECK_DEADLOCK FALSE')
    c.design('MCReadahead', cfg(3 if c.thorough else 2, [0, 2, 9], 'FactorsDef', 2 if c.thorough else 1, False, ''),
             'concurrent callers, failing, short and refused answers, cancellations at every point: data, requests, '
             'and every caller returns', timeout=3000, name='MCReadahead-live')
    d = c.design('MCReadahead', cfg(2, [0, 2, 9], 'FactorsDef', 1, True, 'Out'),
                 'every schedule of two callers with one fault', timeout=1200, name='MCReadahead-two')
    xs = d.json()
    d = c.design('MCReadahead', cfg(3, [0, 2, 9] if c.thorough else [2], 'FactorsDef' if c.thorough else 'FactorTwo',
                                    1, True, 'Out'),
                 'every schedule of three callers with one fault', timeout=3000, name='MCReadahead-three')
    return xs, d.json()


def random_ahead(rng, i):
    n = rng.choice([0, 1, 5, 20, 20, 60, 60, 200])
    f = rng.choice(FACTORS)
    cf = {'n': n, 'strict': rng.random() < .4, 'init': rng.choice([0, 1, 2, 3, 8, 16, n, n + 1, 500, rng.choice(BIG_INITS)]),
          'num': f[0], 'den': f[1], 'default': 0}
    if rng.random() < .15:
        cf.update(init=32768, num=2, den=1, default=1)
    sched, calls = [], 0
    for _ in range(rng.choice([3, 6, 12, 25])):
        k = rng.random()
        if k < .5 or not calls:
            lo = rng.choice([0, rng.randrange(n + 3), rng.randrange(n + 3)])
            hi = lo + rng.choice([0, 1, 2, 4, rng.randrange(n + 3), max(0, n - lo)])
            if rng.random() < .85:
                lo, hi = min(lo, n), min(hi, n)
            calls += 1
            sched.append({'a': 'call', 'i': calls, 'lo': lo, 'hi': hi})
        elif k < .85:
            sched.append({'a': 'ans', 'f': rng.choice(['ok'] * 5 + ['fail', 'fail', 'short'])})
        else:
            sched.append({'a': 'cancel', 'i': rng.randrange(1, calls + 1)})
        if rng.random() < .25:
            sched[-1]['hold'] = 1
    return {'id': i, 'cf': cf, 'sched': sched, 'last': int(rng.random() < .3)}


def growth_ahead(rng, i):
    """Sequential reads to the end of the source: the sizes of the requests."""
    f = rng.choice(FACTORS)
    n = rng.choice([100, 1000, 3000])
    cf = {'n': n, 'strict': rng.random() < .3, 'init': rng.choice([0, 1, 3, 10, 64]), 'num': f[0], 'den': f[1],
          'default': 0}
    at, sched = 0, []
    for k in range(1, 40):
        lo = max(0, at - rng.choice([0, 0, 1, 3]))
        hi = min(n, lo + rng.choice([1, 2, 4, 8, 30]))
        if rng.random() < .25:              # across many of the blocks that are there, and beyond
            lo = rng.randrange(at + 1)
            hi = min(n, max(lo, at + rng.choice([0, 0, -1, -5, 3])))
        at = max(at, hi) if rng.random() < .7 else min(n, at + rng.choice([1, 5, 100]))
        sched += [{'a': 'call', 'i': k, 'lo': lo, 'hi': hi}] + \
            [{'a': 'ans', 'f': 'ok'}] * 2
        if rng.random() < .1:
            sched[-1] = {'a': 'ans', 'f': 'fail'}
    return {'id': i, 'cf': cf, 'sched': sched, 'last': 0}


def ahead_default(i, n, strict, reads):
    return {'id': i, 'cf': {'n': n, 'strict': strict, 'init': 32768, 'num': 2, 'den': 1, 'default': 1}, 'last': 0,
            'sched': [e for k, (lo, hi) in enumerate(reads, 1)
                      for e in ({'a': 'call', 'i': k, 'lo': lo, 'hi': hi}, {'a': 'ans', 'f': 'ok'},
                                {'a': 'ans', 'f': 'ok'})]}


def ahead(c: Check, part):
    rng = random.Random(c.seed + 3)
    two, three = ahead_design(c)
    limit = 60000 if c.thorough else 6000
    three = rng.sample(three, min(limit, len(three)))
    cases = []
    for i, x in enumerate(two + three):
        cases.append({'id': i, 'cf': {**x['cf'], 'default': 0}, 'sched': x['sched'], 'last': 0})
    consts = f'CONSTANT Part = "{part}"'
    c.validate('ReadaheadTrace', c.run('ahead', cases), 'schedules of the model', consts=consts)
    cases = [random_ahead(rng, i) for i in range(40000 if c.thorough else 4000)]
    cases += [growth_ahead(rng, i) for i in range(2000 if c.thorough else 200)]
    c.validate('ReadaheadTrace', c.run('ahead', cases), 'random schedules', consts=consts)
    # the defaults, on a source larger than several readaheads
    n = 400000
    cases = [ahead_default(0, n, False, [(0, 8), (8, 200), (32760, 32768), (32767, 32769), (98303, 98305),
                                         (98304, 98304 + 8), (294911, 294913), (5, 12), (294000, 294911)]),
             ahead_default(1, n, True, [(0, 8), (70000, 70010), (70000, 70005), (210029, 210031), (399999, 400000)]),
             ahead_default(2, 40000, True, [(0, 8), (32768, 32770), (39999, 40000), (0, 40)]),
             ahead_default(3, 100, True, [(0, 8), (90, 100), (8, 9)])]
    c.validate('ReadaheadTrace', c.run('ahead', cases), 'default sizes', consts=consts)
    if part == 'data':
        # on top of the provided readers, without failures
        cases = [ranges_case(rng, i, ['http', 'object', 'file', 'plain'], True)
                 for i in range(6000 if c.thorough else 600)]
        for x in cases:
            for s in x['steps']:
                s['modes'] = ['206' if x['kind'] == 'http' else 'ok'] * len(s['modes'])
        c.validate('RangeTrace', c.run('ranges', cases), 'cache over the provided readers')
    c.exhaustive = False


def c03(c: Check):
    ahead(c, 'data')


def c04(c: Check):
    ahead(c, 'requests')


# ----------------------------------------------------------------- shared file
def random_file(rng, i):
    n = rng.choice([0, 1, 7, 30, 100, 300])
    sched, calls = [], 0
    free = rng.random() < .35

    def call():
        lo = rng.choice([0, rng.randrange(n + 2), rng.randrange(n + 2)])
        hi = lo + rng.choice([0, 1, 2, 5, 9, rng.randrange(n + 2)])
        if rng.random() < .85:
            lo, hi = min(lo, n), min(hi, n)
        elif rng.random() < .2:
            hi = rng.choice([1 << 31, 1 << 40, (1 << 62) + 5])
        return lo, hi
    for _ in range(rng.choice([4, 10, 20, 40])):
        k = rng.random()
        if k < .35 or not calls:
            lo, hi = call()
            calls += 1
            sched.append({'a': 'call', 'i': calls, 'lo': lo, 'hi': hi})
        elif k < .88 and not free:
            sched.append({'a': 'op', 'f': rng.choice(['ok'] * 4 + ['short'] * 4 + ['fail'])})
        else:
            sched.append({'a': 'cancel', 'i': rng.randrange(1, calls + 1), 'f': rng.choice(['none', 'drift'])})
        if rng.random() < .25:
            sched[-1]['hold'] = 1
    case = {'id': i, 'n': n, 'sched': sched, 'last': int(rng.random() < .3)}
    if rng.random() < .2:
        case['base'] = rng.choice(BASES)
    if free:
        case['free'] = [rng.choice([0, 1, 2, 3, 7, 50, 1000]) for _ in range(rng.randrange(1, 7))]
    return case


def real_file(rng, i):
    n = rng.choice([10, 1000, 5000, 200000])
    calls = []
    for _ in range(rng.choice([8, 24])):
        lo = rng.randrange(n)
        hi = min(n, lo + rng.choice([0, 1, 10, 100, 300, 4000 if n < 10000 else 150000])) if rng.random() < .9 else n + 5
        calls.append({'lo': lo, 'hi': hi, 'f': rng.choice(['none'] * 4 + ['cancel'])})
    return {'id': i, 'real': 1, 'n': n, 'sched': calls}


def c01(c: Check):
    rng = random.Random(c.seed + 1)

    def cfg(k, faults, record, lock='TRUE', seek='TRUE'):
        return (f'SPECIFICATION Spec\nINVARIANTS Exact Reliable {"Out" if record else ""}\n'
                f'{"" if record else "PROPERTIES Returns"}\nCONSTANTS N = 5\nK = {k}\nMaxFaults = {faults}\n'
                f'Record = {"TRUE" if record else "FALSE"}\nLocking = {lock}\nSeeking = {seek}\n'
                'CHECK_DEADLOCK FALSE')
    c.design('MCSharedFile', cfg(3, 3 if c.thorough else 1, False),
             'concurrent callers of one file: operations completing at any time, split reads, failures and '
             'cancellations at every point', timeout=3000, name='MCSharedFile-live')
    for what in ('FALSE', 'TRUE'), ('TRUE', 'FALSE'):
        c.rejects('MCSharedFile', cfg(2, 1, False, *what), name='MCSharedFile-broken')
    xs = c.design('MCSharedFile', cfg(2, 2 if c.thorough else 1, True), 'schedules of two callers', timeout=3000,
                  name='MCSharedFile-two').json()
    ys = c.design('MCSharedFile', cfg(3, 1 if c.thorough else 0, True), 'schedules of three callers', timeout=3000,
                  name='MCSharedFile-three').json()
    limit = 60000 if c.thorough else 8000
    xs = rng.sample(xs, min(limit, len(xs))) + rng.sample(ys, min(limit, len(ys)))
    cases = [{'id': i, 'n': 5, 'sched': x['sched'], 'last': 0} for i, x in enumerate(xs)]
    c.validate('FileTrace', c.run('file', cases), 'schedules of the model')
    cases = [random_file(rng, i) for i in range(40000 if c.thorough else 5000)]
    c.validate('FileTrace', c.run('file', cases), 'random schedules')
    cases = [real_file(rng, i) for i in range(200 if c.thorough else 40)]
    c.validate('FileTrace', c.run('file', cases), 'tasks on a real file')
    c.exhaustive = False


# ---------------------------------------------------------------- range requests
GOOD_HTTP = ['206', '206', '206', '200', '200-chunked', '200-close', '203', 'chunked', 'close', 'redirect', 'slow']
BAD_HTTP = ['404', '500', '503', '403', '416', 'cut', 'cut-early']
KINDS = ['http', 'object', 'coalesce', 'file', 'plain', 'user']


def some_ranges(rng, n, odd):
    rs = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 9])):
        lo = rng.randrange(n + 1)
        hi = min(n, lo + rng.choice([1, 1, 2, 5, 20, n]))
        if rs and rng.random() < .25:
            lo, hi = rng.choice(rs)
        if rng.random() < odd:
            lo, hi = rng.choice([(lo, lo), (n, n + 3), (max(0, n - 2), n + 5), (n + 1, n + 4), (lo, 1 << 30), (0, 0)])
        if lo == hi and rng.random() > odd:
            continue
        rs.append([lo, hi])
    if rng.random() < .3:
        rs.sort(reverse=rng.random() < .5)
    return rs


def ranges_case(rng, i, kinds=KINDS, cache=False):
    kind = rng.choice(kinds)
    n = rng.choice([1, 5, 40, 40, 300, 2000])
    case = {'id': i, 'kind': kind, 'n': n, 'odd': int(rng.random() < .5),
            'wrap': [rng.choice(['box', 'arc']) for _ in range(rng.choice([0, 1, 1, 2, 3]))], 'steps': []}
    if not cache and rng.random() < .2:
        case['base'] = rng.choice(BASES)
    if cache:
        case['init'] = rng.choice([1, 4, 16, 100, 4096])
    for _ in range(rng.choice([1, 2, 4, 6])):
        m = rng.choice(['one', 'conc'] if cache else ['one', 'many', 'many', 'conc'])
        rs = some_ranges(rng, n, .1 if not cache else .03)
        if kind == 'coalesce':
            rs = [r for r in rs if r[0] <= n]
        if m == 'one':
            rs = rs[:1] or [[0, n]]
        bad = rng.random() < .3
        modes = []
        for _ in range(len(rs) + 3):
            if kind == 'http':
                modes.append(rng.choice(BAD_HTTP) if bad and rng.random() < .3 else rng.choice(GOOD_HTTP))
                if 'base' in case and modes[-1].startswith('20'):
                    modes[-1] = '206'
            else:
                modes.append('fail' if bad and rng.random() < .3 else 'ok')
        if kind == 'http' and 'redirect' in modes and m == 'conc':
            modes = ['206' if x == 'redirect' else x for x in modes]
        case['steps'].append({'m': m, 'rs': rs, 'modes': modes})
    return case


def c02(c: Check):
    rng = random.Random(c.seed + 2)
    cfg = ('SPECIFICATION Spec\nINVARIANTS Allowed {0}\n{1}\nCONSTANTS N = {2}\nMaxRanges = {3}\nRecord = {4}\n'
           'CHECK_DEADLOCK FALSE')
    c.design('MCRanges', cfg.format('', 'PROPERTY Ends', 3, 2, 'FALSE'),
             'all pairs of ranges against a server that does ranges, does not, or fails', name='MCRanges-live',
             timeout=3000)
    xs = c.design('MCRanges', cfg.format('Out', '', 4 if c.thorough else 3, 2, 'TRUE'),
                  'behaviours of two range requests', timeout=3000).json()
    xs = rng.sample(xs, min(len(xs), 60000 if c.thorough else 5000))
    cases = []
    n = 4 if c.thorough else 3
    for i, x in enumerate(xs):
        bad = 'bad' in x['modes']
        kind = 'http' if i % 2 else rng.choice(KINDS[1:])
        if kind == 'http':
            modes = [rng.choice(BAD_HTTP) if m == 'bad' else
                     rng.choice(['200', '200-chunked', '200-close']) if m == '200' else m for m in x['modes']]
        else:
            modes = ['fail' if m == 'bad' else 'ok' for m in x['modes']]
        many = len(x['rs']) != 1 or bad
        if kind == 'coalesce' and any(r[0] > n for r in x['rs']):
            kind = 'object'       # the store's own merging of ranges cannot take a start past the end
        cases.append({'id': i, 'kind': kind, 'n': n, 'odd': 0,
                      'wrap': [rng.choice(['box', 'arc'])] * rng.choice([0, 1]),
                      'steps': [{'m': 'many' if many else 'one', 'rs': x['rs'], 'modes': modes}]})
    c.validate('RangeTrace', c.run('ranges', cases), 'behaviours of the model')
    cases = [ranges_case(rng, i) for i in range(20000 if c.thorough else 2500)]
    c.validate('RangeTrace', c.run('ranges', cases), 'random requests')
    cases = []
    for kind in KINDS:                      # long and many ranges
        for n, k, size in [(70000, 3, 66000), (2000, 60, 9)] * (4 if c.thorough else 1):
            rs = [[lo, lo + rng.randrange(1, min(size, n - lo) + 1)] for lo in (rng.randrange(n) for _ in range(k))]
            modes = [rng.choice(['206', '200', '200-chunked', '200-close']) if kind == 'http' else 'ok'] * (k + 3)
            cases.append({'id': len(cases), 'kind': kind, 'n': n, 'odd': 0, 'wrap': [],
                          'steps': [{'m': 'many', 'rs': rs, 'modes': modes},
                                    {'m': 'one', 'rs': [[0, n]], 'modes': modes},
                                    {'m': 'conc', 'rs': rs[:20], 'modes': modes}]})
    c.validate('RangeTrace', c.run('ranges', cases), 'long and many ranges')
    c.exhaustive = False
