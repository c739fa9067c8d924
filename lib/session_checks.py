"""Checks of whole sessions: chains, tile maps, tile fetches, failures, header size, layouts."""
import json
import random

from core import Check
import tiffgen as tg
from tiffgen import Entry, w8

NOCACHE = {'p': 0, 'init': w8(1), 'm8': 16}


def cache(rng, p=.5):
    if rng.random() >= p:
        return NOCACHE
    return {'p': 1, 'init': w8(rng.choice([1, 2, 5, 16, 40, 64, 100, 1000, 32768])),
            'm8': rng.choice([0, 8, 9, 12, 16, 24])}


def scase(i, file, ops, mode='short', reader='sparse', cache=None, again=0):
    return {'id': i, 'file': file, 'mode': mode, 'reader': reader, 'cache': cache or NOCACHE,
            'ops': ops, 'again': again}


def fault(op, kind, at=0, n=0, **kw):
    o = {'op': op, **kw}
    if kind != 'none':
        o['fault'] = {'kind': kind, 'at': at, 'n': n}
    return o


def model_file(c):
    r = random.Random(0)
    if c == 'three':
        return tg.layout(r, tg.small_dirs(3), True, False, order='seq').file()
    return tg.layout(r, tg.small_dirs(3), False, True, order='seq', cycle=0).file()


def scripts(c: Check, steps, keep, rng):
    """Sequences of operations and faults from the session model."""
    d = c.design('MCSession', f'INIT Init\nNEXT Next\nINVARIANT Refines\nINVARIANT Bounded\n'
                 f'CONSTANT Steps = {steps}\nCONSTANT Chains = {{"three", "loop"}}\n'
                 'CHECK_DEADLOCK FALSE',
                 f'every sequence of {steps} operations with failed, short and given-up requests: '
                 'directories stay in chain order and results do not depend on past failures')
    out = []
    for s in d.json():
        if s['ops'][0]['op'] == 'open':
            out.append(s)
    if len(out) > keep:
        out = rng.sample(out, keep)
    cases = []
    for i, s in enumerate(out):
        ops = []
        for a in s['ops']:
            at = {'open': [0, 1], 'next': [0, rng.randrange(2, 9)],
                  'all': [rng.randrange(0, 4), rng.randrange(8, 24)]}[a['op']][1 if a['late'] else 0]
            ops.append(fault(a['op'], a['f'], at, rng.choice([0, 1, 3])))
        # afterwards everything works
        ops += [{'op': 'next'}, {'op': 'all'}, {'op': 'next'}]
        if rng.random() < .5:
            ops += [{'op': 'open'}, {'op': 'all', 'via': 1}]
        cases.append(scase(i, model_file(s['c']), ops, mode=rng.choice(['short', 'strict']),
                           reader=rng.choice(['sparse', 'box', 'arc']),
                           cache=cache(rng, .0 if rng.random() < .6 else 1)))
        if cases[-1]['cache']['p']:
            cases[-1]['mode'] = 'short'
    return cases


def c06(c: Check):
    rng = random.Random(c.seed)
    deep = 'TRUE' if c.thorough else 'FALSE'
    d = c.design('MCChain', f'INIT Init\nNEXT Next\nINVARIANT Follows\nCONSTANT Deep = {deep}\n'
                 'CHECK_DEADLOCK FALSE',
                 'three directories in every placement with every combination of links: read once, '
                 'in link order; loops and links to nowhere are errors')
    from meta_checks import vary
    cases = [vary(rng, i, tg.raw_file(bytes(x['b']))) for i, x in enumerate(d.json())]
    c.validate('MetaTrace', c.run('meta', cases), 'chains of the model')
    cases = scripts(c, 4 if c.thorough else 3, 60000 if c.thorough else 4000, rng)
    c.validate('SessionTrace', c.run('session', cases), 'sessions of the model')
    # longer chains anywhere in the file, far beyond 4 GiB included
    cases = []
    for i in range(8000 if c.thorough else 1200):
        le, big = rng.random() < .5, rng.random() < .6
        far = rng.random() < (.7 if big else .3)
        n = rng.choice([1, 2, 3, 4, 6, 9])
        dirs = []
        for _ in range(n):
            es, spp = tg.required(rng)
            es += [e for e in tg.optional(rng, spp, .05)]
            es += [Entry(65001, 12, [tg.rnd_elem(rng, 12)])] if rng.random() < .3 else []
            es.append(Entry(65002, 4, [rng.randrange(1 << 32)]))
            dirs.append(sorted(es, key=lambda e: e.tag))
        cyc = rng.choice([None, None, None, None, 0, n - 1, n // 2])
        if not far and rng.random() < .3:
            base = rng.choice([1 << 31, (1 << 32) - 4000]) if not big or rng.random() < .5 else 1 << 33
            base += rng.randrange(100)
        else:
            base = None
        t = tg.layout(rng, dirs, le, big, far=far, cycle=cyc, base=base)
        f = t.file()
        if len(f["x"]) <= 1 and rng.random() < .25:
            # a link to nowhere or into the middle of something
            x = rng.choice(f['x'])
            k = rng.randrange(len(x['b']))
            x['b'][k] ^= 1 << rng.randrange(8)
        ops = [{'op': 'open'}]
        for _ in range(rng.choice([0, 1, 2, n, n + 2])):
            ops.append(fault('next', rng.choice(['none', 'none', 'fail', 'short', 'hang']),
                             rng.randrange(30), rng.randrange(4)))
        ops += [fault('all', rng.choice(['none', 'fail', 'hang']), rng.randrange(60)), {'op': 'all'},
                {'op': 'next'}, {'op': 'next'}]
        near = len(f['x']) <= 1
        cases.append(scase(i, f, ops, mode=rng.choice(['short', 'strict']),
                           reader=rng.choice(['sparse', 'sparse', 'box', 'arc']),
                           cache=cache(rng, .4 if near else 0)))
        if cases[-1]['cache']['p']:
            cases[-1]['mode'] = 'short'
    c.validate('SessionTrace', c.run('session', cases), 'random chains')
    cases = []
    for i, n in enumerate(([17, 33, 65, 130, 257, 300] if c.thorough else [17, 40, 130])):
        for cyc in (None, n - 1, n // 2):
            le, big = rng.random() < .5, rng.random() < .5
            t = tg.layout(rng, tg.small_dirs(n), le, big, cycle=cyc, order=rng.choice([None, 'seq']))
            ops = [{'op': 'open'}, {'op': 'all'}]
            if cyc is None:
                ops = ops[:1] + [{'op': 'next'}] * rng.choice([n // 2, 20]) + [
                    fault('all', 'fail', rng.randrange(100)), {'op': 'all'}, {'op': 'next'}]
            cases.append(scase(len(cases), t.file(), ops, cache=cache(rng, .5)))
    for ns in [(255, 6, 9), (256, 6), (6, 257, 300, 8)]:
        for big in (False, True):
            dirs = [tg.crowded(rng, n) for n in ns]
            t = tg.layout(rng, dirs, rng.random() < .5, big)
            cases.append(scase(len(cases), t.file(), [{'op': 'open'}, {'op': 'next'}, {'op': 'all'}], cache=cache(rng, .5)))
    c.validate('SessionTrace', c.run('session', cases), 'long chains')
    c.exhaustive = False


def c11(c: Check):
    rng = random.Random(c.seed)
    deep = 'TRUE' if c.thorough else 'FALSE'
    d = c.design('MCTiles', f'INIT Init\nNEXT Next\nINVARIANT Mapped\nCONSTANT Deep = {deep}\n'
                 'CHECK_DEADLOCK FALSE',
                 'every small grid, interleaved and band-separate: smallest cover, one range per position '
                 'and band, row by row, nothing outside', heap='8g')
    cases = [scase(i, tg.raw_file(bytes(x['b'])), x['ops'], cache=cache(rng, .2))
             for i, x in enumerate(d.json())]
    c.validate('SessionTrace', c.run('session', cases), 'grids of the model')
    cases = []
    for i in range(20000 if c.thorough else 2500):
        cases.append(grid_case(rng, i))
    c.validate('SessionTrace', c.run('session', cases), 'random grids')
    cases = [big_grid(rng, i, *g) for i, g in enumerate(
        [(300, 230, 1, False), (40, 30, 3, True), (20, 9, 20, True), (7, 5, 130, True), (1, 1, 300, True)] +
        ([(258, 257, 2, True), (70000, 1, 1, False), (1, 66000, 1, False)] if c.thorough else []))]
    c.validate('SessionTrace', c.run('session', cases), 'large grids and many bands')
    c.exhaustive = False


def big_grid(rng, i, nx, ny, spp, planar):
    le, big = rng.random() < .5, rng.random() < .5
    tw, th = rng.choice([1, 16, 256]), rng.choice([1, 16, 256])
    w, h = nx * tw - rng.randrange(tw), ny * th - rng.randrange(th)
    n = nx * ny * (spp if planar else 1)
    es = [Entry(256, 4, [w]), Entry(257, 4, [h]), Entry(258, 3, [8] * spp), Entry(262, 3, [1]), Entry(277, 3, [spp]),
          Entry(284, 3, [2 if planar else 1]), Entry(322, 4, [tw]), Entry(323, 4, [th]),
          Entry(324, rng.choice([4, 16] if big else [4]), [1000 + 7 * k for k in range(n)]),
          Entry(325, rng.choice([3, 4]), [1 + k % 5003 for k in range(n)])]
    f = tg.layout(rng, [es], le, big).file()
    some = [[w8(rng.choice([rng.randrange(nx), nx - 1, nx])), w8(rng.choice([rng.randrange(ny), ny - 1, ny - 1, ny]))]
            for _ in range(12)]
    ins = [[w8(rng.randrange(nx)), w8(rng.randrange(ny))] for _ in range(20)] + [[w8(nx - 1), w8(ny - 1)]]
    ops = [{'op': 'open'}, {'op': 'all'}, {'op': 'count', 'd': 1}, {'op': 'ranges', 'd': 1, 'xy': some},
           {'op': 'ranges', 'd': 1, 'xy': ins}]
    return scase(i, f, ops, cache={'p': 1, 'init': w8(32768), 'm8': 16})


BIG = [1, 2, 255, 256, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1]


def grid_case(rng, i):
    le, big = rng.random() < .5, rng.random() < .5
    huge = rng.random() < .35
    while True:
        if huge:
            w, h, tw, th = (rng.choice(BIG) for _ in range(4))
        else:
            w, h = rng.choice([0, 1, 2, 3, 5, 16, 17, 100]), rng.choice([0, 1, 2, 4, 7, 16, 33])
            tw, th = rng.choice([1, 2, 3, 8, 16, 17, 0]), rng.choice([1, 2, 5, 16, 33, 0])
        spp = rng.choice([1, 1, 2, 3, 4, 0, 65535] if huge else [1, 1, 2, 3, 4])
        nx, ny = (tg.up(w, tw) if tw else 0), (tg.up(h, th) if th else 0)
        planar = rng.random() < .45
        n = nx * ny * (spp if planar else 1)
        if n <= 60 or huge:
            break
    n = min(n, 12) if n > 60 else n
    no = max(0, n + rng.choice([0, 0, 0, 0, 0, -1, -2, 1]))
    nc = max(0, n + rng.choice([0, 0, 0, 0, 0, -1, -2, 1]))
    offs = [rng.randrange(1 << 20) for _ in range(no)]
    cnts = [rng.randrange(1 << 12) for _ in range(nc)]
    for v in (offs, cnts):
        for k in range(len(v)):
            if rng.random() < .08:
                v[k] = rng.choice([0, (1 << 32) - 1, (1 << 64) - 1, (1 << 63), (1 << 64) - 4096])
    es = [Entry(256, 4, [w]), Entry(257, 4, [h]), Entry(258, 3, [8]), Entry(262, 3, [1]),
          Entry(277, 3, [spp])]
    if planar or rng.random() < .5:
        es.append(Entry(284, 3, [2 if planar else 1]))
    part = [Entry(322, 4, [tw]), Entry(323, 4, [th]), Entry(324, 16, offs), Entry(325, 16, cnts)]
    if rng.random() < .15:
        part.pop(rng.randrange(4))
    es += part
    if rng.random() < .2:
        es += [Entry(273, 4, [7, 8, 9]), Entry(279, 4, [1, 2, 3])]
    f = tg.layout(rng, [es], le, big).file()
    edge = lambda m: rng.choice([0, 0, 1, max(m - 1, 0), max(m - 1, 0), m, m + 1,
                                 (1 << 32) - 1, 1 << 32, (1 << 64) - 1, (1 << 63),
                                 (1 << 64) // max(nx, 2), (1 << 64) // max(nx, 2) + 1])
    inside = lambda: [w8(rng.randrange(max(nx, 1))), w8(rng.randrange(max(ny, 1)))]
    ops = [{'op': 'open'}, {'op': 'all'}, {'op': 'count', 'd': 1}]
    ops.append({'op': 'ranges', 'd': 1, 'xy': [[w8(edge(nx)), w8(edge(ny))] for _ in range(8)]})
    ops.append({'op': 'ranges', 'd': 1, 'xy': [inside() for _ in range(rng.choice([0, 1, 3, 6]))]})
    ops.append({'op': 'tiles', 'd': 1, 'xy': [[w8(edge(nx)), w8(edge(ny))]], 'single': 1})
    return scase(i, f, ops, mode=rng.choice(['short', 'strict']))


def tiled_case(rng, i, clients=0, **kw):
    le, big = rng.random() < .5, rng.random() < .5
    ims = [tg.tiled(rng, big, extra=rng.choice([0, .1])) for _ in range(rng.choice([1, 2, 3]))]
    for im in ims:
        if rng.random() < .1:
            im.counts = [max(0, len(x) + rng.choice([0, 0, 1, 5])) for x in im.data]
    far = rng.random() < .1
    t, end = tg.assemble(rng, ims, le, big, where=rng.choice(['after', 'before', 'mixed']), far=far)
    f = t.file(end) if rng.random() < .8 else t.file(max(0, end - rng.randrange(6)))

    def grid(im):
        g = {e.tag: e.vals[0] for e in im.entries if e.tag in (256, 257, 322, 323)}
        return tg.up(g[256], g[322]), tg.up(g[257], g[323])

    def some(im, k):
        nx, ny = grid(im)
        out = [[w8(rng.randrange(nx)), w8(rng.randrange(ny))] for _ in range(k)]
        if out and rng.random() < .08:
            out[rng.randrange(k)] = rng.choice([[w8(nx), w8(0)], [w8(0), w8(ny)]])
        if len(out) > 1 and rng.random() < .3:
            out.append(out[0])
        return out
    return f, ims, grid, some


def c12(c: Check):
    rng = random.Random(c.seed)
    cases = []
    for i in range(8000 if c.thorough else 1200):
        f, ims, grid, some = tiled_case(rng, i)
        ops = [{'op': 'open'}, {'op': 'all'}]
        for d, im in enumerate(ims):
            nx, ny = grid(im)
            every = [[w8(x), w8(y)] for y in range(ny) for x in range(nx)]
            rng.shuffle(every)
            ops.append({'op': 'tiles', 'd': d + 1, 'xy': every})
            ops.append({'op': 'tiles', 'd': d + 1, 'xy': some(im, rng.choice([1, 2, 4]))})
            ops.append({'op': 'tiles', 'd': d + 1, 'xy': some(im, 1), 'single': 1})
            if rng.random() < .3:
                ops.append(fault('tiles', rng.choice(['fail', 'short', 'hang']), rng.randrange(6),
                                 rng.randrange(5), d=d + 1, xy=every))
                ops.append({'op': 'tiles', 'd': d + 1, 'xy': every})
        near = len(f['x']) <= 1
        reader = rng.choice(['sparse', 'box', 'arc'] + (['tokio', 'object'] if near else []))
        mode = rng.choice(['short', 'strict'])
        if reader == 'object' and not all(im.data and all(im.data) for im in ims):
            reader = 'tokio'        # object stores may refuse empty ranges
        if reader in ('tokio', 'object'):
            mode = 'strict'
            for o in ops:
                o.pop('fault', None)
        cases.append(scase(i, f, ops, mode=mode, reader=reader))
    c.validate('SessionTrace', c.run('session', cases), 'tile fetches')
    cases = []
    for i, (nx, ny, spp, planar) in enumerate([(17, 9, 1, False), (13, 12, 3, False), (6, 5, 20, True), (3, 2, 70, True),
                                               (1, 1, 257, True), (300, 1, 1, False)] * (5 if c.thorough else 1)):
        le, big = rng.random() < .5, rng.random() < .5
        n = nx * ny * (spp if planar else 1)
        es = [Entry(256, 4, [nx * 16]), Entry(257, 4, [ny * 16]), Entry(258, 3, [8] * spp), Entry(262, 3, [1]),
              Entry(277, 3, [spp]), Entry(284, 3, [2 if planar else 1]), Entry(322, 4, [16]), Entry(323, 4, [16])]
        im = tg.Image(es, [rng.randbytes(rng.randrange(1, 9)) for _ in range(n)], 4, 3)
        t, end = tg.assemble(rng, [im], le, big, where=rng.choice(['after', 'before']))
        every = [[w8(x), w8(y)] for y in range(ny) for x in range(nx)]
        rng.shuffle(every)
        ops = [{'op': 'open'}, {'op': 'all'}, {'op': 'tiles', 'd': 1, 'xy': every + every[:3]},
               fault('tiles', 'fail', rng.randrange(len(every)), d=1, xy=every),
               {'op': 'tiles', 'd': 1, 'xy': every[:1], 'single': 1}]
        cases.append(scase(i, t.file(end), ops, reader=rng.choice(['sparse', 'arc'])))
        cases.append(scase(i, t.file(end), ops[:3] + ops[4:], reader=rng.choice(['tokio', 'object']), mode='strict'))
    # positions beyond 16 bits
    for nx, ny in [(65540, 1), (1, 65540)] + ([(300, 230)] if c.thorough else []):
        le, big = rng.random() < .5, rng.random() < .5
        n = nx * ny
        es = [Entry(256, 4, [nx]), Entry(257, 4, [ny]), Entry(258, 3, [8]), Entry(262, 3, [1]), Entry(277, 3, [1]),
              Entry(322, 4, [1]), Entry(323, 4, [1]), Entry(324, 4, [1000 + k for k in range(n)]),
              Entry(325, 1, [1 + k % 5 for k in range(n)])]
        f = tg.layout(rng, [es], le, big).file()
        far = [[w8(x), w8(y)] for x, y in [(0, 0), (nx - 1, ny - 1), (nx - 2, ny - 1) if ny == 1 else (nx - 1, ny - 2),
                                           (min(nx - 1, 65535), min(ny - 1, 65535)), (min(nx - 1, 65536), min(ny - 1, 65536))]]
        ops = [{'op': 'open'}, {'op': 'all'}, {'op': 'tiles', 'd': 1, 'xy': far}] + \
              [{'op': 'tiles', 'd': 1, 'xy': [p], 'single': 1} for p in far]
        cases.append(scase(len(cases), f, ops, cache={'p': 1, 'init': w8(32768), 'm8': 16}))
    c.validate('SessionTrace', c.run('session', cases), 'fetches of many tiles and bands')
    # fetches that overlap in time, with every schedule of the model
    scheds = []
    for needs, faults, keep in ([('<<2, 2, 1>>', 1, 0), ('<<3, 3>>', 2, 0)] +
                                ([('<<2, 2, 2>>', 1, 0), ('<<4, 3>>', 2, 0)] if c.thorough else [])):
        n = needs.replace('<', '').replace('>', '').replace(' ', '').split(',')
        d = c.design('MCFetch', 'INIT Init\nNEXT Next\nINVARIANT OwnPieces\nINVARIANT CanFinish\n'
                     f'INVARIANT Out\nCONSTANT Needs <- N{"".join(n)}\nCONSTANT MaxFaults = {faults}\n'
                     'CHECK_DEADLOCK FALSE',
                     f'fetches of {needs} pieces at once, answered in every order, with up to '
                     f'{faults} failures or drops', name='MCFetch' + ''.join(n))
        scheds += [([int(x) for x in n], x['sched']) for x in d.json()]
    keep = 20000 if c.thorough else 2500
    if len(scheds) > keep:
        scheds = rng.sample(scheds, keep)
    cases = []
    for i, (needs, sched) in enumerate(scheds):
        f, ims, grid, some = tiled_case(rng, i)
        clients = []
        for n in needs:
            d = rng.randrange(len(ims))
            cl = {'d': d + 1, 'xy': some(ims[d], n)}
            if len(cl['xy']) == 1 and rng.random() < .7:
                cl['single'] = 1
            clients.append(cl)
        x = scase(i, f, [], mode=rng.choice(['short', 'strict']),
                  reader=rng.choice(['sparse', 'box', 'arc']))
        x['clients'], x['schedule'] = clients, sched
        cases.append(x)
    c.validate('SessionTrace', c.run('conc', cases), 'concurrent tile fetches')
    c.exhaustive = False


def all_values(rng, le, big, types):
    """A directory with values of the types: single, as many as an entry holds, and elsewhere; no byte is zero."""
    es = tg.small_dirs(1)[0][:-1]
    for ty in types:
        n = tg.SIZES[ty]
        fit = (8 if big else 4) // n
        for k in sorted({1, max(1, fit), fit + rng.choice([1, 2, 3])}):
            es.append(Entry(64000 + len(es), ty, [bytes(rng.randrange(1, 120) for _ in range(n)) for _ in range(k)]))
    return tg.layout(rng, [es], le, big).file()


def at_every_point(c, rng, bases, obs, keep, what):
    cases = []
    points = 0
    for b, o in zip(bases, obs):
        for j, a in enumerate(o['ops']):
            for k in range(a['reqs']):
                points += 1
                for kind, n in [('fail', 0), ('hang', 0), ('short', 0), ('short', 1),
                                ('short', rng.choice([2, 3, 5, 7]))]:
                    ops = [dict(x) for x in b['ops'][:j]]
                    ops.append({**b['ops'][j], 'fault': {'kind': kind, 'at': k, 'n': n}})
                    ops += [dict(x) for x in b['ops'][j:]]
                    # the same reader once more, from the start
                    ops += [{'op': 'open'}, {'op': 'all'}] + [dict(x) for x in b['ops'][3:4]] if rng.random() < .3 else []
                    if a['op'] == 'all' and rng.random() < .4:      # go on one by one instead
                        ops[j + 1:j + 2] = [{'op': 'next'}, {'op': 'next'}]
                    cases.append({**b, 'id': len(cases), 'ops': ops})
    total = len(cases)
    if total > keep:
        cases = rng.sample(cases, keep)
    c.cov[what] = {'points': points, 'sessions': total, 'executed': len(cases)}
    c.validate('SessionTrace', c.run('session', cases), what)


def c18(c: Check):
    rng = random.Random(c.seed)
    cases = scripts(c, 3, 30000 if c.thorough else 1200, rng)
    c.validate('SessionTrace', c.run('session', cases), 'sessions of the model')
    # every request of a session fails once
    bases = []
    for i in range(60 if c.thorough else 10):
        le, big = rng.random() < .5, rng.random() < .5
        ims = [tg.tiled(rng, big, extra=.03, maxn=4) for _ in range(2)]
        t, end = tg.assemble(rng, ims, le, big, where=rng.choice(['after', 'before', 'mixed']))
        f = t.file(end)
        ops = [{'op': 'open'}, {'op': 'next'}, {'op': 'all'}]
        for d in (1, 2):
            g = {e.tag: e.vals[0] for e in ims[d - 1].entries if e.tag in (256, 257, 322, 323)}
            nx, ny = tg.up(g[256], g[322]), tg.up(g[257], g[323])
            every = [[w8(x), w8(y)] for y in range(ny) for x in range(nx)]
            ops.append({'op': 'tiles', 'd': d, 'xy': every})
            ops.append({'op': 'tiles', 'd': d, 'xy': every[-1:], 'single': 1})
        for ca in (NOCACHE, {'p': 1, 'init': w8(rng.choice([1, 8, 30])), 'm8': rng.choice([8, 12, 16])},
                   {'p': 1, 'default': 1, 'init': w8(32768), 'm8': 16}):
            bases.append(scase(len(bases), f, ops, cache=ca,
                               mode='short' if ca['p'] else rng.choice(['short', 'strict'])))
    obs = c.run('session', bases)
    c.validate('SessionTrace', obs, 'the sessions without failures')
    if c.violations:
        return
    at_every_point(c, rng, bases, obs, 60000 if c.thorough else 4000, 'one failed request at every point')
    # values of every type and place
    bases = []
    for le, big in [(True, False), (False, True)] + ([(False, False), (True, True)] if c.thorough else []):
        for k in range(0, 16, 4):
            bases.append(scase(len(bases), all_values(rng, le, big, tg.TYPES[k:k + 4]), [{'op': 'open'}, {'op': 'all'}],
                               mode=rng.choice(['short', 'strict'])))
    obs = c.run('session', bases)
    c.validate('SessionTrace', obs, 'values of every type without failures')
    if not c.violations:
        at_every_point(c, rng, bases, obs, 40000 if c.thorough else 3000, 'values cut off at every point')
    c.exhaustive = False


def c20(c: Check):
    rng = random.Random(c.seed)
    d = c.design('MCHsize', 'INIT Init\nNEXT Next\nINVARIANT Suffices\nCHECK_DEADLOCK FALSE\n'
                 f'CONSTANT Deep = {"TRUE" if c.thorough else "FALSE"}',
                 'the smallest data offset covers the metadata of every file that has it first')
    cases = []
    for x in d.json():
        cases.append(scase(len(cases), tg.raw_file(bytes(x['b'])),
                           [{'op': 'open'}, {'op': 'all'}, {'op': 'hsize'}], again=1))
    c.validate('SessionTrace', c.run('session', cases), 'files of the model')
    cases = []
    for i in range(8000 if c.thorough else 1500):
        le, big = rng.random() < .5, rng.random() < .5
        ims = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            im = tg.tiled(rng, big, extra=rng.choice([0, .1]))
            if rng.random() < .3:
                im.tags = (273, 279)
            if rng.random() < .1:
                im.tags = ()
            ims.append(im)
        if not any(im.tags and im.data for im in ims):
            continue
        t, end = tg.assemble(rng, ims, le, big,
                             where=rng.choice(['after', 'after', 'after', 'before', 'mixed']))
        f = t.file(end)
        if rng.random() < .2:       # sparse tiles: offset 0
            ims2 = ims[rng.randrange(len(ims))]
            ims2.data = [b'' for _ in ims2.data]
        ops = [{'op': 'open'}]
        ops += [{'op': 'next'}] * rng.choice([0, 0, 1]) + [{'op': 'all'}, {'op': 'hsize'}]
        cases.append(scase(i, f, ops, again=1, cache=cache(rng, .2)))
    # offsets of any size, in any place of the lists
    for i in range(4000 if c.thorough else 800):
        le, big = rng.random() < .5, rng.random() < .5
        dirs = []
        for _ in range(rng.choice([1, 2, 3])):
            es, spp = tg.required(rng)
            for tag in (273, 324):
                if rng.random() < .6:
                    vs = [rng.choice([0, 0, rng.randrange(5000), rng.randrange(1 << 32), (1 << 32) - 1] +
                                     ([(1 << 63) + 1, (1 << 64) - 1] if big else []))
                          for _ in range(rng.choice([1, 2, 5, 9]))]
                    es.append(Entry(tag, 16 if max(vs) >> 32 else rng.choice([4, 16]), vs))
            dirs.append(sorted(es, key=lambda e: e.tag))
        if not any(any(v for v in e.vals) for d_ in dirs for e in d_ if e.tag in (273, 324)):
            continue
        f = tg.layout(rng, dirs, le, big).file()
        cases.append(scase(len(cases), f, [{'op': 'open'}, {'op': 'all'}, {'op': 'hsize'}]))
    # many directories and large metadata
    for i in range(60 if c.thorough else 12):
        le, big = rng.random() < .5, rng.random() < .5
        ims = [tg.tiled(rng, big, extra=0) for _ in range(rng.choice([1, 2, 9, 20]))]
        if rng.random() < .7:
            k = rng.choice([9000, 33000])
            ims[rng.randrange(len(ims))].entries.append(Entry(65001, 1, [rng.randrange(256) for _ in range(k)]))
        t, end = tg.assemble(rng, ims, le, big, where='after')
        cases.append(scase(len(cases), t.file(end), [{'op': 'open'}, {'op': 'all'}, {'op': 'hsize'}], again=1,
                           cache=cache(rng, .3)))
    c.validate('SessionTrace', c.run('session', cases), 'header sizes of random files')
    c.exhaustive = False
