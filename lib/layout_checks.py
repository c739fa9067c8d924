"""The same image in many files: byte order, variant, entry order, integer widths, placement, reader, cache."""
import random

from core import Check
import jpeg
import tiffgen as tg
from decode_checks import GENERAL, TYPES, UNKNOWN, content, tile
from session_checks import NOCACHE
from tiffgen import Entry, Image, up, uint_type, w8

NEAR = ['sparse', 'box', 'arc', 'tokio', 'object', 'http']
# numbers that the writer may store in any unsigned type
NUMBERS = {254, 256, 257, 258, 259, 262, 274, 277, 278, 279, 280, 281, 284, 296, 317, 320, 322, 323, 338, 339}


def variant(rng, file, raws, near=True):
    cache = NOCACHE
    r = rng.random()
    if near and r < .4:
        cache = {'p': 1, 'init': w8(rng.choice([1, 5, 16, 100, 1000, 32768])), 'm8': rng.choice([0, 8, 12, 16, 24])}
    elif near and r < .6:
        cache = {'p': 1, 'default': 1, 'init': w8(1), 'm8': 16}
    return {'file': file, 'reader': rng.choice(NEAR if near else NEAR[:3]), 'cache': cache, 'raws': raws,
            'one': rng.randrange(2)}


# ------------------------------------------------------------------ samples to pieces
def store_row(row, g, size, pred, le):
    """row: sample values as unsigned numbers; g samples per pixel."""
    top = 1 << (8 * size)
    if pred == 2:
        row = [x if i < g else (x - row[i - g]) % top for i, x in enumerate(row)]
    if pred == 3:
        b = [x.to_bytes(size, 'big') for x in row]
        planes = [b[i][k] for k in range(size) for i in range(len(row))]
        return bytes(x if i < g else (x - planes[i - g]) % 256 for i, x in enumerate(planes))
    return b''.join(x.to_bytes(size, 'little' if le else 'big') for x in row)


def store(samples, tw, th, g, size, pred, le):
    """One piece: rows of tw*g samples."""
    n = tw * g
    return b''.join(store_row(samples[r * n:(r + 1) * n], g, size, pred, le) for r in range(th))


def picture(rng):
    """An image independent of its layout."""
    p = {}
    p['m'] = rng.choice([1, 1, 1, 7, 50001] + GENERAL)
    p['ty'] = rng.choice([t for t in TYPES if t[1] >= 8])
    p['planar'] = rng.random() < .4
    p['spp'] = rng.choice([1, 1, 2, 3, 4])
    p['tw'], p['th'] = rng.choice([1, 2, 3, 5, 8]), rng.choice([1, 2, 3, 4])
    p['ph'] = 1
    p['pred'] = rng.choice([1, 2, 3] if p['ty'][0] == 3 else [1, 2])
    if p['m'] == 50001:
        p.update(ty=(1, 8), planar=False, spp=3, ph=2, pred=1)
    if p['m'] == 7:
        p.update(ty=(1, 8), planar=False, spp=rng.choice([1, 3]), pred=1, tw=8, th=8)
        p['ph'] = 1 if p['spp'] == 1 else rng.choice([2, 6])
    nx, ny = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2])
    p['w'] = p['tw'] * nx - rng.choice([0, p['tw'] - 1])
    p['h'] = p['th'] * ny - rng.choice([0, p['th'] - 1])
    p['nx'], p['ny'] = nx, ny
    bands = p['spp'] if p['planar'] else 1
    g = 1 if p['planar'] else p['spp']
    size = p['ty'][1] // 8
    p['pieces'] = [[int.from_bytes(content(rng, size, p['ty'][1], p['ty'][0], True)[::-1], 'big')
                    for _ in range(p['tw'] * p['th'] * g)] for _ in range(bands * nx * ny)]
    keep = [e for e in tg.optional(rng, p['spp'], .2)
            if e.tag not in {259, 273, 284, 317, 322, 323, 324, 325, 339, 347, 50674}]
    extra = keep + (tg.geo(rng) if rng.random() < .5 else [])
    if p['m'] == 7:
        shared = rng.random() < .5
        p['jpeg'], tabs = [], None
        for _ in range(nx * ny):
            bl = jpeg.random_blocks(rng, 8, 8, p['spp'])
            b, tabs = jpeg.encode(8, 8, bl, p['spp'], shared)
            p['jpeg'].append((b, list(jpeg.pixels(8, 8, bl, p['spp']))))
        if tabs:
            extra.append(Entry(347, 7, list(tabs)))
    p['extra'] = extra
    p['given'] = rng.random() < .5          # write default values out
    return p


def wide(rng, e):
    if e.tag in NUMBERS and all(isinstance(v, int) for v in e.vals) and e.vals:
        return Entry(e.tag, uint_type(rng, max(e.vals)), e.vals)
    return e


def jobs(p, le):
    g = 1 if p['planar'] else p['spp']
    raws = [store(s, p['tw'], p['th'], g, p['ty'][1] // 8, p['pred'], le) for s in p['pieces']]
    return raws, [{'id': 0, 'm': p['m'], 'w': p['tw'], 'h': p['th'], 'spp': g, 'bits': p['ty'][1], 'fmt': p['ty'][0],
                   'v': 0, 'b': list(b)} for b in raws]


def image(rng, p, stored):
    s = p['spp']
    es = [Entry(256, 3, [p['w']]), Entry(257, 3, [p['h']]), Entry(258, 3, [p['ty'][1]] * s), Entry(262, 3, [p['ph']]),
          Entry(277, 3, [s]), Entry(322, 3, [p['tw']]), Entry(323, 3, [p['th']])]
    if p['planar'] or p['given']:
        es.append(Entry(284, 3, [2 if p['planar'] else 1]))
    if p['m'] != 1 or p['given']:
        es.append(Entry(259, 3, [p['m']]))
    if p['pred'] != 1:
        es.append(Entry(317, 3, [p['pred']]))
    if p['ty'][0] != 1 or p['given']:
        es.append(Entry(339, 3, [p['ty'][0]] * s))
    es = [wide(rng, e) for e in es + p['extra']]
    return Image(es, stored, 4, rng.choice([3, 4, 16]))


def raw_of(p, raws, k):
    """What is known of tile k: its uncompressed pieces."""
    nt = p['nx'] * p['ny']
    if p['m'] == 1:
        return UNKNOWN
    if p['m'] == 7:
        return {'p': 1, 'b': [p['jpeg'][k][1]]}
    return {'p': 1, 'b': [list(raws[b * nt + k]) for b in range(len(raws) // nt)]}


def c19(c: Check):
    rng = random.Random(c.seed + 19)
    d = c.design('MCLayout', f'INIT Init\nNEXT Next\nINVARIANT SameImage\nCONSTANT Deep = '
                 f'{"TRUE" if c.thorough else "FALSE"}\nCHECK_DEADLOCK FALSE',
                 'images in every byte order, variant, entry order, width of numbers and placement: each file denotes '
                 'the same fields, keys and samples', timeout=3000)
    by = {}
    for x in d.json():
        by.setdefault(x['i'], []).append(x['b'])
    grid = {1: [(2, 1)], 2: [(1, 2), (1, 1)], 3: [(1, 1)], 4: [(3, 2), (1, 1), (1, 1)], 5: [(2, 1)],
            6: [(2, 1), (3, 2)], 7: [(1, 2)]}
    cases = []
    for i, files in sorted(by.items()):
        raws = [[tile(x, y) for y in range(ny) for x in range(nx)] for nx, ny in grid[i]]
        rng.shuffle(files)
        first = files[0]
        for k in range(0, len(files), 5):
            cases.append({'id': len(cases), 'vs': [variant(rng, tg.raw_file(bytes(b)), raws)
                                                   for b in [first] + files[k:k + 5]]})
    c.validate('LayoutTrace', c.run('layout', cases), 'layouts of the model')
    # random images: several directories, compression, more metadata; some beyond 4 GiB
    todo = []
    for _ in range(6000 if c.thorough else 450):
        ps = [picture(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        todo.append((ps, {le: [jobs(p, le) for p in ps] for le in (True, False)}))
    alljobs = [j for ps, enc in todo for le in enc for p, (_, js) in zip(ps, enc[le]) if p['m'] not in (1, 7) for j in js]
    for i, j in enumerate(alljobs):
        j['id'] = i
    packed = iter(c.run('compress', alljobs))
    groups = []
    for ps, enc in todo:
        stored = {}
        for le in enc:
            stored[le] = []
            for p, (raws, js) in zip(ps, enc[le]):
                if p['m'] == 1:
                    stored[le].append(raws)
                elif p['m'] == 7:
                    stored[le].append([b for b, _ in p['jpeg']])
                else:
                    stored[le].append([bytes(next(packed)['b']) for _ in js])
        vs = []
        for _ in range(rng.choice([3, 4, 5])):
            le, big = rng.random() < .5, rng.random() < .5
            far = rng.random() < .15
            ims = [image(rng, p, s) for p, s in zip(ps, stored[le])]
            for im in ims:
                if big:
                    im.otype = rng.choice([4, 16]) if not far else 16
            t, end = tg.assemble(rng, ims, le, big, where=rng.choice(['after', 'before', 'mixed']), far=far)
            raws = [[tile(k % p['nx'], k // p['nx'], raw_of(p, enc[le][i][0], k)) for k in range(p['nx'] * p['ny'])]
                    for i, p in enumerate(ps)]
            f = t.file(end)
            vs.append(variant(rng, f, raws, near=not far))
            if rng.random() < .2:
                vs.append(variant(rng, f, raws, near=not far))
        groups.append({'id': len(groups), 'vs': vs})
    c.validate('LayoutTrace', c.run('layout', groups), 'layouts of random images')
    c.exhaustive = False
