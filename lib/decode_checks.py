"""Checks of decoding: samples, arrays, decoders, malformed tile data."""
import random

from core import Check, ToolError
import jpeg
import tiffgen as tg
from tiffgen import Entry, Image, up, uint_type, w8

DEFAULT = {'base': 'default', 'add': []}
CODEC = {'base': 'default', 'add': [], 'codec': 1}
LERC_4X4 = '4c657263322006000000a51355610400000004000000010000001000000008000000a7000000050000000000000000000000000000000000e03f000000fc030ab141000000fcdcbdee410000000000000000000000000000000000000000fc030a11e0e7eef50100070e151c232a31383f464d545b626970777e858c939aa1a8afb6bdc4cbd2d9e0e7eef5fc030a11181f262d343b424950575e656c737a81888f969da4abb2b9'
UNKNOWN = {'p': 0, 'b': []}
TYPES = [(1, 1), (1, 8), (1, 16), (1, 32), (1, 64), (2, 8), (2, 16), (2, 32), (2, 64), (3, 32), (3, 64)]
ODD = [(3, 16), (4, 8), (4, 16), (1, 2), (1, 4), (1, 12), (1, 24), (2, 1), (3, 8), (5, 64), (6, 32), (1, 128),
       (0, 8), (7, 32), (1, 0), (3, 24), (1, 65535)]


def tile(x, y, raw=None):
    return {'xy': [w8(x), w8(y)], 'raw': raw or UNKNOWN}


def dcase(i, file, ts, reg=None, reader='sparse', **kw):
    return {'id': i, 'file': file, 'ts': ts, 'reg': reg or DEFAULT, 'reader': reader, **kw}


def noise(rng, n):
    if rng.random() < .2:
        return bytes(rng.choice([0, 255, 128, 127, 1]) for _ in range(n))
    return rng.randbytes(n)


def described(rng, w, h, tw, th, spp, bits, fmt, planar, pred, comp=1, ph=1, extra=(), data=None, big=False,
              le=True, where=None):
    """A file with one tiled image; data: function from tile index to stored bytes."""
    n = up(w, tw) * up(h, th) * (spp if planar else 1)
    es = [Entry(256, uint_type(rng, w), [w]), Entry(257, uint_type(rng, h), [h]),
          Entry(258, 3, bits), Entry(262, 3, [ph]), Entry(277, uint_type(rng, spp), [spp]),
          Entry(322, uint_type(rng, tw), [tw]), Entry(323, uint_type(rng, th), [th])]
    if planar or rng.random() < .5:
        es.append(Entry(284, 3, [2 if planar else 1]))
    if comp != 1 or rng.random() < .5:
        es.append(Entry(259, 3, [comp]))
    if pred != 1 or rng.random() < .3:
        es.append(Entry(317, 3, [pred]))
    if fmt is not None:
        es.append(Entry(339, 3, fmt))
    es += list(extra)
    im = Image(es, [data(k) for k in range(n)], rng.choice([4, 16] if big else [4]), rng.choice([3, 4, 16]))
    t, end = tg.assemble(rng, [im], le, big, where=where or rng.choice(['after', 'before', 'mixed']))
    return t.file(end)


def fits(n, bits, w):
    return -(-n * bits // 8)


PHOTO = [0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 8]


def beside(rng, spp):
    """Entries about display and use that leave the samples as they are."""
    es = [Entry(254, 4, [rng.choice([0, 1, 4])]), Entry(274, 3, [rng.randrange(1, 9)]),
          Entry(280, 3, [rng.choice([0, 10])] * spp), Entry(281, 3, [rng.choice([255, 100])] * spp),
          Entry(338, 3, [rng.choice([0, 1, 2])] * rng.choice([1, max(1, spp - 3)])),
          Entry(42113, 2, [b'0', b'\0']), Entry(320, 3, [rng.randrange(65536) for _ in range(12)])]
    return [e for e in es if rng.random() < .15]


def random_tile(rng, i, types, bend=0.0):
    le, big = rng.random() < .5, rng.random() < .4
    ty = rng.choice(types)
    tw, th = rng.choice([1, 2, 3, 4, 5, 7, 8, 16]), rng.choice([1, 2, 3, 4, 6])
    if ty[1] < 8 and ty[1] > 0 and rng.random() < .85:
        tw = rng.choice([8, 16, 24])
    w, h = tw * rng.choice([1, 1, 2]) - rng.choice([0, 0, 1]), th * rng.choice([1, 1, 2]) - rng.choice([0, 0, 1])
    w, h = max(w, 1), max(h, 1)
    spp = rng.choice([1, 1, 2, 3, 4, 5, 7])
    planar = rng.random() < .45
    pred = rng.choice([1, 2, 3] if ty[0] == 3 else [1, 2])
    if ty[1] not in (8, 16, 32, 64) and rng.random() < .9:
        pred = 1
    bits, fmt = [ty[1]] * spp, [ty[0]] * spp
    if ty[0] == 1 and rng.random() < .4:
        fmt = None
    size = min(fits(tw * th * (1 if planar else spp), ty[1], tw), 6000)
    if rng.random() < bend:
        m = rng.randrange(6)
        if m == 0 and spp > 1:
            bits[rng.randrange(spp)] = rng.choice([8, 16, 32, 1])
        elif m == 1 and spp > 1 and fmt:
            fmt[rng.randrange(spp)] = rng.choice([1, 2, 3, 4])
        elif m == 2:
            pred = rng.choice([1, 2, 3])
        elif m == 3:
            bits = bits[:1]
        elif m == 4:
            size = max(0, size + rng.choice([-1, 1, -size, size, ty[1] // 8, -(ty[1] // 8), tw * spp]))
        else:
            fmt = fmt[:1] if fmt else None
    sizes = {}

    def data(k):
        n = size
        if rng.random() < bend / 3:
            n = max(0, n + rng.choice([-1, 1, 2, -2, 8, -8, tw]))
        sizes[k] = n
        return noise(rng, n)
    f = described(rng, w, h, tw, th, spp, bits, fmt, planar, pred, ph=rng.choice(PHOTO), extra=beside(rng, spp),
                  data=data, big=big, le=le)
    nx, ny = up(w, tw), up(h, th)
    ts = [tile(x, y) for y in range(ny) for x in range(nx)]
    if rng.random() < .1:
        ts.append(tile(nx, 0))
    empty = 0 in sizes.values()
    return dcase(i, f, ts, reader=rng.choice(['sparse', 'box', 'tokio'] + ([] if empty else ['object'])))


def pipeline(c: Check, rng, limit):
    deep = 'TRUE' if c.thorough else 'FALSE'
    d = c.design('MCPipeline', f'INIT Init\nNEXT Next\nINVARIANT Undoes\nINVARIANT FileSays\n'
                 f'CONSTANT Deep = {deep}\nCHECK_DEADLOCK FALSE',
                 'every sample type x sample count x tile size x layout x predictor x byte order: decoding '
                 'undoes the writer; other lengths and undefined predictors are errors', timeout=3000)
    xs = d.json()
    if len(xs) > limit:
        xs = rng.sample(xs, limit)
    cases = [dcase(i, tg.raw_file(bytes(x['b'])), [tile(0, 0)]) for i, x in enumerate(xs)]
    c.validate('DecodeTrace', c.run('decode', cases), 'tiles of the model')


def c13(c: Check):
    rng = random.Random(c.seed)
    pipeline(c, rng, 200000 if c.thorough else 10000)
    cases = [random_tile(rng, i, TYPES, .05) for i in range(20000 if c.thorough else 1500)]
    c.validate('DecodeTrace', c.run('decode', cases), 'random tiles')
    # larger tiles: long rows, many rows, many samples
    cases = []
    shapes = [(64, 16, 3), (256, 2, 1), (33, 17, 2), (16, 16, 9), (600, 2, 1), (2, 300, 1), (3, 2, 40), (2, 2, 150),
              (1, 1100, 1), (2, 1030, 1), (2100, 1, 1), (4, 3, 17), (1, 3, 300), (5, 3, 12)]
    for tw, th, spp in shapes * (6 if c.thorough else 1):
        wide = [t for t in TYPES if t[1] > 8 and tw * th * spp * t[1] <= 8 * 7000]
        kinds = [((1, 8), False, 2)]
        for planar in (False, True):
            ty = rng.choice(wide)
            kinds.append((ty, planar, rng.choice([2, 3] if ty[0] == 3 else [2, 2, 1])))
        for ty, planar, pred in kinds:
            f = described(rng, tw, th, tw, th, spp, [ty[1]] * spp, [ty[0]] * spp, planar, pred, ph=rng.choice(PHOTO),
                          data=lambda k: noise(rng, tw * th * ty[1] // 8 * (1 if planar else spp)),
                          le=rng.random() < .5)
            cases.append(dcase(len(cases), f, [tile(0, 0)]))
    c.validate('DecodeTrace', c.run('decode', cases), 'larger tiles')
    # the same whatever the samples were compressed with
    tiles = [coded_tile(rng, GENERAL, True) for i in range(4000 if c.thorough else 500)]
    cases = []
    for i, ((t, _), stored) in enumerate(zip(tiles, compress(c, tiles))):
        if stored is not None:
            cases.append(dcase(i, coded_file(rng, t, stored), cap=1 << 28,
                               ts=[tile(0, 0, {'p': 1, 'b': [list(b) for b in t['raws']]})]))
    c.validate('DecodeTrace', c.run('decode', cases), 'compressed tiles')
    c.exhaustive = False


def c15(c: Check):
    rng = random.Random(c.seed + 7)
    pipeline(c, rng, 200000 if c.thorough else 4000)
    cases = [random_tile(rng, i, TYPES + ODD, .6) for i in range(30000 if c.thorough else 3000)]
    c.validate('DecodeTrace', c.run('decode', cases), 'random descriptions and data')
    cases = []
    for i in range(6000 if c.thorough else 800):        # lists of depths and formats of any lengths, one odd element
        f, b = rng.choice(TYPES)
        bits, fmts = [b] * rng.choice([1, 1, 2, 3, 4, 6]), [f] * rng.choice([1, 1, 2, 3, 4, 6])
        if rng.random() < .4:
            bits[rng.choice([0, -1, rng.randrange(len(bits))])] = rng.choice([8, 16, 32, b + 1])
        if rng.random() < .5:
            fmts[rng.choice([0, -1, rng.randrange(len(fmts))])] = rng.choice([1, 2, 3, 4])
        spp = rng.choice([len(bits), len(fmts), 1, 3])
        tw, th, planar = rng.choice([8, 16]), rng.choice([1, 2, 3]), rng.random() < .4
        n = tw * th * (1 if planar else spp) * bits[0] // 8
        x = described(rng, tw, th, tw, th, spp, bits, fmts, planar, 1, data=lambda k: noise(rng, n), le=rng.random() < .5)
        cases.append(dcase(i, x, [tile(0, 0)]))
    for i in range(4000 if c.thorough else 400):        # depths without a type, data as long as for one with a type
        f, b = rng.choice([1, 1, 2, 3, 4, 5, 6]), rng.choice([2, 3, 4, 5, 6, 7, 9, 10, 12, 14, 15, 16, 20, 24, 31, 33, 40, 48, 63, 65, 128])
        spp, tw, th, planar = rng.choice([1, 1, 2, 3, 4]), rng.choice([1, 2, 4, 8]), rng.choice([1, 2, 3]), rng.random() < .4
        n = tw * th * (1 if planar else spp) * rng.choice([1, 1, 2, 4, 8, -(-b // 8)])
        x = described(rng, tw, th, tw, th, spp, [b] * spp, [f] * spp, planar, 1, data=lambda k: noise(rng, n), le=rng.random() < .5)
        cases.append(dcase(100000 + i, x, [tile(0, 0)]))
    c.validate('DecodeTrace', c.run('decode', cases), 'lists of depths and formats')
    cases = [{'ty': t, 'b': list(rng.randbytes(n)), 'spare': rng.choice([0, 1, 2, 3, 8, 64])}
             for t in ['bool', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'f32', 'f64', 'none']
             for n in list(range(42)) + [63, 64, 65, 127, 128, 1000, 1024, 4096]]
    c.validate('TypedTrace', c.run('typed', cases), 'typed arrays from raw bytes')
    c.exhaustive = False


# ------------------------------------------------------------------ compression
GENERAL = [8, 32946, 5, 50000, 34925]                  # any bytes
LERC_TYPES = [(1, 8), (2, 8), (1, 16), (2, 16), (1, 32), (2, 32), (3, 32), (3, 64)]


def content(rng, n, bits, fmt, le):
    """n bytes of samples that compress in different ways; no NaN."""
    k = rng.randrange(6)
    size = max(bits // 8, 1)
    if k == 0:
        b = bytes([rng.randrange(256)]) * n
    elif k == 1:
        b = bytes((i // size * 3 + i % size) % 256 for i in range(n))
    elif k == 2:
        p = rng.randbytes(rng.randrange(1, 40))
        b = (p * (n // len(p) + 1))[:n]
    elif k == 3:
        b = bytes(rng.choice([0, 0, 0, 1, 255]) for _ in range(n))
    else:
        b = rng.randbytes(n)
    if fmt == 3:
        b = bytearray(b)
        hi = size - 1 if le else 0
        for i in range(0, n - size + 1, size):
            if b[i + hi] & 0x7f == 0x7f:
                b[i + hi] ^= 0x40
        b = bytes(b)
    return b


def coded_tile(rng, methods, small):
    """Description and pieces of a tile for one of the lossless built-in methods."""
    m = rng.choice(methods)
    le, big = rng.random() < .5, rng.random() < .3
    ty = rng.choice([t for t in TYPES if t[1] >= 8])
    planar = rng.random() < .4
    spp = rng.choice([1, 1, 2, 3, 4, 5])
    tw, th = rng.choice([1, 2, 3, 5, 8, 16, 17]), rng.choice([1, 2, 3, 8, 16])
    v, extra, ph = rng.randrange(30 if m == 50000 else 20), [], 1
    if m == 34887:
        ty = rng.choice(LERC_TYPES)
        v = rng.choice([0, 1, 2])
        if v or rng.random() < .5:
            extra = [Entry(50674, 4, [rng.choice([3, 4]), v] + rng.choice([[], [], [rng.randrange(4)], [0, 2]]))]
        if ty[0] == 3:
            le = True            # else the samples handed to the encoder would be swapped floats
    elif m == 50001:
        ty, planar, spp, ph = (1, 8), False, rng.choice([3, 4]), 2
    elif m == 34712:
        ty, ph = rng.choice([(1, 8), (1, 16)]), 1
        spp = rng.choice([1, 3, 4]) if not planar else rng.choice([1, 2, 3])
        le = le or ty[1] == 16
        v = rng.choice([0, 1])
    elif not small and rng.random() < .5:
        tw, th, spp, ty = rng.choice([(64, 64, 1, (1, 8)), (40, 40, 3, (1, 8)), (64, 32, 1, (1, 16)),
                                      (30, 40, 1, (3, 32)), (5000, 1, 1, (1, 8))])
    pred = 1 if m in (34887, 50001, 34712) and rng.random() < .8 else rng.choice([1, 2, 3] if ty[0] == 3 else [1, 2])
    if m == 34887 and ty[0] == 3:
        pred = 1
    n = tw * th * (1 if planar else spp) * ty[1] // 8
    raws = []
    for _ in range(spp if planar else 1):
        b = content(rng, n, ty[1], ty[0], le) if pred != 3 else noise(rng, n)
        if m == 50001 and spp == 4:
            opaque = rng.random() < .4
            b = bytes((255 if opaque else max(x, 1)) if i % 4 == 3 else x for i, x in enumerate(b))
            if rng.random() < .3:            # transparent pixels
                some = rng.choice([1, .5])
                b = b''.join(b[i:i + 3] + (b'\0' if rng.random() < some else b[i + 3:i + 4]) for i in range(0, len(b), 4))
        raws.append(b)
    if m in GENERAL:
        ph, extra = rng.choice(PHOTO), beside(rng, spp)
    job = [{'id': 0, 'm': m, 'w': tw, 'h': th, 'spp': 1 if planar else spp, 'bits': ty[1], 'fmt': ty[0], 'v': v,
            'b': list(b)} for b in raws]
    return dict(m=m, le=le, big=big, ty=ty, planar=planar, spp=spp, tw=tw, th=th, pred=pred, extra=extra, ph=ph,
                raws=raws), job


def compress(c, tiles):
    """Compress the pieces of all tiles; returns per tile its stored pieces."""
    jobs = [j for _, js in tiles for j in js]
    for i, j in enumerate(jobs):
        j['id'] = i
    outs = iter(c.run('compress', jobs))
    res = []
    for d, js in tiles:
        got = [next(outs) for _ in js]
        # the encoder refuses some data (LERC of wild floats)
        res.append([bytes(o['b']) for o in got] if all(o.get('ok') for o in got) else None)
    if sum(r is None for r in res) * 20 > len(res):
        raise ToolError('too much data could not be compressed')
    return res


def coded_file(rng, d, stored, comp=None):
    return described(rng, d['tw'], d['th'], d['tw'], d['th'], d['spp'], [d['ty'][1]] * d['spp'],
                     [d['ty'][0]] * d['spp'], d['planar'], d['pred'], comp=comp or d['m'], ph=d['ph'],
                     extra=d['extra'], data=lambda k: stored[k], big=d['big'], le=d['le'])


def jpeg_tile(rng):
    """A JPEG tile: (file, raw component values)."""
    n, ph = rng.choice([(1, 0), (1, 1), (1, 1), (1, 4), (3, 2), (3, 2), (3, 6), (3, 6), (4, 5), (1, 3), (3, 8),
                        (1, 6), (1, 2)])
    planar = n == 1 and rng.random() < .3
    spp = rng.choice([1, 2, 3]) if planar else n
    tw, th = rng.choice([8, 16, 16, 24, 5, 20]), rng.choice([8, 16, 3, 9])
    shared, pad = rng.random() < .6, jpeg.padding(rng)
    bands = []
    tabs = None
    for _ in range(spp if planar else 1):
        bl = jpeg.random_blocks(rng, tw, th, n)
        b, tabs = jpeg.encode(tw, th, bl, n, shared, pad, jpeg.padding(rng) if len(pad) < 600 else b'')
        bands.append((b, jpeg.pixels(tw, th, bl, n)))
    extra = [Entry(347, rng.choice([1, 7]), list(tabs))] if tabs else []
    f = described(rng, tw, th, tw, th, spp, [8] * spp, [1] * spp, planar, 1, comp=7, ph=ph, extra=extra,
                  data=lambda k: bands[k][0], le=rng.random() < .5, big=rng.random() < .3)
    return f, [list(p) for _, p in bands]


METHODS = [1, 8, 5, 32946, 50000, 34925, 34887, 7, 34712, 50001, 0, 2, 3, 4, 6, 9, 32773, 40000, 65535, 34661, 50002]


def registry_case(rng, i, x):
    """A behaviour of the model as a case: x has base, adds, m, n, ans."""
    n = x['n']
    planar = n > 1 or rng.random() < .4
    odd = rng.random() < .25                 # depths that are not whole bytes, or without a type
    ty = rng.choice([(1, 1), (1, 2), (1, 4), (1, 12), (2, 14), (1, 24), (3, 16)] if odd else [(1, 8), (1, 16), (2, 32), (3, 32)])
    tw, th = rng.choice([8, 16] if odd else [1, 2, 4, 8]), rng.choice([1, 2, 3])
    spp = n if planar else rng.choice([1, 2, 3])
    size = tw * th * (1 if planar else spp) * ty[1] // 8
    d = dict(m=x['m'], le=rng.random() < .5, big=rng.random() < .3, ty=ty, planar=planar, spp=spp, tw=tw, th=th,
             pred=1 if odd else rng.choice([1, 1, 2]), extra=[], ph=rng.choice([0, 1, 2, 3, 4, 5, 6, 8]),
             raws=[noise(rng, size) for _ in range(n)])
    if rng.random() < .4:
        d['extra'].append(Entry(347, 7, [rng.randrange(256) for _ in range(rng.choice([1, 5, 9]))]))
    if rng.random() < .4 and d['m'] != 34887:
        d['extra'].append(Entry(50674, rng.choice([3, 4, 16]), [rng.randrange(9) for _ in range(rng.choice([1, 2, 4]))]))
    add = []
    for k, m in enumerate(x['adds']):
        echo = rng.random() < .15 and 'err' not in x['ans']
        outs = [{'r': a, 'b': list(noise(rng, size)) if a == 'ok' else []} for a in x['ans']] if m == x['m'] else \
               [{'r': 'ok', 'b': list(noise(rng, size))}] * n
        add.append({'m': m, 'id': k + 1, 'echo': int(echo), 'outs': [] if echo else outs})
    return d, add, i, x


def registries(c, rng, xs, what):
    made = [registry_case(rng, i, x) for i, x in enumerate(xs)]
    tiles, use = [], []
    for d, add, i, x in made:
        builtin = x['base'] == 'default' and d['m'] in GENERAL and not any(a['m'] == d['m'] for a in add)
        use.append(builtin)
        if builtin:
            tiles.append((d, [{'id': 0, 'm': d['m'], 'v': 3, 'b': list(b)} for b in d['raws']]))
    packed = iter(compress(c, tiles))
    cases = []
    for (d, add, i, x), builtin in zip(made, use):
        if builtin:
            stored, raw = next(packed), {'p': 1, 'b': [list(b) for b in d['raws']]}
        elif d['m'] == 1 and not any(a['m'] == 1 for a in add):
            stored, raw = d['raws'], UNKNOWN
        elif any(a['m'] == d['m'] and a['echo'] for a in add):
            stored, raw = d['raws'], UNKNOWN
        else:
            k = rng.random() < .5            # data as long as if they were not compressed
            stored, raw = [b if k else rng.randbytes(rng.choice([1, 2, 5, 30])) for b in d['raws']], UNKNOWN
            if rng.random() < .15:
                stored[rng.randrange(len(stored))] = b''
        f = coded_file(rng, d, stored)
        cases.append(dcase(i, f, [tile(0, 0, raw)], reg={'base': x['base'], 'add': add}, cap=1 << 28,
                           reader=rng.choice(['sparse', 'box', 'tokio'] + ['object'] * all(stored))))
    c.validate('DecodeTrace', c.run('decode', cases), what)


def c14(c: Check):
    rng = random.Random(c.seed + 14)
    d = c.design('MCDecoders', 'SPECIFICATION Spec\nINVARIANT AsTold\nINVARIANT CalledInOrder\nINVARIANT Outcome\n'
                 f'PROPERTY Ends\nCONSTANTS Methods = {{1, 5, 8, 40000}}\nMaxAdds = {4 if c.thorough else 3}\n'
                 'MaxPieces = 3\nCHECK_DEADLOCK FALSE',
                 'every registry of up to three registrations, every method, one to three pieces, every sequence '
                 'of decoder answers', timeout=1200)
    xs = d.json()
    limit = 40000 if c.thorough else 4000
    if len(xs) > limit:
        xs = rng.sample(xs, limit)
    registries(c, rng, xs, 'behaviours of the registry model')
    # registries over all methods
    xs = []
    for _ in range(6000 if c.thorough else 800):
        n = rng.choice([1, 1, 2, 3])
        pool = rng.choice([METHODS, METHODS, [8, 32946], [6, 7, 34712], [1, 2, 3, 4, 32773, 0], [50000, 50001, 34887]])
        m = rng.choice(pool)
        adds = [rng.choice(METHODS + pool * 3 + [m] * 4 if rng.random() < .6 else pool) for _ in range(rng.choice([0, 1, 2, 5]))]
        ans = ['ok'] * n
        if rng.random() < .3:
            ans = ['ok'] * rng.randrange(n) + ['err']
        xs.append({'base': rng.choice(['default', 'default', 'empty']), 'adds': adds, 'm': m, 'n': n, 'ans': ans})
    registries(c, rng, xs, 'random registries')
    # the built-in lossless methods restore what was compressed
    tiles = [coded_tile(rng, GENERAL + [34887, 34887, 50001, 34712], i % 16 != 0)
             for i in range(9000 if c.thorough else 1300)]
    cases = []
    for i, ((t, _), stored) in enumerate(zip(tiles, compress(c, tiles))):
        if stored is None:
            continue
        cases.append(dcase(i, coded_file(rng, t, stored), [tile(0, 0, {'p': 1, 'b': [list(b) for b in t['raws']]})],
                           cap=1 << 28))
    c.validate('DecodeTrace', c.run('decode', cases), 'lossless methods')
    cases = []
    for i in range(4000 if c.thorough else 500):
        f, comps = jpeg_tile(rng)
        cases.append(dcase(i, f, [tile(0, 0, {'p': 1, 'b': comps})], cap=1 << 28))
    c.validate('DecodeTrace', c.run('decode', cases), 'JPEG tiles')
    c.exhaustive = False


# ------------------------------------------------------------- malformed tile data
def spoil(rng, b):
    """Some corruption of compressed data."""
    k = rng.randrange(9)
    b = bytearray(b)
    n = len(b)
    if k == 0:
        return bytes(b[:rng.randrange(n + 1)])
    if k == 1:
        return bytes(b[:max(0, n - rng.choice([1, 2, 3, 4, 8]))])
    if k == 2 and n:
        for _ in range(rng.choice([1, 1, 2, 5])):
            b[rng.randrange(n)] = rng.randrange(256)
        return bytes(b)
    if k == 3 and n:
        b[rng.randrange(min(n, 40))] ^= 1 << rng.randrange(8)
        return bytes(b)
    if k == 4:
        return rng.randbytes(rng.choice([0, 1, 2, 3, 4, 10, 50]))
    if k == 5:
        return bytes(b) + rng.randbytes(rng.choice([1, 4, 20]))
    if k == 6:
        return bytes(b) + bytes(b)
    if k == 7 and n:
        i = rng.randrange(n)
        return bytes(b[:i] + b[min(n, i + rng.choice([1, 2, 5])):])
    if k == 8 and n:
        i = rng.randrange(n)
        b[i:i + 4] = rng.choice([b'\xff\xff\xff\xff', b'\0\0\0\0', b'\xff\xd9', b'\x7f\xff\xff\xff'])
        return bytes(b)
    return b''


def bad_coded(rng, i, d, stored):
    """Compressed tile data with corrupt bytes or under another description."""
    d = dict(d)
    how = rng.random()
    if how < .75:
        stored = [spoil(rng, b) if rng.random() < .7 else b for b in stored]
    if how > .6:
        k = rng.randrange(7)
        if k == 0:
            d['tw'] = rng.choice([1, 2, 64, 1000, 1 << 20, (1 << 32) - 1])
        elif k == 1:
            d['th'] = rng.choice([1, 2, 64, 1000, 1 << 20, (1 << 32) - 1])
        elif k == 2:
            d['ty'] = rng.choice(TYPES + ODD)
        elif k == 3 and not d['planar']:
            d['spp'] = rng.choice([0, 1, 2, 3, 4, 5, 100])
        elif k == 4:
            d['m'] = rng.choice(METHODS)
        elif k == 5:
            d['pred'] = rng.choice([1, 2, 3])
        else:
            d['extra'] = [Entry(50674, 4, [4, rng.choice([0, 1, 2, 3])][:rng.choice([1, 2])]),
                          Entry(347, 7, list(rng.randbytes(rng.choice([1, 2, 3, 10]))))]
    return dcase(i, coded_file(rng, d, stored), [tile(0, 0)], reg=CODEC, cap=1 << 28)


def bad_jpeg(rng, i):
    n = rng.choice([1, 2, 3, 3, 4, 4, 5])
    ph = rng.choice([0, 1, 2, 3, 4, 5, 6, 8])
    planar = n == 1 and rng.random() < .3
    spp = rng.choice([1, 2, 3]) if planar else rng.choice([n, n, n, 1, 3])
    tw, th = rng.choice([8, 16, 16, 5, 20]), rng.choice([8, 16, 3, 9])
    shared = rng.random() < .6
    bands, tabs = [], None
    for _ in range(spp if planar else 1):
        b, tabs = jpeg.encode(tw, th, jpeg.random_blocks(rng, tw, th, n), n, shared)
        bands.append(spoil(rng, b) if rng.random() < .5 else b)
    extra = []
    if tabs and rng.random() < .7:
        t = rng.choice([tabs, tabs, tabs[:1], tabs[:2], tabs[:3], tabs[:-2], spoil(rng, tabs), spoil(rng, tabs)])
        extra = [Entry(347, rng.choice([1, 7]), list(t))] if t else []
    bits = rng.choice([8] * 6 + [1, 16, 12])
    f = described(rng, tw, th, tw, th, spp, [bits] * max(1, spp), [1] * max(1, spp), planar, rng.choice([1, 1, 2]),
                  comp=7, ph=ph, extra=extra, data=lambda k: bands[k], le=rng.random() < .5)
    return dcase(i, f, [tile(0, 0)], reg=CODEC, cap=1 << 28)


def absurd(rng, i):
    """Uncompressed data, description out of this world."""
    big = [0, 1, 2, 3, 255, 65535, 65536, 1 << 31, (1 << 32) - 1]
    tw, th = rng.choice(big), rng.choice(big)
    spp = rng.choice([0, 1, 2, 3, 65535])
    planar = rng.random() < .4
    bits, fmt = rng.choice([0, 1, 4, 8, 16, 32, 64, 65535, 63]), rng.choice([0, 1, 2, 3, 4, 65535])
    nb = rng.choice([1, 2, 3])
    n = rng.choice([0, 1, 2, 8, 30, 200])
    pieces = min(spp, 4) if planar else 1
    es = [Entry(256, 4, [rng.choice([tw, tw, 1])]), Entry(257, 4, [rng.choice([th, th, 1])]),
          Entry(258, 3, [bits] * nb), Entry(262, 3, [1]), Entry(277, 3, [spp]), Entry(284, 3, [2 if planar else 1]),
          Entry(317, 3, [rng.choice([1, 2, 3])]), Entry(339, 3, [fmt] * nb), Entry(322, 4, [tw]), Entry(323, 4, [th])]
    im = Image(es, [rng.randbytes(n) for _ in range(pieces)], 4, 4)
    t, end = tg.assemble(rng, [im], rng.random() < .5, False, where='after')
    return dcase(i, t.file(end), [tile(0, 0), tile(1, 0)], cap=1 << 20)


# width, height, samples; number of elements modulo 2^64 or 2^32
WRAPS = [(1 << 31, 1 << 31, 4, 0), (2147549185, 4294836226, 2, 4), (823996703, 3198130701, 7, 5),
         (1167439457, 3160205690, 5, 34), (1604214285, 3832975899, 3, 29), (315916329, 3649452082, 16, 32),
         (1 << 30, 1 << 30, 16, 0), (2, 1 << 31, 1, 0), (641, 6700417, 1, 1), (3, 715827883, 2, 2),
         (7, 613566757, 1, 3), (11, 390451573, 1, 7), (2, 268435456, 8, 0), (65536, 65536, 1, 0)]


def wrapped(rng, i):
    """As many bytes as the declared number of elements needs in arithmetic that overflows."""
    tw, th, spp, k = rng.choice(WRAPS)
    if rng.random() < .5:
        tw, th = th, tw
    planar = rng.random() < .4
    bits, fmt = rng.choice([(8, 1), (16, 1), (32, 1), (64, 2), (32, 3), (64, 3), (1, 1), (8, 2), (12, 1)])
    n = k * bits // 8
    pieces = [rng.randbytes((tw * th * bits & (1 << 64) - 1) // 8 % 4096 if planar else n)
              for _ in range(spp if planar else 1)]
    es = [Entry(256, 4, [tw]), Entry(257, 4, [th]), Entry(258, 3, [bits] * spp), Entry(262, 3, [1]),
          Entry(277, 3, [spp]), Entry(284, 3, [2 if planar else 1]), Entry(317, 3, [rng.choice([1, 1, 1, 2, 3])]),
          Entry(339, 3, [fmt] * spp), Entry(322, 4, [tw]), Entry(323, 4, [th])]
    t, end = tg.assemble(rng, [Image(es, pieces, 4, 4)], rng.random() < .5, False, where='after')
    return dcase(i, t.file(end), [tile(0, 0)], cap=1 << 20)


def bomb(rng, i):
    """A LERC tile whose compressed data claim more values than any memory holds."""
    blob = bytes.fromhex(LERC_4X4)
    blob = blob[:14] + b'\x04\xb5\0\0' * 2 + b'\xff\xff\xff\x7f' + blob[26:]
    f = described(rng, 4, 4, 4, 4, 1, [32], [1], False, 1, comp=34887, data=lambda k: blob)
    return dcase(i, f, [tile(0, 0)], reg=CODEC, cap=1 << 28)


def c17(c: Check):
    rng = random.Random(c.seed + 17)
    d = c.design('MCBadTile', f'INIT Init\nNEXT Next\nINVARIANTS Sized Out\nCONSTANT Deep = '
                 f'{"TRUE" if c.thorough else "FALSE"}\nCHECK_DEADLOCK FALSE',
                 'absurd dimensions, bit depths, sample counts, formats and predictors with too little or too much '
                 'data: decoding is defined and sized', timeout=3000)
    xs = d.json()
    xs = rng.sample(xs, min(len(xs), 100000 if c.thorough else 6000))
    cases = [dcase(i, tg.raw_file(bytes(x['b'])), [tile(0, 0)], cap=1 << 20) for i, x in enumerate(xs)]
    c.validate('DecodeTrace', c.run('decode', cases), 'tiles of the model')
    cases = [absurd(rng, i) for i in range(20000 if c.thorough else 2000)]
    cases += [wrapped(rng, i) for i in range(len(cases), len(cases) * 6 // 5)]
    c.validate('DecodeTrace', c.run('decode', cases), 'absurd descriptions')
    tiles = [coded_tile(rng, GENERAL + [34887, 34887, 50001, 34712], True)
             for _ in range(30000 if c.thorough else 2500)]
    cases = []
    for i, ((t, _), stored) in enumerate(zip(tiles, compress(c, tiles))):
        if stored is not None:
            cases.append(bad_coded(rng, i, t, stored))
    cases += [bad_jpeg(rng, i) for i in range(10000 if c.thorough else 1500)]
    cases.append(bomb(rng, len(cases)))
    obs = c.run('decode', cases)
    c.validate('DecodeTrace', obs, 'corrupt compressed data')
    c.exhaustive = False
