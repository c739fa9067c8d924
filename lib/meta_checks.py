"""Checks of everything that is read from metadata bytes."""
import random

from core import Check
import tiffgen as tg

NOCACHE = {'p': 0, 'init': 1, 'm8': 16}


def case(i, file, mode='short', cache=None):
    return {'id': i, 'file': file, 'mode': mode, 'cache': cache or NOCACHE}


def vary(rng, i, file, cacheable=True):
    """The same file through different sources."""
    mode = rng.choice(['short', 'strict'])
    cache = None
    if cacheable and mode == 'short' and rng.random() < 0.4:
        cache = {'p': 1, 'init': rng.choice([1, 2, 7, 16, 64, 32768]),
                 'm8': rng.choice([0, 8, 12, 16, 24])}
    x = case(i, file, mode, cache)
    x['low'] = 1
    return x


def c05(c: Check):
    deep = 'TRUE' if c.thorough else 'FALSE'
    d = c.design('MCHeader', f'INIT Init\nNEXT Next\nINVARIANT Exact\nCONSTANT Deep = {deep}\n'
                 'CHECK_DEADLOCK FALSE',
                 'recognition accepts exactly the written headers', workers=1)
    rng = random.Random(c.seed)
    cases = []
    for n, x in enumerate(d.json()):
        cases.append(vary(rng, n, tg.raw_file(bytes(x['b']))))
    nspec = len(cases)
    # random beginnings, and valid files with one header byte changed
    for n in range(20000 if c.thorough else 2000):
        r = rng.random()
        le, big = rng.random() < .5, rng.random() < .5
        if r < .3:
            b = bytes(rng.choice([73, 77, 42, 43, 0, 8, 16, rng.randrange(256)])
                      for _ in range(rng.randrange(24)))
        else:
            t = tg.Tiff(le, big)
            t.header(rng.choice([rng.randrange(1, 1 << 32), 8, 16]))
            b = bytearray(t.chunks[0][1]) + bytes(rng.randrange(256) for _ in range(rng.randrange(9)))
            if r < .8:
                k = rng.randrange(len(b))
                b[k] ^= 1 << rng.randrange(8)
            if rng.random() < .2:
                b = b[:rng.randrange(len(b) + 1)]
        cases.append(vary(rng, nspec + n, tg.raw_file(bytes(b))))
    obs = c.run('meta', cases)
    c.validate('MetaTrace', obs, 'opening files that begin with these bytes')
    c.exhaustive = False


def dcfg(c, inv):
    deep = 'TRUE' if c.thorough else 'FALSE'
    return f'INIT Init\nNEXT Next\nINVARIANT {inv}\nCONSTANT Deep = {deep}\nCHECK_DEADLOCK FALSE'


def model_cases(c, rng, d, limit=None):
    xs = [x['b'] for x in d.json()]
    if limit and len(xs) > limit and not c.thorough:
        xs = rng.sample(xs, limit)
    return [vary(rng, n, tg.raw_file(bytes(b))) for n, b in enumerate(xs)]


def c07(c: Check):
    rng = random.Random(c.seed)
    d = c.design('MCValue', dcfg(c, 'ReadsBack'),
                 'every field type x count x byte order x variant: reading returns what was written, '
                 'cut values and unknown types are errors')
    c.validate('MetaTrace', c.run('meta', model_cases(c, rng, d)), 'values of the model')
    cases = []
    for n in range(20000 if c.thorough else 1500):
        le, big = rng.random() < .5, rng.random() < .5
        es, spp = tg.required(rng)
        tags = rng.sample(tg.OTHER_TAGS, rng.choice([1, 3, 8]))
        es += [tg.other(rng, t) for t in tags]
        claimed = False
        if rng.random() < .2:      # long values
            ty = rng.choice([1, 2, 3, 4, 5, 8, 12, 16])
            k = rng.choice([20, 100, 300])
            es.append(tg.Entry(65001, ty, [tg.rnd_elem(rng, ty) if ty != 2 else b'x' for _ in range(k)]))
        if rng.random() < .3:      # unknown types and claimed counts
            e = rng.choice(es)
            if rng.random() < .5:
                es.append(tg.Entry(65003, 3, [1]))
                es[-1].rawty = rng.choice([0, 14, 15, 19, 20, 255, 256, 65535])
            else:
                k = len(e.vals)
                e.count = rng.choice([k + 1, 1000, 1 << 31, (1 << 32) - 1, 2, (1 << 32) + k, (1 << 48) + k,
                                      (1 << 61) + k, (1 << 62) + k, (1 << 63) + k, (1 << 64) - 1])
                claimed = True
        es.sort(key=lambda e: e.tag)
        t = tg.layout(rng, [es], le, big, far=not claimed and rng.random() < .15)
        f = t.file()
        if rng.random() < .15 and len(f['x']) == 1:
            b = tg.file_bytes(f)
            f = tg.raw_file(b[:len(b) - rng.randrange(1, 30)])
        cases.append(vary(rng, n, f, cacheable=len(f['x']) <= 1))
    c.validate('MetaTrace', c.run('meta', cases), 'random values')
    cases = []
    for ty in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 18):       # very long values
        ks = rng.sample([1023, 1024, 1025, 4096, 4097, 8191, 8192], 3 if c.thorough else 1)
        if ty in (1, 3):
            ks += [32768, 65535, 65536, 65537] if c.thorough else [rng.choice([65536, 65537])]
        for k in ks:
            le, big = rng.random() < .5, rng.random() < .5
            es, spp = tg.required(rng)
            es.append(tg.Entry(65001, ty, [tg.rnd_elem(rng, ty) if ty != 2 else b'x' for _ in range(k)]))
            es.sort(key=lambda e: e.tag)
            x = vary(rng, len(cases), tg.layout(rng, [es], le, big).file())
            x['low'], x['fuel'] = 0, 1 << 20
            cases.append(x)
    c.validate('MetaTrace', c.run('meta', cases), 'very long values')
    c.exhaustive = False


SIZES = {'Byte': 1, 'SignedByte': 1, 'Short': 2, 'SignedShort': 2, 'Unsigned': 4, 'Signed': 4, 'Float': 4,
         'Ifd': 4, 'UnsignedBig': 8, 'SignedBig': 8, 'Double': 8, 'IfdBig': 8, 'Rational': 8,
         'SRational': 8, 'RationalBig': 16, 'SRationalBig': 16}


def rnd_value(rng, kinds=None, depth=0):
    t = rng.choice(kinds or list(SIZES) + ['Ascii'] + ['List'] * 6)
    if t == 'List':
        ks = None if rng.random() < .15 else [rng.choice(list(SIZES))]
        if depth:
            ks = ks or list(SIZES)
        return {'t': t, 'v': [], 'l': [rnd_value(rng, ks, 1) for _ in range(rng.choice([0, 1, 2, 3, 9]))]}
    if t == 'Ascii':
        return {'t': t, 'v': list(''.join(rng.choice('aZ09 \u00e9\u20ac') for _ in range(rng.randrange(6))).encode()),
                'l': []}
    n = SIZES[t]
    if t in ('Float', 'Double'):
        b = bytes([rng.choice([0, 63, 64, 128, 191, 192])]) + bytes(rng.randrange(256) for _ in range(n - 1))
    else:
        half = n // 2 if 'Rational' in t else n
        b = b''
        for _ in range(n // half):
            k = rng.randrange(1, 8 * half + 1)
            v = rng.choice([rng.randrange(1 << k), (1 << (k - 1)), (1 << k) - 1, (1 << k) % (1 << 8 * half)])
            if rng.random() < .4:
                v = -v
            b += (v % (1 << 8 * half)).to_bytes(half, 'big')
    return {'t': t, 'v': list(b), 'l': []}


def c08(c: Check):
    rng = random.Random(c.seed)
    d = c.design('MCConv', dcfg(c, 'Exact'),
                 'every kind of value at every integer boundary to every target: the same number or a failure')
    c.validate('ConvTrace', c.run('conv', [{'v': x['v']} for x in d.json()]), 'values of the model')
    cases = [{'v': rnd_value(rng)} for _ in range(200000 if c.thorough else 6000)]
    c.validate('ConvTrace', c.run('conv', cases), 'random values')
    c.exhaustive = False


ENUMS = ['Tag', 'Type', 'Compression', 'PhotometricInterpretation', 'ExtraSamples', 'PlanarConfiguration',
         'Predictor', 'ResolutionUnit', 'SampleFormat']


def c09(c: Check):
    rng = random.Random(c.seed)
    d = c.design('MCDir', dcfg(c, 'Decided'),
                 'every tag with a field x present/absent x type x values: fields are what the tags say, '
                 'required tags are required, what does not fit is an error')
    c.validate('MetaTrace', c.run('meta', model_cases(c, rng, d)), 'directories of the model')
    cases = []
    for n in range(20000 if c.thorough else 1500):
        le, big = rng.random() < .5, rng.random() < .5
        es, spp = tg.required(rng)
        es += tg.optional(rng, spp, rng.choice([.1, .35, .8]))
        if rng.random() < .2:
            es += tg.geo(rng)
        r = rng.random()
        if r < .12:                # a required tag is missing
            es = [e for e in es if e.tag != rng.choice([256, 257, 258, 262, 277])]
        elif r < .35:              # a value that does not fit
            e = rng.choice(es)
            m = rng.randrange(5)
            if m == 0:
                e.ty, e.vals = 2, [b'7', b'\0']
            elif m == 1:
                e.ty, e.vals = rng.choice([(6, [-1]), (8, [5]), (9, [7]), (17, [-7])])
            elif m == 2:
                e.ty, e.vals = 16, [1 << 40]
            elif m == 3:
                e.ty, e.vals = rng.choice([(11, [b'\x40\x40\0\0']), (12, [b'\x40\x40' + bytes(6)]),
                                           (5, [bytes([0, 0, 0, 8, 0, 0, 0, 1])])])
            else:
                e.vals = e.vals * 2
        if rng.random() < .5:
            rng.shuffle(es)
        else:
            es.sort(key=lambda e: e.tag)
        t = tg.layout(rng, [es], le, big)
        cases.append(vary(rng, n, t.file()))
    c.validate('MetaTrace', c.run('meta', cases), 'random directories')
    cases = []
    for n in ([128, 255, 256, 257, 300, 512, 600] if c.thorough else [255, 256, 257, 300]):
        for big in (False, True):
            t = tg.layout(rng, [tg.crowded(rng, n)], rng.random() < .5, big)
            cases.append(vary(rng, len(cases), t.file()))
    c.validate('MetaTrace', c.run('meta', cases), 'directories of many entries')
    c.validate('CodesTrace', c.run('codes', [{'e': e} for e in ENUMS]), 'names of all codes of every enumeration')
    c.exhaustive = False


def c10(c: Check):
    rng = random.Random(c.seed)
    d = c.design('MCGeo', dcfg(c, 'Decided'),
                 'every geo key x storage location x parameter areas: the value referred to, or an error')
    c.validate('MetaTrace', c.run('meta', model_cases(c, rng, d)), 'key directories of the model')
    cases = []
    for n in range(20000 if c.thorough else 2500):
        le, big = rng.random() < .5, rng.random() < .5
        es, spp = tg.required(rng)
        es += tg.geo(rng, p=rng.choice([.1, .4, .8]), bad=rng.choice([0, .6]))
        if rng.random() < .5:
            rng.shuffle(es)
        t = tg.layout(rng, [es], le, big)
        cases.append(vary(rng, n, t.file()))
    c.validate('MetaTrace', c.run('meta', cases), 'random key directories')
    cases = []
    for n in range(60 if c.thorough else 12):          # large parameter areas
        le, big = rng.random() < .5, rng.random() < .5
        es, spp = tg.required(rng)
        es += tg.geo(rng, p=.9, large=rng.choice([100, 300, 4000, 20000]))
        x = vary(rng, n, tg.layout(rng, [es], le, big).file())
        x['low'], x['fuel'] = 0, 1 << 20
        cases.append(x)
    c.validate('MetaTrace', c.run('meta', cases), 'large parameter areas')
    c.exhaustive = False


EDGE = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 18, 127, 128, 255, 256, 65535, 65536, 1 << 20, 1 << 24,
        (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 62), (1 << 63) - 1, 1 << 63,
        (1 << 64) - 1, (1 << 64) - 8, 0x1fffffffffffffff, 0x2000000000000001, 0x4000000000000000]


def mangle(rng, b, le, big):
    """Overwrite structural fields of a file with extreme numbers."""
    b = bytearray(b)
    hs = 16 if big else 8
    order = 'little' if le else 'big'
    first = int.from_bytes(b[8:16] if big else b[4:8], order)
    es, cs, fs = (20, 8, 8) if big else (12, 2, 4)
    dirs = [first]
    for _ in range(rng.choice([1, 1, 2, 3])):
        at = rng.choice(dirs)
        if at + cs > len(b):
            continue
        n = int.from_bytes(b[at:at + cs], order)
        if n > 200 or at + cs + n * es + fs > len(b):
            continue
        what = rng.random()
        if what < .1:
            k, w = at, cs                                   # number of entries
        elif what < .2:
            k, w = at + cs + n * es, fs                     # next directory
        elif what < .25:
            k, w = rng.choice([(0, 2), (2, 2), (4, 4), (8, fs)])
        else:
            e = at + cs + rng.randrange(max(n, 1)) * es
            k, w = rng.choice([(e, 2), (e + 2, 2), (e + 4, fs), (e + 4, fs), (e + 4, fs),
                               (e + 4 + fs, fs), (e + 4 + fs, fs)])
        v = rng.choice(EDGE + [len(b), len(b) - 1, len(b) + 1, len(b) - 8, first, hs])
        v = v + rng.choice([0, 0, 0, -1, 1])
        b[k:k + w] = (v % (1 << (8 * w))).to_bytes(w, order)
    if rng.random() < .25:
        for _ in range(rng.choice([1, 1, 2, 8])):
            b[rng.randrange(len(b))] = rng.choice([0, 255, 128, rng.randrange(256)])
    if rng.random() < .2:
        b = b[:rng.randrange(len(b) + 1)]
    return bytes(b)


def c16(c: Check):
    rng = random.Random(c.seed)
    cases = []
    # the models' own deviations, under an allocation limit
    d = c.design('MCValue', dcfg(c, 'ReadsBack'), 'values that are cut short or of unknown type are errors')
    xs = [x['b'] for x in d.json()]
    rng.shuffle(xs)
    d = c.design('MCBad', dcfg(c, 'Bounded').replace('INIT Init\nNEXT Next', 'SPECIFICATION Spec\nPROPERTY Ends'),
                 'files whose counts, offsets, types and sizes claim anything: reading ends, with the '
                 'result the file denotes or an error, after a bounded number of reads')
    ys = [x['b'] for x in d.json()]
    if len(ys) > 6000 and not c.thorough:
        ys = rng.sample(ys, 6000)
    for x in xs[:(len(xs) if c.thorough else 500)] + ys:
        cases.append(vary(rng, len(cases), tg.raw_file(bytes(x))))
    for n in range(60000 if c.thorough else 3000):
        le, big = rng.random() < .5, rng.random() < .5
        dirs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            es, spp = tg.required(rng)
            if rng.random() < .1:
                es[-1].ty, es[-1].vals = 3, [rng.choice([0, 65535])]
            es += tg.optional(rng, spp, .15)
            if rng.random() < .4:
                es += tg.geo(rng, p=.1, bad=.5)
            if rng.random() < .4:
                es = [e for e in es if e.tag not in (322, 323, 324, 325)]
                es += [tg.Entry(322, 4, [rng.choice([0, 1, 2, 256, (1 << 32) - 1])]),
                       tg.Entry(323, 4, [rng.choice([0, 1, 3, 256, (1 << 32) - 1])]),
                       tg.Entry(324, 16 if rng.random() < .5 else 4,
                                [rng.choice([5, (1 << 32) - 1]) for _ in range(rng.randrange(4))]),
                       tg.Entry(325, 16, [rng.choice([5, (1 << 64) - 1, 1 << 63])
                                          for _ in range(rng.randrange(4))])]
            dirs.append(sorted(es, key=lambda e: e.tag))
        cyc = rng.choice([None, None, None, 0, len(dirs) - 1])
        b = tg.file_bytes(tg.layout(rng, dirs, le, big, cycle=cyc).file())
        cases.append(vary(rng, len(cases), tg.raw_file(mangle(rng, b, le, big))))
    for n in ([17, 65, 129, 257, 300] if c.thorough else [20, 70]):       # long cycles
        for cyc in (0, rng.randrange(n), n - 1):
            t = tg.layout(rng, tg.small_dirs(n), rng.random() < .5, rng.random() < .5, cycle=cyc)
            cases.append(vary(rng, len(cases), t.file()))
    for x in cases:
        x['cap'] = 1 << 22
        if x['cache']['p'] and rng.random() < .5:
            x['cache'] = {'p': 1, 'init': 32768, 'm8': 16}
    obs = c.run('meta', cases, stall=20)
    c.validate('MetaTrace', obs, 'malformed files')
    c.assumptions.append('a single allocation above 4 MiB, or 64 MiB in use, for a file of a few KiB '
                         'counts as out of proportion; 50000 reads count as unbounded')
    c.exhaustive = False
