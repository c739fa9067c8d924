"""Random TIFF files as byte extents. Inputs only: what they mean is decided by the specification."""
import struct

SIZES = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 6: 1, 7: 1, 8: 2, 9: 4, 10: 8, 11: 4, 12: 8, 13: 4,
         16: 8, 17: 8, 18: 8}
TYPES = sorted(SIZES)


def w8(n):
    return list(n.to_bytes(8, 'big'))


def enc(ty, v, le):
    """Stored bytes of one element given as int (two's complement) or bytes (most significant
    first)."""
    n = SIZES[ty]
    if isinstance(v, (bytes, list)):
        b = bytes(v)
        assert len(b) == n, (ty, v)
    else:
        b = (v % (1 << (8 * n))).to_bytes(n, 'big')
    if not le:
        return b
    if ty in (5, 10):
        return b[:4][::-1] + b[4:][::-1]
    return b[::-1]


class Entry:
    """One directory entry. vals: elements; or raw: already encoded bytes and a claimed count."""

    def __init__(self, tag, ty, vals, count=None, at=None):
        self.tag, self.ty, self.vals, self.count, self.at = tag, ty, vals, count, at
        self.rawty = None

    def data(self, le):
        return b''.join(enc(self.ty, v, le) for v in self.vals)


class Tiff:
    """Lays out directories, values and blobs of a file."""

    def __init__(self, le, big):
        self.le, self.big = le, big
        self.e = '<' if le else '>'
        self.chunks = []          # (at, bytes)

    def dir_size(self, n):
        return 8 + 20 * n + 8 if self.big else 2 + 12 * n + 4

    def header(self, first):
        b = b'II' if self.le else b'MM'
        if self.big:
            b += struct.pack(self.e + 'HHHQ', 43, 8, 0, first)
        else:
            b += struct.pack(self.e + 'HI', 42, first)
        self.put(0, b)

    def put(self, at, b):
        if b:
            self.chunks.append((at, bytes(b)))

    def directory(self, at, entries, nxt, place):
        """place(size) gives the offset for an out-of-line value."""
        fs = 8 if self.big else 4
        f = 'Q' if self.big else 'I'
        b = struct.pack(self.e + ('Q' if self.big else 'H'), len(entries))
        for en in entries:
            data = en.data(self.le)
            count = len(en.vals) if en.count is None else en.count
            b += struct.pack(self.e + 'HH' + f, en.tag, en.rawty if en.rawty is not None else en.ty, count % (1 << (8 * fs)))
            if len(data) <= fs and en.at is None:
                b += data + b'\0' * (fs - len(data))
            else:
                at_v = place(len(data)) if en.at is None else en.at
                b += struct.pack(self.e + f, at_v % (1 << (8 * fs)))
                if en.at is None:
                    self.put(at_v, data)
        b += struct.pack(self.e + f, nxt)
        self.put(at, b)

    def file(self, length=None):
        return as_file(self.chunks, length)


def as_file(chunks, length=None):
    """Merge adjacent chunks; later ones win."""
    end = max([a + len(b) for a, b in chunks] + [0])
    if end < 1 << 20:
        buf = bytearray(end)
        for a, b in chunks:
            buf[a:a + len(b)] = b
        if length is not None:
            buf = buf[:length] + bytes(max(0, length - len(buf)))
        return raw_file(bytes(buf))
    ext = []
    for a, b in sorted(chunks):
        if ext and ext[-1][0] + len(ext[-1][1]) == a:
            ext[-1] = (ext[-1][0], ext[-1][1] + b)
        else:
            ext.append((a, b))
    return {'len': w8(end if length is None else length),
            'x': [{'at': w8(a), 'b': list(b)} for a, b in ext]}


def raw_file(b):
    return {'len': w8(len(b)), 'x': [{'at': w8(0), 'b': list(b)}] if b else []}


def file_bytes(f):
    assert len(f['x']) <= 1
    return bytes(f['x'][0]['b']) if f['x'] else b''


# ----------------------------------------------------------------- directories
U = (1, 3, 4, 16)
TEXT_TAGS = [269, 270, 305, 306, 315, 316, 33432, 42112, 42113]
U16_TAGS = [274]
U16V_TAGS = [280, 281, 320]
U32_TAGS = [254, 278, 322, 323]
U64V_TAGS = [273, 279, 324, 325]
F64V_TAGS = [33550, 33922, 34264]
OTHER_TAGS = [255, 263, 264, 265, 266, 271, 272, 285, 297, 318, 319, 330, 332, 333, 340, 341, 342,
              512, 529, 530, 531, 532, 700, 33723, 34377, 34665, 34675, 37724, 40961, 50838,
              65000, 65535, 1, 34734, 34738, 50675, 42111]


def uint_type(rng, v, lo=1):
    fit = [t for t in U if v < 1 << (8 * SIZES[t]) and SIZES[t] >= lo]
    return rng.choice(fit)


def text(rng):
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 20])
    s = bytes(rng.choice(b'abcXYZ 0129|<>=/.:' if rng.random() < .9 else b' \t\n\r\\"\x01\x1b\x7f') for _ in range(n))
    if rng.random() < .15:
        s = rng.choice([s + rng.choice([b' ', b'\n', b'\r\n', b'\t', b'  ']), rng.choice([b' ', b'\n', b'\t']) + s])
    if rng.random() < 0.2:
        s += 'é'.encode()
    r = rng.random()
    if r < 0.8:
        s += b'\0'
    elif r < 0.9:
        s += b'\0' + bytes(rng.choice(b'xyz\0') for _ in range(rng.randint(1, 4)))
    return [bytes([c]) for c in s] or [b'\0']


def rnd_elem(rng, ty):
    n = SIZES[ty]
    r = rng.random()
    if r < 0.25:
        b = bytes(rng.choice([0, 0, 255, 128, 127, 1]) for _ in range(n))
    elif r < 0.5:
        b = bytes(n - 1) + bytes([rng.randrange(256)])
    else:
        b = bytes(rng.randrange(256) for _ in range(n))
    if ty in (11, 12):
        # no NaN: signalling bits need not survive a copy
        if (b[0] & 0x7f) == 0x7f:
            b = bytes([b[0] & 0xbf]) + b[1:]
    return b


def required(rng, spp=None):
    spp = spp or rng.choice([1, 1, 2, 3, 4])
    bits = rng.choice([1, 8, 8, 16, 32, 64])
    w, h = rng.choice([1, 5, 255, 256, 70000]), rng.choice([1, 9, 255, 256, 65536])
    es = [Entry(256, uint_type(rng, w), [w]), Entry(257, uint_type(rng, h), [h]),
          Entry(258, uint_type(rng, bits), [bits] * rng.choice([spp, spp, 1])),
          Entry(262, uint_type(rng, 1), [rng.choice([0, 1, 2, 3, 4, 5, 6, 8])]),
          Entry(277, uint_type(rng, spp), [spp])]
    return es, spp


def optional(rng, spp, p=0.35):
    es = []

    def maybe(f, q=p):
        if rng.random() < q:
            es.append(f())
    for t in TEXT_TAGS:
        maybe(lambda: Entry(t, 2, text(rng)))
    for t in U16_TAGS:
        maybe(lambda: (lambda v: Entry(t, uint_type(rng, v), [v]))(rng.choice([0, 1, 8, 65535])))
    for t in U16V_TAGS:
        maybe(lambda: (lambda vs: Entry(t, uint_type(rng, max(vs)), vs))(
            [rng.choice([0, 1, 255, 256, 65535]) for _ in range(rng.choice([1, 2, 3, 5]))]))
    for t in U32_TAGS:
        maybe(lambda: (lambda v: Entry(t, uint_type(rng, v), [v]))(
            rng.choice([0, 1, 16, 256, 65536, 2**32 - 1])))
    for t in U64V_TAGS:
        maybe(lambda: (lambda vs: Entry(t, uint_type(rng, max(vs)), vs))(
            [rng.choice([0, 1, 255, 4096, 65536, 2**32 - 1, 2**32, 2**63]) if rng.random() < 0.3
             else rng.randrange(1 << 16) for _ in range(rng.choice([1, 2, 3, 4, 9]))]))
    for t in F64V_TAGS:
        maybe(lambda: Entry(t, 12, [rnd_elem(rng, 12) for _ in range(rng.choice([1, 3, 6, 16]))]))
    maybe(lambda: (lambda v: Entry(259, uint_type(rng, v), [v]))(
        rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 32773, 32946, 34712, 34887, 34925, 50000, 50001, 0,
                    9, 65535])))
    for t in (282, 283):
        maybe(lambda: Entry(t, 5, [list(rng.randrange(1 << 20).to_bytes(4, 'big'))
                                   + list((1 << rng.randrange(11)).to_bytes(4, 'big'))]))
    maybe(lambda: Entry(284, uint_type(rng, 1), [rng.choice([1, 2])]))
    maybe(lambda: Entry(296, uint_type(rng, 1), [rng.choice([1, 2, 3])]))
    maybe(lambda: Entry(317, uint_type(rng, 1), [rng.choice([1, 2, 3])]))
    maybe(lambda: Entry(338, uint_type(rng, 1), [rng.choice([0, 1, 2])
                                                 for _ in range(rng.choice([1, 2]))]))
    maybe(lambda: Entry(339, uint_type(rng, 1, 1), [rng.choice([1, 2, 3, 4, 5])] *
                        rng.choice([spp, 1])))
    maybe(lambda: Entry(347, rng.choice([1, 7]), [rng.randrange(256)
                                                  for _ in range(rng.choice([1, 3, 5, 10]))]))
    maybe(lambda: Entry(50674, rng.choice([3, 4]), [rng.randrange(5) for _ in range(2)]))
    for t in OTHER_TAGS:
        maybe(lambda: other(rng, t), p / 4)
    return es


def other(rng, tag):
    ty = rng.choice(TYPES)
    n = rng.choice([0, 1, 1, 1, 2, 3, 4, 5, 8, 9])
    if ty == 2:
        return Entry(tag, 2, text(rng))
    return Entry(tag, ty, [rnd_elem(rng, ty) for _ in range(n)])


U16_KEYS = [1024, 1025, 2048, 2050, 2051, 2052, 2054, 2056, 2060, 3072, 3074, 3075, 3076, 4096,
            4098, 4099]
TEXT_KEYS = [1026, 2049, 3073, 4097]
F64_KEYS = [2053, 2055, 2057, 2058, 2059, 2061] + list(range(3077, 3096))
UNKNOWN_KEYS = [0, 1, 1023, 1027, 2047, 2062, 3071, 3096, 4095, 4100, 5000, 65535]


def geo(rng, p=0.3, bad=0.0, large=0):
    """Entries of a GeoKey directory with its parameter areas."""
    keys = []
    doubles, chars = [], b''
    pad = rng.randrange(3)
    if large:
        pad = rng.choice([large // 8, 257])
        chars += bytes(rng.choice(b'abc |') for _ in range(large))
    doubles += [rnd_elem(rng, 12) for _ in range(pad)]
    for k in U16_KEYS:
        if rng.random() < p:
            keys.append([k, 0, 1, rng.choice([0, 1, 2, 4326, 32767, 65535, 3857])])
    for k in F64_KEYS:
        if rng.random() < p:
            if doubles and rng.random() < 0.2:
                keys.append([k, 34736, 1, rng.randrange(len(doubles))])
            else:
                keys.append([k, 34736, 1, len(doubles)])
                doubles.append(rnd_elem(rng, 12))
    for k in TEXT_KEYS:
        if rng.random() < p + 0.2:
            s = bytes(rng.choice(b'abc XYZ/=|') for _ in range(rng.choice([0, 1, 2, 5, 9] + ([60, 300, 1000] if large else []))))
            if rng.random() < 0.8:
                s += b'|'
            keys.append([k, 34737, len(s), len(chars)])
            chars += s
    for k in UNKNOWN_KEYS:
        if rng.random() < p / 2:
            loc = rng.choice([0, 34736, 34737, 34735, 7])
            keys.append([k, loc, rng.choice([1, 2, 500]), rng.choice([0, 1, 9999])])
    if rng.random() < 0.3:
        rng.shuffle(keys)
    ver = [1, 1, rng.choice([0, 1]), len(keys)]
    if bad:
        b = rng.random()
        if b < bad:
            m = rng.randrange(9)
            if m == 0:
                ver[0] = rng.choice([0, 2, 65535])
            elif m == 1:
                ver[1] = rng.choice([0, 2])
            elif m == 2:
                ver[3] = len(keys) + rng.choice([1, 2, 60000])
            elif m == 3 and keys:
                k = rng.choice(keys)
                k[1] = rng.choice([0, 34736, 34737])
            elif m == 4 and keys:
                rng.choice(keys)[2] = rng.choice([0, 2, 3, 65535])
            elif m == 5 and keys:
                rng.choice(keys)[3] = rng.choice([0, 1, 3, 10, 65535])
            elif m == 6:
                doubles = []
            elif m == 7:
                chars = b''
            elif m == 8 and keys:
                rng.choice(keys)[0] = rng.choice(U16_KEYS + TEXT_KEYS + F64_KEYS)
    shorts = ver + [x for k in keys for x in k]
    if bad and rng.random() < bad / 4:
        shorts = shorts[:rng.randrange(len(shorts) + 1)]
    es = [Entry(34735, rng.choice([3, 3, 3, 4, 16]) if rng.random() < 0.2 else 3, shorts)]
    if doubles or rng.random() < 0.2:
        es.append(Entry(34736, 12, doubles))
    if chars or rng.random() < 0.2:
        es.append(Entry(34737, 2, [bytes([c]) for c in chars + b'\0']))
    return es


def layout(rng, dirs, le, big, base=None, far=False, order=None, cycle=None):
    """Place directories (lists of entries), their values and gaps in random order."""
    t = Tiff(le, big)
    hs = 16 if big else 8
    # blocks: one per directory, one per out-of-line value; place in random order
    blocks = []
    fs = 8 if big else 4
    for d, es in enumerate(dirs):
        blocks.append(('d', d, None, t.dir_size(len(es))))
        for k, en in enumerate(es):
            n = len(en.data(le))
            if n > fs and en.at is None:
                blocks.append(('v', d, k, n))
    if order == 'seq':
        pass
    else:
        rng.shuffle(blocks)
    pos, where = hs, {}
    if base is not None:
        pos = base
    for kind, d, k, n in blocks:
        pos += rng.choice([0, 0, 0, 1, 2, 7])
        if far and rng.random() < 0.3:
            if big:
                pos += 1 << rng.choice([31, 32, 33, 40])
            elif pos < 1 << 30:
                pos += rng.choice([1 << 31, (1 << 31) - 64, 0xe0000000, 0xfff00000])
        where[(kind, d, k)] = pos
        pos += n
    offs = [where[('d', d, None)] for d in range(len(dirs))]
    t.header(offs[0] if offs else 0)
    for d, es in enumerate(dirs):
        nxt = offs[d + 1] if d + 1 < len(dirs) else (offs[cycle] if cycle is not None else 0)
        vals = iter([where[('v', d, k)] for k, en in enumerate(es)
                     if len(en.data(le)) > fs and en.at is None])
        t.directory(offs[d], es, nxt, lambda n: next(vals))
    return t


def small_dirs(k):
    """k small directories that differ in tag 65000."""
    return [[Entry(256, 3, [5]), Entry(257, 3, [4]), Entry(258, 3, [8]), Entry(262, 3, [1]),
             Entry(277, 3, [1]), Entry(65000, 3, [101 + i])] for i in range(k)]


def crowded(rng, n):
    """A directory of n entries, most of them unknown to anybody."""
    es = small_dirs(1)[0]
    tags = rng.sample(range(52000, 65000), n - len(es))
    es = es + [Entry(t, *rng.choice([(3, [t % 1000]), (1, [t % 256]), (4, [t * 3]), (2, [b'x', b'\0'])])) for t in tags]
    return sorted(es, key=lambda e: e.tag)


# ----------------------------------------------------------------- tiled images
def up(a, b):
    return -(-a // b)


class Image:
    """One directory with tiles (or strips) and its data. `data[i]` are the stored bytes of tile
    i; offsets are filled in by `assemble`."""

    def __init__(self, entries, data, otype, ctype, tags=(324, 325), counts=None):
        self.entries, self.data, self.otype, self.ctype, self.tags = entries, data, otype, ctype, tags
        self.counts = counts          # claimed byte counts, if not those of the data


def tiled(rng, big, planar=None, spp=None, maxn=24, extra=0.15, maxlen=9):
    while True:
        w, h = rng.choice([1, 2, 3, 5, 8, 16, 17, 100]), rng.choice([1, 2, 3, 4, 7, 16, 33])
        tw, th = rng.choice([1, 2, 3, 4, 8, 16, 256]), rng.choice([1, 2, 3, 5, 16, 512])
        s = spp or rng.choice([1, 1, 2, 3, 4])
        pl = rng.random() < .4 if planar is None else planar
        n = up(w, tw) * up(h, th) * (s if pl else 1)
        if n <= maxn:
            break
    es = [Entry(256, uint_type(rng, w), [w]), Entry(257, uint_type(rng, h), [h]),
          Entry(258, 3, [8] * s), Entry(262, 3, [rng.choice([1, 2, 6])]),
          Entry(277, uint_type(rng, s), [s]),
          Entry(322, uint_type(rng, tw), [tw]), Entry(323, uint_type(rng, th), [th])]
    if pl or rng.random() < .5:
        es.append(Entry(284, 3, [2 if pl else 1]))
    if rng.random() < .6:
        es.append(Entry(259, 3, [rng.choice([1, 5, 7, 8, 50000])]))
    if rng.random() < .3:
        es.append(Entry(347, 7, [rng.randrange(256) for _ in range(rng.choice([1, 4, 9]))]))
    data = [bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, maxlen])
                                                    if rng.random() < .5 else maxlen))
            for _ in range(n)]
    have = {e.tag for e in es} | {273, 279, 324, 325, 254}
    es += [e for e in optional(rng, s, extra) if e.tag not in have]
    return Image(es, data, rng.choice([4, 16] if big else [4]), rng.choice([3, 4, 16]))


def assemble(rng, images, le, big, where='after', far=False, cycle=None, share=0.0):
    """Lay out directories and tile data. where: data 'after' or 'before' all metadata or 'mixed'."""
    seed = rng.random()
    hs = 16 if big else 8
    blobs = [(i, k) for i, im in enumerate(images) for k in range(len(im.data))]
    early = {b: (where == 'before' or (where == 'mixed' and rng.random() < .5)) for b in blobs}
    rng.shuffle(blobs)
    pos, at, base = hs, {}, hs
    for b in blobs:
        if early[b]:
            pos += rng.choice([0, 0, 1, 3])
            at[b] = pos
            pos += len(images[b[0]].data[b[1]])
    base = pos

    def dirs():
        ds = []
        for i, im in enumerate(images):
            n = len(im.data)
            cnt = im.counts or [len(d) for d in im.data]
            es = list(im.entries)
            if im.tags:
                es += [Entry(im.tags[0], im.otype, [at.get((i, k), 0) for k in range(n)]),
                       Entry(im.tags[1], im.ctype, cnt)]
            es.sort(key=lambda e: e.tag)
            ds.append(es)
        return ds
    import random as _r
    r = _r.Random(seed)
    ds = dirs()
    shuffled = r.random() < .4
    orders = [r.sample(range(len(d)), len(d)) if shuffled else list(range(len(d))) for d in ds]

    def lay():
        d2 = [[d[j] for j in o] for d, o in zip(dirs(), orders)]
        return layout(_r.Random(seed), d2, le, big, base=base, far=far, cycle=cycle)
    t = lay()
    pos = max(a + len(b) for a, b in t.chunks)
    for b in blobs:
        if not early[b]:
            pos += rng.choice([0, 0, 1, 3])
            at[b] = pos
            pos += len(images[b[0]].data[b[1]])
    t = lay()
    for b in blobs:
        t.put(at[b], images[b[0]].data[b[1]])
    end = max(a + len(b) for a, b in t.chunks)
    return t, max(end, pos)
