"""A tiny baseline JPEG writer for images whose 8x8 blocks are constant, so that every decoder
reproduces the component values exactly."""
# the DC table of Annex K; AC: only end-of-block is used
DC_BITS = [0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0]
DC_VALS = list(range(12))


def dc_codes():
    codes, code, k = {}, 0, 0
    for length, n in enumerate(DC_BITS, 1):
        for _ in range(n):
            codes[DC_VALS[k]] = (code, length)
            code += 1
            k += 1
        code <<= 1
    return codes


CODES = dc_codes()


def seg(marker, body):
    return bytes([0xff, marker]) + (len(body) + 2).to_bytes(2, 'big') + bytes(body)


def tables(q=8):
    dqt = seg(0xdb, bytes([0]) + bytes([q] + [1] * 63))
    dht = seg(0xc4, bytes([0x00]) + bytes(DC_BITS) + bytes(DC_VALS)) + \
        seg(0xc4, bytes([0x10]) + bytes([1] + [0] * 15) + bytes([0]))
    return dqt + dht


class Bits:
    def __init__(self):
        self.out, self.acc, self.n = bytearray(), 0, 0

    def put(self, v, n):
        self.acc, self.n = (self.acc << n) | v, self.n + n
        while self.n >= 8:
            b = (self.acc >> (self.n - 8)) & 0xff
            self.out.append(b)
            if b == 0xff:
                self.out.append(0)
            self.n -= 8
        self.acc &= (1 << self.n) - 1

    def done(self):
        if self.n:
            self.put((1 << (8 - self.n)) - 1, 8 - self.n)
        return bytes(self.out)


def encode(w, h, blocks, ncomp, shared=False, pad=b'', own=b''):
    """blocks[c][by][bx]: value of the block. Returns (stream, tables or None)."""
    t = tables()
    t = pad + t if len(pad) % 2 else t + pad         # comments and application data: no effect
    sof = seg(0xc0, bytes([8]) + h.to_bytes(2, 'big') + w.to_bytes(2, 'big') + bytes([ncomp]) +
              b''.join(bytes([c + 1, 0x11, 0]) for c in range(ncomp)))
    sos = seg(0xda, bytes([ncomp]) + b''.join(bytes([c + 1, 0]) for c in range(ncomp)) + bytes([0, 63, 0]))
    bits = Bits()
    pred = [0] * ncomp
    for by in range(-(-h // 8)):
        for bx in range(-(-w // 8)):
            for c in range(ncomp):
                v = blocks[c][by][bx] - 128
                d, pred[c] = v - pred[c], v
                s = abs(d).bit_length()
                code, n = CODES[s]
                bits.put(code, n)
                if s:
                    bits.put(d if d > 0 else d + (1 << s) - 1, s)
                bits.put(0, 1)             # end of block
    body = own + sof + sos + bits.done()
    soi, eoi = b'\xff\xd8', b'\xff\xd9'
    if shared:
        return soi + body + eoi, soi + t + eoi
    return soi + t + body + eoi, None


def padding(rng):
    """Segments a decoder skips."""
    b = b''
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        b += seg(rng.choice([0xfe, 0xe3, 0xed]), rng.randbytes(rng.choice([0, 3, 100, 600, 5000])))
    return b


def pixels(w, h, blocks, ncomp):
    return bytes(blocks[c][y // 8][x // 8] for y in range(h) for x in range(w) for c in range(ncomp))


def random_blocks(rng, w, h, ncomp):
    pick = rng.choice([lambda: rng.randrange(256), lambda: rng.choice([0, 255, 128, 127, 1]),
                       lambda: rng.randrange(100, 156)])
    return [[[pick() for _ in range(-(-w // 8))] for _ in range(-(-h // 8))] for _ in range(ncomp)]
