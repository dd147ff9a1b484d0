"""RIPEMD-160 as published (Dobbertin, Bosselaers, Preneel 1996), over any word type; used symbolically and natively.

The tables are generated from the permutations, the shift table and the root constants of the paper.
"""
RHO = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8]
PI = [(9 * i + 5) % 16 for i in range(16)]
SHIFTS = [
    [11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8],
    [12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7],
    [13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9],
    [14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6],
    [15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5],
]
IV = (0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0)


def _iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 2)
    while lo < hi - 1:
        m = (lo + hi) // 2
        lo, hi = (m, hi) if m ** k <= n else (lo, m)
    return lo


K_LEFT = [0] + [_iroot(x << 60, 2) for x in (2, 3, 5, 7)]          # 2^30 times the square roots
K_RIGHT = [_iroot(x << 90, 3) for x in (2, 3, 5, 7)] + [0]         # 2^30 times the cube roots


def order(start):
    """Message word used in each of the 80 steps."""
    out, p = [], list(start)
    for _ in range(5):
        out.append(p)
        p = [RHO[i] for i in p]
    return out


LEFT, RIGHT = order(range(16)), order(PI)


class Native:
    """32-bit words as Python integers."""
    M = 0xffffffff

    @staticmethod
    def add(*a):
        return sum(a) & 0xffffffff

    @staticmethod
    def rol(x, n):
        x &= 0xffffffff
        return (x << n | x >> (32 - n)) & 0xffffffff

    @staticmethod
    def inv(x):
        return ~x & 0xffffffff

    @staticmethod
    def const(k):
        return k


class Z3Words:
    @staticmethod
    def add(*a):
        r = a[0]
        for x in a[1:]:
            r = r + x
        return r

    @staticmethod
    def rol(x, n):
        import z3
        return z3.RotateLeft(x, n)

    @staticmethod
    def inv(x):
        return ~x

    @staticmethod
    def const(k):
        import z3
        return z3.BitVecVal(k, 32)


def f(w, x, y, z, i):
    if i == 0:
        return x ^ y ^ z
    if i == 1:
        return (x & y) | (w.inv(x) & z)
    if i == 2:
        return (x | w.inv(y)) ^ z
    if i == 3:
        return (x & z) | (y & w.inv(z))
    return x ^ (y | w.inv(z))


def compress(w, h, x):
    """One block: h five words, x sixteen message words."""
    def line(sel, ks, fs):
        a, b, c, d, e = h
        for rnd in range(5):
            for j in range(16):
                m = sel[rnd][j]
                t = w.add(w.rol(w.add(a, f(w, b, c, d, fs(rnd)), x[m], w.const(ks[rnd])), SHIFTS[rnd][m]), e)
                a, b, c, d, e = e, t, b, w.rol(c, 10), d
        return a, b, c, d, e
    A = line(LEFT, K_LEFT, lambda r: r)
    B = line(RIGHT, K_RIGHT, lambda r: 4 - r)
    return tuple(w.add(h[(i + 1) % 5], A[(i + 2) % 5], B[(i + 3) % 5]) for i in range(5))


def digest(msg):
    """RIPEMD-160 of a byte string, from the definition."""
    L = len(msg)
    data = msg + b"\x80" + bytes((55 - L) % 64) + (8 * L).to_bytes(8, "little")
    h = IV
    for i in range(0, len(data), 64):
        h = compress(Native, h, [int.from_bytes(data[i + 4 * j:i + 4 * j + 4], "little") for j in range(16)])
    return b"".join(v.to_bytes(4, "little") for v in h)


VECTORS = [
    (b"", "9c1185a5c5e9fc54612808977ee8f548b2258d31"),
    (b"abc", "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"),
    (b"message digest", "5d0689ef49d2fae572b881b123a85ffa21595f36"),
    (b"1234567890" * 8, "9b752e45573d4b39f4dbd3323cab82bf63326bfb"),
]


def self_test():
    return all(digest(m).hex() == h for m, h in VECTORS)
