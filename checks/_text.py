"""Reference code points, encoders and generators for text scripts. These only
make inputs; what the code must do with them is in the specifications."""
ASCII, LATIN1, UTF8, WTF8, UTF16, UTF32 = range(6)
CPS = [0, 1, 9, 10, 27, 32, 39, 65, 97, 126, 127, 128, 129, 159, 160, 233, 255, 256, 0x7fe, 0x7ff, 0x800,
       0x801, 0xfff, 0x1000, 0x200d, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000,
       0x10001, 0x103ff, 0x10400, 0x1f600, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff]
SURR = [0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdfff]


def admits(e, c):
    sur = 0xd800 <= c <= 0xdfff
    return c < 128 if e == ASCII else c < 256 if e == LATIN1 else True if e == WTF8 else not sur


def enc(e, c):
    if e in (ASCII, LATIN1, UTF32):
        return [c]
    if e in (UTF8, WTF8):
        return list(chr(c).encode("utf-8", "surrogatepass"))
    if c < 0x10000:
        return [c]
    return [0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff)]


def encs(e, cps):
    return [u for c in cps for u in enc(e, c)]


def lst(xs):
    return " ".join(map(str, [len(xs)] + list(xs)))


BYTES = [0, 0x1f, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec,
         0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfe, 0xff]
W16 = [0, 0x41, 0xff, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff]
W32 = [0, 0x41, 0xff, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10ffff, 0x110000, 0x7fffffff]


def units(e):
    return {UTF16: W16, UTF32: W32}.get(e, BYTES)


def mutate(r, e, u):
    """A nearly valid unit sequence."""
    u = list(u)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        m = r.randrange(5)
        k = r.randrange(len(u) + 1)
        if m == 0 and u:
            del u[min(k, len(u) - 1)]
        elif m == 1:
            u.insert(k, r.choice(units(e)))
        elif m == 2 and u:
            u[min(k, len(u) - 1)] = r.choice(units(e))
        elif m == 3:
            u = u[:k]
        elif m == 4:
            u = u[k:]
    return u


def rnd_cp(r, e):
    while True:
        m = r.random()
        c = r.choice(CPS) if m < .5 else r.randrange(128) if m < .6 else r.randrange(0x800) if m < .7 \
            else r.randrange(0x10000) if m < .85 else r.randrange(0x110000)
        if admits(e, c):
            return c


def raw8(v, n):
    """The value in UTF-8's n-byte shape, whether or not that encodes anything."""
    if n == 1:
        return [v]
    lead = (0xff << (8 - n)) & 0xff | v >> 6 * (n - 1)
    return [lead] + [0x80 | v >> 6 * j & 0x3f for j in range(n - 2, -1, -1)]


# Every value near a limit of some length, in every length it fits in.
SHAPES = [raw8(v, n) for x in (0, 0x80, 0x800, 0xd800, 0xdc00, 0xe000, 0x10000, 0x10ffff, 0x110000, 0x140000, 0x1fffff)
          for v in (x - 1, x, x + 1) for n in range(1, 7)
          if v >= 0 and v < (0x100 if n == 1 else 1 << (7 - n + 6 * (n - 1)))]
