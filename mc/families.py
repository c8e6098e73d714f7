"""Deterministic value families shared by the property modules."""


def words(thorough):
    """16-bit values: all of them, or every value of either octet against boundary values of the other."""
    if thorough:
        return list(range(0x10000))
    edge = (0x00, 0x01, 0x07, 0x08, 0x7F, 0x80, 0x87, 0xF8, 0xFF, 0x5A)
    s = {(h << 8) | l for h in range(256) for l in edge}
    s |= {(h << 8) | l for h in edge for l in range(256)}
    return sorted(s)


def longs(thorough):
    """32-bit values: every octet value in every position on several backgrounds, all one- and two-bit patterns."""
    backs = (0x00000000, 0xFFFFFFFF, 0xA55A3CC3, 0x01020304, 0x80808080, 0x7F7F7F7F)
    if not thorough:
        backs = backs[:4]
    s = set()
    for b in backs:
        for pos in (0, 8, 16, 24):
            for v in range(256):
                s.add((b & ~(0xFF << pos)) & 0xFFFFFFFF | (v << pos))
    for i in range(32):
        s.add(1 << i)
        s.add(0xFFFFFFFF ^ (1 << i))
        for j in range(i):
            s.add((1 << i) | (1 << j))
            if thorough:
                s.add(0xFFFFFFFF ^ (1 << i) ^ (1 << j))
    return sorted(s)


def small_values(bits):
    """Raw values a sub-byte datapoint holds: set by the user or as left by a decoded response or write."""
    return [v | hi for hi in (0x00, 0x40, 0x80) for v in range(1 << bits)]


def values(size, name, bits, thorough):
    if size == 0:
        return small_values(bits)
    if size == 1:
        return list(range(256))
    if size == 2:
        return words(thorough)
    return longs(thorough)


def chunks(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def ranges(lo, hi, step):
    return [(a, min(a + step, hi)) for a in range(lo, hi, step)]


def octet_edges():
    return (0, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 172, 191, 192, 223, 224, 239, 240, 254, 255)


def addresses16():
    s = {0, 1, 2, 0xFF, 0x100, 0x7FF, 0x800, 0x801, 0x0901, 0x7FFF, 0x8000, 0x8001, 0xF7FF, 0xF800, 0xFFFE, 0xFFFF}
    s |= {1 << i for i in range(16)} | {0xFFFF ^ (1 << i) for i in range(16)}
    return sorted(s)
