"""Decimal numbers split into classes: a prefix, one digit of a range, then arbitrary digits.
Numbers of one class have the same number of digits and of base-128 octets."""


def classes(lo, hi):
    """[lo, hi] (same number of digits) -> [(prefix, dlo, dhi, free)]"""
    out = []
    n = len(str(lo))

    def rec(prefix, free, lo, hi):
        # numbers prefix*10^(free+1) + x, lo <= x <= hi < 10^(free+1)
        unit = 10**free
        a, b = lo // unit, hi // unit
        if a == b and free:
            if lo == a * unit and hi == (a + 1) * unit - 1:
                out.append((prefix, a, a, free))
            else:
                rec(prefix * 10 + a, free - 1, lo - a * unit, hi - a * unit)
            return
        if lo != a * unit:
            rec(prefix * 10 + a, free - 1, lo - a * unit, unit - 1)
            a += 1
        tail = None
        if hi != (b + 1) * unit - 1:
            tail = (prefix * 10 + b, free - 1, 0, hi - b * unit)
            b -= 1
        if a <= b:
            out.append((prefix, a, b, free))
        if tail:
            rec(*tail)

    rec(0, n - 1, lo, hi)
    return out


def arcs(top=2**32 - 1):
    cuts = {0, top + 1}
    cuts |= {10**i for i in range(1, 20) if 10**i <= top}
    cuts |= {128**i for i in range(1, 10) if 128**i <= top}
    c = sorted(cuts)
    out = []
    for a, b in zip(c, c[1:]):
        out += classes(a, b - 1)
    # a prefix with leading zeros cannot be expressed: one-digit numbers have none
    return out


def args(c):
    return [c[0], 10 * c[1] + c[2], c[3]]


def name(c):
    p = str(c[0]) if c[0] else ""
    d = str(c[1]) if c[1] == c[2] else "[%d-%d]" % (c[1], c[2])
    return p + d + "x" * c[3]


if __name__ == "__main__":
    a = arcs()
    tot = sum((c[2] - c[1] + 1) * 10 ** c[3] for c in a)
    print(len(a), tot == 2**32)
    assert tot == 2**32
    for c in a:
        print(name(c))
