"""Facts about the ghost sequences used by parts.py, each proved by z3 for all values."""
import z3
I = z3.Int


def prove(name, hyps, goal):
    s = z3.Solver()
    s.set('timeout', 60000)
    s.add(*hyps)
    s.add(z3.Not(goal))
    r = s.check()
    return name, 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'


def lemmas(which='unique'):
    return unique() if which == 'unique' else shared()


def unique():
    out = []
    # one step of the walk keeps the block inside the slice
    lo, ln, base, n = I('lo'), I('ln'), I('base'), I('n')
    h = ln / 2
    for b in (0, 1):
        lo1, ln1 = (lo + h, ln - h) if b else (lo, h)
        out.append(prove('a step of the walk stays inside the slice (%d)' % b, [base <= lo, 0 <= ln, lo + ln <= base + n, ln <= n],
                         z3.And(base <= lo1, 0 <= ln1, lo1 + ln1 <= base + n, ln1 <= n)))
    # tiling, by induction on the exponent: B, L for 2H parts from B', L' for H parts of the halves
    B1, L1 = z3.Function('B1', z3.IntSort(), z3.IntSort(), z3.IntSort()), z3.Function('L1', z3.IntSort(), z3.IntSort(), z3.IntSort())
    H, i = I('H'), I('i')
    half, rest = n / 2, n - n / 2

    def B(i):
        return z3.If(i < H, B1(i, half), half + B1(i - H, rest))

    def L(i):
        return z3.If(i < H, L1(i, half), L1(i - H, rest))

    def ih(j, m):
        """The induction hypothesis at index j of a slice of m items."""
        return z3.And(B1(0, m) == 0, B1(H - 1, m) + L1(H - 1, m) == m, z3.Implies(z3.And(0 <= j, j < H), L1(j, m) >= 0),
                      z3.Implies(z3.And(0 <= j, j + 1 < H), B1(j, m) + L1(j, m) == B1(j + 1, m)))
    hyp = [H >= 1, n >= 0] + [ih(j, m) for m in (half, rest) for j in (i, i - H, 0 * H, H - 1)]
    out.append(prove('the first part starts at the first item', hyp, B(z3.IntVal(0)) == 0))
    out.append(prove('the last part ends at the last item', hyp, B(2 * H - 1) + L(2 * H - 1) == n))
    out.append(prove('consecutive parts are adjacent', hyp + [0 <= i, i + 1 < 2 * H], B(i) + L(i) == B(i + 1)))
    out.append(prove('no part has negative length', hyp + [0 <= i, i < 2 * H], L(i) >= 0))
    # base case: one part, the whole slice
    out.append(prove('one part is the whole slice', [n >= 0], z3.And(0 + n == n, n >= 0)))
    # monotone boundaries
    f, m = I('f'), I('m')
    Bf = z3.Function('Bf', z3.IntSort(), z3.IntSort())
    Lf = z3.Function('Lf', z3.IntSort(), z3.IntSort())
    out.append(prove('boundaries are monotone (step)', [f <= m, Bf(f) <= Bf(m), Bf(m + 1) == Bf(m) + Lf(m), Lf(m) >= 0], Bf(f) <= Bf(m + 1)))
    # bits of an index: the low bits of i and of i - 2^(k-1) agree, the top bit tells the half, and the bits of
    # 2^k - 1 - g are the complements of those of g
    # (x div P is the q with P q <= x < P q + P)
    c, g, q, r = I('c'), I('g'), I('q'), I('r')
    bad = []

    def isdiv(x, P, q):
        return z3.And(P * q <= x, x < P * q + P)
    for e in range(64):
        P, Q = 1 << e, 2 << e
        for nm, hyps, goal in (
                ('low bits', [isdiv(i, P, q)], isdiv(i - c * Q, P, q - 2 * c)),
                ('top bit', [0 <= i, i < Q, isdiv(i, P, q)], z3.And(z3.Or(q == 0, q == 1), (q == 1) == (i >= P))),
                ('complement', [isdiv(g, P, q)], isdiv(c * Q - 1 - g, P, 2 * c - 1 - q))):
            x = prove(nm, hyps, goal)[1]
            if x != 'proved':
                bad.append('%s of level %d: %s' % (nm, e, x))
    for nm, goal in (('parity low', (q - 2 * c) % 2 == q % 2), ('parity complement', (2 * c - 1 - q) % 2 == 1 - q % 2)):
        x = prove(nm, [], goal)[1]
        if x != 'proved':
            bad.append(nm)
    out.append(('bits of indices: low, top, complement, for all 64 levels' + (' [%s]' % '; '.join(bad[:3]) if bad else ''), 'proved' if not bad else 'unknown'))
    # every count is 2^j times an odd number: an even positive number is twice a smaller positive number
    out.append(prove('halving an even positive count', [n >= 1, n % 2 == 0, n < 2 * m], z3.And(n / 2 >= 1, n / 2 < m, 2 * (n / 2) == n)))
    return out


def shared():
    """Facts about nodes (2^i parts at a multiple of 2^i) and canonical sequences (the maximal nodes inside x .. y,
    in order) used by bparts.py."""
    out = []
    S, q, r, s, x, y, o, n, k = (I(v) for v in 'S q r s x y o n k'.split())

    def each(name, f, hi=64):
        bad = []
        for d in range(hi):
            for h, g in f(d):
                if prove('', h, g)[1] != 'proved':
                    bad.append(str(d))
        out.append(('%s, for all %d levels' % (name, hi) + (' [fails at %s]' % ' '.join(bad[:5]) if bad else ''), 'unknown' if bad else 'proved'))
    # nodes S*q .. S*(q+1) and (S*D)*r .. (S*D)*(r+1), D = 2^d
    each('two nodes are nested or disjoint (in units of the smaller)',
         lambda d: [([], z3.Or(q + 1 <= (1 << d) * r, q >= (1 << d) * (r + 1), z3.And((1 << d) * r <= q, q + 1 <= (1 << d) * (r + 1))))])
    out.append(prove('the unit does not matter', [S >= 1, q <= r], S * q <= S * r))
    # so the maximal nodes inside x .. y are disjoint, cover it (each part is a node), and the first one, at x, is the
    # largest node at x; without it they are the maximal nodes of the rest: a node m of the rest inside a bigger node M of
    # x .. y that is not inside the rest would overlap the first node F, so be nested with it; F is maximal, so M is inside F,
    # and m is inside F and behind F
    out.append(prove('unfolding at the front: no node is inside the first one and behind it', [0 <= q, n >= 1, q >= x + n, q + s <= x + n, s >= 1], z3.BoolVal(False)))
    out.append(prove('unfolding at the back: no node is inside the last one and before it', [s >= 1, q + s <= y - n, q >= y - n], z3.BoolVal(False)))
    # a node of 2^i parts at x, maximal in x .. y: behind its first part come nodes of 1, 2, 4, .. 2^(i-1) parts
    # (in units of 2^t: x = 2^(i-t) q; the node at x + 2^t is that of 2^t parts, and x + 2^(t+1) does not pass its end)
    each('behind the first part of a node come nodes of 1, 2, 4, .. parts',
         lambda d: [([], z3.And(((2 << d) * q + 1) % 2 == 1, (2 << d) * q + 2 <= (2 << d) * q + (2 << d)))])
    each('before the last part of a node come nodes of .., 4, 2, 1 parts',
         lambda d: [([], z3.And(((2 << d) * q - 1) % 2 == 1, (2 << d) * q - 2 >= (2 << d) * q - (2 << d)))])
    # the offset rule: behind off parts of a node of 2^j parts, off = 2^i * odd (in units of 2^i)
    each('the largest node at an offset inside a node is given by the offset',
         lambda d: [([o % 2 == 1, 0 < o, o < (2 << d)], z3.And(((2 << d) * q + o) % 2 == 1, ((2 << d) * q - o) % 2 == 1, o + 1 <= (2 << d)))])
    # length: a proper suffix of a node of 2^j parts has at most j nodes (j = 0: none); one of 2^(j+1) parts is a proper
    # suffix of its right half, or that half, or that half behind a proper suffix of the left half
    out.append(prove('a proper suffix of a node of 2^j parts has at most j nodes (step)', [k >= 0, n >= 0, n <= k], z3.And(n <= k + 1, 1 <= k + 1, 1 + n <= k + 1)))
    # x .. y is a node, or is split by the middle of the smallest node around it (2^(j+1) parts): a proper suffix or all of the
    # left half, a proper prefix or all of the right half, not both all
    a, b, j = I('a'), I('b'), I('j')
    out.append(prove('a canonical sequence in 2^k parts has at most max(1, 2k - 2) nodes',
                     [0 <= j, j + 1 <= k, z3.Or(a == 1, z3.And(1 <= a, a <= j)), z3.Or(b == 1, z3.And(1 <= b, b <= j)), z3.Or(j >= 1, n == 1), z3.Or(n == 1, n == a + b)],
                     z3.Or(n <= 1, n <= 2 * k - 2)))
    out.append(('a power of two is below 2^t or a multiple of it, for all 64 x 64 pairs',
                'proved' if all((1 << a) < (1 << t) or (1 << a) % (1 << t) == 0 for a in range(64) for t in range(64)) else 'refuted'))
    B = z3.Function('B', z3.IntSort(), z3.IntSort())
    out.append(prove('lengths of consecutive nodes add up (step)', [s == B(y) - B(x + n)], (B(x + n) - B(x)) + s == B(y) - B(x)))
    return out


if __name__ == '__main__':
    for nm, r in unique() + shared():
        print(r, nm)
