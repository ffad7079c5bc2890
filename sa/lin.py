"""Linear forms over integer atoms and the polyhedral entailment test used by
the abstract interpreter.  A form is (const, ((atom, coef), ...)); a constraint
is a form read as `form >= 0` over the integers."""
from math import gcd

ZERO = (0, ())
_INF = float("inf")


def const(c):
    return (c, ())


def atom(a, k=1):
    return (0, ((a, k),)) if k else ZERO


def is_const(l):
    return not l[1]


def add(a, b):
    if not b[1]:
        return (a[0] + b[0], a[1])
    if not a[1]:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for k, v in b[1]:
        n = d.get(k, 0) + v
        if n:
            d[k] = n
        else:
            del d[k]
    return (a[0] + b[0], tuple(sorted(d.items())))


def scale(a, k):
    if k == 0:
        return ZERO
    if k == 1:
        return a
    return (a[0] * k, tuple((x, c * k) for x, c in a[1]))


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, scale(b, -1))


def addc(a, c):
    return (a[0] + c, a[1])


def atoms(a):
    return [x for x, _ in a[1]]


def subst(l, m):
    """Replace atoms by forms."""
    r = (l[0], tuple((a, k) for a, k in l[1] if a not in m))
    for a, k in l[1]:
        if a in m:
            r = add(r, scale(m[a], k))
    return r


def norm(l):
    """Divide by the gcd of the coefficients, tightening the constant."""
    if not l[1]:
        return l
    g = 0
    for _, c in l[1]:
        g = gcd(g, c)
        if g == 1:
            return l
    return (l[0] // g, tuple((a, c // g) for a, c in l[1]))


_fm_cache = {}
stats = {"fm": 0, "fm_giveup": 0}
MAXC = 220


def infeasible(cons):
    """True when the conjunction of `c >= 0` has no integer solution, shown by
    Fourier-Motzkin elimination (a sound but incomplete integer test)."""
    key = frozenset(cons)
    r = _fm_cache.get(key)
    if r is None:
        r = _infeasible(key)
        if len(_fm_cache) > 60000:
            _fm_cache.clear()
        _fm_cache[key] = r
    return r


def _infeasible(cons):
    stats["fm"] += 1
    cur = {}
    for c in cons:
        c = norm(c)
        if not c[1]:
            if c[0] < 0:
                return True
            continue
        o = cur.get(c[1])
        if o is None or c[0] < o:
            cur[c[1]] = c[0]
    for _ in range(48):
        if not cur:
            return False
        # equalities are solved for a variable first
        eq = None
        for t, c in cur.items():
            if t[0][1] > 0:
                o = cur.get(tuple((a, -k) for a, k in t))
                if o is not None:
                    if c + o < 0:
                        return True
                    if c + o == 0:
                        u = [a for a, k in t if k in (1, -1)]
                        if u:
                            eq = (c, t, u[-1])
                            break
        if eq:
            c, t, a = eq
            k = dict(t)[a]
            sub = scale((c, tuple(x for x in t if x[0] != a)), -k)
            nxt = {}
            for t2, c2 in cur.items():
                l = (c2, t2)
                if any(x == a for x, _ in t2):
                    l = norm(subst(l, {a: sub}))
                    if not l[1]:
                        if l[0] < 0:
                            return True
                        continue
                o = nxt.get(l[1])
                if o is None or l[0] < o:
                    nxt[l[1]] = l[0]
            cur = nxt
            continue
        # variable selection
        pos, ngs = {}, {}
        for t, c in cur.items():
            for a, k in t:
                if k > 0:
                    pos[a] = pos.get(a, 0) + 1
                else:
                    ngs[a] = ngs.get(a, 0) + 1
        best = None
        for a in set(pos) | set(ngs):
            cost = pos.get(a, 0) * ngs.get(a, 0)
            if best is None or cost < best[0]:
                best = (cost, a)
        a = best[1]
        P, N, rest = [], [], {}
        for t, c in cur.items():
            k = 0
            for x, kk in t:
                if x == a:
                    k = kk
                    break
            if k > 0:
                P.append((k, (c, t)))
            elif k < 0:
                N.append((-k, (c, t)))
            else:
                rest[t] = c
        for kp, p in P:
            for kn, n in N:
                g = gcd(kp, kn)
                l = norm(add(scale(p, kn // g), scale(n, kp // g)))
                if not l[1]:
                    if l[0] < 0:
                        return True
                    continue
                o = rest.get(l[1])
                if o is None or l[0] < o:
                    rest[l[1]] = l[0]
        if len(rest) > MAXC:
            stats["fm_giveup"] += 1
            return False
        cur = rest
    stats["fm_giveup"] += 1
    return False
