"""Abstract interpreter over the dumped LLVM IR.

Values are linear forms over integer atoms (modulo 2^w), pointers are
(object, linear offset); a state is a conjunction of linear constraints, a
store and the client's typestate.  Branches refine the state, states that agree
at a join are merged, loops are summarised by a conjunctive invariant found by
dropping candidates that are not inductive.  Defined functions are analysed at
their call sites, so extracting or inlining a helper does not change a verdict.
No input is run and no path is handed to a solver."""
import sys
import time
from . import lin as L
from .frontend import AnalysisBroken

sys.setrecursionlimit(20000)
TRUE, FALSE = True, False
NULL = 0
DEADLINE = None     # wall clock time at which an analysis gives up


class Obj:
    __slots__ = ("id", "kind", "name", "size", "ditype", "extra", "init")

    def __init__(self, id, kind, name, size, ditype, init, extra=None):
        self.id = id
        self.kind = kind      # null alloca global heap sym func
        self.name = name
        self.size = size      # linear form or None
        self.ditype = ditype  # pointee type, e.g. as_unpacker
        self.init = init      # sym undef zero const
        self.extra = extra


class OM:
    """Contents of one object: cells keyed by (offset form, size)."""
    __slots__ = ("cells", "ver", "wver", "_k")

    def __init__(self, cells=None, ver=0, wver=0):
        self.cells = cells if cells is not None else {}
        self.ver = ver
        self.wver = wver
        self._k = None

    def copy(self):
        return OM(dict(self.cells), self.ver, self.wver)

    def key(self):
        if self._k is None:
            self._k = (self.ver, self.wver, frozenset(self.cells.items()))
        return self._k


class State:
    __slots__ = ("mem", "b", "ineqs", "neqs", "nn", "heap", "cl", "trace")

    def __init__(self):
        self.mem = {}
        self.b = {}
        self.ineqs = frozenset()
        self.neqs = frozenset()
        self.nn = {}
        self.heap = {}
        self.cl = {}
        self.trace = None

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.b = dict(self.b)
        s.ineqs = self.ineqs
        s.neqs = self.neqs
        s.nn = dict(self.nn)
        s.heap = dict(self.heap)
        s.cl = dict(self.cl)
        s.trace = self.trace
        return s


class Client:
    """Default: no rule."""
    def on_call(self, it, st, fr, ins, name, args):
        return None

    def on_access(self, it, st, fr, ins, kind, ptr, size, val):
        pass

    def on_null(self, it, st, fr, ins, ptr, definite):
        pass

    def on_event(self, it, st, fr, ins, what, data):
        pass

    def on_fnptr(self, it, st, fr, ins, target, args):
        return None

    def meddles(self, st, p):
        return True


class Frame:
    __slots__ = ("fn", "ctx", "parent", "ins", "depth", "allocas")

    def __init__(self, fn, ctx, parent, ins):
        self.fn = fn
        self.ctx = ctx
        self.parent = parent
        self.ins = ins
        self.depth = parent.depth + 1 if parent else 0
        self.allocas = []

    def stack(self):
        f, out = self, []
        while f:
            out.append(f.fn.name)
            f = f.parent
        return out

    def has(self, fn):
        f = self
        while f:
            if f.fn is fn:
                return True
            f = f.parent
        return False


def width(t):
    if t and t[0] == "i" and t[1:].isdigit():
        return int(t[1:])
    return None


class Budget(Exception):
    pass


def plain_const(v):
    return (v[0] == "I" and not v[2][1]) or (v[0] == "B" and isinstance(v[1], bool))


def const_class(v):
    if v[0] == "B":
        return v[1]
    c = v[2][0] & ((1 << v[1]) - 1)
    return 0 if c == 0 else -1 if c == (1 << v[1]) - 1 else 1


class Interp:
    def __init__(self, prog, client=None, max_states=48, max_depth=40, unroll=300, max_steps=1500000, keep=0):
        self.p = prog
        self.keep = keep    # joins keep up to this many states apart before merging
        self.client = client or Client()
        self.objs = [Obj(0, "null", "NULL", None, None, "undef")]
        self.objkey = {}
        self.alo = []
        self.ahi = []
        self.aname = []
        self.acond = {}
        self.aundef = set()
        self.akey = {}
        self.mono = {}      # product atom -> base atoms
        self.scale_more = False # prove with products not in the code; follow bytes through loops over items
        self.shared = {}        # (object, offset) -> range of a number other threads change, or function giving it
        self.hints = []         # forms loop variables may be compared with
        self.probes = []        # offsets at which a fill leaves a cell
        self.vrem = {}          # view and cell -> (size of the access, place of the cell inside it)
        self.helpers = set()    # products made up by a proof, not by the code
        self.serial = 0
        self.addr_of = {}   # atom -> obj
        self.quiet = 0      # >0: inside an invariant trial, do not report
        self.max_states = max_states
        self.max_depth = max_depth
        self.exact_mem = False  # memcmp of a known number of bytes compares them
        self.recurse = False    # calls to functions already running are followed
        self.unroll = unroll
        self.bitwise = False    # numbers are sums of single bits
        self.tblbits = {}       # bit atom -> (constant table, offset, size of the entry, bit)
        self.each_way = False   # walk loops that end, following every way out of each turn separately
        self.max_steps = max_steps
        self.marks = set()      # atoms standing for traced contents
        self.uneven = False     # values growing by different steps are kept between multiples of the turns taken
        self._uneven = {}
        self.textlen = {}       # objects holding text of a known length
        self.nulfree = set()    # objects whose bytes are not zero
        self.bytewise = set()   # objects read byte by byte; not empty: numbers are taken apart into bytes
        self.resid = {}         # residue atom -> (argument, modulus)
        self.reducing = False
        self.steps = 0
        self.cmp_log = None
        self.write_log = None
        self.look_log = None    # places read and written while a loop is tried out
        self.stats = {"blocks": 0, "states": 0, "calls": 0, "joins": 0, "loops": 0, "max_pending": 0}
        self.fn_seen = {}
        self.externs = {}
        self.lines_seen = set()
        self.alloc_fails = True     # explore failing allocations
        self.quot = set()           # wrap-around counts
        self.chars = {}             # atom of a loaded byte -> (object, offset, versions)

    # ---------------------------------------------------------------- atoms
    def mk_atom(self, name, lo, hi, key=None):
        if key is not None:
            a = self.akey.get(key)
            if a is not None:
                return a
        a = len(self.alo)
        self.alo.append(lo)
        self.ahi.append(hi)
        self.aname.append(name)
        if key is not None:
            self.akey[key] = a
        return a

    def fresh(self, name, w, signed=False):
        self.serial += 1
        if signed:
            return self.mk_atom("%s#%d" % (name, self.serial), -(1 << (w - 1)), (1 << (w - 1)) - 1)
        return self.mk_atom("%s#%d" % (name, self.serial), 0, (1 << w) - 1)

    def fresh_int(self, name, w, signed=False):
        return ("I", w, L.atom(self.fresh(name, w, signed)))

    def new_obj(self, kind, name, size=None, ditype=None, init="sym", key=None, extra=None):
        if key is not None:
            o = self.objkey.get(key)
            if o is not None:
                return o
        o = len(self.objs)
        self.objs.append(Obj(o, kind, name, size, ditype, init, extra))
        if key is not None:
            self.objkey[key] = o
        return o

    def addr_atom(self, obj):
        a = self.mk_atom("&" + self.objs[obj].name, 1, (1 << 62), ("addr", obj))
        self.addr_of[a] = obj
        return a

    def show(self, l):
        s = []
        for a, c in l[1]:
            n = self.aname[a]
            s.append(("%+d*%s" % (c, n)) if c not in (1, -1) else ("+" if c > 0 else "-") + n)
        if l[0] or not s:
            s.append("%+d" % l[0])
        return " ".join(s)

    # -------------------------------------------------------------- numeric
    def arange(self, st, a):
        r = st.b.get(a)
        if r is None:
            return self.alo[a], self.ahi[a]
        return r

    def range(self, st, l):
        lo = hi = l[0]
        b = st.b
        for a, c in l[1]:
            r = b.get(a)
            if r is None:
                x, y = self.alo[a], self.ahi[a]
            else:
                x, y = r
            if c > 0:
                lo += c * x
                hi += c * y
            else:
                lo += c * y
                hi += c * x
        return lo, hi

    def simp(self, st, l):
        if not l[1]:
            return l
        if self.mono:
            l = self.expand(st, l)
        c, out = l[0], []
        ch = False
        for a, k in l[1]:
            r = st.b.get(a)
            if r is not None and r[0] == r[1]:
                c += k * r[0]
                ch = True
            elif r is None and self.alo[a] == self.ahi[a]:
                c += k * self.alo[a]
                ch = True
            else:
                out.append((a, k))
        return (c, tuple(out)) if ch else l

    def expand(self, st, l):
        """Rewrite product atoms whose factors are known constants."""
        if not self.mono:
            return l
        out = None
        for a, k in l[1]:
            m = self.mono.get(a)
            if not m:
                continue
            c, rest = 1, []
            for b in m:
                lo, hi = self.arange(st, b)
                if lo == hi:
                    c *= lo
                else:
                    rest.append(b)
            if len(rest) < len(m):
                if out is None:
                    out = l
                t = L.const(c) if not rest else L.scale(
                    L.atom(rest[0] if len(rest) == 1 else self.monomial(st, tuple(rest))), c)
                out = L.subst(out, {a: t})
        return out if out is not None else l

    def component(self, st, seed):
        seen = set(seed)
        cons = []
        left = list(st.ineqs)
        for _ in range(6):
            nxt = []
            grew = False
            for c in left:
                if any(a in seen for a, _ in c[1]):
                    cons.append(c)
                    for a, _ in c[1]:
                        if a not in seen:
                            seen.add(a)
                            grew = True
                else:
                    nxt.append(c)
            left = nxt
            if not grew:
                break
        for a in seen:
            lo, hi = self.arange(st, a)
            cons.append((-lo, ((a, 1),)))
            cons.append((hi, ((a, -1),)))
        return cons

    def entails(self, st, l, depth=0):
        """st |= l >= 0"""
        lo, hi = self.range(st, l)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if l in st.ineqs:
            return True
        l = self.simp(st, l)
        cons = self.component(st, L.atoms(l))
        if len(cons) > 2 * len(l[1]) and L.infeasible(cons + [L.addc(L.neg(l), -1)]):
            return True
        if self.mono and depth < 3 and any(a in self.mono for a, _ in l[1]):
            if self.entails_product(st, l, depth):
                return True
            if depth == 0:
                return self.entails_scaled(st, l)
        return False

    def entails_scaled(self, st, l):
        """Use c >= 0 in the form s*c >= 0 for a factor s >= 0 of l's products."""
        bases = set()
        for a, _ in l[1]:
            if a in self.mono:
                bases |= set(self.mono[a])
        old, more = [], []
        for s in bases:
            if self.arange(st, s)[0] < 0:
                continue
            for c in st.ineqs:
                if len(c[1]) > 4:
                    continue
                ms = [self.akey.get(("mono", tuple(sorted(self.mono.get(a, (a,)) + (s,))))) for a, _ in c[1]]
                new = old
                if None in ms or not self.helpers.isdisjoint(ms):
                    if not self.scale_more or len(c[1]) > 3 or not any(m is not None for m in ms):
                        continue
                    if any(len(self.mono.get(a, ())) > 1 for a, _ in c[1]):
                        continue
                    new = more
                new.append((s, c, ms))
        if not old and not more:
            return False
        if old and self.refuted(st, l, old):
            return True
        if not more:
            return False
        for s, c, ms in more:
            for x, (a, _) in enumerate(c[1]):
                if ms[x] is None:
                    ms[x] = self.monomial(st, tuple(sorted((a, s))))
                    self.helpers.add(ms[x])
        return self.refuted(st, l, old + more)

    def refuted(self, st, l, scaled):
        new = []
        for s, c, ms in scaled:
            f = L.atom(s, c[0]) if c[0] else L.ZERO
            for m, (a, k) in zip(ms, c[1]):
                f = L.add(f, L.atom(m, k))
            new.append(f)
        at = set(L.atoms(l))
        for f in new:
            at |= set(L.atoms(f))
        return L.infeasible(self.component(st, at) + new + [L.addc(L.neg(l), -1)])

    def entails_product(self, st, l, depth):
        """l = s*f + g with s >= 0: f >= 0 and g >= 0, or s >= 1, f >= 0 and f + g >= 0."""
        bases = set()
        for a, _ in l[1]:
            if a in self.mono:
                bases |= set(self.mono[a])
        for s in sorted(bases):
            lo, hi = self.arange(st, s)
            if lo < 0:
                continue
            f, g = L.ZERO, L.const(l[0])
            for a, k in l[1]:
                m = self.mono.get(a, (a,))
                if s in m:
                    rest = list(m)
                    rest.remove(s)
                    rest = tuple(rest)
                    if not rest:
                        f = L.addc(f, k)
                    elif len(rest) == 1:
                        f = L.add(f, L.atom(rest[0], k))
                    else:
                        f = L.add(f, L.atom(self.monomial(st, rest), k))
                else:
                    g = L.add(g, L.atom(a, k))
            if not f[1] and f[0] == 0:
                continue
            if not self.entails(st, f, depth + 1):
                continue
            if self.entails(st, g, depth + 1):
                return True
            if lo >= 1 and self.entails(st, L.add(f, g), depth + 1):
                return True
            if self.entails(st, L.add(g, L.atom(s)), depth + 1) and self.entails(st, L.addc(f, -1), depth + 1):
                return True
        return False

    def entails_eq(self, st, l, depth=0):
        l = self.simp(st, l)
        if not l[1]:
            return l[0] == 0
        if self.entails(st, l) and self.entails(st, L.neg(l)):
            return True
        if self.resid and depth < 5:
            # congruent to zero and smaller than the modulus
            for y in self.divisors(l):
                if any(self.entails_eq(st, c, 9) for c in self.congruent(l, y)) and \
                        self.entails(st, L.addc(L.add(l, y), -1)) and self.entails(st, L.addc(L.sub(y, l), -1)):
                    return True
        if self.mono and depth < 2:
            for s, f, g in self.factors(l):
                if self.entails_eq(st, g, depth + 1) and self.entails_eq(st, f, depth + 1):
                    return True
        return False

    def add_ge(self, st, l):
        """Assume l >= 0 in place; False if that is impossible."""
        l = L.norm(self.simp(st, l))
        lo, hi = self.range(st, l)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if len(l[1]) == 1:
            a, k = l[1][0]
            alo, ahi = self.arange(st, a)
            if k > 0:
                alo = max(alo, -(l[0] // k))     # ceil(-c/k)
            else:
                ahi = min(ahi, l[0] // (-k))
            if alo > ahi:
                return False
            ch = True
            while ch:
                ch = False
                if (-alo, ((a, 1),)) in st.neqs or (alo, ((a, -1),)) in st.neqs:
                    alo += 1
                    ch = True
                if (-ahi, ((a, 1),)) in st.neqs or (ahi, ((a, -1),)) in st.neqs:
                    ahi -= 1
                    ch = True
                if alo > ahi:
                    return False
            st.b[a] = (alo, ahi)
            cons = self.component(st, (a,))
            if len(cons) > 2 and L.infeasible(cons):
                return False
            self._tighten(st, a)
            if a in self.chars and not self.char_known(st, a):
                return False
            return True
        if l in st.ineqs:
            return True
        cons = self.component(st, L.atoms(l))
        if L.infeasible(cons + [l]):
            return False
        st.ineqs = st.ineqs | {l}
        if self.marks and not self.reducing:
            self.reducing = True
            f = self.reduce_ge(st, l)
            self.reducing = False
            if f is not None and not self.add_ge(st, f):
                return False
        # cheap propagation to bounds
        for a, k in l[1]:
            r0 = self.arange(st, a)
            olo, ohi = self.range(st, (l[0], tuple(x for x in l[1] if x[0] != a)))
            if k > 0 and ohi < (1 << 70):
                n = -(ohi // k)
                if n > r0[0]:
                    st.b[a] = (n, r0[1])
            elif k < 0 and ohi < (1 << 70):
                n = ohi // (-k)
                if n < r0[1]:
                    st.b[a] = (r0[0], n)
            r1 = self.arange(st, a)
            if r1[0] > r1[1]:
                return False
        return True

    def char_known(self, st, a):
        """A byte of a terminated string is zero only at the terminator.  False if that contradicts st."""
        o, off, ver, wver = self.chars[a]
        e = self.akey.get(("strlen", o, L.ZERO, ver, wver))
        if e is None:
            return True
        lo, hi = self.arange(st, a)
        d = L.sub(L.atom(e), off)
        if lo == 0 == hi:
            if self.cmp_log is not None:
                self.cmp_log.append(("ge", d))
            # not before the end, as every byte there is non-zero
            return self.add_ge(st, L.neg(d)) if self.entails(st, off) else True
        if lo > 0 or hi < 0 or (0, ((a, 1),)) in st.neqs:
            if self.cmp_log is not None:
                self.cmp_log.append(("ge", d))
            if self.entails(st, off) and self.entails(st, d):
                return self.add_ge(st, L.addc(d, -1))
        return True

    def _tighten(self, st, a, depth=0):
        """Bounds of other atoms that follow from a's new bounds."""
        for c in st.ineqs:
            if len(c[1]) > 3 or not any(x == a for x, _ in c[1]):
                continue
            for x, k in c[1]:
                if x == a:
                    continue
                r0 = self.arange(st, x)
                ohi = self.range(st, (c[0], tuple(y for y in c[1] if y[0] != x)))[1]
                n = r0
                if k > 0 and -(ohi // k) > r0[0]:
                    n = (-(ohi // k), r0[1])
                elif k < 0 and ohi // (-k) < r0[1]:
                    n = (r0[0], ohi // (-k))
                if n != r0 and n[0] <= n[1]:
                    st.b[x] = n
                    if depth < 2:
                        self._tighten(st, x, depth + 1)

    def add_eq(self, st, l):
        l = self.simp(st, l)
        if not l[1]:
            return l[0] == 0
        if l in st.neqs or L.neg(l) in st.neqs:
            return False
        n = L.norm(l)
        if n[1] != l[1]:
            g = l[1][0][1] // n[1][0][1]
            if l[0] % g:
                return False
        return self.add_ge(st, l) and self.add_ge(st, L.neg(l))

    def add_ne(self, st, l):
        l = self.simp(st, l)
        if not l[1]:
            return l[0] != 0
        if l[1][0][1] < 0:
            l = L.neg(l)
        lo, hi = self.range(st, l)
        if lo > 0 or hi < 0:
            return True
        st.neqs = st.neqs | {l}
        if len(l[1]) == 1 and abs(l[1][0][1]) == 1:
            a, k = l[1][0]
            v = -l[0] * k
            alo, ahi = self.arange(st, a)
            if alo == v:
                return self.add_ge(st, (-(v + 1), ((a, 1),)))
            if ahi == v:
                return self.add_ge(st, (v - 1, ((a, -1),)))
            if v == 0 and a in self.chars:
                return self.char_known(st, a)
            return True
        if self.entails(st, l):          # l >= 0 and l != 0
            return self.add_ge(st, L.addc(l, -1))
        if self.entails(st, L.neg(l)):
            return self.add_ge(st, L.addc(L.neg(l), -1))
        return True

    # --- windows
    def window(self, st, v, lo, hi, tag):
        """A form equal to v's value in [lo, hi) (a window of size 2^w)."""
        w, l = v[1], self.simp(st, v[2])
        M = 1 << w
        a, b = self.range(st, l)
        if self.marks and not (a >= lo and b < hi) and any(x in self.mono for x, _ in l[1]) and \
                self.entails(st, L.addc(l, -lo)) and self.entails(st, L.addc(L.neg(l), hi - 1)):
            return l
        if a >= lo and b < hi:
            return l
        k = (a - lo) // M
        if (b - lo) // M == k:
            return L.addc(l, -k * M)
        # reduce coefficients modulo M
        red = []
        c = (l[0] - lo) % M + lo
        for x, kk in l[1]:
            r = kk % M
            if r > M // 2:
                r -= M
            if r:
                red.append((x, r))
        l2 = (c, tuple(red))
        a, b = self.range(st, l2)
        if a >= lo and b < hi:
            return l2
        k = (a - lo) // M
        if (b - lo) // M == k:
            return L.addc(l2, -k * M)
        # relational facts may keep it inside
        for cand in (l, l2, L.addc(l2, -M), L.addc(l2, M)):
            if self.entails(st, L.addc(cand, -lo)) and self.entails(st, L.addc(L.neg(cand), hi - 1)):
                return cand
        if lo == 0:
            # a sign-extended number: negative exactly when its wrapping term is there
            for x, kk in l2[1]:
                if x in self.quot and -M <= kk < 0 and self.arange(st, x) == (0, 1):
                    a1, b1 = self.range(st, L.sub(l2, L.atom(x, kk)))
                    if a1 >= 0 and b1 < -kk:
                        return L.add(l2, L.atom(x, M))
        q = self.mk_atom("q%d" % len(self.alo), (a - lo) // M, (b - lo) // M, ("q", w, lo, l2))
        self.quot.add(q)
        r = L.add(l2, L.atom(q, -M))
        st.ineqs = st.ineqs | {L.addc(r, -lo), L.addc(L.neg(r), hi - 1)}
        return r

    def u(self, st, v):
        if v[0] == "I":
            if self.bitwise:
                b = self.bitvec(st, v[2], v[1])
                l = self.rebits(st, b) if b is not None else None
                if l is not None:
                    return l
            return self.window(st, v, 0, 1 << v[1], "u")
        return self.lin_of(st, v)

    def s(self, st, v):
        if v[0] == "I":
            return self.window(st, v, -(1 << (v[1] - 1)), 1 << (v[1] - 1), "s")
        return self.lin_of(st, v)

    def lin_of(self, st, v):
        k = v[0]
        if k == "I":
            return v[2]
        if k == "B":
            return self.b2l(v[1])
        if k == "P":
            if v[1] == NULL:
                return v[2]
            return L.add(L.atom(self.addr_atom(v[1])), v[2])
        if k == "U":
            w = v[1] or 64
            a = self.mk_atom("undef", 0, (1 << w) - 1, ("undef", v))
            self.aundef.add(a)
            return L.atom(a)
        if k == "F":
            return L.atom(self.mk_atom("&" + v[1], 1, 1 << 62, ("faddr", v)))
        a = self.mk_atom("opq", 0, (1 << 64) - 1, ("opq", v))
        return L.atom(a)

    def const_of(self, st, v):
        if v[0] == "I":
            l = self.simp(st, v[2])
            if not l[1]:
                return l[0] % (1 << v[1])
            lo, hi = self.range(st, l)
            if lo == hi:
                return lo % (1 << v[1])
        elif v[0] == "B" and isinstance(v[1], bool):
            return int(v[1])
        return None

    # ---------------------------------------------------------- conditions
    def neg(self, c):
        if isinstance(c, bool):
            return not c
        k = c[0]
        if k == "ge":
            return ("ge", L.addc(L.neg(c[1]), -1))
        if k == "eq":
            return ("ne", c[1])
        if k == "ne":
            return ("eq", c[1])
        if k == "nul":
            return ("nnul", c[1])
        if k == "nnul":
            return ("nul", c[1])
        if k == "and":
            return ("or", self.neg(c[1]), self.neg(c[2]))
        if k == "or":
            return ("and", self.neg(c[1]), self.neg(c[2]))
        raise AssertionError(c)

    def mk(self, kind, l):
        """kind in ge/eq/ne on l ? 0, folding constants and boolean atoms."""
        if not l[1]:
            return l[0] >= 0 if kind == "ge" else (l[0] == 0) == (kind == "eq")
        if len(l[1]) == 1:
            a, k = l[1][0]
            lo, hi = self.alo[a], self.ahi[a]
            c = self.acond.get(a)
            if lo == 0 and hi == 1:
                def ev(x):
                    v = l[0] + k * x
                    return v >= 0 if kind == "ge" else (v == 0) == (kind == "eq")
                v0, v1 = ev(0), ev(1)
                if v0 == v1:
                    return v0
                base = c if c is not None else ("ne", L.atom(a))
                return base if v1 else self.neg(base)
        return (kind, l)

    def b2l(self, c):
        if isinstance(c, bool):
            return L.const(int(c))
        if c[0] in ("ne", "eq") and len(c[1][1]) == 1 and c[1][0] == 0:
            a, k = c[1][1][0]
            if self.alo[a] == 0 and self.ahi[a] == 1 and k == 1:
                return L.atom(a) if c[0] == "ne" else (1, ((a, -1),))
        a = self.mk_atom("bool", 0, 1, ("bool", c))
        self.acond[a] = c
        return L.atom(a)

    def cond_of(self, st, v):
        if v[0] == "B":
            return v[1]
        if v[0] == "I":
            l = self.u(st, v) if v[1] > 1 else self.simp(st, v[2])
            return self.mk("ne", l)
        return self.mk("ne", self.lin_of(st, v))

    def nullness(self, st, o):
        if o == NULL:
            return False
        if o in st.nn:
            return st.nn[o]
        k = self.objs[o].kind
        if k in ("alloca", "global", "func"):
            return True
        return None

    def assume(self, st, c):
        """States refining st by c (possibly none).  Consumes st."""
        if c is True:
            return [st]
        if c is False:
            return []
        k = c[0]
        if k == "ge":
            return [st] if self.add_ge(st, c[1]) else []
        if k == "eq":
            return [st] if self.add_eq(st, c[1]) else []
        if k == "ne":
            return [st] if self.add_ne(st, c[1]) else []
        if k in ("nul", "nnul"):
            n = self.nullness(st, c[1])
            want = (k == "nnul")
            if n is None:
                st.nn[c[1]] = want
                if not want and self.objs[c[1]].kind == "heap":
                    st.heap[c[1]] = "null"
                return [st]
            return [st] if n == want else []
        if k == "and":
            out = []
            for s in self.assume(st, c[1]):
                out += self.assume(s, c[2])
            return out
        if k == "or":
            out = []
            s2 = st.copy()
            out += self.assume(st, c[1])
            for s in self.assume(s2, self.neg(c[1])):
                out += self.assume(s, c[2])
            return out
        raise AssertionError(c)

    def decide(self, st, c):
        """True/False when the state decides c, else None."""
        if isinstance(c, bool):
            return c
        t = self.assume(st.copy(), c)
        f = self.assume(st.copy(), self.neg(c))
        if t and not f:
            return True
        if f and not t:
            return False
        return None

    # -------------------------------------------------------------- memory
    def om(self, st, o):
        m = st.mem.get(o)
        if m is None:
            m = OM()
            st.mem[o] = m
        return m

    def ditype_at(self, ditype, off):
        """(field path, type) of the member of struct `ditype` at byte `off`."""
        if not ditype:
            return None
        s = self.p.structs.get(ditype)
        if not s:
            return None
        for f in s["fields"]:
            if f["off"] <= off < f["off"] + max(f["size"], 1):
                rel = off - f["off"]
                for tn in (f["type"], f["under"]):
                    if tn in self.p.structs:
                        sub = self.ditype_at(tn, rel)
                        if sub:
                            return (f["name"] + "." + sub[0], sub[1])
                return (f["name"], f["type"])
        return None

    def field_name(self, ptr):
        o = self.objs[ptr[1]]
        l = ptr[2]
        if not l[1]:
            f = self.ditype_at(o.ditype, l[0])
            if f:
                return "%s->%s" % (o.name, f[0])
        return "%s[%s]" % (o.name, self.show(l))

    def fname(self, ptr):
        """Field path inside the object (e.g. 'queue.head'), or None."""
        l = ptr[2]
        if l[1]:
            return None
        f = self.ditype_at(self.objs[ptr[1]].ditype, l[0])
        return f[0] if f else None

    def initial(self, st, fr, ins, o, off, size, t):
        ob = self.objs[o]
        w = width(t)
        if ob.init == "zero" and self.om(st, o).ver == 0:
            if t == "ptr":
                return ("P", NULL, L.ZERO)
            if w:
                return ("I", w, L.ZERO)
            return ("D", ("zero",))
        if ob.init == "undef" and self.om(st, o).ver == 0:
            if t == "ptr":
                return ("U", 64, (o, off, size))
            return ("U", w, (o, off, size)) if w else ("D", ("undef", o, off))
        if ob.kind == "global" and ob.init == "const":
            v = self.const_load(st, ob, off, size, t)
            if v is not None:
                return v
        m = self.om(st, o)
        key = ("ld", o, off, size, m.ver if not off[1] else m.wver)
        if t == "ptr":
            nm = None
            dt = None
            if not off[1]:
                f = self.ditype_at(ob.ditype, off[0])
                if f:
                    nm = "%s->%s" % (ob.name, f[0])
                    if f[1].endswith("*"):
                        dt = f[1][:-1]
            if nm is None:
                nm = "%s[%s]" % (ob.name, self.show(off))
                if ob.ditype and ob.ditype.endswith("*"):
                    dt = ob.ditype[:-1]
            return ("P", self.new_obj("sym", nm, None, dt, "sym", key), L.ZERO)
        if w:
            if w == 1:
                a = self.mk_atom(self.field_name(("P", o, off)), 0, 1, key)
                return ("B", ("ne", L.atom(a)))
            f = self.ditype_at(ob.ditype, off[0]) if not off[1] else None
            hi = (1 << w) - 1
            if f and f[1] in ("_Bool", "bool"):
                hi = 1
            a = self.mk_atom(self.field_name(("P", o, off)), 0, hi, key)
            if w == 8:
                self.chars[a] = (o, off, m.ver, m.wver)
            return ("I", w, L.atom(a))
        return ("D", key)

    def const_load(self, st, ob, off, size, t):
        g = ob.extra
        if "bytes" not in g:
            return None
        data = g.get("_data")
        if data is None:
            data = g["_data"] = bytes.fromhex(g["bytes"])
            g["_rel"] = {r["off"]: r["v"] for r in g["relocs"]}
        w = width(t)
        if not off[1]:
            o = off[0]
            if t == "ptr":
                r = g["_rel"].get(o)
                if r is not None:
                    return self.operand(None, g["mod"], r)
                return ("P", NULL, L.ZERO)
            if w and 0 <= o and o + size <= len(data):
                return ("I", w, L.const(int.from_bytes(data[o:o + size], "little")))
            return None
        if w and w > 1:
            lo, hi = self.range(st, off)
            lo, hi = max(lo, 0), min(hi, len(data) - size)
            if lo <= hi and hi - lo <= 4096:
                c = off[0]
                step = 0
                for a, k in off[1]:
                    from math import gcd
                    step = gcd(step, k)
                vals = []
                x = lo + ((c - lo) % step)
                while x <= hi:
                    vals.append(int.from_bytes(data[x:x + size], "little"))
                    x += step
                if vals and self.bitwise:
                    r = L.ZERO
                    for k in range(8 * size):
                        b = {v >> k & 1 for v in vals}
                        if len(b) > 1:
                            a = self.mk_atom("%s[..].%d" % (ob.name, k), 0, 1, ("tblbit", ob.id, off, size, k))
                            self.tblbits[a] = (data, off, size, k)
                            r = L.add(r, L.atom(a, 1 << k))
                        elif 1 in b:
                            r = L.addc(r, 1 << k)
                    return ("I", w, r)
                if vals:
                    a = self.mk_atom("%s[..]" % ob.name, min(vals), max(vals), ("tbl", ob.id, off, size, min(vals), max(vals)))
                    return ("I", w, L.atom(a))
        return None

    def overlap(self, st, o1, s1, o2, s2):
        """'no' / 'same' / 'maybe' for ranges [o1,o1+s1) and [o2,o2+s2)."""
        d = L.sub(o2, o1)
        if not d[1]:
            if d[0] == 0 and s1 == s2:
                return "same"
            if d[0] >= s1 or d[0] <= -s2:
                return "no"
            return "maybe"
        if self.disjoint(st, d, L.const(s1), L.const(s2)):
            return "no"
        if s1 == s2 and self.entails_eq(st, d):
            return "same"
        return "maybe"

    def disjoint(self, st, d, n1, n2):
        """Ranges of n1 bytes at p and n2 bytes at p + d do not meet."""
        if self.entails(st, L.sub(d, n1)) or self.entails(st, L.neg(L.add(d, n2))):
            return True
        if self.marks:
            for s, f, g in self.factors(d):
                # different slots of size s
                if self.entails(st, L.sub(L.add(s, g), n1)) and self.entails(st, L.sub(L.sub(s, g), n2)) and \
                        self.nonzero(st, f):
                    return True
        return False

    def load(self, st, fr, ins, ptr, size, t):
        o, off = ptr[1], self.simp(st, ptr[2])
        m = self.om(st, o)
        v = m.cells.get((off, size))
        if v is not None:
            return self.retype(st, v, t, size)
        part = False
        if m.cells:
            for (co, cs), cv in m.cells.items():
                r = self.overlap(st, off, size, co, cs)
                if r == "same":
                    return self.retype(st, cv, t, size)
                if r == "maybe":
                    part = True
                    d = L.sub(off, co)
                    if not d[1] and d[0] >= 0 and d[0] + size <= cs and cv[0] == "I" and width(t):
                        # byte extraction from a wider cell
                        c = self.const_of(st, cv)
                        if c is not None:
                            return ("I", width(t), L.const((c >> (8 * d[0])) & ((1 << (8 * size)) - 1)))
        w = width(t)
        if self.bytewise and w and (part or size > 1 and o in self.bytewise):
            v = self.compose(st, fr, ins, o, off, size)
            if v is not None:
                return ("I", w, v)
        if part:
            key = ("mix", o, off, size, m.ver, m.wver)
            if t == "ptr":
                return ("P", self.new_obj("sym", "mix", None, None, "sym", key), L.ZERO)
            if w:
                return ("I", w, L.atom(self.mk_atom("mix:" + self.field_name(ptr), 0, (1 << w) - 1, key)))
            return ("D", key)
        v = self.initial(st, fr, ins, o, off, size, t)
        return v

    def compose(self, st, fr, ins, o, off, size):
        """Little-endian number made of the bytes at off, or None when one of them is not known."""
        m = self.om(st, o)
        r = L.ZERO
        for i in range(size):
            at = L.addc(off, i)
            b = None
            for (co, cs), cv in m.cells.items():
                if self.overlap(st, at, 1, co, cs) == "no":
                    continue
                d = L.sub(at, co)
                if d[1] or cv[0] not in ("I", "B", "D"):
                    return None
                if cv[0] == "D":
                    cv = self.retype(st, cv, "i%d" % (8 * cs), cs)
                bs = self.field_bytes(st, self.u(st, cv), cs)
                b = bs[d[0]]
            if b is None:
                b = self.lin_of(st, self.initial(st, fr, ins, o, at, 1, "i8"))
            r = L.add(r, L.scale(b, 1 << 8 * i))
        return r

    def field_bytes(self, st, l, n):
        """The n bytes of an unsigned form below 256^n, lowest first."""
        l = self.simp(st, l)
        out = [L.const(l[0] >> 8 * k & 255) for k in range(n)]
        ps = self.parts(st, l)
        if ps is None or any(bits >> 8 * ((c.bit_length() - 1) // 8) > 255 and (c.bit_length() - 1) % 8 for c, _, bits in ps):
            return self.byte_atoms(st, l, n)
        for c, a, bits in ps:
            k = (c.bit_length() - 1) // 8
            if bits >> 8 * k <= 255:
                out[k] = L.add(out[k], L.atom(a, c >> 8 * k))
            else:
                for i, b in enumerate(self.byte_atoms(st, L.atom(a), ((bits >> 8 * k).bit_length() + 7) // 8)):
                    out[k + i] = L.add(out[k + i], b)
        return out

    def byte_atoms(self, st, l, n):
        """Names for the bytes of a form, tied to it by an equation."""
        out = [L.atom(self.opatom(("byte", l, k), 0, 255, "byte%d(%s)" % (k, self.show(l)))) for k in range(n)]
        d = L.neg(l)
        for k, b in enumerate(out):
            d = L.add(d, L.scale(b, 1 << 8 * k))
        if not self.entails_eq(st, d):
            self.add_eq(st, d)
        return out

    def retype(self, st, v, t, size):
        w = width(t)
        if t == "ptr":
            if v[0] in ("P", "F", "U"):
                return v
            if v[0] == "I":
                return self.to_ptr(st, v)
            key = ("cast", v)
            return ("P", self.new_obj("sym", "cast", None, None, "sym", key), L.ZERO)
        if w:
            if v[0] == "I":
                return v if v[1] == w else ("I", w, v[2])
            if v[0] == "B":
                return v if w == 1 else ("I", w, self.b2l(v[1]))
            if v[0] == "P":
                return ("I", w, self.lin_of(st, v))
            if v[0] == "U":
                return ("U", w, v[2])
            if v[0] == "D" and v[1][0] == "as" and v[1][1][0] == "I" and v[1][1][1] == w:
                return v[1][1]
            return ("I", w, L.atom(self.mk_atom("bits", 0, (1 << w) - 1, ("bits", v, w))))
        if v[0] == "D":
            return v
        return ("D", ("as", v))

    def to_ptr(self, st, v):
        l = self.simp(st, v[2]) if v[0] == "I" else self.lin_of(st, v)
        if not l[1]:
            return ("P", NULL, l)
        ad = [(a, k) for a, k in l[1] if a in self.addr_of]
        if len(ad) == 1 and ad[0][1] == 1:
            a = ad[0][0]
            return ("P", self.addr_of[a], (l[0], tuple(x for x in l[1] if x[0] != a)))
        key = ("i2p", l)
        return ("P", self.new_obj("sym", "(ptr)" + self.show(l), None, None, "sym", key), L.ZERO)

    def store(self, st, ptr, size, v):
        o, off = ptr[1], self.simp(st, ptr[2])
        if self.write_log is not None:
            self.write_log.append((o, off, size))
        m = self.om(st, o).copy()
        self.serial += 1
        m.wver = self.serial
        if m.cells:
            dead = []
            for (co, cs), cv in m.cells.items():
                if (co, cs) == (off, size):
                    continue
                if self.overlap(st, off, size, co, cs) != "no":
                    dead.append((co, cs))
            for co, cs in dead:
                cv = m.cells.pop((co, cs))
                d = L.sub(off, co)
                if self.bytewise and not d[1] and cv[0] == "I":
                    for i, b in enumerate(self.field_bytes(st, self.u(st, cv), cs)):
                        if not d[0] <= i < d[0] + size:
                            m.cells[(L.addc(co, i), 1)] = ("I", 8, b)
        if off[1]:
            # a write at an unknown place: unseen initial contents may change
            m.ver = self.serial
        m.cells[(off, size)] = v
        st.mem[o] = m

    def havoc(self, st, o, off=None, size=None):
        """Forget contents (of a range when given)."""
        if o == NULL:
            return
        if self.write_log is not None:
            self.write_log.append((o, off, size))
        m = self.om(st, o).copy()
        self.serial += 1
        m.wver = m.ver = self.serial
        if off is None:
            m.cells = {}
        else:
            n = {}
            for (co, cs), cv in m.cells.items():
                d = L.sub(co, off)   # cell start relative to range
                if size is not None and self.disjoint(st, d, size if not isinstance(size, int) else L.const(size), L.const(cs)):
                    n[(co, cs)] = cv
                elif size is None and self.entails(st, L.addc(L.neg(d), -cs)):
                    n[(co, cs)] = cv
            # keep untouched initial cells of const offsets before the range
            m.cells = n
        st.mem[o] = m

    def havoc_reach(self, st, vals, depth=2):
        seen = set()
        todo = [v[1] for v in vals if v[0] == "P"]
        while todo:
            o = todo.pop()
            if o in seen or o == NULL:
                continue
            seen.add(o)
            if self.objs[o].kind == "global" and self.objs[o].init == "const":
                continue
            m = st.mem.get(o)
            if m:
                for cv in m.cells.values():
                    if cv[0] == "P":
                        todo.append(cv[1])
            self.havoc(st, o)

    # ------------------------------------------------------------ operands
    def global_obj(self, mod, name):
        g = self.p.glob(mod, name)
        if g is None:
            return self.new_obj("global", name, None, None, "sym", ("g", name))
        key = ("g", g["mod"] if g["internal"] else -1, name)
        return self.new_obj("global", name, L.const(g["size"]) if not g["decl"] else None,
                            g.get("ditype"), "const" if g["const"] and "bytes" in g else "sym", key, g)

    def operand(self, env, mod, o):
        k = o[0]
        if k == "i":
            return env[o[1]]
        if k == "a":
            return env[("a", o[1])]
        if k == "c":
            w = o[1]
            v = int(o[2])
            if w == 1:
                return ("B", bool(v))
            return ("I", w, L.const(v))
        if k == "n":
            return ("P", NULL, L.ZERO)
        if k == "g":
            return ("P", self.global_obj(mod, o[1]), L.const(o[2]))
        if k == "f":
            return ("F", o[1], mod)
        if k == "u":
            w = width(o[1])
            return ("U", w if o[1] != "ptr" else 64, ("undef", o[1]))
        if k == "d":
            return ("D", ("c", o[2]))
        if k == "p":
            return ("P", NULL, L.const(int(o[1])))
        if k == "pi":
            v = self.operand(env, mod, o[1])
            return ("I", 64, self.lin_of(None, v))
        if k == "z":
            return ("Z", o[1])
        return ("D", tuple(str(x) for x in o))

    def as_ptr(self, st, v):
        if v[0] == "P":
            return v
        if v[0] == "I":
            return self.to_ptr(st, v)
        if v[0] == "U":
            return ("P", self.new_obj("sym", "uninit", None, None, "sym", ("uptr", v)), L.ZERO)
        if v[0] == "F":
            return ("P", self.new_obj("func", v[1], None, None, "sym", ("fobj", v[1])), L.ZERO)
        return ("P", self.new_obj("sym", "opq", None, None, "sym", ("optr", v)), L.ZERO)

    # --------------------------------------------------------------- loops
    def fninfo(self, fn):
        inf = fn._cache.get("info")
        if inf:
            return inf
        succ = {}
        byid = {}
        for b in fn.blocks:
            byid[b["id"]] = b
            t = b["i"][-1]
            if t["op"] == "br":
                s = t["succ"]
            elif t["op"] == "switch":
                s = [c[1] for c in t["cases"]] + [t["def"]]
            else:
                s = []
            succ[b["id"]] = list(dict.fromkeys(s))
        order, seen = [], set()
        entry = fn.blocks[0]["id"]
        stack = [(entry, iter(succ[entry]))]
        seen.add(entry)
        while stack:
            n, itr = stack[-1]
            for s in itr:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in byid}
        for b in order:
            for s in succ[b]:
                preds[s].append(b)
        # natural loops by header
        heads = {b["id"] for b in fn.blocks if b.get("head")}
        loops = {}
        for h in heads:
            body = {h}
            todo = [p for p in preds[h] if rpo.get(p, -1) >= rpo[h]]
            while todo:
                x = todo.pop()
                if x in body:
                    continue
                body.add(x)
                todo += preds[x]
            loops[h] = body
        # liveness of SSA values
        use, defs = {}, {}
        phiuse = {}
        for b in fn.blocks:
            u, d = set(), set()
            for ins in b["i"]:
                if ins["op"] == "phi":
                    d.add(ins["id"])
                    for pb, v in ins["in"]:
                        if v[0] == "i":
                            phiuse.setdefault((pb, b["id"]), set()).add(v[1])
                    continue
                for o in self._uses(ins):
                    if o not in d:
                        u.add(o)
                d.add(ins["id"])
            use[b["id"]], defs[b["id"]] = u, d
        livein = {b: set() for b in byid}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set()
                for s in succ[b]:
                    out |= livein[s]
                    out |= phiuse.get((b, s), set())
                n = use[b] | (out - defs[b])
                if n != livein[b]:
                    livein[b] = n
                    ch = True
        for b in fn.blocks:
            for ins in b["i"]:
                if ins["op"] == "phi":
                    livein[b["id"]] = livein[b["id"]] | {ins["id"]}
        inf = dict(byid=byid, succ=succ, rpo=rpo, preds=preds, loops=loops, livein=livein, entry=entry)
        fn._cache["info"] = inf
        return inf

    @staticmethod
    def _uses(ins):
        out = []

        def walk(o):
            if isinstance(o, list) and o:
                if o[0] == "i" and len(o) == 2:
                    out.append(o[1])
                elif o[0] == "pi":
                    walk(o[1])
        for o in ins["o"]:
            walk(o)
        if "callee" in ins:
            walk(ins["callee"])
        if "vars" in ins:
            for v in ins["vars"]:
                walk(v[0])
        return out

    # ------------------------------------------------------------- running
    def call_fn(self, fn, args, st, parent=None, ins=None):
        """Analyse fn on args from st; list of (state, return value)."""
        ctx = ((parent.ctx if parent else ()), ins["id"] if ins else -1, fn.name)
        fr = Frame(fn, ctx, parent, ins)
        self.fn_seen[(fn.file, fn.name)] = self.fn_seen.get((fn.file, fn.name), 0) + 1
        inf = self.fninfo(fn)
        env = {}
        for i, v in enumerate(args):
            env[("a", i)] = v
        self.stats["calls"] += 1
        backs, exits, rets = self.exec_region(fr, inf, set(inf["byid"]), inf["entry"], [(env, st)], None)
        out = []
        for e, s, rv in rets:
            for o in fr.allocas:
                s.mem.pop(o, None)
            out.append((s, rv))
        return self.merge_rets(out)

    def merge_rets(self, rets):
        if len(rets) < 2:
            return rets
        groups = {}
        for s, rv in rets:
            groups.setdefault((rv, self.skey(s)), []).append(s)
        if self.keep and len(rets) <= self.keep:
            return [(s, rv) for (rv, _), g in groups.items() for _, s in self.distinct([(None, s) for s in g])]
        return [(self.merge(g), rv) for (rv, _), g in groups.items()]

    def skey(self, s):
        return (frozenset((o, m.key()) for o, m in s.mem.items() if m.cells or m.ver),
                frozenset(s.heap.items()), frozenset(s.cl.items()))

    def merge(self, g):
        if len(g) == 1:
            return g[0]
        self.stats["joins"] += 1
        r = g[0]
        for s in g[1:]:
            r = self.merge2(r, s)
        return r

    def merge2(self, a, b):
        s = a.copy()
        nb = {}
        for x, (lo, hi) in a.b.items():
            l2, h2 = self.arange(b, x)
            n = (min(lo, l2), max(hi, h2))
            if n != (self.alo[x], self.ahi[x]):
                nb[x] = n
        neqs = a.neqs & b.neqs
        if self.marks and a.neqs != b.neqs:
            neqs |= {c for c in a.neqs - b.neqs if self.nonzero(b, c)} | {c for c in b.neqs - a.neqs if self.nonzero(a, c)}
        if a.neqs != b.neqs or a.b != b.b:
            neqs = self.union_values(a, b, nb, neqs)
        keep = set()
        for c in a.ineqs:
            if c in b.ineqs or self.entails(b, c):
                keep.add(c)
        for c in b.ineqs:
            if c not in keep and self.entails(a, c):
                keep.add(c)
        # a bound of one side that the other expresses relationally
        s.b = nb
        s.ineqs = frozenset(keep)
        s.neqs = neqs
        s.nn = {o: v for o, v in a.nn.items() if b.nn.get(o) == v}
        return s

    def excluded(self, st):
        out = {}
        for c in st.neqs:
            if len(c[1]) == 1 and abs(c[1][0][1]) == 1:
                x, k = c[1][0]
                out.setdefault(x, set()).add(-c[0] * k)
        return out

    def union_values(self, a, b, nb, neqs):
        """Byte-sized unknowns keep the exact set of values either side allows."""
        ea, eb = self.excluded(a), self.excluded(b)
        add = []
        for x in set(a.b) & set(b.b) | set(ea) | set(eb):
            ra, rb = self.arange(a, x), self.arange(b, x)
            lo, hi = min(ra[0], rb[0]), max(ra[1], rb[1])
            if hi - lo > 255 or ra == rb and ea.get(x) == eb.get(x):
                continue
            xa, xb = ea.get(x, ()), eb.get(x, ())
            for v in range(lo, hi + 1):
                if (v < ra[0] or v > ra[1] or v in xa) and (v < rb[0] or v > rb[1] or v in xb):
                    add.append((-v, ((x, 1),)))
        return neqs | frozenset(add) if add else neqs

    def widen_join(self, fr, inf, blk, items):
        """Join items (env, state) with differing values; used past the state cap."""
        live = inf["livein"][blk]
        for level in (0, 1, 2, 3):
            # keep apart what differs in plain constants as long as that is affordable,
            # else at least the zeros and all-ones that mark failure by convention
            groups = {}
            for e, s in items:
                k = (frozenset(s.heap.items()), frozenset(s.cl.items()))
                if level < 3:
                    k += (frozenset((i, e[i] if level < 2 else const_class(e[i]))
                                    for i in live if i in e and plain_const(e[i])),)
                if level < 1:
                    k += (frozenset((o, kk, v) for o, m in s.mem.items() if self.objs[o].kind == "alloca"
                                    for kk, v in m.cells.items() if v[0] == "I" and not v[2][1]),)
                groups.setdefault(k, []).append((e, s))
            if len(groups) <= self.max_states:
                break
        out = []
        for g in groups.values():
            e0, s0 = g[0]
            if len(g) == 1:
                out.append(g[0])
                continue
            # differing values first
            env = dict(e0)
            pend = []
            for k in list(env):
                if isinstance(k, int) and k not in live:
                    del env[k]
                    continue
                vs = [e.get(k) for e, _ in g]
                if any(v != vs[0] for v in vs):
                    env[k] = self.join_vals(fr, vs, [s for _, s in g], pend)
            mem = {}
            allo = set()
            for _, s in g:
                allo |= set(s.mem)
            for o in allo:
                ms = [self.om(s, o) for _, s in g]
                if all(m.key() == ms[0].key() for m in ms):
                    mem[o] = ms[0]
                    continue
                n = OM()
                vers = {m.ver for m in ms}
                self.serial += 1
                n.ver = ms[0].ver if len(vers) == 1 else self.serial
                n.wver = self.serial
                ks = set()
                for m in ms:
                    ks |= set(m.cells)
                for k in ks:
                    vs = []
                    for (e, s), m in zip(g, ms):
                        if k in m.cells:
                            vs.append(m.cells[k])
                        else:
                            vs.append(None)
                    ref = next(v for v in vs if v is not None)
                    t = "ptr" if ref[0] in ("P", "F") else ("i%d" % (8 * k[1]) if ref[0] in ("I", "B", "U") else "double")
                    full = []
                    for v, (e, s) in zip(vs, g):
                        if v is None:
                            v = self.load(s, fr, None, ("P", o, k[0]), k[1], t)
                        full.append(v)
                    if all(v == full[0] for v in full):
                        n.cells[k] = full[0]
                    else:
                        n.cells[k] = self.join_vals(fr, full, [s for _, s in g], pend)
                mem[o] = n
            # constraint hull
            base = self.merge([s.copy() for _, s in g])
            base.mem = mem
            for a, forms in pend:
                los = []
                his = []
                for (e, s), f in zip(g, forms):
                    lo, hi = self.range(s, f)
                    los.append(lo)
                    his.append(hi)
                base.b[a] = (max(min(los), self.alo[a]), min(max(his), self.ahi[a]))
                # relational templates: a - f_i bounds, and existing constraints
                cands = set()
                for i, f in enumerate(forms):
                    cands.add(L.sub(L.atom(a), f))
                    cands.add(L.sub(f, L.atom(a)))
                for (e, s), f in zip(g, forms):
                    if len(f[1]) == 1 and f[1][0][1] == 1:
                        x = f[1][0][0]
                        for c in s.ineqs:
                            if any(y == x for y, _ in c[1]):
                                cands.add(L.subst(c, {x: (-f[0], ((a, 1),))}))
                for c in list(cands)[:60]:
                    if all(self.entails(s, L.subst(c, {a: f})) for (e, s), f in zip(g, forms)):
                        base.ineqs = base.ineqs | {L.norm(c)}
            self.join_pairs(g, base, pend)
            out.append((env, base))
        return out

    def join_pairs(self, g, base, pend):
        """Position plus length within a size, for joined values."""
        occ = set()
        for c in g[0][1].ineqs:
            occ |= set(L.atoms(c))
        sizes = [x for x in occ if x in self.size_atoms()]
        if not sizes or len(pend) < 2:
            return
        for i, (a, fa) in enumerate(pend[:10]):
            for b, fb in pend[i + 1:10]:
                for x in sizes[:6]:
                    c = L.sub(L.sub(L.atom(x), L.atom(a)), L.atom(b))
                    if all(self.entails(s, L.sub(L.sub(L.atom(x), f1), f2)) for (e, s), f1, f2 in zip(g, fa, fb)):
                        base.ineqs = base.ineqs | {L.norm(c)}

    def size_atoms(self):
        """Atoms that are the size of some object."""
        n = getattr(self, "_szn", 0)
        sz = self.__dict__.setdefault("_szs", set())
        for o in self.objs[n:]:
            if o.size is not None and len(o.size[1]) == 1:
                sz.add(o.size[1][0][0])
        self._szn = len(self.objs)
        return sz

    def join_vals(self, fr, vs, sts, pend):
        kinds = {v[0] if v else None for v in vs}
        if kinds <= {"I"} and len({v[1] for v in vs}) == 1:
            w = vs[0][1]
            forms = [self.simp(s, v[2]) for v, s in zip(vs, sts)]
            rs = [self.range(s, f) for f, s in zip(forms, sts)]
            lo, hi = min(r[0] for r in rs), max(r[1] for r in rs)
            self.serial += 1
            if lo < -(1 << (w - 1)) or hi >= (1 << w) or hi - lo >= (1 << w):
                # bring all of them into one window of 2^w values
                sg = any(not f[1] and (f[0] < 0 or f[0] >= 1 << (w - 1)) for f in forms)
                forms = [(self.s if sg else self.u)(s, v) for v, s in zip(vs, sts)]
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            a = self.mk_atom("j%d" % self.serial, lo, hi)
            pend.append((a, forms))
            return ("I", w, L.atom(a))
        if kinds <= {"B"}:
            self.serial += 1
            a = self.mk_atom("jb%d" % self.serial, 0, 1)
            return ("B", ("ne", L.atom(a)))
        if kinds <= {"P"}:
            if len({v[1] for v in vs}) == 1:
                forms = [v[2] for v in vs]
                rs = [self.range(s, f) for f, s in zip(forms, sts)]
                self.serial += 1
                a = self.mk_atom("jp%d" % self.serial, min(r[0] for r in rs), max(r[1] for r in rs))
                pend.append((a, forms))
                return ("P", vs[0][1], L.atom(a))
            self.serial += 1
            return ("P", self.new_obj("sym", "join%d" % self.serial, None, None, "sym"), L.ZERO)
        self.serial += 1
        w = next((v[1] for v in vs if v and v[0] == "I"), None)
        if w:
            return self.fresh_int("join", w)
        if "P" in kinds or "F" in kinds:
            return ("P", self.new_obj("sym", "join%d" % self.serial, None, None, "sym"), L.ZERO)
        return ("D", ("join", self.serial))

    def exec_region(self, fr, inf, region, start, items, head):
        """Run the blocks of `region` from `start`.  Returns (back edge items to
        `head`, exit items [(target, env, st)], returns [(env, st, value)])."""
        pending = {start: list(items)}
        rpo = inf["rpo"]
        backs, exits, rets = [], [], []
        first = True
        while pending:
            blk = min(pending, key=lambda b: rpo[b])
            lst = pending.pop(blk)
            lst = self.merge_items(fr, inf, blk, lst)
            self.stats["max_pending"] = max(self.stats["max_pending"], len(lst))
            if blk in inf["loops"] and not (blk == head and first):
                res = self.run_loop(fr, inf, blk, lst)
                outs, rts = res
                rets += rts
            else:
                outs = []
                for env, st in lst:
                    o, r = self.exec_block(fr, inf, blk, env, st)
                    outs += o
                    rets += r
            first = False
            for tgt, env, st in outs:
                if tgt == head:
                    backs.append((env, st))
                elif tgt in region:
                    pending.setdefault(tgt, []).append((env, st))
                else:
                    exits.append((tgt, env, st))
        return backs, exits, rets

    def merge_items(self, fr, inf, blk, lst):
        if len(lst) < 2:
            return lst
        live = inf["livein"][blk]
        groups = {}
        for env, st in lst:
            k = (frozenset((i, env[i]) for i in live if i in env), self.skey(st))
            groups.setdefault(k, []).append((env, st))
        out = []
        if self.keep and len(groups) < self.keep:
            for g in groups.values():
                out += self.distinct(g)
            if len(out) <= self.keep:
                return out
            out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
            else:
                out.append((g[0][0], self.merge([s for _, s in g])))
        if len(out) > self.max_states:
            out = self.widen_join(fr, inf, blk, out)
        return out

    def distinct(self, g):
        """Drop items whose constraints repeat another item's."""
        seen, out = set(), []
        for e, s in g:
            k = (frozenset(s.b.items()), s.ineqs, s.neqs, frozenset(s.nn.items()))
            if k not in seen:
                seen.add(k)
                out.append((e, s))
        return out

    def exec_block(self, fr, inf, blk, env, st, only_phi=False):
        self.stats["blocks"] += 1
        b = inf["byid"][blk]
        ins = b["i"]
        i = 0
        while ins[i]["op"] == "phi":
            i += 1
        work = [(i, env, st)]
        outs, rets = [], []
        n = len(ins)
        while work:
            i, env, st = work.pop()
            while i < n:
                I = ins[i]
                self.steps += 1
                if self.steps % 2048 == 0 and DEADLINE and time.time() > DEADLINE:
                    raise Budget("out of time in %s" % fr.fn.name)
                if self.steps > self.max_steps:
                    raise Budget("analysis step budget exhausted in %s" % fr.fn.name)
                op = I["op"]
                if op == "call":
                    res = self.do_call(fr, I, env, st)
                    if not res:
                        st = None
                        break
                    for s2, rv in res[1:]:
                        e2 = dict(env)
                        if rv is not None:
                            e2[I["id"]] = rv
                        work.append((i + 1, e2, s2))
                    st, rv = res[0]
                    if len(res) > 1:
                        env = dict(env)
                    if rv is not None:
                        env[I["id"]] = rv
                    i += 1
                    continue
                flag = self.recurse and op in ("zext", "sext") and I["from"] == "i1"
                if op == "select" or flag:
                    c = self.cond_of(st, self.operand(env, fr.fn.mod, I["o"][0]))
                    self.logc(st, c)
                    st2 = st.copy()
                    tr = self.assume(st, c)
                    fl = self.assume(st2, self.neg(c))
                    if flag:
                        w = width(I["t"])
                        br = [(s, ("I", w, L.const(1 if op == "zext" else -1))) for s in tr]
                        br += [(s, ("I", w, L.ZERO)) for s in fl]
                    else:
                        br = [(s, self.operand(env, fr.fn.mod, I["o"][1])) for s in tr]
                        br += [(s, self.operand(env, fr.fn.mod, I["o"][2])) for s in fl]
                    if not br:
                        st = None
                        break
                    for s2, rv in br[1:]:
                        e2 = dict(env)
                        e2[I["id"]] = rv
                        work.append((i + 1, e2, s2))
                    if len(br) > 1:
                        env = dict(env)
                    st, rv = br[0]
                    env[I["id"]] = rv
                    i += 1
                    continue
                if op == "br":
                    if not I["o"]:
                        outs.append(self.edge(fr, inf, blk, I["succ"][0], env, st))
                    else:
                        cv = self.operand(env, fr.fn.mod, I["o"][0])
                        c = self.cond_of(st, cv)
                        self.note_undef(st, fr, I, c)
                        self.logc(st, c)
                        self.client.on_event(self, st, fr, I, "branch", c)
                        if isinstance(c, bool):
                            outs.append(self.edge(fr, inf, blk, I["succ"][0 if c else 1], env, st))
                        else:
                            st2 = st.copy()
                            ts = self.assume(st, c)
                            fs = self.assume(st2, self.neg(c))
                            both = ts and fs
                            for s in ts:
                                if both:
                                    s.trace = (s.trace, fr, I, True)
                                outs.append(self.edge(fr, inf, blk, I["succ"][0], dict(env) if both else env, s))
                            for s in fs:
                                if both:
                                    s.trace = (s.trace, fr, I, False)
                                outs.append(self.edge(fr, inf, blk, I["succ"][1], dict(env), s))
                    break
                if op == "switch":
                    outs += self.do_switch(fr, inf, blk, I, env, st)
                    break
                if op == "ret":
                    rv = self.operand(env, fr.fn.mod, I["o"][0]) if I["o"] else None
                    if rv is not None and rv[0] == "I":
                        rv = ("I", rv[1], self.simp(st, rv[2]))
                    elif rv is not None and rv[0] == "B" and not isinstance(rv[1], bool):
                        d = None
                        if rv[1][0] in ("nul", "nnul"):
                            x = self.nullness(st, rv[1][1])
                            if x is not None:
                                d = x == (rv[1][0] == "nnul")
                        if d is not None:
                            rv = ("B", d)
                    self.client.on_event(self, st, fr, I, "ret", rv)
                    rets.append((env, st, rv))
                    break
                if op == "unreachable":
                    st = None
                    break
                if self.marks and op in ("load", "store"):
                    sts = self.split_access(fr, I, env, st)
                    if not sts:
                        st = None
                        break
                    for s2 in sts[1:]:
                        e2 = dict(env)
                        s2 = self.do_simple(fr, I, e2, s2)
                        if s2 is not None:
                            work.append((i + 1, e2, s2))
                    if len(sts) > 1:
                        env = dict(env)
                    st = sts[0]
                elif op == "cmpxchg" and self.shared:
                    sts = self.split_cas(I, env, st, fr)
                    if not sts:
                        st = None
                        break
                    for s2 in sts[1:]:
                        e2 = dict(env)
                        s2 = self.do_simple(fr, I, e2, s2)
                        if s2 is not None:
                            work.append((i + 1, e2, s2))
                    if len(sts) > 1:
                        env = dict(env)
                    st = sts[0]
                st = self.do_simple(fr, I, env, st)
                if st is None:
                    break
                i += 1
        return outs, rets

    def logc(self, st, c):
        if self.cmp_log is not None and not isinstance(c, bool):
            self.cmp_log.append(c)

    def note_undef(self, st, fr, I, c):
        if self.aundef and not isinstance(c, bool) and c[0] in ("ge", "eq", "ne"):
            for a, _ in c[1][1]:
                if a in self.aundef:
                    self.client.on_event(self, st, fr, I, "undef-branch", a)

    def edge(self, fr, inf, src, dst, env, st):
        b = inf["byid"][dst]
        new = None
        for ins in b["i"]:
            if ins["op"] != "phi":
                break
            for pb, v in ins["in"]:
                if pb == src:
                    if new is None:
                        new = {}
                    new[ins["id"]] = self.operand(env, fr.fn.mod, v)
                    break
        if new:
            env = dict(env)
            env.update(new)
        return (dst, env, st)

    def do_switch(self, fr, inf, blk, I, env, st):
        v = self.operand(env, fr.fn.mod, I["o"][0])
        outs = []
        if v[0] != "I":
            l = self.lin_of(st, v)
        else:
            l = self.u(st, v)
        self.client.on_event(self, st, fr, I, "switch", v)
        cur = st
        w = I["w"]
        tgt = {}
        for c, t in I["cases"]:
            tgt.setdefault(t, []).append(int(c))
        lo, hi = self.range(st, l)
        for t, cs in tgt.items():
            for run in runs(sorted(cs)):
                a, b = run
                if b < lo or a > hi:
                    continue
                s = cur.copy()
                if a == b:
                    ok = self.add_eq(s, L.addc(l, -a))
                    self.logc(st, ("eq", L.addc(l, -a)))
                else:
                    ok = self.add_ge(s, L.addc(l, -a)) and self.add_ge(s, L.addc(L.neg(l), b))
                if ok:
                    s.trace = (s.trace, fr, I, run)
                    outs.append(self.edge(fr, inf, blk, t, dict(env), s))
        s = cur
        ok = True
        allc = sorted(int(c) for c, _ in I["cases"])
        for c in allc:
            ok = self.add_ne(s, L.addc(l, -c))
            if not ok:
                break
        if ok:
            # bound tightening through consecutive excluded values
            lo, hi = self.range(s, l)
            x = lo
            cs = set(allc)
            while x in cs:
                x += 1
            if x > lo:
                ok = self.add_ge(s, L.addc(l, -x))
            y = hi
            while y in cs:
                y -= 1
            if ok and y < hi:
                ok = self.add_ge(s, L.addc(L.neg(l), y))
        if ok:
            s.trace = (s.trace, fr, I, "default")
            outs.append(self.edge(fr, inf, blk, I["def"], dict(env), s))
        return outs

    # ------------------------------------------------------- instructions
    def do_simple(self, fr, I, env, st):
        op = I["op"]
        mod = fr.fn.mod
        O = I["o"]
        g = lambda k: self.operand(env, mod, O[k])
        if op == "load":
            p = self.as_ptr(st, g(0))
            if not self.deref(st, fr, I, p):
                return None
            if self.shared:
                self.meddle(st, p, I["size"])
            v = self.load(st, fr, I, p, I["size"], I["t"])
            self.client.on_access(self, st, fr, I, "load", p, I["size"], v)
            env[I["id"]] = v
            return st
        if op == "store":
            p = self.as_ptr(st, g(1))
            v = g(0)
            if v[0] == "I":
                v = ("I", v[1], self.simp(st, v[2]))
            if not self.deref(st, fr, I, p):
                return None
            self.client.on_access(self, st, fr, I, "store", p, I["size"], v)
            self.store(st, p, I["size"], v)
            return st
        if op == "getelementptr":
            p = self.as_ptr(st, g(0))
            off = L.addc(p[2], I["off"])
            for vv, sc, t in I["vars"]:
                x = self.operand(env, mod, vv)
                off = L.add(off, L.scale(self.s(st, x), sc))
            env[I["id"]] = ("P", p[1], off)
            return st
        if op == "alloca":
            n = self.const_of(st, g(0)) if O else 1
            key = ("al", fr.ctx, I["id"])
            at = I.get("at", "")
            dt = at[7:] if at.startswith("struct.") else None
            if dt and dt not in self.p.structs and dt.rsplit(".", 1)[0] in self.p.structs:
                dt = dt.rsplit(".", 1)[0]
            nm = fr.fn.vars.get(str(I["id"]), ["tmp%d" % I["id"], None])
            if not dt and nm[1] and nm[1] in self.p.structs:
                dt = nm[1]
            if n is not None:
                size = L.const(I["size"] * n)
                o = self.new_obj("alloca", nm[0], size, dt, "undef", key)
            else:
                size = L.scale(self.u(st, g(0)), I["size"])
                self.serial += 1
                o = self.new_obj("alloca", nm[0], size, dt, "undef", key + (self.serial,))
            if o in st.mem:
                del st.mem[o]
            if o not in fr.allocas:
                fr.allocas.append(o)
            env[I["id"]] = ("P", o, L.ZERO)
            return st
        if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem"):
            env[I["id"]] = self.arith(st, fr, I, op, width(I["t"]), g(0), g(1))
            return st
        if op == "icmp":
            env[I["id"]] = ("B", self.icmp(st, I["pred"], I["ot"], g(0), g(1)))
            return st
        if op in ("zext", "sext", "trunc"):
            v = g(0)
            w = width(I["t"])
            wf = width(I["from"])
            if w is None or wf is None:
                env[I["id"]] = ("D", ("vec", op, v))
                return st
            if op == "trunc":
                if w == 1:
                    if v[0] == "B":
                        env[I["id"]] = v
                    else:
                        l = self.u(st, v) if v[0] == "I" else self.lin_of(st, v)
                        env[I["id"]] = ("B", self.mk("ne", l))
                else:
                    env[I["id"]] = ("I", w, self.lin_of(st, v)) if v[0] != "U" else ("U", w, v[2])
            elif op == "zext":
                if v[0] == "U":
                    env[I["id"]] = ("I", w, self.u(st, ("I", wf, self.lin_of(st, v))))
                else:
                    env[I["id"]] = ("I", w, self.u(st, v))
            else:
                if wf == 1:
                    env[I["id"]] = ("I", w, L.neg(self.lin_of(st, v)))
                else:
                    env[I["id"]] = ("I", w, self.s(st, ("I", wf, self.lin_of(st, v))))
            return st
        if op == "ptrtoint":
            env[I["id"]] = ("I", width(I["t"]), self.lin_of(st, g(0)))
            return st
        if op == "inttoptr":
            env[I["id"]] = self.to_ptr(st, g(0))
            return st
        if op in ("bitcast", "freeze", "addrspacecast"):
            v = g(0)
            env[I["id"]] = self.retype(st, v, I["t"], 0)
            return st
        if op == "atomicrmw":
            p = self.as_ptr(st, g(0))
            if not self.deref(st, fr, I, p):
                return None
            w = width(I["t"])
            size = (w or 64) // 8
            if self.shared:
                self.meddle(st, p, size)
            old = self.load(st, fr, I, p, size, I["t"])
            v = g(1)
            if (I["rmw"] in ("add", "sub") or self.shared and I["rmw"] in ("and", "or", "xor")) and w:
                nv = self.arith(st, fr, I, I["rmw"], w, old, v)
            elif I["rmw"] == "xchg":
                nv = v
            else:
                nv = self.fresh_int("rmw", w)
            self.client.on_access(self, st, fr, I, "rmw", p, size, nv)
            self.store(st, p, size, nv)
            env[I["id"]] = old
            return st
        if op == "cmpxchg":
            p = self.as_ptr(st, g(0))
            if not self.deref(st, fr, I, p):
                return None
            done = st.cl.pop("cas", None)
            if done is not None:
                size = g(1)[1] // 8
                old = self.load(st, fr, I, p, size, "i%d" % (8 * size))
                self.client.on_access(self, st, fr, I, "rmw" if done else "load", p, size, g(2) if done else old)
                if done:
                    self.store(st, p, size, g(2))
                env[I["id"]] = ("S", (old, ("B", done)))
                return st
            self.client.on_access(self, st, fr, I, "rmw", p, 8, g(2))
            self.havoc(st, p[1], p[2], L.const(8))
            self.serial += 1
            b = self.mk_atom("cas%d" % self.serial, 0, 1)
            env[I["id"]] = ("S", (self.fresh_int("casold", 64), ("B", ("ne", L.atom(b)))))
            return st
        if op == "extractvalue":
            v = g(0)
            if v[0] == "S" and len(I["idx"]) == 1:
                env[I["id"]] = v[1][I["idx"][0]]
            else:
                env[I["id"]] = self.unknown(I["t"], "xv")
            return st
        if op == "insertvalue":
            v = g(0)
            x = g(1)
            if len(I["idx"]) == 1:
                k = I["idx"][0]
                lst = list(v[1]) if v[0] == "S" else []
                while len(lst) <= k:
                    lst.append(("U", 64, ("iv",)))
                lst[k] = x
                env[I["id"]] = ("S", tuple(lst))
            else:
                env[I["id"]] = ("D", ("iv", self.bump()))
            return st
        if op == "fence":
            self.client.on_event(self, st, fr, I, "fence", I.get("ord"))
            return st
        if op == "fcmp":
            key = ("fcmp", I["pred"], g(0), g(1))
            env[I["id"]] = ("B", ("ne", L.atom(self.mk_atom("fcmp", 0, 1, key))))
            return st
        if op in ("fptosi", "fptoui"):
            w = width(I["t"])
            env[I["id"]] = ("I", w, L.atom(self.mk_atom(op, 0, (1 << w) - 1, (op, w, g(0)))))
            return st
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fpext", "fptrunc", "sitofp", "uitofp"):
            env[I["id"]] = ("D", (op, I["t"]) + tuple(self.operand(env, mod, o) for o in O))
            return st
        if op == "va_arg":
            env[I["id"]] = self.unknown(I["t"], "va")
            return st
        # vectors and the rest: opaque
        if I["t"] != "void":
            env[I["id"]] = self.unknown(I["t"], op)
        return st

    def bump(self):
        self.serial += 1
        return self.serial

    def unknown(self, t, name="unk"):
        w = width(t)
        if t == "ptr":
            return ("P", self.new_obj("sym", "%s%d" % (name, self.bump()), None, None, "sym"), L.ZERO)
        if w == 1:
            return ("B", ("ne", L.atom(self.mk_atom("%s%d" % (name, self.bump()), 0, 1))))
        if w:
            return self.fresh_int(name, w)
        if t == "void":
            return None
        return ("D", (name, self.bump()))

    def deref(self, st, fr, I, p):
        o = p[1]
        n = self.nullness(st, o)
        if n is False or o == NULL:
            self.client.on_null(self, st, fr, I, p, True)
            return False
        if st.heap.get(o) == "freed":
            self.client.on_event(self, st, fr, I, "uaf", p)
        if n is None:
            self.client.on_null(self, st, fr, I, p, False)
            st.nn[o] = True
        return True

    def opatom(self, key, lo, hi, name=None):
        return self.mk_atom(name or key[0], lo, hi, key)

    def arith(self, st, fr, I, op, w, a, b):
        if w is None:
            return ("D", (op, a, b))
        if w == 1:
            ca, cb = self.cond_of(st, a), self.cond_of(st, b)
            if op == "and":
                if ca is False or cb is False:
                    return ("B", False)
                if ca is True:
                    return ("B", cb)
                if cb is True:
                    return ("B", ca)
                return ("B", ("and", ca, cb))
            if op == "or":
                if ca is True or cb is True:
                    return ("B", True)
                if ca is False:
                    return ("B", cb)
                if cb is False:
                    return ("B", ca)
                return ("B", ("or", ca, cb))
            if op == "xor":
                if cb is True:
                    return ("B", self.neg(ca))
                if cb is False:
                    return ("B", ca)
                if ca is True:
                    return ("B", self.neg(cb))
                key = ("xorb", ca, cb)
                return ("B", ("ne", L.atom(self.mk_atom("xorb", 0, 1, key))))
        M = 1 << w
        x, y = self.lin_of(st, a), self.lin_of(st, b)
        x, y = self.simp(st, x), self.simp(st, y)
        A = lambda: self.u(st, ("I", w, x))
        B = lambda: self.u(st, ("I", w, y))
        if self.bitwise and op in ("and", "or", "xor", "shl", "lshr", "ashr"):
            r = self.bit_arith(st, op, w, x, y)
        elif self.bitwise and op in ("udiv", "sdiv", "urem", "srem") and L.is_const(y) and y[0] > 0 and y[0] & (y[0] - 1) == 0:
            r = None
            v = self.bitvec(st, x, w)
            if v is not None and (op[0] == "u" or v[-1] == 0):
                r = self.bit_arith(st, "lshr", w, x, L.const(y[0].bit_length() - 1)) if op[1:] == "div" else \
                    self.bit_arith(st, "and", w, x, L.const(y[0] - 1))
        else:
            r = None
        if self.bitwise:
            if r is not None:
                return ("I", w, r)
        if op in ("add", "sub"):
            r = L.add(x, y) if op == "add" else L.sub(x, y)
            if len(r[1]) > (70 if self.bitwise else 10):
                r = L.atom(self.opatom(("sum", w, r), 0, M - 1))
            return ("I", w, r)
        if op == "mul":
            if L.is_const(y):
                k = y[0] % M
                if k > M // 2:
                    k -= M
                return ("I", w, L.scale(x, k))
            if L.is_const(x):
                k = x[0] % M
                if k > M // 2:
                    k -= M
                return ("I", w, L.scale(y, k))
            if I.get("nsw") and not self.is_unsigned_small(st, x, y):
                xa, ya = self.s(st, ("I", w, x)), self.s(st, ("I", w, y))
            else:
                xa, ya = A(), B()
            return ("I", w, self.product(st, xa, ya))
        if op == "shl":
            if L.is_const(y):
                if self.bytewise and y[0] % 8 == 0 and w % 8 == 0 and y[0] < w and x[1] and \
                        self.range(st, A())[1] << y[0] >= M:
                    r = L.ZERO
                    for k, b_ in enumerate(self.field_bytes(st, A(), w // 8)[:(w - y[0]) // 8]):
                        r = L.add(r, L.scale(b_, 1 << 8 * k + y[0]))
                    return ("I", w, r)
                return ("I", w, L.scale(x, 1 << y[0])) if y[0] < w else ("I", w, L.ZERO)
            return ("I", w, L.atom(self.opatom(("shl", w, A(), B()), 0, M - 1)))
        if op in ("lshr", "udiv"):
            xa = A()
            if self.bytewise and op == "lshr" and L.is_const(y) and not L.is_const(xa):
                if y[0] % 8 == 0 and y[0] < w and w % 8 == 0:
                    bs = self.field_bytes(st, xa, w // 8)
                    r = L.ZERO
                    for k, b_ in enumerate(bs[y[0] // 8:]):
                        r = L.add(r, L.scale(b_, 1 << 8 * k))
                    return ("I", w, r)
            if L.is_const(y) and y[0] > 0:
                k = (1 << y[0]) if op == "lshr" else y[0]
                if k == 1:
                    return ("I", w, xa)
                if L.is_const(xa):
                    return ("I", w, L.const(xa[0] // k))
                if all(c % k == 0 for _, c in xa[1]):
                    return ("I", w, (xa[0] // k, tuple((t, c // k) for t, c in xa[1])))
                lo, hi = self.range(st, xa)
                q = self.opatom(("div", xa, k), 0, (M - 1) // k, "(%s)/%d" % (self.show(xa), k))
                st.b[q] = (max(lo // k, self.arange(st, q)[0]), min(hi // k, self.arange(st, q)[1]))
                st.ineqs = st.ineqs | {L.add(xa, L.atom(q, -k)), L.addc(L.add(L.neg(xa), L.atom(q, k)), k - 1)}
                return ("I", w, L.atom(q))
            if op == "lshr" and L.is_const(y) and y[0] == 0:
                return ("I", w, xa)
            ya = B()
            q = self.opatom(("udivv" if op == "udiv" else "lshrv", w, xa, ya), 0, M - 1)
            st.ineqs = st.ineqs | {L.add(xa, L.atom(q, -1))}
            if op == "udiv" and len(ya[1]) == 1 and self.entails(st, L.addc(ya, -1)):
                hi = self.range(st, xa)[1]
                st.b[q] = (0, min(hi, self.arange(st, q)[1]))
                p = self.product(st, L.atom(q), ya)
                st.ineqs = st.ineqs | {L.sub(xa, p), L.addc(L.add(L.sub(p, xa), ya), -1)}
                if len(p[1]) == 1 and p[1][0][1] > 0 and p[0] == 0:
                    m, k = p[1][0]
                    st.b[m] = (max(0, st.b[m][0]), min(hi // k, st.b[m][1]))
            return ("I", w, L.atom(q))
        if op == "urem":
            xa = A()
            if L.is_const(y) and y[0] > 0:
                return self.mod_const(st, w, xa, y[0])
            ya = self.simp(st, B())
            xa = self.simp(st, xa)
            return ("I", w, self.residue(st, xa, ya, M - 1))
        if op in ("sdiv", "srem"):
            xs = self.s(st, ("I", w, x))
            ys = self.s(st, ("I", w, y))
            lo, hi = self.range(st, xs)
            if L.is_const(ys) and ys[0] > 0 and lo >= 0:
                if op == "srem":
                    return self.mod_const(st, w, xs, ys[0])
                return self.arith(st, fr, I, "udiv", w, ("I", w, xs), ("I", w, ys))
            if L.is_const(xs) and L.is_const(ys) and ys[0]:
                q = abs(xs[0]) // abs(ys[0])
                if (xs[0] < 0) != (ys[0] < 0):
                    q = -q
                return ("I", w, L.const(q if op == "sdiv" else xs[0] - q * ys[0]))
            if L.is_const(ys) and ys[0] > 0:
                k = ys[0]
                if op == "sdiv":
                    qlo = -(-lo // k) if lo < 0 else lo // k
                    qhi = hi // k if hi >= 0 else -(-hi // k)
                    q = self.opatom(("sdiv", xs, k), -(1 << w - 1), (1 << w - 1) - 1)
                    st.b[q] = (qlo, qhi)
                    # k*q - (k-1) <= x <= k*q + (k-1)
                    st.ineqs = st.ineqs | {L.addc(L.add(xs, L.atom(q, -k)), k - 1), L.addc(L.add(L.neg(xs), L.atom(q, k)), k - 1)}
                    return ("I", w, L.atom(q))
                r = self.opatom(("srem", xs, k), -(1 << w - 1), (1 << w - 1) - 1)
                st.b[r] = (max(lo, -(k - 1)) if lo < 0 else 0, min(hi, k - 1) if hi > 0 else 0)
                return ("I", w, L.atom(r))
            return ("I", w, L.atom(self.opatom((op, w, xs, ys), -(1 << w - 1), (1 << w - 1) - 1)))
        if op == "and":
            if L.is_const(x):
                x, y = y, x
            if L.is_const(y):
                m = y[0] % M
                xa = self.u(st, ("I", w, x))
                if L.is_const(xa):
                    return ("I", w, L.const(xa[0] & m))
                if m == 0:
                    return ("I", w, L.ZERO)
                if m == M - 1:
                    return ("I", w, xa)
                ps = self.parts(st, xa) if self.shared or self.bytewise else None
                if ps and all(b & m in (0, b) for _, _, b in ps):
                    return ("I", w, (xa[0] & m, tuple((a_, c) for (a_, c) in xa[1] if (c & m))))
                if self.bytewise and w % 8 == 0 and all(m >> k & 255 in (0, 255) for k in range(0, w, 8)):
                    r = L.ZERO
                    for k, b_ in enumerate(self.field_bytes(st, xa, w // 8)):
                        if m >> 8 * k & 255:
                            r = L.add(r, L.scale(b_, 1 << 8 * k))
                    return ("I", w, r)
                if m & (m + 1) == 0:
                    return self.mod_const(st, w, xa, m + 1)
                inv = (M - 1) ^ m
                if inv & (inv + 1) == 0:     # clears low bits
                    r = self.mod_const(st, w, xa, inv + 1)
                    return ("I", w, L.sub(xa, r[2]))
                lo, hi = self.range(st, xa)
                low = m & -m
                # single contiguous mask hi..lo
                top = m + low
                if top & (top - 1) == 0:
                    # ((x / low) mod (m/low+1)) * low
                    q = self.arith(st, fr, I, "udiv", w, ("I", w, xa), ("I", w, L.const(low)))
                    r = self.mod_const(st, w, self.u(st, q), m // low + 1)
                    return ("I", w, L.scale(self.u(st, r), low))
                a_ = self.opatom(("and", xa, m), 0, m, "(%s)&%#x" % (self.show(xa), m))
                st.b[a_] = (0, min(m, hi)) if a_ not in st.b else st.b[a_]
                st.ineqs = st.ineqs | {L.sub(xa, L.atom(a_))}
                return ("I", w, L.atom(a_))
            xa, ya = A(), B()
            if xa > ya:
                xa, ya = ya, xa
            a_ = self.opatom(("andv", xa, ya), 0, M - 1)
            st.ineqs = st.ineqs | {L.sub(xa, L.atom(a_)), L.sub(ya, L.atom(a_))}
            return ("I", w, L.atom(a_))
        if op == "or":
            if L.is_const(x) and L.is_const(y):
                return ("I", w, L.const((x[0] % M) | (y[0] % M)))
            xa, ya = A(), B()
            if self.shared and L.is_const(ya):
                ps = self.parts(st, xa)
                if ps and all(b & ya[0] in (0, b) for _, _, b in ps):
                    return ("I", w, (xa[0] | ya[0], tuple((a_, c) for (a_, c) in xa[1] if not c & ya[0])))
            if self.bytewise:
                px, py = self.parts(st, xa), self.parts(st, ya)
                if px is not None and py is not None and not self.bits_of(xa, px) & self.bits_of(ya, py):
                    return ("I", w, L.add(xa, ya))
            for p, q in ((xa, ya), (ya, xa)):
                lo, hi = self.range(st, q)
                if lo >= 0 and hi < M:
                    bits = hi.bit_length()
                    if p[0] % (1 << bits) == 0 and all(c % (1 << bits) == 0 for _, c in p[1]) and bits:
                        return ("I", w, L.add(p, q))
                    if hi == 0:
                        return ("I", w, p)
            if xa > ya:
                xa, ya = ya, xa
            (l1, h1), (l2, h2) = self.range(st, xa), self.range(st, ya)
            mx = (1 << max(h1.bit_length(), h2.bit_length())) - 1
            if L.is_const(ya) or L.is_const(xa):
                k, v = (ya[0], xa) if L.is_const(ya) else (xa[0], ya)
                a_ = self.opatom(("orc", v, k), k, M - 1, "(%s)|%#x" % (self.show(v), k))
            else:
                a_ = self.opatom(("or", xa, ya), 0, M - 1)
            r = self.arange(st, a_)
            st.b[a_] = (max(r[0], l1, l2), min(r[1], mx))
            st.ineqs = st.ineqs | {L.sub(L.atom(a_), xa), L.sub(L.atom(a_), ya)}
            return ("I", w, L.atom(a_))
        if op == "xor":
            if L.is_const(y) and y[0] % M == M - 1:
                return ("I", w, L.addc(L.neg(x), -1))
            if L.is_const(x) and L.is_const(y):
                return ("I", w, L.const((x[0] % M) ^ (y[0] % M)))
            xa, ya = A(), B()
            if xa > ya:
                xa, ya = ya, xa
            (l1, h1), (l2, h2) = self.range(st, xa), self.range(st, ya)
            mx = (1 << max(h1.bit_length(), h2.bit_length())) - 1
            for v, k, hi in ((xa, ya, h1), (ya, xa, h2)):
                # the top bit of v is turned around: v + k, less 2k when it was set
                if L.is_const(k) and k[0] > 0 and k[0] & k[0] - 1 == 0 and hi < 2 * k[0] and not L.is_const(v):
                    b = self.opatom(("topbit", v, k[0]), 0, 1)
                    st.ineqs = st.ineqs | {L.add(v, L.atom(b, -k[0])), L.addc(L.sub(L.atom(b, k[0]), v), k[0] - 1)}
                    return ("I", w, L.addc(L.add(v, L.atom(b, -2 * k[0])), k[0]))
            a_ = self.opatom(("xor", w, xa, ya), 0, M - 1)
            r = self.arange(st, a_)
            st.b[a_] = (r[0], min(r[1], mx))
            return ("I", w, L.atom(a_))
        if op == "ashr":
            xs = self.s(st, ("I", w, x))
            if L.is_const(y):
                k = 1 << y[0]
                lo, hi = self.range(st, xs)
                if self.bytewise and lo >= 0:
                    return self.arith(st, fr, I, "lshr", w, ("I", w, xs), b)
                q = self.opatom(("ashr", xs, k), -(1 << w - 1), (1 << w - 1) - 1)
                st.b[q] = (lo // k, hi // k)
                st.ineqs = st.ineqs | {L.add(xs, L.atom(q, -k)), L.addc(L.add(L.neg(xs), L.atom(q, k)), k - 1)}
                return ("I", w, L.atom(q))
            return ("I", w, L.atom(self.opatom(("ashrv", w, xs, B()), -(1 << w - 1), (1 << w - 1) - 1)))
        return self.fresh_int(op, w)

    def monomial(self, st, bases):
        """Atom for a product of base atoms, with the range implied by theirs."""
        m = self.mk_atom("*".join(self.aname[b] for b in bases), -(1 << 200), 1 << 200, ("mono", bases))
        self.mono[m] = bases
        lo, hi = 1, 1
        for b in bases:
            x, y = self.arange(st, b)
            c = (lo * x, lo * y, hi * x, hi * y)
            lo, hi = min(c), max(c)
        r = st.b.get(m)
        if r is not None:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        st.b[m] = (lo, hi)
        return m

    def product(self, st, xa, ya):
        if len(xa[1]) * len(ya[1]) > 12:
            if xa > ya:
                xa, ya = ya, xa
            (l1, h1), (l2, h2) = self.range(st, xa), self.range(st, ya)
            pr = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
            m = self.mk_atom("prod", -(1 << 200), 1 << 200, ("mul", xa, ya))
            st.b[m] = (min(pr), max(pr))
            return L.atom(m)
        r = L.const(xa[0] * ya[0])
        r = L.add(r, L.scale((0, ya[1]), xa[0]))
        r = L.add(r, L.scale((0, xa[1]), ya[0]))
        for a, k in xa[1]:
            for b, j in ya[1]:
                bases = tuple(sorted(self.mono.get(a, (a,)) + self.mono.get(b, (b,))))
                r = L.add(r, L.atom(self.monomial(st, bases), k * j))
        if len(xa[1]) * len(ya[1]) > 1:
            # the factors' ranges bound the whole product
            (l1, h1), (l2, h2) = self.range(st, xa), self.range(st, ya)
            pr = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
            lo, hi = self.range(st, r)
            if min(pr) > lo:
                st.ineqs = st.ineqs | {L.addc(r, -min(pr))}
            if max(pr) < hi:
                st.ineqs = st.ineqs | {L.addc(L.neg(r), max(pr))}
        return r

    def is_unsigned_small(self, st, x, y):
        return self.range(st, x)[0] >= 0 and self.range(st, y)[0] >= 0

    def residue(self, st, x, y, top):
        """x mod y for x >= 0 and an unknown y >= 1; congruent arguments give the same form."""
        c = self.mod_canon(x, y)
        r = self.akey.get(("urem", c, y))
        for f in (x, c):
            if self.entails(st, f) and self.entails(st, L.addc(L.sub(y, f), -1)):
                if r is not None:
                    self.add_eq(st, L.sub(L.atom(r), f))
                return f
        r = self.opatom(("urem", c, y), 0, top, "(%s)%%(%s)" % (self.show(c), self.show(y)))
        self.resid[r] = (c, y)
        new = {L.addc(L.sub(y, L.atom(r)), -1)}
        if self.entails(st, x):
            new.add(L.sub(x, L.atom(r)))
        st.ineqs = st.ineqs | new
        return L.atom(r)

    def mod_canon(self, x, y):
        """A form congruent to x modulo y without residues and multiples of y."""
        for _ in range(8):
            m = {a: self.resid[a][0] for a, _ in x[1] if a in self.resid and self.resid[a][1] == y}
            if not m:
                break
            x = L.subst(x, m)
        if y[0] == 0 and len(y[1]) == 1:
            a, k = y[1][0]
            for b, c in x[1]:
                if b == a:
                    x = L.add(x, L.atom(a, c % abs(k) - c))
        return x

    def close(self, st):
        """Relations between residues that follow from the constraints; False if st is impossible."""
        for l in list(st.neqs):
            if len(l[1]) > 1 and self.entails_eq(st, l):
                return False
            for d in (l, L.neg(l)):
                if len(l[1]) > 1 and self.entails(st, d) and not self.add_ge(st, L.addc(d, -1)):
                    return False
        rs = [r for r in sorted(self.resid) if r in st.b or any(x == r for c in st.ineqs for x, _ in c[1])]
        for i, r in enumerate(rs):
            c, y = self.resid[r]
            for q in [None] + rs[:i]:
                d = L.ZERO
                if q is not None:
                    d, z = self.resid[q]
                    if z != y:
                        continue
                d = L.sub(c, d)
                if not (self.entails(st, L.sub(y, d)) and self.entails(st, L.add(y, d))):
                    continue
                # r - q - d is a multiple of y between -2y and 2y
                l = L.sub(L.atom(r), d) if q is None else L.sub(L.sub(L.atom(r), L.atom(q)), d)
                if self.entails_eq(st, l, 9):
                    continue
                ok = []
                for k in (0, -1, 1):
                    e = L.sub(l, L.scale(y, k))
                    t = st.copy()
                    if self.add_eq(t, e):
                        ok.append(e)
                        if len(ok) > 1:
                            break
                if not ok:
                    return False
                if len(ok) == 1 and not self.add_eq(st, ok[0]):
                    return False
        return True

    def divisors(self, l):
        return {self.resid[a][1] for a, _ in l[1] if a in self.resid}

    def nonzero(self, st, l):
        """st |= l != 0, using residues."""
        l = self.simp(st, l)
        if not l[1]:
            return l[0] != 0
        if l in st.neqs or L.neg(l) in st.neqs:
            return True
        if self.entails(st, L.addc(l, -1)) or self.entails(st, L.addc(L.neg(l), -1)):
            return True
        for y in self.divisors(l):
            for c in self.congruent(l, y):
                for d in (c, L.neg(c)):
                    if self.entails(st, L.addc(d, -1)) and self.entails(st, L.addc(L.sub(y, d), -1)):
                        return True
        return False

    def congruent(self, l, y):
        """Forms congruent to l modulo y."""
        c = self.mod_canon(l, y)
        out = [c]
        for r, (x, z) in self.resid.items():
            if z == y:
                d = L.sub(L.atom(r), x)
                out += [L.add(c, d), L.sub(c, d)]
        return out

    def factors(self, l):
        """Ways to write l as s*f + g: (s, f, g) with s an atom form or a constant > 1."""
        out = []
        bases = set()
        for a, _ in l[1]:
            if a in self.mono:
                bases |= set(self.mono[a])
        for s in sorted(bases):
            f, g = self.split_factor(l, s)
            if f is not None and f[1]:
                out.append((L.atom(s), f, g))
        if not bases:
            ks = {abs(k) for _, k in l[1]}
            for s in sorted(ks):
                if s > 1:
                    f = (0, tuple((a, k // s) for a, k in l[1] if k % s == 0))
                    g = (l[0], tuple((a, k) for a, k in l[1] if k % s))
                    out.append((L.const(s), f, g))
        return out

    def split_factor(self, l, s):
        f, g = L.ZERO, L.const(l[0])
        for a, k in l[1]:
            m = self.mono.get(a, (a,))
            if s in m:
                rest = list(m)
                rest.remove(s)
                if not rest:
                    f = L.addc(f, k)
                elif len(rest) == 1:
                    f = L.add(f, L.atom(rest[0], k))
                else:
                    b = self.akey.get(("mono", tuple(rest)))
                    if b is None:
                        return None, None
                    f = L.add(f, L.atom(b, k))
            else:
                g = L.add(g, L.atom(a, k))
        return f, g

    def reduce_ge(self, st, l):
        """Forms whose being >= 0 is equivalent to l >= 0: for l = s*f + g with 0 <= g < s, l >= 0 iff f >= 0."""
        for s, f, g in self.factors(l):
            for n in (0, 1):
                gg = L.add(g, L.scale(s, n))
                if self.entails(st, gg) and self.entails(st, L.addc(L.sub(s, gg), -1)):
                    return L.addc(f, -n)
        return None

    def mod_const(self, st, w, xa, k):
        if L.is_const(xa):
            return ("I", w, L.const(xa[0] % k))
        lo, hi = self.range(st, xa)
        if lo >= 0 and hi < k:
            return ("I", w, xa)
        if lo // k == hi // k:
            return ("I", w, L.addc(xa, -(lo // k) * k))
        red = (xa[0] % k, tuple((a, c % k) for a, c in xa[1] if c % k))
        if not red[1]:
            return ("I", w, L.const(red[0]))
        rl, rh = self.range(st, red)
        if rl >= 0 and rh < k:
            return ("I", w, red)
        q = self.opatom(("div", xa, k), lo // k, hi // k, "(%s)/%d" % (self.show(xa), k))
        r = L.add(xa, L.atom(q, -k))
        st.ineqs = st.ineqs | {r, L.addc(L.neg(r), k - 1)}
        return ("I", w, r)

    def icmp(self, st, pred, ot, a, b):
        if ot == "ptr":
            a, b = self.as_ptrv(st, a), self.as_ptrv(st, b)
            if a[0] == "F" or b[0] == "F":
                if a[0] == b[0]:
                    same = a[1] == b[1]
                    return same if pred == "eq" else (not same if pred == "ne" else False)
                o = b if a[0] == "F" else a
                if o[0] == "P" and o[1] == NULL:
                    return pred == "ne"
                key = ("fpeq", a, b)
                c = ("ne", L.atom(self.mk_atom("fpeq", 0, 1, key)))
                return c if pred == "eq" else self.neg(c)
            if a[1] == b[1]:
                d = L.sub(a[2], b[2])
                return self.cmp_lin(pred, d, d)
            if pred in ("eq", "ne"):
                if a[1] == NULL or b[1] == NULL:
                    o, off = (b[1], b[2]) if a[1] == NULL else (a[1], a[2])
                    n = self.nullness(st, o)
                    if n is None and off != L.ZERO and self.objs[o].kind != "sym":
                        pass
                    if n is not None:
                        c = (n is False)
                    else:
                        c = ("nul", o)
                    return c if pred == "eq" else self.neg(c)
                na, nb = self.nullness(st, a[1]), self.nullness(st, b[1])
                if na is False and nb is False:
                    return pred == "eq"
                ka, kb = self.objs[a[1]].kind, self.objs[b[1]].kind
                if "alloca" in (ka, kb) or "heap" in (ka, kb) or (ka == "global" and kb == "global"):
                    return pred == "ne"
                x, y = (a, b) if (a[1], a[2]) <= (b[1], b[2]) else (b, a)
                c = ("ne", L.atom(self.mk_atom("(%s==%s)" % (self.objs[x[1]].name, self.objs[y[1]].name), 0, 1, ("peq", x, y))))
                return c if pred == "eq" else self.neg(c)
            return ("ne", L.atom(self.mk_atom("pcmp%d" % self.bump(), 0, 1)))
        w = width(ot)
        if w is None:
            return ("ne", L.atom(self.mk_atom("vcmp%d" % self.bump(), 0, 1)))
        if w == 1:
            ca, cb = self.cond_of(st, a), self.cond_of(st, b)
            if isinstance(cb, bool) and pred in ("eq", "ne"):
                return ca if cb == (pred == "eq") else self.neg(ca)
            la, lb = self.b2l(ca), self.b2l(cb)
            return self.cmp_lin(pred, L.sub(la, lb), None)
        if a[0] != "I":
            a = ("I", w, self.lin_of(st, a))
        if b[0] != "I":
            b = ("I", w, self.lin_of(st, b))
        if pred in ("eq", "ne"):
            # boolean atoms compared with a constant
            d = self.simp(st, L.sub(a[2], b[2]))
            M = 1 << w
            lo, hi = self.range(st, d)
            if -M < lo and hi < M:
                return self.mk(pred, d)
            return self.mk(pred, L.sub(self.u(st, a), self.u(st, b)))
        if pred[0] == "u":
            x, y = self.u(st, a), self.u(st, b)
        else:
            x, y = self.s(st, a), self.s(st, b)
        return self.cmp_lin(pred, L.sub(x, y), None)

    def as_ptrv(self, st, v):
        return v if v[0] in ("P", "F") else self.as_ptr(st, v)

    def cmp_lin(self, pred, d, _):
        p = pred[-2:] if pred not in ("eq", "ne") else pred
        if p == "eq" or p == "ne":
            return self.mk(p, d)
        if p == "ge":
            return self.mk("ge", d)
        if p == "gt":
            return self.mk("ge", L.addc(d, -1))
        if p == "le":
            return self.mk("ge", L.neg(d))
        return self.mk("ge", L.addc(L.neg(d), -1))

    # ---------------------------------------------------------------- calls
    def do_call(self, fr, I, env, st):
        mod = fr.fn.mod
        args = [self.operand(env, mod, o) for o in I["o"]]
        cal = I["callee"]
        target = None
        if cal[0] == "f":
            name = cal[1]
            target = self.p.resolve(mod, name)
        else:
            cv = self.operand(env, mod, cal)
            if cv[0] == "F":
                name = cv[1]
                target = self.p.resolve(cv[2] if len(cv) > 2 else mod, name)
            else:
                r = self.client.on_fnptr(self, st, fr, I, cv, args)
                if r is not None:
                    return r
                self.client.on_event(self, st, fr, I, "indirect", (cv, args))
                self.havoc_reach(st, args)
                return [(st, self.unknown(I["t"], "icall"))]
        r = self.client.on_call(self, st, fr, I, name, args)
        if r is not None:
            return r
        if target is not None:
            if target.vararg:
                args = args[:len(target.args)]
            if (fr.has(target) and not self.recurse) or fr.depth >= self.max_depth:
                self.client.on_event(self, st, fr, I, "recursion", (target, args))
                self.havoc_reach(st, args)
                return [(st, self.unknown(I["t"], "rec"))]
            return self.call_fn(target, args, st, fr, I)
        return self.extern(fr, I, st, name, args)

    def mem_event(self, st, fr, I, kind, p, n):
        """A library access of n bytes (linear form) at p."""
        if L.is_const(n) and n[0] == 0:
            return True
        if not self.deref(st, fr, I, p):
            return False
        self.client.on_access(self, st, fr, I, kind, p, n, None)
        return True

    def extern(self, fr, I, st, name, args):
        from . import libmodel
        self.externs[name] = self.externs.get(name, 0) + 1
        return libmodel.call(self, fr, I, st, name, args)

    # ---------------------------------------------------------------- loops
    def run_loop(self, fr, inf, head, lst):
        """Summarise the loop at `head` for each entry item.
        Returns (outs leaving the loop, returns)."""
        body = inf["loops"][head]
        outs, rets = [], []
        self.stats["loops"] += 1
        for env, st in lst:
            r = self.try_unroll(fr, inf, head, body, env, st)
            if r is None:
                r = self.summarise(fr, inf, head, body, env, st)
            outs += r[0]
            rets += r[1]
        return outs, rets

    def try_unroll(self, fr, inf, head, body, env, st):
        items = [(env, st.copy())]
        outs, rets = [], []
        if self.recurse:
            # only one walk: walks of nested loops would multiply
            for _ in range(self.unroll):
                items, x, r = self.exec_region(fr, inf, body, head, items, head)
                outs += x
                rets += r
                if not items:
                    return outs, rets
                if len(items) > self.max_states:
                    break
            raise Budget("too many cases in a loop of %s" % fr.fn.name)
        self.quiet += 1
        logs = (self.cmp_log, self.write_log)
        self.cmp_log = self.write_log = None
        try:
            for it in range(self.unroll):
                b, x, r = self.exec_region(fr, inf, body, head, items, head)
                if b and (x or r) and not self.each_way:
                    return None
                if len(b) > 1 and not self.each_way:
                    b = self.merge_items(fr, inf, head, b)
                    if len(b) > 3:
                        return None
                if len(b) > self.max_states:
                    return None
                if not b:
                    n_it = it + 1
                    break
                items = b
            else:
                return None
        finally:
            self.quiet -= 1
            self.cmp_log, self.write_log = logs
        # decided: replay loudly
        items = [(env, st)]
        for it in range(n_it):
            b, x, r = self.exec_region(fr, inf, body, head, items, head)
            outs += x
            rets += r
            if len(b) > 1 and not self.each_way:
                b = self.merge_items(fr, inf, head, b)
            items = b
            if not items:
                break
        return outs, rets

    def signed_phis(self, fr, inf, head, body):
        """Header phis compared or extended as signed numbers."""
        phis = {I["id"] for I in inf["byid"][head]["i"] if I["op"] == "phi"}
        der = {p: p for p in phis}
        sg = set()
        for b in inf["byid"].values():
            for I in b["i"]:
                if I["op"] in ("add", "sub", "phi"):
                    for o in (I["o"] if I["op"] != "phi" else [x[1] for x in I["in"]]):
                        if o[0] == "i" and o[1] in der and I["id"] not in der:
                            der[I["id"]] = der[o[1]]
        for b in inf["byid"].values():
            for I in b["i"]:
                if (I["op"] == "icmp" and I["pred"][0] == "s") or I["op"] == "sext":
                    for o in I["o"]:
                        if o[0] == "i" and o[1] in der:
                            sg.add(der[o[1]])
        return sg

    def summarise(self, fr, inf, head, body, env, st):
        signed = self.signed_phis(fr, inf, head, body)
        phis = [I for I in inf["byid"][head]["i"] if I["op"] == "phi"]
        entry = {}
        for I in phis:
            entry[("v", I["id"])] = env[I["id"]]
        cells = {}      # (o, off, size) modified cells tracked as entities
        havoced = set() # objects forgotten at the head
        known = len(self.alo)
        unkptr = set()  # entities whose pointer target changes
        opaque = set()
        self.quiet += 1
        saved = (self.cmp_log, self.write_log)
        again = None
        cl_heads = {frozenset(st.cl.items()): st.cl}
        try:
            # 1. find what the loop changes
            for rnd in range(6):
                h_env, h_st, ents = self.loop_head(fr, None, env, st, phis, entry, cells, havoced, unkptr, opaque, signed, None, None)
                self.cmp_log, self.write_log = [], []
                b, x, r = self.exec_region(fr, inf, body, head, [(h_env, h_st.copy())], head)
                wl, cl = self.write_log, self.cmp_log
                changed = False
                # writes to objects existing at the head
                for (o, off, size) in wl:
                    ob = self.objs[o]
                    if ob.kind == "alloca" and o not in st.mem and not self._entry_known(st, o):
                        continue
                    if ob.kind == "heap" and o not in st.heap:
                        continue
                    if o in havoced:
                        continue
                    if off is not None and not L.is_const(off):
                        off2 = self.simp(st, off)
                    else:
                        off2 = off
                    if off2 is None or not L.is_const(off2) or not isinstance(size, int):
                        havoced.add(o)
                        for c in [c for c in cells if c[0] == o]:
                            del cells[c]
                        changed = True
                        continue
                    key = (o, off2, size)
                    if key not in cells:
                        # overlapping with a tracked cell of another shape -> havoc
                        if any(c[0] == o and c != key and abs(c[1][0] - off2[0]) < max(c[2], size) and
                               not (c[1][0] + c[2] <= off2[0] or off2[0] + size <= c[1][0]) for c in cells):
                            havoced.add(o)
                            for c in [c for c in cells if c[0] == o]:
                                del cells[c]
                        else:
                            cells[key] = None
                        changed = True
                # pointer entities that move to other objects
                for benv, bst in b:
                    for k, (kind, hv) in ents.items():
                        nv = self.ent_value(fr, benv, bst, k)
                        if kind == "ptr" and not (nv[0] == "P" and nv[1] == hv[1]):
                            if k not in unkptr:
                                unkptr.add(k)
                                changed = True
                        if kind == "int" and nv[0] not in ("I", "U"):
                            if k not in opaque:
                                opaque.add(k)
                                changed = True
                    ck = frozenset(bst.cl.items())
                    if ck not in cl_heads:
                        cl_heads[ck] = bst.cl
                        changed = True
                if not changed:
                    break
            # 2. strides
            strides = {}
            self._uneven = {}
            heads = {a for kind, hv in ents.values() if kind in ("int", "ptr") for a, _ in hv[2][1]}
            for k, (kind, hv) in ents.items():
                ds = set()
                for benv, bst in b:
                    nv = self.ent_value(fr, benv, bst, k)
                    if kind in ("int", "ptr") and nv[0] in ("I", "P"):
                        hl = hv[2]
                        d = self.simp(bst, L.sub(nv[2], hl))
                        ok = self.marks and len(d[1]) == 1 and d[0] == 0 and d[1][0][1] == 1 \
                            and d[1][0][0] < known and d[1][0][0] not in heads
                        ds.add(d[0] if L.is_const(d) else d if ok else None)
                    else:
                        ds.add(None)
                if len(ds) == 1:
                    d = ds.pop()
                    if d is not None:
                        if kind == "int" and not isinstance(d, tuple):
                            M = 1 << hv[1]
                            d = (d + M // 2) % M - M // 2
                        strides[k] = d
                elif self.uneven and ds and all(isinstance(d, int) and 0 <= d < 256 for d in ds):
                    self._uneven[k] = (min(ds), max(ds))
            # 3. candidates
            h_env, h_st, ents = self.loop_head(fr, None, env, st, phis, entry, cells, havoced, unkptr, opaque, signed, strides, None)
            self.cmp_log, self.write_log = [], []
            looks, self.look_log = self.look_log, []
            b_ents = self.exec_region(fr, inf, body, head, [(dict(h_env), h_st.copy())], head)[0]
            cl, writes = self.cmp_log, self.write_log
            self.cmp_log = self.write_log = None
            looks, self.look_log = self.look_log, looks
            cands = self.candidates(fr, st, env, ents, strides, cl, h_st)
            alive = []
            for c in cands:
                s0 = self.instantiate(fr, st, env, c, ents, None)
                if s0 is not None and self.entails(st, s0):
                    alive.append(c)
            facts = every = self.cell_facts(fr, env, st, ents, havoced)
            flags, views = [], []
            v0, p0, ck = (), (), None
            if self.marks:
                # apart for each value of the flags the loop sets and each side of the traced cells
                flags = self.loop_flags(fr, env, st, ents, b_ents)
                v0 = tuple(self.const_of(st, self.ent_entry(fr, env, st, k)) for k in flags)
                views = self.loop_views(st, looks)
                if views:
                    ini = [self.instantiate(fr, st, env, v, ents, None) for v in views]
                    split = self.view_cases(st, ini) if None not in ini else []
                    if len(split) == 1:
                        p0 = split[0][1]
                    elif split:
                        again = split
                    else:
                        views = []
                every = facts + self.trace_facts(st, havoced, views, writes, self.stored(fr, inf, body, env))
                facts = [f for f in every if self.fact_holds(fr, env, st, f)]
                ck = frozenset(st.cl.items())
            cls = {ck: st.cl}
            parts = {(v0, p0, ck): (alive, facts)}
            first = parts[(v0, p0, ck)]
            wild = False
            for rnd in range(60):
                if again:
                    break
                bad = {}
                newcl = False
                for tag in list(parts):
                    alive, facts = parts[tag]
                    for clv in list(cl_heads.values()) if tag[2] is None else [cls[tag[2]]]:
                        hs = self.put_head(h_st, clv, alive, ents, facts, flags, views, tag)
                        if hs is None:
                            continue
                        self.cmp_log, self.write_log = None, None
                        b, x, r = self.exec_region(fr, inf, body, head, [(dict(h_env), hs)], head)
                        for benv, bst0 in b:
                            if self.marks and not self.close(bst0):
                                continue
                            fv = tuple(self.const_of(bst0, self.ent_value(fr, benv, bst0, k)) for k in flags)
                            bc = frozenset(bst0.cl.items())
                            if tag[2] is None:
                                if bc not in cl_heads:
                                    cl_heads[bc] = bst0.cl
                                    newcl = True
                                bc = None
                            elif bc not in cls:
                                cls[bc] = bst0.cl
                            fs = [self.instantiate(fr, bst0, benv, v, ents, "back") for v in views]
                            for bst, pv in self.view_cases(bst0, fs) if fs and None not in fs else [(bst0, ())]:
                                to = (fv, pv, bc)
                                if None in fv or len(pv) != len(views) or to not in parts and len(parts) > 60:
                                    wild = True
                                    break
                                if to not in parts:
                                    parts[to] = (list(cands), list(every))
                                    newcl = True
                                drop = bad.setdefault(to, set())
                                for c in parts[to][0]:
                                    if c in drop:
                                        continue
                                    n = self.instantiate(fr, bst, benv, c, ents, "back")
                                    if n is None or not self.entails(bst, n):
                                        drop.add(c)
                                for f in parts[to][1]:
                                    if f not in drop and not self.fact_holds(fr, benv, bst, f):
                                        drop.add(f)
                if wild:
                    if not flags and not views:
                        raise Budget("too many cases in a loop of %s" % fr.fn.name)
                    flags, views, wild = [], [], False
                    parts = {((), (), ck): first}
                    continue
                if not newcl and not any(bad.values()):
                    break
                for tag, drop in bad.items():
                    parts[tag] = tuple([c for c in x if c not in drop] for x in parts[tag])
                if len(cl_heads) > 40:
                    raise Budget("typestate explosion in a loop of %s" % fr.fn.name)
            else:
                parts = {tag: ([], []) for tag in parts}
        finally:
            self.quiet -= 1
            self.cmp_log, self.write_log = saved
        if again:
            outs, rets = [], []
            for s2, _ in again:
                o2, r2 = self.summarise(fr, inf, head, body, dict(env), s2)
                outs += o2
                rets += r2
            return outs, rets
        # writes inside matter to an enclosing trial
        if self.write_log is not None:
            for c in cells:
                self.write_log.append(c)
            for o in havoced:
                self.write_log.append((o, None, None))
        # 5. final pass with reports
        outs, rets = [], []
        for tag, (alive, facts) in parts.items():
            for clv in list(cl_heads.values()) if tag[2] is None else [cls[tag[2]]]:
                hs = self.put_head(h_st, clv, alive, ents, facts, flags, views, tag)
                if hs is None:
                    continue
                hs.trace = (st.trace, fr, inf["byid"][head]["i"][-1], "loop")
                b, x, r = self.exec_region(fr, inf, body, head, [(dict(h_env), hs)], head)
                outs += x
                rets += r
                for benv, bst in b:
                    self.client.on_event(self, bst, fr, inf["byid"][head]["i"][-1], "backedge", (benv, st))
        return outs, rets

    def put_head(self, h_st, clv, alive, ents, facts, flags, views, tag):
        """The head state with the invariants, flag values and sides assumed; None if impossible."""
        hs = h_st.copy()
        hs.cl = dict(clv)
        for k, v in zip(flags, tag[0]):
            if not self.add_eq(hs, L.addc(ents[k][1][2], -v)):
                return None
        for f, k in zip(views, tag[1]):
            if not (self.add_eq(hs, f) if k == 0 else self.add_ge(hs, L.addc(L.scale(f, k), -1))):
                return None
        for c in alive:
            if not self.add_ge(hs, c):
                return None
        self.put_facts(hs, ents, facts)
        return hs

    def loop_flags(self, fr, env, st, ents, backs):
        """Entities that only ever take constants: (at most two)."""
        out = []
        for k, (kind, hv) in ents.items():
            if kind != "int" or len(hv[2][1]) != 1:
                continue
            v0 = self.ent_entry(fr, env, st, k)
            if v0[0] != "I" or self.const_of(st, v0) is None:
                continue
            vals = set()
            for benv, bst in backs:
                v = self.ent_value(fr, benv, bst, k)
                if v == hv:
                    continue
                c = self.const_of(bst, v) if v[0] == "I" else None
                vals.add(c)
            if vals and None not in vals and len(vals) <= 2:
                out.append(k)
        return out[:2]

    def traced(self, v):
        """A marked byte, or a pointer to a marked object."""
        if v[0] == "I":
            return any(a in self.marks for a in L.atoms(v[2]))
        if v[0] != "P":
            return False
        if ("o", v[1]) in self.marks:
            return True
        ob = self.objs[v[1]]
        return "new" in self.marks and ob.kind == "heap" and ob.size is not None and not ob.size[1] and ob.extra[0] != "entry"

    def meddle(self, st, p, size):
        """Other threads may have changed a shared number since it was last looked at."""
        r = None if p[2][1] else self.shared.get((p[1], p[2][0]))
        if r is not None and self.client.meddles(st, p):
            l = r(self, st) if callable(r) else L.atom(self.mk_atom("now#%d" % self.bump(), r[0], r[1]))
            self.store(st, p, size, ("I", 8 * size, l))

    def split_cas(self, I, env, st, fr):
        """States in which a compare-and-swap finds the expected value, or not."""
        p = self.as_ptr(st, self.operand(env, fr.fn.mod, I["o"][0]))
        e = self.operand(env, fr.fn.mod, I["o"][1])
        if e[0] != "I" or p[1] == NULL or not isinstance(self.objs[p[1]].size, tuple):
            return [st]
        self.meddle(st, p, e[1] // 8)
        cur = self.load(st, fr, I, p, e[1] // 8, "i%d" % e[1])
        d = L.norm(L.sub(self.u(st, cur), self.u(st, e)))
        out = []
        if not L.is_const(d):
            for c in (L.addc(d, -1), L.addc(L.neg(d), -1)):
                t = st.copy()
                if self.add_ge(t, c) and self.close(t):
                    t.cl["cas"] = False
                    out.append(t)
        elif d[0]:
            st.cl["cas"] = False
            return [st]
        if self.add_eq(st, d) and self.close(st):
            st.cl["cas"] = True
            out.append(st)
        return out

    def parts(self, st, l):
        """[(coefficient, atom, bits)] when l is a concatenation of disjoint bit fields."""
        out, used = [], l[0]
        if l[0] < 0:
            return None
        for a, c in l[1]:
            lo, hi = self.arange(st, a)
            if c <= 0 or c & (c - 1) or lo < 0:
                return None
            bits = c * ((1 << hi.bit_length()) - 1)
            if used & bits:
                return None
            used |= bits
            out.append((c, a, bits))
        return out

    def bitvec(self, st, l, w):
        """The low w bits of a form, lowest first: 0, 1 or (atom, bit of it).  None when sums carry."""
        l = self.simp(st, l)
        out = [l[0] >> k & 1 for k in range(w)]
        for a, c in l[1]:
            lo, hi = self.arange(st, a)
            c %= 1 << w
            if not c:
                continue
            if lo < 0 or c & (c - 1):
                return None
            at = c.bit_length() - 1
            for k in range(min(hi.bit_length(), w - at)):
                if out[at + k] != 0:
                    return None
                out[at + k] = (a, k)
        return out

    def tables(self, st, l=L.ZERO):
        """l with the table entries whose place is known in st put in, or None if st contradicts a table."""
        for a, (data, off, size, k) in self.tblbits.items():
            i = self.simp(st, off)
            if i[1] or not 0 <= i[0] <= len(data) - size:
                continue
            b = int.from_bytes(data[i[0]:i[0] + size], "little") >> k & 1
            lo, hi = self.arange(st, a)
            if not lo <= b <= hi:
                return None
            if lo != hi and not self.add_eq(st, L.addc(L.atom(a), -b)):
                return None
        return self.simp(st, l)

    @staticmethod
    def unbits(bs):
        """The form with these bits, or None when it holds parts of a number."""
        r, n = 0, {}
        for k, b in enumerate(bs):
            if b == 1:
                r += 1 << k
            elif b:
                n.setdefault(b[0], []).append((k, b[1]))
        out = []
        for a, l in n.items():
            if any(b != i or k != l[0][0] + i for i, (k, b) in enumerate(l)):
                return None
            out.append((a, 1 << l[0][0], len(l)))
        return (r, tuple(sorted((a, c) for a, c, _ in out))), {a: m for a, _, m in out}

    def bit_arith(self, st, op, w, x, y):
        """An operation on bits, or None."""
        if op in ("shl", "lshr", "ashr"):
            a = self.bitvec(st, x, w)
            if a is None or not L.is_const(y) or not 0 <= y[0] < w or (op == "ashr" and a[-1] != 0):
                return None
            k = y[0]
            return self.rebits(st, [0] * k + a[:w - k] if op == "shl" else a[k:] + [0] * k)
        a, b = self.bitvec(st, x, w), self.bitvec(st, y, w)
        if a is None or b is None:
            return None
        out = []
        for p, q in zip(a, b):
            if not isinstance(q, int):
                p, q = q, p
            if p == q:
                r = 0 if op == "xor" else p
            elif isinstance(q, int):
                if op == "and":
                    r = p if q else 0
                elif op == "or":
                    r = 1 if q else p
                else:
                    if q and not isinstance(p, int):
                        return None
                    r = p ^ q if q else p
            else:
                return None
            out.append(r)
        return self.rebits(st, out)

    def rebits(self, st, bs):
        r = self.unbits(bs)
        if r is None or any(self.arange(st, a)[1].bit_length() != m for a, m in r[1].items()):
            return None
        return r[0]

    @staticmethod
    def bits_of(l, ps):
        r = l[0]
        for _, _, b in ps:
            r |= b
        return r

    def split_access(self, fr, I, env, st):
        """States that tell apart whether a load or store hits a traced cell."""
        o = I["o"][0 if I["op"] == "load" else 1]
        p = self.operand(env, fr.fn.mod, o)
        if p[0] != "P" or p[1] not in st.mem:
            return [st]
        off, size = self.simp(st, p[2]), I["size"]
        if self.look_log is not None:
            self.look_log.append((p[1], off, size))
        out = [st]
        for (co, cs), cv in st.mem[p[1]].cells.items():
            if cs != size or not self.traced(cv) or self.overlap(st, off, size, co, cs) != "maybe":
                continue
            d = L.norm(L.sub(off, co))
            nxt = []
            for s in out:
                for c in (d, None), (L.addc(d, -1), 1), (L.addc(L.neg(d), -1), 1):
                    t = s.copy()
                    if c[1]:
                        t.neqs = t.neqs | {d if d[1][0][1] > 0 else L.neg(d)}
                    if (self.add_ge(t, c[0]) if c[1] else self.add_eq(t, c[0])) and self.close(t):
                        nxt.append(t)
            out = nxt
        return out

    def loop_views(self, st, looks):
        """Forms over the head's symbols whose signs tell where the loop stands relative to a traced cell."""
        out = []
        for o, m in st.mem.items():
            for (co, cs), cv in m.cells.items():
                if (cv[0] != "P" and not self.scale_more) or not self.traced(cv) or not co[1]:
                    continue
                for o2, off, size in looks:
                    if o2 != o:
                        continue
                    d = self.unwrap(L.sub(off, co))
                    if isinstance(size, tuple):
                        f, rem = self.divide(d, size)
                        rem = L.neg(rem)
                        if f is None or not self.entails(st, rem) or not self.entails(st, L.sub(L.sub(size, rem), L.const(cs))):
                            continue
                    else:
                        g = max([cs] + [abs(k) for a, k in d[1] if a == self._kctr])
                        at = -d[0] % g
                        if at + cs > size or any(k % g for _, k in d[1]):
                            continue
                        f, rem = ((d[0] + at) // g, tuple((a, k // g) for a, k in d[1])), L.const(at)
                    if any(a == self._kctr and abs(k) == 1 for a, k in f[1]):
                        self.vrem[f, o, co] = (size, rem)
                        if f not in out:
                            out.append(f)
        return out[:3]

    def divide(self, d, size):
        """(q, r) with d = size*q + r, for a size that is a single unknown."""
        if len(size[1]) != 1 or size[0] or size[1][0][1] != 1:
            return None, L.ZERO
        w = size[1][0][0]
        q, r = L.ZERO, L.const(d[0])
        for a, k in d[1]:
            bases = list(self.mono.get(a, (a,)))
            if w in bases and len(bases) <= 2:
                bases.remove(w)
                q = L.add(q, L.atom(bases[0], k) if bases else L.const(k))
            else:
                r = L.add(r, L.atom(a, k))
        return q, r

    def at_step(self, st, l, at):
        """l with the iteration counter replaced."""
        r = L.const(l[0])
        for a, k in l[1]:
            bases = list(self.mono.get(a, (a,)))
            if self._kctr in bases:
                bases.remove(self._kctr)
                p = at
                for x in bases:
                    p = self.product(st, p, L.atom(x))
                r = L.add(r, L.scale(p, k))
            else:
                r = L.add(r, L.atom(a, k))
        return r

    @staticmethod
    def unwrap(l):
        """l without the terms for wrapping around."""
        c = l[0]
        for _, k in l[1]:
            if k % (1 << 32) == 0:
                c = (c + abs(k) // 2) % abs(k) - abs(k) // 2
        return (c, tuple(x for x in l[1] if x[1] % (1 << 32)))

    def view_cases(self, st, forms):
        """[(state, signs)]: st split by the signs of the forms."""
        out = [(st, ())]
        for f in forms:
            nxt = []
            for s, sg in out:
                f1 = self.simp(s, f)
                for k, c in ((0, f1), (1, L.addc(f1, -1)), (-1, L.addc(L.neg(f1), -1))):
                    t = s.copy()
                    if (self.add_ge(t, c) if k else self.add_eq(t, c)) and self.close(t):
                        nxt.append((t, sg + (k,)))
            out = nxt
        return out

    def stored(self, fr, inf, body, env):
        """Pointers known before the loop that it stores."""
        out = []
        for b in body:
            for I in inf["byid"][b]["i"]:
                if I["op"] == "store" and I["o"][0] and (I["o"][0][0] != "i" or I["o"][0][1] in env):
                    v = self.operand(env, fr.fn.mod, I["o"][0])
                    if v[0] == "P" and v not in out:
                        out.append(v)
        return out[:3]

    def trace_facts(self, st, havoced, views, writes, stored=()):
        """Places where a traced value may be found in the course of the loop, and what replaces it."""
        out = []
        for o, m in st.mem.items():
            for (co, cs), cv in m.cells.items():
                if not self.traced(cv):
                    continue
                if o in havoced:
                    for d in (0, cs, -cs) if cs == 8 else (0,):
                        out.append(("trace", o, L.addc(co, d), 0, cs, cv))
                    for v in stored if cs == 8 else ():
                        out.append(("trace", o, co, 0, cs, v))
                for f in views:
                    # the place written when the loop was at the cell
                    k = dict(f[1])[self._kctr]
                    at = L.scale(L.sub(f, L.atom(self._kctr, k)), -k)
                    vs, rem = self.vrem.get((f, o, co), (cs, L.ZERO))
                    for (o2, off, size) in writes:
                        if isinstance(size, tuple) and not size[1]:
                            size = size[0]
                        if size == vs and off is not None and any(self._kctr in self.mono.get(a, (a,)) for a, _ in off[1]):
                            off = self.at_step(st, self.unwrap(off), at)
                            out.append(("trace", o2, L.add(off, rem), 0, cs, cv))
        return list(dict.fromkeys(out))[:30]

    def cell_facts(self, fr, env, st, ents, havoced):
        """Candidates "the cell of o at (changing value + delta) holds constant v" that hold on entry."""
        out = []
        for o in sorted(havoced):
            m = st.mem.get(o)
            if m is None:
                continue
            for (off, size), v in m.cells.items():
                c = self.const_of(st, v) if v[0] == "I" else None
                if c is None:
                    continue
                for k, (kind, hv) in ents.items():
                    if kind not in ("int", "ptr"):
                        continue
                    e0 = self.ent_entry(fr, env, st, k)
                    if e0[0] not in ("I", "P") or (e0[0] == "P" and e0[1] != o):
                        continue
                    d = self.simp(st, L.sub(off, e0[2]))
                    if L.is_const(d) and abs(d[0]) <= 8:
                        out.append(("cell", o, k, d[0], size, c))
        return out[:40]

    def put_facts(self, hs, ents, facts):
        for kind, o, k, d, size, c in facts:
            if kind == "trace":
                hs.mem[o] = self.om(hs, o).copy()
                hs.mem[o].cells[(k, size)] = c
                continue
            hs.mem[o] = self.om(hs, o).copy()
            hs.mem[o].cells[(self.simp(hs, L.addc(ents[k][1][2], d)), size)] = ("I", 8 * size, L.const(c))

    def fact_holds(self, fr, env, st, f):
        kind, o, k, d, size, c = f
        if kind == "trace":
            return self.load(st, fr, None, ("P", o, k), size, "ptr" if c[0] == "P" else "i%d" % (8 * size)) == c
        v = self.ent_value(fr, env, st, k)
        if v[0] not in ("I", "P") or (v[0] == "P" and v[1] != o):
            return False
        off = v[2] if v[0] == "P" else self.u(st, v)
        x = self.load(st, fr, None, ("P", o, L.addc(off, d)), size, "i%d" % (8 * size))
        return x[0] == "I" and self.const_of(st, x) == c

    def _entry_known(self, st, o):
        return o in st.mem

    def ent_value(self, fr, env, st, k):
        if k[0] == "v":
            return env[k[1]]
        _, o, off, size, t = k
        return self.load(st, fr, None, ("P", o, off), size, t)

    def loop_head(self, fr, I, env, st, phis, entry, cells, havoced, unkptr, opaque, signed, strides, inv):
        """A state at the loop head with everything the loop changes unknown."""
        s = st.copy()
        e = dict(env)
        ents = {}
        kctr = None
        for o in sorted(havoced):
            wl, self.write_log = self.write_log, None
            self.havoc(s, o)
            self.write_log = wl
        todo = []
        for P in phis:
            todo.append((("v", P["id"]), P["t"], entry[("v", P["id"])]))
        for (o, off, size) in sorted(cells):
            v0 = st.mem[o].cells.get((off, size)) if o in st.mem else None
            if v0 is None:
                t = "i%d" % (8 * size) if size in (1, 2, 4, 8) else "double"
                ob = self.objs[o]
                f = self.ditype_at(ob.ditype, off[0])
                if f and f[1].endswith("*"):
                    t = "ptr"
                v0 = self.load(st, fr, None, ("P", o, off), size, t)
            else:
                t = "ptr" if v0[0] in ("P", "F") else ("i%d" % (8 * size) if v0[0] in ("I", "B", "U") else "double")
            todo.append((("m", o, off, size, t), t, v0))
        # shared iteration counter for entities with constant stride
        if strides:
            kctr = self.mk_atom("k%d" % self.bump(), 0, 1 << 64)

        def moved(k):
            d = strides[k]
            if isinstance(d, tuple):
                return self.product(s, L.atom(kctr), d)
            return L.atom(kctr, d) if d else L.ZERO
        for k, t, v0 in todo:
            w = width(t)
            nm = "loop"
            if t == "ptr":
                if v0[0] == "P" and k not in unkptr:
                    if strides is not None and k in strides:
                        hv = ("P", v0[1], L.add(v0[2], moved(k)))
                    else:
                        a = self.mk_atom("lp%d" % self.bump(), -(1 << 62), 1 << 62)
                        hv = ("P", v0[1], L.atom(a))
                    ents[k] = ("ptr", hv)
                else:
                    hv = ("P", self.new_obj("sym", "loopptr%d" % self.bump(), None,
                                            self.objs[v0[1]].ditype if v0[0] == "P" else None, "sym"), L.ZERO)
                    ents[k] = ("unk", hv)
            elif w == 1:
                hv = ("B", ("ne", L.atom(self.mk_atom("lb%d" % self.bump(), 0, 1))))
                ents[k] = ("unk", hv)
            elif w and k not in opaque:
                if strides is not None and k in strides and v0[0] == "I":
                    base = self.simp(s, v0[2])
                    hv = ("I", w, L.add(base, moved(k)))
                else:
                    sg = k[0] == "v" and k[1] in signed
                    a = self.fresh("lv", w, sg)
                    hv = ("I", w, L.atom(a))
                ents[k] = ("int", hv)
            elif w:
                hv = self.fresh_int("lv", w)
                ents[k] = ("unk", hv)
            else:
                hv = ("D", ("loop", self.bump()))
                ents[k] = ("unk", hv)
            if k[0] == "v":
                e[k[1]] = hv
            else:
                wl, self.write_log = self.write_log, None
                self.store(s, ("P", k[1], k[2]), k[3], hv)
                self.write_log = wl
        self._kctr = kctr
        return e, s, ents

    def candidates(self, fr, st, env, ents, strides, cmps, h_st):
        """Candidate invariants (forms >= 0 over the head's symbols)."""
        out = []
        hatoms = {}
        for k, (kind, hv) in ents.items():
            if kind in ("int", "ptr"):
                for a in L.atoms(hv[2]):
                    hatoms.setdefault(a, k)
        base = set()
        for k, (kind, hv) in ents.items():
            if kind not in ("int", "ptr"):
                continue
            v0 = self.ent_entry(fr, env, st, k)
            if v0[0] in ("I", "P"):
                e0 = self.simp(st, v0[2])
                if kind == "int":
                    lo, hi = self.range(st, e0)
                    w = v0[1]
                    # choose the window the head variable lives in
                    a0 = L.atoms(hv[2])
                    if a0 and self.alo[a0[0]] < 0 and lo >= (1 << (w - 1)):
                        e0 = L.addc(e0, -(1 << w))
                    elif lo < 0 and a0 and self.alo[a0[0]] == 0 and len(hv[2][1]) == 1 and k not in strides:
                        e0 = self.u(st, ("I", w, e0))
                d = L.sub(hv[2], e0)
                base.add(d)
                base.add(L.neg(d))
                if k in self._uneven:
                    base.add(L.sub(d, L.atom(self._kctr, self._uneven[k][0])))
                    base.add(L.sub(L.atom(self._kctr, self._uneven[k][1]), d))
                # constraints of the entry state restated for the head value
                if len(e0[1]) == 1 and abs(e0[1][0][1]) == 1:
                    x, kx = e0[1][0]
                    sub = L.scale(L.addc(hv[2], -e0[0]), kx)
                    for c in st.ineqs:
                        if any(y == x for y, _ in c[1]):
                            base.add(L.subst(c, {x: sub}))
                    lo, hi = self.arange(st, x)
                    base.add(L.addc(sub, -lo))
                    base.add(L.addc(L.neg(sub), hi))
                else:
                    lo, hi = self.range(st, e0)
                    base.add(L.addc(hv[2], -lo))
                    base.add(L.addc(L.neg(hv[2]), hi))
        # numbers in memory that are equal at entry
        nums = [k for k, (kind, hv) in ents.items() if kind == "int" and k[0] != "v"][:12]
        for i, k in enumerate(nums):
            v = self.ent_entry(fr, env, st, k)
            for k2 in nums[:i]:
                v2 = self.ent_entry(fr, env, st, k2)
                if v[0] == "I" and v2[0] == "I" and v[1] == v2[1] and self.entails_eq(st, L.sub(v[2], v2[2])):
                    d = L.sub(ents[k][1][2], ents[k2][1][2])
                    base.add(d)
                    base.add(L.neg(d))
        # conditions seen in the body, relaxed by one step
        step = {}
        for k, d in strides.items():
            if not isinstance(d, tuple):
                step[k] = abs(d)
        flat = []

        def walk(c):
            if isinstance(c, bool):
                return
            if c[0] in ("and", "or"):
                walk(c[1])
                walk(c[2])
            elif c[0] == "ge":
                flat.append(c[1])
                flat.append(L.addc(L.neg(c[1]), -1))
            elif c[0] in ("eq", "ne"):
                flat.append(c[1])
                flat.append(L.neg(c[1]))
        for c in cmps or []:
            walk(c)
        self._trial_map = None
        for f in flat[:400]:
            fs = [f]
            q = {x: L.ZERO for x in L.atoms(f) if x in self.quot}
            if q:
                fs.append(L.subst(f, q))    # without wrap-around
            for f in fs:
                for n in {0, 1, -1} | set(step.values()):
                    base.add(L.addc(f, n))
        if self.marks or self.shared:
            self.more_candidates(fr, st, env, ents, strides, flat, base)
            for h in self.hints:
                for kind, hv in ents.values():
                    if kind == "int":
                        d = L.sub(hv[2], h)
                        for n in (-1, 0, 1):
                            base.add(L.addc(d, n))
                            base.add(L.addc(L.neg(d), n))
        for c in base:
            c = L.norm(c)
            if not c[1]:
                continue
            out.append(c)
        return list(dict.fromkeys(out))[:600]

    def more_candidates(self, fr, st, env, ents, strides, flat, base):
        """Relations between changing values that hold on entry, and the conditions
        on one value restated for another that starts out the same."""
        ints = []
        for k, (kind, hv) in ents.items():
            if kind != "int":
                continue
            v0 = self.ent_entry(fr, env, st, k)
            if v0[0] == "I":
                ints.append((k, hv[2], self.simp(st, v0[2])))
        ints = ints[:8]
        for x, (k1, h1, e1) in enumerate(ints):
            for y, (k2, h2, e2) in enumerate(ints):
                if x == y:
                    continue
                d = L.sub(L.sub(h1, h2), L.sub(e1, e2))
                base.add(d)
                base.add(L.sub(h1, h2))
                if x < y:
                    d = L.sub(L.add(h1, h2), L.add(e1, e2))
                    base.add(d)
                    base.add(L.neg(d))
                for z, (k3, h3, e3) in enumerate(ints):
                    if z > y and z != x:
                        d = L.sub(L.sub(h1, h2), h3)
                        d0 = self.simp(st, L.sub(L.sub(e1, e2), e3))
                        if L.is_const(d0):
                            base.add(L.addc(d, -d0[0]))
                            base.add(L.neg(L.addc(d, -d0[0])))
                if e1 != e2 or len(h2[1]) != 1:
                    continue
                if k1 in strides and strides[k1] in (1, -1):
                    a, sub = self._kctr, L.scale(L.sub(h2, e1), strides[k1])
                elif len(h1[1]) == 1 and h1[1][0][1] == 1:
                    a, sub = h1[1][0][0], L.addc(h2, -h1[0])
                else:
                    continue
                for f in flat[:400]:
                    if a in L.atoms(f):
                        f = L.subst(f, {a: sub})
                        base.add(f)
                        q = {x: L.ZERO for x in L.atoms(f) if x in self.quot}
                        if q:
                            base.add(L.subst(f, q))

    def ent_entry(self, fr, env, st, k):
        if k[0] == "v":
            return env[k[1]]
        return self.ent_value(fr, env, st, k)

    def instantiate(self, fr, st, env, c, ents, where):
        """c with the head symbols replaced by the values in (env, st)."""
        m = {}
        cat = set(L.atoms(c))
        for a in cat:
            if a in self.mono and self._kctr in self.mono[a]:
                rest = list(self.mono[a])
                rest.remove(self._kctr)
                if self._kctr in rest:
                    return None
                rest = self.monomial(st, tuple(rest)) if len(rest) > 1 else rest[0]
                m[a] = L.add(L.atom(a), L.atom(rest)) if where == "back" else L.ZERO
        for k, (kind, hv) in ents.items():
            if kind not in ("int", "ptr"):
                continue
            hl = hv[2]
            for a, kk in hl[1]:
                if a in cat and a not in m:
                    # single-atom head symbols, or base + stride*k
                    if a == self._kctr:
                        m[a] = L.addc(L.atom(a), 1) if where == "back" else L.ZERO
                    elif len(hl[1]) == 1 and kk == 1 and hl[0] == 0 and self.is_head_atom(a):
                        v = env[k[1]] if k[0] == "v" else self.ent_value(fr, env, st, k)
                        if v[0] == "U":
                            return None
                        if v[0] == "P":
                            if v[1] != hv[1]:
                                return None
                            m[a] = v[2]
                        else:
                            if v[0] != "I":
                                return None
                            lo = self.alo[a]
                            m[a] = self.s(st, v) if lo < 0 else self.u(st, v)
        return L.subst(c, m)

    def is_head_atom(self, a):
        n = self.aname[a]
        return n.startswith("lv#") or n.startswith("lp")

    # -------------------------------------------------------------- helpers
    def trace_lines(self, st, limit=14):
        out = []
        t = st.trace
        while t and len(out) < limit:
            t, fr, I, v = t
            out.append("%s:%s in %s: branch %s" % (I.get("fl", fr.fn.file), I.get("ln", "?"), fr.fn.name, v))
        out.reverse()
        return out


def runs(vals):
    out = []
    for v in vals:
        if out and out[-1][1] == v - 1:
            out[-1] = (out[-1][0], v)
        else:
            out.append((v, v))
    return out
