"""Comparing packed values gives the order of the values and leaves both readers behind them."""
from .. import absint, contracts as C, lin as L
from ..harness import Result, parallel, program
from .storage import StoreClient

S = "as_unpacker"
LESS, EQUAL, GREATER = 0, 1, 2
RANK = {"nil": 1, "bool": 2, "int": 3, "str": 4, "list": 5, "map": 6, "bytes": 9, "double": 10, "geo": 11, "flags": 12,
        "wild": 13, "inf": 14}
BLOB = {"str": 3, "bytes": 4, "geo": 0x17}
INTS = {"u8": (0xcc, 1, False), "u16": (0xcd, 2, False), "u32": (0xce, 4, False), "i8": (0xd0, 1, True),
        "i16": (0xd1, 2, True), "i32": (0xd2, 4, True), "i64": (0xd3, 8, True), "u64": (0xcf, 8, False)}

# a shape: (kind, ...) of a packed value; its content is unknown
FIX, NIL, WILD, INF = ("int", "fix"), ("nil",), ("wild",), ("inf",)


def lst(*e, **k):
    return ("list", e, k.get("form", "fix"))


def mp(*e, **k):
    """Pairs; flags (one number) makes it an ordered map."""
    return ("map", e, k.get("flags"), k.get("form", "fix"))


def st(n, kind="str", form="fix"):
    return (kind, n, form)


class Value:
    """A shape with names for its unknown bytes."""
    def __init__(self, run, state, shape):
        self.run = run
        self.kind = shape[0]
        self.bytes = []
        self.kids = []
        self.n = None
        getattr(self, "mk_" + (self.kind if self.kind not in BLOB else "blob"))(state, *shape[1:])
        self.rank = RANK[self.kind]

    def byte(self, lo=0, hi=255):
        it = self.run.it
        return L.atom(it.mk_atom("b#%d" % it.bump(), lo, hi))

    def put(self, *bs):
        self.bytes += [L.const(b) if isinstance(b, int) else b for b in bs]

    def kid(self, state, shape):
        v = Value(self.run, state, shape)
        self.kids.append(v)
        self.bytes += v.bytes

    def mk_nil(self, state):
        self.put(0xc0)

    def mk_bool(self, state):
        self.n = self.byte(0, 1)
        self.put(L.addc(self.n, 0xc2))

    def mk_int(self, state, form):
        it = self.run.it
        if form == "fix":
            self.n = self.byte(0, 127)
            return self.put(self.n)
        if form == "neg":
            b = self.byte(0xe0, 0xff)
            self.n = L.addc(b, -256)
            return self.put(b)
        t, k, sg = INTS[form]
        bs = [self.byte(0, 127 if form == "u64" and not i else 255) for i in range(k)]
        self.put(t, *bs)
        n = L.ZERO
        for b in bs:
            n = L.add(L.scale(n, 256), b)
        self.n = it.s(state, ("I", 8 * k, n)) if sg else n

    def mk_blob(self, state, n, form):
        k = n + 1
        h, l = k >> 8, k & 255
        self.put(*{"fix": (0xa0 + k,), "8": (0xd9, k), "16": (0xda, h, l), "32": (0xdb, 0, 0, h, l), "b8": (0xc4, k),
                   "b16": (0xc5, h, l), "b32": (0xc6, 0, 0, h, l)}[form])
        # of long texts only the end is unknown
        self.text = [self.byte() if i > n - 8 else L.const(97) for i in range(n)]
        self.put(BLOB[self.kind], *self.text)

    def mk_double(self, state):
        self.put(0xcb, *[self.byte() for _ in range(8)])

    def mk_wild(self, state):
        self.put(0xd4, 0xff, 0)

    def mk_inf(self, state):
        self.put(0xd4, 0xff, 1)

    def mk_list(self, state, e, form):
        k = len(e)
        self.put(*{"fix": (0x90 + k,), "16": (0xdc, k >> 8, k & 255), "32": (0xdd, 0, 0, k >> 8, k & 255)}[form])
        for x in e:
            self.kid(state, x)

    def mk_map(self, state, e, flags, form):
        k = len(e) + (flags is not None)
        self.put(*{"fix": (0x80 + k,), "16": (0xde, k >> 8, k & 255), "32": (0xdf, 0, 0, k >> 8, k & 255)}[form])
        if flags is not None:
            f = Value.__new__(Value)
            f.run, f.kind, f.rank, f.n, f.kids = self.run, "flags", RANK["flags"], L.const(flags), []
            f.bytes = [L.const(b) for b in (0xc7, 0, flags)]
            self.kids.append(f)
            self.bytes += f.bytes
            self.kid(state, NIL)
        for a, b in e:
            self.kid(state, a)
            self.kid(state, b)


def three(a, b, conds):
    """[(conditions, result)] for two numbers."""
    return [(conds + [("ge", L.addc(L.sub(b, a), -1))], LESS), (conds + [("eq", L.sub(a, b))], EQUAL),
            (conds + [("ge", L.addc(L.sub(a, b), -1))], GREATER)]


def sizes(a, b):
    return LESS if a < b else GREATER if a > b else EQUAL


def walk(pairs, end, conds):
    """Decided by the first difference, else by end.  A wildcard ends it."""
    out = []
    for a, b in pairs:
        if "wild" in (a.kind, b.kind):
            return out + [(conds, EQUAL)]
        same = []
        for c, r in order(a, b, conds):
            if r == EQUAL:
                same.append(c)
            else:
                out.append((c, r))
        if not same:
            return out
        if len(same) > 1:
            rest = pairs[pairs.index((a, b)) + 1:]
            for c in same:
                out += walk(rest, end, c)
            return out
        conds = same[0]
    return out + [(conds, end)]


def order(a, b, conds=()):
    """What the comparison has to give: [(conditions, result)], None for doubles (any result)."""
    conds = list(conds)
    if "wild" in (a.kind, b.kind):
        return [(conds, EQUAL)]
    if a.rank != b.rank:
        return [(conds, sizes(a.rank, b.rank))]
    if a.kind in ("nil", "inf"):
        return [(conds, EQUAL)]
    if a.kind in ("bool", "int", "flags"):
        return three(a.n, b.n, conds)
    if a.kind in BLOB:
        out = []
        for x, y in zip(a.text, b.text):
            t = three(x, y, conds)
            out += [t[0], t[2]]
            conds = t[1][0]
        return out + [(conds, sizes(len(a.text), len(b.text)))]
    if a.kind == "list":
        return walk(list(zip(a.kids, b.kids)), sizes(len(a.kids), len(b.kids)), conds)
    if a.kind == "map":
        if len(a.kids) != len(b.kids):
            return [(conds, sizes(len(a.kids), len(b.kids)))]
        return walk(list(zip(a.kids, b.kids)), EQUAL, conds)
    return [(conds, None)]


class Run:
    def __init__(self, name):
        p = program()
        self.p = p
        self.fn = p.need(name)
        self.raw = "buf" in name
        self.cl = StoreClient(p, name)
        self.it = absint.Interp(p, self.cl, max_steps=4000000, max_states=2000, keep=2000, max_depth=1200, unroll=2000)
        self.it.each_way = self.it.recurse = self.it.exact_mem = True
        self.it.alloc_fails = False
        self.it.bytewise.add(-1)

    def fail(self, e, rule, msg):
        self.cl.report_at(rule, self.fn.file, self.fn.line, self.fn.name, "%s: %s" % (self.what, msg), self.it.trace_lines(e))

    def compare(self, x, y, what):
        it = self.it
        s = absint.State()
        self.what = what
        vs = [Value(self, s, x), Value(self, s, y)]
        args, pks = [], []
        for k, v in enumerate(vs):
            n = len(v.bytes)
            more = 0 if self.raw else 4         # further values behind it
            buf = C.region(it, s, "input%d" % k, L.const(n + more), "input")
            for i, b in enumerate(v.bytes + [L.ZERO] * more):
                it.store(s, ("P", buf[1], L.const(i)), 1, ("I", 8, b))
            if self.raw:
                args += [buf, ("I", 32, L.const(n))]
                continue
            pk = C.region(it, s, "unpacker%d" % k, L.const(self.p.structs[S]["size"]), S)
            for f, val in (("buffer", buf), ("offset", 0), ("length", n + more)):
                C.put(it, s, pk[1], 0, S, f, val)
            args.append(pk)
            pks.append(pk)
        want = order(*vs)
        self.cl.count("comparisons")
        it.max_steps = it.steps + 4000000
        for e, rv in it.call_fn(self.fn, args, s.copy()):
            if not it.add_ge(e.copy(), L.ZERO):
                continue
            self.cl.count("outcomes")
            r = it.const_of(e, rv)
            if r is not None and r >= 1 << 31:
                r -= 1 << 32
            for k, pk in enumerate(pks):
                at = C.get(it, e, pk[1], 0, S, "offset")
                if at[0] != "I" or it.const_of(e, at) != len(vs[k].bytes):
                    self.fail(e, "offset", "the %s reader is not left behind its value" % ("first", "second")[k])
                    break
            if r not in (LESS, EQUAL, GREATER):
                self.fail(e, "result", "no order is given")
                continue
            for conds, w in want:
                if w is None or w == r:
                    continue
                t = e.copy()
                if all((it.add_eq if k == "eq" else it.add_ge)(t, l) for k, l in conds) and it.close(t):
                    self.fail(e, "order", "gives %s where it has to be %s" % tuple(
                        ("less", "equal", "greater")[k] for k in (r, w)))
                    break


LEAVES = [NIL, ("bool",), FIX, ("int", "neg"), ("int", "u8"), ("int", "i8"), ("int", "u16"), ("int", "i16"), ("int", "u32"),
          ("int", "i32"), ("int", "i64"), ("int", "u64"),
          st(0), st(1), st(2), st(1, "str", "8"), st(2, "bytes"), st(1, "bytes", "b8"), st(2, "geo"), ("double",), INF, WILD,
          lst(), mp()]


def cases():
    """Pairs of shapes, in groups."""
    out = {}
    out["single values"] = [(a, b) for a in LEAVES for b in LEAVES]
    out["texts"] = [(st(a, k, f), st(b, k, g)) for a in range(4) for b in range(4) for k, f, g in (
        ("str", "fix", "16"), ("bytes", "b32", "fix"))]
    out["lists"] = [(lst(*[FIX] * a), lst(*[FIX] * b)) for a in range(4) for b in range(4)]
    out["lists"] += [(lst(FIX, FIX, form=f), lst(FIX, FIX, FIX, form=g)) for f in ("fix", "16", "32") for g in ("fix", "16", "32")]
    n300 = [NIL] * 300
    out["long values"] = [(st(a, k, f), st(b, k, g)) for a, b in ((300, 300), (300, 44), (256, 300), (512, 256)) for k, f, g in (
        ("str", "16", "16"), ("str", "32", "16"), ("bytes", "b16", "b32"), ("geo", "b32", "b16"))]
    out["long values"] += [(lst(*n300, a, form="16"), lst(*n300, *b, form="32")) for a in (FIX, WILD, NIL) for b in (
        (), (FIX,), (FIX, NIL), (WILD, NIL))]
    out["long values"] += [(mp(*[(NIL, NIL)] * a, (FIX, FIX), form="16"), mp(*[(NIL, NIL)] * b, (FIX, FIX), form="32"))
                           for a in (15, 300) for b in (44, 300)]
    els = [FIX, NIL, st(1), lst(FIX), lst(FIX, FIX), mp((FIX, FIX)), mp(), WILD, INF]
    out["nested lists"] = [(lst(a, FIX), lst(b, FIX)) for a in els for b in els]
    out["nested lists"] += [(lst(FIX, a), lst(FIX, b, NIL)) for a in els for b in els]
    out["maps"] = [(mp(*[(FIX, FIX)] * a), mp(*[(FIX, FIX)] * b)) for a in range(4) for b in range(4)]
    out["maps"] += [(mp((FIX, FIX), form=f), mp((FIX, st(1)), form=g)) for f in ("fix", "16", "32") for g in ("fix", "16", "32")]
    out["nested maps"] = [(mp((a, FIX), (FIX, FIX)), mp((b, FIX), (FIX, FIX))) for a in els for b in els]
    out["nested maps"] += [(mp((FIX, a), (FIX, FIX)), mp((FIX, b), (FIX, FIX))) for a in els for b in els]
    om = [mp(*[(FIX, FIX)] * n, flags=f) for n in range(3) for f in (1, 3)] + [mp(*[(FIX, FIX)] * n) for n in range(4)]
    out["ordered maps"] = [(a, b) for a in om for b in om if a[2] is not None or b[2] is not None]
    out["ordered maps"] += [(lst(a, FIX), lst(b, FIX)) for a in om[:6] for b in om[:6]]
    out["deep"] = []
    deep = [(lst(FIX), lst(FIX, NIL)), (lst(FIX, FIX), lst(FIX, FIX)), (lst(WILD, NIL), lst(FIX)), (mp((FIX, FIX)), mp()),
            (mp((FIX, FIX)), mp((FIX, FIX))), (mp((FIX, FIX), flags=1), mp((FIX, FIX), flags=1)),
            (lst(lst(FIX, NIL), FIX), lst(lst(FIX), FIX)), (lst(mp((FIX, NIL)), NIL), lst(mp(), NIL)), (lst(FIX, NIL, NIL), FIX)]
    for n in (255, 256, 257):
        for box in (lambda x: lst(x), lambda x: mp((NIL, x)), lambda x: lst(x, NIL)):
            for a, b in deep:
                for _ in range(n):
                    a, b = box(a), box(b)
                out["deep"].append((a, b))
    return out


def text(x):
    if x[0] == "list":
        return "[%s]" % ",".join(map(text, x[1]))
    if x[0] == "map":
        return "{%s%s}" % ("" if x[2] is None else "flags %d " % x[2], ",".join("%s:%s" % (text(a), text(b)) for a, b in x[1]))
    return " ".join(map(str, x))


def short(x):
    t = text(x)
    return t if len(t) < 60 else "...%s..." % t.strip("[]{}nil:,")


def run_op(name, group, lo, hi):
    import sys
    import threading
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    box = []

    def go():
        try:
            r = Run(name)
            for x, y in cases()[group][lo:hi]:
                r.compare(x, y, "%s and %s" % (short(x), short(y)))
            box.append(r.cl)
        except BaseException as e:
            box.append(e)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if isinstance(box[0], BaseException):
        raise box[0]
    return box[0]


def check_compare(p, tier):
    res = Result()
    jobs = []
    for name in ("as_unpack_compare", "as_unpack_buf_compare"):
        p.need(name)
        for g, c in cases().items():
            if "buf" in name and g in ("deep", "nested lists", "nested maps"):
                continue
            step = 9 if g == "deep" else 60
            jobs += [(run_op, (name, g, k, k + step)) for k in range(0, len(c), step)]
    for cl in parallel(jobs):
        res.add_client(cl)
    res.instances = sorted({"%s: %s" % a[:2] for _, a in jobs})
    res.need("comparisons", 500)
    res.need("outcomes", 800)
    res.assumptions = ["both values are well-formed", "memory for values nested deeper than 256 levels is available"]
    return res
