"""The text form of a value is terminated text in memory of its own, or none."""
from .. import absint, contracts as C, lin as L
from ..harness import Result, parallel, program
from .maps import nomem, null
from .codec import Run as Codec
from .storage import StoreClient

PART = "as_val_val_tostring"
TYPE = {"as_boolean": 2, "as_integer": 3, "as_string": 4, "as_pair": 8, "as_bytes": 9, "as_double": 10, "as_geojson": 11,
        "as_list": 5, "as_map": 6}
FIXED = {"as_nil": "NIL", "as_rec": "[ REC ]", "as_cmp_inf": "INF", "as_cmp_wildcard": "*"}
OPS = ["%s_val_tostring" % k for k in list(TYPE) + list(FIXED)]
DIGITS = [(b"0123456789abcdef"[d], b"0123456789ABCDEF"[d]) for d in range(16)]
LONG = 1 << 26     # of the text of an entry of a list or map
BIG = (1 << 31) - 1


class Texts(StoreClient):
    """Parts have a text of their own or none."""
    parts = {}
    ops = {}            # object standing for an operation of a list or map -> its name
    entries = ()        # values of each entry, as many as the callback takes

    def on_fnptr(self, it, st, fr, I, target, args):
        op = self.ops.get(target[1]) if target[0] == "P" else None
        if op == "size":
            return [(st, ("I", 32, L.const(len(self.entries))))]
        if op != "foreach" or args[1][0] != "F":
            return None
        fn = self.p.resolve(args[1][2], args[1][1])
        out, sts = [], [st]
        for vs in self.entries:
            nxt = []
            for s in sts:
                for e, rv in it.call_fn(fn, list(vs) + [args[2]], s):
                    e2 = e.copy()
                    l = it.lin_of(e, rv)
                    if it.add_eq(e2, l):
                        out.append((e2, ("B", False)))
                    if it.add_ge(e, L.addc(l, -1)):
                        nxt.append(e)
            sts = nxt
            self.site("entries visited", fr, I)
        return out + [(s, ("B", True)) for s in sts]

    def on_null(self, it, st, fr, I, ptr, definite):
        if not it.quiet and it.objs[ptr[1]].kind in ("heap", "null"):
            self.report(it, st, fr, I, "none", "uses a text or memory that may not be there")

    def on_event(self, it, st, fr, I, what, d):
        if what == "allocfail":
            st.cl["nomem"] = True
        super().on_event(it, st, fr, I, what, d)

    def on_call(self, it, st, fr, I, name, args):
        if name != PART:
            return super().on_call(it, st, fr, I, name, args)
        k = self.parts.get(args[0][1]) if args[0][0] == "P" else None
        if k is None:
            return None
        none = st.copy()
        none.cl["none"] = True
        o = C.owned(it, st, "text of part %d" % k, L.addc(self.lens[k], 1), "part")
        it.textlen[o[1]] = self.lens[k]
        for i, b in enumerate(self.chars[k] + [L.ZERO] if self.chars[k] is not None else ()):
            it.store(st, ("P", o[1], L.const(i)), 1, ("I", 8, b))
        self.count("texts of parts")
        return [(st, o), (none, C.NULLP)]


class Run(Codec):
    def __init__(self, name):
        p = program()
        self.p, self.name = p, name
        self.S = name[:-len("_val_tostring")]
        self.fn = p.need(name)
        self.cl = Texts(p, name)

    def start(self, what):
        self.what = what
        self.it = it = absint.Interp(self.p, self.cl, max_steps=2500000, max_states=500, keep=200)
        it.marks.add(-1)
        it.bytewise.add(-1)
        it.each_way = it.exact_mem = it.uneven = True
        self.st = st = absint.State()
        self.o = C.region(it, st, "value", L.const(self.p.structs.get(self.S, {"size": 64})["size"]), self.S)
        if self.S in TYPE:
            C.put(it, st, self.o[1], 0, "as_val", "type", TYPE[self.S])
            C.put(it, st, self.o[1], 0, "as_val", "count", 1)
        return it, st

    def put(self, f, v):
        C.put(self.it, self.st, self.o[1], 0, self.S, f, v)

    def byte(self, lo=1, hi=255):
        return L.atom(self.it.mk_atom("b#%d" % self.it.bump(), lo, hi))

    def fail(self, e, rule, msg):
        self.cl.report_at(rule, self.fn.file, self.fn.line, self.fn.name, "%s: %s" % (self.what, msg), self.it.trace_lines(e))

    def judge(self, want, none=False, end=None):
        """want: the characters (numbers or four bits), or None when only memory and the end are looked at."""
        it = self.it
        self.cl.count("cases")
        for e, rv in it.call_fn(self.fn, [self.o], self.st.copy()):
            self.cl.count("outcomes")
            gone = null(it, e, rv)
            own = rv[1] if rv[0] == "P" and not gone else None
            for o, h in e.heap.items():
                if h == "live" and o != own and it.nullness(e, o) is not False:
                    self.fail(e, "leak", "%s is not freed" % it.objs[o].name)
            if gone:
                if not (none or nomem(it, e) or e.cl.get("none")):
                    self.fail(e, "none", "no text is given")
                continue
            if it.bitwise and it.tables(e) is None:
                continue
            if rv[0] != "P" or e.heap.get(own) != "live" or rv[2] != L.ZERO:
                self.fail(e, "owner", "the text is not memory of its own")
                continue
            if none:
                self.fail(e, "none", "a text is given")
            elif want is not None and not e.cl.get("none"):
                self.compare(e, rv, want)
            elif end is not None:
                g = it.load(e, None, None, ("P", own, end), 1, "i8")
                if g[0] != "I" or it.const_of(e, g) != 0:
                    self.fail(e, "end", "the text does not end behind its last character")

    def compare(self, e, rv, want):
        it = self.it
        for i, w in enumerate(list(want) + [0]):
            self.cl.count("characters compared")
            g = it.load(e, None, None, ("P", rv[1], L.const(i)), 1, "i8")
            if isinstance(w, list):
                if g[0] != "I" or not self.group_is(e, g[2], w, DIGITS):
                    return self.fail(e, "content", "character %d of the text is wrong" % i)
                continue
            w = L.const(w) if isinstance(w, int) else w
            if g[0] != "I" or not it.entails_eq(e, L.sub(it.u(e, g), w)):
                return self.fail(e, "content", "character %d of the text is wrong" % i)

    # -- kinds
    def do_fixed(self):
        self.start(self.S)
        self.judge([ord(c) for c in FIXED[self.S]])

    def do_as_boolean(self):
        for b in (0, 1):
            self.start("true" if b else "false")
            self.put("value", b)
            self.judge([ord(c) for c in self.what])

    def do_number(self):
        self.start("any number")
        self.judge(None)

    def do_string(self):
        for n in (0, 1, 2, 5):
            for how in ("length unknown", "length known", "text longer than its length"):
                it, st = self.start("%d characters, %s" % (n, how))
                more = 4 if "longer" in how else 0
                cs = [self.byte() for _ in range(n + more)]
                v = C.region(it, st, "text", L.const(n + more + 1), "text")
                for i, c in enumerate(cs + [L.ZERO]):
                    it.store(st, ("P", v[1], L.const(i)), 1, ("I", 8, c))
                it.textlen[v[1]] = L.const(n + more)
                self.put("value", v)
                self.put("len", (1 << 64) - 1 if "unknown" in how else n)
                self.judge([34] + cs[:n] + [34])
        it, st = self.start("any length")
        n, t = (C.num(it, k, 0, BIG, 64) for k in ("length", "text length"))
        it.add_ge(st, L.sub(t[2], n[2]))
        v = C.region(it, st, "text", L.addc(t[2], 1), "text")
        it.textlen[v[1]] = t[2]
        self.put("value", v)
        self.put("len", n)
        self.judge(None, end=L.addc(n[2], 2))
        self.start("no text")
        self.put("value", C.NULLP)
        self.judge(None, none=True)

    do_as_string = do_as_geojson = do_string
    do_as_integer = do_as_double = do_number

    def do_as_pair(self):
        for la, lb in ((0, 0), (1, 2), (3, 0), (None, None)):
            it, st = self.start("parts of %s and %s characters" % (la, lb) if la is not None else "parts of any length")
            self.cl.parts, self.cl.lens, self.cl.chars = {}, {}, {}
            for k, n in ((1, la), (2, lb)):
                v = C.region(it, st, "part%d" % k, L.const(64), "as_val")
                self.put("_%d" % k, v)
                self.cl.parts[v[1]] = k
                self.cl.chars[k] = None if n is None else [self.byte() for _ in range(n)]
                self.cl.lens[k] = C.num(it, "length", 0, BIG, 64)[2] if n is None else L.const(n)
            c = self.cl.chars
            self.judge(None if la is None else [40] + c[1] + [44, 32] + c[2] + [41])

    def container(self, pairs, ends):
        """Lists and maps of entries with short texts, and of any length."""
        H = self.S + "_hooks"
        for n, la, lb in ((0, 0, 0), (1, 1, 2), (2, 2, 0), (2, 1, 1), (1, None, None), (2, None, None), (0, None, None)):
            it, st = self.start("%d entries with texts of %s" % (n, "any length" if la is None else "%d and %d" % (la, lb)))
            h = C.region(it, st, "operations", L.const(self.p.structs[H]["size"]), H)
            cl = self.cl
            cl.ops, cl.parts, cl.lens, cl.chars, cl.entries = {}, {}, {}, {}, []
            for f in self.p.structs[H]["fields"]:
                v = C.region(it, st, f["name"], None)
                cl.ops[v[1]] = f["name"]
                C.put(it, st, h[1], 0, H, f["name"], v)
            self.put("hooks", h)
            want, k = [ends[0]], 0
            for i in range(n):
                vs = []
                for m in (la, lb)[:1 + pairs]:
                    k += 1
                    v = C.region(it, st, "part%d" % k, L.const(64), "as_val")
                    vs.append(v)
                    cl.parts[v[1]] = k
                    cl.chars[k] = None if m is None else [self.byte() for _ in range(m)]
                    cl.lens[k] = C.num(it, "length%d" % k, 0, LONG, 64)[2] if m is None else L.const(m)
                cl.entries.append(vs)
                if la is not None:
                    want += [44, 32] * (i > 0) + cl.chars[k - pairs] + ([58] + cl.chars[k] if pairs else [])
            self.judge(None if la is None else want + [ends[1]])

    def do_as_list(self):
        self.container(0, b"[]")

    def do_as_map(self):
        self.container(1, b"{}")

    def do_as_bytes(self):
        for n in (1, 2, 3):
            it, st = self.start("%d bytes" % n)
            it.bitwise = True
            v = C.region(it, st, "storage", L.const(n), "storage")
            want = []
            for i in range(n):
                b = self.bits(8)
                it.store(st, ("P", v[1], L.const(i)), 1, ("I", 8, self.number(b)))
                want += [32] * (i > 0) + [b[4:], b[:4]]
            for f, x in (("value", v), ("size", n), ("capacity", n), ("free", 0)):
                self.put(f, x)
            self.judge(want)
        it, st = self.start("any number of bytes")
        n = C.num(it, "size", 1, (1 << 32) - 1)
        v = C.region(it, st, "storage", n[2], "storage")
        for f, x in (("value", v), ("size", n), ("capacity", n), ("free", 0)):
            self.put(f, x)
        self.judge(None)


def run_op(name):
    r = Run(name)
    getattr(r, "do_fixed" if r.S in FIXED else "do_" + r.S)()
    r.cl.count("operations")
    return r.cl


def check_texts(p, tier):
    res = Result()
    for cl in parallel([(run_op, (n,)) for n in OPS]):
        res.add_client(cl)
    res.instances = list(OPS)
    res.need("operations", len(OPS))
    res.need("cases", 30)
    res.need("outcomes", 50)
    res.need("characters compared", 100)
    res.assumptions = ["texts are at most 2^31 - 1 characters long",
                       "the recorded length of a string or GeoJSON is at most the length of its text",
                       "printf writes at most the longest text of a number in its format"]
    return res
