"""Comparing values in memory gives the order of the values."""
from .. import absint, contracts as C, lin as L
from ..harness import Result, parallel, program
from .compare import RANK, LESS, EQUAL, GREATER, order, text
from .storage import StoreClient

FN = "as_val_cmp"
TYPE = {k: v for k, v in RANK.items() if k != "flags"}
STRUCT = {"bool": "as_boolean", "int": "as_integer", "str": "as_string", "geo": "as_geojson", "bytes": "as_bytes",
          "double": "as_double", "list": "as_list", "map": "as_orderedmap"}
NIL, BOOL, INT, DOUBLE, INF, WILD = ("nil",), ("bool",), ("int",), ("double",), ("inf",), ("wild",)


def lst(*e):
    return ("list", e)


def mp(*e):
    return ("map", e, None)


class Lists(StoreClient):
    """Lists of any implementation: only their size and elements are known.  Maps are ordered maps."""
    ops = {}
    kids = {}

    def on_fnptr(self, it, st, fr, I, target, args):
        op = self.ops.get(target[1]) if target[0] == "P" else None
        kids = self.kids.get(args[0][1]) if op and args[0][0] == "P" else None
        if kids is None:
            return None
        self.site("list operations", fr, I)
        if op in ("size", "map size"):
            return [(st, ("I", 32, L.const(len(kids) // (1 if op == "size" else 2))))]
        if op == "get":
            k = it.const_of(st, args[1])
            return None if k is None else [(st, kids[k].at if k < len(kids) else C.NULLP)]
        return None


class Value:
    def __init__(self, run, st, shape):
        it, self.kind, self.kids, self.n = run.it, shape[0], [], None
        self.rank = TYPE[self.kind]
        S = STRUCT.get(self.kind, "as_val")
        self.at = C.region(it, st, self.kind, L.const(run.p.structs[S]["size"]), S)
        o = self.at[1]
        C.put(it, st, o, 0, "as_val", "type", self.rank)
        C.put(it, st, o, 0, "as_val", "count", 1)
        if self.kind == "bool":
            self.n = L.atom(it.mk_atom("b#%d" % it.bump(), 0, 1))
            C.put(it, st, o, 0, S, "value", ("I", 8, self.n))
        elif self.kind == "int":
            self.n = L.atom(it.mk_atom("n#%d" % it.bump(), -(1 << 63), (1 << 63) - 1))
            C.put(it, st, o, 0, S, "value", ("I", 64, self.n))
        elif self.kind in ("str", "geo", "bytes"):
            z = self.kind != "bytes"
            n = shape[1]
            # of long texts only the end is unknown
            self.text = [L.atom(it.mk_atom("c#%d" % it.bump(), 1 if z else 0, 255)) if i > n - 8 else L.const(97)
                         for i in range(n)]
            v = C.region(it, st, "text", L.const(n + z), "text")
            for i, c in enumerate(self.text + [L.ZERO] * z):
                it.store(st, ("P", v[1], L.const(i)), 1, ("I", 8, c))
            C.put(it, st, o, 0, S, "value", v)
            if z:
                it.textlen[v[1]] = L.const(n)
                C.put(it, st, o, 0, S, "len", n)
            else:
                C.put(it, st, o, 0, S, "size", n)
                C.put(it, st, o, 0, S, "capacity", n)
        elif self.kind == "list":
            C.put(it, st, o, 0, S, "hooks", run.hooks["as_list"])
            self.kids = [Value(run, st, x) for x in shape[1]]
            run.cl.kids[o] = self.kids
        elif self.kind == "map":
            C.put(it, st, o, 0, "as_map", "hooks", run.hooks["as_map"])
            C.put(it, st, o, 0, "as_map", "flags", 1)
            self.kids = [Value(run, st, x) for e in shape[1] for x in e]
            run.cl.kids[o] = self.kids
            t = C.region(it, st, "table", L.const(8 * len(self.kids)), "map_entry")
            for i, k in enumerate(self.kids):
                it.store(st, ("P", t[1], L.const(8 * i)), 8, k.at)
            n = len(self.kids) // 2
            for f, v in (("count", n), ("capacity", n), ("table", t), ("hold_count", 0), ("hold_table", C.NULLP),
                         ("hold_locations", C.NULLP)):
                C.put(it, st, o, 0, S, f, v)


class Run:
    def __init__(self):
        self.p = program()
        self.fn = self.p.need(FN)
        self.cl = Lists(self.p, FN, opaque=())

    def compare(self, x, y):
        it = self.it = absint.Interp(self.p, self.cl, max_steps=2500000, max_states=2000, keep=2000, max_depth=60, unroll=1200)
        it.each_way = it.recurse = it.exact_mem = True
        it.alloc_fails = False
        it.bytewise.add(-1)
        st = absint.State()
        cl = self.cl
        cl.ops, cl.kids = {}, {}
        self.hooks = {}
        for T in ("as_list", "as_map"):
            H = T + "_hooks"
            self.hooks[T] = h = C.region(it, st, "operations", L.const(self.p.structs[H]["size"]), H)
            for f in self.p.structs[H]["fields"]:
                v = C.region(it, st, f["name"], None)
                cl.ops[v[1]] = ("map " if T == "as_map" else "") + f["name"]
                C.put(it, st, h[1], 0, H, f["name"], v)
        a, b = Value(self, st, x), Value(self, st, y)
        cl.count("comparisons")
        for e, rv in it.call_fn(self.fn, [a.at, b.at], st.copy()):
            if not it.close(e):
                continue
            cl.count("outcomes")
            r = it.const_of(e, rv)
            if r not in (LESS, EQUAL, GREATER):
                self.fail(e, x, y, "result", "no order is given")
                continue
            for conds, w in order(a, b):
                if w is None or w == r:
                    continue
                t = e.copy()
                if all((it.add_eq if k == "eq" else it.add_ge)(t, l) for k, l in conds) and it.close(t):
                    self.fail(e, x, y, "order", "gives %s where it has to be %s" % tuple(
                        ("less", "equal", "greater")[k] for k in (r, w)))
                    break

    def fail(self, e, x, y, rule, msg):
        self.cl.report_at(rule, self.fn.file, self.fn.line, self.fn.name, "%s and %s: %s" % (text(x)[:60], text(y)[:60], msg),
                          self.it.trace_lines(e))


def cases():
    out = {}
    one = [NIL, BOOL, INT, ("str", 1), ("bytes", 1), DOUBLE, ("geo", 1), INF, lst(), mp()]
    out["single values"] = [(a, b) for a in one for b in one]
    out["texts"] = [((k, a), (k, b)) for k in ("str", "geo", "bytes") for a in range(4) for b in range(4)]
    out["texts"] += [((k, a), (k, b)) for k in ("str", "geo", "bytes") for a, b in ((300, 300), (300, 44), (256, 300))]
    out["lists"] = [(lst(*[INT] * a), lst(*[INT] * b)) for a in range(4) for b in range(4)]
    els = [INT, NIL, ("str", 1), lst(INT), lst(INT, INT), WILD, INF, BOOL]
    out["nested lists"] = [(lst(a, INT), lst(b, INT)) for a in els for b in els]
    out["nested lists"] += [(lst(INT, a), lst(INT, b, NIL)) for a in els for b in els]
    out["nested lists"] += [(lst(*[NIL] * 300, INT), lst(*[NIL] * 300, *b)) for b in ((), (INT,), (INT, NIL))]
    ps = [(INT, INT), (INT, ("str", 1)), (("str", 1), INT), (INT, lst(INT)), (INT, mp((INT, INT)))]
    out["maps"] = [(mp(*[(INT, INT)] * a), mp(*[(INT, INT)] * b)) for a in range(4) for b in range(4)]
    out["maps"] += [(mp(a, (INT, INT)), mp(b, (INT, INT))) for a in ps for b in ps]
    out["maps"] += [(lst(mp(a), INT), lst(mp(b), INT)) for a in ps for b in ps]
    return out


def run_op(group):
    r = Run()
    for x, y in cases()[group]:
        r.compare(x, y)
    return r.cl


def check_valcmp(p, tier):
    res = Result()
    p.need(FN)
    groups = list(cases())
    for cl in parallel([(run_op, (g,)) for g in groups]):
        res.add_client(cl)
    res.instances = ["%s: %s" % (FN, g) for g in groups]
    res.need("comparisons", 150)
    res.need("outcomes", 200)
    res.assumptions = ["strings and GeoJSON hold terminated text", "lists give their size and elements truthfully"]
    return res
