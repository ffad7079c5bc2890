"""Container storage: every access stays inside the allocated block, every
operation leaves the object consistent."""
from .. import absint, contracts as C, libmodel, lin as L
from ..absint import NULL
from ..harness import RuleClient, Result, sym_arg, is_public, parallel, program, AnalysisBroken

OPAQUE = {"as_val_val_destroy", "as_val_val_reserve", "as_val_val_hashcode", "as_val_val_tostring", "as_val_cmp"}


def pointee(dt):
    if not dt or not dt.endswith("*"):
        return None
    return dt[:-1].replace("const ", "").strip()


class StoreClient(RuleClient):
    """Bounds, use after free and bad frees on every block of known size."""

    def __init__(self, prog, entry, opaque=OPAQUE):
        super().__init__()
        self.p = prog
        self.entry = entry
        self.opaque = opaque

    def inside(self, it, st, off, n, size):
        return it.entails(st, off) and it.entails(st, L.sub(L.sub(size, off), n))

    def on_access(self, it, st, fr, I, kind, ptr, size, val):
        if it.quiet:
            return
        ob = it.objs[ptr[1]]
        if ob.size is None or ob.kind == "null" or kind in ("strread", "strnread"):
            return
        if ob.kind == "global" and ob.init == "const" and kind != "store":
            return
        self.site("bounded access", fr, I)
        if kind == "store-unbounded":
            self.report(it, st, fr, I, "bounds", "unbounded write to %s" % ob.name)
            return
        n = size if not isinstance(size, int) else L.const(size)
        if self.inside(it, st, ptr[2], n, ob.size):
            return
        s = st.copy()
        if not it.add_ge(s, L.addc(n, -1)):
            return
        if self.inside(it, s, ptr[2], n, ob.size):
            return
        self.report(it, st, fr, I, "bounds", "%s of %s byte(s) at offset %s of %s, which has %s bytes, is not known to "
                    "stay inside it" % ("write" if kind in ("store", "rmw") else "read", it.show(n).strip("+"),
                                        it.show(ptr[2]), ob.name, it.show(ob.size)))

    def on_event(self, it, st, fr, I, what, d):
        if it.quiet:
            return
        if what == "uaf":
            self.report(it, st, fr, I, "use-after-free", "uses %s after it was freed" % it.objs[d[1]].name)
        elif what == "double-free":
            self.report(it, st, fr, I, "double-free", "frees %s twice" % it.objs[d[1]].name)
        elif what in ("free", "realloc"):
            p = d if what == "free" else d[0]
            ob = it.objs[p[1]]
            if ob.kind in ("alloca", "global") or (ob.kind == "sym" and ob.extra == "borrowed"):
                self.report(it, st, fr, I, "bad-free", "frees %s, which is not a heap block of the object" % ob.name)
            elif ob.kind == "heap" and p[2] != L.ZERO and not it.entails_eq(st, p[2]):
                self.report(it, st, fr, I, "bad-free", "frees %s through a pointer that is not its start" % ob.name)

    def on_call(self, it, st, fr, I, name, args):
        if name in self.opaque:
            return [(st, it.unknown(I["t"], name) if I["t"] != "void" else None)]
        return None


# generic value operations whose argument is one particular type: (function, argument) -> type
CAST = {("as_bytes_val_destroy", 0): "as_bytes", ("as_bytes_val_hashcode", 0): "as_bytes",
        ("as_bytes_val_tostring", 0): "as_bytes"}


def build(it, fn, kinds, lens, init):
    """Entry states: valid objects for the arguments of known kinds."""
    st = absint.State()
    args = []
    sts = [st]
    objs = []
    for i, a in enumerate(fn.args):
        dt = pointee(fn.ditypes[i + 1]) if len(fn.ditypes) > i + 1 else None
        dt = CAST.get((fn.name, i), dt)
        v = sym_arg(it, fn, i)
        if v[0] == "P":
            for s in sts:
                s.nn[v[1]] = True
            ob = it.objs[v[1]]
            ob.ditype = dt or ob.ditype
            if dt == "char" and i not in [x[0] for x in lens]:
                # a terminated string
                m = it.om(st, v[1])
                e = it.mk_atom("strlen(%s)" % ob.name, 0, libmodel.MAXSTR, ("strlen", v[1], L.ZERO, m.ver, m.wver))
                ob.size = L.addc(L.atom(e), 1)
            if dt in kinds:
                ob.init = "undef" if (init and not objs) else "sym"
                if not (init and not objs):
                    sts = [x for s in sts for x in C.MAKE[dt](it, s, v[1], 0, a["name"] or dt)]
                objs.append((dt, v[1]))
        elif v[0] == "B":
            pass
        args.append(v)
    for b, n, how in lens:
        for s in sts:
            ln = args[n]
            if ln[0] == "I":
                it.add_ge(s, L.addc(L.neg(it.u(s, ln)), C.BIG - 1))
        size = it.u(sts[0], args[n]) if isinstance(n, int) else None
        v = (C.owned if how == "owned" else C.region)(it, sts[0], fn.args[b]["name"] or "buf", size)
        for s in sts[1:]:
            s.nn[v[1]] = True
            if how == "owned":
                s.heap[v[1]] = "live"
        args[b] = v
    return sts, args, objs


INIT = {"as_string_builder_assign"}
# documented or evident preconditions: function -> [(argument, least value)]
LEAST = {"as_string_builder_init": [(1, 1)], "as_string_builder_assign": [(1, 1)]}


def is_init(name):
    return "_init" in name or name in INIT


def is_gone(name):
    return "destroy" in name or "_free" in name


def run_entry(name, kinds, lens, opaque=OPAQUE, keep=0):
    p = program()
    fn = p.need(name)
    cl = StoreClient(p, name, opaque)
    it = absint.Interp(p, cl, max_steps=2500000, keep=keep)
    it.alloc_fails = False
    sts, args, objs = build(it, fn, kinds, lens, is_init(name))
    for st in sts:
        for i, lo in LEAST.get(name, []):
            it.add_ge(st, L.addc(it.u(st, args[i]), -lo))
        cl.count("entry states")
        try:
            outs = it.call_fn(fn, args, st)
        except absint.Budget:
            if cl.reports:
                return cl
            raise
        for s, rv in outs:
            cl.count("exit states")
            if is_gone(name):
                continue
            todo = list(objs)
            rt = pointee(fn.ditypes[0]) if fn.ditypes else None
            if rv is not None and rv[0] == "P" and rv[1] != NULL and rt in kinds and it.nullness(s, rv[1]) is not False:
                if it.objs[rv[1]].kind == "heap" and rv[2] == L.ZERO:
                    todo.append((rt, rv[1]))
            for dt, o in todo:
                cl.count("objects re-checked")
                for msg in C.INV[dt](it, s, o, 0):
                    cl.report_at("invariant", fn.file, fn.line, fn.name, "returns leaving %s inconsistent: %s" % (dt, msg),
                                 it.trace_lines(s))
    cl.count("entries")
    return cl


def discover(p, kinds, extra=(), skip=()):
    out = set(extra)
    for fn in p.all_functions():
        if is_public(fn) and fn.name not in skip and any(pointee(x) in kinds for x in fn.ditypes[1:] + fn.ditypes[:1]):
            out.add(fn.name)
    return sorted(out)


SIZES = ["objects passed in are consistent and buffers hold the number of bytes stated next to them",
         "single objects stay below 512 MB", "memory allocation succeeds", "distinct pointer arguments do not overlap"]

# ---------------------------------------------------------------- byte blocks
BYTES_LENS = {
    "as_bytes_copy": [(2, 3, "buf")], "as_bytes_set": [(2, 3, "buf")], "as_bytes_append": [(1, 2, "buf")],
    "as_bytes_init_wrap": [(1, 2, "owned")], "as_bytes_new_wrap": [(0, 1, "owned")],
    "as_bytes_to_string": [(0, 1, "buf"), (2, 3, "buf")], "as_bytes_to_string_with_prefix": [(0, 1, "buf"), (2, 3, "buf")],
    "as_bytes_from_string": [(0, 1, "buf")],
    "as_string_builder_append_bytes": [(1, 2, "buf")], "as_string_builder_assign": [(2, 1, "buf")],
}


def check_bytes(p, tier):
    res = Result()
    kinds = frozenset(["as_bytes", "as_string_builder", "as_buffer"])
    extra = set(BYTES_LENS) | {n for (n, _), k in CAST.items() if k in kinds}
    for n in extra:
        p.need(n)
    names = [n for n in discover(p, kinds, extra) if in_scope(p, n, ("as_bytes", "as_string_builder", "as_buffer"))]
    for cl in parallel([(run_entry, (n, kinds, BYTES_LENS.get(n, []))) for n in names]):
        res.add_client(cl)
    res.instances = names
    res.need("entries", 45)
    res.need("bounded access", 60)
    res.need("objects re-checked", 150)
    res.assumptions = SIZES
    return res


def in_scope(p, name, prefixes):
    return name.startswith(tuple(x + "_" for x in prefixes))
