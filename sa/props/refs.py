"""Reference counts: one atomic step per call, the last holder cleans up, once."""
from .. import absint, contracts as C, lin as L
from ..absint import NULL
from ..harness import Result, field_off, parallel, program
from .lists import same
from .maps import nomem, null
from .storage import StoreClient

DESTROY, RESERVE = "as_val_val_destroy", "as_val_val_reserve"
MANY = 1 << 31
ACQ = ("acquire", "acq_rel", "seq_cst")
RLS = ("release", "acq_rel", "seq_cst")
# value type -> (number, struct, hooks struct)
TYPES = {"boolean": (2, "as_boolean", None), "integer": (3, "as_integer", None), "string": (4, "as_string", None),
         "list": (5, "as_list", "as_list_hooks"), "map": (6, "as_map", "as_map_hooks"),
         "rec": (7, "as_rec", "as_rec_hooks"), "pair": (8, "as_pair", None), "bytes": (9, "as_bytes", None),
         "double": (10, "as_double", None), "geojson": (11, "as_geojson", None)}
TEXT = ("string", "geojson", "bytes")
# constants, which are not counted
FIXED = {"nil": (1, "as_val"), "boolean": (2, "as_boolean"), "wildcard": (13, "as_val"), "infinity": (14, "as_val")}


class Counting(StoreClient):
    """Watches the accesses to the counted object."""
    obj = None      # the counted object
    cnt = None      # offset of its count
    take = None     # object the destroy hook belongs to

    def fail(self, it, st, fn, rule, msg):
        self.report_at(rule, fn.file, fn.line, fn.name, msg, it.trace_lines(st))

    def meddles(self, st, p):
        return not st.cl.get("step")

    def after(self, it, st, fr, I, what):
        """obj is used after the reference was given up."""
        old = st.cl["old"]
        if not it.entails_eq(st, L.addc(old, -1)):
            self.report(it, st, fr, I, "late-use", "%s the object after giving up a reference that may not be the last" % what)
        elif not st.cl.get("acq"):
            self.report(it, st, fr, I, "ordering", "%s the object after the last reference without an acquire barrier" % what)

    def on_access(self, it, st, fr, I, kind, ptr, size, val):
        if ptr[1] in st.heap and it.nullness(st, ptr[1]) is None and not it.quiet:
            self.report(it, st, fr, I, "no-memory", "uses a block whose allocation may have failed")
        if ptr[1] == self.obj and not it.quiet:
            count = ptr[2] == L.const(self.cnt)
            if count and kind == "rmw":
                self.site("atomic step", fr, I)
                old = it.load(st, None, None, ptr, 4, "i32")
                d = it.simp(st, L.sub(val[2], old[2])) if val[0] == "I" and old[0] == "I" else None
                if d is None or not L.is_const(d) or st.cl.get("step"):
                    self.report(it, st, fr, I, "count", "changes the count more than once or by an unknown amount")
                else:
                    d = (d[0] + (1 << 31)) % (1 << 32) - (1 << 31)
                    st.cl["step"] = d
                    st.cl["old"] = it.u(st, old)
                    if d < 0 and I.get("ord") not in RLS:
                        self.report(it, st, fr, I, "ordering", "gives up a reference without release ordering")
                    if I.get("ord") in ACQ:
                        st.cl["acq"] = True
            elif count and kind == "store":
                self.report(it, st, fr, I, "count", "writes the count with an ordinary store")
            elif st.cl.get("step", 0) < 0:
                self.after(it, st, fr, I, "reads" if kind == "load" else "writes")
        super().on_access(it, st, fr, I, kind, ptr, size, val)

    def on_event(self, it, st, fr, I, what, d):
        if what == "fence" and d in ACQ and st.cl.get("step"):
            st.cl["acq"] = True
        if what == "allocfail":
            st.cl["nomem"] = True
        if what == "free" and d[1] == self.obj and not it.quiet and st.cl.get("step", 0) < 0:
            self.after(it, st, fr, I, "frees")
        super().on_event(it, st, fr, I, what, d)

    def on_call(self, it, st, fr, I, name, args):
        if name == DESTROY:
            v = args[0]
            if v[0] == "P" and v[1] != NULL:
                k = ("gave", v[1])
                st.cl[k] = st.cl.get(k, 0) + 1
            return [(st, it.unknown("ptr", name))]
        return super().on_call(it, st, fr, I, name, args)

    def on_fnptr(self, it, st, fr, I, target, args):
        if target[0] == "P":
            k = ("hook", target[1], args[0][1] if args and args[0][0] == "P" else None)
            st.cl[k] = st.cl.get(k, 0) + 1
        return [(st, it.unknown(I["t"], "hook") if I["t"] != "void" else None)]


class Run:
    def __init__(self, name):
        p = program()
        self.fn = p.need(name)
        self.cl = Counting(p, name, frozenset())
        self.it = absint.Interp(p, self.cl, max_steps=500000, max_states=300, keep=60)

    def fail(self, st, rule, msg):
        self.cl.fail(self.it, st, self.fn, rule, msg)

    def watch(self, o, off, lo=1):
        self.cl.obj, self.cl.cnt = o, off
        self.it.shared = {(o, off): (lo, MANY)}

    def call(self, st, av):
        self.cl.count("entry states")
        out = []
        for e, rv in self.it.call_fn(self.fn, av, st):
            self.cl.count("exit states")
            if self.it.close(e):
                out.append((e, rv))
        return out

    def step(self, st, want):
        got = st.cl.get("step", 0)
        if got != want:
            self.fail(st, "count", "changes the count by %+d instead of %+d" % (got, want))
            return False
        return True

    # ------------------------------------------------------------------ values
    def value(self, name, heap):
        """States of a counted value: [(state, object, owned things {object: how often given up}, block that is freed)]"""
        it = self.it
        num, T, hooks = TYPES[name]
        size = it.p.structs[T]["size"]
        st = absint.State()
        v = (C.owned if heap else C.region)(it, st, name, L.const(size), T)
        o = v[1]
        C.put(it, st, o, 0, "as_val", "type", num)
        C.put(it, st, o, 0, "as_val", "free", heap)
        C.put(it, st, o, 0, "as_val", "count", ("I", 32, L.atom(it.mk_atom("count", 1, MANY))))
        base = dict(o=o, gone=[], kept=[], gave=[], hook=None)
        if name in TEXT:
            out = []
            for own in (0, 1, None):
                s = st.copy()
                b = dict(base)
                t = C.NULLP
                if own is not None:
                    t = C.owned(it, s, "content", C.num(it, "length", 1, C.BIG)[2])
                    b["gone" if own else "kept"] = [t[1]]
                C.put(it, s, o, 0, T, "value", t)
                C.put(it, s, o, 0, T, "free", own or 0)
                out.append((s, b))
            return out
        if name == "pair":
            out = []
            for have in ("12", "1-", "-2", "--", "11"):
                s = st.copy()
                b = dict(base, gave=[])
                m = {"-": C.NULLP}
                for f, k in zip(("_1", "_2"), have):
                    if k not in m:
                        m[k] = C.region(it, s, "member" + k, L.const(16), "as_val")
                    C.put(it, s, o, 0, T, f, m[k])
                    if k != "-":
                        b["gave"].append(m[k][1])
                out.append((s, b))
            return out
        if hooks:
            h = C.region(it, st, "hooks", L.const(it.p.structs[hooks]["size"]), hooks)
            for f in it.p.structs[hooks]["fields"]:
                x = it.new_obj("sym", "hook " + f["name"], None, None)
                st.nn[x] = True
                C.put(it, st, h[1], 0, hooks, f["name"], ("P", x, L.ZERO))
                if f["name"] == "destroy":
                    base["hook"] = x
            C.put(it, st, o, 0, T, "hooks", h)
        return [(st, base)]

    def values(self):
        it = self.it
        off = field_off(it.p, "as_val", "count")[0]
        for name in TYPES:
            for heap in (0, 1):
                for s, b in self.value(name, heap):
                    self.watch(b["o"], off)
                    self.cl.count("kinds of counted values")
                    for e, rv in self.call(s, [("P", b["o"], L.ZERO)]):
                        if self.fn.name == RESERVE:
                            self.reserved(e, rv, b, name)
                        else:
                            self.destroyed(e, rv, b, name, heap)
        for name, (num, T) in FIXED.items():
            st = absint.State()
            v = C.region(it, st, name, L.const(it.p.structs[T]["size"]), T)
            self.cl.obj, self.cl.cnt = v[1], off
            it.shared = {}
            C.put(it, st, v[1], 0, "as_val", "type", num)
            C.put(it, st, v[1], 0, "as_val", "free", 0)
            C.put(it, st, v[1], 0, "as_val", "count", 0)
            self.cl.count("kinds of constants")
            for e, rv in self.call(st, [v]):
                if e.cl.get("step"):
                    self.fail(e, "count", "changes the count of a constant (%s)" % name)
                if rv != v:
                    self.fail(e, "result", "does not return the constant (%s)" % name)
        self.cl.obj = None
        for e, rv in self.call(absint.State(), [C.NULLP]):
            if not null(it, e, rv):
                self.fail(e, "result", "returns something for no value")

    def reserved(self, st, rv, b, name):
        if self.step(st, 1) and rv != ("P", b["o"], L.ZERO):
            self.fail(st, "result", "does not return the value")
        self.cl.count("outcomes")
        for o in b["gone"] + b["kept"]:
            if st.heap.get(o) == "freed":
                self.fail(st, "cleanup", "frees the content of a %s" % name)

    def destroyed(self, st, rv, b, name, heap):
        it = self.it
        if not self.step(st, -1):
            return
        old = st.cl["old"]
        last = it.entails_eq(st, L.addc(old, -1))
        if not last and not it.entails(st, L.addc(old, -2)):
            self.fail(st, "count", "acts the same whether or not this was the last reference")
            return
        self.cl.count("outcomes")
        o = b["o"]
        if last != null(it, st, rv) or not last and rv != ("P", o, L.ZERO):
            self.fail(st, "result", "the result does not tell whether this was the last reference")
        if (st.heap.get(o) == "freed") != bool(last and heap):
            self.fail(st, "cleanup", "%s %s that %s" % (
                "frees a" if st.heap.get(o) == "freed" else "does not free a", name,
                "is still referenced" if not last else "is on the heap" if heap else "is not on the heap"))
        for x in b["gone"] + b["kept"]:
            want = last and x in b["gone"]
            if (st.heap.get(x) == "freed") != want:
                self.fail(st, "cleanup", "%s the content of a %s" % ("does not free" if want else "frees", name))
        for x in b["gave"]:
            n, want = st.cl.get(("gave", x), 0), b["gave"].count(x) if last else 0
            if n != want:
                self.fail(st, "cleanup", "gives up a member of a %s %d time(s) instead of %d" % (name, n, want))
        hooks = {k: n for k, n in st.cl.items() if k[0] == "hook"}
        want = {("hook", b["hook"], o): 1} if last and b["hook"] else {}
        if hooks != want:
            self.fail(st, "cleanup", "the destroy hook of a %s is not called once, for it, exactly when the last "
                      "reference goes" % name)

    def forwards(self):
        """Gives up exactly one reference to the value passed in."""
        it = self.it
        st = absint.State()
        v = C.region(it, st, "value", L.const(it.p.structs["as_val"]["size"]), "as_val")
        for e, rv in self.call(st, [v]):
            self.cl.count("outcomes")
            if {k: n for k, n in e.cl.items() if k[0] == "gave"} != {("gave", v[1]): 1}:
                self.fail(e, "count", "does not give up exactly one reference to the value")

    # ---------------------------------------------------- counted memory blocks
    def block(self):
        it, fn = self.it, self.fn
        H = "cf_rc_hdr"
        hs = it.p.structs[H]["size"]
        off = field_off(it.p, H, "count")[0]
        st = absint.State()
        if fn.name == "cf_rc_alloc":
            n = C.num(it, "size", 0, C.BIG, 64)
            for e, rv in self.call(st, [n]):
                if null(it, e, rv):
                    if not nomem(it, e):
                        self.fail(e, "result", "can fail although memory is available")
                    continue
                self.cl.count("outcomes")
                ob = it.objs[rv[1]]
                c = C.uval(it, e, it.load(e, None, None, ("P", rv[1], L.addc(rv[2], off - hs)), 4, "i32"))
                if not it.entails(e, L.sub(L.sub(ob.size, rv[2]), n[2])) or c is None or not it.entails_eq(e, L.addc(c, -1)):
                    self.fail(e, "count", "a new block is too small or does not start with one reference")
            return
        size = C.num(it, "size", 0, C.BIG, 64)[2]
        v = C.owned(it, st, "block", L.addc(size, hs), H)
        o = v[1]
        it.store(st, ("P", o, L.const(off)), 4, ("I", 32, L.atom(it.mk_atom("count", 1, MANY))))
        if fn.name != "cf_rc_free":
            self.watch(o, off)
        for e, rv in self.call(st, [("P", o, L.const(hs))]):
            self.cl.count("outcomes")
            freed = e.heap.get(o) == "freed"
            if fn.name == "cf_rc_free":
                if not freed:
                    self.fail(e, "cleanup", "does not free the block")
                continue
            up = fn.name == "cf_rc_reserve"
            if not self.step(e, 1 if up else -1):
                continue
            old = e.cl["old"]
            if rv[0] != "I" or not it.entails_eq(e, L.sub(it.u(e, rv), L.addc(old, 1 if up else -1))):
                self.fail(e, "result", "does not return the new count")
            for t, (z,) in it.view_cases(e, [L.addc(old, -1)]):
                want = fn.name == "cf_rc_releaseandfree" and z == 0
                if freed != want:
                    self.fail(t, "cleanup", "does not free the block with the last reference" if want else
                              "frees a block that is still in use")
                if not up and z == 0 and not t.cl.get("acq"):
                    self.fail(t, "ordering", "reports the last reference gone without an acquire barrier")


BLOCKS = ["cf_rc_alloc", "cf_rc_free", "cf_rc_reserve", "cf_rc_release", "cf_rc_releaseandfree"]


def run_op(name):
    r = Run(name)
    (r.block if name in BLOCKS else r.values if name in (RESERVE, DESTROY) else r.forwards)()
    r.cl.count("operations")
    return r.cl


FORWARD = ["as_%s_destroy" % n for n in list(TYPES) + ["arraylist", "orderedmap", "hashmap", "nil"]]
OPS = [RESERVE, DESTROY] + BLOCKS


def check_refs(p, tier):
    res = Result()
    for n in OPS:
        p.need(n)
    ops = OPS + [n for n in FORWARD if p.find(n)]
    for cl in parallel([(run_op, (n,)) for n in ops]):
        res.add_client(cl)
    res.instances = ops
    res.need("operations", len(OPS) + 9)
    res.need("kinds of counted values", 80)
    res.need("kinds of constants", 8)
    res.need("outcomes", 100)
    res.need("atomic step", 2)
    return res
