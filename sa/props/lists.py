"""Lists keep their values: position, count, references taken and given back."""
from .. import absint, contracts as C, lin as L
from ..absint import NULL
from ..harness import AnalysisBroken, Result, sym_arg, parallel, program, field_off
from .storage import StoreClient, OPAQUE, SIZES

S = "as_arraylist"
TYPED = {"int64": ("as_integer", "value"), "double": ("as_double", "value"), "str": ("as_string", "value")}

# function -> (operation, {argument roles})
OPS = {
    "as_arraylist_set": ("set", dict(index=1, value=2)),
    "as_arraylist_insert": ("insert", dict(index=1, value=2)),
    "as_arraylist_append": ("insert", dict(at="end", value=1)),
    "as_arraylist_prepend": ("insert", dict(at="start", value=1)),
    "as_arraylist_remove": ("remove", dict(index=1)),
    "as_arraylist_trim": ("trim", dict(index=1)),
    "as_arraylist_concat": ("concat", dict(other=1)),
    "as_arraylist_head": ("get", dict(at="start")),
    "as_arraylist_get": ("get", dict(index=1)),
    "as_arraylist_size": ("size", {}),
    "as_arraylist_tail": ("slice", dict(lo=1)),
    "as_arraylist_drop": ("slice", dict(drop=1)),
    "as_arraylist_take": ("slice", dict(take=1)),
    "as_arraylist_foreach": ("foreach", {}),
    "as_arraylist_release": ("release", {}),
    "as_arraylist_init": ("init", dict(capacity=1)),
    "as_arraylist_new": ("new", dict(capacity=0)),
    "as_arraylist_iterator_init": ("iinit", {}),
    "as_arraylist_iterator_new": ("inew", {}),
    "as_arraylist_iterator_has_next": ("ihas", {}),
    "as_arraylist_iterator_next": ("inext", {}),
}
for _t in TYPED:
    OPS["as_arraylist_set_" + _t] = ("set", dict(index=1, typed=2, type=_t))
    OPS["as_arraylist_insert_" + _t] = ("insert", dict(index=1, typed=2, type=_t))
    OPS["as_arraylist_append_" + _t] = ("insert", dict(at="end", typed=1, type=_t))
    OPS["as_arraylist_prepend_" + _t] = ("insert", dict(at="start", typed=1, type=_t))

    OPS["as_arraylist_get_" + _t] = ("gettyped", dict(index=1, type=_t))

HALF = 1 << 28


class Refs(StoreClient):
    """Counts references taken and given back on traced values."""
    order = ()

    def fail(self, it, st, fn, rule, msg):
        self.report_at(rule, fn.file, fn.line, fn.name, msg, it.trace_lines(st))

    def on_call(self, it, st, fr, I, name, args):
        if name in ("as_val_val_destroy", "as_val_val_reserve"):
            v = args[0]
            if v[0] == "P" and v[1] != NULL:
                ob = it.objs[v[1]]
                if it.traced(v) or (ob.kind == "heap" and v[1] in st.heap):
                    k = ("gave" if name == "as_val_val_destroy" else "took", v[1])
                    st.cl[k] = st.cl.get(k, 0) + 1
                    self.site("reference operation", fr, I)
                    if st.cl[k] > 3:
                        st.cl[k] = 3
            if I["t"] == "void":
                return [(st, None)]
            return [(st, v if name == "as_val_val_reserve" else it.unknown("ptr", name))]
        return super().on_call(it, st, fr, I, name, args)

    def on_fnptr(self, it, st, fr, I, target, args):
        """The caller's visitor: sees a value, says whether to go on."""
        if not it.quiet:
            if st.cl.get("stop"):
                self.report(it, st, fr, I, "visit", "calls the visitor again after it asked to stop")
        v = args[0]
        for k, o in enumerate(self.order):
            if v[0] == "P" and v[1] == o and v[2] == L.ZERO:
                if not it.quiet and st.cl.get(("seen", o)):
                    self.report(it, st, fr, I, "visit", "shows the visitor the same position twice")
                for o2 in self.order[k + 1:]:
                    if st.cl.get(("seen", o2)) and not it.quiet:
                        self.report(it, st, fr, I, "visit", "visits a later position before an earlier one")
                st.cl[("seen", o)] = 1
        a, b = st, st.copy()
        b.cl["stop"] = True
        w = absint.width(I["t"])
        one = ("B", True) if w == 1 else ("I", w, L.const(1))
        zero = ("B", False) if w == 1 else ("I", w, L.ZERO)
        return [(a, one), (b, zero)]


def make(it, st, o, nm, shapes=("heap", "caller", "none")):
    """Entry states: any consistent list."""
    out = []
    for sh in shapes:
        s = st.copy()
        n = C.num(it, nm + ".size", 0, HALF)
        cap = C.num(it, nm + ".capacity", 1, HALF)
        blk = C.num(it, nm + ".block", 0, HALF)
        if sh == "none":
            cap = n = ("I", 32, L.ZERO)
            v = C.NULLP
        else:
            it.add_ge(s, L.sub(cap[2], n[2]))
            v = (C.owned if sh == "heap" else C.region)(it, s, nm + ".elements", L.scale(cap[2], 8), "as_val*")
        if sh == "caller":
            blk = ("I", 32, L.ZERO)
        C.put(it, s, o, 0, S, "elements", v)
        C.put(it, s, o, 0, S, "capacity", cap)
        C.put(it, s, o, 0, S, "size", n)
        C.put(it, s, o, 0, S, "block_size", blk)
        C.put(it, s, o, 0, S, "free", 1 if sh == "heap" else 0)
        out.append((s, dict(n=n[2], cap=cap[2], blk=blk[2], data=v[1])))
    return out


def inv(it, st, o):
    n, cap, fr = C.fields(it, st, o, 0, S, ["size", "capacity", "free"])
    if None in (n, cap, fr):
        return ["size, capacity or free flag is not set"]
    v = C.get(it, st, o, 0, S, "elements", True)
    return C.le(it, st, n, cap, "size can exceed capacity") + C.block_ok(it, st, v, L.scale(cap, 8), C.flag(it, st, fr))


def size(it, st, o):
    return C.fields(it, st, o, 0, S, ["size"])[0]


def slot(it, st, o, i):
    v = C.get(it, st, o, 0, S, "elements", True)
    if v[0] != "P" or v[1] == NULL:
        return None
    return it.load(st, None, None, ("P", v[1], L.add(v[2], L.scale(i, 8))), 8, "ptr")


def same(v, o):
    return v is not None and v[0] == "P" and v[1] == o and v[2] == L.ZERO


def traced(it, st, name):
    o = it.new_obj("sym", name, None, "as_val")
    st.nn[o] = True
    it.marks.add(("o", o))
    return o


def lay(it, st, info, j, name):
    """A traced value at position j."""
    o = traced(it, st, name)
    it.store(st, ("P", info["data"], L.scale(j, 8)), 8, ("P", o, L.ZERO))
    return o


def split(it, st, *conds):
    """States for each sign of each form: [(state, signs)]."""
    return it.view_cases(st, conds)


def table(it, ctor, args, T):
    """The operation table a constructor installs, as a pointer."""
    o = C.region(it, absint.State(), "sample", None)
    st = absint.State()
    st.nn[o[1]] = True
    for e, rv in it.call_fn(it.p.need(ctor), [o] + args(st), st):
        if rv[0] == "P" and rv[1] == o[1]:
            h = C.get(it, e, o[1], 0, T, "hooks", True)
            if h[0] == "P" and h[1] != NULL and it.objs[h[1]].kind == "global":
                return h
    raise AnalysisBroken("%s installs no operation table" % ctor)


class Run:
    """One operation; `via` is the generic call that leads to it."""
    TABLE = ("as_arraylist_init", "as_list", "as_arraylist_iterator_init")

    def __init__(self, name, via=None):
        p = program()
        self.fn = p.need(via or name)
        self.via = via
        self.op, self.role = OPS[name]
        self.cl = Refs(p, name, OPAQUE - {"as_val_val_destroy", "as_val_val_reserve"})
        self.it = absint.Interp(p, self.cl, max_steps=2500000, max_states=300, keep=60)
        self.it.alloc_fails = False
        self.it.marks.add(-1)
        self.nil = self.it.global_obj(p.need(name).mod, "as_nil") if "value" in self.role else None
        self.start()

    def start(self):
        """The operation tables that lead a generic call here."""
        it = self.it
        self.hooks = {}
        if self.via:
            ctor, T, ictor = self.TABLE
            zero = ("I", 32, L.ZERO)
            self.hooks[T] = table(it, ctor, lambda st: [zero] * (len(it.p.need(ctor).args) - 1), T)
            self.hooks["as_iterator"] = table(it, ictor, lambda st: [self.sample(st)], "as_iterator")

    def sample(self, st):
        q = C.region(self.it, st, "sample list", None, S)
        for f in ("elements", "capacity", "size"):
            C.put(self.it, st, q[1], 0, S, f, C.NULLP if f == "elements" else 0)
        return q

    def hooked(self, st, o, T):
        if T in self.hooks:
            C.put(self.it, st, o, 0, T, "hooks", self.hooks[T])
            if T == "as_iterator":
                return
            C.put(self.it, st, o, 0, "as_val", "type", 5 if T == "as_list" else 6)

    def fail(self, st, rule, msg):
        self.cl.fail(self.it, st, self.fn, rule, msg)

    def is_nil(self, v):
        return v is not None and v[0] == "P" and v[2] == L.ZERO and self.it.objs[v[1]].kind == "global" and \
            self.it.objs[v[1]].name == "as_nil"

    def refs(self, st, o, took, gave, what):
        """References taken and given back on object o."""
        t, g = st.cl.get(("took", o), 0), st.cl.get(("gave", o), 0)
        if t != took:
            self.fail(st, "references", "%s is reserved %d time(s) instead of %d" % (what, t, took))
        if g != gave:
            self.fail(st, "references", "%s is destroyed %d time(s) instead of %d" % (what, g, gave))

    def at(self, st, o, i, want, what):
        self.cl.count("values followed")
        if not same(slot(self.it, st, o, i), want):
            self.fail(st, "order", what)

    def entries(self):
        """(state, arguments, list object, info, traced position or None, traced value, spare position, ...)"""
        it, fn = self.it, self.fn
        args = [sym_arg(it, fn, i) for i in range(len(fn.args))]
        q = args[0][1]
        it.objs[q].ditype = S
        st = absint.State()
        st.nn[q] = True
        self.hooked(st, q, "as_list")
        if "value" in self.role:
            it.objs[args[self.role["value"]][1]].ditype = "as_val"
        for s0, info in make(it, st, q, "list"):
            for which in ("some", "none", "spare"):
                s = s0.copy()
                j = L.atom(it.mk_atom("j#%d" % it.bump(), 0, HALF))
                old = None
                if which == "none":
                    if not it.add_eq(s, info["n"]):
                        continue
                elif info["data"] == NULL:
                    continue
                else:
                    lo, hi = (L.ZERO, info["n"]) if which == "some" else (info["n"], info["cap"])
                    if not (it.add_ge(s, L.sub(j, lo)) and it.add_ge(s, L.addc(L.sub(hi, j), -1))):
                        continue
                    old = lay(it, s, info, j, "value")
                yield s, list(args), q, info, which, j, old

    def call(self, st, av):
        it = self.it
        self.cl.count("entry states")
        out = []
        for e, rv in it.call_fn(self.fn, av, st):
            self.cl.count("exit states")
            if it.close(e):
                out.append((e, rv))
        return out

    def outcome(self, st, rv):
        it = self.it
        c = it.icmp(st, "eq", "i32", rv, ("I", 32, L.ZERO))
        out = []
        for v in (True, False):
            s = st.copy()
            if it.assume(s, c if v else it.neg(c)) and it.close(s):
                out.append((s, v))
        return out

    def kept(self, st, q, info, which, j, old, what="the list"):
        """Nothing changed."""
        it = self.it
        if not self.sized(st, q, info["n"]):
            return
        if which == "some":
            self.at(st, q, j, old, "%s loses or moves a value it should keep" % what)
            self.refs(st, old, 0, 0, "a value that stays")

    def sized(self, st, q, want):
        n2 = size(self.it, st, q)
        if n2 is None or not self.it.entails_eq(st, L.sub(n2, want)):
            self.fail(st, "count", "the size becomes %s instead of %s" % (n2 and self.it.show(n2), self.it.show(want)))
            return False
        return True

    def consistent(self, st, q):
        for msg in inv(self.it, st, q):
            self.fail(st, "invariant", "returns leaving the list inconsistent: " + msg)
            return False
        self.cl.count("lists re-checked")
        return True

    # ---------------------------------------------------------- set and insert
    def put(self):
        it, role = self.it, self.role
        for s0, av, q, info, which, j, old in self.entries():
            for val in ("some", "null") if "value" in role else ("typed",):
                s = s0.copy()
                new = None
                it.marks.discard(("o", self.nil))
                if val == "some":
                    new = av[role["value"]][1]
                    s.nn[new] = True
                    it.marks.add(("o", new))
                elif val == "null":
                    av = list(av)
                    av[role["value"]] = C.NULLP
                    it.marks.add(("o", self.nil))
                else:
                    it.marks.add("new")
                if role.get("type") == "str":
                    a = av[role["typed"]]
                    s.nn[a[1]] = True
                    self.mark = ("I", 8, L.atom(it.mk_atom("text", 1, 255)))
                    it.marks.add(self.mark[2][1][0][0])
                    it.store(s, ("P", a[1], L.ZERO), 1, self.mark)
                for e, rv in self.call(s, av):
                    if not self.consistent(e, q):
                        continue
                    for t, ok in self.outcome(e, rv):
                        ix = it.u(t, av[role["index"]]) if "index" in role else (
                            info["n"] if role["at"] == "end" else L.ZERO)
                        self.put_done(t, ok, q, info, which, j, old, val, new, ix, av)

    def put_done(self, st, ok, q, info, which, j, old, val, new, ix, av):
        it = self.it
        n = info["n"]
        if new is not None:
            self.refs(st, new, 0, 0, "the new value")
        if not ok:
            # only a list that may not grow refuses
            room = L.sub(ix, info["cap"]) if self.op == "set" else None
            full = it.entails_eq(st, info["blk"]) and (
                it.entails(st, room) if room is not None else
                it.entails(st, L.sub(n, info["cap"])) or it.entails(st, L.sub(ix, info["cap"])))
            if not full and not it.entails(st, L.addc(ix, -HALF)):
                self.fail(st, "result", "can fail although the list has room or may grow")
            self.kept(st, q, info, which, j, old)
            if val == "typed" and any(x == "live" and it.objs[o].extra[0] != "entry" and not st.cl.get(("gave", o))
                                      and self.is_value(st, o) for o, x in st.heap.items()):
                self.fail(st, "references", "fails and leaks the value it created")
            return
        self.cl.count("successful outcomes")
        for t, (c,) in split(it, st, L.sub(ix, n)):
            if self.op == "set":
                want = n if c < 0 else L.addc(ix, 1)
            else:
                want = L.addc(n, 1) if c <= 0 else L.addc(ix, 1)
            if not self.sized(t, q, want):
                continue
            v = slot(it, t, q, ix)
            if val == "some" and not same(v, new):
                self.fail(t, "order", "the new value is not at its position")
            elif val == "null" and not self.is_nil(v):
                self.fail(t, "order", "a missing value is not stored as nil")
            elif val == "typed" and not self.created(t, v, av):
                self.fail(t, "order", "the position does not hold a new value with the given content")
            if which == "some":
                for u, (d,) in split(it, t, L.sub(j, ix)):
                    if self.op == "set" and d == 0:
                        self.cl.count("values followed")
                        self.refs(u, old, 0, 1, "the replaced value")
                        continue
                    to = L.addc(j, 1) if self.op == "insert" and d >= 0 else j
                    self.at(u, q, to, old, "a value already in the list is lost, moved or out of order")
                    self.refs(u, old, 0, 0, "a value that stays")
            elif which == "spare" and c > 0:
                for u, (d,) in split(it, t, L.sub(j, ix)):
                    if d < 0:
                        self.cl.count("values followed")
                        if not self.is_nil(slot(it, u, q, j)):
                            self.fail(u, "order", "a position between the old end and the new value is not nil")

    def is_value(self, st, o):
        ob = self.it.objs[o]
        return L.is_const(ob.size or L.ZERO) and ob.size is not None and \
            ob.size[0] == self.it.p.structs[TYPED[self.role["type"]][0]]["size"]

    def created(self, st, v, av):
        it = self.it
        T, f = TYPED[self.role["type"]]
        if v is None or v[0] != "P" or v[1] not in st.heap or st.heap[v[1]] != "live" or v[2] != L.ZERO:
            return False
        if st.cl.get(("gave", v[1])) or st.cl.get(("took", v[1])):
            return False
        a = av[self.role["typed"]]
        off, sz = field_off(it.p, T, f)
        t = {"int64": "i64", "double": "double", "str": "ptr"}[self.role["type"]]
        x = it.load(st, None, None, ("P", v[1], L.const(off)), sz, t)
        if t == "ptr":
            if x[0] != "P" or x[1] not in st.heap or x[2] != L.ZERO:
                return False
            c = it.load(st, None, None, ("P", x[1], L.ZERO), 1, "i8")
            return c == self.mark
        return x == a

    # ---------------------------------------------------------------- removals
    def remove(self):
        it = self.it
        for s, av, q, info, which, j, old in self.entries():
            n = info["n"]
            for e, rv in self.call(s, av):
                if not self.consistent(e, q):
                    continue
                ix = it.u(e, av[self.role["index"]])
                for t, ok in self.outcome(e, rv):
                    if ok != it.entails(t, L.addc(L.sub(n, ix), -1)) or not ok and not it.entails(t, L.sub(ix, n)):
                        self.fail(t, "result", "the result does not tell whether the position exists")
                        continue
                    if not ok:
                        self.kept(t, q, info, which, j, old)
                        continue
                    self.cl.count("successful outcomes")
                    if not self.sized(t, q, L.addc(n, -1) if self.op == "remove" else ix) or which != "some":
                        continue
                    for u, (d,) in split(it, t, L.sub(j, ix)):
                        gone = d == 0 or self.op == "trim" and d > 0
                        if gone:
                            self.cl.count("values followed")
                            self.refs(u, old, 0, 1, "the removed value")
                        else:
                            self.at(u, q, j if d < 0 else L.addc(j, -1), old,
                                    "a value that stays is lost, moved or out of order")
                            self.refs(u, old, 0, 0, "a value that stays")

    def release(self):
        it = self.it
        for s, av, q, info, which, j, old in self.entries():
            for e, rv in self.call(s, av):
                self.cl.count("successful outcomes")
                if which == "some":
                    self.cl.count("values followed")
                    self.refs(e, old, 0, 1, "a value in the list")
                d = info["data"]
                if d != NULL and it.objs[d].kind == "heap" and e.heap.get(d) != "freed":
                    self.fail(e, "storage", "does not free the list's storage")
                self.sized(e, q, L.ZERO)

    # ------------------------------------------------------------------ concat
    def concat(self):
        it = self.it
        for alias in (False, True):
            for s0, av0, q, info, which, j, old in self.entries():
                if which == "spare":
                    continue
                if alias:
                    av = list(av0)
                    av[1] = av[0]
                    self.concat_one(s0.copy(), av, q, info, which, j, old, q, info, "some" if which == "some" else "none", j, old)
                    continue
                q2 = av0[1][1]
                it.objs[q2].ditype = S
                s0.nn[q2] = True
                for s1, info2 in make(it, s0, q2, "other"):
                    for which2 in ("some", "none"):
                        s = s1.copy()
                        j2 = L.atom(it.mk_atom("j2#%d" % it.bump(), 0, HALF))
                        old2 = None
                        if which2 == "none":
                            if not it.add_eq(s, info2["n"]):
                                continue
                        elif info2["data"] == NULL or not it.add_ge(s, L.addc(L.sub(info2["n"], j2), -1)):
                            continue
                        else:
                            old2 = lay(it, s, info2, j2, "other value")
                        self.concat_one(s, av0, q, info, which, j, old, q2, info2, which2, j2, old2)

    def concat_one(self, s, av, q, info, which, j, old, q2, info2, which2, j2, old2):
        it = self.it
        n, n2 = info["n"], info2["n"]
        alias = q == q2
        for e, rv in self.call(s, av):
            if not self.consistent(e, q):
                continue
            for t, ok in self.outcome(e, rv):
                if not ok:
                    if not (it.entails_eq(t, info["blk"]) and it.entails(t, L.addc(L.sub(L.add(n, n2), info["cap"]), -1))):
                        self.fail(t, "result", "can fail although the list has room or may grow")
                    self.kept(t, q, info, which, j, old)
                    if not alias:
                        self.kept(t, q2, info2, which2, j2, old2, "the second list")
                    continue
                self.cl.count("successful outcomes")
                if not self.sized(t, q, L.add(n, n2)):
                    continue
                if which == "some":
                    self.at(t, q, j, old, "a value already in the list is lost, moved or out of order")
                    self.refs(t, old, 1 if alias else 0, 0, "a value of the list")
                if which2 == "some":
                    self.at(t, q, L.add(n, j2), old2, "a value of the second list is not added in its place")
                    if not alias:
                        self.at(t, q2, j2, old2, "the second list loses or moves a value")
                        self.refs(t, old2, 1, 0, "a value of the second list")
                if not alias:
                    self.sized(t, q2, n2)

    # ---------------------------------------------------------------- look only
    def slice(self):
        it, role = self.it, self.role
        for s, av, q, info, which, j, old in self.entries():
            if which == "spare":
                continue
            n = info["n"]
            for e, rv in self.call(s, av):
                if "drop" in role:
                    lo, hi = it.u(e, av[role["drop"]]), n
                elif "take" in role:
                    lo, hi = L.ZERO, it.u(e, av[role["take"]])
                else:
                    lo, hi = L.const(1), n
                for t, (c, d) in split(it, e, L.sub(lo, n), L.sub(hi, n)):
                    lo1 = lo if c < 0 else n
                    hi1 = hi if d < 0 else n
                    self.slice_done(t, rv, q, info, which, j, old, lo1, hi1)

    def slice_done(self, st, rv, q, info, which, j, old, lo, hi):
        it = self.it
        n = info["n"]
        nothing = self.role.get("lo") and it.entails_eq(st, n)
        if nothing:
            if not (rv[0] == "P" and (rv[1] == NULL or it.nullness(st, rv[1]) is False)):
                self.fail(st, "result", "returns a list for the rest of an empty list")
            self.kept(st, q, info, which, j, old)
            return
        if rv[0] != "P" or rv[1] == NULL or rv[1] not in st.heap or rv[1] == q:
            self.fail(st, "result", "does not return a new list")
            return
        self.cl.count("successful outcomes")
        r = rv[1]
        it.objs[r].ditype = S
        if not self.consistent(st, r) or not self.sized(st, r, L.sub(hi, lo)) or not self.sized(st, q, n):
            return
        if which != "some":
            return
        for t, (a, b) in split(it, st, L.sub(j, lo), L.sub(j, hi)):
            self.at(t, q, j, old, "the list loses or moves a value")
            if a >= 0 and b < 0:
                self.at(t, r, L.sub(j, lo), old, "the new list does not hold the value in its place")
                self.refs(t, old, 1, 0, "a value in both lists")
            else:
                self.refs(t, old, 0, 0, "a value only in the first list")

    def get(self):
        it, role = self.it, self.role
        for s, av, q, info, which, j, old in self.entries():
            ix = it.u(s, av[role["index"]]) if "index" in role else L.ZERO
            for e, rv in self.call(s, av):
                self.kept(e, q, info, which, j, old)
                for t, (c,) in split(it, e, L.sub(ix, info["n"])):
                    if c >= 0:
                        if not (rv[0] == "P" and (rv[1] == NULL or it.nullness(t, rv[1]) is False)):
                            self.fail(t, "result", "returns something for a position outside the list")
                    elif which == "some":
                        for u, (d,) in split(it, t, L.sub(j, ix)):
                            self.cl.count("values followed")
                            if same(rv, old) != (d == 0):
                                self.fail(u, "result", "does not return the value at the position")

    def gettyped(self):
        """The content of a value of the asked type, nothing for any other."""
        it, role = self.it, self.role
        T, f = TYPED[role["type"]]
        mine = {"int64": 3, "double": 10, "str": 4}[role["type"]]
        for s0, av, q, info, which, j, old in self.entries():
            ix = it.u(s0, av[role["index"]])
            for ty in (1, 2, 3, 4, 5, 9, 10, 11) if which == "some" else (None,):
                s = s0.copy()
                x = None
                if which == "some":
                    it.objs[old].ditype = T if ty == mine else "as_val"
                    C.put(it, s, old, 0, "as_val", "type", ty)
                    if not it.add_eq(s, L.sub(j, ix)):
                        continue
                    if ty == mine:
                        off, sz = field_off(it.p, T, f)
                        x = it.unknown("double", "content") if role["type"] == "double" else \
                            C.region(it, s, "content", None) if role["type"] == "str" else \
                            C.num(it, "content", 0, (1 << 64) - 1, 64)
                        it.store(s, ("P", old, L.const(off)), sz, x)
                elif not it.add_ge(s, L.sub(ix, info["n"])):
                    continue
                for e, rv in self.call(s, av):
                    self.cl.count("values followed")
                    self.kept(e, q, info, which, j, old)
                    if x is not None:
                        ok = rv == x or rv[0] == "I" and x[0] == "I" and it.entails_eq(e, L.sub(it.u(e, rv), it.u(e, x)))
                    elif rv[0] == "P":
                        ok = rv[1] == NULL or it.nullness(e, rv[1]) is False
                    elif rv[0] == "D":
                        ok = rv in (("D", ("c", "0")), ("D", ("zero",)))
                    else:
                        ok = it.entails_eq(e, it.u(e, rv))
                    if not ok:
                        self.fail(e, "result", "does not return the content of the value at the position")

    def count(self):
        it = self.it
        for s, av, q, info, which, j, old in self.entries():
            for e, rv in self.call(s, av):
                self.kept(e, q, info, which, j, old)
                if not it.entails_eq(e, L.sub(it.u(e, rv), info["n"])):
                    self.fail(e, "result", "does not return the number of values")

    def foreach(self):
        it = self.it
        for s, av, q, info, which, j, old in self.entries():
            if which == "spare":
                continue
            old2 = None
            if which == "some":
                # a second, later position
                for two in (False, True):
                    t = s.copy()
                    self.cl.order = (old,)
                    if two:
                        j2 = L.atom(it.mk_atom("j2#%d" % it.bump(), 0, HALF))
                        if not (it.add_ge(t, L.addc(L.sub(j2, j), -1)) and it.add_ge(t, L.addc(L.sub(info["n"], j2), -1))):
                            continue
                        old2 = lay(it, t, info, j2, "later value")
                        self.cl.order = (old, old2)
                    self.foreach_one(t, av, q, info, which, j, old)
            else:
                self.cl.order = ()
                self.foreach_one(s, av, q, info, which, j, old)

    def foreach_one(self, s, av, q, info, which, j, old):
        it = self.it
        for e, rv in self.call(s, av):
            self.kept(e, q, info, which, j, old)
            k = it.decide(e, it.cond_of(e, rv))
            if k is None or k == bool(e.cl.get("stop")):
                self.fail(e, "visit", "the result does not tell whether the visitor saw everything")
            elif k:
                self.cl.count("successful outcomes")
                for o in self.cl.order:
                    if not e.cl.get(("seen", o)):
                        self.fail(e, "visit", "leaves a position out")

    # ------------------------------------------------------------- constructors
    def construct(self):
        it, fn = self.it, self.fn
        st = absint.State()
        args = [sym_arg(it, fn, i) for i in range(len(fn.args))]
        for i in (self.role["capacity"], self.role["capacity"] + 1):
            it.add_ge(st, L.addc(L.neg(it.u(st, args[i])), HALF))
        if self.op == "init":
            st.nn[args[0][1]] = True
            it.objs[args[0][1]].init = "undef"
            it.objs[args[0][1]].ditype = S
        for e, rv in self.call(st, args):
            q = args[0][1] if self.op == "init" else rv[1]
            if rv[0] != "P" or rv[1] != q or q == NULL:
                self.fail(e, "result", "does not return the list")
                continue
            it.objs[q].ditype = S
            self.cl.count("constructed")
            if self.consistent(e, q):
                self.sized(e, q, L.ZERO)
                cap, blk = C.fields(it, e, q, 0, S, ["capacity", "block_size"])
                c = self.role["capacity"]
                if not it.entails(e, L.sub(cap, it.u(e, args[c]))):
                    self.fail(e, "invariant", "the list has less room than asked for")
                if blk is None or not it.entails_eq(e, L.sub(blk, it.u(e, args[c + 1]))):
                    self.fail(e, "invariant", "the list does not grow by the amount asked for")

    # ---------------------------------------------------------------- iteration
    def iterate(self):
        it, fn = self.it, self.fn
        T = "as_arraylist_iterator"
        args = [sym_arg(it, fn, i) for i in range(len(fn.args))]
        st = absint.State()
        q = it.new_obj("sym", "list", None, S)
        st.nn[q] = True
        self.hooked(st, q, "as_list")
        if self.op in ("iinit", "inew"):
            args[-1] = ("P", q, L.ZERO)
            if self.op == "iinit":
                st.nn[args[0][1]] = True
                it.objs[args[0][1]].init = "undef"
            for s, info in make(it, st, q, "list"):
                for e, rv in self.call(s, args):
                    r = args[0][1] if self.op == "iinit" else rv[1]
                    if r == NULL:
                        continue
                    self.cl.count("constructed")
                    p = C.fields(it, e, r, 0, T, ["pos"])[0]
                    l = C.get(it, e, r, 0, T, "list", True)
                    if not same(l, q) or p is None or not it.entails_eq(e, p):
                        self.fail(e, "visit", "the iterator does not start at the first value of the list")
            return
        r = args[0][1]
        it.objs[r].ditype = T
        st.nn[r] = True
        self.hooked(st, r, "as_iterator")
        C.put(it, st, r, 0, T, "list", ("P", q, L.ZERO))
        pos = C.num(it, "pos", 0, HALF)
        for s0, info in make(it, st, q, "list"):
            C.put(it, s0, r, 0, T, "pos", pos)
            for at in ("inside", "end"):
                s = s0.copy()
                old = None
                if at == "inside":
                    if info["data"] == NULL or not it.add_ge(s, L.addc(L.sub(info["n"], pos[2]), -1)):
                        continue
                    old = lay(it, s, info, pos[2], "value")
                elif not it.add_eq(s, L.sub(info["n"], pos[2])):
                    continue
                for e, rv in self.call(s, args):
                    p = C.fields(it, e, r, 0, T, ["pos"])[0]
                    step = L.ZERO
                    if self.op == "ihas":
                        if it.decide(e, it.cond_of(e, rv)) is not (at == "inside"):
                            self.fail(e, "visit", "does not tell whether a value is left")
                    elif at == "inside":
                        self.cl.count("values followed")
                        step = L.const(1)
                        if not same(rv, old):
                            self.fail(e, "visit", "does not return the value at the position of the iterator")
                    elif not (rv[0] == "P" and (rv[1] == NULL or it.nullness(e, rv[1]) is False)):
                        self.fail(e, "visit", "returns something after the last value")
                    if p is None or not it.entails_eq(e, L.sub(p, L.add(pos[2], step))):
                        self.fail(e, "visit", "the iterator moves to the wrong position")
                    self.sized(e, q, info["n"])


GO = dict(set=Run.put, insert=Run.put, remove=Run.remove, trim=Run.remove, release=Run.release, concat=Run.concat,
          slice=Run.slice, get=Run.get, gettyped=Run.gettyped, size=Run.count, foreach=Run.foreach, init=Run.construct, new=Run.construct,
          iinit=Run.iterate, inew=Run.iterate, ihas=Run.iterate, inext=Run.iterate)


def run_op(name, via=None):
    r = Run(name, via)
    GO[r.op](r)
    r.cl.count("operations")
    return r.cl


def check_lists(p, tier):
    res = Result()
    for n in OPS:
        p.need(n)
    for cl in parallel([(run_op, (n,)) for n in sorted(OPS)]):
        res.add_client(cl)
    res.instances = sorted(OPS)
    res.need("operations", len(OPS))
    res.need("successful outcomes", 400)
    res.need("values followed", 500)
    res.need("bounded access", 150)
    res.need("constructed", 8)
    res.assumptions = SIZES[2:3] + [
        "lists passed in are consistent, hold no more than 2^28 elements and grow by no more than that",
        "releasing a value does not change the list it was in", "the new value is not an element of the list already",
        "a visitor does not change the list"]
    return res
