"""Vectors keep their items: contents, order, count, storage."""
from .. import absint, contracts as C, lin as L
from ..absint import NULL
from ..harness import Result, sym_arg, parallel, program
from .storage import StoreClient, SIZES

S = "as_vector"
# function -> (operation, {argument roles})
OPS = {
    "as_vector_append": ("append", dict(item=1)),
    "as_vector_append_unique": ("append", dict(item=1, unique=True)),
    "as_vector_reserve": ("append", dict(blank=True)),
    "as_vector_set": ("set", dict(index=1, item=2)),
    "as_vector_get": ("get", dict(index=1)),
    "as_vector_get_ptr": ("getp", dict(index=1)),
    "as_vector_remove": ("remove", dict(index=1)),
    "as_vector_clear": ("clear", {}),
    "as_vector_to_array": ("array", dict(count=1)),
    "as_vector_increase_capacity": ("grow", {}),
    "as_vector_destroy": ("destroy", {}),
    "as_vector_init": ("init", dict(item_size=1, capacity=2)),
    "as_vector_create": ("create", dict(item_size=0, capacity=1)),
}


class Items(StoreClient):
    def fail(self, it, st, fn, rule, msg):
        self.report_at(rule, fn.file, fn.line, fn.name, msg, it.trace_lines(st))


def make(it, st, o):
    """Entry states: any consistent vector."""
    out = []
    for fl in (0, 1, 3):
        for none in (False, True):
            s = st.copy()
            w = C.num(it, "item", 1, C.BIG - 1)
            cap = C.num(it, "capacity", 1, C.SLOTS)
            n = C.num(it, "size", 0, C.BIG - 1)
            if none:
                cap = n = ("I", 32, L.ZERO)
            else:
                it.add_ge(s, L.sub(cap[2], n[2]))
            total = C.product(it, s, cap[2], w[2])
            it.add_ge(s, L.addc(L.neg(total), C.BIG - 1))
            v = (C.owned if fl & 1 else C.region)(it, s, "list", total)
            if fl & 2:
                s.heap[o] = "live"
            C.put(it, s, o, 0, S, "list", v)
            C.put(it, s, o, 0, S, "capacity", cap)
            C.put(it, s, o, 0, S, "size", n)
            C.put(it, s, o, 0, S, "item_size", w)
            C.put(it, s, o, 0, S, "flags", fl)
            out.append((s, dict(n=n[2], cap=cap[2], w=w[2], data=v[1], flags=fl)))
    return out


def item(it, st, o, i, w):
    v = C.get(it, st, o, 0, S, "list", True)
    if v[0] != "P":
        return None
    return ("P", v[1], L.add(v[2], C.product(it, st, i, w)))


class Run:
    def __init__(self, name):
        p = program()
        self.fn = p.need(name)
        self.op, self.role = OPS[name]
        self.cl = Items(p, name)
        self.it = absint.Interp(p, self.cl, max_steps=2500000, max_states=300, keep=60)
        self.it.scale_more = True
        self.it.alloc_fails = False
        self.it.marks.add(-1)

    def fail(self, st, rule, msg):
        self.cl.fail(self.it, st, self.fn, rule, msg)

    def mark(self, name):
        a = self.it.mk_atom(name, 0, 255)
        self.it.marks.add(a)
        return ("I", 8, L.atom(a))

    def holds(self, st, p, d, v):
        if p is None:
            return False
        x = self.it.load(st, None, None, ("P", p[1], L.add(p[2], d)), 1, "i8")
        return x[0] == "I" and x[2] == v[2]

    def consistent(self, st, q, w, flags=None):
        it = self.it
        cap, n, sz, fl = C.fields(it, st, q, 0, S, ["capacity", "size", "item_size", "flags"])
        if None in (cap, n, sz, fl):
            self.fail(st, "invariant", "capacity, size, item size or flags are not set")
            return False
        f = it.const_of(st, ("I", 32, fl))
        v = C.get(it, st, q, 0, S, "list", True)
        out = C.le(it, st, n, cap, "size can exceed capacity")
        if not it.entails_eq(st, L.sub(sz, w)):
            out.append("the item size changed")
        if f is None:
            out.append("the ownership flags are not known")
        out += C.block_ok(it, st, v, C.product(it, st, cap, w), bool(f & 1) if f is not None else None)
        if f is not None and not f & 1 and v[0] == "P" and v[1] in st.heap and it.objs[v[1]].kind == "heap":
            out.append("the storage is a heap block but is not marked to be freed")
        for msg in out[:1]:
            self.fail(st, "invariant", "returns leaving the vector inconsistent: " + msg)
        self.cl.count("vectors re-checked")
        return not out

    def sized(self, st, q, want):
        n = C.fields(self.it, st, q, 0, S, ["size"])[0]
        if n is None or not self.it.entails_eq(st, L.sub(n, want)):
            self.fail(st, "count", "the size becomes %s instead of %s" % (n and self.it.show(n), self.it.show(want)))
            return False
        return True

    def stays(self, st, q, pos, d, X, w):
        self.cl.count("items followed")
        if not self.holds(st, item(self.it, st, q, pos, w), d, X):
            self.fail(st, "order", "an item already in the vector is lost, changed or out of order")

    def construct(self):
        it, fn, role = self.it, self.fn, self.role
        st = absint.State()
        args = [sym_arg(it, fn, i) for i in range(len(fn.args))]
        w, cap = it.u(st, args[role["item_size"]]), it.u(st, args[role["capacity"]])
        it.add_ge(st, L.addc(w, -1))
        C.small(it, st, w)
        C.small(it, st, cap)
        C.small(it, st, C.product(it, st, cap, w))
        if self.op == "init":
            st.nn[args[0][1]] = True
            it.objs[args[0][1]].init = "undef"
        for e, rv in it.call_fn(fn, args, st):
            q = args[0][1] if self.op == "init" else rv[1]
            if q == NULL:
                self.fail(e, "result", "does not return a vector")
                continue
            self.cl.count("constructed")
            if not self.consistent(e, q, w):
                continue
            self.sized(e, q, L.ZERO)
            c2 = C.fields(it, e, q, 0, S, ["capacity"])[0]
            if not it.entails(e, L.sub(c2, cap)):
                self.fail(e, "invariant", "the vector has less room than asked for")

    def go(self):
        it, fn, role, op = self.it, self.fn, self.role, self.op
        if op in ("init", "create"):
            return self.construct()
        args = [sym_arg(it, fn, i) for i in range(len(fn.args))]
        q = args[0][1]
        st = absint.State()
        it.objs[q].ditype = S
        st.nn[q] = True
        for s0, info in make(it, st, q):
            n, w = info["n"], info["w"]
            for some in (True, False):
                s = s0.copy()
                d = L.atom(it.mk_atom("d#%d" % it.bump(), 0, C.BIG))
                j = L.atom(it.mk_atom("j#%d" % it.bump(), 0, C.BIG))
                it.add_ge(s, L.addc(L.sub(w, d), -1))
                X, Y = self.mark("old"), self.mark("new")
                if some:
                    if L.is_const(n) or not it.add_ge(s, L.addc(L.sub(n, j), -1)):
                        continue
                    a = item(it, s, q, j, w)
                    it.store(s, ("P", a[1], L.add(a[2], d)), 1, X)
                elif not it.add_eq(s, n):
                    continue
                av = list(args)
                if "item" in role:
                    av[role["item"]] = C.region(it, s, "value", w)
                    it.store(s, ("P", av[role["item"]][1], d), 1, Y)
                if "count" in role:
                    av[role["count"]] = C.region(it, s, "count", L.const(4))
                if "index" in role and op != "remove":
                    if not it.add_ge(s, L.addc(L.sub(n, it.u(s, av[role["index"]])), -1)):
                        continue
                if op == "getp" and not it.add_ge(s, L.addc(w, -8)):
                    continue
                it.probes = [L.add(C.product(it, s, n, w), d)]
                self.cl.count("entry states")
                for e, rv in it.call_fn(fn, av, s):
                    self.cl.count("exit states")
                    if it.close(e):
                        self.judge(e, rv, q, info, some, j, d, X, Y, av)

    def judge(self, e, rv, q, info, some, j, d, X, Y, av):
        it, role, op = self.it, self.role, self.op
        n, w = info["n"], info["w"]
        if op == "destroy":
            for o, what in ((info["data"], "storage"), (q, "vector")):
                want = bool(info["flags"] & (1 if what == "storage" else 2))
                if (e.heap.get(o) == "freed") != want:
                    self.fail(e, "storage", ("does not free the %s" if want else "frees a %s it does not own") % what)
                self.cl.count("successful outcomes")
            return
        if not self.consistent(e, q, w):
            return
        if op == "append":
            ok = True
            if role.get("unique"):
                ok = it.decide(e, it.cond_of(e, rv))
                if ok is None:
                    self.fail(e, "result", "the result does not tell whether the item was added")
                    return
                if not ok and not some:
                    self.fail(e, "result", "refuses an item although the vector is empty")
            self.cl.count("successful outcomes")
            if not self.sized(e, q, L.addc(n, 1) if ok else n):
                return
            if some:
                self.stays(e, q, j, d, X, w)
            if ok:
                p = item(it, e, q, n, w)
                if role.get("blank"):
                    if rv[0] != "P" or rv[1] != p[1] or not it.entails_eq(e, L.sub(rv[2], p[2])):
                        self.fail(e, "result", "does not return the new item")
                    elif not self.holds(e, p, d, ("I", 8, L.ZERO)):
                        self.fail(e, "order", "the new item is not filled with zeroes")
                elif not self.holds(e, p, d, Y):
                    self.fail(e, "order", "the new item is not found at the end")
            return
        if op == "remove":
            ix = it.u(e, av[role["index"]])
            for t, (c,) in it.view_cases(e, [L.sub(ix, n)]):
                ok = it.decide(t, it.cond_of(t, rv))
                if ok is None or ok != (c < 0):
                    self.fail(t, "result", "the result does not tell whether the position exists")
                    continue
                if not self.sized(t, q, L.addc(n, -1) if ok else n) or not some:
                    continue
                self.cl.count("successful outcomes")
                for u, (k,) in it.view_cases(t, [L.sub(j, ix)]):
                    if not ok or k < 0:
                        self.stays(u, q, j, d, X, w)
                    elif k > 0:
                        self.stays(u, q, L.addc(j, -1), d, X, w)
            return
        if not self.sized(e, q, L.ZERO if op == "clear" else n):
            return
        self.cl.count("successful outcomes")
        if op == "grow":
            c2 = C.fields(it, e, q, 0, S, ["capacity"])[0]
            if not it.entails(e, L.addc(L.sub(c2, info["cap"]), -1)):
                self.fail(e, "invariant", "the capacity does not grow")
        if op == "set":
            ix = it.u(e, av[role["index"]])
            if not self.holds(e, item(it, e, q, ix, w), d, Y):
                self.fail(e, "order", "the new item is not found at its position")
            if some:
                for u, (k,) in it.view_cases(e, [L.sub(j, ix)]):
                    if k:
                        self.stays(u, q, j, d, X, w)
            return
        if some and op != "clear":
            self.stays(e, q, j, d, X, w)
        if op == "get":
            p = item(it, e, q, it.u(e, av[role["index"]]), w)
            if rv[0] != "P" or rv[1] != p[1] or not it.entails_eq(e, L.sub(rv[2], p[2])):
                self.fail(e, "result", "does not return the address of the item")
        if op == "getp":
            p = item(it, e, q, it.u(e, av[role["index"]]), w)
            x = it.load(e, None, None, p, 8, "ptr")
            if rv != x:
                self.fail(e, "result", "does not return the pointer stored at the position")
        if op == "array":
            c = it.load(e, None, None, av[role["count"]], 4, "i32")
            if c[0] != "I" or not it.entails_eq(e, L.sub(it.u(e, c), n)):
                self.fail(e, "result", "does not report the number of items")
            if rv[0] != "P" or rv[1] == info["data"] or rv[1] not in e.heap:
                self.fail(e, "result", "does not return a new array")
            elif some and not self.holds(e, ("P", rv[1], L.add(rv[2], C.product(it, e, j, w))), d, X):
                self.fail(e, "order", "an item is not found at its place in the array")


def run_op(name):
    r = Run(name)
    r.go()
    r.cl.count("operations")
    return r.cl


def check_vectors(p, tier):
    res = Result()
    for n in OPS:
        p.need(n)
    for cl in parallel([(run_op, (n,)) for n in sorted(OPS)]):
        res.add_client(cl)
    res.instances = sorted(OPS)
    res.need("operations", len(OPS))
    res.need("successful outcomes", 70)
    res.need("items followed", 25)
    res.need("bounded access", 6)
    res.need("constructed", 2)
    res.assumptions = SIZES
    return res
