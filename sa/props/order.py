"""Queues keep their items: order, contents, counts."""
from .. import absint, contracts as C, lin as L
from ..absint import NULL
from ..harness import Result, sym_arg, parallel, program
from .storage import StoreClient, SIZES

# function -> (queue type, operation, {argument roles}, result convention)
#   operations: tail head index pop popt peek size empty init
#   results: "bool" true on success, "int" 0 on success
OPS = {
    "as_queue_push": ("as_queue", "tail", dict(item=1), "bool"),
    "as_queue_push_limit": ("as_queue", "tail", dict(item=1, full=True), "bool"),
    "as_queue_push_head": ("as_queue", "head", dict(item=1), "bool"),
    "as_queue_push_head_limit": ("as_queue", "head", dict(item=1, full=True), "bool"),
    "as_queue_pop": ("as_queue", "pop", dict(out=1), "bool"),
    "as_queue_pop_tail": ("as_queue", "popt", dict(out=1), "bool"),
    "as_queue_size": ("as_queue", "size", {}, None),
    "as_queue_empty": ("as_queue", "empty", {}, None),
    "as_queue_mt_push": ("as_queue_mt", "tail", dict(item=1), "bool"),
    "as_queue_mt_push_limit": ("as_queue_mt", "tail", dict(item=1, full=True), "bool"),
    "as_queue_mt_push_head": ("as_queue_mt", "head", dict(item=1), "bool"),
    "as_queue_mt_push_head_limit": ("as_queue_mt", "head", dict(item=1, full=True), "bool"),
    "as_queue_mt_pop": ("as_queue_mt", "pop", dict(out=1), "bool"),
    "as_queue_mt_pop_tail": ("as_queue_mt", "popt", dict(out=1), "bool"),
    "as_queue_mt_size": ("as_queue_mt", "size", {}, None),
    "as_queue_mt_empty": ("as_queue_mt", "empty", {}, None),
    "cf_queue_push": ("cf_queue", "tail", dict(item=1), "int"),
    "cf_queue_push_limit": ("cf_queue", "tail", dict(item=1, limit=2), "bool"),
    "cf_queue_push_index": ("cf_queue", "index", dict(item=1, index=2), "int"),
    "cf_queue_push_unique": ("cf_queue", "tail", dict(item=1, unique=True), "int"),
    "cf_queue_push_head": ("cf_queue", "head", dict(item=1), "int"),
    "cf_queue_peek": ("cf_queue", "peek", dict(out=1), "int"),
    "cf_queue_pop": ("cf_queue", "pop", dict(out=1), "int"),
    "cf_queue_sz": ("cf_queue", "size", {}, None),
    "cf_queue_delete_offset": ("cf_queue", "del", dict(position=1), None),
    "cf_queue_reduce": ("cf_queue", "reduce", {}, "int"),
    "cf_queue_reduce_reverse": ("cf_queue", "reduce", {}, "int"),
    "cf_queue_reduce_pop": ("cf_queue", "take", dict(out=1), "int"),
    "cf_queue_delete": ("cf_queue", "any", dict(match=1, once=2), "int"),
    "cf_queue_delete_all": ("cf_queue", "any", dict(all=True), "int"),
    "as_queue_init": ("as_queue", "init", dict(item_size=1, capacity=2), "bool"),
    "as_queue_create": ("as_queue", "create", dict(item_size=0, capacity=1), "ptr"),
    "as_queue_mt_init": ("as_queue_mt", "init", dict(item_size=1, capacity=2), "bool"),
    "as_queue_mt_create": ("as_queue_mt", "create", dict(item_size=0, capacity=1), "ptr"),
    "cf_queue_init": ("cf_queue", "init", dict(item_size=1, capacity=2), "bool"),
    "cf_queue_create": ("cf_queue", "create", dict(item_size=0), "ptr"),
}


class Trace(StoreClient):
    ring = None
    op = None
    once = False

    def fail(self, it, st, fn, rule, msg):
        self.report_at(rule, fn.file, fn.line, fn.name, msg, it.trace_lines(st))

    def on_fnptr(self, it, st, fr, I, target, args):
        """The caller's callback: looks at the item, returns any number."""
        if I["t"] == "void" or not self.ring:
            return [(st, it.unknown(I["t"], "cb") if I["t"] != "void" else None)]
        k = None
        if args and args[0][0] == "P":
            k = self.index_of(it, st, args[0])
            if k is None and not it.quiet:
                self.report(it, st, fr, I, "order", "hands the callback a pointer that is not known to be a queued item")
        out = []
        for rv in (-2, -1, 0):
            s = st.copy()
            if rv == -2 and k is not None and self.op == "reduce":
                s.cl["deleted"] = k
            out.append((s, ("I", 32, L.const(rv))))
        return out

    def on_call(self, it, st, fr, I, name, args):
        """Comparing an item with the one looked for."""
        if name not in ("memcmp", "bcmp") or not self.once:
            return super().on_call(it, st, fr, I, name, args)
        out = []
        ks = [self.index_of(it, st, p) for p in args[:2] if p[0] == "P"]
        ks = [k for k in ks if k is not None]
        if not ks and not it.quiet:
            self.report(it, st, fr, I, "order", "compares with something not known to be a queued item")
        for s, v in it.extern(fr, I, st, name, args):
            for eq in (True, False):
                t = s.copy()
                if it.assume(t, it.icmp(t, "eq" if eq else "ne", "i32", v, ("I", 32, L.ZERO))):
                    if eq and ks:
                        t.cl["deleted"] = ks[0]
                    out.append((t, v))
        return out

    def on_event(self, it, st, fr, I, what, data):
        if what == "allocfail":
            st.cl["nomem"] = True
        super().on_event(it, st, fr, I, what, data)

    def on_null(self, it, st, fr, I, ptr, definite):
        if not it.quiet and it.objs[ptr[1]].kind in ("heap", "null"):
            self.report(it, st, fr, I, "memory", "uses the result of an allocation that may have failed")

    def index_of(self, it, st, p):
        """k such that p points at item k of the queue at entry, or None."""
        ring, q, head, n, w, cap, data = self.ring
        if p[1] != data:
            return None
        off = it.simp(st, p[2])
        if len(w[1]) != 1:
            return None
        f, g = it.split_factor(off, w[1][0][0]) if off[1] else (L.ZERO, off)
        if f is None or not it.entails_eq(st, g):
            return None
        for c in it.congruent(f, cap):
            k = L.sub(c, head)
            if it.entails(st, k) and it.entails(st, L.addc(L.sub(n, k), -1)):
                return k
        return None


def mark(it, name):
    a = it.mk_atom(name, 0, 255)
    it.marks.add(a)
    return ("I", 8, L.atom(a))


def holds(it, st, ptr, d, v):
    """The byte at ptr + d is v."""
    x = it.load(st, None, None, ("P", ptr[1], L.add(ptr[2], d)), 1, "i8")
    return x[0] == "I" and x[2] == v[2]


def run_op(name):
    p = program()
    fn = p.need(name)
    kind, op, role, conv = OPS[name]
    ring = C.RINGS[kind]
    cl = Trace(p, name)
    it = absint.Interp(p, cl, max_steps=2500000, max_states=300)
    it.alloc_fails = True
    it.marks.add(-1)
    if op in ("init", "create"):
        construct(it, cl, fn, ring, op, role, conv)
        return cl
    st = absint.State()
    args = [sym_arg(it, fn, i) for i in range(len(fn.args))]
    q = args[0][1]
    st.nn[q] = True
    it.objs[q].ditype = kind
    for s0, info in ring.make(it, st, q, "q"):
        n, w = info["size"], info["item"]
        for which in ("some", "none", "once") if "once" in role else ("some", "none"):
            s = s0.copy()
            cl.once = which == "once"
            d = L.atom(it.mk_atom("d#%d" % it.bump(), 0, C.BIG))
            it.add_ge(s, L.addc(L.sub(w, d), -1))
            j = L.atom(it.mk_atom("j#%d" % it.bump(), 0, C.BIG))
            X, Y = mark(it, "old"), mark(it, "new")
            if which != "none":
                if not it.add_ge(s, L.addc(L.sub(n, j), -1)):
                    continue
                a = ring.at(it, s, q, j)
                it.store(s, ("P", a[1], L.add(a[2], d)), 1, X)
            elif not it.add_eq(s, n):
                continue
            av = list(args)
            if "item" in role:
                av[role["item"]] = C.region(it, s, "item", w)
                it.store(s, ("P", av[role["item"]][1], d), 1, Y)
            if "out" in role:
                av[role["out"]] = C.region(it, s, "out", w)
            if "match" in role:
                av[role["match"]] = C.region(it, s, "item", w)
                c = it.cond_of(s, av[role["once"]])
                if not it.assume(s, c if which == "once" else it.neg(c)):
                    continue
            if "position" in role:
                k = L.sub(it.u(s, av[role["position"]]), info["head"])
                if not (it.add_ge(s, k) and it.add_ge(s, L.addc(L.sub(n, k), -1))):
                    continue
                s.cl["deleted"] = k
            cl.op = op
            cl.ring = (ring, q, info["head"], n, w, info["cap"], info["data"])
            cl.count("entry states")
            for e, rv in it.call_fn(fn, av, s):
                cl.count("exit states")
                judge(it, cl, fn, e, rv, ring, q, info, which != "none", j, d, X, Y, av)
    cl.count("operations")
    return cl


def outcome(it, st, rv, conv):
    """[(state, success)]"""
    if conv == "bool":
        c = it.cond_of(st, rv)
    else:
        c = it.icmp(st, "eq", "i32", rv, ("I", 32, L.ZERO))
    k = it.decide(st, c)
    if k is not None:
        return [(st, k)]
    out = []
    for v in (True, False):
        s = st.copy()
        if it.assume(s, c if v else it.neg(c)):
            out.append((s, v))
    return out


def out_of_memory(it, st):
    return st.cl.get("nomem") or any(it.nullness(st, o) is False for o in st.heap)


def judge(it, cl, fn, e, rv, ring, q, info, some, j, d, X, Y, av):
    kind, op, role, conv = OPS[fn.name]
    n = info["size"]
    if not it.close(e):
        return
    for msg in ring.inv(it, e, q, info):
        cl.fail(it, e, fn, "invariant", "returns leaving the queue inconsistent: " + msg)
        return
    n2 = ring.size(it, e, q)
    if op == "any" and not cl.once:
        for s, ok in outcome(it, e, rv, conv):
            if not ok:
                keep(it, cl, fn, s, ring, q, n, n2, some, j, d, X)
            elif not it.entails(s, L.addc(L.sub(n, n2), -1)):
                cl.fail(it, s, fn, "count", "reports success without having deleted an item")
            elif role.get("all") and not it.entails_eq(s, n2):
                cl.fail(it, s, fn, "count", "can leave items in the queue")
            else:
                cl.count("successful outcomes")
        return
    if op in ("del", "reduce", "take", "any"):
        removed(it, cl, fn, e, rv, ring, q, n, n2, some, j, d, X, av)
        return
    if conv is None:
        if op == "size" and not it.entails_eq(e, L.sub(it.u(e, rv), n)):
            cl.fail(it, e, fn, "result", "does not return the number of items")
        if op == "empty":
            k = it.decide(e, it.cond_of(e, rv))
            if k is None or k == some:
                cl.fail(it, e, fn, "result", "does not tell truly whether the queue is empty")
        keep(it, cl, fn, e, ring, q, n, n2, some, j, d, X)
        return
    for s, ok in outcome(it, e, rv, conv):
        if not ok:
            allowed = False
            if op in ("pop", "popt", "peek"):
                allowed = not some
            elif role.get("full"):
                allowed = it.entails(s, L.sub(n, info["cap"]))
            elif "limit" in role:
                allowed = it.entails(s, L.sub(n, it.u(s, av[role["limit"]])))
            elif role.get("unique"):
                allowed = some
            if op in ("tail", "head", "index") and out_of_memory(it, s):
                allowed = True
            if not allowed:
                cl.fail(it, s, fn, "result", "can fail although the operation is possible")
            keep(it, cl, fn, s, ring, q, n, n2, some, j, d, X)
            continue
        cl.count("successful outcomes")
        if op in ("pop", "popt", "peek"):
            if not some:
                cl.fail(it, s, fn, "result", "reports success on an empty queue")
                continue
            first = op != "popt"
            out = av[role["out"]]
            want = L.sub(n, L.const(0 if op == "peek" else 1))
            if not it.entails_eq(s, L.sub(n2, want)):
                cl.fail(it, s, fn, "count", "the number of items changes from %s to %s" % (it.show(n), it.show(n2)))
                continue
            pos = L.ZERO if first else L.addc(n, -1)
            # the item handed out, and the items that stay
            hit = s.copy()
            if it.add_eq(hit, L.sub(j, pos)) and it.close(hit):
                if not holds(it, hit, out, d, X):
                    cl.fail(it, hit, fn, "order", "does not hand out the %s item" % ("first" if first else "last"))
            for c in (L.addc(L.sub(j, pos), -1), L.addc(L.sub(pos, j), -1)):
                t = s.copy()
                if it.add_ge(t, c) and it.add_ge(t, L.addc(L.sub(n, j), -1)) and it.close(t):
                    stays(it, cl, fn, t, ring, q, L.addc(j, -1) if op == "pop" else j, d, X)
            continue
        # a push
        if role.get("full") and not it.entails(s, L.addc(L.sub(info["cap"], n), -1)):
            cl.fail(it, s, fn, "result", "can succeed although the queue is full")
        if "limit" in role and not it.entails(s, L.addc(L.sub(it.u(s, av[role["limit"]]), n), -1)):
            cl.fail(it, s, fn, "result", "can succeed although the limit is reached")
        if not it.entails_eq(s, L.addc(L.sub(n2, n), -1)):
            cl.fail(it, s, fn, "count", "the number of items changes from %s to %s" % (it.show(n), it.show(n2)))
            continue
        if op == "index":
            ix = it.u(s, av[role["index"]])
            parts = []
            a = s.copy()
            if it.add_ge(a, L.sub(ix, n)):
                parts.append((a, n))
            a = s.copy()
            if it.add_ge(a, L.addc(L.sub(n, ix), -1)):
                parts.append((a, ix))
        else:
            parts = [(s, n if op == "tail" else L.ZERO)]
        for a, pos in parts:
            t = a.copy()
            if not it.close(t):
                continue
            loc = ring.at(it, t, q, pos)
            if loc is None or not holds(it, t, loc, d, Y):
                cl.fail(it, t, fn, "order", "the pushed item is not found at its place in the queue")
            if some:
                for c, to in ((L.addc(L.sub(pos, j), -1), j), (L.sub(j, pos), L.addc(j, 1))):
                    t = a.copy()
                    if it.add_ge(t, c) and it.close(t):
                        stays(it, cl, fn, t, ring, q, to, d, X)


def removed(it, cl, fn, e, rv, ring, q, n, n2, some, j, d, X, av):
    kind, op, role, conv = OPS[fn.name]
    k = e.cl.get("deleted")
    if op == "take":
        for s, ok in outcome(it, e, rv, conv):
            if not ok:
                if some:
                    cl.fail(it, s, fn, "result", "can fail although the queue is not empty")
                keep(it, cl, fn, s, ring, q, n, n2, some, j, d, X)
                continue
            cl.count("successful outcomes")
            if not some:
                cl.fail(it, s, fn, "result", "reports success on an empty queue")
                continue
            if not it.entails_eq(s, L.addc(L.sub(n2, n), 1)):
                cl.fail(it, s, fn, "count", "the number of items changes from %s to %s" % (it.show(n), it.show(n2)))
                continue
            if not it.close(s):
                continue
            cl.count("items followed")
            # the item is handed out, or it is still queued with at most one item before it gone
            if holds(it, s, av[role["out"]], d, X):
                continue
            for to in (j, L.addc(j, -1)):
                t = s.copy()
                a = ring.at(it, t, q, to)
                if it.entails(s, to) and it.entails(s, L.addc(L.sub(n2, to), -1)) and a and holds(it, t, a, d, X):
                    break
            else:
                cl.fail(it, s, fn, "order", "an item is neither handed out nor still queued in order")
        return
    if op == "any" and any(ok != (k is not None) for s, ok in outcome(it, e, rv, conv)):
        cl.fail(it, e, fn, "result", "does not tell truly whether an item was deleted")
    if k is None:
        keep(it, cl, fn, e, ring, q, n, n2, some, j, d, X)
        return
    cl.count("successful outcomes")
    if not it.entails_eq(e, L.addc(L.sub(n2, n), 1)):
        cl.fail(it, e, fn, "count", "the number of items changes from %s to %s" % (it.show(n), it.show(n2)))
        return
    for c, to in ((L.addc(L.sub(k, j), -1), j), (L.addc(L.sub(j, k), -1), L.addc(j, -1))):
        t = e.copy()
        if it.add_ge(t, c) and it.close(t):
            stays(it, cl, fn, t, ring, q, to, d, X)


def stays(it, cl, fn, st, ring, q, pos, d, X):
    cl.count("items followed")
    loc = ring.at(it, st, q, pos)
    if loc is None or not holds(it, st, loc, d, X):
        cl.fail(it, st, fn, "order", "an item already queued is lost, changed or out of order")


def keep(it, cl, fn, st, ring, q, n, n2, some, j, d, X):
    if not it.entails_eq(st, L.sub(n2, n)):
        cl.fail(it, st, fn, "count", "the number of items changes from %s to %s" % (it.show(n), it.show(n2)))
    elif some:
        stays(it, cl, fn, st, ring, q, j, d, X)


def construct(it, cl, fn, ring, op, role, conv):
    st = absint.State()
    args = [sym_arg(it, fn, i) for i in range(len(fn.args))]
    w = it.u(st, args[role["item_size"]])
    it.add_ge(st, L.addc(w, -1))
    C.small(it, st, w)
    if "capacity" in role:
        cap = it.u(st, args[role["capacity"]])
        it.add_ge(st, L.addc(cap, -1))
        C.small(it, st, cap)
        C.small(it, st, C.product(it, st, cap, w))
    else:
        it.add_ge(st, L.addc(L.neg(w), 1 << 20))
    if op == "init":
        st.nn[args[0][1]] = True
        it.objs[args[0][1]].init = "undef"
    for e, rv in it.call_fn(fn, args, st):
        if op == "init":
            q = args[0][1]
            if it.decide(e, it.cond_of(e, rv)) is False:
                continue
        else:
            if rv[1] == NULL:
                continue
            q = rv[1]
        cl.count("constructed")
        for msg in ring.inv(it, e, q, dict(item=w)):
            cl.fail(it, e, fn, "invariant", "the new queue is inconsistent: " + msg)
            break
        else:
            n = ring.size(it, e, q)
            if not it.entails_eq(e, n):
                cl.fail(it, e, fn, "invariant", "the new queue is not empty")
    cl.count("operations")


def check_queues(p, tier):
    res = Result()
    for n in OPS:
        p.need(n)
    for cl in parallel([(run_op, (n,)) for n in sorted(OPS)]):
        res.add_client(cl)
    res.instances = sorted(OPS)
    res.need("operations", len(OPS))
    res.need("constructed", 6)
    res.need("successful outcomes", 150)
    res.need("items followed", 150)
    res.need("bounded access", 40)
    res.assumptions = SIZES + ["a queue has at most 2^26 slots"]
    return res
