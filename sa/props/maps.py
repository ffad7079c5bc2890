"""Ordered maps: one entry per key, in key order, references balanced."""
from .. import absint, contracts as C, lin as L
from ..absint import NULL
from ..harness import Result, sym_arg, parallel, program
from .storage import OPAQUE
from . import lists
from .lists import Refs, same, traced

S = "as_orderedmap"
T = "as_orderedmap_iterator"
MOST = 999          # entries; above this new entries may wait in a second table
CMP = "as_val_cmp"
LESS, EQUAL, GREATER = 0, 1, 2

# function -> (operation, {argument roles})
OPS = {
    "as_orderedmap_set": ("set", dict(key=1, value=2)),
    "as_orderedmap_get": ("get", dict(key=1)),
    "as_orderedmap_remove": ("remove", dict(key=1)),
    "as_orderedmap_clear": ("clear", {}),
    "as_orderedmap_release": ("release", {}),
    "as_orderedmap_size": ("size", {}),
    "as_orderedmap_foreach": ("foreach", {}),
    "as_orderedmap_init": ("init", dict(capacity=1)),
    "as_orderedmap_new": ("new", dict(capacity=0)),
    "as_orderedmap_iterator_init": ("iinit", {}),
    "as_orderedmap_iterator_new": ("inew", {}),
    "as_orderedmap_iterator_has_next": ("ihas", {}),
    "as_orderedmap_iterator_next": ("inext", {}),
}
# kinds of keys: (value type, type of raw bytes, accepted)
KEYS = [(3, None, True), (4, None, True), (9, 4, True), (9, 1, False), (10, None, False), (5, None, False),
        (1, None, False), (None, None, False)]


class Entries(Refs):
    """Also answers how the searched key compares with the key of an entry."""
    key = None          # (searched key, traced key, traced position, table, rank, present)

    def position(self, it, v):
        q, k, j, table, p, present = self.key
        if v[0] != "P":
            return None
        if k is not None and v[1] == k:
            return j
        for key, o in it.objkey.items():
            if o == v[1] and key[0] == "ld":
                _, t, off = key[:3]
                if t == table and off[0] % 16 == 0 and not any(c % 16 for _, c in off[1]):
                    return (off[0] // 16, tuple((a, c // 16) for a, c in off[1]))
        return None

    def on_call(self, it, st, fr, I, name, args):
        if name == CMP and self.key:
            q, k, j, table, p, present = self.key
            a, b = args[0], args[1]
            other = b if same(a, q) else a if same(b, q) else None
            i = self.position(it, other) if other else None
            if i is not None:
                self.site("key comparison", fr, I)
                out = []
                for t, (s,) in it.view_cases(st, [L.sub(i, p)]):
                    r = GREATER if s < 0 else EQUAL if s == 0 and present else LESS
                    if other is a:
                        r = {GREATER: LESS, LESS: GREATER}.get(r, r)
                    out.append((t, ("I", 32, L.const(r))))
                return out
        return super().on_call(it, st, fr, I, name, args)

    def on_fnptr(self, it, st, fr, I, target, args):
        if len(args) > 1 and not it.quiet:
            for k, v in self.pairs:
                if same(args[0], k) != same(args[1], v):
                    self.report(it, st, fr, I, "visit", "shows the visitor a key with another key's value")
        return super().on_fnptr(it, st, fr, I, target, args)
    pairs = ()

    def on_event(self, it, st, fr, I, what, d):
        if what == "allocfail":
            st.cl["nomem"] = True
        super().on_event(it, st, fr, I, what, d)


def nomem(it, st):
    """An allocation failed on the way to st."""
    return st.cl.get("nomem") or any(it.nullness(st, o) is False for o in st.heap)


def null(it, st, v):
    return v[0] == "P" and (v[1] == NULL or it.nullness(st, v[1]) is False)


def make(it, st, o):
    """Entry states: any consistent map with an empty second table."""
    out = []
    for hold in (False, True):
        s = st.copy()
        n = C.num(it, "count", 0, MOST)
        cap = C.num(it, "capacity", 1, 1 << 20)
        it.add_ge(s, L.sub(cap[2], n[2]))
        v = C.owned(it, s, "table", L.scale(cap[2], 16), "map_entry")
        C.put(it, s, o, 0, S, "table", v)
        C.put(it, s, o, 0, S, "capacity", cap)
        C.put(it, s, o, 0, S, "count", n)
        C.put(it, s, o, 0, S, "hold_count", 0)
        hs = []
        for f in ("hold_table", "hold_locations"):
            h = C.owned(it, s, f, None) if hold else C.NULLP
            hs.append(h[1])
            C.put(it, s, o, 0, S, f, h)
        out.append((s, dict(n=n[2], cap=cap[2], data=v[1], hold=hs if hold else [])))
    return out


def entry(it, st, o, i):
    v = C.get(it, st, o, 0, S, "table", True)
    if v[0] != "P" or v[1] == NULL:
        return None, None
    return tuple(it.load(st, None, None, ("P", v[1], L.addc(L.add(v[2], L.scale(i, 16)), d)), 8, "ptr") for d in (0, 8))


def lay(it, st, info, j, name):
    ks = []
    for d, what in ((0, "key"), (8, "value")):
        o = traced(it, st, "%s %s" % (name, what))
        it.store(st, ("P", info["data"], L.addc(L.scale(j, 16), d)), 8, ("P", o, L.ZERO))
        ks.append(o)
    return tuple(ks)


class Run:
    TABLE = ("as_orderedmap_init", "as_map", "as_orderedmap_iterator_init")
    start = lists.Run.start
    hooked = lists.Run.hooked

    def __init__(self, name, via=None):
        p = program()
        p.need(CMP)
        self.fn = p.need(via or name)
        self.via = via
        self.op, self.role = OPS[name]
        self.cl = Entries(p, name, OPAQUE - {"as_val_val_destroy", "as_val_val_reserve"})
        self.it = absint.Interp(p, self.cl, max_steps=2500000, max_states=300, keep=60)
        self.it.alloc_fails = self.op in ("set", "new", "init", "inew")
        self.it.marks.add(-1)
        self.start()

    def sample(self, st):
        q = C.region(self.it, st, "sample map", None, S)
        for f in ("count", "hold_count"):
            C.put(self.it, st, q[1], 0, S, f, 0)
        return q

    def fail(self, st, rule, msg):
        self.cl.fail(self.it, st, self.fn, rule, msg)

    def refs(self, st, old, gave, what):
        for o, w in zip(old, ("key", "value")):
            t, g = st.cl.get(("took", o), 0), st.cl.get(("gave", o), 0)
            if t:
                self.fail(st, "references", "the %s of %s is reserved" % (w, what))
            if g != gave:
                self.fail(st, "references", "the %s of %s is destroyed %d time(s) instead of %d" % (w, what, g, gave))

    def at(self, st, q, i, want, what):
        self.cl.count("entries followed")
        k, v = entry(self.it, st, q, i)
        if not same(k, want[0]) or not same(v, want[1]):
            self.fail(st, "order", what)

    def stays(self, st, q, i, old):
        self.at(st, q, i, old, "an entry that stays is lost, mixed up or out of order")
        self.refs(st, old, 0, "an entry that stays")

    def sized(self, st, q, want):
        n, h = C.fields(self.it, st, q, 0, S, ["count", "hold_count"])
        if n is None or h is None or not self.it.entails_eq(st, L.sub(L.add(n, h), want)):
            self.fail(st, "count", "the size is %s instead of %s" % (n and self.it.show(n), self.it.show(want)))
            return False
        return True

    def consistent(self, st, q):
        it = self.it
        n, cap, h = C.fields(it, st, q, 0, S, ["count", "capacity", "hold_count"])
        if None in (n, cap, h):
            out = ["a count or the capacity is not set"]
        else:
            v = C.get(it, st, q, 0, S, "table", True)
            out = C.le(it, st, n, cap, "the count can exceed the capacity") + C.block_ok(it, st, v, L.scale(cap, 16), True)
            if not it.entails_eq(st, h):
                out.append("entries are left in the second table")
            for f in ("hold_table", "hold_locations"):
                v = C.get(it, st, q, 0, S, f, True)
                if v[0] != "P" or st.heap.get(v[1]) == "freed":
                    out.append("the second table is not set or was freed")
        for msg in out[:1]:
            self.fail(st, "invariant", "returns leaving the map inconsistent: " + msg)
        self.cl.count("maps re-checked")
        return not out

    def call(self, st, av):
        it = self.it
        self.cl.count("entry states")
        out = []
        for e, rv in it.call_fn(self.fn, av, st):
            self.cl.count("exit states")
            if it.close(e):
                out.append((e, rv))
        return out

    def outcome(self, st, rv):
        it = self.it
        c = it.icmp(st, "eq", "i32", rv, ("I", 32, L.ZERO))
        out = []
        for v in (True, False):
            s = st.copy()
            if it.assume(s, c if v else it.neg(c)) and it.close(s):
                out.append((s, v))
        return out

    def entries(self):
        """(state, arguments, map, info, traced position or None, traced entry)"""
        it, fn = self.it, self.fn
        args = [sym_arg(it, fn, i) for i in range(len(fn.args))]
        q = args[0][1]
        it.objs[q].ditype = S
        st = absint.State()
        st.nn[q] = True
        self.hooked(st, q, "as_map")
        for s0, info in make(it, st, q):
            for some in (True, False):
                s = s0.copy()
                j = L.atom(it.mk_atom("j#%d" % it.bump(), 0, MOST))
                old = None
                if some:
                    if not it.add_ge(s, L.addc(L.sub(info["n"], j), -1)):
                        continue
                    old = lay(it, s, info, j, "entry's")
                elif not it.add_eq(s, info["n"]):
                    continue
                yield s, list(args), q, info, j, old

    def keyed(self):
        """As entries(), with a searched key of every kind, present or not: (..., key object, accepted, rank, present)"""
        it = self.it
        for s0, av, q, info, j, old in self.entries():
            for ty, raw, ok in KEYS:
                for present in (True, False) if ok else (False,):
                    s = s0.copy()
                    p = L.atom(it.mk_atom("rank#%d" % it.bump(), 0, MOST))
                    if not it.add_ge(s, L.addc(L.sub(info["n"], p), -1 if present else 0)):
                        continue
                    it.hints = [p]
                    key = NULL
                    if ty is not None:
                        key = traced(it, s, "searched key")
                        C.put(it, s, key, 0, "as_val", "type", ty)
                        if raw is not None:
                            it.objs[key].ditype = "as_bytes"
                            C.put(it, s, key, 0, "as_bytes", "type", raw)
                    a = list(av)
                    a[self.role["key"]] = ("P", key, L.ZERO)
                    self.cl.key = (key, old and old[0], j, info["data"], p, present)
                    yield s, a, q, info, j, old, key, ok, p, present

    def unchanged(self, st, q, info, j, old):
        if self.consistent(st, q) and self.sized(st, q, info["n"]) and old:
            self.stays(st, q, j, old)

    # -------------------------------------------------------------------- set
    def set(self):
        it = self.it
        for s0, av, q, info, j, old, key, ok, p, present in self.keyed():
            for val in ("some", "null") if key != NULL else ("some",):
                s = s0.copy()
                new = self.it.global_obj(self.it.p.need("as_orderedmap_set").mod, "as_nil")
                a = list(av)
                a[2] = C.NULLP
                if val == "some":
                    new = traced(it, s, "new value")
                    a[2] = ("P", new, L.ZERO)
                for e, rv in self.call(s, a):
                    for t, done in self.outcome(e, rv):
                        self.set_done(t, done, q, info, j, old, key, ok, p, present, new)

    def set_done(self, st, done, q, info, j, old, key, ok, p, present, new):
        it = self.it
        if key != NULL:
            self.refs(st, (key, new), 0, "the new entry")
        if done != ok and not (ok and nomem(it, st)):
            self.fail(st, "result", "accepts a key that is not allowed" if done else "can fail although the key is allowed")
            return
        if not done:
            self.unchanged(st, q, info, j, old)
            return
        self.cl.count("successful outcomes")
        if not self.consistent(st, q) or not self.sized(st, q, info["n"] if present else L.addc(info["n"], 1)):
            return
        k, v = entry(it, st, q, p)
        nil = it.objs[new].kind == "global"
        if not same(k, key) or not (same(v, new) or nil and v[0] == "P" and it.objs[v[1]].name == "as_nil"):
            self.fail(st, "order", "the new entry is not at its place in key order")
        if not old:
            return
        for t, (d,) in it.view_cases(st, [L.sub(j, p)]):
            if present and d == 0:
                self.cl.count("entries followed")
                self.refs(t, old, 1, "a replaced entry")
            else:
                self.stays(t, q, L.addc(j, 1) if not present and d >= 0 else j, old)

    # ----------------------------------------------------------- get and remove
    def get(self):
        it = self.it
        for s, av, q, info, j, old, key, ok, p, present in self.keyed():
            for e, rv in self.call(s, av):
                self.unchanged(e, q, info, j, old)
                self.cl.count("successful outcomes")
                if not present or not ok:
                    if not null(it, e, rv):
                        self.fail(e, "result", "returns something for a key that is not in the map")
                    continue
                if old:
                    for t, (d,) in it.view_cases(e, [L.sub(j, p)]):
                        if same(rv, old[1]) != (d == 0):
                            self.fail(t, "result", "does not return the value of the key")

    def remove(self):
        it = self.it
        for s, av, q, info, j, old, key, ok, p, present in self.keyed():
            for e, rv in self.call(s, av):
                for t, done in self.outcome(e, rv):
                    if done != ok:
                        self.fail(t, "result", "accepts a key that is not allowed" if done else
                                  "can fail although the key is allowed")
                    if key != NULL and (t.cl.get(("gave", key)) or t.cl.get(("took", key))):
                        self.fail(t, "references", "touches the caller's key")
                    if not present or not ok:
                        self.unchanged(t, q, info, j, old)
                        continue
                    self.cl.count("successful outcomes")
                    if not self.consistent(t, q) or not self.sized(t, q, L.addc(info["n"], -1)) or not old:
                        continue
                    for u, (d,) in it.view_cases(t, [L.sub(j, p)]):
                        if d == 0:
                            self.cl.count("entries followed")
                            self.refs(u, old, 1, "the removed entry")
                        else:
                            self.stays(u, q, j if d < 0 else L.addc(j, -1), old)

    def clear(self):
        it = self.it
        for s, av, q, info, j, old in self.entries():
            for e, rv in self.call(s, av):
                self.cl.count("successful outcomes")
                if old:
                    self.cl.count("entries followed")
                    self.refs(e, old, 1, "an entry of the map")
                if self.op == "release":
                    for d in [info["data"]] + info["hold"]:
                        if e.heap.get(d) != "freed":
                            self.fail(e, "storage", "does not free the map's storage")
                    if rv is not None and not it.decide(e, it.cond_of(e, rv)):
                        self.fail(e, "result", "does not report success")
                    continue
                if not it.entails_eq(e, it.s(e, rv)):
                    self.fail(e, "result", "does not report success")
                if self.consistent(e, q):
                    self.sized(e, q, L.ZERO)

    def count(self):
        it = self.it
        for s, av, q, info, j, old in self.entries():
            for e, rv in self.call(s, av):
                self.unchanged(e, q, info, j, old)
                if not it.entails_eq(e, L.sub(it.u(e, rv), info["n"])):
                    self.fail(e, "result", "does not return the number of entries")

    def foreach(self):
        it = self.it
        for s, av, q, info, j, old in self.entries():
            for two in (False, True) if old else (False,):
                t = s.copy()
                olds = [old] if old else []
                if two:
                    j2 = L.atom(it.mk_atom("j2#%d" % it.bump(), 0, MOST))
                    if not (it.add_ge(t, L.addc(L.sub(j2, j), -1)) and it.add_ge(t, L.addc(L.sub(info["n"], j2), -1))):
                        continue
                    olds.append(lay(it, t, info, j2, "later entry's"))
                self.cl.order = tuple(k for k, v in olds)
                self.cl.pairs = olds
                for e, rv in self.call(t, av):
                    self.unchanged(e, q, info, j, old)
                    k = it.decide(e, it.cond_of(e, rv))
                    if k is None or k == bool(e.cl.get("stop")):
                        self.fail(e, "visit", "the result does not tell whether the visitor saw everything")
                    elif k:
                        self.cl.count("successful outcomes")
                        for o, _ in olds:
                            if not e.cl.get(("seen", o)):
                                self.fail(e, "visit", "leaves an entry out")

    # ------------------------------------------------------------- constructors
    def construct(self):
        it, fn = self.it, self.fn
        st = absint.State()
        args = [sym_arg(it, fn, i) for i in range(len(fn.args))]
        cap = it.u(st, args[self.role["capacity"]])
        it.add_ge(st, L.addc(L.neg(cap), 1 << 20))
        if self.op == "init":
            st.nn[args[0][1]] = True
            it.objs[args[0][1]].init = "undef"
            it.objs[args[0][1]].ditype = S
        for e, rv in self.call(st, args):
            if null(it, e, rv):
                if not nomem(it, e):
                    self.fail(e, "result", "can fail although memory is available")
                for o, x in e.heap.items():
                    if x == "live" and it.nullness(e, o) is not False:
                        self.fail(e, "storage", "fails and leaks what it allocated")
                continue
            q = args[0][1] if self.op == "init" else rv[1]
            if rv[0] != "P" or rv[1] != q:
                self.fail(e, "result", "does not return the map")
                continue
            it.objs[q].ditype = S
            self.cl.count("constructed")
            if self.consistent(e, q):
                self.sized(e, q, L.ZERO)
                c2 = C.fields(it, e, q, 0, S, ["capacity"])[0]
                if not it.entails(e, L.sub(c2, cap)) or not it.entails(e, L.addc(c2, -1)):
                    self.fail(e, "invariant", "the map has less room than asked for")

    # ---------------------------------------------------------------- iteration
    def iterate(self):
        it, fn = self.it, self.fn
        args = [sym_arg(it, fn, i) for i in range(len(fn.args))]
        st = absint.State()
        q = it.new_obj("sym", "map", None, S)
        st.nn[q] = True
        self.hooked(st, q, "as_map")
        if self.op in ("iinit", "inew"):
            args[-1] = ("P", q, L.ZERO)
            if self.op == "iinit":
                st.nn[args[0][1]] = True
                it.objs[args[0][1]].init = "undef"
            for s, info in make(it, st, q):
                for e, rv in self.call(s, args):
                    r = args[0][1] if self.op == "iinit" else rv[1]
                    if null(it, e, rv) or rv[0] != "P" or rv[1] != r:
                        if not nomem(it, e):
                            self.fail(e, "result", "does not return the iterator")
                        continue
                    self.cl.count("constructed")
                    p = C.fields(it, e, r, 0, T, ["ix"])[0]
                    l = C.get(it, e, r, 0, T, "map", True)
                    if not same(l, q) or p is None or not it.entails_eq(e, p):
                        self.fail(e, "visit", "the iterator does not start at the first entry of the map")
                    self.sized(e, q, info["n"])
            return
        r = args[0][1]
        it.objs[r].ditype = T
        st.nn[r] = True
        self.hooked(st, r, "as_iterator")
        C.put(it, st, r, 0, T, "map", ("P", q, L.ZERO))
        pos = C.num(it, "ix", 0, MOST)
        for s0, info in make(it, st, q):
            C.put(it, s0, r, 0, T, "ix", pos)
            for at in ("inside", "end"):
                s = s0.copy()
                old = None
                if at == "inside":
                    if not it.add_ge(s, L.addc(L.sub(info["n"], pos[2]), -1)):
                        continue
                    old = lay(it, s, info, pos[2], "entry's")
                elif not it.add_eq(s, L.sub(info["n"], pos[2])):
                    continue
                for e, rv in self.call(s, args):
                    p = C.fields(it, e, r, 0, T, ["ix"])[0]
                    step = L.ZERO
                    if self.op == "ihas":
                        if it.decide(e, it.cond_of(e, rv)) is not (at == "inside"):
                            self.fail(e, "visit", "does not tell whether an entry is left")
                    elif at == "inside":
                        self.cl.count("entries followed")
                        step = L.const(1)
                        if rv[0] != "P" or rv[1] == NULL or not L.is_const(rv[2]):
                            self.fail(e, "visit", "returns nothing although an entry is left")
                        else:
                            for f, o in zip(("_1", "_2"), old):
                                if not same(C.get(it, e, rv[1], rv[2][0], "as_pair", f, True), o):
                                    self.fail(e, "visit", "does not return the entry at the position of the iterator")
                        self.refs(e, old, 0, "a visited entry")
                    elif not null(it, e, rv):
                        self.fail(e, "visit", "returns something after the last entry")
                    if p is None or not it.entails_eq(e, L.sub(p, L.add(pos[2], step))):
                        self.fail(e, "visit", "the iterator moves to the wrong position")
                    self.sized(e, q, info["n"])


GO = dict(set=Run.set, get=Run.get, remove=Run.remove, clear=Run.clear, release=Run.clear, size=Run.count,
          foreach=Run.foreach, init=Run.construct, new=Run.construct, iinit=Run.iterate, inew=Run.iterate,
          ihas=Run.iterate, inext=Run.iterate)


def run_op(name, via=None):
    r = Run(name, via)
    GO[r.op](r)
    r.cl.count("operations")
    return r.cl


def check_maps(p, tier):
    res = Result()
    for n in OPS:
        p.need(n)
    for cl in parallel([(run_op, (n,)) for n in sorted(OPS)]):
        res.add_client(cl)
    res.instances = sorted(OPS)
    res.need("operations", len(OPS))
    res.need("successful outcomes", 120)
    res.need("entries followed", 150)
    res.need("key comparison", 1)
    res.need("bounded access", 12)
    res.need("constructed", 4)
    res.assumptions = [
        "maps passed in are consistent, hold at most %d entries and room for at most 2^20" % MOST,
        "comparing keys is a total order on the keys of a map", "releasing a key or value does not change the map",
        "the new key and value are not in the map already", "a visitor does not change the map"]
    return res
