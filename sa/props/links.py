"""Linked lists keep their elements linked in order in both directions."""
from .. import absint, contracts as C, lin as L
from ..absint import NULL
from ..harness import Result, parallel, program
from .storage import StoreClient
from . import maps

T, E = "cf_ll", "cf_ll_element"
DELETE, INSERT, MATCHED, OTHER = 1, 2, 3, 4
MOST = 8        # elements of lists written out in full
WALK = 5        # ... that a visitor walks
OPS = ["cf_ll_init", "cf_ll_prepend", "cf_ll_append", "cf_ll_insert_after", "cf_ll_insert_before", "cf_ll_delete",
       "cf_ll_size", "cf_ll_index", "cf_ll_reduce", "cf_ll_insert_reduce", "cf_ll_search", "cf_ll_getIterator",
       "cf_ll_get_head", "cf_ll_get_tail", "cf_ll_get_next", "cf_ll_get_prev"]
# what a visitor may say
SAYS = {"cf_ll_reduce": (0, DELETE, -5), "cf_ll_insert_reduce": (0, INSERT, -5), "cf_ll_search": (OTHER, MATCHED, -5)}


class Links(StoreClient):
    """The caller's visitor and destructor."""
    says = ()
    udata = None

    def on_fnptr(self, it, st, fr, I, target, args):
        v = args[0]
        o = v[1] if v[0] == "P" and v[2] == L.ZERO else -1
        if maps.null(it, st, v):
            o = None
        name = it.objs[target[1]].name if target[0] == "P" else None
        if name == "destructor":
            self.site("destructor call", fr, I)
            st.cl["destroyed"] = st.cl.get("destroyed", ()) + (o,)
            st.heap[o] = "freed"
            return [(st, None)]
        if name != "visitor":
            if not it.quiet:
                self.report(it, st, fr, I, "call", "calls something other than the visitor or destructor given")
            return []
        self.site("visitor call", fr, I)
        if not it.quiet and (len(args) < 2 or args[1] != self.udata):
            self.report(it, st, fr, I, "visitor", "the visitor does not get the caller's data")
        out = []
        for rc in self.says:
            c = st.copy()
            c.cl["seen"] = c.cl.get("seen", ()) + ((o, rc),)
            out.append((c, ("I", absint.width(I["t"]), L.const(rc))))
        return out


class Run:
    def __init__(self, name):
        p = program()
        self.p = p
        self.name = name
        self.fn = p.need(name)
        self.cl = Links(p, name)
        self.it = absint.Interp(p, self.cl, max_steps=2500000, max_states=4000, keep=60)
        self.it.each_way = True

    def fail(self, st, rule, msg):
        self.cl.report_at(rule, self.fn.file, self.fn.line, self.fn.name, "%s: %s" % (self.what, msg),
                          self.it.trace_lines(st))

    # -- entry
    def code(self, st, name):
        o = self.it.new_obj("sym", name, None, None, "sym")
        st.nn[o] = True
        return ("P", o, L.ZERO)

    def element(self, st, k):
        return C.owned(self.it, st, "element %s" % k, L.const(self.p.structs[E]["size"]), E)

    def make(self, n, destroy=False):
        """A list of n elements."""
        it = self.it
        st = absint.State()
        ll = C.region(it, st, "list", L.const(self.p.structs[T]["size"]), T)
        es = [self.element(st, k) for k in range(n)]
        for k, e in enumerate(es):
            C.put(it, st, e[1], 0, E, "next", es[k + 1] if k + 1 < n else C.NULLP)
            C.put(it, st, e[1], 0, E, "prev", es[k - 1] if k else C.NULLP)
        for f, v in (("head", es[0] if n else C.NULLP), ("tail", es[-1] if n else C.NULLP), ("sz", n),
                     ("destroy_fn", self.code(st, "destructor") if destroy else C.NULLP)):
            C.put(it, st, ll[1], 0, T, f, v)
        self.what = "list of %d" % n
        self.seq = [e[1] for e in es]
        return st, ll, es

    # A list of any length: two ends, a window of three, and unknown stretches between them.
    AROUND = ["head", "a0", "a1", "x", "y", "z", "b0", "b1", "tail"]

    def long(self, destroy=False):
        it = self.it
        st = absint.State()
        ll = C.region(it, st, "list", L.const(self.p.structs[T]["size"]), T)
        es = {k: self.element(st, k) for k in self.AROUND}
        self.chain = {"next": {}, "prev": {}}
        for i, k in enumerate(self.AROUND[:-1]):
            n = self.AROUND[i + 1]
            if k not in ("a0", "b0"):
                self.chain["next"][k] = n
                self.chain["prev"][n] = k
        self.chain["prev"]["head"] = self.chain["next"]["tail"] = None
        for f in ("next", "prev"):
            for k in self.AROUND:
                v = self.chain[f].get(k, "?")
                if v == "?":    # into a stretch: some element that is not written out
                    es[k, f] = self.element(st, "%s of %s" % (f, k))
                    self.chain[f][k] = v = (k, f)
                C.put(it, st, es[k][1], 0, E, f, es[v] if v else C.NULLP)
        self.n = L.atom(it.mk_atom("n", 9, (1 << 32) - 2))
        for f, v in (("head", es["head"]), ("tail", es["tail"]), ("sz", ("I", 32, self.n)),
                     ("destroy_fn", self.code(st, "destructor") if destroy else C.NULLP)):
            C.put(it, st, ll[1], 0, T, f, v)
        self.what = "long list"
        return st, ll, es

    def put_in(self, at, new):
        """Expected links with `new` before `at` (or last)."""
        nx, pv = self.chain["next"], self.chain["prev"]
        before = pv[at] if at else "tail"
        nx[new], pv[new] = at, before
        if before:
            nx[before] = new
        if at:
            pv[at] = new

    def take_out(self, k):
        nx, pv = self.chain["next"], self.chain["prev"]
        n, b = nx.pop(k), pv.pop(k)
        if n:
            pv[n] = b
        if b:
            nx[b] = n
        return n, b

    def long_links(self, e, ll, es, head, tail, grown):
        it = self.it
        self.cl.count("long lists compared")
        for f, k in (("head", head), ("tail", tail)):
            if not self.is_(e, C.get(it, e, ll[1], 0, T, f, True), es[k][1]):
                return self.fail(e, "order", "the %s of the list is wrong" % f)
        for f in ("next", "prev"):
            for k, v in self.chain[f].items():
                if not self.is_(e, C.get(it, e, es[k][1], 0, E, f, True), es[v][1] if v else None):
                    return self.fail(e, "order", "a link (%s) near the place is wrong" % f)
        n = C.fields(it, e, ll[1], 0, T, ["sz"])[0]
        if n is None or not it.entails_eq(e, L.addc(L.sub(n, self.n), -grown)):
            self.fail(e, "count", "the count is not the number of elements")

    def long_insert(self):
        places = {"cf_ll_prepend": [None], "cf_ll_append": [None]}.get(self.name, ["head", "x", "y", "z", "tail"])
        for k in places:
            st, ll, es = self.long()
            es["new"] = x = self.element(st, "new")
            at = "head" if self.name == "cf_ll_prepend" else k
            if self.name == "cf_ll_insert_after":
                at = self.chain["next"][k]
            self.put_in(at, "new")
            for e, rv in self.call(st, [ll] + ([es[k]] if k else []) + [x]):
                self.long_links(e, ll, es, "new" if at == "head" else "head", "tail" if at else "new", 1)

    def long_delete(self):
        for k in ["head", "x", "y", "z", "tail"]:
            for d in (False, True):
                st, ll, es = self.long(d)
                n, b = self.take_out(k)
                for e, rv in self.call(st, [ll, es[k]]):
                    self.long_links(e, ll, es, n if k == "head" else "head", b if k == "tail" else "tail", -1)
                    self.gone(e, [es[k][1]], d)

    def call(self, st, args, fn=None):
        for e, rv in self.it.call_fn(fn or self.fn, args, st.copy()):
            self.cl.count("outcomes")
            yield e, rv

    # -- exit
    def links(self, e, ll, want):
        """The list holds exactly `want`, read from both ends."""
        it = self.it
        self.cl.count("lists compared")
        for first, step, seq in (("head", "next", want), ("tail", "prev", list(reversed(want)))):
            v = C.get(it, e, ll[1], 0, T, first, True)
            for k, o in enumerate(seq):
                if v[0] != "P" or v[1] != o or v[2] != L.ZERO:
                    return self.fail(e, "order", "following %s from the %s, element %d is not the one expected" % (step, first, k))
                v = C.get(it, e, o, 0, E, step, True)
            if not maps.null(it, e, v):
                return self.fail(e, "order", "following %s from the %s does not end after %d elements" % (step, first, len(seq)))
        n = C.fields(it, e, ll[1], 0, T, ["sz"])[0]
        if n is None or not it.entails_eq(e, L.addc(n, -len(want))):
            self.fail(e, "count", "the count is not the number of elements")

    def gone(self, e, want, called):
        """Exactly the elements removed were destroyed, once."""
        got = e.cl.get("destroyed", ())
        if got != (tuple(want) if called else ()):
            self.fail(e, "destructor", "the destructor is not called exactly once for each element removed")

    def is_(self, e, v, o):
        return maps.null(self.it, e, v) if o is None else v[0] == "P" and v[1] == o and v[2] == L.ZERO

    # -- operations
    def do_cf_ll_init(self):
        it = self.it
        self.what = "new list"
        st = absint.State()
        ll = C.region(it, st, "list", L.const(self.p.structs[T]["size"]), T)
        d = self.code(st, "destructor")
        for e, rv in self.call(st, [ll, d, ("B", ("ne", L.atom(it.mk_atom("lock", 0, 1))))]):
            self.links(e, ll, [])
            if C.get(it, e, ll[1], 0, T, "destroy_fn", True) != d:
                self.fail(e, "destructor", "the destructor is not kept")

    def insert(self, where):
        for n in range(MOST + 1):
            for k in range(n) if where != "end" else (None,):
                st, ll, es = self.make(n)
                x = self.element(st, "new")
                args = [ll] + ([es[k]] if k is not None else []) + [x]
                at = {"cf_ll_prepend": 0, "cf_ll_append": n}.get(self.name, k)
                if self.name == "cf_ll_insert_after":
                    at += 1
                for e, rv in self.call(st, args):
                    self.links(e, ll, self.seq[:at] + [x[1]] + self.seq[at:])

    def do_cf_ll_prepend(self):
        self.long_insert()
        self.insert("end")
    do_cf_ll_append = do_cf_ll_prepend

    def do_cf_ll_insert_after(self):
        self.long_insert()
        self.insert("place")
    do_cf_ll_insert_before = do_cf_ll_insert_after

    def do_cf_ll_delete(self):
        self.long_delete()
        for n in range(1, MOST + 1):
            for k in range(n):
                for d in (False, True):
                    st, ll, es = self.make(n, d)
                    for e, rv in self.call(st, [ll, es[k]]):
                        self.links(e, ll, self.seq[:k] + self.seq[k + 1:])
                        self.gone(e, [self.seq[k]], d)

    def do_cf_ll_size(self):
        for n in range(MOST + 1):
            st, ll, es = self.make(n)
            for e, rv in self.call(st, [ll]):
                self.links(e, ll, self.seq)
                if not self.it.entails_eq(e, L.addc(self.it.u(e, rv), -n)):
                    self.fail(e, "count", "the size is wrong")

    def do_cf_ll_index(self):
        for n in range(MOST + 1):
            for i in list(range(-n - 3, n + 3)) + [(1 << 31) - 1, -(1 << 31) + 1]:
                st, ll, es = self.make(n)
                want = self.seq[i] if -n <= i < n else None
                for e, rv in self.call(st, [ll, ("I", 32, L.const(i))]):
                    self.links(e, ll, self.seq)
                    if not self.is_(e, rv, want):
                        self.fail(e, "index", "index %d gives a wrong element" % i)

    def do_cf_ll_get_head(self):
        last = self.name == "cf_ll_get_tail"
        for n in range(MOST + 1):
            st, ll, es = self.make(n)
            for e, rv in self.call(st, [ll]):
                self.links(e, ll, self.seq)
                if not self.is_(e, rv, self.seq[-1 if last else 0] if n else None):
                    self.fail(e, "end", "wrong element")
    do_cf_ll_get_tail = do_cf_ll_get_head

    def do_cf_ll_get_next(self):
        d = 1 if self.name == "cf_ll_get_next" else -1
        for k in range(MOST):
            st, ll, es = self.make(MOST)
            for e, rv in self.call(st, [es[k]]):
                self.links(e, ll, self.seq)
                if not self.is_(e, rv, self.seq[k + d] if 0 <= k + d < MOST else None):
                    self.fail(e, "end", "wrong element")
    do_cf_ll_get_prev = do_cf_ll_get_next

    def walks(self, destroy=(False,)):
        for n in range(WALK + 1):
            for fwd in (True, False):
                for d in destroy:
                    st, ll, es = self.make(n, d)
                    self.what = "list of %d walked %s" % (n, "forward" if fwd else "backward")
                    self.cl.udata = self.code(st, "data")
                    self.cl.says = SAYS[self.name]
                    yield st, ll, es, fwd, d, self.code(st, "visitor")

    def told(self, e, fwd, stop, end=False):
        """Visits made, or None after reporting: in order, each once, none after a stop, all otherwise."""
        seen = e.cl.get("seen", ())
        order = self.seq if fwd else list(reversed(self.seq))
        order = order + [None] if end else order
        if [o for o, _ in seen] != order[:len(seen)]:
            return self.fail(e, "visit", "the visitor does not see each element once, in order")
        for k, (o, rc) in enumerate(seen):
            if rc in stop and k != len(seen) - 1:
                return self.fail(e, "visit", "goes on after the visitor stopped")
        if len(seen) < len(order) and not (seen and seen[-1][1] in stop):
            return self.fail(e, "visit", "stops before the end")
        self.cl.count("walks compared")
        return seen

    def do_cf_ll_reduce(self):
        it = self.it
        for st, ll, es, fwd, d, fn in self.walks((False, True)):
            for e, rv in self.call(st, [ll, ("B", fwd), fn, self.cl.udata]):
                seen = self.told(e, fwd, (-5,))
                if seen is None:
                    continue
                out = [o for o, rc in seen if rc == DELETE]
                self.links(e, ll, [o for o in self.seq if o not in out])
                self.gone(e, out, d)
                stopped = bool(seen) and seen[-1][1] == -5
                r = it.s(e, rv)
                if not (it.entails_eq(e, L.addc(r, 5)) if stopped else it.entails(e, r)):
                    self.fail(e, "result", "the result is not the visitor's negative answer" if stopped else
                              "a complete walk gives a negative result")

    def do_cf_ll_insert_reduce(self):
        it = self.it
        for st, ll, es, fwd, d, fn in self.walks():
            x = self.element(st, "new")
            for e, rv in self.call(st, [ll, x, ("B", fwd), fn, self.cl.udata]):
                seen = self.told(e, fwd, (-5, INSERT), True)
                if seen is None:
                    continue
                o, rc = seen[-1]
                want = list(self.seq)
                if rc == INSERT:
                    if o is None:
                        at = len(want) if fwd else 0
                    else:
                        at = want.index(o) + (0 if fwd else 1)
                    want[at:at] = [x[1]]
                self.links(e, ll, want)
                if not it.entails_eq(e, L.addc(it.s(e, rv), 5 if rc == -5 else 0)):
                    self.fail(e, "result", "the result is not the visitor's negative answer, or zero")

    def do_cf_ll_search(self):
        for st, ll, es, fwd, d, fn in self.walks():
            for e, rv in self.call(st, [ll, self.cl.udata, ("B", fwd), fn]):
                seen = self.told(e, fwd, (-5, MATCHED))
                if seen is None:
                    continue
                self.links(e, ll, self.seq)
                hit = seen[-1][0] if seen and seen[-1][1] == MATCHED else None
                if not self.is_(e, rv, hit):
                    self.fail(e, "result", "the result is not the element matched")

    def do_cf_ll_getIterator(self):
        it = self.it
        step, done = self.p.need("cf_ll_getNext"), self.p.need("cf_ll_releaseIterator")
        for n in range(MOST + 1):
            for fwd in (True, False):
                st, ll, es = self.make(n)
                self.what = "iterator over %d, %s" % (n, "forward" if fwd else "backward")
                order = self.seq if fwd else list(reversed(self.seq))
                for e, rv in self.call(st, [ll, ("B", fwd)]):
                    if maps.null(it, e, rv):
                        if not maps.nomem(it, e):
                            self.fail(e, "result", "no iterator although there is memory")
                        continue
                    todo = [e]
                    for o in order + [None, None]:
                        nxt = []
                        for s in todo:
                            for s2, v in self.call(s, [rv], step):
                                if not self.is_(s2, v, o):
                                    self.fail(s2, "visit", "the iterator does not give the elements in order, then nothing")
                                else:
                                    nxt.append(s2)
                        todo = nxt
                    for s in todo:
                        for s2, _ in self.call(s, [rv], done):
                            self.cl.count("walks compared")
                            self.links(s2, ll, self.seq)
                            if s2.heap.get(rv[1]) != "freed":
                                self.fail(s2, "release", "a released iterator is not freed")


def run_op(name):
    r = Run(name)
    getattr(r, "do_" + name)()
    r.cl.count("operations")
    return r.cl


def check_links(p, tier):
    res = Result()
    for cl in parallel([(run_op, (n,)) for n in OPS]):
        res.add_client(cl)
    res.instances = list(OPS)
    res.need("operations", len(OPS))
    res.need("lists compared", 150)
    res.need("walks compared", 100)
    res.need("long lists compared", 10)
    res.assumptions = ["insertion and removal: any length; index and iterators: up to %d elements; visitor walks: up to %d"
                       % (MOST, WALK),
                       "an element to insert is in no list, an element to delete is in this one"]
    return res
