"""Generic calls reach the implementation: right operation, same arguments, same result."""
from .. import absint, contracts as C, lin as L
from ..absint import NULL
from ..harness import Result, field_off, parallel, program, sym_arg
from . import lists, maps
from .maps import null
from .refs import TYPES
from .types import ALL, Client as TypesClient, Run as TypesRun

# generic call -> result when there is no implementation
FWD = {}
# call -> (operation it uses, type it wants, what it returns)
GET = {}
# call -> (operation it uses, {position: how the value is wrapped})
SET = {}
LIST = dict(hashcode=0, size=0, concat=1, trim=1, head=None, tail=None, drop=None, take=None, get=None, get_int64=0,
            get_double=0.0, get_str=None, remove=1, foreach=0, iterator_new=None, iterator_init=None)
for _o in ("set", "insert", "append", "prepend"):
    for _t in ("", "_int64", "_double", "_str"):
        LIST[_o + _t] = 1
    for _t in ("integer", "as_double", "string", "bytes", "list", "map"):
        SET["as_list_%s_%s" % (_o, _t)] = (_o, {})
MAP = dict(hashcode=0, size=0, get=None, set=1, clear=1, remove=1, set_flags=(), foreach=0, iterator_new=None,
           iterator_init=None)
REC = dict(remove=1, ttl=0, last_update_time=0, gen=0, size=0, memory_size=0, device_size=0, key=None, setname=None,
           numbins=0, bin_names=0, digest=None, set_ttl=0, drop_key=0, get=None, set=1, foreach=0)
IFACE = {
    "as_list": (LIST, "as_list_hooks"), "as_map": (MAP, "as_map_hooks"), "as_rec": (REC, "as_rec_hooks"),
    "as_iterator": (dict(has_next=0, next=None), "as_iterator_hooks"),
    "as_stream": (dict(read=None, write=1), "as_stream_hooks"),
    "as_serializer": (dict(serialize=1, serialize_presized=1, deserialize=1, serialize_getsize=1), "as_serializer_hooks"),
    "as_module": (dict(destroy=1, update=1, validate=1, apply_record=1, apply_stream=1), "as_module_hooks"),
    "as_timer": (dict(timedout=0, timeslice=0), "as_timer_hooks"),
    "as_aerospike": (dict(rec_create=1, rec_update=1, rec_exists=1, rec_remove=1, log=1, get_current_time=0,
                          set_context=2, get_config=0), "as_aerospike_hooks"),
}
for _s, (_d, _h) in IFACE.items():
    for _o, _v in _d.items():
        FWD["%s_%s" % (_s, _o)] = (_s, _o, _v)
KINDS = {"integer": "integer", "as_double": "double", "string": "string", "bytes": "bytes", "list": "list", "map": "map",
         "geojson": "geojson"}
for _t, _n in KINDS.items():
    if _t != "geojson":
        GET["as_list_get_" + _t] = ("as_list", "get", _n, None)
        GET["as_stringmap_get_" + _t] = ("as_map", "get", _n, None)
        SET["as_stringmap_set_" + _t] = ("set", {1: "text"})
    GET["as_rec_get_" + _t] = ("as_rec", "get", _n, None)
    SET["as_rec_set_" + _t] = ("set", {})
for _t, _n in (("int64", "integer"), ("double", "double"), ("str", "string")):
    GET["as_rec_get_" + _t] = ("as_rec", "get", _n, "value")
    GET["as_stringmap_get_" + _t] = ("as_map", "get", _n, "value")
    SET["as_rec_set_" + _t] = ("set", {2: _n})
    SET["as_stringmap_set_" + _t] = ("set", {1: "text", 2: _n})
GET["as_rec_get_geojson_str"] = ("as_rec", "get", "geojson", "value")
GET["as_stringmap_get"] = ("as_map", "get", None, None)
SET["as_stringmap_set"] = ("set", {1: "text"})
ORDER = {"as_list_iterator_init": [1, 0], "as_map_iterator_init": [1, 0]}
# constructor -> (struct, heap mark field, made on the heap, roles of the parameters)
MAKE = {
    "as_stream_init": ("as_stream", "free", 0, ["self", "data", "hooks"]),
    "as_stream_new": ("as_stream", "free", 1, ["data", "hooks"]),
    "as_iterator_init": ("as_iterator", "free", None, ["self", "free", "data", "hooks"]),
    "as_serializer_init": ("as_serializer", "free", 0, ["self", "hooks"]),
    "as_serializer_new": ("as_serializer", "free", 1, ["hooks"]),
    "as_timer_init": ("as_timer", "is_malloc", 0, ["self", "source", "hooks"]),
    "as_timer_new": ("as_timer", "is_malloc", 1, ["source", "hooks"]),
    "as_aerospike_init": ("as_aerospike", "is_rcalloc", 0, ["self", "source", "hooks"]),
    "as_aerospike_new": ("as_aerospike", "is_rcalloc", 1, ["source", "hooks"]),
}
# destructor -> (struct, heap mark field, has an operation, only freed when that reports success)
END = {"as_stream_destroy": ("as_stream", "free", True, False), "as_iterator_destroy": ("as_iterator", "free", True, False),
       "as_timer_destroy": ("as_timer", "is_malloc", True, True),
       "as_serializer_destroy": ("as_serializer", "free", False, False)}
# call -> (struct, operation whose presence it tells, or field it returns)
ASK = {"as_stream_readable": ("as_stream", "read", None), "as_stream_writable": ("as_stream", "write", None),
       "as_stream_source": ("as_stream", None, "data"), "as_rec_source": ("as_rec", None, "data"),
       "as_timer_source": ("as_timer", None, "source"), "as_module_source": ("as_module", None, "source")}
# operations of the library's own list and map reached through the generic call
REACH = [(lists.run_op, "as_arraylist_" + o, "as_list_" + o) for o in LIST
         if "as_arraylist_" + o in lists.OPS] + \
        [(lists.run_op, "as_arraylist_release", "as_list_val_destroy"),
         (lists.run_op, "as_arraylist_iterator_has_next", "as_iterator_has_next"),
         (lists.run_op, "as_arraylist_iterator_next", "as_iterator_next")] + \
        [(maps.run_op, "as_orderedmap_" + o, "as_map_" + o) for o in MAP if "as_orderedmap_" + o in maps.OPS] + \
        [(maps.run_op, "as_orderedmap_release", "as_map_val_destroy"),
         (maps.run_op, "as_orderedmap_iterator_has_next", "as_iterator_has_next"),
         (maps.run_op, "as_orderedmap_iterator_next", "as_iterator_next")]


class Client(TypesClient):
    """Records which operation of the implementation is called, with what."""
    ops = {}            # object standing for an operation -> its name
    answer = None       # what the operation gives back
    check = None

    def on_fnptr(self, it, st, fr, I, target, args):
        op = self.ops.get(target[1]) if target[0] == "P" else None
        self.site("call of an operation", fr, I)
        v = None
        if I["t"] != "void":
            v = self.answer if self.answer is not None else it.unknown(I["t"], "answer")
        st.cl["calls"] = st.cl.get("calls", 0) + 1
        st.cl["last"] = (op, v)
        if self.check and not it.quiet:
            self.check(st, op, args)
        return [(st, v)]


class Run(TypesRun):
    client = Client

    def __init__(self, name):
        super().__init__(name)
        self.it.alloc_fails = False

    def iface(self, T, H, case):
        """An object whose implementation has every operation, or lacks something."""
        it = self.it
        st = absint.State()
        o = C.region(it, st, "object", None, T)
        h = C.region(it, st, "operations", L.const(it.p.structs[H]["size"]), H)
        self.cl.ops = {}
        for f in it.p.structs[H]["fields"]:
            f = f["name"]
            v = C.region(it, st, f, None)
            self.cl.ops[v[1]] = f
            C.put(it, st, h[1], 0, H, f, C.NULLP if case == f else v)
        C.put(it, st, o[1], 0, T, "hooks", C.NULLP if case == "none" else h)
        return st, (C.NULLP if case == "null" else o)

    def args(self, st, o, at=0):
        """Every argument is something of its own."""
        it, av = self.it, []
        for i in range(len(self.fn.args)):
            v = o if i == at else sym_arg(it, self.fn, i)
            if v[0] == "P" and i != at:
                v = C.region(it, st, "argument %d" % i, None)
            av.append(v)
        return av

    def forward(self, T, op, default, wrap, at=0):
        it, name = self.it, self.fn.name
        H = IFACE[T][1]
        for case in ("all", op, "none", "null"):
            st, o = self.iface(T, H, case)
            av = self.args(st, o, at)
            texts = {}
            for i, w in wrap.items():
                if w in ("text", "string"):
                    texts[i] = self.text(st)
                    av[i] = texts[i] + (self.k, self.byte)
            want = [av[i] for i in ORDER.get(name, range(len(av)))]
            av = [v[:3] for v in av]
            self.cl.check = lambda s, got, a: self.passed(s, got, a, op, want, wrap)
            for e, rv in self.call(st, av):
                n = e.cl.get("calls", 0)
                if case == "all":
                    if n != 1:
                        self.fail(e, "forward", "calls the implementation %d times instead of once" % n)
                    elif rv is not None and not self.eq(e, rv, e.cl["last"][1], absint.width(self.fn.ret) or 64):
                        self.fail(e, "forward", "does not return what the implementation returned")
                else:
                    if n:
                        self.fail(e, "forward", "calls another operation when its own is missing")
                    self.defaults(e, rv, default)
                    self.leaks(e, [])

    def defaults(self, st, rv, default):
        it = self.it
        if default is None:
            ok = null(it, st, rv)
        elif default == ():
            ok = True
        elif rv[0] == "D":
            ok = rv in (("D", ("c", "0")), ("D", ("zero",)))
        else:
            ok = it.entails_eq(st, L.addc(it.s(st, rv) if rv[0] == "I" else it.lin_of(st, rv), -default))
        if not ok:
            self.fail(st, "forward", "gives a wrong result when there is no implementation")

    def passed(self, st, got, args, op, want, wrap):
        it = self.it
        if got != op:
            self.fail(st, "forward", "calls the operation '%s' instead of '%s'" % (got, op))
            return
        if len(args) != len(want):
            self.fail(st, "forward", "passes another number of arguments")
            return
        for i, (a, w) in enumerate(zip(args, want)):
            how = wrap.get(i)
            if how == "text":
                ok = self.is_text(st, a, w)
            elif how:
                ok = a[0] == "P" and st.heap.get(a[1]) == "live" and a[2] == L.ZERO
                if ok:
                    T = TYPES[how][1]
                    if how == "string":
                        ok = self.is_text(st, a, w)
                        self.header(st, a[1], how, 1)
                    else:
                        off, sz = field_off(it.p, T, "value")
                        x = it.load(st, None, None, ("P", a[1], L.const(off)), sz,
                                    "double" if how == "double" else "i%d" % (8 * sz))
                        self.header(st, a[1], how, 1)
                        ok = self.eq(st, x, w, 8 * sz)
            else:
                ok = self.eq(st, a, w, a[1] if a[0] == "I" else 1)
            if not ok:
                self.fail(st, "forward", "argument %d is not what the caller gave" % i)

    def header(self, st, o, name, heap):
        it = self.it
        head = C.fields(it, st, o, 0, "as_val", ["type", "count", "free"])
        if None in head or not all(it.entails_eq(st, L.addc(x, -k)) for x, k in zip(head, (TYPES[name][0], 1, heap))):
            self.fail(st, "forward", "the wrapped value is not a new value of its own type")

    def is_text(self, st, a, w):
        """a is a string value holding the text w (the same bytes, or a copy)."""
        it = self.it
        if a[0] != "P" or a[1] == NULL or a[2] != L.ZERO:
            return False
        t = C.fields(it, st, a[1], 0, "as_val", ["type"])[0]
        if t is None or not it.entails_eq(st, L.addc(t, -TYPES["string"][0])):
            return False
        v = C.get(it, st, a[1], 0, "as_string", "value", True)
        if v[0] != "P" or v[1] == NULL or v[2] != L.ZERO:
            return False
        if v == w[:3]:
            return st.heap.get(a[1]) != "live" or "set" not in self.fn.name
        x = it.load(st, None, None, ("P", v[1], w[3]), 1, "i8")
        own = C.fields(it, st, a[1], 0, "as_string", ["free"])[0]
        return x == ("I", 8, L.atom(w[4])) and own is not None and it.entails_eq(st, L.addc(own, -1))

    # -------------------------------------------------------- typed look-ups
    def lookup(self, T, op, kind, field):
        it, fn = self.it, self.fn
        H = IFACE[T][1]
        wrap = {1: "text"} if fn.name.startswith("as_stringmap") else {}
        cases = [("all", n) for n in ALL] + [("all", None), (op, None), ("none", None), ("null", None)]
        for case, n in cases:
            st, o = self.iface(T, H, case)
            av = self.args(st, o)
            if wrap:
                av[1] = self.text(st) + (self.k, self.byte)
            want, av = av, [v[:3] for v in av]
            self.cl.check = lambda s, got, a: self.passed(s, got, a, op, want, wrap)
            x = None
            self.cl.answer = C.NULLP
            if n is not None:
                VT = TYPES[n][1] if n in TYPES else "as_val"
                v = C.region(it, st, "value", L.const(64), VT)
                C.put(it, st, v[1], 0, "as_val", "type", ALL[n])
                self.cl.answer = v
                if n == kind or kind is None:
                    x = v
                    if field:
                        off, sz = field_off(it.p, VT, field)
                        x = it.unknown("double", "content") if fn.ret == "double" else \
                            C.region(it, st, "content", None) if fn.ret == "ptr" else \
                            C.num(it, "content", 0, (1 << 8 * sz) - 1, 8 * sz)
                        it.store(st, ("P", v[1], L.const(off)), sz, x)
            for e, rv in self.call(st, av):
                if e.cl.get("calls", 0) != (case == "all"):
                    self.fail(e, "forward", "does not look up the value exactly once")
                if x is None:
                    self.defaults(e, rv, None if fn.ret == "ptr" else 0)
                elif not self.eq(e, rv, x, absint.width(fn.ret) or 64):
                    self.fail(e, "forward", "does not return the value that was found")


    # ----------------------------------------------- making and destroying
    def construct(self):
        it, fn = self.it, self.fn
        T, mark, heap, roles = MAKE[fn.name]
        it.alloc_fails = True
        st = absint.State()
        av, want = [], {}
        for i, r in enumerate(roles):
            v = sym_arg(it, fn, i)
            if r == "self":
                me = v = C.region(it, st, "object", L.const(it.p.structs[T]["size"]), T, "undef")
            else:
                if v[0] == "P":
                    v = C.region(it, st, r, None)
                want[r] = v
            av.append(v)
        if heap is not None:
            want[mark] = ("I", 8, L.const(heap))
        for e, rv in self.call(st, av):
            if null(it, e, rv):
                if "self" in roles or not maps.nomem(it, e):
                    self.fail(e, "object", "returns nothing although memory was available")
                continue
            if rv[0] != "P" or "self" in roles and rv != me:
                self.fail(e, "object", "does not return the object")
                continue
            self.cl.count("constructed")
            for f, v in want.items():
                off, sz = field_off(it.p, T, f)
                x = it.load(e, None, None, ("P", rv[1], L.addc(rv[2], off)), sz, "ptr" if v[0] == "P" else "i8")
                if not self.eq(e, x, v, 8):
                    self.fail(e, "object", "the new object does not hold its %s" % f)

    def destroy(self):
        it, fn = self.it, self.fn
        T, mark, hooked, only = END[fn.name]
        H = T + "_hooks"
        for heap in (0, 1):
            for case in ("all", "destroy", "none") if hooked else ("all",):
                st, o = self.iface(T, H, case)
                if heap:
                    it.objs[o[1]].kind = "heap"
                    it.objs[o[1]].extra = ("entry", 0, [])
                    it.objs[o[1]].size = L.const(it.p.structs[T]["size"])
                    st.heap[o[1]] = "live"
                C.put(it, st, o[1], 0, T, mark, heap)
                self.cl.check = lambda s, got, a: self.passed(s, got, a, "destroy", [o], {})
                for e, rv in self.call(st, [o]):
                    n = e.cl.get("calls", 0)
                    if n != (hooked and case == "all"):
                        self.fail(e, "object", "calls the implementation's clean-up %d times" % n)
                        continue
                    for s, freed in self.succeeded(e, rv, n, only):
                        if (s.heap.get(o[1]) == "freed") != bool(heap and freed):
                            self.fail(s, "object", "an object on the heap is not freed, or another one is")
        self.cl.count("destructors")

    def succeeded(self, st, rv, n, only):
        """Splits by whether the operation said that the object may go."""
        it = self.it
        if not only:
            return [(st, True)]
        if not n:
            self.defaults(st, rv, 1)
            return [(st, False)]
        v = st.cl["last"][1]
        if not self.eq(st, rv, v, absint.width(self.fn.ret)):
            self.fail(st, "object", "does not return what the implementation returned")
        out = []
        c = it.icmp(st, "eq", "i32", v, ("I", 32, L.ZERO))
        for yes in (True, False):
            s = st.copy()
            if it.assume(s, c if yes else it.neg(c)) and it.close(s):
                out.append((s, yes))
        return out

    def ask(self):
        it, fn = self.it, self.fn
        T, op, field = ASK[fn.name]
        for case in ("all", op, "none", "null") if op else ("all", "null"):
            st, o = self.iface(T, T + "_hooks", case)
            if field:
                x = C.region(it, st, field, None)
                C.put(it, st, o[1], 0, T, field, x) if case == "all" else None
            for e, rv in self.call(st, [o]):
                if e.cl.get("calls"):
                    self.fail(e, "object", "calls the implementation only to ask about it")
                if field:
                    if not (rv == x if case == "all" else null(it, e, rv)):
                        self.fail(e, "object", "does not return the source of the object")
                elif it.decide(e, it.cond_of(e, rv)) is not (case == "all"):
                    self.fail(e, "object", "does not tell whether the operation exists")

    def flags(self):
        """The ordered map's own set_flags."""
        it = self.it
        hooks = maps.Run("as_orderedmap_size", "as_map_size")
        self.it, self.cl = hooks.it, hooks.cl
        it = self.it
        for k in list(range(32)) + [1 << 31, (1 << 32) - 1]:
            got = []
            for fn in (it.p.need("as_orderedmap_set_flags"), self.fn):
                st = absint.State()
                o = C.region(it, st, "map", None, "as_orderedmap")
                hooks.hooked(st, o[1], "as_map")
                C.put(it, st, o[1], 0, "as_map", "flags", 1 << 30)
                got.append([C.get(it, e, o[1], 0, "as_map", "flags") for e, _ in it.call_fn(fn, [o, ("I", 32, L.const(k))], st)])
            if got[0] != got[1]:
                self.fail(st, "forward", "does not set the flags of the map like the direct call")


def run_flags(name):
    r = Run(name)
    r.flags()
    r.cl.count("operations")
    return r.cl


def run_op(name):
    r = Run(name)
    if name in FWD:
        T, op, default = FWD[name]
        r.forward(T, op, default, {}, 1 if name in ORDER else 0)
    elif name in SET:
        op, wrap = SET[name]
        T = "as_map" if name.startswith("as_stringmap") else name[:name.index("_", 3)]
        r.forward(T, op, 1, wrap)
    elif name in GET:
        r.lookup(*GET[name])
    elif name in MAKE:
        r.construct()
    elif name in END:
        r.destroy()
    else:
        r.ask()
    r.cl.count("operations")
    return r.cl


def check_generic(p, tier):
    res = Result()
    names = list(FWD) + list(SET) + list(GET) + list(MAKE) + list(END) + list(ASK)
    for n in names + [v for _, n, v in REACH]:
        p.need(n)
    jobs = [(run_op, (n,)) for n in names] + [(f, (n, v)) for f, n, v in REACH] + [(run_flags, ("as_map_set_flags",))]
    for cl in parallel(jobs):
        res.add_client(cl)
    res.instances = names + ["%s on %s" % (v, n) for _, n, v in REACH]
    res.need("operations", len(jobs))
    res.need("call of an operation", 90)
    res.need("outcomes", 700)
    res.need("constructed", 15)
    res.need("destructors", len(END))
    return res
