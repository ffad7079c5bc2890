"""Values carry their type: creation, casts, getters and dispatch."""
from .. import absint, contracts as C, libmodel, lin as L
from ..absint import NULL
from ..harness import Result, field_off, parallel, program, sym_arg
from .lists import same
from .maps import nomem, null
from .refs import TYPES
from .storage import StoreClient

# constructor -> (value type, made on the heap, roles of the parameters)
# a role is "self", a field of the struct, or "-" (looked at separately)
NEW = {
    "as_boolean_init": ("boolean", 0, ["self", "value"]), "as_boolean_new": ("boolean", 1, ["value"]),
    "as_integer_init": ("integer", 0, ["self", "value"]), "as_integer_new": ("integer", 1, ["value"]),
    "as_double_init": ("double", 0, ["self", "value"]), "as_double_new": ("double", 1, ["value"]),
    "as_string_init": ("string", 0, ["self", "value", "free"]), "as_string_new": ("string", 1, ["value", "free"]),
    "as_string_init_wlen": ("string", 0, ["self", "value", "len", "free"]),
    "as_string_new_wlen": ("string", 1, ["value", "len", "free"]),
    "as_string_new_strdup": ("string", 1, ["copy"]),
    "as_geojson_init": ("geojson", 0, ["self", "value", "free"]), "as_geojson_new": ("geojson", 1, ["value", "free"]),
    "as_geojson_init_wlen": ("geojson", 0, ["self", "value", "len", "free"]),
    "as_geojson_new_wlen": ("geojson", 1, ["value", "len", "free"]),
    "as_geojson_new_strdup": ("geojson", 1, ["copy"]),
    "as_bytes_init": ("bytes", 0, ["self", "capacity"]), "as_bytes_new": ("bytes", 1, ["capacity"]),
    "as_bytes_init_wrap": ("bytes", 0, ["self", "value", "size", "free"]),
    "as_bytes_new_wrap": ("bytes", 1, ["value", "size", "free"]),
    "as_pair_init": ("pair", 0, ["self", "_1", "_2"]), "as_pair_new": ("pair", 1, ["_1", "_2"]),
    "as_list_init": ("list", 0, ["self", "hooks"]), "as_list_new": ("list", 1, ["hooks"]),
    "as_map_init": ("map", 0, ["self", "hooks"]), "as_map_new": ("map", 1, ["hooks"]),
    "as_rec_init": ("rec", 0, ["self", "data", "hooks"]), "as_rec_new": ("rec", 1, ["data", "hooks"]),
}
UNSET = (1 << 64) - 1       # length of a text that was not counted yet
BLOB = 4
ALL = dict({n: t[0] for n, t in TYPES.items()}, nil=1, ext=12, wildcard=13, infinity=14, undef=0)
# getter -> (value type, field, has fallback)
GET = {}
for _n in ("boolean", "integer", "double", "string", "geojson", "bytes"):
    GET["as_%s_get" % _n] = (_n, "value", False)
    GET["as_%s_getorelse" % _n] = (_n, "value", True)
GET.update({"as_boolean_tobool": ("boolean", "value", False), "as_integer_toint": ("integer", "value", False),
            "as_string_tostring": ("string", "value", False), "as_pair_1": ("pair", "_1", False),
            "as_pair_2": ("pair", "_2", False), "as_bytes_size": ("bytes", "size", False),
            "as_bytes_capacity": ("bytes", "capacity", False), "as_bytes_get_type": ("bytes", "type", False)})
CAST = ["as_%s_fromval" % n for n in TYPES]
UNCAST = ["as_%s_toval" % n for n in TYPES]
LEN = ["as_string_len", "as_geojson_len"]
DISPATCH = {"as_val_val_hashcode": "hashcode", "as_val_val_tostring": "tostring"}
# values each type's own function exists for
OWN = dict({n: n for n in TYPES}, nil="nil", wildcard="cmp_wildcard", infinity="cmp_inf")


class Client(StoreClient):
    hook = None

    def fail(self, it, st, fn, rule, msg):
        self.report_at(rule, fn.file, fn.line, fn.name, msg, it.trace_lines(st))

    def on_access(self, it, st, fr, I, kind, ptr, size, val):
        if ptr[1] in st.heap and it.nullness(st, ptr[1]) is None and not it.quiet:
            self.report(it, st, fr, I, "no-memory", "uses a block whose allocation may have failed")
        super().on_access(it, st, fr, I, kind, ptr, size, val)

    def on_event(self, it, st, fr, I, what, d):
        if what == "allocfail":
            st.cl["nomem"] = True
        super().on_event(it, st, fr, I, what, d)

    def on_call(self, it, st, fr, I, name, args):
        if self.hook and name.endswith("_val_" + self.hook) and name != "as_val_val_" + self.hook:
            k = ("own", name, args[0][1] if args and args[0][0] == "P" and args[0][2] == L.ZERO else None)
            st.cl[k] = st.cl.get(k, 0) + 1
            v = it.unknown(I["t"], name)
            if v[0] == "P":
                st.nn[v[1]] = True
            st.cl["answer"] = v
            return [(st, v)]
        return super().on_call(it, st, fr, I, name, args)


class Run:
    client = Client

    def __init__(self, name):
        p = program()
        self.fn = p.need(name)
        self.cl = self.client(p, name, frozenset())
        self.it = absint.Interp(p, self.cl, max_steps=500000, max_states=300, keep=60)
        self.it.marks.add(-1)

    def fail(self, st, rule, msg):
        self.cl.fail(self.it, st, self.fn, rule, msg)

    def call(self, st, av):
        self.cl.count("entry states")
        out = []
        for e, rv in self.it.call_fn(self.fn, av, st):
            if self.it.close(e):
                self.cl.count("outcomes")
                out.append((e, rv))
        return out

    def eq(self, st, a, b, w):
        """The two values have the same w bits."""
        it = self.it
        if a == b:
            return True
        if a is None or b is None or a[0] in ("P", "D", "U") or b[0] in ("P", "D", "U"):
            return a is not None and b is not None and null(it, st, a) and null(it, st, b)
        x, y = it.u(st, ("I", w, it.lin_of(st, a))), it.u(st, ("I", w, it.lin_of(st, b)))
        return it.entails_eq(st, L.sub(x, y))

    # ------------------------------------------------------------- creation
    def create(self):
        it = self.it
        name, heap, roles = NEW[self.fn.name]
        num, T, _ = TYPES[name]
        size = it.p.structs[T]["size"]
        shapes = [("plain", 1)] + ([("null", 1)] if "value" in roles and name in ("string", "geojson") else [])
        if "self" in roles:
            shapes.append(("noself", 0))
        for sh, some in shapes:
            st = absint.State()
            av, want = [], {}
            me = text = None
            for i, r in enumerate(roles):
                if r == "self":
                    me = C.region(it, st, name, L.const(size), T, "undef") if some else C.NULLP
                    av.append(me)
                    continue
                v = sym_arg(it, self.fn, i)
                if r == "copy":
                    text = v = self.text(st)
                elif r in ("value", "_1", "_2", "hooks", "data") and v[0] == "P":
                    v = C.NULLP if sh == "null" else C.region(it, st, r, L.const(64))
                av.append(v)
                want[r] = v
            for e, rv in self.call(st, av):
                if not some:
                    if not null(it, e, rv):
                        self.fail(e, "result", "returns something although there was nothing to initialise")
                    continue
                if null(it, e, rv):
                    if not nomem(it, e):
                        self.fail(e, "result", "returns nothing although memory was available")
                    self.leaks(e, [])
                    continue
                if rv[0] != "P" or rv[2] != L.ZERO or (heap and e.heap.get(rv[1]) != "live") or (me and rv[1] != me[1]):
                    self.fail(e, "result", "does not return the new value")
                    continue
                self.made(e, rv[1], name, T, num, heap, want, text)

    def leaks(self, st, kept):
        for o, s in st.heap.items():
            if s == "live" and o not in kept and self.it.nullness(st, o) is not False:
                self.fail(st, "leak", "a block allocated on the way is lost")

    def made(self, st, o, name, T, num, heap, want, text):
        it = self.it
        F = lambda f, ptr=False: C.get(it, st, o, 0, T, f, ptr)
        head = C.fields(it, st, o, 0, "as_val", ["type", "count", "free"])
        if None in head or not all(it.entails_eq(st, L.addc(x, -k)) for x, k in zip(head, (num, 1, heap))):
            self.fail(st, "header", "the new value does not have its own type, one reference and the right heap mark")
        kept = [o]
        for f, v in want.items():
            if f == "copy":
                continue
            off, sz = field_off(it.p, T, f)
            got = it.load(st, None, None, ("P", o, L.const(off)), sz,
                          "ptr" if v[0] == "P" else "double" if v[0] == "D" else "i%d" % (8 * sz))
            if not self.eq(st, got, v, 8 * sz):
                self.fail(st, "content", "the new value does not hold the given %s" % f)
        if text is not None or name in ("string", "geojson") and "len" not in want:
            v = F("value", True)
            ln = C.fields(it, st, o, 0, T, ["len"])[0]
            if text is not None:
                if v[0] != "P" or v[2] != L.ZERO or st.heap.get(v[1]) != "live" or it.nullness(st, v[1]) is not True:
                    self.fail(st, "content", "the text is not a copy on the heap, or is missing when memory is short")
                    return
                kept.append(v[1])
                fr = C.fields(it, st, o, 0, T, ["free"])[0]
                if fr is None or not it.entails_eq(st, L.addc(fr, -1)):
                    self.fail(st, "content", "the value does not own its copy of the text")
                self.copied(st, v, text)
            if ln is None or not (it.entails_eq(st, L.addc(ln, -UNSET)) or self.is_len(st, ln, v)):
                self.fail(st, "content", "the length is neither open nor that of the text")
        if name == "bytes":
            t, sz, cap = C.fields(it, st, o, 0, T, ["type", "size", "capacity"])
            v = F("value", True)
            if t is None or not it.entails_eq(st, L.addc(t, -BLOB)):
                self.fail(st, "content", "new bytes are not marked as a plain blob")
            if "size" in want:
                if cap is None or not it.entails_eq(st, L.sub(cap, it.u(st, want["size"]))):
                    self.fail(st, "content", "the capacity is not the given size")
            else:
                fr = C.fields(it, st, o, 0, T, ["free"])[0]
                if fr is None or not it.entails_eq(st, L.addc(fr, -1)) or sz is None or not it.entails_eq(st, sz):
                    self.fail(st, "content", "an empty buffer has a size or does not own its storage")
                if v[0] == "P" and v[1] != NULL and it.nullness(st, v[1]) is not False:
                    kept.append(v[1])
                    if it.nullness(st, v[1]) is None or not it.entails(st, L.sub(it.objs[v[1]].size, cap)):
                        self.fail(st, "content", "the storage is smaller than the capacity, or missing when memory is short")
                elif not it.entails_eq(st, cap):
                    self.fail(st, "content", "there is a capacity but no storage")
        self.leaks(st, kept)

    def is_len(self, st, ln, v):
        return v[0] == "P" and v[1] != NULL and self.it.entails_eq(st, L.sub(ln, libmodel.nul_len(self.it, st, v)))

    def text(self, st):
        """A text of any length with one traced byte."""
        it = self.it
        t = C.region(it, st, "text", None)
        self.k = L.atom(it.mk_atom("k#%d" % it.bump(), 0, C.BIG))
        self.byte = it.mk_atom("byte#%d" % it.bump(), 1, 255)
        it.marks.add(self.byte)
        it.store(st, ("P", t[1], self.k), 1, ("I", 8, L.atom(self.byte)))
        n = libmodel.nul_len(it, st, t)
        it.add_ge(st, L.addc(L.sub(n, self.k), -1))
        it.objs[t[1]].size = L.addc(n, 1)
        return t

    def copied(self, st, v, text):
        it = self.it
        x = it.load(st, None, None, ("P", v[1], self.k), 1, "i8")
        if x != ("I", 8, L.atom(self.byte)):
            self.fail(st, "content", "the copy does not hold the text")

    # ---------------------------------------------------------------- casts
    def cast(self):
        it = self.it
        name = self.fn.name[3:-8]
        for n, num in ALL.items():
            st = absint.State()
            v = C.region(it, st, "value", L.const(64), "as_val")
            C.put(it, st, v[1], 0, "as_val", "type", num)
            for e, rv in self.call(st, [v]):
                if num == TYPES[name][0]:
                    if rv != v:
                        self.fail(e, "cast", "does not accept its own type")
                elif not null(it, e, rv):
                    self.fail(e, "cast", "accepts a value of type %d" % num)
        for e, rv in self.call(absint.State(), [C.NULLP]):
            if not null(it, e, rv):
                self.fail(e, "cast", "makes a value from nothing")

    def uncast(self):
        it = self.it
        st = absint.State()
        v = C.region(it, st, "value", L.const(64))
        for a in (v, C.NULLP):
            for e, rv in self.call(st.copy(), [a]):
                if rv != a and not (a[1] == NULL and null(it, e, rv)):
                    self.fail(e, "cast", "does not return the value itself")

    # -------------------------------------------------------------- getters
    def getter(self):
        it = self.it
        name, f, fb = GET[self.fn.name]
        num, T, _ = TYPES[name]
        off, sz = field_off(it.p, T, f)
        st = absint.State()
        v = C.region(it, st, "value", L.const(it.p.structs[T]["size"]), T)
        C.put(it, st, v[1], 0, "as_val", "type", num)
        if self.fn.ret == "double":
            x = it.unknown("double", "content")
        elif self.fn.ret == "ptr":
            x = C.region(it, st, "content", L.const(64))
        else:
            x = ("I", 8 * sz, L.atom(it.mk_atom("content", 0, 1 if self.fn.ret == "i1" else (1 << 8 * sz) - 1)))
        it.store(st, ("P", v[1], L.const(off)), sz, x)
        back = sym_arg(it, self.fn, 1) if fb else None
        extra = [back] if fb else []
        for e, rv in self.call(st, [v] + extra):
            if not self.eq(e, rv, x, 8 * sz):
                self.fail(e, "getter", "does not return what the value holds")
        for e, rv in self.call(absint.State(), [C.NULLP] + extra):
            if fb:
                ok = self.eq(e, rv, back, 8 * sz)
            elif rv[0] == "D":
                ok = rv in (("D", ("c", "0")), ("D", ("zero",)))
            elif rv[0] == "P":
                ok = null(it, e, rv)
            else:
                ok = it.entails_eq(e, it.u(e, rv) if rv[0] == "I" else it.lin_of(e, rv))
            if not ok:
                self.fail(e, "getter", "does not return the fallback when there is no value")

    def length(self):
        it = self.it
        name = self.fn.name[3:-4]
        num, T, _ = TYPES[name]
        for known in (0, 1, None):
            st = absint.State()
            v = C.region(it, st, "value", L.const(it.p.structs[T]["size"]), T)
            n = C.num(it, "length", 0, C.BIG, 64)[2]
            t = C.region(it, st, "text", L.addc(n, 1))
            C.put(it, st, v[1], 0, "as_val", "type", num)
            C.put(it, st, v[1], 0, T, "value", C.NULLP if known is None else t)
            given = C.num(it, "known", 0, C.BIG, 64)
            C.put(it, st, v[1], 0, T, "len", given if known else ("I", 64, L.const(UNSET)))
            for e, rv in self.call(st, [v]):
                want = L.ZERO if known is None else given[2] if known else libmodel.nul_len(it, e, t)
                if not it.entails_eq(e, L.sub(it.u(e, rv), want)):
                    self.fail(e, "getter", "does not return the length of the text")
                ln = C.fields(it, e, v[1], 0, T, ["len"])[0]
                if ln is None or not (it.entails_eq(e, L.sub(ln, want)) or
                                      not known and it.entails_eq(e, L.addc(ln, -UNSET))):
                    self.fail(e, "getter", "leaves a wrong length behind")

    # ------------------------------------------------------------- dispatch
    def dispatch(self):
        it = self.it
        what = DISPATCH[self.fn.name]
        self.cl.hook = what
        for n, num in ALL.items():
            if n not in OWN:
                continue
            st = absint.State()
            v = C.region(it, st, "value", L.const(64), "as_val")
            C.put(it, st, v[1], 0, "as_val", "type", num)
            own = "as_%s_val_%s" % (OWN[n], what)
            it.p.need(own)
            for e, rv in self.call(st, [v]):
                called = {k: x for k, x in e.cl.items() if k[0] == "own"}
                if called != {("own", own, v[1]): 1} or rv != e.cl.get("answer"):
                    self.fail(e, "dispatch", "does not give the %s of the value's own type (%d)" % (what, num))
        for e, rv in self.call(absint.State(), [C.NULLP]):
            if any(k[0] == "own" for k in e.cl) or not (null(it, e, rv) if rv[0] == "P" else it.entails_eq(e, it.u(e, rv))):
                self.fail(e, "dispatch", "makes something of no value")

    def tobool(self):
        it = self.it
        for n, num in ALL.items():
            st = absint.State()
            T = TYPES[n][1] if n in TYPES else "as_val"
            v = C.region(it, st, "value", L.const(64), T)
            C.put(it, st, v[1], 0, "as_val", "type", num)
            x = None
            if n in ("boolean", "integer"):
                x = C.num(it, "content", 0, 1 if n == "boolean" else (1 << 64) - 1, 8 * field_off(it.p, T, "value")[1])
                C.put(it, st, v[1], 0, T, "value", x)
            for e, rv in self.call(st, [v]):
                for yes in (0, 1):
                    t = e.copy()
                    for s in it.assume(t, it.cond_of(t, rv) if yes else it.neg(it.cond_of(t, rv))):
                        if not it.close(s):
                            continue
                        if x is None:
                            ok = not yes
                        elif yes:
                            ok = self.never(s, x[2])
                        else:
                            ok = it.entails_eq(s, x[2])
                        if not ok:
                            self.fail(s, "getter", "wrong truth value for a value of type %d" % num)
        for e, rv in self.call(absint.State(), [C.NULLP]):
            if it.cond_of(e, rv) is not False:
                self.fail(e, "getter", "no value is true")

    def never(self, st, l):
        t = st.copy()
        return not (self.it.add_eq(t, l) and self.it.close(t))


OPS = list(NEW) + CAST + UNCAST + list(GET) + LEN + list(DISPATCH) + ["as_val_tobool"]


def run_op(name):
    r = Run(name)
    if name in NEW:
        r.create()
    elif name in CAST:
        r.cast()
    elif name in UNCAST:
        r.uncast()
    elif name in GET:
        r.getter()
    elif name in LEN:
        r.length()
    elif name in DISPATCH:
        r.dispatch()
    else:
        r.tobool()
    r.cl.count("operations")
    return r.cl


def check_types(p, tier):
    res = Result()
    for n in OPS:
        p.need(n)
    for cl in parallel([(run_op, (n,)) for n in OPS]):
        res.add_client(cl)
    res.instances = list(OPS)
    res.need("operations", len(OPS))
    res.need("outcomes", 240)
    return res
