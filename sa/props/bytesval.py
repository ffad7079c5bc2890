"""Byte buffers give back exactly the bytes put into them."""
from .. import absint, contracts as C, lin as L
from ..absint import NULL
from ..harness import Result, parallel, program
from .storage import StoreClient
from . import maps

S = "as_bytes"
TOP = (1 << 32) - 1
FIXED = {"byte": 1, "int16": 2, "int32": 4, "int64": 8, "double": 8}
OPS = {"as_bytes_set": ("set", None), "as_bytes_append": ("append", None), "as_bytes_copy": ("copy", None),
       "as_bytes_truncate": ("truncate", None), "as_bytes_ensure": ("ensure", None),
       "as_bytes_set_var_int": ("setvar", None), "as_bytes_get_var_int": ("getvar", None),
       "as_bytes_size": ("field", "size"), "as_bytes_capacity": ("field", "capacity"), "as_bytes_get": ("field", "value"),
       "as_bytes_tobytes": ("tobytes", None)}
for _k, _n in FIXED.items():
    OPS["as_bytes_set_" + _k] = ("set", (_k, _n))
    OPS["as_bytes_append_" + _k] = ("append", (_k, _n))
    OPS["as_bytes_get_" + _k] = ("copy", (_k, _n))


class Bytes(StoreClient):
    def on_event(self, it, st, fr, I, what, d):
        if what == "allocfail":
            st.cl["nomem"] = True
        super().on_event(it, st, fr, I, what, d)


class Run:
    def __init__(self, name):
        p = program()
        self.p = p
        self.name = name
        self.fn = p.need(name)
        self.cl = Bytes(p, name)
        self.it = absint.Interp(p, self.cl, max_steps=2500000, max_states=500, keep=60)
        self.it.marks.add(-1)
        self.it.bytewise.add(-1)
        self.it.scale_more = True
        self.what = "bytes"

    def fail(self, st, rule, msg):
        self.cl.report_at(rule, self.fn.file, self.fn.line, self.fn.name, "%s: %s" % (self.what, msg),
                          self.it.trace_lines(st))

    # -- entry
    def make(self, free=0):
        it = self.it
        st = absint.State()
        self.o = C.region(it, st, "bytes", L.const(self.p.structs[S]["size"]), S)
        self.cap = C.num(it, "capacity", 1, TOP)
        self.size = C.num(it, "size", 0, TOP)
        it.add_ge(st, L.sub(self.cap[2], self.size[2]))
        self.free = free
        self.v = (C.owned if free else C.region)(it, st, "storage", self.cap[2], "storage")
        self.type = C.num(it, "type", 0, 30)
        for f, v in (("capacity", self.cap), ("size", self.size), ("value", self.v), ("free", free), ("type", self.type)):
            C.put(it, st, self.o[1], 0, S, f, v)
        return st

    def named(self, st, o, at, n, pre="b"):
        """n unknown bytes at a place."""
        out = []
        for k in range(n):
            b = L.atom(self.it.mk_atom("%s%d#%d" % (pre, k, self.it.bump()), 0, 255))
            if st is not None:
                self.it.store(st, ("P", o, L.addc(at, k)), 1, ("I", 8, b))
            out.append(b)
        return out

    def trace(self, st, o, at):
        it = self.it
        m = L.atom(it.mk_atom("traced#%d" % it.bump(), 0, 255))
        it.marks.add(m[1][0][0])
        it.store(st, ("P", o, at), 1, ("I", 8, m))
        return m

    def call(self, st, args):
        self.cl.count("cases")
        for e, rv in self.it.call_fn(self.fn, args, st.copy()):
            if not self.it.add_ge(e.copy(), L.ZERO):
                continue
            self.cl.count("outcomes")
            yield e, rv

    # -- exit
    def byte(self, e, o, at, want):
        x = self.it.load(e, None, None, ("P", o, at), 1, "i8")
        self.cl.count("bytes compared")
        return x[0] == "I" and self.it.entails_eq(e, L.sub(self.it.u(e, x), want))

    def object(self, e, size=None, moved=False):
        """Fields other than those that may change."""
        it = self.it
        sz, cap, fr, ty = C.fields(it, e, self.o[1], 0, S, ["size", "capacity", "free", "type"])
        if sz is None or not it.entails_eq(e, L.sub(sz, size or self.size[2])):
            self.fail(e, "size", "the size is not what it should be")
        if ty is None or not it.entails_eq(e, L.sub(ty, self.type[2])):
            self.fail(e, "type", "the type changes")
        if moved:
            return
        v = C.get(it, e, self.o[1], 0, S, "value", True)
        if v != self.v or cap is None or not it.entails_eq(e, L.sub(cap, self.cap[2])):
            self.fail(e, "storage", "the storage or its capacity changes")
        if fr is None or not it.entails_eq(e, L.addc(fr, -self.free)):
            self.fail(e, "storage", "the ownership changes")

    def truth(self, e, rv):
        if rv[0] == "B":
            if isinstance(rv[1], bool):
                return rv[1]
            rv = ("I", 8, self.it.lin_of(e, rv))
        c = self.it.const_of(e, rv)
        return None if c is None else bool(c)

    def decided(self, e, rv):
        """(state, result) with the result known."""
        t = self.truth(e, rv)
        if t is not None:
            return [(e, t)]
        out = []
        l = self.it.lin_of(e, rv)
        for t in (False, True):
            s = e.copy()
            if self.it.add_ge(s, L.addc(l, -1)) if t else self.it.add_eq(s, l):
                out.append((s, t))
        return out

    # -- writing
    def value(self, st, kind, n):
        """(argument, its bytes in memory order)"""
        it = self.it
        if kind == "double":
            v = ("D", ("arg", "value"))
            bits = it.retype(st, v, "i64", 8)
            return v, it.byte_atoms(st, bits[2], 8)
        bs = self.named(None, None, None, n, "v")
        l = L.ZERO
        for k, b in enumerate(bs):
            l = L.add(l, L.scale(b, 1 << 8 * k))
        return ("I", 8 * n, l), bs

    def write(self, append, how):
        it = self.it
        for kept in (False, True):
            st = self.make()
            at = self.size if append else C.num(it, "index", 0, TOP)
            src = j = m = None
            bs = []
            if how:
                v, bs = self.value(st, *how)
                n = L.const(how[1])
                args = [v]
            else:
                ln = C.num(it, "n", 0, TOP)
                n = ln[2]
                src = C.region(it, st, "source", n, "source")
                args = [src, ln]
            if kept:        # a byte elsewhere
                runs = []
                for before in (True, False):
                    s = st.copy()
                    q = C.num(it, "elsewhere", 0, TOP)[2]
                    if it.add_ge(s, L.addc(L.sub(self.cap[2], q), -1)) and \
                            it.add_ge(s, L.addc(L.sub(at[2], q), -1) if before else L.sub(L.sub(q, at[2]), n)):
                        runs.append((s, q, self.trace(s, self.v[1], q)))
            elif src:
                s = st.copy()
                j = C.num(it, "place", 0, TOP)[2]
                it.add_ge(s, L.addc(L.sub(n, j), -1))
                runs = [(st, None, None), (s, None, self.trace(s, src[1], j))]
            else:
                runs = [(st, None, None)]
            for s, q, m in runs:
                for e, rv in self.call(s, [self.o] + ([] if append else [at]) + args):
                    for e, ok in self.decided(e, rv):
                        self.written(e, ok, at[2], n, bs, q, j, m)

    def written(self, e, ok, at, n, bs, q, j, m):
        it = self.it
        end = L.add(at, n)
        room = L.sub(self.cap[2], end)
        if q is not None and not self.byte(e, self.v[1], q, m):
            return self.fail(e, "kept", "a byte outside the range written is not kept")
        if not ok:
            if not it.entails(e, L.addc(L.neg(room), -1)):
                self.fail(e, "refused", "fails although the bytes fit")
            return self.object(e)
        if not it.entails(e, room):
            return self.fail(e, "accepted", "succeeds although the bytes do not fit")
        for grew in (True, False):
            s = e.copy()
            d = L.sub(end, self.size[2])
            if it.add_ge(s, L.addc(d, -1) if grew else L.neg(d)):
                self.object(s, end if grew else None)
        for k, b in enumerate(bs):
            if not self.byte(e, self.v[1], L.addc(at, k), b):
                return self.fail(e, "bytes", "byte %d is not the one given" % k)
        if m and q is None and not self.byte(e, self.v[1], L.add(at, j), m):
            self.fail(e, "bytes", "a byte of the content is not in its place")

    def do_set(self, how):
        self.write(False, how)

    def do_append(self, how):
        self.write(True, how)

    # -- reading
    def do_copy(self, how):
        it = self.it
        for traced in (False, True):
            st = self.make()
            at = C.num(it, "index", 0, TOP)
            ln = ("I", 32, L.const(how[1])) if how else C.num(it, "n", 0, TOP)
            n = ln[2]
            dst = C.region(it, st, "target", n, "target")
            end = L.add(at[2], n)
            whole = L.sub(self.size[2], end)
            args = [self.o, at, dst] + ([] if how else [ln])
            for fits in (True, False):
                s = st.copy()
                if not it.add_ge(s, whole if fits else L.addc(L.neg(whole), -1)):
                    continue
                bs, m = [], None
                if fits and how:
                    bs = self.named(s, self.v[1], at[2], how[1])
                elif traced:
                    j = C.num(it, "place", 0, TOP)[2]
                    if not it.add_ge(s, L.addc(L.sub(n, j), -1)):
                        continue
                    m = self.trace(s, self.v[1] if fits else dst[1], L.add(at[2], j) if fits else j)
                for e, rv in self.call(s, args):
                    self.object(e)
                    if not it.entails_eq(e, L.sub(it.u(e, rv), n if fits else L.ZERO)):
                        self.fail(e, "count", "the number of bytes copied is wrong")
                    for k, b in enumerate(bs):
                        if not self.byte(e, dst[1], L.const(k), b):
                            self.fail(e, "bytes", "byte %d is not the one stored" % k)
                            break
                    if m and not self.byte(e, dst[1], j, m):
                        self.fail(e, "bytes", "a byte is not in its place" if fits else "writes the target although it fails")

    def do_truncate(self, _):
        it = self.it
        st = self.make()
        q = C.num(it, "place", 0, TOP)[2]
        it.add_ge(st, L.addc(L.sub(self.cap[2], q), -1))
        m = self.trace(st, self.v[1], q)
        n = C.num(it, "n", 0, TOP)
        for e, rv in self.call(st, [self.o, n]):
            for e, ok in self.decided(e, rv):
                left = L.sub(self.size[2], n[2])
                if not it.entails(e, left if ok else L.addc(L.neg(left), -1)):
                    self.fail(e, "result", "succeeds wrongly" if ok else "fails wrongly")
                self.object(e, left if ok else None)
                s = e.copy()
                if it.add_ge(s, L.addc(L.sub(left if ok else self.size[2], q), -1)) and not self.byte(s, self.v[1], q, m):
                    self.fail(e, "kept", "a byte that stays is changed")

    def do_ensure(self, _):
        it = self.it
        for free in (0, 1):
            for resize in (False, True):
                self.what = "%s storage, resize %s" % ("owned" if free else "borrowed", resize)
                st = self.make(free)
                q = C.num(it, "place", 0, TOP)[2]
                it.add_ge(st, L.addc(L.sub(self.size[2], q), -1))
                m = self.trace(st, self.v[1], q)
                n = C.num(it, "n", 0, TOP)
                for e, rv in self.call(st, [self.o, n, ("B", resize)]):
                    for e, ok in self.decided(e, rv):
                        self.ensured(e, ok, n[2], resize, q, m)

    def ensured(self, e, ok, n, resize, q, m):
        it = self.it
        enough = L.sub(self.cap[2], n)
        v = C.get(it, e, self.o[1], 0, S, "value", True)
        if not ok:
            if not it.entails(e, L.addc(L.neg(enough), -1)) or resize and not maps.nomem(it, e):
                self.fail(e, "refused", "fails although there is room or memory")
            self.object(e)
        elif v[0] != "P" or v[1] == NULL:
            return self.fail(e, "storage", "succeeds without storage")
        elif v[1] == self.v[1]:
            if not it.entails(e, enough):
                self.fail(e, "accepted", "succeeds without room")
            self.object(e)
        else:
            cap, fr = C.fields(it, e, self.o[1], 0, S, ["capacity", "free"])
            self.object(e, None, True)
            ob = it.objs[v[1]]
            if not resize or cap is None or not it.entails(e, L.sub(cap, n)) or ob.size is None or \
                    not it.entails(e, L.sub(ob.size, cap)) or fr is None or not it.entails_eq(e, L.addc(fr, -1)):
                self.fail(e, "storage", "the new storage is not as recorded")
            if (e.heap.get(self.v[1]) == "freed") != bool(self.free):
                self.fail(e, "storage", "the old storage is %s" % ("not freed" if self.free else "freed"))
        if v[0] == "P" and v[1] != NULL and not self.byte(e, v[1], L.add(v[2], q), m):
            self.fail(e, "kept", "a byte is lost")

    # -- variable length integers
    def bits(self, n):
        return [L.atom(self.it.mk_atom("bit#%d" % self.it.bump(), 0, 1)) for _ in range(n)]

    @staticmethod
    def number(bs):
        r = L.ZERO
        for k, b in enumerate(bs):
            r = L.add(r, L.scale(b, 1 << k))
        return r

    def do_setvar(self, _):
        it = self.it
        it.bytewise = set()
        it.bitwise = it.each_way = True
        for n in range(1, 6):
            self.what = "number of %d groups" % n
            for kept in (False, True):
                st = self.make()
                at = C.num(it, "index", 0, TOP)
                bs = self.bits(min(7 * n, 32))
                v = self.number(bs)
                lo = 1 << 7 * (n - 1) if n > 1 else 0
                it.add_ge(st, L.addc(v, -lo))
                if kept:
                    runs = []
                    for before in (True, False):
                        s = st.copy()
                        q = C.num(it, "elsewhere", 0, TOP)[2]
                        if it.add_ge(s, L.addc(L.sub(self.cap[2], q), -1)) and \
                                it.add_ge(s, L.addc(L.sub(at[2], q), -1) if before else L.sub(q, L.addc(at[2], n))):
                            runs.append((s, q, self.trace(s, self.v[1], q)))
                else:
                    runs = [(st, None, None)]
                for s, q, m in runs:
                    for e, rv in self.call(s, [self.o, at, ("I", 32, v)]):
                        self.object(e)
                        if q is not None:
                            if not self.byte(e, self.v[1], q, m):
                                self.fail(e, "kept", "a byte outside the range written is not kept")
                            continue
                        r = it.u(e, rv)
                        room = L.sub(self.cap[2], L.addc(at[2], n))
                        if it.entails_eq(e, r):
                            if not it.entails(e, L.addc(L.neg(room), -1)):
                                self.fail(e, "refused", "fails although the number fits")
                            continue
                        if not it.entails_eq(e, L.addc(r, -n)) or not it.entails(e, room):
                            self.fail(e, "count", "the number of bytes written is wrong")
                            continue
                        for k in range(n):
                            want = L.addc(self.number(bs[7 * k:7 * k + 7]), 128 if k < n - 1 else 0)
                            if not self.byte(e, self.v[1], L.addc(at[2], k), want):
                                self.fail(e, "bytes", "byte %d is not as the format requires" % k)
                                break

    def do_getvar(self, _):
        it = self.it
        it.bytewise = set()
        it.bitwise = it.each_way = True
        for n in range(1, 7):
            for cut in (False, True):
                self.what = "number of %d bytes%s" % (n, ", cut short" if cut else "")
                st = self.make()
                at = C.num(it, "index", 0, TOP)
                have = n - 1 if cut else n
                left = L.sub(self.size[2], at[2])
                if cut and not have:
                    if not it.add_ge(st, L.neg(left)):
                        continue
                elif not (it.add_eq(st, L.addc(left, -have)) if cut else it.add_ge(st, L.addc(left, -have))):
                    continue
                bs = self.bits(7 * have)
                if n == 5 and not cut:
                    bs[32:] = [L.ZERO] * 3      # the number has 32 bits
                for k in range(have):
                    it.store(st, ("P", self.v[1], L.addc(at[2], k)), 1,
                             ("I", 8, L.addc(self.number(bs[7 * k:7 * k + 7]), 128 if k < n - 1 else 0)))
                dst = C.region(it, st, "result", L.const(4), None)
                old = it.load(st, None, None, dst, 4, "i32")
                for e, rv in self.call(st, [self.o, at, dst]):
                    self.object(e)
                    good = not cut and n < 6
                    if not it.entails_eq(e, L.addc(it.u(e, rv), -(n if good else 0))):
                        self.fail(e, "count", "the number of bytes read is wrong")
                        continue
                    x = it.load(e, None, None, dst, 4, "i32")
                    if not it.entails_eq(e, L.sub(it.u(e, x), self.number(bs) if good else it.u(e, old))):
                        self.fail(e, "value", "the number read is not the one written" if good else "gives a number although it fails")

    # -- looking
    def do_field(self, f):
        it = self.it
        st = self.make()
        want = dict(size=self.size, capacity=self.cap, value=self.v)[f]
        for e, rv in self.call(st, [self.o]):
            self.object(e)
            if not (rv == want if f == "value" else it.entails_eq(e, L.sub(it.u(e, rv), want[2]))):
                self.fail(e, "field", "the %s given is wrong" % f)

    def do_tobytes(self, _):
        it = self.it
        st = self.make()
        dst = C.region(it, st, "result", L.const(4), None)
        for e, rv in self.call(st, [self.o, dst]):
            self.object(e)
            n = it.load(e, None, None, dst, 4, "i32")
            if rv != self.v or not it.entails_eq(e, L.sub(it.u(e, n), self.size[2])):
                self.fail(e, "field", "the storage or size given is wrong")


def run_op(name):
    r = Run(name)
    k, how = OPS[name]
    getattr(r, "do_" + k)(how)
    r.cl.count("operations")
    return r.cl


def check_bytesval(p, tier):
    res = Result()
    for cl in parallel([(run_op, (n,)) for n in OPS]):
        res.add_client(cl)
    res.instances = list(OPS)
    res.need("operations", len(OPS))
    res.need("cases", 80)
    res.need("outcomes", 120)
    res.need("bytes compared", 150)
    res.assumptions = ["the storage holds the recorded capacity and the size is at most the capacity",
                       "source and target do not overlap the storage", "little endian machine"]
    return res
