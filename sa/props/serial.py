"""The MessagePack serializer hands over exactly the packed value, in one block."""
from .. import absint, contracts as C, lin as L
from ..absint import NULL
from ..harness import Result, parallel, program
from .storage import OPAQUE, StoreClient
from . import lists, maps
from .encode import S, TOP
from .lists import same

NODE = "as_packer_buffer"
B = "as_buffer"
CALLS = ["as_serializer_serialize", "as_serializer_serialize_getsize", "as_serializer_serialize_presized",
         "as_serializer_deserialize"]
MOST = 3        # saved buffers
HALF = (1 << 31) - 1


class Stub(StoreClient):
    """Stands for the packer and the decoder of values, which have their own checks."""
    val = n = trace = None
    home = None         # caller's block, when one was given
    chain = 0           # buffers the packer saves when the value does not fit

    def bad(self, it, st, fr, I, rule, msg):
        if not it.quiet:
            self.report(it, st, fr, I, rule, msg)

    def on_call(self, it, st, fr, I, name, args):
        if name == "as_pack_val":
            self.site("value packed", fr, I)
            return self.pack(it, st, fr, I, args)
        if name == "as_unpack_val":
            self.site("value decoded", fr, I)
            return self.unpack(it, st, fr, I, args)
        return super().on_call(it, st, fr, I, name, args)

    def result(self, I, rc):
        return ("I", absint.width(I["t"]), L.const(rc))

    def pack(self, it, st, fr, I, args):
        pk = args[0]
        if not same(args[1], self.val):
            self.bad(it, st, fr, I, "value", "packs something other than the value given")
        if pk[0] != "P" or pk[2] != L.ZERO:
            self.bad(it, st, fr, I, "packer", "the packer is lost")
            return []
        buf, head, tail = [C.get(it, st, pk[1], 0, S, f, True) for f in ("buffer", "head", "tail")]
        at, cap = C.fields(it, st, pk[1], 0, S, ["offset", "capacity"])
        if at is None or cap is None or buf[0] != "P":
            self.bad(it, st, fr, I, "packer", "the packer is not set up")
            return []
        out = []
        null = maps.null(it, st, buf)
        if not null and (not maps.null(it, st, head) or not maps.null(it, st, tail)):
            self.bad(it, st, fr, I, "packer", "the packer starts with saved buffers that do not exist")
            return []
        for rc in (-2, 1):
            c = st.copy()
            c.cl["failed"] = True
            out.append((c, self.result(I, rc)))
        if null:
            c = st.copy()
            C.put(it, c, pk[1], 0, S, "offset", ("I", 32, L.add(at, self.n)))
            return out + [(c, self.result(I, 0))]
        size = it.objs[buf[1]].size
        if size is None:
            return out
        end = L.add(at, self.n)
        # in place
        c = st.copy()
        if it.add_ge(c, L.sub(cap, end)):
            if not it.entails(c, L.sub(size, end)):
                self.bad(it, c, fr, I, "capacity", "the packer is told it has more room than its buffer has")
            for d in self.place(it, c, [(buf[1], at, self.n)]):
                C.put(it, d, pk[1], 0, S, "offset", ("I", 32, end))
                out.append((d, self.result(I, 0)))
        # beyond
        c = st.copy()
        if it.add_ge(c, L.addc(L.sub(end, cap), -1)):
            if self.home is not None:
                self.bad(it, c, fr, I, "capacity", "the packer has less room than the caller's buffer")
                return out
            out += self.spill(it, c, fr, I, pk, buf, at, cap, size)
        return out

    def spill(self, it, c, fr, I, pk, buf, at, cap, size):
        """The packer saved its buffer and went on in others."""
        if not it.entails(c, L.sub(size, cap)):
            self.bad(it, c, fr, I, "capacity", "the packer is told it has more room than its buffer has")
        out = []
        nodes, segs = [], []
        left = self.n
        block, lo, full = buf, at, cap
        for k in range(self.chain):
            m = C.num(it, "saved", 0, TOP)[2]
            it.add_ge(c, L.sub(m, lo))
            it.add_ge(c, L.sub(full, m))
            o = C.owned(it, c, "entry", L.const(self.p.structs[NODE]["size"]), NODE)
            it.objs[o[1]].extra = ("packer", 0, [])
            C.put(it, c, o[1], 0, NODE, "buffer", block)
            C.put(it, c, o[1], 0, NODE, "length", ("I", 32, m))
            segs.append((block[1], lo, L.sub(m, lo)))
            left = L.sub(left, L.sub(m, lo))
            nodes.append(o)
            full = C.num(it, "room", 1, TOP)[2]
            block, lo = C.owned(it, c, "next buffer", full), L.ZERO
        segs.append((block[1], lo, left))
        for k, o in enumerate(nodes):
            C.put(it, c, o[1], 0, NODE, "next", nodes[k + 1] if k + 1 < len(nodes) else C.NULLP)
        for f, v in (("buffer", block), ("capacity", ("I", 32, full)), ("head", nodes[0]), ("tail", nodes[-1])):
            C.put(it, c, pk[1], 0, S, f, v)
        # failing half way
        d = c.copy()
        m = C.num(it, "position", 0, TOP)
        if it.add_ge(d, L.sub(full, m[2])):
            C.put(it, d, pk[1], 0, S, "offset", m)
            d.cl["failed"] = True
            out.append((d, self.result(I, -2)))
        if it.add_ge(c, left) and it.add_ge(c, L.sub(full, left)):
            C.put(it, c, pk[1], 0, S, "offset", ("I", 32, left))
            out += [(d, self.result(I, 0)) for d in self.place(it, c, segs)]
        return out

    def place(self, it, st, segs):
        """Put the traced byte where the packer would."""
        if self.trace is None:
            return [st]
        at, mark = self.trace
        out = []
        for o, lo, n in segs:
            s = st.copy()
            if it.add_ge(s, at) and it.add_ge(s, L.addc(L.sub(n, at), -1)):
                it.store(s, ("P", o, L.add(lo, at)), 1, ("I", 8, mark))
                out.append(s)
            at = L.sub(at, n)
        return out

    def unpack(self, it, st, fr, I, args):
        pk, v = args[:2]
        if st.cl.get("decoded"):
            self.bad(it, st, fr, I, "value", "decodes twice")
        st.cl["decoded"] = True
        if pk[0] != "P" or pk[2] != L.ZERO:
            self.bad(it, st, fr, I, "input", "the input is lost")
            return []
        S2 = "as_unpacker"
        buf = C.get(it, st, pk[1], 0, S2, "buffer", True)
        at, n = C.fields(it, st, pk[1], 0, S2, ["offset", "length"])
        d, m = self.val
        if buf[0] != "P" or buf[1] != d[1] or not it.entails_eq(st, buf[2]):
            self.bad(it, st, fr, I, "input", "decodes from somewhere other than the start of the buffer given")
        if at is None or not it.entails_eq(st, at):
            self.bad(it, st, fr, I, "input", "does not start at the first byte")
        if n is None or not it.entails_eq(st, L.sub(n, m)):
            self.bad(it, st, fr, I, "input", "the length of the input is not the size of the buffer given")
        out = []
        for rc in (0, 1, -1, -2):
            c = st.copy()
            c.cl["rc"] = rc
            t = C.region(it, c, "decoded value", None)
            if v[0] == "P" and v[1] != NULL and rc == 0:
                it.store(c, v, 8, t)
                c.cl["value"] = t[1]
            out.append((c, self.result(I, rc)))
        return out


class Run:
    def __init__(self, name):
        p = program()
        self.p = p
        self.fn = p.need(name)
        self.cl = Stub(p, name, OPAQUE)
        self.it = absint.Interp(p, self.cl, max_steps=2500000, max_states=400, keep=60)
        self.it.marks.add(-1)
        self.hooks = lists.table(self.it, "as_msgpack_init", lambda st: [], "as_serializer")

    def fail(self, st, rule, msg):
        self.cl.report_at(rule, self.fn.file, self.fn.line, self.fn.name, msg, self.it.trace_lines(st))

    def start(self, most):
        it = self.it
        st = absint.State()
        s = C.region(it, st, "serializer", L.const(self.p.structs["as_serializer"]["size"]), "as_serializer")
        C.put(it, st, s[1], 0, "as_serializer", "hooks", self.hooks)
        v = C.region(it, st, "value", None)
        self.cl.val = v[1]
        self.cl.n = L.atom(it.mk_atom("packed size#%d" % it.bump(), 1, most))
        return st, s, v

    def traces(self, st):
        yield st, None
        it = self.it
        j = L.atom(it.mk_atom("place#%d" % it.bump(), 0, MOST * TOP))
        mark = L.atom(it.mk_atom("traced#%d" % it.bump(), 1, 255))
        it.marks.add(mark[1][0][0])
        s = st.copy()
        if it.add_ge(s, L.addc(L.sub(self.cl.n, j), -1)):
            yield s, (j, mark)

    def call(self, st, args):
        self.cl.count("cases")
        for e, rv in self.it.call_fn(self.fn, args, st.copy()):
            self.cl.count("outcomes")
            yield e, rv

    def lost(self, e, keep=()):
        it = self.it
        for o, x in e.heap.items():
            if o in keep and x != "live":
                return "the block handed over is freed"
            if o not in keep and x == "live" and it.nullness(e, o) is not False:
                return "memory is lost"
        return None

    def ok(self, e, rv):
        it = self.it
        return it.decide(e, it.icmp(e, "eq", "i32", rv, ("I", 32, L.ZERO)))

    # -- calls
    def do_as_serializer_serialize(self):
        it = self.it
        for chain in range(1, MOST + 1):
            self.cl.chain = chain
            st, s, v = self.start((chain + 1) * TOP)
            b = C.region(it, st, "buffer", L.const(self.p.structs[B]["size"]), B)
            for st, trace in self.traces(st):
                self.cl.trace = trace
                for e, rv in self.call(st, [s, v, b]):
                    self.serialized(e, rv, b, trace)

    def serialized(self, e, rv, b, trace):
        it, n = self.it, self.cl.n
        ok = self.ok(e, rv)
        if ok is None:
            return self.fail(e, "result", "cannot tell success from failure")
        if not ok:
            x = self.lost(e)
            if x:
                return self.fail(e, "lost", "a call that fails: %s" % x)
            if not e.cl.get("failed") and not maps.nomem(it, e) and not it.entails(e, L.addc(n, -TOP - 1)):
                self.fail(e, "refused", "fails although there is memory and the value can be packed")
            return
        if e.cl.get("failed"):
            return self.fail(e, "result", "succeeds although the value could not be packed")
        d = C.get(it, e, b[1], 0, B, "data", True)
        cap, size = C.fields(it, e, b[1], 0, B, ["capacity", "size"])
        if d[0] != "P" or d[2] != L.ZERO or e.heap.get(d[1]) != "live" or maps.null(it, e, d) or cap is None or size is None:
            return self.fail(e, "buffer", "succeeds without handing over a block of memory")
        x = self.lost(e, [d[1]])
        if x:
            return self.fail(e, "lost", "a call that succeeds: %s" % x)
        if not it.entails_eq(e, L.sub(size, n)):
            return self.fail(e, "size", "the size is not that of the packed value")
        if not it.entails(e, L.sub(cap, size)) or not it.entails(e, L.sub(it.objs[d[1]].size, cap)):
            return self.fail(e, "size", "the capacity is less than the size or more than the block has")
        self.cl.count("values handed over")
        if trace:
            self.cl.count("traced bytes")
            x = it.load(e, None, None, ("P", d[1], trace[0]), 1, "i8")
            if x[0] != "I" or x[2] != trace[1]:
                self.fail(e, "content", "a byte of the packed value is not in its place")

    def do_as_serializer_serialize_getsize(self):
        it = self.it
        st, s, v = self.start(TOP)
        for e, rv in self.call(st, [s, v]):
            x = self.lost(e)
            if x:
                self.fail(e, "lost", x)
            want = L.ZERO if e.cl.get("failed") or maps.nomem(it, e) else self.cl.n
            if not it.entails_eq(e, L.sub(it.u(e, rv), want)):
                self.fail(e, "size", "the size is not that of the packed value, or zero if it cannot be packed")
            self.cl.count("sizes compared")

    def do_as_serializer_serialize_presized(self):
        it = self.it
        st, s, v = self.start(HALF)
        home = C.region(it, st, "caller's buffer", self.cl.n)
        self.cl.home = home[1]
        for st, trace in self.traces(st):
            self.cl.trace = trace
            for e, rv in self.call(st, [s, v, home]):
                x = self.lost(e)
                if x:
                    self.fail(e, "lost", x)
                if e.cl.get("failed") or maps.nomem(it, e):
                    if it.decide(e, it.icmp(e, "slt", "i32", rv, ("I", 32, L.ZERO))) is not True:
                        self.fail(e, "result", "a value that cannot be packed is not reported")
                    continue
                if not it.entails_eq(e, L.sub(it.u(e, rv), self.cl.n)):
                    self.fail(e, "size", "the size returned is not that of the packed value")
                self.cl.count("sizes compared")
                if trace:
                    self.cl.count("traced bytes")
                    x = it.load(e, None, None, ("P", home[1], trace[0]), 1, "i8")
                    if x[0] != "I" or x[2] != trace[1]:
                        self.fail(e, "content", "a byte of the packed value is not in its place")

    def do_as_serializer_deserialize(self):
        it = self.it
        st, s, _ = self.start(TOP)
        n, cap = C.num(it, "size", 0, TOP), C.num(it, "capacity", 0, TOP)
        it.add_ge(st, L.sub(cap[2], n[2]))
        d = C.region(it, st, "input", cap[2])
        b = C.region(it, st, "buffer", L.const(self.p.structs[B]["size"]), B)
        for f, v in (("data", d), ("size", n), ("capacity", cap)):
            C.put(it, st, b[1], 0, B, f, v)
        place = C.region(it, st, "result place", L.const(8))
        self.cl.val = (d, n[2])
        for e, rv in self.call(st, [s, b, place]):
            x = self.lost(e)
            if x:
                self.fail(e, "lost", x)
            ok = self.ok(e, rv)
            if ok is None:
                self.fail(e, "result", "cannot tell success from failure")
            elif not e.cl.get("decoded"):
                if ok or not it.entails_eq(e, n[2]) and not maps.nomem(it, e):
                    self.fail(e, "result", "returns without decoding")
            elif ok != (e.cl["rc"] == 0):
                self.fail(e, "result", "reports %s although decoding %s" % (
                    ("success", "failed") if ok else ("failure", "succeeded")))
            elif ok:
                x = it.load(e, None, None, place, 8, "ptr")
                if x[0] != "P" or x[1] != e.cl.get("value"):
                    self.fail(e, "result", "the decoded value is not handed over")
            self.cl.count("decodings compared")
            C_same = [C.get(it, e, b[1], 0, B, f, f == "data") for f in ("data", "size", "capacity")]
            if C_same != [d, n, cap]:
                self.fail(e, "input", "changes the input buffer")


def run_op(name):
    r = Run(name)
    getattr(r, "do_" + name)()
    r.cl.count("calls")
    return r.cl


def check_serial(p, tier):
    res = Result()
    for n in ("as_pack_val", "as_unpack_val", "as_msgpack_init"):
        p.need(n)
    for cl in parallel([(run_op, (n,)) for n in CALLS]):
        res.add_client(cl)
    res.instances = list(CALLS)
    res.need("calls", len(CALLS))
    res.need("values handed over", 2)
    res.need("traced bytes", 2)
    res.need("sizes compared", 2)
    res.need("decodings compared", 2)
    res.assumptions = ["the packer saves at most %d buffers before the last one" % MOST,
                       "a caller's buffer given to the presized call has room for the packed value, whose size is below 2^31"]
    return res
