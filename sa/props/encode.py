"""Encoders write exactly the MessagePack form of a value, inside the space given."""
from .. import absint, contracts as C, lin as L
from ..absint import NULL
from ..harness import Result, field_off, parallel, program
from .storage import StoreClient

S = "as_packer"
TOP = (1 << 32) - 1

# ranges of a number and how the number is written: (least, most, [leading bytes], bytes of the number)
UINT = [(0, 127, [], 1), (128, 255, [0xcc], 1), (256, 65535, [0xcd], 2), (65536, TOP, [0xce], 4),
        (1 << 32, (1 << 64) - 1, [0xcf], 8)]
INT = [(0, 127, [], 1), (128, 255, [0xcc], 1), (256, 65535, [0xcd], 2), (65536, TOP, [0xce], 4),
       (1 << 32, (1 << 63) - 1, [0xcf], 8),
       (-32, -1, [], 1), (-128, -33, [0xd0], 1), (-(1 << 15), -129, [0xd1], 2),
       (-(1 << 31), -(1 << 15) - 1, [0xd2], 4), (-(1 << 63), -(1 << 31) - 1, [0xd3], 8)]
STR = [(0, 31, 0xa0, 0), (32, 255, [0xd9], 1), (256, 65535, [0xda], 2), (65536, TOP, [0xdb], 4)]
BIN = [(0, 255, [0xc4], 1), (256, 65535, [0xc5], 2), (65536, TOP, [0xc6], 4)]
LIST = [(0, 15, 0x90, 0), (16, 65535, [0xdc], 2), (65536, TOP, [0xdd], 4)]
MAP = [(0, 15, 0x80, 0), (16, 65535, [0xde], 2), (65536, TOP, [0xdf], 4)]
EXT = [(1, 1, [0xd4], 0), (2, 2, [0xd5], 0), (4, 4, [0xd6], 0), (8, 8, [0xd7], 0), (16, 16, [0xd8], 0),
       (0, 0, [0xc7], 1), (3, 3, [0xc7], 1), (5, 7, [0xc7], 1), (9, 15, [0xc7], 1), (17, 255, [0xc7], 1),
       (256, 65535, [0xc8], 2), (65536, TOP, [0xc9], 4)]
BLOB = 4        # type byte of plain bytes

# packers: function -> (kind, details)
PACK = {
    "as_pack_nil": ("fixed", [0xc0]),
    "as_pack_cmp_inf": ("fixed", [0xd4, 255, 1]),
    "as_pack_cmp_wildcard": ("fixed", [0xd4, 255, 0]),
    "as_pack_bool": ("bool", None),
    "as_pack_uint64": ("number", UINT),
    "as_pack_int64": ("number", INT),
    "as_pack_float": ("real", (0xca, 4)),
    "as_pack_double": ("real", (0xcb, 8)),
    "as_pack_str": ("text", STR),
    "as_pack_bin": ("text", BIN),
    "as_pack_bytes": ("bytes", STR),
    "as_pack_append": ("raw", None),
    "as_pack_list_header": ("number", LIST),
    "as_pack_map_header": ("number", MAP),
    "as_pack_ext_header": ("ext", EXT),
    "as_pack_buf_ext_header": ("bufext", EXT),
}
# size functions: function -> (ranges, content counted too, bytes besides)
SIZE = {
    "as_pack_uint64_size": (UINT, False, 0), "as_pack_int64_size": (INT, False, 0),
    "as_pack_str_size": (STR, True, 0), "as_pack_bin_size": (BIN, True, 0),
    "as_pack_list_header_get_size": (LIST, False, 0), "as_pack_map_header_get_size": (LIST, False, 0),
    "as_pack_ext_header_get_size": (EXT, False, 1),
    "as_pack_nil_size": (None, False, 1), "as_pack_bool_size": (None, False, 1),
    "as_pack_cmp_inf_size": (None, False, 3), "as_pack_cmp_wildcard_size": (None, False, 3),
    "as_pack_float_size": (None, False, 5), "as_pack_double_size": (None, False, 9),
}


class Writes(StoreClient):
    """Stores into the output stay between the position and the end of the value."""
    out = None

    def on_access(self, it, st, fr, I, kind, ptr, size, val):
        if it.quiet:
            return
        if self.out and ptr[1] == self.out[0] and kind in ("store", "rmw", "store-unbounded"):
            self.site("output write", fr, I)
            o, lo, hi = self.out
            n = size if not isinstance(size, int) else L.const(size)
            if kind == "store-unbounded" or not it.entails(st, L.sub(ptr[2], lo)) or \
                    not it.entails(st, L.sub(L.sub(hi, ptr[2]), n)):
                s = st.copy()
                if it.add_ge(s, L.addc(n, -1)) and not (it.entails(s, L.sub(ptr[2], lo)) and
                                                       it.entails(s, L.sub(L.sub(hi, ptr[2]), n))):
                    self.report(it, st, fr, I, "position", "writes at %s of the output, outside the bytes of this value"
                                % it.show(ptr[2]))
        super().on_access(it, st, fr, I, kind, ptr, size, val)


class Run:
    def __init__(self, name):
        p = program()
        self.p = p
        self.fn = p.need(name)
        self.cl = Writes(p, name)
        self.it = absint.Interp(p, self.cl, max_steps=2500000, max_states=300, keep=60)
        self.it.marks.add(-1)
        self.it.bytewise.add(-1)

    def fail(self, st, rule, msg):
        self.cl.report_at(rule, self.fn.file, self.fn.line, self.fn.name, msg, self.it.trace_lines(st))

    # -- values
    def number(self, st, name, lo, hi, w):
        """(value, its bytes lowest first) for a number in [lo, hi]."""
        it = self.it
        if lo == hi:
            return ("I", w, L.const(lo)), [L.const(lo >> 8 * k & 255) for k in range(w // 8)]
        n = 1
        while not (-(1 << 8 * n) <= lo and hi < 1 << 8 * n):
            n *= 2
        bs = [L.atom(it.mk_atom("%s.%d#%d" % (name, k, it.bump()), 0, 255)) for k in range(n)]
        l = L.ZERO
        for k, b in enumerate(bs):
            l = L.add(l, L.scale(b, 1 << 8 * k))
        if lo < 0:
            l = L.addc(l, -(1 << 8 * n))
        it.add_ge(st, L.addc(l, -lo))
        it.add_ge(st, L.addc(L.neg(l), hi))
        return ("I", w, l), bs + [L.const(255 if lo < 0 else 0)] * (w // 8 - n)

    @staticmethod
    def form(lead, n, v, bs):
        """Bytes of a number written with leading bytes `lead` and n bytes, highest first."""
        if isinstance(lead, int):
            return [L.addc(v[2], lead)]
        return [L.const(x) for x in lead] + [bs[k] for k in reversed(range(n))]

    # -- calls
    def packer(self, st, null):
        it = self.it
        o = C.region(it, st, "packer", L.const(self.p.structs[S]["size"]), S)
        at = C.num(it, "offset", 0, TOP)
        cap = C.num(it, "capacity", 0, TOP)
        if null:
            buf = C.NULLP
        else:
            it.add_ge(st, L.sub(cap[2], at[2]))
            buf = C.region(it, st, "output", cap[2], "output")
        head = C.region(it, st, "first saved", L.const(self.p.structs["as_packer_buffer"]["size"]))
        tail = C.region(it, st, "last saved", L.const(self.p.structs["as_packer_buffer"]["size"]))
        for f, v in (("buffer", buf), ("offset", at), ("capacity", cap), ("head", head), ("tail", tail)):
            C.put(it, st, o[1], 0, S, f, v)
        return o, dict(buffer=buf, head=head, tail=tail, at=at[2], cap=cap[2])

    def call(self, st, args):
        outs = self.it.call_fn(self.fn, args, st)
        self.cl.count("cases")
        return outs

    def expect(self, st, want, args, content=None, what=""):
        """want: the bytes; content: (source block, length)."""
        for null in (False, True):
            s = st.copy()
            pk, d = self.packer(s, null)
            self.judge(s, pk, d, null, [pk] + args, want, content, what)

    def judge(self, s, pk, d, null, args, want, content, what):
        it = self.it
        n = L.const(len(want))
        mark = None
        if content:
            n = L.add(n, content[1])
            if not null:
                j = C.num(it, "place", 0, TOP)[2]
                mark = L.atom(it.mk_atom("traced", 0, 255))
                it.marks.add(mark[1][0][0])
        if null:
            it.add_ge(s, L.addc(L.neg(L.add(d["at"], n)), TOP))
        runs = [(s, False)]
        if mark:
            t = s.copy()
            if it.add_ge(t, L.addc(L.sub(content[1], j), -1)):
                it.store(t, ("P", content[0], j), 1, ("I", 8, mark))
                runs.append((t, True))
        for s, traced in runs:
            self.cl.out = None if null else (d["buffer"][1], d["at"], L.add(d["at"], n))
            for e, rv in self.call(s, args):
                self.outcome(e, rv, pk, d, null, want, n, (j, mark) if traced else None, what)

    def outcome(self, e, rv, pk, d, null, want, n, trace, what):
        it = self.it
        if not it.add_ge(e.copy(), L.ZERO):
            return
        self.cl.count("outcomes")
        rc = it.const_of(e, rv)
        if rc is None:
            self.fail(e, "result", "%s: cannot tell success from failure" % what)
            return
        end = L.add(d["at"], n)
        if pk:
            for f in ("buffer", "head", "tail"):
                v = C.get(it, e, pk[1], 0, S, f, True)
                if v != d[f] and not (null and f == "buffer" and v[0] == "P" and v[1] == NULL):
                    self.fail(e, "buffer", "%s: does not stay with the buffer it was given" % what)
                    return
            cap = C.fields(it, e, pk[1], 0, S, ["capacity"])[0]
            if cap is None or not it.entails_eq(e, L.sub(cap, d["cap"])):
                self.fail(e, "buffer", "%s: changes the capacity" % what)
        if rc != 0:
            if null or not it.entails(e, L.addc(L.sub(end, d["cap"]), -1)):
                self.fail(e, "refused", "%s: fails although the value fits" % what)
            return
        if pk:
            at = C.fields(it, e, pk[1], 0, S, ["offset"])[0]
            if at is None or not it.entails_eq(e, L.sub(at, end)):
                self.fail(e, "advance", "%s: the position does not advance by the size of the value" % what)
                return
        if null:
            return
        o = d["buffer"][1]
        for k, b in enumerate(want):
            x = it.load(e, None, None, ("P", o, L.addc(d["at"], k)), 1, "i8")
            if x[0] != "I" or not it.entails_eq(e, L.sub(it.u(e, x), b)):
                self.fail(e, "bytes", "%s: byte %d of the value is not as the format requires (%s instead of %s)" % (
                    what, k, it.show(it.u(e, x)) if x[0] == "I" else "unknown", it.show(b)))
                return
        if trace:
            j, mark = trace
            x = it.load(e, None, None, ("P", o, L.add(L.addc(d["at"], len(want)), j)), 1, "i8")
            if x[0] != "I" or x[2] != mark:
                self.fail(e, "content", "%s: a byte of the content is not in its place" % what)

    # -- kinds
    def fixed(self, want):
        self.expect(absint.State(), [L.const(x) for x in want], [], what="value")

    def bool(self, _):
        for v in (False, True):
            arg = ("B", v) if self.fn.args[1]["type"] == "i1" else ("I", absint.width(self.fn.args[1]["type"]), L.const(int(v)))
            self.expect(absint.State(), [L.const(0xc3 if v else 0xc2)], [arg], what="true" if v else "false")

    def numbers(self, ranges):
        w = absint.width(self.fn.args[1]["type"])
        for lo, hi, lead, n in ranges:
            st = absint.State()
            v, bs = self.number(st, "value", lo, hi, w)
            self.expect(st, self.form(lead, n, v, bs), [v], what="%d to %d" % (lo, hi))

    def real(self, how):
        it = self.it
        t, n = how
        st = absint.State()
        v = ("D", ("arg", "value"))
        bits = it.retype(st, v, "i%d" % (8 * n), n)
        bs = it.byte_atoms(st, bits[2], n)
        self.expect(st, [L.const(t)] + list(reversed(bs)), [v], what="value")

    def content(self, st, v):
        r = C.region(self.it, st, "content", v[2], "content")
        return r, (r[1], v[2])

    def text(self, ranges):
        for lo, hi, lead, n in ranges:
            for some in (True, False):
                st = absint.State()
                v, bs = self.number(st, "size", lo, hi, 32)
                r, c = self.content(st, v) if some else (C.NULLP, None)
                self.expect(st, self.form(lead, n, v, bs), [r, v], c, "%d to %d bytes%s" % (lo, hi, "" if some else ", header alone"))

    def bytes(self, ranges):
        for lo, hi, lead, n in ranges:
            lo = max(lo, 1)
            st = absint.State()
            v, bs = self.number(st, "size+1", lo, hi, 32)
            sz = ("I", 32, L.addc(v[2], -1))
            r, c = self.content(st, sz)
            self.expect(st, self.form(lead, n, v, bs) + [L.const(BLOB)], [r, sz], c, "%d to %d bytes" % (lo - 1, hi - 1))

    def raw(self, _):
        st = absint.State()
        v = C.num(self.it, "size", 0, TOP)
        r, c = self.content(st, v)
        self.expect(st, [], [r, v], c, "bytes")

    def ext(self, ranges):
        for lo, hi, lead, n in ranges:
            st = absint.State()
            v, bs = self.number(st, "size", lo, hi, 32)
            t = C.num(self.it, "type", 0, 255, 8)
            self.expect(st, self.form(lead, n, v, bs) + [t[2]], [v, t], what="%d to %d bytes" % (lo, hi))

    def bufext(self, ranges):
        it = self.it
        for lo, hi, lead, n in ranges:
            st = absint.State()
            v, bs = self.number(st, "size", lo, hi, 32)
            t = C.num(it, "type", 0, 255, 8)
            cap = C.num(it, "capacity", 0, TOP)
            buf = C.region(it, st, "output", cap[2], "output")
            want = self.form(lead, n, v, bs) + [t[2]]
            d = dict(buffer=buf, at=L.ZERO, cap=cap[2])
            self.judge(st, None, d, False, [buf, cap, v, t], want, None, "%d to %d bytes" % (lo, hi))

    def size(self, how):
        it = self.it
        ranges, content, more = how
        for lo, hi, lead, n in ranges or [(0, 0, [], 0)]:
            st = absint.State()
            args = []
            want = L.const((1 if isinstance(lead, int) else len(lead) + n) + more)
            if ranges:
                v, _ = self.number(st, "value", lo, hi, absint.width(self.fn.args[0]["type"]))
                args = [v]
                if content:
                    want = L.add(want, v[2])
                    it.add_ge(st, L.addc(L.neg(want), TOP))
            for e, rv in self.call(st, args):
                self.cl.count("outcomes")
                if rv[0] != "I" or not it.entails_eq(e, L.sub(it.u(e, rv), want)):
                    self.fail(e, "size", "%d to %d: the size given is not the size of the encoded value" % (lo, hi))


KIND = dict(fixed=Run.fixed, bool=Run.bool, number=Run.numbers, real=Run.real, text=Run.text, bytes=Run.bytes, raw=Run.raw,
            ext=Run.ext, bufext=Run.bufext)


def run_op(name):
    r = Run(name)
    if name in PACK:
        k, how = PACK[name]
        KIND[k](r, how)
    else:
        r.size(SIZE[name])
    r.cl.count("operations")
    return r.cl


def check_pack(p, tier):
    res = Result()
    names = list(PACK) + list(SIZE)
    for n in names:
        p.need(n)
    for cl in parallel([(run_op, (n,)) for n in names]):
        res.add_client(cl)
    res.instances = names
    res.need("operations", len(names))
    res.need("cases", 160)
    res.need("outcomes", 200)
    res.need("output write", 10)
    res.assumptions = ["the buffer holds the stated number of bytes and the position lies inside it",
                       "without a buffer the counted total stays below 2^32",
                       "content and packer do not overlap the buffer"]
    return res
