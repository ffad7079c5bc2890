"""Decoders give back exactly what the MessagePack form says."""
from .. import absint, contracts as C, lin as L
from ..absint import NULL
from ..harness import Result, field_off, parallel, program
from .storage import StoreClient

S = "as_unpacker"
TOP = (1 << 32) - 1
M64 = 1 << 64
NIL, BOOL, INT, DOUBLE, BLOB, LIST, MAP, EXT, BAD = "nil", "bool", "int", "double", "blob", "list", "map", "ext", "bad"
TYPES = {NIL: 1, BOOL: 2, INT: 3, LIST: 5, MAP: 6, DOUBLE: 10}
T_STRING, T_BYTES, T_GEO, T_EXT, T_WILD, T_INF = 4, 9, 11, 12, 13, 14


def shape(t):
    """(kind, bytes after the first that hold the number, sign or fixed value) for a first byte."""
    if t < 0x80:
        return INT, 0, t
    if t < 0x90:
        return MAP, 0, t - 0x80
    if t < 0xa0:
        return LIST, 0, t - 0x90
    if t < 0xc0:
        return BLOB, 0, t - 0xa0
    if t >= 0xe0:
        return INT, 0, t - 256
    return {0xc0: (NIL, 0, 0), 0xc2: (BOOL, 0, 0), 0xc3: (BOOL, 0, 1), 0xc4: (BLOB, 1, 0), 0xc5: (BLOB, 2, 0),
            0xc6: (BLOB, 4, 0), 0xc7: (EXT, 1, 0), 0xc8: (EXT, 2, 0), 0xc9: (EXT, 4, 0), 0xca: (DOUBLE, 4, 0),
            0xcb: (DOUBLE, 8, 0), 0xcc: (INT, 1, 0), 0xcd: (INT, 2, 0), 0xce: (INT, 4, 0), 0xcf: (INT, 8, 0),
            0xd0: (INT, 1, 1), 0xd1: (INT, 2, 1), 0xd2: (INT, 4, 1), 0xd3: (INT, 8, 1), 0xd4: (EXT, 0, 1),
            0xd5: (EXT, 0, 2), 0xd6: (EXT, 0, 4), 0xd7: (EXT, 0, 8), 0xd8: (EXT, 0, 16), 0xd9: (BLOB, 1, 0),
            0xda: (BLOB, 2, 0), 0xdb: (BLOB, 4, 0), 0xdc: (LIST, 2, 0), 0xdd: (LIST, 4, 0), 0xde: (MAP, 2, 0),
            0xdf: (MAP, 4, 0)}.get(t, (BAD, 0, 0))


# function -> (operation, reads a raw (buffer, size) pair)
OPS = {
    "as_unpack_nil": ("nil", False), "as_unpack_boolean": ("boolean", False), "as_unpack_uint64": ("integer", False),
    "as_unpack_int64": ("integer", False), "as_unpack_double": ("double", False), "as_unpack_str": ("slice", False),
    "as_unpack_bin": ("slice", False), "as_unpack_ext": ("ext", False), "as_unpack_blob_size": ("blobsize", False),
    "as_unpack_list_header_element_count": ("listcount", False), "as_unpack_map_header_element_count": ("mapcount", False),
    "as_unpack_buf_list_element_count": ("listcount", True), "as_unpack_buf_map_element_count": ("mapcount", True),
    "as_unpack_peek_type": ("peek", False), "as_unpack_buf_peek_type": ("peek", True),
    "as_unpack_peek_is_ext": ("isext", False), "as_unpack_size": ("size", False), "as_unpack_val": ("value", False),
}


class Run:
    def __init__(self, name):
        p = program()
        self.p = p
        self.fn = p.need(name)
        self.op, self.raw = OPS[name]
        self.cl = StoreClient(p, name)
        self.it = absint.Interp(p, self.cl, max_steps=2500000, max_states=300, keep=60)
        self.it.alloc_fails = False
        self.it.marks.add(-1)

    def fail(self, st, rule, msg):
        self.cl.report_at(rule, self.fn.file, self.fn.line, self.fn.name, "first byte 0x%02x: %s" % (self.t, msg),
                          self.it.trace_lines(st))

    def start(self, t):
        """Entry states: the input may end anywhere."""
        it = self.it
        self.t = t
        self.kind, self.n, self.sign = shape(t)
        st = absint.State()
        self.len = C.num(it, "length", 0, TOP)[2]
        if self.raw:
            self.at = L.ZERO
        else:
            self.at = C.num(it, "offset", 0, TOP)[2]
            it.add_ge(st, L.sub(self.len, self.at))
        self.buf = C.region(it, st, "input", self.len, "input")
        it.bytewise = {self.buf[1]}
        it.nulfree = {self.buf[1]}
        args = [self.buf, ("I", 32, self.len)]
        if not self.raw:
            self.pk = C.region(it, st, "unpacker", L.const(self.p.structs[S]["size"]), S)
            for f, v in (("buffer", self.buf), ("offset", ("I", 32, self.at)), ("length", ("I", 32, self.len))):
                C.put(it, st, self.pk[1], 0, S, f, v)
            args = [self.pk]
        self.left = L.sub(self.len, self.at)
        out = []
        whole = st.copy()
        if it.add_ge(whole, L.addc(self.left, -1)):
            it.store(whole, ("P", self.buf[1], self.at), 1, ("I", 8, L.const(t)))
            # names for the bytes that follow
            self.bytes = []
            for k in range(24):
                b = L.atom(it.mk_atom("input.%d#%d" % (k + 1, it.bump()), 0, 255))
                self.bytes.append(b)
            for enough in (True, False):
                s = whole.copy()
                ok = L.addc(self.left, -1 - self.n)
                if not it.add_ge(s, ok if enough else L.addc(L.neg(ok), -1)):
                    continue
                for k in range(self.n if enough else 0):
                    it.store(s, ("P", self.buf[1], L.addc(self.at, k + 1)), 1, ("I", 8, self.bytes[k]))
                out.append((s, enough))
        if it.add_ge(st, L.neg(self.left)):
            out.append((st, None))
        return out, args

    def num(self):
        """The unsigned number after the first byte."""
        r = L.ZERO
        for b in self.bytes[:self.n]:
            r = L.add(L.scale(r, 256), b)
        return r

    def pos(self, st):
        return C.fields(self.it, st, self.pk[1], 0, S, ["offset"])[0]

    def same(self, st, v, want, mod=M64):
        it = self.it
        if v is None or v[0] not in ("I", "B"):
            return False
        d = L.sub(it.lin_of(st, v), want)
        return any(it.entails_eq(st, L.addc(d, k * mod)) for k in (0, 1, -1))

    def advanced(self, st, n):
        if self.raw:
            return
        at = self.pos(st)
        if at is None or not self.it.entails_eq(st, L.sub(at, L.add(self.at, n))):
            self.fail(st, "advance", "the position does not advance by exactly the bytes of the value")

    def rc(self, st, rv):
        """True for success, False for failure, None when unknown."""
        c = self.it.const_of(st, rv)
        return None if c is None else c == 0

    def cases(self, st, signed_bytes):
        """Split on the sign of the number when it is signed."""
        it = self.it
        v = self.num()
        if not signed_bytes:
            return [(st, v)]
        out = []
        top = self.bytes[0]
        for neg in (False, True):
            s = st.copy()
            if it.add_ge(s, L.addc(top, -128) if neg else L.addc(L.neg(top), 127)):
                out.append((s, L.addc(v, -(1 << 8 * self.n)) if neg else v))
        return out

    def run(self):
        for t in range(256):
            kind, n, count = shape(t)
            if self.op in ("size", "value") and kind in (LIST, MAP) and (n or count or self.op == "value"):
                continue        # contents are decoded by recursion
            states, args = self.start(t)
            for st, whole in states:
                extra = []
                if self.op in ("boolean", "integer", "double", "slice", "value"):
                    n = dict(boolean=1, slice=4).get(self.op, 8)
                    self.dst = C.region(self.it, st, "result", L.const(n), None, "undef")
                    extra = [self.dst]
                elif self.op == "ext":
                    self.dst = C.region(self.it, st, "result", L.const(self.p.structs["as_msgpack_ext"]["size"]),
                                        "as_msgpack_ext", "undef")
                    extra = [self.dst]
                self.cl.count("cases")
                runs = [(st, None)]
                if self.op == "value" and self.kind == BLOB and whole:
                    # one byte of the content is followed
                    it, s = self.it, st.copy()
                    j = C.num(it, "place", 0, TOP)[2]
                    mark = L.atom(it.mk_atom("traced#%d" % it.bump(), 1, 255))
                    it.marks.add(mark[1][0][0])
                    if it.add_ge(s, L.addc(L.sub(self.size(), j), -2)) and \
                            it.add_ge(s, L.sub(L.addc(self.left, -1 - self.n), self.size())):
                        it.store(s, ("P", self.buf[1], L.add(L.addc(self.at, 2 + self.n), j)), 1, ("I", 8, mark))
                        runs.append((s, (j, mark)))
                for st, self.mark in runs:
                    for s, rv in self.it.call_fn(self.fn, args + extra, st):
                        self.cl.count("outcomes")
                        getattr(self, "do_" + self.op)(s, rv, whole)

    # Each judge: st, result, whole = True (first byte and number present), False (cut short), None (no input)
    def simple(self, st, rv, whole, kind, want):
        """Decoder of one kind with status result: does it succeed exactly when it should?"""
        ok = self.rc(st, rv)
        if ok is None:
            self.fail(st, "result", "cannot tell success from failure")
            return False
        good = whole and self.kind == kind
        if ok and not good:
            self.fail(st, "accepted", "succeeds although there is no complete %s" % want)
            return False
        if good and not ok:
            self.fail(st, "refused", "fails on a complete %s" % want)
            return False
        return good

    def do_nil(self, st, rv, whole):
        if self.simple(st, rv, whole, NIL, "nil"):
            self.advanced(st, L.const(1))

    def do_boolean(self, st, rv, whole):
        if self.simple(st, rv, whole, BOOL, "boolean"):
            self.advanced(st, L.const(1))
            v = self.it.load(st, None, None, self.dst, 1, "i8")
            if not self.same(st, v, L.const(self.sign)):
                self.fail(st, "value", "gives the wrong boolean")

    def do_integer(self, st, rv, whole):
        if self.simple(st, rv, whole, INT, "integer"):
            self.advanced(st, L.const(1 + self.n))
            v = self.it.load(st, None, None, self.dst, 8, "i64")
            self.integer(st, v)

    def integer(self, st, v):
        if not self.n:
            if not self.same(st, v, L.const(self.sign)):
                self.fail(st, "value", "gives the wrong number")
            return
        for s, want in self.cases(st, self.sign):
            if not self.same(s, v, want):
                self.fail(s, "value", "gives a number other than the one written")

    def do_double(self, st, rv, whole):
        if self.simple(st, rv, whole, DOUBLE, "floating point number"):
            self.advanced(st, L.const(1 + self.n))
            self.real(st, self.it.load(st, None, None, self.dst, 8, "double"))

    def real(self, st, v):
        bits = None
        if self.n == 4 and v[0] == "D" and v[1][0] == "fpext":
            bits = self.it.retype(st, v[1][-1], "i32", 4) if v[1][-1][0] == "D" and v[1][-1][1][0] == "as" else None
        elif self.n == 8:
            bits = self.it.retype(st, v, "i64", 8)
        if bits is None or not self.same(st, bits, self.num(), 1 << 8 * self.n):
            self.fail(st, "value", "gives a floating point number other than the one written")

    def fits(self, st, n):
        """Split a state on whether n more bytes follow the header."""
        it = self.it
        rest = L.sub(L.addc(self.left, -1 - self.n), n)
        out = []
        for ok in (True, False):
            s = st.copy()
            if it.add_ge(s, rest if ok else L.addc(L.neg(rest), -1)):
                out.append((s, ok))
        return out

    def size(self):
        return self.num() if self.n else L.const(self.sign)

    def do_slice(self, st, rv, whole):
        it = self.it
        good = whole and self.kind == BLOB
        none = rv[0] == "P" and (rv[1] == NULL or it.nullness(st, rv[1]) is False)
        if not good:
            if not none:
                self.fail(st, "accepted", "succeeds although there is no complete text")
            return
        for s, ok in self.fits(st, self.size()):
            if not ok:
                if not none:
                    self.fail(s, "accepted", "succeeds although the text is cut short")
            elif none:
                self.fail(s, "refused", "fails on a complete text")
            else:
                if rv[1] != self.buf[1] or not it.entails_eq(s, L.sub(rv[2], L.addc(self.at, 1 + self.n))):
                    self.fail(s, "value", "does not point at the content")
                v = it.load(s, None, None, self.dst, 4, "i32")
                if not self.same(s, v, self.size(), 1 << 32):
                    self.fail(s, "value", "gives the wrong length")
                self.advanced(s, L.addc(self.size(), 1 + self.n))

    def do_ext(self, st, rv, whole):
        it = self.it
        good = whole and self.kind == EXT
        ok = self.rc(st, rv)
        if ok is None:
            return self.fail(st, "result", "cannot tell success from failure")
        if not good:
            if ok:
                self.fail(st, "accepted", "succeeds although there is no complete extension")
            return
        for s, fit in self.fits(st, L.addc(self.size(), 1)):
            if ok and not fit:
                self.fail(s, "accepted", "succeeds although the extension is cut short")
            elif fit and not ok:
                self.fail(s, "refused", "fails on a complete extension")
            elif ok:
                o = self.dst[1]
                p = C.get(it, s, o, 0, "as_msgpack_ext", "data", True)
                head = L.addc(self.at, 1 + self.n)
                if p[0] != "P" or p[1] != self.buf[1] or not it.entails_eq(s, L.sub(p[2], L.addc(head, 1))):
                    self.fail(s, "value", "does not point at the content")
                n, t, to = [C.get(it, s, o, 0, "as_msgpack_ext", f) for f in ("size", "type", "type_offset")]
                if not self.same(s, n, self.size(), 1 << 32):
                    self.fail(s, "value", "gives the wrong size")
                want = it.load(s, None, None, ("P", self.buf[1], head), 1, "i8")
                if not self.same(s, t, it.u(s, want), 256):
                    self.fail(s, "value", "gives the wrong extension type")
                if not self.same(s, to, head, 1 << 32):
                    self.fail(s, "value", "gives the wrong place of the extension type")
                self.advanced(s, L.addc(self.size(), 2 + self.n))

    def counted(self, st, rv, whole, kind, want):
        it = self.it
        good = whole and self.kind == kind
        if rv[0] != "I":
            return self.fail(st, "result", "gives no number")
        if not good:
            if not it.entails(st, L.addc(L.neg(it.s(st, rv)), -1)):
                self.fail(st, "accepted", "succeeds although there is no complete %s header" % want)
            return
        if not self.same(st, rv, self.size()):
            self.fail(st, "value", "gives a size other than the one written")
        self.advanced(st, L.const(1 + self.n))

    def do_blobsize(self, st, rv, whole):
        self.counted(st, rv, whole, BLOB, "text")

    def do_listcount(self, st, rv, whole):
        self.counted(st, rv, whole, LIST, "list")

    def do_mapcount(self, st, rv, whole):
        self.counted(st, rv, whole, MAP, "map")

    def do_isext(self, st, rv, whole):
        it = self.it
        want = whole is not None and self.kind == EXT
        self.advanced(st, L.ZERO)
        l = it.lin_of(st, rv)
        if not it.entails_eq(st, L.addc(l, -int(want))):
            self.fail(st, "value", "tells wrongly whether an extension follows")

    def do_peek(self, st, rv, whole):
        it = self.it
        self.advanced(st, L.ZERO)
        c = it.const_of(st, rv)
        if c is None:
            return self.fail(st, "result", "gives no definite type")
        if whole is None or self.kind == BAD:
            if c != 0:
                self.fail(st, "value", "names a type although nothing valid follows")
            return
        if self.kind in TYPES:
            if c != TYPES[self.kind]:
                self.fail(st, "value", "names the wrong type")
            return
        if not whole:
            return
        if self.kind == EXT:
            if self.t != 0xd4:
                if c != T_EXT:
                    self.fail(st, "value", "names the wrong type")
                return
            for s, ok in self.fits(st, L.const(2)):
                if ok:
                    a, b = [it.load(s, None, None, ("P", self.buf[1], L.addc(self.at, k)), 1, "i8") for k in (1, 2)]
                    a, b = it.u(s, a), it.u(s, b)
                    special = {T_WILD: (255, 0), T_INF: (255, 1)}.get(c)
                    if special:
                        if not (it.entails_eq(s, L.addc(a, -special[0])) and it.entails_eq(s, L.addc(b, -special[1]))):
                            self.fail(s, "value", "names the wrong type")
                    else:
                        for x, y in ((255, 0), (255, 1)):
                            q = s.copy()
                            if c != T_EXT or it.add_eq(q, L.addc(a, -x)) and it.add_eq(q, L.addc(b, -y)):
                                self.fail(s, "value", "names the wrong type")
            return
        # text: the first byte of the content tells what it is
        none = st.copy()
        if it.add_eq(none, self.size()) and c != T_BYTES:
            self.fail(none, "value", "names the wrong type for empty text")
        for s, ok in self.fits(st, L.const(1)):
            if not ok:
                continue
            if not it.add_ge(s, L.addc(self.size(), -1)):
                continue
            a = it.u(s, it.load(s, None, None, ("P", self.buf[1], L.addc(self.at, 1 + self.n)), 1, "i8"))
            for byte, want in ((3, T_STRING), (23, T_GEO), (None, T_BYTES)):
                q = s.copy()
                if byte is None:
                    if not (it.add_ne(q, L.addc(a, -3)) and it.add_ne(q, L.addc(a, -23))):
                        continue
                elif not it.add_eq(q, L.addc(a, -byte)):
                    continue
                if c != want:
                    self.fail(q, "value", "names the wrong type")

    def do_size(self, st, rv, whole):
        it = self.it
        if rv[0] != "I":
            return self.fail(st, "result", "gives no number")
        neg = it.entails(st, L.addc(L.neg(it.s(st, rv)), -1))
        if not whole or self.kind == BAD:
            if not neg:
                self.fail(st, "accepted", "gives a size although there is no complete value")
            return
        if self.kind in (LIST, MAP):
            if self.n or self.sign:
                return
            more = L.ZERO
        elif self.kind == EXT:
            more = L.addc(self.size(), 1)
        elif self.kind == BLOB:
            more = self.size()
        else:
            more = L.ZERO
        for s, ok in self.fits(st, more):
            if not ok:
                if not neg:
                    self.fail(s, "accepted", "gives a size although the value is cut short")
            else:
                if not self.same(s, rv, L.addc(more, 1 + self.n)):
                    self.fail(s, "value", "gives a size other than that of the value")
                self.advanced(s, L.addc(more, 1 + self.n))

    def do_value(self, st, rv, whole):
        it = self.it
        ok = self.rc(st, rv)
        if ok is None:
            return self.fail(st, "result", "cannot tell success from failure")
        if not whole or self.kind == BAD:
            if ok:
                self.fail(st, "accepted", "succeeds although there is no complete value")
            return
        if self.kind in (BLOB, EXT):
            return self.sized_value(st, ok)
        if self.kind in (NIL, BOOL, INT, DOUBLE):
            if not ok:
                return self.fail(st, "refused", "fails on a complete value")
            self.advanced(st, L.const(1 + self.n))
            v = it.load(st, None, None, self.dst, 8, "ptr")
            self.created(st, v, TYPES[self.kind])
            if v[0] != "P" or self.kind == NIL:
                return
            S2 = {BOOL: "as_boolean", INT: "as_integer", DOUBLE: "as_double"}[self.kind]
            off, size = field_off(it.p, S2, "value")
            x = it.load(st, None, None, ("P", v[1], L.addc(v[2], off)), size, "double" if self.kind == DOUBLE else "i%d" % (8 * size))
            if self.kind == BOOL:
                if not self.same(st, x, L.const(self.sign)):
                    self.fail(st, "value", "gives the wrong boolean")
            elif self.kind == INT:
                self.integer(st, x)
            else:
                self.real(st, x)

    def sized_value(self, st, ok):
        it = self.it
        n = self.size() if self.kind == BLOB else L.addc(self.size(), 1)
        for s, fit in self.fits(st, n):
            if not fit:
                if ok:
                    self.fail(s, "accepted", "succeeds although the value is cut short")
                continue
            if not ok:
                self.fail(s, "refused", "fails on a complete value")
                continue
            self.advanced(s, L.addc(n, 1 + self.n))
            v = it.load(s, None, None, self.dst, 8, "ptr")
            if self.kind == EXT:
                if not (v[0] == "P" and (v[1] == NULL or it.nullness(s, v[1]) is False)):
                    self.fail(s, "value", "gives a value for an extension")
                continue
            for q, t, want in self.text_kinds(s):
                self.cl.count("texts decoded")
                self.created(q, v, want)
                if v[0] != "P":
                    continue
                if want == T_BYTES:
                    self.bytes_value(q, v, n, t)
                else:
                    self.text_value(q, v, n, "as_string" if want == T_STRING else "as_geojson")

    def text_kinds(self, st):
        """(state, form of the leading type byte, type of the value)"""
        it = self.it
        none, some = st.copy(), st.copy()
        if it.add_eq(none, self.size()):
            yield none, L.ZERO, T_BYTES
        if not it.add_ge(some, L.addc(self.size(), -1)):
            return
        a = it.u(some, it.load(some, None, None, ("P", self.buf[1], L.addc(self.at, 1 + self.n)), 1, "i8"))
        for byte, want in ((3, T_STRING), (23, T_GEO), (None, T_BYTES)):
            q = some.copy()
            if it.add_ne(q, L.addc(a, -3)) and it.add_ne(q, L.addc(a, -23)) if byte is None else it.add_eq(q, L.addc(a, -byte)):
                yield q, a, want

    def bytes_value(self, st, v, n, t):
        it = self.it
        size, kind = [C.get(it, st, v[1], v[2], "as_bytes", f) for f in ("size", "type")]
        empty = it.entails_eq(st, n)
        if not self.same(st, size, L.ZERO if empty else L.addc(n, -1), 1 << 32):
            self.fail(st, "value", "gives bytes of the wrong size")
        if not self.same(st, kind, t, 1 << 32):
            self.fail(st, "value", "gives bytes of the wrong kind")
        if not empty:
            self.content(st, C.get(it, st, v[1], v[2], "as_bytes", "value", True), n)

    def content(self, st, p, n):
        it = self.it
        if not self.mark:
            return
        j, mark = self.mark
        q = st.copy()
        if not it.add_ge(q, L.addc(L.sub(L.addc(n, -1), j), -1)):
            return
        x = it.load(q, None, None, ("P", p[1], L.add(p[2], j)), 1, "i8") if p[0] == "P" and p[1] != NULL else C.NULLP
        self.cl.count("traced bytes")
        if x[0] != "I" or x[2] != mark:
            self.fail(q, "content", "a byte of the content is not in its place")

    def text_value(self, st, v, n, S):
        """The content holds no zero byte: the text is all of it."""
        it = self.it
        p = C.get(it, st, v[1], v[2], S, "value", True)
        if p[0] != "P" or p[1] == NULL:
            return self.fail(st, "value", "gives text without characters")
        end = it.load(st, None, None, ("P", p[1], L.add(p[2], L.addc(n, -1))), 1, "i8")
        self.cl.count("texts ended")
        if it.const_of(st, end) != 0:
            self.fail(st, "value", "the text does not end after its last character")
        size = C.get(it, st, v[1], v[2], S, "len")
        if not self.same(st, size, L.const(M64 - 1)) and not self.same(st, size, L.addc(n, -1)):
            self.fail(st, "value", "gives text of the wrong length")
        self.content(st, p, n)

    def created(self, st, v, want):
        it = self.it
        if v[0] != "P" or v[1] == NULL:
            return self.fail(st, "value", "succeeds without giving a value")
        off, size = field_off(it.p, "as_val", "type")
        t = it.load(st, None, None, ("P", v[1], L.addc(v[2], off)), size, "i%d" % (8 * size))
        if it.const_of(st, t) != want:
            self.fail(st, "value", "gives a value of the wrong type")


def run_op(name):
    r = Run(name)
    r.run()
    r.cl.count("operations")
    return r.cl


def check_unpack(p, tier):
    res = Result()
    for n in OPS:
        p.need(n)
    for cl in parallel([(run_op, (n,)) for n in OPS]):
        res.add_client(cl)
    res.instances = list(OPS)
    res.need("operations", len(OPS))
    res.need("cases", 9000)
    res.need("outcomes", 9500)
    res.need("traced bytes", 80)
    res.need("texts ended", 60)
    res.assumptions = ["the input holds the stated number of bytes and the position lies inside it",
                       "memory allocation succeeds", "text has no zero byte inside"]
    return res
