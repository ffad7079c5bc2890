"""Base64 and hexadecimal text stand for exactly the bytes given."""
from .. import absint, contracts as C, lin as L
from ..harness import Result, parallel, program
from .storage import StoreClient

TOP = (1 << 32) - 1
B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
PAD = ord("=")
HEX = {c: int(chr(c), 16) for c in b"0123456789abcdefABCDEF"}
OPS = {"cf_b64_encode": ("encode", None), "cf_b64_decode": ("decode", False), "cf_b64_decode_in_place": ("decode", False),
       "cf_b64_validate_and_decode": ("decode", True), "cf_b64_validate_and_decode_in_place": ("decode", True),
       "cf_b64_encoded_len": ("encoded", None), "cf_b64_decoded_buf_size": ("decoded", None),
       "as_bytes_to_string": ("tohex", 0), "as_bytes_to_string_with_prefix": ("tohex", 2),
       "as_bytes_from_string": ("fromhex", None)}
BYTES = 7       # bytes encoded
GROUPS = 2      # groups of four characters decoded


class Run:
    def __init__(self, name):
        p = program()
        self.p = p
        self.name = name
        self.fn = p.need(name)
        self.cl = StoreClient(p, name)
        self.it = absint.Interp(p, self.cl, max_steps=2500000, max_states=4000, keep=4000)
        self.it.bitwise = self.it.each_way = True

    def fail(self, st, rule, msg):
        self.cl.report_at(rule, self.fn.file, self.fn.line, self.fn.name, "%s: %s" % (self.what, msg),
                          self.it.trace_lines(st))

    def call(self, st, args):
        self.cl.count("cases")
        for e, rv in self.it.call_fn(self.fn, args, st.copy()):
            if not self.it.add_ge(e.copy(), L.ZERO) or self.it.tables(e) is None:
                continue
            self.cl.count("outcomes")
            yield e, rv

    def bits(self, n):
        return [L.atom(self.it.mk_atom("bit#%d" % self.it.bump(), 0, 1)) for _ in range(n)]

    @staticmethod
    def number(bs):
        r = L.ZERO
        for k, b in enumerate(bs):
            r = L.add(r, L.scale(b, 1 << k))
        return r

    def at(self, e, o, k):
        x = self.it.load(e, None, None, ("P", o, L.const(k)), 1, "i8")
        return x[2] if x[0] == "I" else None

    def fixed(self, e, l):
        """The byte l stands for in e, or None."""
        l = self.it.tables(e, l)
        return None if l is None or self.it.const_of(e, ("I", 8, l)) is None else self.it.const_of(e, ("I", 8, l))

    def group_is(self, e, x, bs, table):
        """Byte x is table[value of the bits bs], for every value the bits can have in e."""
        it = self.it
        self.cl.count("characters compared")
        if x is None:
            return False
        for d in range(1 << len(bs)):
            s = e.copy()
            if all(it.add_eq(s, L.addc(b, -(d >> k & 1))) if b[1] else b[0] == d >> k & 1 for k, b in enumerate(bs)) and \
                    it.tables(s) is not None and self.fixed(s, x) not in table[d]:
                return False
        return True

    # -- base64
    def do_encode(self, _):
        it = self.it
        want = [(c,) for c in B64]
        for n in range(BYTES + 1):
            self.what = "%d bytes" % n
            st = absint.State()
            src = C.region(it, st, "source", L.const(n), "source")
            bs = []
            for k in range(n):
                b = self.bits(8)
                it.store(st, ("P", src[1], L.const(k)), 1, ("I", 8, self.number(b)))
                bs += reversed(b)
            size = (n + 2) // 3 * 4
            dst = C.region(it, st, "text", L.const(size), "text", "undef")
            for e, rv in self.call(st, [src, ("I", 32, L.const(n)), dst]):
                for k in range(size):
                    x = self.at(e, dst[1], k)
                    g = bs[6 * k:6 * k + 6]
                    if not g:
                        if x is None or self.fixed(e, x) != PAD:
                            self.fail(e, "padding", "character %d is not the padding" % k)
                            break
                        continue
                    g = list(reversed(g + [L.ZERO] * (6 - len(g))))
                    if not self.group_is(e, x, g, want):
                        self.fail(e, "text", "character %d does not stand for its six bits" % k)
                        break

        # any number of bytes: every access stays in its block
        it.bitwise = it.each_way = False
        for rest in range(3):
            self.what = "3k+%d bytes" % rest
            st = absint.State()
            k = L.atom(it.mk_atom("k#%d" % it.bump(), 0, TOP // 4 - 1))
            n = L.addc(L.scale(k, 3), rest)
            src = C.region(it, st, "source", n, "source")
            dst = C.region(it, st, "text", L.scale(L.addc(k, 1 if rest else 0), 4), "text", "undef")
            for e, rv in self.call(st, [src, ("I", 32, n), dst]):
                pass

    def do_encoded(self, _):
        it = self.it
        it.bitwise = False
        for rest in (0, 1, 2):
            self.what = "3k+%d bytes" % rest
            st = absint.State()
            k = L.atom(it.mk_atom("k#%d" % it.bump(), 0, (TOP // 4) - 1))
            n = L.addc(L.scale(k, 3), rest)
            for e, rv in self.call(st, [("I", 32, n)]):
                if not it.entails_eq(e, L.sub(it.u(e, rv), L.scale(L.addc(k, 1 if rest else 0), 4))):
                    self.fail(e, "size", "the size of the text is wrong")

    def do_decoded(self, _):
        it = self.it
        it.bitwise = False
        self.what = "4k characters"
        st = absint.State()
        k = L.atom(it.mk_atom("k#%d" % it.bump(), 0, TOP // 4))
        for e, rv in self.call(st, [("I", 32, L.scale(k, 4))]):
            if not it.entails(e, L.sub(it.u(e, rv), L.scale(k, 3))):
                self.fail(e, "size", "the size given can be too small for the decoded bytes")

    def do_decode(self, check):
        it = self.it
        place = self.name.endswith("in_place")
        lens = range(4 * GROUPS + 4 + 1) if check else range(0, 4 * GROUPS + 5, 4)
        for n in lens:
            for pads in range(3) if n and n % 4 == 0 else (0,):
                self.spread(self.decode_case, n, pads, check, place)
        if check and not place:
            self.what = "no text"
            st = absint.State()
            out = C.region(it, st, "bytes", L.const(3), "bytes", "undef")
            num = C.region(it, st, "count", L.const(4), None)
            for e, rv in self.call(st, [C.NULLP, ("I", 32, L.const(4)), out, num]):
                if self.truth(e, rv) is not False:
                    self.fail(e, "result", "does not fail")
        # any number of characters: every access stays in its block
        it.bitwise = it.each_way = False
        self.what = "4k characters"
        for counted in (True, False):
            st = absint.State()
            k = L.atom(it.mk_atom("k#%d" % it.bump(), 0, TOP // 4))
            src = C.region(it, st, "text", L.scale(k, 4), "text")
            dst = C.region(it, st, "bytes", L.scale(k, 3), "bytes", "undef")
            num = C.region(it, st, "count", L.const(4), None, "undef") if counted else C.NULLP
            for e, rv in self.call(st, [src, ("I", 32, L.scale(k, 4))] + ([] if place else [dst]) + [num]):
                if counted and not (check and self.truth(e, rv) is False):
                    x = it.load(e, None, None, num, 4, "i32")
                    if x[0] != "I" or not it.entails(e, L.sub(L.scale(k, 3), it.u(e, x))):
                        self.fail(e, "size", "the number of bytes can be larger than what was decoded")

    def truth(self, e, rv):
        if rv[0] == "B" and isinstance(rv[1], bool):
            return rv[1]
        c = self.it.const_of(e, rv if rv[0] == "I" else ("I", 8, self.it.lin_of(e, rv)))
        return None if c is None else bool(c)

    def decided(self, e, rv):
        t = self.truth(e, rv)
        if t is not None:
            return [(e, t)]
        out = []
        l = self.it.lin_of(e, rv)
        for t in (False, True):
            s = e.copy()
            if (self.it.add_ge(s, L.addc(l, -1)) if t else self.it.add_eq(s, l)) and self.it.tables(s) is not None:
                out.append((s, t))
        return out

    def spread(self, case, n, *args):
        """All characters unknown at once or, where the code tells too many cases apart, few at a time."""
        it = self.it
        top = it.max_steps
        it.max_steps = it.steps + 200000
        try:
            case(n, range(n), *args)
            return
        except absint.Budget:
            pass
        finally:
            it.max_steps = top
        for k in range(n):
            it.max_steps = it.steps + 2500000
            case(n, {k, n - 2, n - 1}, *args)

    def decode_case(self, n, unknown, pads, check, place):
        it = self.it
        self.what = "%d characters, %d padding" % (n, pads)
        st = absint.State()
        src = C.region(it, st, "text", L.const(n), "text")
        cs = []
        for k in range(n):
            if k < n - pads and k not in unknown:
                c = L.const(B64[(11 * k + 5) % 64])
            elif k < n - pads:
                c = L.atom(it.mk_atom("c%d#%d" % (k, it.bump()), 0, 255))
                if not check:
                    # the caller vouches for the characters
                    it.add_ge(st, L.addc(c, -43))
                    it.add_ge(st, L.addc(L.neg(c), 122))
            else:
                c = L.const(PAD)
            it.store(st, ("P", src[1], L.const(k)), 1, ("I", 8, c))
            cs.append(c)
        dst = src if place else C.region(it, st, "bytes", L.const((n + 3) // 4 * 3), "bytes", "undef")
        for counted in (True, False):
            s0 = st.copy()
            num = C.region(it, s0, "count", L.const(4), None, "undef") if counted else C.NULLP
            for e, rv in self.call(s0, [src, ("I", 32, L.const(n))] + ([] if place else [dst]) + [num]):
                for e, ok in self.decided(e, rv) if check else [(e, True)]:
                    self.decoded(e, ok, n, pads, check, cs, dst, num)

    def can(self, e, c, vals):
        """A value of c among vals that e allows, or None."""
        it = self.it
        lo, hi = it.range(e, c)
        for v in vals:
            if lo <= v <= hi:
                s = e.copy()
                if it.add_eq(s, L.addc(c, -v)) and it.tables(s) is not None and it.close(s):
                    return v
        return None

    def decoded(self, e, ok, n, pads, check, cs, dst, num):
        it = self.it
        open_ = cs[:n - pads]
        if check:
            if not ok:
                if n == 0 or n % 4:
                    return
                # some character must be out of place
                if all(self.can(e, c, B64) is not None for c in open_):
                    self.fail(e, "refused", "fails on well-formed text")
                return
            if n == 0 or n % 4:
                return self.fail(e, "accepted", "succeeds on text of a wrong length")
            bad = [v for v in range(256) if v not in B64]
            for k, c in enumerate(open_):
                # a last character may be padding, and the one before it then, too: cases of their own
                v = self.can(e, c, [v for v in bad if v != PAD or k < n - 2 or k == n - 2 and pads == 0])
                if v == PAD and k == n - 2:
                    s = e.copy()
                    it.add_eq(s, L.addc(c, -v))
                    if self.can(s, cs[n - 1], [w for w in range(256) if w != PAD]) is None:
                        continue
                if v is not None:
                    return self.fail(e, "accepted", "succeeds although character %d may be %r" % (k, chr(v)))
        # well-formed text: compare
        want = [(k,) for k in range(64)]
        size = n // 4 * 3 - pads
        e = e.copy()
        for c in (c for c in open_ if c[1]):
            if not (it.add_ge(e, L.addc(c, -43)) and it.add_ge(e, L.addc(L.neg(c), 122)) and it.add_ne(e, L.addc(c, -PAD))):
                return
        if any(self.can(e, c, B64) is None for c in open_):
            return
        if num != C.NULLP:
            x = it.load(e, None, None, num, 4, "i32")
            if x[0] != "I" or not it.entails_eq(e, L.addc(it.u(e, x), -size)):
                return self.fail(e, "size", "the number of bytes is wrong")
        for k in range(size):
            x = self.at(e, dst[1], k)
            if x is None or not self.byte_is(e, x, cs, k):
                return self.fail(e, "bytes", "byte %d does not stand for the bits of its characters" % k)

    def byte_is(self, e, x, cs, k):
        """x is made of the bits of two neighbouring characters: decided one character at a time when its bits
        are, else for all pairs."""
        it = self.it
        self.cl.count("bytes compared")
        i, sh = 8 * k // 6, 8 * k % 6
        a, b = cs[i], cs[i + 1]
        want = lambda p, q: (p << 6 | q) >> (4 - sh) & 255
        v = it.bitvec(e, x, 8)
        if v is not None:
            bits = []
            for t in v:
                if isinstance(t, int):
                    bits.append((None, t))
                    continue
                tb = it.tblbits.get(t[0])
                if tb is None or tb[1] not in (a, b) or tb[2] != 1:
                    bits = None
                    break
                bits.append((tb[1], t[0]))
            if bits is not None and self.by_bits(e, bits, a, want(63, 0), lambda d: want(d, 0)) and \
                    self.by_bits(e, bits, b, want(0, 63), lambda d: want(0, d)):
                return True
        for p, c in enumerate(B64):
            s = e.copy()
            if not it.add_eq(s, L.addc(a, -c)) or it.tables(s) is None:
                continue
            for q, d in enumerate(B64):
                t = s.copy()
                if it.add_eq(t, L.addc(b, -d)) and it.tables(t) is not None and self.fixed(t, x) != want(p, q):
                    return False
        return True

    def by_bits(self, e, bits, who, mask, want):
        """The bits in mask are those of the value of character who."""
        for d, c in enumerate(B64):
            for j, (o, t) in enumerate(bits):
                if not mask >> j & 1:
                    continue
                got = t if o is None else None
                if o == who:
                    data, _, _, k = self.it.tblbits[t]
                    got = data[c] >> k & 1 if c < len(data) else None
                if got != want(d) >> j & 1 and self.can(e, who, (c,)) is not None:
                    return False
        return True

    # -- hexadecimal
    def do_tohex(self, pre):
        it = self.it
        want = [(b"0123456789abcdef"[d], b"0123456789ABCDEF"[d]) for d in range(16)]
        for n in range(4):
            self.what = "%d bytes" % n
            for room in range(pre + 2 * n + 4):
                st = absint.State()
                src = C.region(it, st, "source", L.const(n), "source")
                bs = [self.bits(8) for _ in range(n)]
                for k, b in enumerate(bs):
                    it.store(st, ("P", src[1], L.const(k)), 1, ("I", 8, self.number(b)))
                dst = C.region(it, st, "text", L.const(room), "text", "undef")
                for e, rv in self.call(st, [src, ("I", 32, L.const(n)), dst, ("I", 32, L.const(room))]):
                    ok = self.truth(e, rv)
                    if ok != (room > pre + 2 * n):
                        self.fail(e, "result", "succeeds without room" if ok else "fails although there is room")
                        continue
                    if not ok:
                        if room and self.fixed(e, self.at(e, dst[1], 0) or L.const(1)) != 0:
                            self.fail(e, "text", "leaves text that does not end")
                        continue
                    if any(self.fixed(e, self.at(e, dst[1], k) or L.ZERO) != c for k, c in enumerate(b"0x"[:pre])):
                        self.fail(e, "text", "the prefix is wrong")
                    for k, b in enumerate(bs):
                        for h in (0, 1):
                            if not self.group_is(e, self.at(e, dst[1], pre + 2 * k + h), b[4 - 4 * h:8 - 4 * h], want):
                                self.fail(e, "text", "character %d is wrong" % (pre + 2 * k + h))
                    if self.fixed(e, self.at(e, dst[1], pre + 2 * n) or L.const(1)) != 0:
                        self.fail(e, "text", "the text does not end")

        # any number of bytes, any room: every access stays in its block
        it.bitwise = it.each_way = False
        self.what = "n bytes"
        st = absint.State()
        n, m = (L.atom(it.mk_atom("n#%d" % it.bump(), 0, TOP)) for _ in range(2))
        src = C.region(it, st, "source", n, "source")
        dst = C.region(it, st, "text", m, "text", "undef")
        for e, rv in self.call(st, [src, ("I", 32, n), dst, ("I", 32, m)]):
            ok = self.truth(e, rv)
            d = L.addc(L.sub(m, L.scale(n, 2)), -pre - 1)
            if ok is None or not it.entails(e, d if ok else L.addc(L.neg(d), -1)):
                self.fail(e, "result", "succeeds without room" if ok else "fails although there is room")

    def do_fromhex(self, _):
        it = self.it
        it.bitwise = False
        for pre in (b"", b"0x"):
            for n in range(6):
                for room in (n // 2, n // 2 + 2) + ((n // 2 - 1,) if n > 1 else ()):
                    self.what = "%s%d digits, room for %d bytes" % ("prefix and " if pre else "", n, room)
                    self.spread(self.hex_case, n, pre, room)

    def hex_case(self, n, unknown, pre, room):
        it = self.it
        st = absint.State()
        src = C.region(it, st, "text", L.const(len(pre) + n + 1), "text")
        cs = []
        for k in range(len(pre) + n + 1):
            if k < len(pre):
                c = L.const(pre[k])
            elif k < len(pre) + n:
                if k - len(pre) in unknown:
                    c = L.atom(it.mk_atom("c%d#%d" % (k, it.bump()), 1, 255))
                else:
                    c = L.const(b"a7F09c"[k % 6])
                cs.append(c)
            else:
                c = L.ZERO
            it.store(st, ("P", src[1], L.const(k)), 1, ("I", 8, c))
        if not pre and n > 1 and 1 in unknown:
            # without prefix: the second character is not an x
            it.add_ne(st, L.addc(cs[1], -ord("x")))
        dst = C.region(it, st, "bytes", L.const(room), "bytes", "undef")
        size = n // 2
        for e, rv in self.call(st, [dst, ("I", 32, L.const(room)), src]):
            r = it.const_of(e, rv)
            if r is None or r not in (size, TOP):
                self.fail(e, "result", "gives neither the number of bytes nor a failure")
                continue
            if r == TOP:
                if n % 2 == 0 and room >= size and all(self.can(e, c, HEX) is not None for c in cs):
                    self.fail(e, "refused", "fails on well-formed text")
                continue
            if n % 2 or room < size:
                self.fail(e, "accepted", "succeeds on text of odd length or without room")
                continue
            for k, c in enumerate(cs):
                v = self.can(e, c, [v for v in range(1, 256) if v not in HEX])
                if v is not None:
                    self.fail(e, "accepted", "succeeds although character %d may be %r" % (k, chr(v)))
                    break
            else:
                for k in range(size):
                    if not self.pair_is(e, self.at(e, dst[1], k), cs[2 * k], cs[2 * k + 1]):
                        self.fail(e, "bytes", "byte %d is wrong" % k)
                        break

    def pair_is(self, e, x, a, b):
        it = self.it
        self.cl.count("bytes compared")
        if x is None:
            return False
        for c, p in HEX.items():
            s = e.copy()
            if not it.add_eq(s, L.addc(a, -c)) or it.tables(s) is None:
                continue
            for d, q in HEX.items():
                t = s.copy()
                if it.add_eq(t, L.addc(b, -d)) and it.tables(t) is not None and self.fixed(t, x) != 16 * p + q:
                    return False
        return True


def run_op(name):
    r = Run(name)
    k, how = OPS[name]
    getattr(r, "do_" + k)(how)
    r.cl.count("operations")
    return r.cl


def check_codec(p, tier):
    res = Result()
    for cl in parallel([(run_op, (n,)) for n in OPS]):
        res.add_client(cl)
    res.instances = list(OPS)
    res.need("operations", len(OPS))
    res.need("cases", 60)
    res.need("outcomes", 100)
    res.need("characters compared", 40)
    res.need("bytes compared", 40)
    res.assumptions = ["up to %d bytes encoded, up to %d characters decoded; all characters and bytes unknown" %
                       (BYTES, 4 * GROUPS + 4),
                       "decoding without validation: characters are well-formed", "output buffers have the size the length functions give"]
    return res
