"""Packing a value appends its MessagePack form to the packer's chain of buffers."""
from .. import absint, contracts as C, libmodel, lin as L
from ..absint import NULL
from ..harness import Result, parallel, program
from .storage import OPAQUE
from . import encode, lists, maps
from .encode import INT, LIST, MAP, S, STR, TOP
from .lists import Refs, same

FN = "as_pack_val"
NODE = "as_packer_buffer"
KINDS = ["fixed", "bool", "integer", "double", "as_string", "as_geojson", "as_bytes", "pair", "none"] + \
    [("list", r, few) for r in range(len(LIST)) for few in (0, 1, 2)] + \
    [("map", r, few, ordered) for r in (0, 1) for few in (0, 1, 2) for ordered in (0, 1)]
SIZEMAX = (1 << 64) - 1


class Packed(Refs):
    """Nested values: seen once, in order, with the same packer, none after a failure."""
    pk = None

    def on_call(self, it, st, fr, I, name, args):
        if name == FN:
            self.site("nested value", fr, I)
            if not it.quiet:
                if not same(args[0], self.pk):
                    self.report(it, st, fr, I, "nested", "packs a member with another packer")
                if st.cl.get("stop"):
                    self.report(it, st, fr, I, "nested", "goes on packing after a member failed")
                if not st.cl.get("header"):
                    self.header(st)
            st.cl["header"] = True
            v = args[1]
            for k, o in enumerate(self.order):
                if same(v, o):
                    if not it.quiet and st.cl.get(("seen", o)):
                        self.report(it, st, fr, I, "nested", "packs a member twice")
                    for o2 in self.order[k + 1:]:
                        if st.cl.get(("seen", o2)) and not it.quiet:
                            self.report(it, st, fr, I, "nested", "packs a later member before an earlier one")
                    st.cl[("seen", o)] = 1
            for f, g in self.pairs:
                # a value follows its key at once
                if not it.quiet and st.cl.get(("due", g)) and not same(v, g):
                    self.report(it, st, fr, I, "nested", "packs something between a key and its value")
                st.cl.pop(("due", g), None)
                if same(v, f):
                    st.cl[("due", g)] = 1
            out = []
            for rc in (0, -2, 1):
                c = st.copy()
                if rc:
                    c.cl["stop"] = True
                out.append((c, ("I", absint.width(I["t"]), L.const(rc))))
            return out
        return super().on_call(it, st, fr, I, name, args)
    pairs = ()

    def on_fnptr(self, it, st, fr, I, target, args):
        return None

    def on_event(self, it, st, fr, I, what, d):
        if what == "allocfail":
            st.cl["nomem"] = True
        super().on_event(it, st, fr, I, what, d)


class Run(encode.Run):
    def __init__(self, kind):
        p = program()
        self.p = p
        self.fn = p.need(FN)
        self.kind = kind
        self.cl = Packed(p, FN, OPAQUE)
        self.cl.header = self.at_member
        self.it = absint.Interp(p, self.cl, max_steps=2500000, max_states=400, keep=60)
        self.it.marks.add(-1)
        self.it.bytewise.add(-1)

    # -- entry
    def packers(self, st):
        """(state, packer, facts about it): with and without a buffer, with and without saved buffers."""
        it = self.it
        for null, saved in ((False, False), (False, True), (True, False)):
            s = st.copy()
            o = C.region(it, s, "packer", L.const(self.p.structs[S]["size"]), S)
            at = C.num(it, "offset", 0, TOP)
            cap = C.num(it, "capacity", 0, TOP)
            head = tail = buf = C.NULLP
            if not null:
                it.add_ge(s, L.sub(cap[2], at[2]))
                buf = C.owned(it, s, "output", cap[2])
            if saved:
                head = C.owned(it, s, "first saved", L.const(self.p.structs[NODE]["size"]))
                tail = C.owned(it, s, "last saved", L.const(self.p.structs[NODE]["size"]))
                C.put(it, s, tail[1], 0, NODE, "next", C.NULLP)
            for f, v in (("buffer", buf), ("offset", at), ("capacity", cap), ("head", head), ("tail", tail)):
                C.put(it, s, o[1], 0, S, f, v)
            yield s, o, dict(buffer=buf, head=head, tail=tail, at=at[2], cap=cap[2], null=null)

    def expect(self, st, want, args, content=None, what=""):
        it = self.it
        n = L.const(len(want))
        if content:
            n = L.add(n, content[1])
        for s, pk, d in self.packers(st):
            if d["null"]:
                it.add_ge(s, L.addc(L.neg(L.add(d["at"], n)), TOP))
            runs = [(s, None)]
            if content and not d["null"]:
                j = C.num(it, "place", 0, TOP)[2]
                mark = L.atom(it.mk_atom("traced#%d" % it.bump(), 1, 255))
                it.marks.add(mark[1][0][0])
                t = s.copy()
                if it.add_ge(t, L.addc(L.sub(content[1], j), -1)):
                    it.store(t, ("P", content[0], j), 1, ("I", 8, mark))
                    runs.append((t, (j, mark)))
            for s, trace in runs:
                self.now = (pk, d, want, n, trace, what)
                self.cl.pk = pk[1]
                for e, rv in self.call(s, [pk] + args):
                    self.outcome(e, rv)

    # -- exit
    def segments(self, e, pk, d):
        """Output since entry: [(block, from, to)], or None after reporting."""
        it = self.it
        what = self.now[5]

        def bad(msg):
            self.fail(e, "buffer", "%s: %s" % (what, msg))
        buf, head, tail = [C.get(it, e, pk[1], 0, S, f, True) for f in ("buffer", "head", "tail")]
        at, cap = C.fields(it, e, pk[1], 0, S, ["offset", "capacity"])
        if at is None or cap is None or "P" != buf[0] or "P" != head[0] or "P" != tail[0]:
            return bad("the packer's state is lost")
        if d["null"]:
            if not lists_null(it, e, buf) or head != d["head"] or tail != d["tail"]:
                return bad("a packer that only counts gets a buffer")
            return []
        had = d["tail"][1] != NULL
        if had and head != d["head"]:
            return bad("loses the buffers saved before")
        node = C.get(it, e, d["tail"][1], 0, NODE, "next", True) if had else head
        out, last, owns = [], d["tail"], []
        while not lists_null(it, e, node):
            if node[0] != "P" or node[2] != L.ZERO or e.heap.get(node[1]) != "live" or len(out) > 8:
                return bad("the chain of saved buffers is broken")
            b = C.get(it, e, node[1], 0, NODE, "buffer", True)
            m = C.fields(it, e, node[1], 0, NODE, ["length"])[0]
            if b[0] != "P" or m is None:
                return bad("a saved buffer has no content or length")
            owns += [node[1], b[1]]
            out.append((b[1], L.ZERO, m))
            last = node
            node = C.get(it, e, node[1], 0, NODE, "next", True)
        if tail != last:
            return bad("the last saved buffer is not remembered")
        out.append((buf[1], L.ZERO, at))
        owns.append(buf[1])
        if out[0][0] != d["buffer"][1]:
            return bad("what was packed before is lost")
        out[0] = (out[0][0], d["at"], out[0][2])
        if len(set(owns)) != len(owns):
            return bad("a buffer is saved twice")
        for o in owns:
            if e.heap.get(o) != "live":
                return bad("a buffer in use is freed or missing")
        for o, x in e.heap.items():
            if x == "live" and o not in owns and it.nullness(e, o) is not False and it.objs[o].extra[0] != "entry":
                return bad("memory is lost")
        size = it.objs[buf[1]].size
        if not it.entails_eq(e, L.sub(size, cap)) and not it.entails(e, L.sub(size, cap)):
            return bad("the capacity is larger than the buffer")
        for o, lo, hi in out:
            if not it.entails(e, L.sub(it.objs[o].size, hi)):
                return bad("more is counted than a buffer holds")
        return out

    def outcome(self, e, rv):
        it = self.it
        pk, d, want, n, trace, what = self.now
        self.cl.count("outcomes")
        rc = it.icmp(e, "eq", "i32", rv, ("I", 32, L.ZERO))
        ok = it.decide(e, rc)
        if ok is None:
            return self.fail(e, "result", "%s: cannot tell success from failure" % what)
        segs = self.segments(e, pk, d)
        if segs is None:
            return
        if not ok:
            if not (maps.nomem(it, e) or e.cl.get("stop") or want is NOTHING):
                self.fail(e, "refused", "%s: fails although there is memory" % what)
            return
        if e.cl.get("stop"):
            return self.fail(e, "nested", "%s: succeeds although a member failed" % what)
        if want is NOTHING:
            return self.fail(e, "accepted", "%s: succeeds" % what)
        for o in self.cl.order:
            if not e.cl.get(("seen", o)):
                self.fail(e, "nested", "%s: leaves a member out" % what)
        for _, g in self.cl.pairs:
            if e.cl.get(("due", g)):
                self.fail(e, "nested", "%s: a key without its value" % what)
        self.complete(e, segs)

    def complete(self, e, segs):
        it = self.it
        pk, d, want, n, trace, what = self.now
        if d["null"]:
            at = C.fields(it, e, pk[1], 0, S, ["offset"])[0]
            if not it.entails_eq(e, L.sub(at, L.add(d["at"], n))):
                self.fail(e, "advance", "%s: the position does not advance by the size of the value" % what)
            return
        total = L.ZERO
        for o, lo, hi in segs:
            total = L.add(total, L.sub(hi, lo))
        if not it.entails_eq(e, L.sub(total, n)):
            return self.fail(e, "advance", "%s: the output does not grow by the size of the value" % what)
        self.cl.count("forms compared")
        for k, b in enumerate(want):
            x = self.byte(e, segs, L.const(k))
            if x is None or not it.entails_eq(e, L.sub(it.u(e, x), b)):
                return self.fail(e, "bytes", "%s: byte %d of the value is not as the format requires (%s instead of %s)" % (
                    what, k, it.show(it.u(e, x)) if x else "unknown", it.show(b)))
        if trace:
            j, mark = trace
            self.cl.count("traced bytes")
            x = self.byte(e, segs, L.addc(j, len(want)))
            if x is None or x[2] != mark:
                self.fail(e, "content", "%s: a byte of the content is not in its place" % what)

    def byte(self, e, segs, at):
        """The byte at a place of the output since entry."""
        it = self.it
        for o, lo, hi in segs:
            p = L.add(lo, at)
            if it.entails(e, L.addc(L.sub(hi, p), -1)):
                x = it.load(e, None, None, ("P", o, p), 1, "i8")
                return x if x[0] == "I" else None
            if not it.entails(e, L.sub(p, hi)):
                return None
            at = L.sub(at, L.sub(hi, lo))
        return None

    def at_member(self, st):
        """Before the first member the header must be complete."""
        pk, d, want, n, trace, what = self.now
        e = st.copy()
        self.cl.count("headers compared")
        segs = self.segments(e, pk, d)
        if segs is not None:
            self.complete(e, segs)

    # -- values
    def value(self, st, T, ty):
        v = C.region(self.it, st, "value", L.const(self.p.structs[T]["size"]), T)
        C.put(self.it, st, v[1], 0, "as_val", "type", ty)
        return v

    def do_fixed(self):
        for ty, want in ((1, [0xc0]), (13, [0xd4, 255, 0]), (14, [0xd4, 255, 1])):
            st = absint.State()
            v = self.value(st, "as_val", ty)
            self.expect(st, [L.const(x) for x in want], [v], what="constant of type %d" % ty)

    def do_bool(self):
        for b in (0, 1):
            st = absint.State()
            v = self.value(st, "as_boolean", 2)
            C.put(self.it, st, v[1], 0, "as_boolean", "value", b)
            self.expect(st, [L.const(0xc2 + b)], [v], what="true" if b else "false")

    def do_integer(self):
        for lo, hi, lead, n in INT:
            st = absint.State()
            v = self.value(st, "as_integer", 3)
            x, bs = self.number(st, "value", lo, hi, 64)
            C.put(self.it, st, v[1], 0, "as_integer", "value", x)
            self.expect(st, self.form(lead, n, x, bs), [v], what="%d to %d" % (lo, hi))

    def do_double(self):
        it = self.it
        st = absint.State()
        v = self.value(st, "as_double", 10)
        x = ("D", ("arg", "value"))
        C.put(it, st, v[1], 0, "as_double", "value", x)
        bs = it.byte_atoms(st, it.retype(st, x, "i64", 8)[2], 8)
        self.expect(st, [L.const(0xcb)] + list(reversed(bs)), [v], what="floating point number")

    def do_text(self, T, ty, tag):
        it = self.it
        for lo, hi, lead, n in STR:
            lo = max(lo, 1)
            for known in (True, False):
                st = absint.State()
                v = self.value(st, T, ty)
                x, bs = self.number(st, "length+1", lo, hi, 32)
                m = L.addc(x[2], -1)
                r = C.region(it, st, "text", x[2], "text")
                it.nulfree = {r[1]}
                C.put(it, st, v[1], 0, T, "value", r)
                C.put(it, st, v[1], 0, T, "len", ("I", 64, m) if known else ("I", 64, L.const(SIZEMAX)))
                it.textlen = {r[1]: m}
                self.expect(st, self.form(lead, n, x, bs) + [L.const(tag)], [v], (r[1], m),
                            "text of %d to %d bytes" % (lo - 1, hi - 1))

    def do_as_string(self):
        self.do_text("as_string", 4, 3)

    def do_as_geojson(self):
        self.do_text("as_geojson", 11, 23)

    def do_as_bytes(self):
        it = self.it
        for lo, hi, lead, n in STR:
            lo = max(lo, 1)
            st = absint.State()
            v = self.value(st, "as_bytes", 9)
            x, bs = self.number(st, "size+1", lo, hi, 32)
            m = L.addc(x[2], -1)
            r = C.region(it, st, "content", m, "content")
            t = C.num(it, "kind", 0, 255)
            for f, y in (("value", r), ("size", ("I", 32, m)), ("capacity", ("I", 32, m)), ("type", t)):
                C.put(it, st, v[1], 0, "as_bytes", f, y)
            self.expect(st, self.form(lead, n, x, bs) + [t[2]], [v], (r[1], m), "%d to %d bytes" % (lo - 1, hi - 1))

    def do_none(self):
        st = absint.State()
        self.expect(st, NOTHING, [C.NULLP], what="no value")
        for ty in (0, 7, 12, 15):
            st = absint.State()
            self.expect(st, NOTHING, [self.value(st, "as_val", ty)], what="a value without packed form")

    def do_pair(self):
        it = self.it
        st = absint.State()
        v = self.value(st, "as_pair", 8)
        ms = [lists.traced(it, st, "member") for _ in range(2)]
        for f, o in zip(("_1", "_2"), ms):
            C.put(it, st, v[1], 0, "as_pair", f, ("P", o, L.ZERO))
        self.cl.order = tuple(ms)
        self.expect(st, [L.const(0x92)], [v], what="pair")

    def do_list(self, r, few):
        it = self.it
        hooks = lists.table(it, "as_arraylist_init", lambda st: [("I", 32, L.ZERO)] * 2, "as_list")
        lo, hi, lead, n = LIST[r]
        hi = min(hi, lists.HALF)
        for s, info in self.made(lists.make, "as_arraylist", 5, hooks, "as_list"):
            x, bs = self.number(s, "size", lo, hi, 32)
            if it.add_eq(s, L.sub(info["n"], x[2])) and self.lay(s, info, few, lists.lay):
                C.put(it, s, info["val"][1], 0, "as_arraylist", "size", x)
                self.expect(s, self.form(lead, n, x, bs), [info["val"]], what="list of %d to %d values" % (lo, hi))

    def do_map(self, r, few, ordered):
        it = self.it
        hooks = lists.table(it, "as_orderedmap_init", lambda st: [("I", 32, L.ZERO)], "as_map")
        lo, hi, lead, n = MAP[r]
        hi = min(hi, maps.MOST)
        s, info = self.made(lambda it, st, o, _: maps.make(it, st, o), "as_orderedmap", 6, hooks, "as_map")[0]
        flags = L.addc(L.atom(it.mk_atom("order", 0, 126), 2), 1) if ordered else L.ZERO
        C.put(it, s, info["val"][1], 0, "as_map", "flags", ("I", 32, flags))
        x, bs = self.number(s, "size", max(lo, ordered), hi, 32)
        n0 = L.addc(x[2], -ordered)
        if it.add_eq(s, L.sub(info["n"], n0)) and self.lay(s, info, few, maps.lay):
            C.put(it, s, info["val"][1], 0, "as_orderedmap", "count", ("I", 32, n0))
            more = [L.const(0xc7), L.ZERO, flags, L.const(0xc0)] if ordered else []
            self.expect(s, self.form(lead, n, x, bs) + more, [info["val"]],
                        what="%smap of %d to %d entries" % ("ordered " * ordered, lo, hi))

    def made(self, make, T, ty, hooks, base):
        it = self.it
        st = absint.State()
        v = self.value(st, T, ty)
        C.put(it, st, v[1], 0, base, "hooks", hooks)
        C.put(it, st, v[1], 0, base, "flags", 0)
        out = make(it, st, v[1], "list")
        for s, info in out:
            info["val"] = v
        return out

    def lay(self, s, info, few, lay):
        """No member, or one or two traced ones."""
        it = self.it
        self.cl.order, self.cl.pairs = (), ()
        if few == 0:
            return it.add_eq(s, info["n"])
        if info["data"] == NULL:
            return False
        last = None
        for k in range(few):
            j = L.atom(it.mk_atom("j#%d" % it.bump(), 0, lists.HALF))
            if not it.add_ge(s, L.addc(L.sub(info["n"], j), -1)) or last and not it.add_ge(s, L.addc(L.sub(j, last), -1)):
                return False
            last = j
            o = lay(it, s, info, j, "member")
            if isinstance(o, tuple):
                self.cl.order += o
                self.cl.pairs += (o,)
            else:
                self.cl.order += (o,)
        return True


NOTHING = []


def lists_null(it, st, v):
    return v[0] == "P" and (v[1] == NULL or it.nullness(st, v[1]) is False)


def run_op(kind):
    r = Run(kind)
    if isinstance(kind, str):
        getattr(r, "do_" + kind)()
    else:
        getattr(r, "do_" + kind[0])(*kind[1:])
    r.cl.count("kinds of value")
    return r.cl


def check_packval(p, tier):
    res = Result()
    p.need(FN)
    for cl in parallel([(run_op, (k,)) for k in KINDS]):
        res.add_client(cl)
    res.instances = [k if isinstance(k, str) else " ".join(str(x) for x in k) for k in KINDS]
    res.need("kinds of value", len(KINDS))
    res.need("forms compared", 100)
    res.need("traced bytes", 20)
    res.need("headers compared", 10)
    res.assumptions = ["the packer's buffer is a heap block of the stated capacity and the position lies inside it",
                       "texts and bytes are shorter than 2^32 - 1 bytes, text has no zero byte inside"]
    return res
