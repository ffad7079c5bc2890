"""Symbolic valid instances of the public structs, and what makes one valid.

Every field is addressed through the public struct layout, so a change of
layout is followed and a removed field is reported as a broken anchor."""
from . import lin as L
from .absint import NULL
from .harness import field_off, sym_arg

BIG = 1 << 29      # element counts and byte sizes stay below 2^29


def at(base, off):
    return L.const(base + off) if isinstance(base, int) else L.addc(base, off)


def put(it, st, o, base, struct, field, v):
    off, size = field_off(it.p, struct, field)
    if isinstance(v, int):
        v = ("I", 8 * size, L.const(v))
    it.store(st, ("P", o, at(base, off)), size, v)


def get(it, st, o, base, struct, field, ptr=False):
    off, size = field_off(it.p, struct, field)
    return it.load(st, None, None, ("P", o, at(base, off)), size, "ptr" if ptr else "i%d" % (8 * size))


def num(it, name, lo, hi, w=32):
    a = it.mk_atom("%s#%d" % (name, it.bump()), lo, hi)
    return ("I", w, L.atom(a))


def region(it, st, name, size, ditype=None, init="sym"):
    """A live caller-visible memory block of the given size."""
    o = it.new_obj("sym", name, size, ditype, init)
    st.nn[o] = True
    return ("P", o, L.ZERO)


def owned(it, st, name, size, ditype=None, init="sym"):
    """A live heap block of the given size."""
    o = it.new_obj("heap", name, size, ditype, init, extra=("entry", 0, []))
    st.nn[o] = True
    st.heap[o] = "live"
    return ("P", o, L.ZERO)


def unpacker(it, st, o, base, nm):
    ln = num(it, nm + "->length", 0, (1 << 32) - 1)
    of = num(it, nm + "->offset", 0, (1 << 32) - 1)
    buf = region(it, st, nm + "->buffer", ln[2], "input")
    put(it, st, o, base, "as_unpacker", "buffer", buf)
    put(it, st, o, base, "as_unpacker", "length", ln)
    put(it, st, o, base, "as_unpacker", "offset", of)
    return [st]


def product(it, st, a, b):
    """a * b as a linear form over a product atom."""
    return it.u(st, it.arith(st, None, {}, "mul", 64, ("I", 64, a), ("I", 64, b)))


def small(it, st, l):
    it.add_ge(st, L.addc(L.neg(l), BIG - 1))


NULLP = ("P", NULL, L.ZERO)


# ------------------------------------------------------------------ as_bytes
def bytes_make(it, st, o, base, nm):
    S = "as_bytes"
    out = []
    st2 = st.copy()
    for free in (0, 1):
        s = st.copy()
        put(it, s, o, base, S, "value", NULLP)
        put(it, s, o, base, S, "capacity", 0)
        put(it, s, o, base, S, "size", 0)
        put(it, s, o, base, S, "free", free)
        out.append(s)
        s = st2.copy()
        cap = num(it, nm + "->capacity", 1, BIG - 1)
        sz = num(it, nm + "->size", 0, BIG - 1)
        it.add_ge(s, L.sub(cap[2], sz[2]))
        v = (owned if free else region)(it, s, nm + "->value", cap[2])
        put(it, s, o, base, S, "value", v)
        put(it, s, o, base, S, "capacity", cap)
        put(it, s, o, base, S, "size", sz)
        put(it, s, o, base, S, "free", free)
        out.append(s)
    return out


def block_ok(it, st, v, need, owns):
    """Problems with v as the start of a block of `need` bytes (owned if `owns`)."""
    if v[0] != "P":
        return ["storage pointer is not initialised"]
    if v[1] == NULL or it.nullness(st, v[1]) is False:
        return [] if it.entails(st, L.neg(need)) else ["storage is NULL although the capacity is not zero"]
    out = []
    ob = it.objs[v[1]]
    if st.heap.get(v[1]) == "freed":
        out.append("storage has been freed")
    if v[2] != L.ZERO and not it.entails_eq(st, v[2]):
        out.append("storage pointer does not point at the start of its block")
    if ob.size is None:
        out.append("nothing is known about the size of the storage")
    elif not it.entails(st, L.sub(ob.size, need)):
        out.append("capacity claims %s bytes but the storage has %s" % (it.show(need), it.show(ob.size)))
    if owns is True and ob.kind != "heap":
        out.append("storage is marked to be freed but is not a heap block")
    return out


def uval(it, st, v):
    """Unsigned form of a field value, or None if it was never written."""
    return it.u(st, v) if v[0] == "I" or v[0] == "B" else None


def fields(it, st, o, base, S, names):
    out = []
    for n in names:
        l = uval(it, st, get(it, st, o, base, S, n))
        out.append(l)
    return out


def le(it, st, a, b, text):
    return [] if it.entails(st, L.sub(b, a)) else [text]


def flag(it, st, l):
    """True, False or None."""
    if it.entails(st, L.addc(l, -1)):
        return True
    if it.entails(st, L.neg(l)):
        return False
    return None


def bytes_inv(it, st, o, base):
    S = "as_bytes"
    cap, sz, fr = fields(it, st, o, base, S, ["capacity", "size", "free"])
    if None in (cap, sz, fr):
        return ["capacity, size or free flag is not set"]
    v = get(it, st, o, base, S, "value", True)
    return le(it, st, sz, cap, "size can exceed capacity") + block_ok(it, st, v, cap, flag(it, st, fr))


# --------------------------------------------------------- as_string_builder
def sb_make(it, st, o, base, nm):
    S = "as_string_builder"
    out = []
    for free in (0, 1):
        for resize in (0, 1):
            s = st.copy()
            cap = num(it, nm + "->capacity", 1, BIG - 1)
            ln = num(it, nm + "->length", 0, BIG - 1)
            it.add_ge(s, L.addc(L.sub(cap[2], ln[2]), -1))
            v = (owned if free else region)(it, s, nm + "->data", cap[2])
            put(it, s, o, base, S, "data", v)
            put(it, s, o, base, S, "capacity", cap)
            put(it, s, o, base, S, "length", ln)
            put(it, s, o, base, S, "free", free)
            put(it, s, o, base, S, "resize", resize)
            it.store(s, ("P", v[1], ln[2]), 1, ("I", 8, L.ZERO))
            out.append(s)
    return out


def sb_inv(it, st, o, base):
    S = "as_string_builder"
    cap, ln, fr = fields(it, st, o, base, S, ["capacity", "length", "free"])
    if None in (cap, ln, fr):
        return ["capacity, length or free flag is not set"]
    v = get(it, st, o, base, S, "data", True)
    out = le(it, st, L.addc(ln, 1), cap, "length can reach capacity, leaving no room for the terminator")
    out += block_ok(it, st, v, cap, flag(it, st, fr))
    if v[0] == "P" and v[1] != NULL and not out:
        c = it.load(st, None, None, ("P", v[1], L.add(v[2], ln)), 1, "i8")
        if it.const_of(st, c) != 0:
            out.append("the text is not terminated at its length")
    return out


# ----------------------------------------------------------------- as_buffer
def buf_make(it, st, o, base, nm):
    S = "as_buffer"
    s = st.copy()
    put(it, s, o, base, S, "data", NULLP)
    put(it, s, o, base, S, "capacity", 0)
    put(it, s, o, base, S, "size", 0)
    cap = num(it, nm + "->capacity", 1, BIG - 1)
    sz = num(it, nm + "->size", 0, BIG - 1)
    it.add_ge(st, L.sub(cap[2], sz[2]))
    put(it, st, o, base, S, "data", owned(it, st, nm + "->data", cap[2]))
    put(it, st, o, base, S, "capacity", cap)
    put(it, st, o, base, S, "size", sz)
    return [s, st]


def buf_inv(it, st, o, base):
    S = "as_buffer"
    cap, sz = fields(it, st, o, base, S, ["capacity", "size"])
    if None in (cap, sz):
        return ["capacity or size is not set"]
    v = get(it, st, o, base, S, "data", True)
    return le(it, st, sz, cap, "size can exceed capacity") + block_ok(it, st, v, cap, True)


MAKE = {"as_unpacker": unpacker, "as_bytes": bytes_make, "as_string_builder": sb_make, "as_buffer": buf_make}
INV = {"as_bytes": bytes_inv, "as_string_builder": sb_inv, "as_buffer": buf_inv}


SLOTS = 1 << 26    # most items of a queue


# ------------------------------------------------------- queues of fixed items
class Ring:
    """A queue: item i lives in slot (head + i) mod capacity."""

    def __init__(self, struct, data, cap, head, tail, item, base=None, count=None, flags=None):
        self.struct, self.data, self.cap, self.head, self.tail, self.item = struct, data, cap, head, tail, item
        self.base = base            # (outer struct, field) when embedded
        self.count = count
        self.flags = flags

    def off(self, it):
        return field_off(it.p, *self.base)[0] if self.base else 0

    def make(self, it, st, o, nm):
        """Entry states: any consistent queue."""
        b = self.off(it)
        out = []
        S = self.struct
        for fl in (self.flags or [None]):
            s = st.copy()
            cap = num(it, nm + ".capacity", 1, SLOTS)
            head = num(it, nm + ".head", 0, (1 << 30) - 1)
            n = num(it, nm + ".size", 0, BIG - 1)
            w = num(it, nm + ".item", 1, BIG - 1, 8 * field_off(it.p, S, self.item)[1])
            it.add_ge(s, L.sub(cap[2], n[2]))
            it.add_ge(s, L.addc(L.neg(L.add(head[2], n[2])), (1 << 30) - 1))
            total = product(it, s, cap[2], w[2])
            small(it, s, total)
            heap = fl is None or fl & 1
            v = (owned if heap else region)(it, s, nm + ".data", total)
            put(it, s, o, b, S, self.data, v)
            put(it, s, o, b, S, self.cap, cap)
            put(it, s, o, b, S, self.head, head)
            put(it, s, o, b, S, self.tail, ("I", 32, L.add(head[2], n[2])))
            put(it, s, o, b, S, self.item, w)
            if self.count:
                put(it, s, o, b, S, self.count, n)
            if fl is not None:
                put(it, s, o, b, S, "flags", fl)
            out.append((s, dict(cap=cap[2], size=n[2], item=w[2], head=head[2], data=v[1])))
        return out

    def at(self, it, st, o, i):
        """Address of item i, or None when the fields are not numbers."""
        b = self.off(it)
        head, cap, w = fields(it, st, o, b, self.struct, [self.head, self.cap, self.item])
        v = get(it, st, o, b, self.struct, self.data, True)
        if None in (head, cap, w) or v[0] != "P":
            return None
        r = it.residue(st, it.simp(st, L.add(head, i)), it.simp(st, cap), (1 << 32) - 1)
        return ("P", v[1], L.add(v[2], product(it, st, r, w)))

    def size(self, it, st, o):
        b = self.off(it)
        h, t = fields(it, st, o, b, self.struct, [self.head, self.tail])
        return None if None in (h, t) else L.sub(t, h)

    def inv(self, it, st, o, info):
        b = self.off(it)
        S = self.struct
        cap, head, tail, w = fields(it, st, o, b, S, [self.cap, self.head, self.tail, self.item])
        if None in (cap, head, tail, w):
            return ["capacity, position or item size is not set"]
        out = []
        n = L.sub(tail, head)
        out += le(it, st, head, tail, "the first position can pass the last")
        out += le(it, st, n, cap, "the number of items can exceed the capacity")
        out += le(it, st, L.const(1), cap, "the capacity can be zero")
        out += le(it, st, tail, L.const((1 << 30) - 1), "the positions can grow without bound")
        if info and not it.entails_eq(st, L.sub(w, info["item"])):
            out.append("the item size changed")
        v = get(it, st, o, b, S, self.data, True)
        owns = None
        if self.flags:
            f = it.const_of(st, get(it, st, o, b, S, "flags"))
            if f is None:
                out.append("the ownership flags are not set")
            else:
                owns = bool(f & 1)
        else:
            owns = True
        out += block_ok(it, st, v, product(it, st, cap, w), owns)
        if self.count:
            c = fields(it, st, o, b, S, [self.count])[0]
            if c is None or not it.entails_eq(st, L.sub(c, n)):
                out.append("the element count differs from the number of items")
        return out


RINGS = {
    "as_queue": Ring("as_queue", "data", "capacity", "head", "tail", "item_size", flags=[0, 1, 3]),
    "as_queue_mt": Ring("as_queue", "data", "capacity", "head", "tail", "item_size", base=("as_queue_mt", "queue"),
                        flags=[0, 1, 3]),
    "cf_queue": Ring("cf_queue", "elements", "alloc_sz", "read_offset", "write_offset", "element_sz", count="n_eles"),
}
