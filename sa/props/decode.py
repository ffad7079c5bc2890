"""Decoding reads only the caller's input."""
import time
from .. import absint, contracts, lin as L
from ..absint import NULL
from ..harness import (RuleClient, Result, sym_arg, is_public, parallel, program, callgraph, AnalysisBroken)

# public functions taking a raw (buffer, size) pair: argument indexes
RAW = {"as_unpack_buf_peek_type": [(0, 1)], "as_unpack_buf_list_element_count": [(0, 1)],
       "as_unpack_buf_map_element_count": [(0, 1)], "as_unpack_buf_compare": [(0, 1), (2, 3)]}
# public functions that hand out a pointer into the input: where pointer and length come out
SLICE = {"as_unpack_str": ("ret", 1), "as_unpack_bin": ("ret", 1), "as_unpack_ext": ("ext", 1)}


KEEP = 24


def takes(fn):
    return "as_unpacker" in [(strip(x) or "").replace("const ", "") for x in fn.ditypes[1:]]


def scope(p):
    """Public decoders that recurse (checked once, on their own), and the files holding decoders."""
    s = p.__dict__.get("_decode_scope")
    if s is None:
        cg = callgraph(p)
        fns = {f.name: f for f in p.all_functions() if takes(f)}
        reach = {}
        for n in fns:
            seen, todo = set(), [n]
            while todo:
                for c in cg.get(todo.pop(), ()):
                    if c in fns and c not in seen:
                        seen.add(c)
                        todo.append(c)
            reach[n] = seen
        rec = {n for n in fns if n in reach[n]}
        heavy = {n for n, f in fns.items() if is_public(f) and (n in rec or reach[n] & rec)}
        heavy |= rec
        s = p.__dict__["_decode_scope"] = (heavy, {f.file for f in fns.values() if f.file.startswith("src/main")})
    return s


def strip(dt):
    """Pointee type of a pointer parameter type."""
    return dt[:-1] if dt and dt.endswith("*") else None


class DecodeClient(RuleClient):
    def __init__(self, prog, entry, modular, pre):
        super().__init__()
        self.pre = pre
        self.unmet = set()
        self.gave_up = None
        self.p = prog
        self.entry = entry
        self.cut = set()
        self.heavy = modular
        self.files = scope(prog)[1]

    def on_access(self, it, st, fr, I, kind, ptr, size, val):
        ob = it.objs[ptr[1]]
        if ob.ditype != "input" or it.quiet:
            return
        self.site("input read", fr, I)
        if kind in ("store", "rmw", "store-unbounded"):
            self.report(it, st, fr, I, "input-write", "writes to the input being decoded")
            return
        n = size if not isinstance(size, int) else L.const(size)
        off = ptr[2]
        if it.entails(st, off) and it.entails(st, L.sub(L.sub(ob.size, off), n)):
            return
        self.report(it, st, fr, I, "input-bounds",
                    "reads %s byte(s) at offset %s of an input of %s bytes; nothing on this path ensures they are "
                    "inside it" % (it.show(n).strip("+"), it.show(off), it.show(ob.size)))

    def on_event(self, it, st, fr, I, what, d):
        if what == "recursion":
            self.cut.add(d[0].name)

    def on_call(self, it, st, fr, I, name, args):
        t = it.p.resolve(fr.fn.mod, name)
        if t is None:
            return None
        if fr.has(t) or (t.name != self.entry and t.name in self.heavy):
            return self.contract(it, st, fr, I, t, args)
        if t.file.startswith("src/main") and t.file not in self.files and not t.internal:
            # builds or releases values; does not see the input unless handed a pointer into it
            if not any(v[0] == "P" and (it.objs[v[1]].ditype in ("input", "as_unpacker")) for v in args):
                for v in args:
                    if v[0] == "P" and it.objs[v[1]].kind == "alloca":
                        it.havoc(st, v[1])
                return [(st, it.unknown(I["t"], name) if I["t"] != "void" else None)]
        return None

    def contract(self, it, st, fr, I, t, args):
        """Recursive call: any result, any new position, the input unchanged."""
        self.cut.add(t.name)
        if t.name in self.pre and not it.quiet:
            for v, left in unread(it, st, t, args):
                if not it.entails(st, L.addc(left, -1)):
                    self.unmet.add(t.name)
        for i, v in enumerate(args):
            if v[0] != "P" or v[1] == NULL:
                continue
            dt = strip(t.ditypes[i + 1]) if len(t.ditypes) > i + 1 else None
            dt = (dt or "").replace("const ", "")
            if dt == "as_unpacker":
                off, size = contracts.field_off(it.p, "as_unpacker", "offset")
                it.store(st, ("P", v[1], L.addc(v[2], off)), size, contracts.num(it, "offset", 0, (1 << 32) - 1))
            elif not (it.objs[v[1]].kind == "global" and it.objs[v[1]].init == "const"):
                it.havoc(st, v[1])
        return [(st, it.unknown(I["t"], "rec") if I["t"] != "void" else None)]


def unread(it, st, fn, args):
    """(argument, bytes left) for each decoder state passed to fn."""
    for i, v in enumerate(args):
        dt = strip(fn.ditypes[i + 1]) if len(fn.ditypes) > i + 1 else None
        if (dt or "").replace("const ", "") != "as_unpacker" or v[0] != "P":
            continue
        off = contracts.get(it, st, v[1], v[2], "as_unpacker", "offset")
        n = contracts.get(it, st, v[1], v[2], "as_unpacker", "length")
        yield v, L.sub(it.u(st, n), it.u(st, off))


def entry_state(it, fn, raw):
    st = absint.State()
    args = []
    for i, a in enumerate(fn.args):
        dt = strip(fn.ditypes[i + 1]) if len(fn.ditypes) > i + 1 else None
        dt = (dt or "").replace("const ", "")
        v = sym_arg(it, fn, i)
        if v[0] == "P":
            st.nn[v[1]] = True
            it.objs[v[1]].ditype = dt or it.objs[v[1]].ditype
            if dt == "as_unpacker":
                contracts.unpacker(it, st, v[1], 0, a["name"] or "pk%d" % i)
        args.append(v)
    for b, n in raw:
        args[b] = contracts.region(it, st, "buf", it.u(st, args[n]), "input")
    return st, args


def run_entry(name, modular, pre=frozenset()):
    p = program()
    fn = p.need(name)
    cl = DecodeClient(p, name, modular, pre)
    it = absint.Interp(p, cl, max_steps=2500000, keep=KEEP)
    st, args = entry_state(it, fn, RAW.get(name, []))
    if name in pre:
        for v, left in unread(it, st, fn, args):
            it.add_ge(st, L.addc(left, -1))
    try:
        outs = it.call_fn(fn, args, st)
    except absint.Budget as e:
        cl.gave_up = str(e)
        return cl, it.steps
    if name in SLICE:
        check_slice(it, cl, fn, args, outs)
    cl.count("entries")
    cl.count("paths", len(outs))
    return cl, it.steps


def check_slice(it, cl, fn, args, outs):
    how, idx = SLICE[fn.name]
    for st, rv in outs:
        if how == "ret":
            if rv[0] != "P" or rv[1] == NULL:
                continue
            p = rv
            n = it.load(st, None, None, args[idx], 4, "i32")
        else:
            if it.const_of(st, rv) != 0:
                continue
            o = args[idx][1]
            p = contracts.get(it, st, o, 0, "as_msgpack_ext", "data", True)
            n = contracts.get(it, st, o, 0, "as_msgpack_ext", "size")
        cl.count("slices handed out")
        ob = it.objs[p[1]]
        ok = n[0] == "I" and ob.ditype == "input" and it.entails(st, p[2]) and \
            it.entails(st, L.sub(L.sub(ob.size, p[2]), it.u(st, n)))
        if not ok:
            cl.report_at("slice-bounds", fn.file, fn.line, fn.name,
                         "returns success with a slice of the input that is not known to lie inside it", it.trace_lines(st))


def entries(p):
    out = []
    for fn in p.all_functions():
        if not is_public(fn):
            continue
        ts = [(strip(x) or "").replace("const ", "") for x in fn.ditypes[1:]]
        if "as_unpacker" in ts or fn.name in RAW:
            out.append(fn.name)
    return sorted(set(out))


def check(p, tier):
    res = Result()
    absint.DEADLINE = time.time() + 300
    for n in RAW:
        p.need(n)
    heavy, _ = scope(p)
    public = set(entries(p))
    modular, pre = frozenset(heavy), frozenset()
    todo, got, last = sorted(public | heavy), {}, {}
    while todo:
        for n, (cl, steps) in zip(todo, parallel([(run_entry, (n, modular, pre)) for n in todo])):
            if cl.gave_up:
                if not last:
                    raise AnalysisBroken("%s: %s" % (n, cl.gave_up))
                # the callee could not be followed in its context: what is known about it alone stands
                todo, got = [], last
                break
            got[n] = cl
        else:
            if any(cl.reports and not cl.cut for n, cl in got.items() if n in public):
                break       # definite: no contract was involved
            # A private function that is not safe for every state of its decoders is tried with the
            # precondition that a byte is left, which each caller must then meet, and is otherwise
            # analysed as part of its callers.
            last = dict(got)
            bad = {n for n in modular - public if n in got and got[n].reports}
            unmet = set().union(*(cl.unmet for cl in got.values())) & pre
            drop = (bad & pre) | unmet
            new = bad - drop
            pre = (pre | new) - drop
            modular = modular - drop
            todo = sorted(n for n in got if n not in drop and (n in new or got[n].cut & (new | drop)))
            for n in drop:
                got.pop(n, None)
    for cl in got.values():
        res.add_client(cl)
    done = set(got)
    res.instances = sorted(done)
    res.need("entries", 20)
    res.need("input read", 60)
    res.need("slices handed out", 6)
    res.assumptions = ["the caller's buffer really holds the declared number of bytes",
                       "each decoder state is used by one thread and points at one buffer",
                       "allocation results and other library calls are arbitrary"]
    res.extra["private functions verified on their own"] = sorted(modular - public)
    res.extra["of those, with a byte left as precondition checked at every call"] = sorted(pre)
    return res
