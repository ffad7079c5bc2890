"""Buffer pools: buffers handed out are large enough, buffers given back are kept once or freed."""
from .. import absint, contracts as C, lin as L
from ..harness import Result, parallel, program
from .maps import nomem, null
from .storage import StoreClient

S, R = "as_buffer_pool", "as_buffer_result"
TOP = (1 << 32) - 1
OK, ERR, EMPTY = 0, -1, -2
OPS = ["as_buffer_pool_" + k for k in ("init", "pop", "push", "push_limit", "drop_buffers", "destroy")]


class Queue(StoreClient):
    """The queue of a pool: gives a kept buffer, is empty, or fails; takes a buffer or not."""
    queue = None        # its object
    full = None         # buffers in it, when all are known
    size = None         # of a buffer in it
    limit = None

    def on_null(self, it, st, fr, I, ptr, definite):
        if not it.quiet and it.objs[ptr[1]].kind in ("heap", "null"):
            self.report(it, st, fr, I, "memory", "uses memory that may not be there")

    def on_event(self, it, st, fr, I, what, d):
        if what == "allocfail":
            st.cl["nomem"] = True
        super().on_event(it, st, fr, I, what, d)

    def on_call(self, it, st, fr, I, name, args):
        if name == "cf_queue_create":
            bad = st.copy()
            bad.cl["nomem"] = True
            st.cl["made"] = (it.const_of(st, args[0]), it.const_of(st, args[1]) if args[1][0] == "I" else args[1][1])
            return [(st, C.region(it, st, "queue", None)), (bad, C.NULLP)]
        if not name.startswith("cf_queue_"):
            return super().on_call(it, st, fr, I, name, args)
        if args[0][0] != "P" or args[0][1] != self.queue:
            return None
        self.site("queue operations", fr, I)
        op = name[len("cf_queue_"):]
        if st.cl.get("gone"):
            self.report(it, st, fr, I, "queue", "uses the queue after it was destroyed")
        if op == "destroy":
            st.cl["gone"] = True
            return [(st, None)]
        if op == "sz":
            n = C.num(it, "buffers kept", 0, 1 << 20) if self.full is None else \
                ("I", 32, L.const(len(self.full) - st.cl.get("taken", 0)))
            st.cl["seen"] = n[2]
            return [(st, n)]
        if op == "pop":
            if it.const_of(st, args[2]) != 0:
                self.report(it, st, fr, I, "wait", "waits for a buffer")
            return self.pop(it, st, args)
        if op in ("push", "push_limit"):
            no = st.copy()
            v = it.load(st, fr, I, args[1], 8, "ptr")
            st.cl["kept"] = st.cl.get("kept", ()) + (v[1] if v[0] == "P" and v[2] == L.ZERO else -1,)
            no.cl["refused"] = True
            limit = it.u(st, args[2]) if op == "push_limit" else None
            want = L.const(TOP) if self.limit is None else self.limit
            seen = st.cl.get("seen")
            # the queue is given the limit, or was seen to hold fewer
            if not (limit is not None and it.entails_eq(st, L.sub(limit, want))) and \
                    not (limit is None and self.limit is None) and \
                    not (seen is not None and it.entails(st, L.addc(L.sub(want, seen), -1))):
                self.report(it, st, fr, I, "limit", "the queue is not given the limit asked for")
            if limit is not None:
                return [(st, ("B", True)), (no, ("B", False))]
            return [(st, ("I", 32, L.const(OK))), (no, ("I", 32, L.const(ERR)))]
        return None

    def pop(self, it, st, args):
        if self.full is not None:
            k = st.cl.get("taken", 0)
            if k >= len(self.full):
                return [(st, ("I", 32, L.const(EMPTY)))]
            it.store(st, args[1], 8, self.full[k])
            st.cl["taken"] = k + 1
            return [(st, ("I", 32, L.const(OK)))]
        out = []
        for rc in (ERR, EMPTY):
            s = st.copy()
            s.cl["queue"] = rc
            out.append((s, ("I", 32, L.const(rc))))
        v = C.owned(it, st, "kept buffer", self.size, "buffer")
        it.store(st, args[1], 8, v)
        st.cl["queue"] = OK
        return out + [(st, ("I", 32, L.const(OK)))]


class Run:
    def __init__(self, name):
        self.p = program()
        self.fn = self.p.need(name)
        self.cl = Queue(self.p, name)

    def start(self, what):
        self.what = what
        self.it = it = absint.Interp(self.p, self.cl, max_steps=2500000, max_states=500, keep=200)
        it.each_way = True
        st = absint.State()
        self.o = C.region(it, st, "pool", L.const(self.p.structs[S]["size"]), S)
        q = C.region(it, st, "queue", None)
        self.h, self.b = C.num(it, "header", 0, TOP), C.num(it, "buffer size", 1, TOP)
        it.add_ge(st, L.sub(self.b[2], self.h[2]))
        for f, v in (("queue", q), ("header_size", self.h), ("buffer_size", self.b)):
            C.put(it, st, self.o[1], 0, S, f, v)
        self.cl.queue, self.cl.full, self.cl.size = q[1], None, self.b[2]
        return it, st

    def fail(self, e, rule, msg):
        self.cl.report_at(rule, self.fn.file, self.fn.line, self.fn.name, "%s: %s" % (self.what, msg), self.it.trace_lines(e))

    def call(self, st, args):
        self.cl.count("cases")
        for e, rv in self.it.call_fn(self.fn, args, st.copy()):
            if not self.it.close(e):
                continue
            self.cl.count("outcomes")
            r = None
            if rv is not None:
                r = self.it.const_of(e, rv)
                if r is not None and r >= 1 << 31:
                    r -= 1 << 32
            yield e, r

    def live(self, e):
        return [o for o, h in e.heap.items() if h == "live" and self.it.nullness(e, o) is not False]

    def do_init(self):
        it, st = self.start("any sizes")
        h, b = C.num(it, "new header", 0, TOP), C.num(it, "new size", 0, TOP)
        for e, r in self.call(st, [self.o, h, b]):
            if (r == 0) != (not e.cl.get("nomem")) or r is None:
                self.fail(e, "result", "success and failure are mixed up")
            if r != 0:
                continue
            if e.cl.get("made") not in ((8, 1), (8, True)):
                self.fail(e, "queue", "the queue is not for pointers, or not safe for threads")
            for f, v in (("header_size", h), ("buffer_size", b)):
                g = C.get(it, e, self.o[1], 0, S, f)
                if not it.entails_eq(e, L.sub(it.u(e, g), v[2])):
                    self.fail(e, "field", "the sizes are not recorded")

    def do_pop(self):
        it, st = self.start("any size")
        s = C.num(it, "size", 0, TOP)
        res = C.region(it, st, "result", L.const(self.p.structs[R]["size"]), R)
        for e, r in self.call(st, [self.o, s, res]):
            if r is None:
                self.fail(e, "result", "the result is not known")
                continue
            live = self.live(e)
            q = e.cl.get("queue")
            if r < 0:
                if live:
                    self.fail(e, "leak", "a buffer is lost")
                if not (nomem(it, e) if r == -1 else r == -2 and q == ERR):
                    self.fail(e, "result", "another failure is told than happened")
                continue
            large = L.addc(L.sub(L.add(s[2], self.h[2]), self.b[2]), -1)
            if r > 2 or (r == 2 and not it.entails(e, large)) or (r < 2 and it.entails(e, large)) or (r == 0) != (q == OK):
                self.fail(e, "result", "the result does not say where the buffer is from")
            d = C.get(it, e, res[1], 0, R, "data", True)
            c = it.u(e, C.get(it, e, res[1], 0, R, "capacity"))
            if null(it, e, d) or d[0] != "P" or d[2] != L.ZERO or live != [d[1]]:
                self.fail(e, "buffer", "no buffer is given, or another one is lost")
                continue
            if not it.entails(e, L.sub(c, s[2])):
                self.fail(e, "room", "the buffer has less room than asked for")
            if not it.entails(e, L.sub(it.objs[d[1]].size, L.add(c, self.h[2]))):
                self.fail(e, "capacity", "header and stated capacity are more than the buffer")
            if r < 2 and not (it.entails_eq(e, L.sub(it.objs[d[1]].size, self.b[2]))
                              and it.entails_eq(e, L.sub(L.add(c, self.h[2]), self.b[2]))):
                self.fail(e, "capacity", "a buffer of the pool is not of the pool's size")

    def push(self, limit):
        it, st = self.start("any buffer")
        c = C.num(it, "capacity", 0, TOP)
        total = L.add(c[2], self.h[2])
        it.add_ge(st, L.sub(total, self.b[2]))
        v = C.owned(it, st, "buffer", total, "buffer")
        args = [self.o, v, c]
        if limit:
            m = C.num(it, "limit", 0, TOP)
            self.cl.limit = m[2]
            args.append(m)
        for e, r in self.call(st, args):
            kept = e.cl.get("kept", ())
            seen = e.cl.get("seen")
            if limit and not kept and seen is not None and it.entails(e, L.sub(seen, m[2])):
                e.cl["refused"] = True
            live = v[1] in self.live(e)
            if kept not in ((), (v[1],)) or bool(kept) != live:
                self.fail(e, "once", "the buffer is not either kept once or freed")
            if r != (0 if kept else -1 if e.cl.get("refused") else -2):
                self.fail(e, "result", "the result does not say what became of the buffer")
            if kept and not it.entails_eq(e, L.sub(total, self.b[2])):
                self.fail(e, "size", "a larger buffer is kept")
            if not kept and not e.cl.get("refused") and not it.entails(e, L.addc(L.sub(total, self.b[2]), -1)):
                self.fail(e, "size", "a buffer of the pool's size is not kept")

    def do_push(self):
        self.push(False)

    def do_push_limit(self):
        self.push(True)

    def filled(self, k):
        it, st = self.start("%d buffers" % k)
        self.cl.full = [C.owned(it, st, "buffer%d" % i, self.b[2], "buffer") for i in range(k)]
        return it, st

    def do_drop_buffers(self):
        for k in range(4):
            for n in range(-1, 5):
                it, st = self.filled(k)
                self.what += ", %d to drop" % n
                want = min(k, max(n, 0))
                for e, r in self.call(st, [self.o, ("I", 32, L.const(n % (1 << 32)))]):
                    if r != want or len(self.live(e)) != k - want or e.cl.get("taken", 0) != want:
                        self.fail(e, "dropped", "another number of buffers is freed, taken out or told")

    def do_destroy(self):
        for k in range(4):
            it, st = self.filled(k)
            for e, r in self.call(st, [self.o]):
                if self.live(e):
                    self.fail(e, "leak", "a buffer is lost")
                if not e.cl.get("gone"):
                    self.fail(e, "queue", "the queue is not destroyed")


def run_op(name):
    r = Run(name)
    getattr(r, "do_" + name[len("as_buffer_pool_"):])()
    r.cl.count("operations")
    return r.cl


def check_pool(p, tier):
    res = Result()
    for cl in parallel([(run_op, (n,)) for n in OPS]):
        res.add_client(cl)
    res.instances = list(OPS)
    res.need("operations", len(OPS))
    res.need("cases", 20)
    res.need("outcomes", 25)
    res.assumptions = ["a pool's buffers are at least as large as its header",
                       "buffers given back come from the pool, with the capacity stated there",
                       "the queue behaves as a queue (its own properties)"]
    return res
