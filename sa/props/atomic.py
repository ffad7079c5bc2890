"""Atomic helpers: one indivisible step on the whole target, with the promised ordering."""
import re
from .. import absint, contracts as C, lin as L
from ..absint import NULL
from ..harness import Result, parallel, program
from .refs import ACQ, RLS
from .storage import StoreClient

NAME = re.compile(r"as_(load|store|faa|aaf|add|incr|decr|fas|cas|setmax)_((?:u?int)(?:8|16|32|64)|ptr)(_acq|_rls)?$")
# ghost cells: own modifications, value before and after the last one, last value seen
MODS, OLD, NEW, SEEN = 0, 8, 16, 24
# for locks: own share of the word, what others had in it at the last look and at the last change
OWN, OTHERS, ATLOOK, ATMOD, OWNLOOK = 32, 40, 48, 56, 64
WRITER = 1 << 31


class Steps(StoreClient):
    tgt = None
    size = 0
    lock = False

    def gput(self, it, st, off, l):
        it.store(st, ("P", self.ghost, L.const(off)), 8, ("I", 64, l))

    def gget(self, it, st, off):
        return it.u(st, it.load(st, None, None, ("P", self.ghost, L.const(off)), 8, "i64"))

    def fail(self, it, st, fn, rule, msg):
        self.report_at(rule, fn.file, fn.line, fn.name, msg, it.trace_lines(st))

    def on_access(self, it, st, fr, I, kind, ptr, size, val):
        if ptr[1] == self.tgt:
            if ptr[2] != L.ZERO or size != self.size:
                self.report(it, st, fr, I, "whole", "touches only a part of the target, or more than the target")
                return
            if I.get("ord") is None and (kind != "load" or not self.lock):
                self.report(it, st, fr, I, "atomic", "an ordinary %s of the target" % kind)
            self.site("atomic access", fr, I)
            o = I.get("ord")
            if kind == "load":
                self.gput(it, st, SEEN, it.u(st, val))
                st.cl["acq"] = o in ACQ
                if self.lock:
                    self.gput(it, st, ATLOOK, self.gget(it, st, OTHERS))
                    self.gput(it, st, OWNLOOK, self.gget(it, st, OWN))
            else:
                old = it.u(st, it.load(st, None, None, ptr, size, "i%d" % (8 * size)))
                new = it.u(st, val) if val[0] == "I" else None
                if new is None:
                    new = L.atom(it.mk_atom("stored#%d" % it.bump(), 0, (1 << 64) - 1))
                self.gput(it, st, MODS, L.addc(self.gget(it, st, MODS), 1))
                self.gput(it, st, OLD, old)
                self.gput(it, st, NEW, new)
                self.gput(it, st, SEEN, old)
                st.cl["acq"] = o in ACQ and kind == "rmw"
                st.cl["rls"] = o in RLS
                if self.lock:
                    own = it.simp(st, L.add(self.gget(it, st, OWN), L.sub(new, old)))
                    if not any(it.entails_eq(st, L.addc(own, -v)) for v in self.lock) and \
                            not it.entails(st, own) or not it.entails(st, L.addc(L.neg(own), self.lock[-1])):
                        self.report(it, st, fr, I, "lock-word", "changes a part of the lock word that belongs to others")
                    self.gput(it, st, OWN, own)
                    self.gput(it, st, OWNLOOK, own)
                    for g in (ATMOD, ATLOOK):
                        self.gput(it, st, g, self.gget(it, st, OTHERS))
        super().on_access(it, st, fr, I, kind, ptr, size, val)

    def on_event(self, it, st, fr, I, what, d):
        if what == "fence" and d in ACQ:
            st.cl["acq"] = True
        if what == "fence" and d in RLS:
            st.cl["pre"] = True
        super().on_event(it, st, fr, I, what, d)


class Run:
    def __init__(self, name):
        p = program()
        self.fn = p.need(name)
        self.cl = Steps(p, name, frozenset())
        self.it = absint.Interp(p, self.cl, max_steps=200000, max_states=300, keep=60)
        self.st = absint.State()

    def fail(self, st, rule, msg):
        self.cl.fail(self.it, st, self.fn, rule, msg)

    def target(self, size, share):
        it, st = self.it, self.st
        self.cl.size = size
        t = C.region(it, st, "target", L.const(size))
        g = C.region(it, st, "ghost", L.const(80))
        self.cl.tgt, self.cl.ghost = t[1], g[1]
        for o in (MODS, OLD, NEW, SEEN, OWN, OTHERS, ATLOOK, ATMOD, OWNLOOK):
            self.cl.gput(it, st, o, L.ZERO)
        it.shared = {(t[1], 0): share}
        return t

    def outcomes(self, args):
        it = self.it
        for e, rv in it.call_fn(self.fn, args, self.st):
            if it.close(e):
                self.cl.count("outcomes")
                yield e, rv

    # --------------------------------------------------------------- helpers
    def helper(self):
        it = self.it
        kind, typ, order = NAME.match(self.fn.name).groups()
        w = 64 if typ == "ptr" else int(re.sub(r"\D", "", typ))
        sig = typ.startswith("int")
        M = 1 << w
        t = self.target(w // 8, (0, M - 1))
        want = {"load": 1, "store": 2, "cas": 3, "incr": 1, "decr": 1}.get(kind, 2)
        a = [("I", w, L.atom(it.mk_atom("arg%d" % i, 0, M - 1))) for i in range(1, want)]
        for e, rv in self.outcomes([t] + a):
            g = lambda o: self.cl.gget(it, e, o)
            mods, old, new, seen = g(MODS), g(OLD), g(NEW), g(SEEN)
            eq = lambda x, y: it.entails_eq(e, L.sub(x, y))
            val = lambda v: it.u(e, v)
            ret = val(rv) if rv is not None and rv[0] in ("I", "B") else None
            if rv is not None and rv[0] == "B":
                d = rv[1] if isinstance(rv[1], bool) else it.decide(e, rv[1])
                ret = None if d is None else L.const(int(d))
            if not L.is_const(mods) or mods[0] > 1:
                self.fail(e, "steps", "changes the target in more than one step")
                continue
            n = mods[0]
            if order == "_rls" and n and not (e.cl.get("rls") or e.cl.get("pre")):
                self.fail(e, "ordering", "lacks the promised release ordering")
            if order == "_acq" and not e.cl.get("acq"):
                self.fail(e, "ordering", "lacks the promised acquire ordering")
            if kind in ("cas", "setmax"):
                if ret is None or not L.is_const(ret):
                    self.fail(e, "result", "the result does not tell whether the target was changed")
                    continue
                if ret[0] != n:
                    self.fail(e, "result", "the result does not tell whether the target was changed")
                if kind == "cas":
                    exp, nv = val(a[0]), val(a[1])
                    if n and not (eq(old, exp) and eq(new, nv)):
                        self.fail(e, "value", "swaps although the target does not hold the expected value, or in a wrong value")
                    if not n and not self.never(e, L.sub(seen, exp)):
                        self.fail(e, "value", "fails although the target held the expected value")
                else:
                    x = val(a[0])
                    if n and not (eq(new, x) and it.entails(e, L.addc(L.sub(x, old), -1))):
                        self.fail(e, "value", "replaces a number that is not smaller, or stores a wrong number")
                    if not n and not it.entails(e, L.sub(seen, x)):
                        self.fail(e, "value", "does not raise the target although it is smaller")
                continue
            if kind == "load":
                if n:
                    self.fail(e, "steps", "changes the target")
                elif typ == "ptr":
                    if not (rv[0] == "I" and eq(ret, seen)) and not self.sameptr(e, rv, t):
                        self.fail(e, "result", "does not return what the target held")
                elif ret is None or not eq(self.ext(e, rv, w, sig), seen):
                    self.fail(e, "result", "does not return what the target held")
                continue
            if n != 1:
                self.fail(e, "steps", "does not change the target")
                continue
            if kind in ("store", "fas"):
                if not eq(new, val(a[0])):
                    self.fail(e, "value", "stores something else than the argument")
            else:
                d = L.const(1) if kind == "incr" else L.const(-1) if kind == "decr" else val(a[0])
                if not self.modeq(e, L.sub(new, L.add(old, d)), w):
                    self.fail(e, "value", "does not add the right amount")
            if kind in ("faa", "fas", "aaf"):
                if ret is None or not eq(self.ext(e, rv, w, sig), new if kind == "aaf" else old):
                    self.fail(e, "result", "does not return the %s value" % ("new" if kind == "aaf" else "old"))

    def ext(self, st, rv, w, sig):
        return self.it.u(st, ("I", w, rv[2]))

    def never(self, st, d):
        t = st.copy()
        return not (self.it.add_eq(t, d) and self.it.close(t))

    def modeq(self, st, d, w):
        """d is a multiple of 2^w: the numbers involved are below 2^w in size."""
        d = self.it.simp(st, d)
        d = (d[0], tuple((x, c) for x, c in d[1] if c % (1 << w)))      # whole turns do not count
        return any(self.it.entails_eq(st, L.addc(d, k << w)) for k in (-1, 0, 1))

    def sameptr(self, st, rv, t):
        it = self.it
        x = it.load(st, None, None, t, 8, "ptr")
        return rv == x

    # ----------------------------------------------------------------- locks
    def lockrun(self):
        it, cl, fn = self.it, self.cl, self.fn
        name = fn.name
        spin = "spinlock" in name
        unlock = name.endswith("_unlock")
        write = "write" in name

        def share(it, st):
            own = cl.gget(it, st, OWN)
            if spin:
                # the word is 1 while anyone holds the lock
                oth = L.ZERO if unlock else L.atom(it.mk_atom("held#%d" % it.bump(), 0, 1))
                if not unlock and not L.is_const(own) or own[0]:
                    oth = L.ZERO
            elif write:
                oth = L.atom(it.mk_atom("readers#%d" % it.bump(), 0, (1 << 29) - 1))
            else:
                w = it.mk_atom("writer#%d" % it.bump(), 0, 1)
                r = it.mk_atom("readers#%d" % it.bump(), 0, (1 << 29) - 1)
                oth = L.add(L.atom(w, WRITER), L.atom(r))
            cl.gput(it, st, OTHERS, oth)
            return L.add(own, oth)
        mine = WRITER if write else 1
        cl.lock = (0, mine)
        t = self.target(4, share)
        start = mine if unlock else 0
        if start:
            cl.gput(it, self.st, OWN, L.const(start))
        it.store(self.st, t, 4, ("I", 32, share(it, self.st)))
        for e, rv in self.outcomes([t]):
            own = cl.gget(it, e, OWN)
            if not it.entails_eq(e, L.addc(own, start - mine)):
                self.fail(e, "lock-word", "returns %s the lock" % ("still holding" if unlock else "without holding"))
                continue
            if unlock:
                if not (e.cl.get("rls") or e.cl.get("pre")):
                    self.fail(e, "ordering", "lets the lock go without release ordering")
                continue
            if not e.cl.get("acq"):
                self.fail(e, "ordering", "takes the lock without acquire ordering")
            if write:
                if not it.entails_eq(e, cl.gget(it, e, ATLOOK)) or \
                        not it.entails_eq(e, L.addc(cl.gget(it, e, OWNLOOK), -WRITER)):
                    self.fail(e, "exclusion", "takes the lock while readers may hold it")
            else:
                oth = cl.gget(it, e, ATMOD)
                if not it.entails(e, L.addc(L.neg(oth), 0 if spin else WRITER - 1)):
                    self.fail(e, "exclusion", "takes the lock while another thread may hold it")


LOCKS = ["as_spinlock_lock", "as_spinlock_unlock", "as_swlock_write_lock", "as_swlock_write_unlock",
         "as_swlock_read_lock", "as_swlock_read_unlock"]


def run_op(name):
    r = Run(name)
    (r.lockrun if name in LOCKS else r.helper)()
    r.cl.count("operations")
    return r.cl


def names(p):
    return sorted(n for n in list(p.inlines) + list(p.fns) if NAME.match(n))


def check(p, ops, least, out):
    res = Result()
    for n in ops:
        p.need(n)
    for cl in parallel([(run_op, (n,)) for n in ops]):
        res.add_client(cl)
    res.instances = list(ops)
    res.need("operations", least)
    res.need("outcomes", out)
    return res


def check_atomics(p, tier):
    return check(p, names(p), 100, 110)


def check_spin(p, tier):
    return check(p, LOCKS, len(LOCKS), len(LOCKS))
