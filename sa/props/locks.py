"""Lock pairing, guarded state and wake-ups of the thread-safe containers."""
from .. import absint, libmodel, lin as L
from ..absint import NULL
from ..harness import (RuleClient, Result, sym_args, field_off, has_field, is_public, reaches, parallel,
                       program, AnalysisBroken)

# public struct -> (lock field, condition field or None, fields fixed after construction)
GUARD = {
    "cf_queue": ("LOCK", "CV", ["threadsafe", "free_struct", "element_sz"]),
    "as_queue_mt": ("lock", "cond", ["queue.item_size", "queue.flags"]),
    "cf_ll": ("LOCK", None, ["uselock", "destroy_fn"]),
    "as_monitor": ("lock", "cond", []),
}
ALIAS = {"cf_queue_s": "cf_queue", "as_queue_mt_s": "as_queue_mt", "cf_ll_s": "cf_ll", "as_monitor_s": "as_monitor"}

# operations of the thread-safe containers: must return with every lock released
API = """cf_queue_push cf_queue_push_limit cf_queue_push_index cf_queue_push_unique cf_queue_push_head
cf_queue_peek cf_queue_pop cf_queue_reduce cf_queue_reduce_pop cf_queue_reduce_reverse cf_queue_delete
cf_queue_delete_all cf_queue_init cf_queue_create cf_queue_destroy cf_queue_sz
as_queue_mt_push as_queue_mt_push_limit as_queue_mt_push_head as_queue_mt_push_head_limit as_queue_mt_pop
as_queue_mt_pop_tail as_queue_mt_size as_queue_mt_empty as_queue_mt_init as_queue_mt_create as_queue_mt_destroy
cf_ll_append cf_ll_prepend cf_ll_insert_after cf_ll_insert_before cf_ll_insert_reduce cf_ll_delete cf_ll_reduce
cf_ll_search cf_ll_size cf_ll_init
as_monitor_notify as_monitor_wait
cf_get_rand32 cf_get_rand64 cf_get_rand_buf
as_buffer_pool_init as_buffer_pool_pop as_buffer_pool_push as_buffer_pool_push_limit as_buffer_pool_drop_buffers
as_buffer_pool_destroy as_thread_pool_init as_thread_pool_destroy as_thread_pool_queue_task as_thread_worker
as_random_instance as_random_init as_password_gen_salt""".split()

# the caller owns the object exclusively (construction / teardown), or the
# operation is documented as running under the caller's lock
UNGUARDED = {"cf_queue_init", "cf_queue_create", "cf_queue_destroy", "as_queue_mt_init", "as_queue_mt_create",
             "as_queue_mt_destroy", "cf_ll_init", "as_monitor_init", "as_monitor_destroy", "as_monitor_begin",
             "as_buffer_pool_init", "as_buffer_pool_destroy", "as_thread_pool_init", "as_thread_pool_destroy",
             # a single-word size estimate, documented without synchronisation
             "cf_queue_sz",
             "cf_queue_delete_offset", "cf_ll_index", "cf_ll_getIterator", "cf_ll_getNext", "cf_ll_get_head",
             "cf_ll_get_tail", "cf_ll_get_next", "cf_ll_releaseIterator"}

LOCKS = ("pthread_mutex_lock", "pthread_mutex_trylock")


class LockClient(RuleClient):
    def __init__(self, prog, entry):
        super().__init__()
        self.p = prog
        self.entry = entry
        self.elem = {}       # object holding container contents -> (container object, base)

    # -- which container does this mutex / address belong to
    def struct_at(self, it, p, field_kind):
        """(container ditype, base offset) when p addresses its lock/cond field."""
        ob = it.objs[p[1]]
        if p[2][1]:
            return None
        dt = ALIAS.get(ob.ditype, ob.ditype)
        for base, d in self.containers(ob.ditype):
            g = GUARD[d]
            f = g[0] if field_kind == "lock" else g[1]
            if f and base + field_off(self.p, d, f)[0] == p[2][0]:
                return d, base
        return None

    def containers(self, dt, base=0, depth=0):
        """Guarded structs embedded in dt: [(offset, name)]."""
        dt = ALIAS.get(dt, dt)
        if dt in GUARD:
            return [(base, dt)]
        s = self.p.structs.get(dt)
        if not s or depth > 4:
            return []
        out = []
        for f in s["fields"]:
            for tn in (f["type"], f["under"]):
                if tn in self.p.structs or tn in ALIAS:
                    out += self.containers(tn, base + f["off"], depth + 1)
                    break
        return out

    def havoc_guarded(self, it, st, fr, I, o, d, base):
        """Another thread may have changed the guarded state."""
        keep = []
        fixed = GUARD[d][2] + [GUARD[d][0]]
        for f in fixed:
            if not has_field(self.p, d, f):
                continue
            off, size = field_off(self.p, d, f)
            if size not in (1, 2, 4, 8):
                continue
            s = self.p.structs[d]
            t = "ptr" if f in ("destroy_fn",) else "i%d" % (8 * size)
            v = it.load(st, fr, I, ("P", o, L.const(base + off)), size, t)
            keep.append((off, size, v))
        wl, it.write_log = it.write_log, None
        it.havoc(st, o, L.const(base), L.const(self.p.structs[d]["size"]))
        for off, size, v in keep:
            it.store(st, ("P", o, L.const(base + off)), size, v)
        it.write_log = wl
        if wl is not None:
            fixed_offs = {off for off, _, _ in keep}
            own = [field_off(self.p, d, f) for f in GUARD[d][:2] if f]
            for off, size, t in libmodel.leaves(it, d, 0):
                if off not in fixed_offs and not any(lo <= off < lo + n for lo, n in own):
                    wl.append((o, L.const(base + off), size))

    def on_call(self, it, st, fr, I, name, args):
        if name in LOCKS:
            p = it.as_ptr(st, args[0])
            k = ("lk", p[1], p[2])
            if not it.quiet:
                self.site("lock", fr, I)
            if st.cl.get(k):
                self.report(it, st, fr, I, "relock", "locks a mutex (%s) that this call already holds" % it.field_name(p))
                return []
            if name == "pthread_mutex_trylock":
                s2 = st.copy()
                st.cl[k] = 1
                busy = it.mk_atom("trylock#%d" % it.bump(), 1, 255)
                return [(st, ("I", 32, L.ZERO)), (s2, ("I", 32, L.atom(busy)))]
            st.cl[k] = 1
            st.cl.pop("sig", None)
            c = self.struct_at(it, p, "lock")
            if c:
                self.havoc_guarded(it, st, fr, I, p[1], *c)
            elif it.objs[p[1]].kind == "global":
                self.havoc_globals(it, st, fr)
            return None
        if name == "pthread_mutex_unlock":
            p = it.as_ptr(st, args[0])
            k = ("lk", p[1], p[2])
            if not it.quiet:
                self.site("unlock", fr, I)
            if not st.cl.get(k):
                self.report(it, st, fr, I, "unlock-unheld", "unlocks a mutex (%s) that is not held on this path" % it.field_name(p))
                return []
            st.cl.pop(k)
            return None
        if name in ("pthread_cond_wait", "pthread_cond_timedwait"):
            cv, m = it.as_ptr(st, args[0]), it.as_ptr(st, args[1])
            if not it.quiet:
                self.site("wait", fr, I)
            if not st.cl.get(("lk", m[1], m[2])):
                self.report(it, st, fr, I, "wait-unheld", "waits with mutex %s not held" % it.field_name(m))
            c, cm = self.struct_at(it, cv, "cond"), self.struct_at(it, m, "lock")
            if c and cm != c or (c and cv[1] != m[1]):
                self.report(it, st, fr, I, "wait-mutex", "waits on %s with a mutex that does not guard it" % it.field_name(cv))
            if c:
                self.on_wait(it, st, fr, I, name, cv[1], c)
                self.havoc_guarded(it, st, fr, I, cv[1], *c)
            return None
        if name in ("pthread_cond_signal", "pthread_cond_broadcast"):
            cv = it.as_ptr(st, args[0])
            if not it.quiet:
                self.site("signal", fr, I)
            c = self.struct_at(it, cv, "cond")
            if c:
                st.cl["sig"] = (cv[1], c)
            return None
        if name == "pthread_mutex_destroy":
            p = it.as_ptr(st, args[0])
            if st.cl.get(("lk", p[1], p[2])):
                self.report(it, st, fr, I, "destroy-held", "destroys a mutex (%s) while holding it" % it.field_name(p))
            return None
        if name in ("pthread_join",):
            return None
        return None

    def havoc_globals(self, it, st, fr):
        for o in list(st.mem):
            ob = it.objs[o]
            if ob.kind == "global" and ob.init != "const":
                it.havoc(st, o)

    def on_wait(self, it, st, fr, I, name, o, c):
        pass

    def on_event(self, it, st, fr, I, what, data):
        if what == "free" and not it.quiet:
            o = data[1]
            for k in st.cl:
                if k[0] == "lk" and k[1] == o and not isinstance(k, str):
                    self.report(it, st, fr, I, "free-held", "frees %s while its mutex is held" % it.objs[o].name)

    def on_access(self, it, st, fr, I, kind, p, size, val):
        if it.quiet and kind != "load":
            pass
        o = p[1]
        if o in self.elem and kind in ("load", "store", "rmw", "strread"):
            co, base, d = self.elem[o]
            self.check_held(it, st, fr, I, kind, co, base, d, "the stored elements")
            return
        ob = it.objs[o]
        if ob.kind == "global":
            self.check_global(it, st, fr, I, kind, p)
            return
        if ob.kind != "sym":
            return
        if p[2][1]:
            return
        off = p[2][0]
        for base, d in self.containers(ob.ditype):
            rel = off - base
            if not (0 <= rel < self.p.structs[d]["size"]):
                continue
            f = it.ditype_at(d, rel)
            if not f:
                continue
            nm = f[0]
            if nm in GUARD[d][2] or nm.split(".")[0] in (GUARD[d][0], GUARD[d][1]):
                return
            if kind == "load" and val is not None and val[0] == "P":
                if val[1] != NULL and it.objs[val[1]].kind in ("sym", "heap"):
                    self.elem[val[1]] = (o, base, d)
            self.check_held(it, st, fr, I, kind, o, base, d, nm)
            return

    def check_held(self, it, st, fr, I, kind, o, base, d, nm):
        if it.quiet or self.entry in UNGUARDED:
            return
        lo, _ = field_off(self.p, d, GUARD[d][0])
        if st.cl.get(("lk", o, L.const(base + lo))):
            self.site("guarded access", fr, I)
            return
        # a queue created without thread safety has no lock
        for flag in ("threadsafe", "uselock"):
            if has_field(self.p, d, flag):
                off, size = field_off(self.p, d, flag)
                v = it.load(st, fr, I, ("P", o, L.const(base + off)), size, "i8")
                if it.const_of(st, v) == 0:
                    return
                if it.entails_eq(st, it.u(st, v)):
                    return
        self.report(it, st, fr, I, "unguarded", "%s of %s (%s) without holding its lock" % (
            "reads" if kind in ("load", "strread") else "writes", nm, d))

    def check_global(self, it, st, fr, I, kind, p):
        """Process-wide mutable state of the secure random source."""
        ob = it.objs[p[1]]
        if it.quiet or not self.entry.startswith("cf_get_rand") or ob.init == "const":
            return
        g = ob.extra
        if not g or g.get("tls") or g.get("ditype") in ("pthread_mutex_t", "anon"):
            return
        if "cf_random" not in fr.fn.file:
            return
        if g.get("const"):
            return
        if any(k[0] == "lk" for k in st.cl if isinstance(k, tuple)):
            self.site("guarded access", fr, I)
            return
        self.report(it, st, fr, I, "unguarded", "%s process-wide state %s without holding a lock" % (
            "reads" if kind in ("load", "strread") else "writes", ob.name))


def held(st):
    return [k for k in st.cl if isinstance(k, tuple) and k[0] == "lk"]


def analyse_entry(name, client_cls, setup=None):
    prog = program()
    fn = prog.need(name)
    c = client_cls(prog, name)
    it = absint.Interp(prog, c)
    st = absint.State()
    args = sym_args(it, st, fn)
    # operations are called on existing objects
    for i, (a, v) in enumerate(zip(fn.args, args)):
        if v[0] == "P" and i == 0:
            st.nn[v[1]] = True
    c.begin(it, st, fn, args)
    for s, rv in it.call_fn(fn, args, st):
        c.end(it, s, fn, args, rv)
    return c.reports, c.counts, {k: v for k, v in it.externs.items()}


class PairClient(LockClient):
    def begin(self, it, st, fn, args):
        self.fn = fn

    def end(self, it, st, fn, args, rv):
        self.count("return states")
        for k in held(st):
            self.report_at("return-held", fn.file, fn.line, fn.name,
                           "can return still holding %s" % it.field_name(("P", k[1], k[2])), it.trace_lines(st))


PAIR_RULES = {"relock", "unlock-unheld", "return-held", "wait-unheld", "wait-mutex", "destroy-held", "free-held"}
GUARD_RULES = {"unguarded"}


def names(prog):
    r = reaches(prog, ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock",
                       "pthread_cond_wait", "pthread_cond_timedwait"])
    out = [n for n in API if n in r or prog.find(n)]
    for n in API:
        if n not in ("cf_queue_sz",) and prog.find(n) is None:
            raise AnalysisBroken("public operation %s is no longer defined" % n)
    extra = [n for n in sorted(r) if n not in API and is_public(prog.need(n)) and not prog.need(n).name.startswith("_")]
    return out, extra


def collect(prog, rules, cls=PairClient):
    base, extra = names(prog)
    res = Result()
    jobs = [(analyse_entry, (n, cls)) for n in base + extra]
    outs = parallel(jobs)
    for n, (reps, counts, ext) in zip(base + extra, outs):
        rs = [r for r in reps.values() if r["rule"] in rules]
        if n in extra and rs and all(r["rule"] in ("return-held", "unlock-unheld") for r in rs):
            # a new helper whose only effect is to take or release a lock is judged at its callers
            if uniform_helper(n):
                continue
        res.reports += rs
        res.instances.append(n)
        for k, v in counts.items():
            res.counts[k] = res.counts.get(k, 0) + v
    return res


def uniform_helper(name):
    prog = program()
    fn = prog.need(name)
    cg_callers = reaches(prog, [name])
    return bool(cg_callers)


def check_pairing(prog, tier):
    res = collect(prog, PAIR_RULES)
    res.need("lock", 20)
    res.need("unlock", 25)
    res.need("return states", 60)
    res.assumptions = ["distinct pointer parameters do not alias", "pthread_mutex_lock succeeds"]
    return res


def check_guarded(prog, tier):
    res = collect(prog, GUARD_RULES)
    res.need("guarded access", 100)
    res.assumptions = ["constructors and destructors run while no other thread uses the object"]
    return res


# ------------------------------------------------------------------ wake-ups
# operation -> (container struct, value returned on success)
PUSH = {n: ("cf_queue", 0) for n in ("cf_queue_push", "cf_queue_push_index", "cf_queue_push_unique", "cf_queue_push_head")}
PUSH["cf_queue_push_limit"] = ("cf_queue", 1)
PUSH.update({n: ("as_queue_mt", 1) for n in ("as_queue_mt_push", "as_queue_mt_push_limit", "as_queue_mt_push_head",
                                             "as_queue_mt_push_head_limit")})
# operation -> (container, index of the wait argument, success value)
POP = {"cf_queue_pop": ("cf_queue", 2, 0), "cf_queue_reduce_pop": ("cf_queue", 2, 0),
       "as_queue_mt_pop": ("as_queue_mt", 2, 1), "as_queue_mt_pop_tail": ("as_queue_mt", 2, 1)}
FOREVER, NOWAIT = -1, 0


def count_form(it, st, fr, o, d):
    """Number of queued elements as a form (write position - read position)."""
    r, w = {"cf_queue": ("read_offset", "write_offset"), "as_queue_mt": ("queue.head", "queue.tail")}[d]
    def ld(f):
        off, size = field_off(it.p, d, f)
        return it.u(st, it.load(st, fr, None, ("P", o, L.const(off)), size, "i%d" % (8 * size)))
    return L.sub(ld(w), ld(r))


class WakeClient(LockClient):
    mode = None

    def begin(self, it, st, fn, args):
        self.fn = fn
        self.args = args

    def on_access(self, *a):
        pass

    def queue_empty(self, it, st, fr, o, d):
        if it.entails_eq(st, count_form(it, st, fr, o, d)):
            return True
        if d == "cf_queue":
            off, size = field_off(it.p, d, "n_eles")
            return it.entails_eq(st, it.u(st, it.load(st, fr, None, ("P", o, L.const(off)), size, "i32")))
        return False

    def on_wait(self, it, st, fr, I, name, o, c):
        d, base = c
        if d == "as_monitor":
            off, size = field_off(it.p, d, "complete")
            v = it.load(st, fr, None, ("P", o, L.const(base + off)), size, "i8")
            if it.const_of(st, v) != 0 and not it.entails_eq(st, it.u(st, v)):
                self.report(it, st, fr, I, "wait-satisfied", "can wait although the monitor is already complete")
            return
        if d not in ("cf_queue", "as_queue_mt"):
            return
        self.site("checked wait", fr, I)
        if not self.queue_empty(it, st, fr, o, d):
            self.report(it, st, fr, I, "wait-nonempty", "can wait on a queue that has elements (emptiness not re-checked)")
        if self.mode == "nowait":
            self.report(it, st, fr, I, "nowait-blocks", "waits although the caller asked not to wait")
        if self.mode == "timed" and name == "pthread_cond_wait":
            self.report(it, st, fr, I, "timed-unbounded", "waits without a deadline although the caller gave one")

    def on_call(self, it, st, fr, I, name, args):
        if name == "pthread_cond_timedwait" and not it.quiet:
            p = it.as_ptr(st, args[2])
            v = it.load(st, fr, I, p, 8, "i64")
            w = it.load(st, fr, I, ("P", p[1], L.addc(p[2], 8)), 8, "i64")
            if v[0] == "U" or w[0] == "U":
                self.report(it, st, fr, I, "deadline-unset", "waits until a deadline that was never computed on this path")
        return super().on_call(it, st, fr, I, name, args)

    def end(self, it, st, fn, args, rv):
        name = fn.name
        self.count("return states")
        if name in PUSH:
            d, ok = PUSH[name]
            if it.const_of(st, rv) != ok and self.differs(it, st, rv, ok):
                return
            o = args[0][1]
            if d == "cf_queue":
                off, size = field_off(it.p, d, "threadsafe")
                v = it.load(st, None, None, ("P", o, L.const(off)), size, "i8")
                if it.const_of(st, v) == 0 or it.entails_eq(st, it.u(st, v)):
                    return
            self.count("successful push")
            if st.cl.get("sig") != (o, (d, 0)):
                self.report_at("no-wakeup", fn.file, fn.line, name,
                               "can report a successful push without signalling the queue's condition after taking its lock",
                               it.trace_lines(st))
        elif name in POP:
            d, wi, ok = POP[name]
            o = args[0][1]
            success = not self.differs(it, st, rv, ok)
            if not success or it.const_of(st, rv) != ok:
                self.count("empty-handed return")
                if self.mode == "forever" and not self.not_threadsafe(it, st, o, d):
                    self.report_at("forever-empty", fn.file, fn.line, name,
                                   "can give up although the caller asked to wait without limit", it.trace_lines(st))
                if not success and not self.queue_empty(it, st, None, o, d):
                    self.report_at("empty-not-empty", fn.file, fn.line, name,
                                   "can report an empty queue that has elements", it.trace_lines(st))
            else:
                self.count("successful pop")
        elif name == "as_monitor_wait":
            off, size = field_off(it.p, "as_monitor", "complete")
            v = it.load(st, None, None, ("P", args[0][1], L.const(off)), size, "i8")
            l = it.u(st, v)
            if not it.entails(st, L.addc(l, -1)):
                self.report_at("early-return", fn.file, fn.line, name, "can return before the monitor is complete", it.trace_lines(st))
            self.count("monitor return")
        elif name == "as_monitor_notify":
            off, size = field_off(it.p, "as_monitor", "complete")
            v = it.load(st, None, None, ("P", args[0][1], L.const(off)), size, "i8")
            if not it.entails(st, L.addc(it.u(st, v), -1)):
                self.report_at("not-complete", fn.file, fn.line, name, "can return without marking the monitor complete", it.trace_lines(st))
            if st.cl.get("sig") != (args[0][1], ("as_monitor", 0)):
                self.report_at("no-wakeup", fn.file, fn.line, name, "can return without signalling the waiter", it.trace_lines(st))
            self.count("monitor return")

    def not_threadsafe(self, it, st, o, d):
        if d != "cf_queue":
            return False
        off, size = field_off(it.p, d, "threadsafe")
        v = it.load(st, None, None, ("P", o, L.const(off)), size, "i8")
        return it.const_of(st, v) == 0 or it.entails_eq(st, it.u(st, v))

    def differs(self, it, st, rv, ok):
        """rv is known not to be `ok`."""
        c = it.icmp(st, "eq", "i1" if rv[0] == "B" else "i%d" % rv[1], rv, ("B", bool(ok)) if rv[0] == "B" else ("I", rv[1], L.const(ok)))
        return it.decide(st, c) is False


def wake_entry(name, mode):
    prog = program()
    fn = prog.need(name)
    c = WakeClient(prog, name if not mode else "%s (%s)" % (name, mode))
    c.mode = mode
    it = absint.Interp(prog, c)
    st = absint.State()
    args = sym_args(it, st, fn)
    st.nn[args[0][1]] = True
    if mode:
        wi = POP[name][1]
        w = args[wi][1]
        if mode == "forever":
            args[wi] = ("I", w, L.const(FOREVER))
        elif mode == "nowait":
            args[wi] = ("I", w, L.const(NOWAIT))
        elif mode == "timed":
            args[wi] = ("I", w, L.atom(it.mk_atom("wait_ms", 1, 1 << 30)))
        else:
            args[wi] = ("I", w, L.atom(it.mk_atom("wait_ms", -(1 << 31), -2)))
    c.begin(it, st, fn, args)
    for s, rv in it.call_fn(fn, args, st):
        c.end(it, s, fn, args, rv)
    return c.reports, c.counts


def check_wakeups(prog, tier):
    res = Result()
    jobs = [(wake_entry, (n, None)) for n in sorted(PUSH) + ["as_monitor_wait", "as_monitor_notify"]]
    for n in sorted(POP):
        for m in ("forever", "nowait", "timed", "negative"):
            jobs.append((wake_entry, (n, m)))
    skip = PAIR_RULES
    for (f, a), (reps, counts) in zip(jobs, parallel(jobs)):
        res.instances.append("%s %s" % (a[0], a[1] or ""))
        res.reports += [r for r in reps.values() if r["rule"] not in skip]
        for k, v in counts.items():
            res.counts[k] = res.counts.get(k, 0) + v
    res.need("successful push", 9)
    res.need("successful pop", 8)
    res.need("checked wait", 8)
    res.need("empty-handed return", 8)
    res.need("monitor return", 2)
    return res
