"""Clock readings, deadlines and epoch conversions are exact."""
from .. import absint, contracts as C, lin as L
from ..harness import Result, parallel, program
from .storage import StoreClient

G = 1000000000
EPOCH = 1262304000
M64 = 1 << 64
REAL, MONO = 0, 1
T = "timespec"
# a reading of the clock: function -> (clock, nanoseconds per unit, seconds taken off)
READ = {"cf_getns": (MONO, 1, 0), "cf_getus": (MONO, 1000, 0), "cf_getms": (MONO, 1000000, 0),
        "cf_get_seconds": (MONO, G, 0), "cf_clock_getabsolute": (REAL, 1000000, 0),
        "cf_clepoch_milliseconds": (REAL, 1000000, EPOCH), "cf_secs_since_clepoch": (REAL, G, EPOCH),
        "cf_clepoch_seconds": (REAL, G, EPOCH)}
FROM = {"cf_clepoch_ns_from_utc_ns": 1, "cf_clepoch_us_from_utc_ns": 1000, "cf_clepoch_ms_from_utc_ns": 1000000,
        "cf_clepoch_sec_from_utc_ns": G}
TO = {"cf_utc_ns_from_clepoch_ns": 1, "cf_utc_ns_from_clepoch_us": 1000, "cf_utc_ns_from_clepoch_ms": 1000000,
      "cf_utc_ns_from_clepoch_sec": G}
WAIT = ["cf_set_wait_timespec", "cf_clock_current_add", "cf_clock_set_timespec_ms"]
TTL = ["cf_server_void_time_to_ttl"]
OPS = list(READ) + list(FROM) + list(TO) + WAIT + TTL


class Clock(StoreClient):
    """Stands for the system clock: any second since the library's epoch, any nanosecond."""

    def on_call(self, it, st, fr, I, name, args):
        if name in ("clock_gettime", "gettimeofday", "time"):
            self.site("clock reading", fr, I)
            if st.cl.get("read") or name != "clock_gettime":
                return super().on_call(it, st, fr, I, name, args)
            st.cl["read"] = it.const_of(st, args[0])
            p = it.as_ptr(st, args[1])
            C.put(it, st, p[1], p[2][0] if not p[2][1] else p[2], T, "tv_sec", ("I", 64, self.sec))
            C.put(it, st, p[1], p[2][0] if not p[2][1] else p[2], T, "tv_nsec", ("I", 64, self.nsec))
            return [(st, ("I", 32, L.ZERO))]
        return super().on_call(it, st, fr, I, name, args)


class Run:
    def __init__(self, name):
        p = program()
        self.p = p
        self.name = name
        self.fn = p.need(name)
        self.cl = Clock(p, name)
        self.it = it = absint.Interp(p, self.cl, max_steps=500000, max_states=300, keep=60)
        self.cl.sec = L.atom(it.mk_atom("seconds", EPOCH, EPOCH + (1 << 32) - 1))
        self.cl.nsec = L.atom(it.mk_atom("nanoseconds", 0, G - 1))
        self.now = L.add(L.scale(self.cl.sec, G), self.cl.nsec)

    def fail(self, st, rule, msg):
        self.cl.report_at(rule, self.fn.file, self.fn.line, self.fn.name, msg, self.it.trace_lines(st))

    def call(self, args, st):
        outs = self.it.call_fn(self.fn, args, st)
        for e, rv in outs:
            self.cl.count("outcomes")
            yield e, rv

    def clocked(self, e, which):
        if e.cl.get("read") != which:
            self.fail(e, "clock", "does not read the %s clock" % ("monotonic" if which == MONO else "wall"))
            return False
        return True

    def floor(self, e, r, ns, unit):
        """r == ns // unit, as unsigned numbers."""
        it = self.it
        d = L.sub(ns, L.scale(r, unit))
        return it.entails(e, d) and it.entails(e, L.addc(L.neg(d), unit - 1))

    def do_read(self):
        which, unit, off = READ[self.name]
        for e, rv in self.call([], absint.State()):
            if self.clocked(e, which):
                ns = L.addc(self.now, -off * G)
                r = self.it.u(e, rv)
                if not self.floor(e, r, ns, unit):
                    self.fail(e, "reading", "the reading is not the clock's time in the unit named, rounded down")
                self.cl.count("readings compared")

    def do_from(self):
        it = self.it
        unit = FROM[self.name]
        t = L.atom(it.mk_atom("utc", 0, M64 - 1))
        for early in (True, False):
            st = absint.State()
            d = L.addc(t, -EPOCH * G)
            if not it.add_ge(st, L.neg(d) if early else d):
                continue
            for e, rv in self.call([("I", 64, t)], st):
                r = it.u(e, rv)
                if not (it.entails_eq(e, r) if early else self.floor(e, r, d, unit)):
                    self.fail(e, "conversion", "a time %s the epoch is not converted to %s" % (
                        ("before", "zero") if early else ("after", "its distance, rounded down")))
                self.cl.count("conversions compared")

    def do_to(self):
        it = self.it
        unit = TO[self.name]
        t = L.atom(it.mk_atom("time", 0, (M64 - 1 - EPOCH * G) // unit))
        for e, rv in self.call([("I", 64, t)], absint.State()):
            if not it.entails_eq(e, L.sub(it.u(e, rv), L.addc(L.scale(t, unit), EPOCH * G))):
                self.fail(e, "conversion", "the result is not the time since the system epoch in nanoseconds")
            self.cl.count("conversions compared")

    def do_wait(self):
        it = self.it
        st = absint.State()
        out = C.region(it, st, "deadline", L.const(self.p.structs[T]["size"]), T)
        if self.name == "cf_clock_current_add":
            d = C.region(it, st, "delta", L.const(self.p.structs[T]["size"]), T)
            s, n = L.atom(it.mk_atom("delta.s", 0, 1 << 40)), L.atom(it.mk_atom("delta.ns", 0, G - 1))
            C.put(it, st, d[1], 0, T, "tv_sec", ("I", 64, s))
            C.put(it, st, d[1], 0, T, "tv_nsec", ("I", 64, n))
            args, want = [d, out], L.add(L.scale(s, G), n)
        else:
            ms = L.atom(it.mk_atom("ms", 0, (1 << 31) - 1))
            args, want = [("I", 32, ms), out], L.scale(ms, 1000000)
        for e, _ in self.call(args, st):
            w = want
            if self.name != "cf_clock_set_timespec_ms":
                if not self.clocked(e, REAL):
                    continue
                w = L.add(w, self.now)
            s, n = [it.s(e, C.get(it, e, out[1], 0, T, f)) for f in ("tv_sec", "tv_nsec")]
            if not it.entails(e, n) or not it.entails(e, L.addc(L.neg(n), G - 1)):
                self.fail(e, "form", "the nanoseconds can be outside 0 to 999999999")
            if not it.entails_eq(e, L.sub(L.add(L.scale(s, G), n), w)):
                self.fail(e, "deadline", "the time set is not exactly the time asked for")
            self.cl.count("deadlines compared")

    def do_ttl(self):
        it = self.it
        t = L.atom(it.mk_atom("void time", 0, (1 << 32) - 1))
        now = L.addc(self.cl.sec, -EPOCH)
        for k in range(3):
            st = absint.State()
            d = L.sub(t, now)
            ok = it.add_eq(st, t) if k == 0 else it.add_ge(st, L.addc(t, -1)) and \
                it.add_ge(st, L.addc(d, -1) if k == 1 else L.neg(d))
            if not ok:
                continue
            for e, rv in self.call([("I", 32, t)], st):
                want = (L.const((1 << 32) - 1), d, L.const(1))[k]
                if k and not self.clocked(e, REAL):
                    continue
                if not it.entails_eq(e, L.sub(it.u(e, rv), want)):
                    self.fail(e, "ttl", ("a record that never expires", "a record that expires later", "an expired record")[k]
                              + " gets a wrong time to live")
                self.cl.count("conversions compared")


def run_op(name):
    r = Run(name)
    kind = "read" if name in READ else "from" if name in FROM else "to" if name in TO else "ttl" if name in TTL else "wait"
    getattr(r, "do_" + kind)()
    r.cl.count("functions")
    return r.cl


def check_clock(p, tier):
    res = Result()
    for cl in parallel([(run_op, (n,)) for n in OPS]):
        res.add_client(cl)
    res.instances = list(OPS)
    res.need("functions", len(OPS))
    res.need("readings compared", len(READ))
    res.need("conversions compared", 12)
    res.need("deadlines compared", 3)
    res.assumptions = ["the system clock is between 2010 and 2146 and its nanoseconds are below 10^9",
                       "waits and added times are not negative"]
    return res
