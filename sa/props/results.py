"""Results of calls: one value, held and given up once."""
from .. import absint, contracts as C, lin as L
from ..harness import Result, field_off, parallel, sym_arg
from .maps import nomem, null
from .refs import MANY, Run as RefsRun

S = "as_result"
# function -> (made on the heap, success flag, takes a value)
NEW = {"as_result_init": (0, 0, False), "as_result_new": (1, 0, False), "as_success_init": (0, 1, True),
       "as_failure_init": (0, 0, True), "as_success_new": (1, 1, True), "as_failure_new": (1, 0, True)}
SET = {"as_result_setsuccess": 1, "as_result_setfailure": 0}
OPS = list(NEW) + list(SET) + ["as_result_value", "as_result_reserve", "as_result_destroy"]


class Run(RefsRun):
    def value(self, st, name):
        return C.region(self.it, st, name, L.const(16), "as_val")

    def gave(self, st):
        return {k[1]: n for k, n in st.cl.items() if k[0] == "gave"}

    def holds(self, st, o, v, success, heap=None):
        it = self.it
        got = C.get(it, st, o, 0, S, "value", True)
        if not (got == v or v == C.NULLP and null(it, st, got)):
            self.fail(st, "content", "the result does not hold its value")
        want = dict(is_success=success)
        if heap is not None:
            want.update(is_malloc=heap, count=1)
        for f, k in want.items():
            x = C.fields(it, st, o, 0, S, [f])[0]
            if x is None or not it.entails_eq(st, L.addc(x, -k)):
                self.fail(st, "content", "the %s of the result is not %d" % (
                    {"is_success": "success flag", "is_malloc": "heap mark", "count": "count"}[f], k))

    def create(self):
        it = self.it
        heap, ok, has = NEW[self.fn.name]
        for some in (True, False) if has else (False,):
            st = absint.State()
            av = []
            if not heap:
                av.append(C.region(it, st, "result", L.const(it.p.structs[S]["size"]), S, "undef"))
            v = self.value(st, "value") if some else C.NULLP
            if has:
                av.append(v)
            for e, rv in self.call(st, av):
                if self.gave(e):
                    self.fail(e, "references", "gives up the value it should hold")
                if null(it, e, rv) and heap:
                    if not nomem(it, e):
                        self.fail(e, "result", "returns nothing although memory was available")
                    continue
                if rv[0] != "P" or rv[2] != L.ZERO or (e.heap.get(rv[1]) != "live" if heap else rv != av[0]):
                    self.fail(e, "result", "does not return the result")
                    continue
                self.cl.count("outcomes")
                self.holds(e, rv[1], v, ok, heap)

    def entry(self, heap, some):
        it = self.it
        st = absint.State()
        r = (C.owned if heap else C.region)(it, st, "result", L.const(it.p.structs[S]["size"]), S)
        v = self.value(st, "old value") if some else C.NULLP
        C.put(it, st, r[1], 0, S, "value", v)
        C.put(it, st, r[1], 0, S, "is_malloc", heap)
        C.put(it, st, r[1], 0, S, "is_success", C.num(it, "success", 0, 1, 8))
        C.put(it, st, r[1], 0, S, "count", ("I", 32, L.atom(it.mk_atom("count", 1, MANY))))
        return st, r, v

    def entries(self):
        for heap in (0, 1):
            for some in (True, False):
                yield self.entry(heap, some) + (heap, some)

    def replace(self):
        for st, r, old, heap, some in self.entries():
            for new in (True, False):
                s = st.copy()
                v = self.value(s, "new value") if new else C.NULLP
                for e, rv in self.call(s, [r, v]):
                    self.cl.count("outcomes")
                    self.holds(e, r[1], v, SET[self.fn.name])
                    if rv != r:
                        self.fail(e, "result", "does not return the result")
                    if self.gave(e) != ({old[1]: 1} if some else {}):
                        self.fail(e, "references", "the replaced value is not given up exactly once")

    def look(self):
        for st, r, old, heap, some in self.entries():
            for e, rv in self.call(st, [r]):
                self.cl.count("outcomes")
                if not (rv == old or not some and null(self.it, e, rv)) or self.gave(e):
                    self.fail(e, "result", "does not return the value it keeps holding")

    def counted(self):
        it = self.it
        off = field_off(it.p, S, "count")[0]
        up = self.fn.name.endswith("reserve")
        for st, r, old, heap, some in self.entries():
            self.watch(r[1], off)
            for e, rv in self.call(st, [r]):
                self.cl.count("outcomes")
                if not self.step(e, 1 if up else -1):
                    continue
                n = e.cl["old"]
                last = not up and it.entails_eq(e, L.addc(n, -1))
                if not up and not last and not it.entails(e, L.addc(n, -2)):
                    self.fail(e, "count", "acts the same whether or not this was the last reference")
                    continue
                if up and rv != r:
                    self.fail(e, "result", "does not return the result")
                if (e.heap.get(r[1]) == "freed") != bool(last and heap):
                    self.fail(e, "cleanup", "a result on the heap is not freed exactly with its last reference")
                if self.gave(e) != ({old[1]: 1} if last and some else {}):
                    self.fail(e, "cleanup", "the value is not given up exactly once, with the last reference")


def run_op(name):
    r = Run(name)
    if name in NEW:
        r.create()
    elif name in SET:
        r.replace()
    elif name == "as_result_value":
        r.look()
    else:
        r.counted()
    r.cl.count("operations")
    return r.cl


def check_results(p, tier):
    res = Result()
    for n in OPS:
        p.need(n)
    for cl in parallel([(run_op, (n,)) for n in OPS]):
        res.add_client(cl)
    res.instances = OPS
    res.need("operations", len(OPS))
    res.need("outcomes", 30)
    res.need("atomic step", 1)
    return res
