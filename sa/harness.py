"""Shared by all checks: symbolic arguments, reports, evidence, exit protocol."""
import json
import os
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
from . import frontend, absint, lin as L
from .frontend import AnalysisBroken
from .absint import NULL

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def where(fr, I):
    f = I.get("fl") or fr.fn.file
    r = frontend.REPO + "/"
    if f.startswith(r):
        f = f[len(r):]
    return f, I.get("ln", fr.fn.line)


class RuleClient(absint.Client):
    """Collects reports; one entry per (rule, file, line, instance)."""

    def __init__(self):
        self.reports = {}
        self.counts = {}
        self.entry = "?"
        self._sites = set()

    def __getstate__(self):
        """Only results travel back from worker processes."""
        return {k: v for k, v in self.__dict__.items()
                if isinstance(v, (str, int, bool, tuple, set, dict, list, frozenset, type(None)))
                and k not in ("ring", "_sites")}

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def site(self, what, fr, I):
        """Count a distinct source site once."""
        k = (what,) + where(fr, I) + (I["id"],)
        if k not in self._sites:
            self._sites.add(k)
            self.count(what)

    def report(self, it, st, fr, I, rule, msg):
        if it.quiet:
            return
        f, ln = where(fr, I)
        k = (rule, f, ln, self.entry)
        if k not in self.reports:
            self.reports[k] = dict(rule=rule, file=f, line=ln, function=fr.fn.name, entry=self.entry,
                                   message=msg, path=it.trace_lines(st))

    def report_at(self, rule, file, line, function, msg, path=()):
        k = (rule, file, line, self.entry)
        if k not in self.reports:
            self.reports[k] = dict(rule=rule, file=file, line=line, function=function, entry=self.entry,
                                   message=msg, path=list(path))


def sym_args(it, st, fn, over=None):
    """Symbolic arguments named after the parameters."""
    out = []
    for i, a in enumerate(fn.args):
        if over and a["name"] in over:
            out.append(over[a["name"]])
            continue
        if over and i in over:
            out.append(over[i])
            continue
        out.append(sym_arg(it, fn, i))
    return out


def sym_arg(it, fn, i):
    a = fn.args[i]
    dt = fn.ditypes[i + 1] if len(fn.ditypes) > i + 1 else None
    nm = a["name"] or "arg%d" % i
    if a["type"] == "ptr":
        o = it.new_obj("sym", nm, None, dt[:-1] if dt and dt.endswith("*") else None)
        return ("P", o, L.ZERO)
    w = absint.width(a["type"])
    if w and w > 1:
        a_ = it.mk_atom(nm, 0, (1 << w) - 1)
        return ("I", w, L.atom(a_))
    if w == 1:
        a_ = it.mk_atom(nm, 0, 1)
        return ("B", ("ne", L.atom(a_)))
    return ("D", ("arg", nm, it.bump()))


def field_off(prog, struct, path):
    """Byte offset and size of a (dotted) field."""
    off = 0
    cur = struct
    size = 0
    for part in path.split("."):
        f = prog.field(cur, part)
        off += f["off"]
        size = f["size"]
        cur = f["type"] if f["type"] in prog.structs else f["under"]
    return off, size


def has_field(prog, struct, path):
    try:
        field_off(prog, struct, path)
        return True
    except AnalysisBroken:
        return False


def load_field(it, st, fr, ptr, path, t=None):
    ob = it.objs[ptr[1]]
    off, size = field_off(it.p, ob.ditype, path)
    return it.load(st, fr, None, ("P", ptr[1], L.addc(ptr[2], off)), size, t or ("i%d" % (8 * size)))


def is_public(fn):
    """Exported from a .c file, or defined in a public header."""
    return (not fn.internal and fn.file.startswith("src/main")) or fn.file.startswith("src/include")


def callgraph(prog):
    cg = prog.__dict__.get("_cg")
    if cg is None:
        cg = {}
        for fn in prog.all_functions():
            s = set()
            for b in fn.blocks:
                for i in b["i"]:
                    if i["op"] == "call" and i["callee"][0] == "f":
                        s.add(i["callee"][1])
            cg.setdefault(fn.name, set()).update(s)
        prog.__dict__["_cg"] = cg
    return cg


def reaches(prog, targets):
    """Names of repo functions from which a call to `targets` is reachable."""
    cg = callgraph(prog)
    rev = {}
    for a, bs in cg.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)
    seen, todo = set(), list(targets)
    while todo:
        x = todo.pop()
        for c in rev.get(x, ()):
            if c not in seen:
                seen.add(c)
                todo.append(c)
    return seen


# ----------------------------------------------------------------- running
class Result:
    """What one check found on this run."""

    def __init__(self):
        self.reports = []
        self.counts = {}
        self.instances = []
        self.notes = []
        self.assumptions = []
        self.level = "other"
        self.explanation = ""
        self.extra = {}

    def add_client(self, c):
        self.reports += list(c.reports.values())
        for k, v in c.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v

    def need(self, what, n):
        """Fail as broken when fewer instances than confirmed by hand."""
        if self.counts.get(what, 0) < n:
            raise AnalysisBroken("only %d instances of '%s' were analysed, at least %d are expected" %
                                 (self.counts.get(what, 0), what, n))


_PROG = None


def program():
    global _PROG
    if _PROG is None:
        _PROG = frontend.load()
    return _PROG


def _worker(job):
    fn, args = job
    try:
        return ("ok", fn(*args))
    except AnalysisBroken as e:
        return ("broken", "%s" % e)
    except absint.Budget as e:
        return ("broken", "budget: %s" % e)
    except Exception:
        return ("broken", traceback.format_exc())


def parallel(jobs, procs=None):
    """Run [(function, args)] in worker processes; results in order."""
    program()
    if len(jobs) <= 1 or os.environ.get("VERIF_SERIAL"):
        res = [_worker(j) for j in jobs]
    else:
        import multiprocessing
        ctx = multiprocessing.get_context("fork")
        with ProcessPoolExecutor(procs or min(8, os.cpu_count() or 2), mp_context=ctx) as ex:
            res = list(ex.map(_worker, jobs, chunksize=max(1, len(jobs) // 64)))
    out = []
    for (k, v), j in zip(res, jobs):
        if k != "ok":
            raise AnalysisBroken("%s%r: %s" % (j[0].__name__, j[1], v))
        out.append(v)
    return out


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p))["open"]:
            if e["property"] == pid:
                out.append(e)
    return out


def run(pid, tier, fn, spec):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        absint.DEADLINE = t0 + 600
        prog = program()
        res = fn(prog, tier)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        return 3
    except absint.Budget as e:
        print("ANALYSIS-BROKEN property=%s: budget: %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % pid)
        return 3
    known = known_findings(pid)
    new, old = [], []
    seen = set()
    for r in res.reports:
        sig = (r["rule"], r["file"], r["line"], r["function"], r["message"])
        if sig in seen:
            continue
        seen.add(sig)
        hit = None
        for k in known:
            if k["rule"] == r["rule"] and k["function"] == r["function"] and \
                    (not k.get("entry") or k["entry"] == r["entry"]) and \
                    (not k.get("contains") or k["contains"] in r["message"]):
                hit = k
        (old if hit else new).append((r, hit))
    wall = round(time.time() - t0, 2)
    cov = dict(res.extra)
    cov.update(explanation=res.explanation or spec.get("rule", ""), rule=spec.get("rule", ""),
               analysed_instances=len(res.instances), instances=sorted(res.instances)[:400],
               counts=res.counts, violations_new=len(new), violations_known=len(old))
    for k, v in res.counts.items():
        cov.setdefault("n_" + k.replace(" ", "_"), v)
    ev = dict(property=pid, tier=tier, seed=seed, level=res.level, coverage=cov, wall_s=wall,
              assumptions=res.assumptions, violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    print("%s: %s" % (pid, spec["title"]))
    print("rule: %s" % spec.get("rule", ""))
    print("analysed %d instances in %.1fs; counts %s" % (len(res.instances), wall, res.counts))
    for n in res.notes:
        print("note: " + n)
    kf = set()
    for r, k in old:
        t = "KNOWN-FINDING: property=%s %s" % (pid, k["what"])
        if t not in kf:
            kf.add(t)
            print(t)
    if not new:
        print("OK property=%s holds on the analysed tree" % pid)
        return 0
    rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
    with open(rp, "w") as f:
        for r, _ in new:
            s = "%s:%s: [%s] in %s (entry %s): %s\n" % (r["file"], r["line"], r["rule"], r["function"], r["entry"], r["message"])
            for p in r["path"]:
                s += "    via %s\n" % p
            f.write(s)
            if len(new) < 40:
                print(s, end="")
    if len(new) >= 40:
        print(open(rp).read()[:6000])
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1
