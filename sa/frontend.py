"""Compile the current /repo tree to LLVM IR with the project's own flags and
load the resolved program (functions, CFG, globals, struct layouts)."""
import concurrent.futures
import hashlib
import json
import os
import re
import shlex
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL = os.path.join(BUILD, "irdump")
TOOLSRC = os.path.join(VERIF, "tool", "irdump.cpp")


class AnalysisBroken(Exception):
    """The analysis could not reach a verdict (anchor vanished, build failed)."""


def _first(*cands):
    for c in cands:
        p = c if os.path.isabs(c) and os.access(c, os.X_OK) else shutil.which(c)
        if p:
            return p
    raise AnalysisBroken("none of %s found" % (cands,))


def clang():
    return _first("/usr/lib/llvm-18/bin/clang", "/usr/bin/clang-18", "clang-18", "clang")


def build_tool(force=False):
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(TOOLSRC, "rb").read()).hexdigest()
    stamp = TOOL + ".sha"
    if not force and os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    cxx = _first("/usr/bin/g++", "g++", "/usr/lib/llvm-18/bin/clang++", "clang++")
    tmp = TOOL + ".tmp%d" % os.getpid()
    r = subprocess.run([cxx, "-O1", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", TOOLSRC,
                        "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18",
                        "-Wl,-rpath,/usr/lib/llvm-18/lib"], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("building irdump failed:\n" + r.stderr[-3000:])
    os.rename(tmp, TOOL)
    with open(stamp, "w") as f:
        f.write(h)


SYS_HEADERS = """stdbool.h stdint.h stddef.h stdio.h stdlib.h string.h stdarg.h inttypes.h pthread.h
time.h errno.h ctype.h unistd.h fcntl.h endian.h byteswap.h alloca.h math.h limits.h sys/types.h sys/stat.h sys/time.h dirent.h
arpa/inet.h netinet/in.h assert.h openssl/ssl.h openssl/x509.h openssl/x509v3.h""".split()


def compile_commands():
    r = subprocess.run(["make", "-nB", "build"], cwd=REPO, capture_output=True, text=True)
    cmds = []
    for line in r.stdout.splitlines():
        if " -c " not in line or ".c" not in line:
            continue
        try:
            a = shlex.split(line)
        except ValueError:
            continue
        srcs = [x for x in a if x.endswith(".c")]
        if len(srcs) != 1:
            continue
        flags = []
        i = 1
        while i < len(a):
            x = a[i]
            if x in ("-o",):
                i += 2
                continue
            if x in ("-c", "-rdynamic") or x == srcs[0] or re.match(r"-O", x) or x.startswith("-W"):
                i += 1
                continue
            flags.append(x)
            i += 1
        cmds.append((srcs[0], flags))
    if not cmds:
        raise AnalysisBroken("no compile commands from `make -nB build`:\n" + r.stderr[-500:])
    return cmds


def header_tu(dirname):
    """A unit that instantiates every inline function of every public header."""
    lines = ["#include <%s>" % h for h in SYS_HEADERS]
    lines.append("#define inline __attribute__((used))")
    inc = os.path.join(REPO, "src", "include")
    for sub in ("aerospike", "citrusleaf"):
        for h in sorted(os.listdir(os.path.join(inc, sub))):
            if h.endswith(".h") and not h.endswith("_win.h"):
                lines.append("#include <%s/%s>" % (sub, h))
    p = os.path.join(dirname, "allheaders.c")
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    return p


def tree_hash(cmds):
    h = hashlib.sha256()
    h.update(repr(cmds).encode())
    h.update(open(TOOLSRC, "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, "src"))):
        dirs.sort()
        if os.path.relpath(root, REPO).startswith("src/test"):
            continue
        for f in sorted(files):
            if f.endswith((".c", ".h", ".inc", ".def")):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def compile_all(pipeline="function(mem2reg)", opt="-O0"):
    build_tool()
    cmds = compile_commands()
    key = tree_hash((cmds, pipeline, opt, REPO))
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    cfile = os.path.join(cache, key + ".json")
    if os.path.exists(cfile):
        try:
            return json.load(open(cfile))
        except ValueError:
            pass
    d = tempfile.mkdtemp(prefix="sa-", dir=BUILD)
    try:
        jobs = []
        flags0 = cmds[0][1]
        for i, (src, flags) in enumerate(cmds):
            jobs.append((os.path.join(REPO, src), src, flags, "%d" % i))
        hdr = header_tu(d)
        jobs.append((hdr, "<headers>", flags0 + ["-Wno-everything"], "hdr"))

        def one(job):
            path, name, flags, tag = job
            bc = os.path.join(d, tag + ".bc")
            js = os.path.join(d, tag + ".json")
            cmd = [clang()] + flags + [opt, "-g", "-Xclang", "-disable-O0-optnone", "-w", "-fno-discard-value-names",
                                       "-emit-llvm", "-c", path, "-o", bc]
            r = subprocess.run(cmd, cwd=REPO, capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken("compiling %s failed:\n%s" % (name, r.stderr[-3000:]))
            r = subprocess.run([TOOL, bc, js, pipeline], capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken("dumping %s failed:\n%s" % (name, r.stderr[-3000:]))
            m = json.load(open(js))
            m["source"] = name
            return m
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            mods = list(ex.map(one, jobs))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    # keep the cache small
    olds = sorted((os.path.join(cache, f) for f in os.listdir(cache)), key=os.path.getmtime)
    for f in olds[:-6]:
        try:
            os.remove(f)
        except OSError:
            pass
    tmp = cfile + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(mods, f)
    os.rename(tmp, cfile)
    return mods


class Fn:
    __slots__ = ("mod", "name", "internal", "args", "ret", "file", "line", "ditypes", "blocks", "vars",
                 "src", "noreturn", "vararg", "preds", "order", "_cache")

    def __repr__(self):
        return "<fn %s>" % self.name


class Program:
    def __init__(self, mods):
        self.mods = mods
        self.fns = {}        # external name -> Fn
        self.local = []      # per module: name -> Fn
        self.globals = []    # per module: name -> dict
        self.extglobals = {}
        self.structs = {}
        self.enums = {}
        self.decls = {}
        for mi, m in enumerate(mods):
            loc = {}
            for n, s in m["structs"].items():
                if n not in self.structs:
                    self.structs[n] = s
            for n, e in m["enums"].items():
                self.enums.setdefault(n, e["v"])
            gl = {}
            for g in m["globals"]:
                g["mod"] = mi
                gl[g["name"]] = g
                if not g["internal"] and not g["decl"]:
                    self.extglobals[g["name"]] = g
            self.globals.append(gl)
            for f in m["functions"]:
                if f["decl"]:
                    self.decls[f["name"]] = f
                    continue
                fn = Fn()
                fn.mod = mi
                fn.name = f["name"]
                fn.internal = f["internal"]
                fn.args = f["args"]
                fn.ret = f["ret"]
                fn.file = f.get("file", "?")
                if fn.file.startswith(REPO + "/"):
                    fn.file = fn.file[len(REPO) + 1:]
                fn.line = f.get("line", 0)
                fn.ditypes = f.get("ditypes", [])
                fn.blocks = f["blocks"]
                fn.vars = f.get("vars", {})
                fn.noreturn = f.get("noreturn", False)
                fn.vararg = f.get("vararg", False)
                fn.src = m["source"]
                fn.preds = None
                fn.order = None
                fn._cache = {}
                loc[fn.name] = fn
                if not fn.internal:
                    self.fns[fn.name] = fn
            self.local.append(loc)
        # inline header functions: visible by name when not defined externally
        self.inlines = {}
        for loc in reversed(self.local):
            for n, fn in loc.items():
                if fn.internal:
                    self.inlines[n] = fn

    def resolve(self, mod, name):
        f = self.local[mod].get(name)
        if f is not None:
            return f
        return self.fns.get(name)

    def find(self, name):
        """A function by its source name, exported or inline."""
        return self.fns.get(name) or self.inlines.get(name)

    def need(self, name):
        f = self.find(name)
        if f is None:
            raise AnalysisBroken("anchor function %s is not defined in the compiled program" % name)
        return f

    def glob(self, mod, name):
        g = self.globals[mod].get(name)
        if g is None or g["decl"]:
            g = self.extglobals.get(name, g)
        return g

    def field(self, struct, name):
        s = self.structs.get(struct)
        if s is None:
            raise AnalysisBroken("struct %s not found" % struct)
        for f in s["fields"]:
            if f["name"] == name:
                return f
        raise AnalysisBroken("field %s.%s not found" % (struct, name))

    def all_functions(self, src_only=True):
        seen = set()
        for loc in self.local:
            for fn in loc.values():
                if src_only and not in_repo(fn):
                    continue
                k = (fn.file, fn.line, fn.name)
                if k in seen:
                    continue
                seen.add(k)
                yield fn


def in_repo(fn):
    f = fn.file
    return f.startswith("src/") or f.startswith(REPO + "/src/") or (not f.startswith("/") and "src/" in f)


def load(pipeline="function(mem2reg)", opt="-O0"):
    return Program(compile_all(pipeline, opt))
