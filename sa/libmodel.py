"""Effects of functions the repository calls but does not define."""
from . import lin as L
from .absint import NULL, width

P0 = ("P", NULL, L.ZERO)
MAXSTR = (1 << 30) - 1      # strings are shorter than 1 GiB


def heap_alloc(it, fr, I, st, size, init="undef", name=None):
    it.serial += 1
    o = it.new_obj("heap", name or "heap@%s:%s#%d" % (fr.fn.name, I.get("ln", "?"), it.serial), size, None, init,
                   extra=(I.get("fl", fr.fn.file), I.get("ln", "?"), fr.stack()))
    st.heap[o] = "live"
    if not it.alloc_fails:
        st.nn[o] = True
    it.client.on_event(it, st, fr, I, "alloc", (o, size))
    return o


def do_free(it, fr, I, st, p):
    """free(p); states."""
    o = p[1]
    if o == NULL or it.nullness(st, o) is False:
        return [st]
    it.client.on_event(it, st, fr, I, "free", p)
    if st.heap.get(o) == "freed":
        it.client.on_event(it, st, fr, I, "double-free", p)
    st.heap[o] = "freed"
    if it.write_log is not None:
        it.write_log.append((o, L.ZERO, 0))
    return [st]


def nul_len(it, st, p, name="strlen"):
    """Length of the string at p as an atom, stable until the object is written."""
    if p[1] in it.textlen:
        return L.sub(it.textlen[p[1]], p[2])
    m = it.om(st, p[1])
    ob = it.objs[p[1]]
    if ob.kind == "global" and ob.init == "const" and not p[2][1]:
        d = bytes.fromhex(ob.extra["bytes"]) if "bytes" in ob.extra else b""
        o = p[2][0]
        if 0 <= o < len(d):
            n = d.find(b"\0", o)
            if n >= 0:
                return L.const(n - o)
    zero = None
    if not p[2][1]:
        # bytes written one by one
        n = 0
        while n < 64 and (L.addc(p[2], n), 1) in m.cells:
            v = m.cells[(L.addc(p[2], n), 1)]
            if it.const_of(st, v) == 0:
                zero = n
                break
            if v[0] != "I" or not (it.range(st, it.u(st, v))[0] > 0):
                while n < 64 and (L.addc(p[2], n), 1) in m.cells and zero is None:
                    if it.const_of(st, m.cells[(L.addc(p[2], n), 1)]) == 0:
                        zero = -n
                    n += 1
                break
            n += 1
        if zero is not None and (zero > 0 or n == 0):
            return L.const(zero)
    if p[2] != L.ZERO:
        e = it.akey.get(("strlen", p[1], L.ZERO, m.ver, m.wver))
        if e is not None and it.entails(st, p[2]) and it.entails(st, L.sub(L.atom(e), p[2])):
            return L.sub(L.atom(e), p[2])
    key = ("strlen", p[1], p[2], m.ver, m.wver)
    a = it.mk_atom("strlen(%s)" % it.field_name(p), 0, MAXSTR, key)
    if zero is not None:
        it.add_ge(st, L.addc(L.neg(L.atom(a)), -zero))
    return L.atom(a)


def ret_int(it, I, name, lo=None, hi=None):
    w = width(I["t"])
    if lo is None:
        return it.fresh_int(name, w, True)
    a = it.mk_atom("%s#%d" % (name, it.bump()), lo, hi)
    return ("I", w, L.atom(a))


PTHREAD_OK = {
    "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_unlock",
    "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_signal", "pthread_cond_broadcast",
    "pthread_mutex_trylock", "pthread_setname_np", "pthread_attr_init", "pthread_attr_setdetachstate",
    "pthread_attr_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_detach",
}


def compare_bytes(it, fr, st, p, q, n):
    """memcmp: a state for each place of the first difference."""
    out = []
    for k in range(n):
        a, b = (it.load(st, fr, None, ("P", x[1], L.addc(x[2], k)), 1, "i8") for x in (p, q))
        d = L.sub(it.u(st, a), it.u(st, b))
        for sg in (-1, 1):
            s = st.copy()
            if it.add_ge(s, L.addc(L.scale(d, sg), -1)):
                r = it.mk_atom("memcmp#%d" % it.bump(), 1, 255)
                out.append((s, ("I", 32, L.atom(r, sg))))
        if not it.add_eq(st, d):
            return out
    return out + [(st, ("I", 32, L.ZERO))]


def call(it, fr, I, st, name, args):
    t = I["t"]
    if name.startswith("llvm."):
        r = intrinsic(it, fr, I, st, name, args)
        if r is not None:
            return r
    if name in ("malloc", "valloc"):
        n = it.u(st, args[0])
        o = heap_alloc(it, fr, I, st, n)
        return [(st, ("P", o, L.ZERO))]
    if name == "calloc":
        a, b = it.u(st, args[0]), it.u(st, args[1])
        if L.is_const(a):
            n = L.scale(b, a[0])
        elif L.is_const(b):
            n = L.scale(a, b[0])
        else:
            n = it.u(st, it.arith(st, fr, I, "mul", 64, args[0], args[1]))
        o = heap_alloc(it, fr, I, st, n, "zero")
        return [(st, ("P", o, L.ZERO))]
    if name == "realloc":
        p = it.as_ptr(st, args[0])
        n = it.u(st, args[1])
        it.client.on_event(it, st, fr, I, "realloc", (p, n))
        fail = st.copy()
        out = []
        # success: new object, contents copied, old one released
        if p[1] != NULL and it.nullness(st, p[1]) is not False:
            if st.heap.get(p[1]) == "freed":
                it.client.on_event(it, st, fr, I, "double-free", p)
            st.heap[p[1]] = "freed"
            if it.write_log is not None:
                it.write_log.append((p[1], L.ZERO, 0))
        o = heap_alloc(it, fr, I, st, n, "sym")
        om = st.mem.get(p[1])
        if om:
            st.mem[o] = om.copy()
        it.objs[o].ditype = it.objs[p[1]].ditype
        it.objs[o].extra = it.objs[o].extra + (("realloc", p[1]),)
        st.nn[o] = True
        out.append((st, ("P", o, L.ZERO)))
        fail.trace = (fail.trace, fr, I, "realloc fails")
        if it.alloc_fails:
            it.client.on_event(it, fail, fr, I, "allocfail", None)
            out.append((fail, P0))
        return out
    if name == "free":
        p = it.as_ptr(st, args[0])
        return [(s, None) for s in do_free(it, fr, I, st, p)]
    if name in ("strdup", "strndup"):
        p = it.as_ptr(st, args[0])
        if not it.deref(st, fr, I, p):
            return []
        n = nul_len(it, st, p)
        if name == "strndup" and p[1] in it.nulfree:
            m = it.u(st, args[1])
            o = heap_alloc(it, fr, I, st, L.addc(m, 1), "sym")
            out = []
            for s, _ in memcpy(it, fr, I, st, ("P", o, L.ZERO), p, m):
                it.store(s, ("P", o, m), 1, ("I", 8, L.ZERO))
                pin_strlen(it, s, ("P", o, L.ZERO), m)
                out.append((s, ("P", o, L.ZERO)))
            return out
        if name == "strndup":
            m = it.u(st, args[1])
            a = it.mk_atom("strndup#%d" % it.bump(), 0, 1 << 48)
            it.add_ge(st, L.sub(n, L.atom(a)))
            it.add_ge(st, L.sub(m, L.atom(a)))
            n = L.atom(a)
            it.client.on_access(it, st, fr, I, "strnread", p, m, None)
        else:
            it.client.on_access(it, st, fr, I, "strread", p, L.addc(n, 1), None)
        o = heap_alloc(it, fr, I, st, L.addc(n, 1), "sym")
        if it.exact_mem and name == "strdup" and L.is_const(n):
            for k in range(n[0] + 1):
                it.store(st, ("P", o, L.const(k)), 1, it.load(st, fr, I, ("P", p[1], L.addc(p[2], k)), 1, "i8"))
        elif it.marks and name == "strdup" and p[1] in st.mem and p[2] == L.ZERO:
            st.mem[o] = st.mem[p[1]].copy()
        return [(st, ("P", o, L.ZERO))]
    if name in ("memcpy", "memmove", "__memcpy_chk", "__memmove_chk", "mempcpy"):
        return memcpy(it, fr, I, st, args[0], args[1], it.u(st, args[2]))
    if name == "memset" or name == "__memset_chk":
        return memset(it, fr, I, st, args[0], args[1], it.u(st, args[2]))
    if name in ("memcmp", "bcmp"):
        n = it.u(st, args[2])
        for k in (0, 1):
            p = it.as_ptr(st, args[k])
            if not it.mem_event(st, fr, I, "load", p, n):
                return []
        if L.is_const(n) and n[0] == 0:
            return [(st, ("I", 32, L.ZERO))]
        if it.exact_mem and L.is_const(n) and n[0] <= 1024:
            return compare_bytes(it, fr, st, it.as_ptr(st, args[0]), it.as_ptr(st, args[1]), n[0])
        return [(st, ret_int(it, I, name))]
    if name == "memchr":
        n = it.u(st, args[2])
        p = it.as_ptr(st, args[0])
        if not it.mem_event(st, fr, I, "load", p, n):
            return []
        s2 = st.copy()
        a = it.mk_atom("memchr#%d" % it.bump(), 0, 1 << 48)
        out = [(s2, P0)]
        if it.add_ge(st, L.addc(L.sub(n, L.atom(a)), -1)):
            out.append((st, ("P", p[1], L.add(p[2], L.atom(a)))))
        return out
    if name == "strlen":
        p = it.as_ptr(st, args[0])
        if not it.deref(st, fr, I, p):
            return []
        n = nul_len(it, st, p)
        it.client.on_access(it, st, fr, I, "strread", p, L.addc(n, 1), None)
        return [(st, ("I", 64, n))]
    if name in ("strnlen",):
        p = it.as_ptr(st, args[0])
        m = it.u(st, args[1])
        if p[1] in it.nulfree:
            return [(st, ("I", 64, m))]
        n = nul_len(it, st, p)
        s2 = st.copy()
        out = []
        if it.add_ge(st, L.sub(m, n)):
            out.append((st, ("I", 64, n)))
        if it.add_ge(s2, L.addc(L.sub(n, m), -1)):
            out.append((s2, ("I", 64, m)))
        return out
    if name in ("strcmp", "strcasecmp", "strncmp", "strncasecmp", "strcoll"):
        for k in (0, 1):
            p = it.as_ptr(st, args[k])
            if not it.deref(st, fr, I, p):
                return []
        if it.exact_mem and name in ("strcmp", "strncmp"):
            a, b = (it.as_ptr(st, args[k]) for k in (0, 1))
            n = [nul_len(it, st, x) for x in (a, b) if x[1] in it.textlen]
            n += [it.u(st, args[2])] if name == "strncmp" and len(n) == 2 else []
            if len(n) > 1 and all(L.is_const(x) and x[0] <= 1024 for x in n):
                m = min(n[0][0], n[1][0]) + 1
                return compare_bytes(it, fr, st, a, b, min(m, n[2][0]) if len(n) > 2 else m)
        return [(st, ret_int(it, I, name))]
    if name in ("strchr", "strrchr", "strstr", "strpbrk"):
        p = it.as_ptr(st, args[0])
        if not it.deref(st, fr, I, p):
            return []
        n = nul_len(it, st, p)
        s2 = st.copy()
        a = it.mk_atom("%s#%d" % (name, it.bump()), 0, 1 << 48)
        out = []
        if it.add_ge(st, L.sub(n, L.atom(a))):
            out.append((st, ("P", p[1], L.add(p[2], L.atom(a)))))
        out.append((s2, P0))
        return out
    if name in ("strcpy", "strcat", "stpcpy"):
        d, s = it.as_ptr(st, args[0]), it.as_ptr(st, args[1])
        if not it.deref(st, fr, I, s) or not it.deref(st, fr, I, d):
            return []
        n = nul_len(it, st, s)
        off = d[2]
        if name == "strcat":
            off = L.add(off, nul_len(it, st, d))
        dp = ("P", d[1], off)
        if it.marks:
            out = []
            for s2, _ in memcpy(it, fr, I, st, dp, s, L.addc(n, 1)):
                pin_strlen(it, s2, d, L.add(L.sub(off, d[2]), n))
                out.append((s2, d if name != "stpcpy" else ("P", d[1], L.add(off, n))))
            return out
        it.client.on_access(it, st, fr, I, "store", dp, L.addc(n, 1), None)
        it.havoc(st, d[1], off, L.addc(n, 1))
        pin_strlen(it, st, d, L.add(L.sub(off, d[2]), n))
        return [(st, d if name != "stpcpy" else ("P", d[1], L.add(off, n)))]
    if name in ("strncpy",):
        d, s = it.as_ptr(st, args[0]), it.as_ptr(st, args[1])
        n = it.u(st, args[2])
        if it.exact_mem and s[1] in it.textlen and it.entails(st, L.sub(nul_len(it, st, s), n)):
            return memcpy(it, fr, I, st, d, s, n)
        if not it.deref(st, fr, I, s) or not it.mem_event(st, fr, I, "store", d, n):
            return []
        it.havoc(st, d[1], d[2], n)
        return [(st, d)]
    if name in ("snprintf", "sprintf") and it.exact_mem:
        r = print_texts(it, fr, I, st, name, args)
        if r is not None:
            return r
    if name in ("snprintf", "vsnprintf", "__snprintf_chk", "__vsnprintf_chk"):
        d = it.as_ptr(st, args[0])
        n = it.u(st, args[1])
        if d[1] != NULL:
            if not it.mem_event(st, fr, I, "store", d, n):
                return []
            it.havoc(st, d[1], d[2], n)
            if d[2] == L.ZERO and it.entails(st, L.addc(n, -1)):
                it.add_ge(st, L.addc(L.sub(n, nul_len(it, st, d)), -1))
        return [(st, ret_int(it, I, name))]
    if name in ("sprintf", "vsprintf"):
        return sprintf(it, fr, I, st, args)
    if name in ("printf", "puts", "putchar", "fflush", "perror", "vprintf", "fprintf", "vfprintf", "fputs", "fputc"):
        return [(st, ret_int(it, I, name))]
    if name in ("pthread_mutex_lock", "pthread_mutex_unlock"):
        p = it.as_ptr(st, args[0])
        if not it.deref(st, fr, I, p):
            return []
        return [(st, ("I", 32, L.ZERO))]
    if name in PTHREAD_OK:
        if args:
            p = it.as_ptr(st, args[0])
            if name != "pthread_setname_np" and not it.deref(st, fr, I, p):
                return []
            if name in ("pthread_attr_init", "pthread_mutexattr_init"):
                it.havoc(st, p[1], p[2], L.const(32))
        return [(st, ret_int(it, I, name))]
    if name in ("pthread_cond_wait", "pthread_cond_timedwait"):
        return [(st, ret_int(it, I, name))]
    if name == "pthread_create":
        p = it.as_ptr(st, args[0])
        if not it.deref(st, fr, I, p):
            return []
        it.havoc(st, p[1], p[2], L.const(8))
        return [(st, ret_int(it, I, name, 0, 255))]
    if name == "pthread_join":
        return [(st, ret_int(it, I, name, 0, 255))]
    if name == "pthread_self":
        return [(st, it.unknown(t, name))]
    if name in ("clock_gettime", "gettimeofday"):
        p = it.as_ptr(st, args[1 if name == "clock_gettime" else 0])
        if not it.deref(st, fr, I, p):
            return []
        it.client.on_access(it, st, fr, I, "store", p, L.const(16), None)
        sec = ("I", 64, L.atom(it.mk_atom("now.sec#%d" % it.bump(), 0, 1 << 40)))
        ns = ("I", 64, L.atom(it.mk_atom("now.nsec#%d" % it.bump(), 0, 999999999)))
        it.store(st, p, 8, sec)
        it.store(st, ("P", p[1], L.addc(p[2], 8)), 8, ns)
        return [(st, ("I", 32, L.ZERO))]
    if name == "__errno_location":
        o = it.new_obj("global", "errno", L.const(4), None, "sym", ("g", "errno"))
        it.havoc(st, o)
        return [(st, ("P", o, L.ZERO))]
    if name in ("open", "open64"):
        return [(st, ret_int(it, I, name, -1, 1 << 20))]
    if name == "read":
        p = it.as_ptr(st, args[1])
        n = it.u(st, args[2])
        if not it.mem_event(st, fr, I, "store", p, n):
            return []
        it.havoc(st, p[1], p[2], n)
        a = it.mk_atom("read#%d" % it.bump(), -1, 1 << 62)
        it.add_ge(st, L.sub(n, L.atom(a)))
        return [(st, ("I", 64, L.atom(a)))]
    if name == "BIO_read":
        p = it.as_ptr(st, args[1])
        n = it.s(st, args[2])
        if not it.mem_event(st, fr, I, "store", p, n):
            return []
        it.havoc(st, p[1])
        a = it.mk_atom("BIO_read#%d" % it.bump(), -2, 1 << 31)
        it.add_ge(st, L.sub(n, L.atom(a)))
        return [(st, ("I", 32, L.atom(a)))]
    if name == "fgets":
        p = it.as_ptr(st, args[0])
        n = it.s(st, args[1])
        if not it.mem_event(st, fr, I, "store", p, n):
            return []
        it.havoc(st, p[1], p[2], n)
        s2 = st.copy()
        ln = nul_len(it, st, p)
        it.add_ge(st, L.addc(L.sub(n, ln), -1))
        return [(st, p), (s2, P0)]
    if name == "inet_ntop":
        d = it.as_ptr(st, args[2])
        n = it.u(st, args[3])
        if not it.mem_event(st, fr, I, "store", d, n):
            return []
        it.havoc(st, d[1], d[2], n)
        return [(st, d), (st.copy(), P0)]
    if name in ("inet_pton",):
        d = it.as_ptr(st, args[2])
        it.havoc(st, d[1])
        return [(st, ret_int(it, I, name, -1, 1))]
    if name in ("abort", "exit", "_exit", "__assert_fail", "__stack_chk_fail"):
        return []
    if name in ("ASN1_STRING_length", "OPENSSL_sk_num"):
        return [(st, ret_int(it, I, name, -1 if name == "OPENSSL_sk_num" else 0, (1 << 31) - 1))]
    if name == "ASN1_STRING_get0_data":
        p = it.as_ptr(st, args[0])
        o = it.new_obj("sym", "asn1data(%s)" % it.objs[p[1]].name, None, None, "sym", ("asn1", p))
        return [(st, ("P", o, L.ZERO))]
    if name in ("tcgetattr",):
        p = it.as_ptr(st, args[1])
        it.havoc(st, p[1])
        return [(st, ret_int(it, I, name))]
    if name in ("close", "closedir", "tcsetattr", "time", "usleep", "nanosleep", "sched_yield",
                "isspace", "isdigit", "tolower", "toupper", "getpid", "getenv"):
        return [(st, it.unknown(t, name))]
    it.client.on_event(it, st, fr, I, "unknown-call", (name, args))
    for v in args:
        if v[0] == "P" and v[1] != NULL:
            ob = it.objs[v[1]]
            if not (ob.kind == "global" and ob.init == "const"):
                it.havoc(st, v[1])
    return [(st, it.unknown(t, name) if t != "void" else None)]


def pin_strlen(it, st, p, n):
    """After a copy the destination's length is known."""
    m = it.om(st, p[1])
    key = ("strlen", p[1], p[2], m.ver, m.wver)
    a = it.mk_atom("strlen(%s)" % it.field_name(p), 0, MAXSTR, key)
    it.add_eq(st, L.sub(L.atom(a), n))


def intrinsic(it, fr, I, st, name, args):
    if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
        r = memcpy(it, fr, I, st, args[0], args[1], it.u(st, args[2]))
        return [(s, None) for s, _ in r]
    if name.startswith("llvm.memset"):
        r = memset(it, fr, I, st, args[0], args[1], it.u(st, args[2]))
        return [(s, None) for s, _ in r]
    if name.startswith("llvm.lifetime") or name.startswith("llvm.dbg") or name.startswith("llvm.assume") \
            or name.startswith("llvm.stackrestore") or name.startswith("llvm.va_") or name.startswith("llvm.trap"):
        if name == "llvm.trap":
            return []
        return [(st, None)]
    if name.startswith("llvm.stacksave"):
        return [(st, it.unknown("ptr", "sp"))]
    if name.startswith("llvm.threadlocal"):
        return [(st, args[0])]
    if name.startswith("llvm.bswap"):
        w = width(I["t"])
        l = it.u(st, args[0])
        if L.is_const(l):
            return [(st, ("I", w, L.const(int.from_bytes((l[0] % (1 << w)).to_bytes(w // 8, "little"), "big"))))]
        if it.bytewise:
            r = L.ZERO
            for k, b in enumerate(it.field_bytes(st, l, w // 8)):
                r = L.add(r, L.scale(b, 1 << (w - 8 - 8 * k)))
            return [(st, ("I", w, r))]
        # bswap(bswap(x)) == x
        if len(l[1]) == 1 and l[0] == 0 and l[1][0][1] == 1:
            src = it.bswap_src.get((w, l[1][0][0])) if hasattr(it, "bswap_src") else None
            if src is not None:
                return [(st, ("I", w, src))]
        a = it.mk_atom("bswap%d(%s)" % (w, it.show(l)), 0, (1 << w) - 1, ("bswap", w, l))
        if not hasattr(it, "bswap_src"):
            it.bswap_src = {}
        it.bswap_src[(w, a)] = l
        return [(st, ("I", w, L.atom(a)))]
    if name.startswith("llvm.umul.with") or name.startswith("llvm.uadd.with"):
        w = int(name.rsplit(".i", 1)[1])
        x = it.arith(st, fr, I, "mul" if "umul" in name else "add", w, args[0], args[1])
        b = it.mk_atom("ovf#%d" % it.bump(), 0, 1)
        return [(st, ("S", (x, ("B", ("ne", L.atom(b))))))]
    if name.startswith("llvm.expect"):
        return [(st, args[0])]
    if name.startswith("llvm.fshl") or name.startswith("llvm.fshr"):
        w = width(I["t"])
        key = (name, args[0], args[1], args[2])
        return [(st, ("I", w, L.atom(it.mk_atom("fsh", 0, (1 << w) - 1, key))))]
    if name.startswith("llvm.umin") or name.startswith("llvm.umax") or name.startswith("llvm.smin") or name.startswith("llvm.smax"):
        w = width(I["t"])
        f = it.u if name[5] == "u" else it.s
        a, b = f(st, args[0]), f(st, args[1])
        s2 = st.copy()
        out = []
        mn = "min" in name
        if it.add_ge(st, L.sub(b, a)):
            out.append((st, ("I", w, a if mn else b)))
        if it.add_ge(s2, L.addc(L.sub(a, b), -1)):
            out.append((s2, ("I", w, b if mn else a)))
        return out
    return None


def near(it, st, fr, I, d, s, sz):
    """Cells at constant distances inside the sz bytes at s, placed at d."""
    moved, part = {}, set()
    for (co, cs), cv in it.om(st, s[1]).cells.items():
        r = L.sub(co, s[2])
        if not r[1] and 0 <= r[0] and r[0] + cs <= sz:
            moved[(L.add(d[2], r), cs)] = cv
        elif it.bytewise and not r[1] and r[0] < sz and r[0] + cs > 0 and cv[0] in ("I", "B"):
            part |= set(range(max(0, r[0]), min(sz, r[0] + cs)))
    ob = it.objs[s[1]]
    if it.bytewise and ob.kind == "global" and ob.init == "const" and sz <= 64:
        for k in range(sz):
            v = it.const_load(st, ob, L.addc(s[2], k), 1, "i8")
            if v is not None:
                moved[(L.addc(d[2], k), 1)] = v
    for k in sorted(part):
        v = it.compose(st, fr, I, s[1], L.addc(s[2], k), 1)
        if v is not None:
            moved[(L.addc(d[2], k), 1)] = ("I", 8, v)
    return moved


def memcpy(it, fr, I, st, dv, sv, n):
    d, s = it.as_ptr(st, dv), it.as_ptr(st, sv)
    n = it.simp(st, n)
    if not it.mem_event(st, fr, I, "load", s, n) or not it.mem_event(st, fr, I, "store", d, n):
        return []
    if it.look_log is not None:
        k = n[0] if L.is_const(n) else n
        it.look_log += [(s[1], it.simp(st, s[2]), k), (d[1], it.simp(st, d[2]), k)]
    follow = it.marks and (not L.is_const(n) or n[0] and far(it, st, n[0], s, d))
    if L.is_const(n) and not follow:
        sz = n[0]
        if sz == 0:
            return [(st, d)]
        moved = near(it, st, fr, I, d, s, sz)
        if not moved and sz in (1, 2, 4, 8) and it.objs[s[1]].init == "sym":
            t = "i%d" % (8 * sz)
            v = it.load(st, fr, I, s, sz, t)
            it.store(st, d, sz, v)
            return [(st, d)]
        # typed field-wise copy of symbolic structs
        dt = it.objs[s[1]].ditype
        if it.objs[s[1]].init == "sym" and dt in it.p.structs and not s[2][1]:
            for leaf, lsz, lt in leaves(it, dt, 0):
                if s[2][0] <= leaf and leaf + lsz <= s[2][0] + sz:
                    k = (L.addc(d[2], leaf - s[2][0]), lsz)
                    if k not in moved:
                        moved[k] = it.load(st, fr, I, ("P", s[1], L.const(leaf)), lsz, lt)
        it.havoc(st, d[1], d[2], n)
        m = it.om(st, d[1]).copy()
        m.cells.update(moved)
        if it.write_log is not None:
            for (co, cs) in moved:
                it.write_log.append((d[1], co, cs))
        st.mem[d[1]] = m
        return [(st, d)]
    if not it.marks:
        it.havoc(st, d[1], d[2], n)
        return [(st, d)]
    # follow the traced cells of the source
    todo = [(st, near(it, st, fr, I, d, s, n[0]) if L.is_const(n) else {})]
    for (co, cs), cv in list(it.om(st, s[1]).cells.items()):
        if not it.traced(cv):
            continue
        nxt = []
        for s1, moved in todo:
            lo = L.sub(co, s[2])
            hi = L.addc(L.sub(L.add(s[2], n), co), -cs)
            for s2, inside in cases(it, s1, lo, hi):
                m2 = dict(moved)
                if inside:
                    m2[(L.add(d[2], lo), cs)] = cv
                nxt.append((s2, m2))
        todo = nxt
    # and those of the destination that may be overwritten
    for (co, cs), cv in list(it.om(st, d[1]).cells.items()):
        if not it.traced(cv):
            continue
        nxt = []
        for s1, moved in todo:
            lo = L.sub(co, d[2])
            if it.disjoint(s1, lo, n, L.const(cs)):
                nxt.append((s1, moved))
            else:
                nxt += [(s2, moved) for s2, _ in cases(it, s1, lo, L.addc(L.sub(L.add(d[2], n), co), -cs))]
        todo = nxt
    out = []
    for s1, moved in todo:
        it.havoc(s1, d[1], d[2], n)
        m = it.om(s1, d[1]).copy()
        for (co, cs), cv in moved.items():
            m.cells[(it.simp(s1, co), cs)] = cv
        if it.write_log is not None:
            for (co, cs) in moved:
                it.write_log.append((d[1], co, cs))
        s1.mem[d[1]] = m
        out.append((s1, d))
    return out


def far(it, st, n, *ps):
    """A traced cell of a changing place may be inside one of the ranges."""
    for p in ps:
        for (co, cs), cv in it.om(st, p[1]).cells.items():
            if it.traced(cv) and L.sub(co, p[2])[1] and it.overlap(st, p[2], n, co, cs) == "maybe":
                return True
    return False


def cases(it, st, lo, hi):
    """Split on lo >= 0 and hi >= 0: [(state, both hold)]."""
    out = []
    for c, nxt in ((lo, hi), (hi, None)):
        if it.entails(st, c):
            continue
        f = it.reduce_ge(st, it.simp(st, c)) or c
        no = st.copy()
        if it.add_ge(no, L.addc(L.neg(f), -1)) and it.close(no):
            out.append((no, False))
        if not it.add_ge(st, f) or not it.close(st):
            return out
    out.append((st, True))
    return out


def leaves(it, dt, base):
    s = it.p.structs.get(dt)
    out = []
    for f in s["fields"]:
        tn = f["type"] if f["type"] in it.p.structs else f["under"]
        if tn in it.p.structs:
            out += leaves(it, tn, base + f["off"])
        elif f["type"].endswith("*") or f["under"].endswith("*"):
            out.append((base + f["off"], 8, "ptr"))
        elif f["size"] in (1, 2, 4, 8) and f.get("bits", 8 * f["size"]) == 8 * f["size"]:
            out.append((base + f["off"], f["size"], "i%d" % (8 * f["size"])))
    return out


def memset(it, fr, I, st, dv, cv, n):
    d = it.as_ptr(st, dv)
    n = it.simp(st, n)
    if not it.mem_event(st, fr, I, "store", d, n):
        return []
    it.havoc(st, d[1], d[2], n)
    c = it.const_of(st, cv)
    if c is not None and not L.is_const(n):
        for f in it.probes:
            if it.entails(st, L.sub(f, d[2])) and it.entails(st, L.addc(L.sub(L.add(d[2], n), f), -1)):
                m = it.om(st, d[1]).copy()
                m.cells[(it.simp(st, f), 1)] = ("I", 8, L.const(c & 255))
                st.mem[d[1]] = m
    if L.is_const(n) and c == 0:
        m = it.om(st, d[1]).copy()
        dt = it.objs[d[1]].ditype
        if dt in it.p.structs and not d[2][1]:
            for leaf, lsz, lt in leaves(it, dt, 0):
                if d[2][0] <= leaf and leaf + lsz <= d[2][0] + n[0]:
                    m.cells[(L.const(leaf), lsz)] = ("P", NULL, L.ZERO) if lt == "ptr" else ("I", 8 * lsz, L.ZERO)
        elif n[0] <= 16:
            for k in range(n[0]):
                m.cells[(L.addc(d[2], k), 1)] = ("I", 8, L.ZERO)
        st.mem[d[1]] = m
    return [(st, d)]


def fmt_len(fmt, it, st, vals):
    """Upper bound on the characters a format produces, or None."""
    total = L.ZERO
    i = 0
    k = 0
    while i < len(fmt):
        c = fmt[i]
        if c != "%":
            total = L.addc(total, 1)
            i += 1
            continue
        j = i + 1
        if j < len(fmt) and fmt[j] == "%":
            total = L.addc(total, 1)
            i = j + 1
            continue
        wd = ""
        while j < len(fmt) and (fmt[j] in "-+ #0123456789.*"):
            wd += fmt[j]
            j += 1
        mods = ""
        while j < len(fmt) and fmt[j] in "hlzjtL":
            mods += fmt[j]
            j += 1
        if j >= len(fmt) or "*" in wd:
            return None
        cv = fmt[j]
        v = vals[k] if k < len(vals) else None
        k += 1
        num = "".join(ch if ch.isdigit() else " " for ch in wd.split(".")[0].lstrip("-+ #0")).split()
        mn = int(num[0]) if num else 0
        if cv in "diu":
            n = L.const(max(mn, 20 if "l" in mods or "j" in mods or "z" in mods else 11))
            if v is not None and v[0] == "I":
                x = it.u(st, v) if cv == "u" else it.s(st, v)
                lo, hi = it.range(st, x)
                n = L.const(max(mn, len(str(hi)), len(str(lo))))
        elif cv in "xXp":
            n = L.const(max(mn, 18))
            if v is not None and v[0] == "I":
                lo, hi = it.range(st, it.u(st, v))
                n = L.const(max(mn, len("%x" % hi)))
        elif cv == "c":
            n = L.const(max(mn, 1))
        elif cv == "s" and v is not None and v[0] == "P":
            n = nul_len(it, st, v)
        elif cv in "eEgG":
            prec = wd.split(".")[1] if "." in wd else "6"
            n = L.const(max(mn, int(prec or 0) + 10))
        else:
            return None
        total = L.add(total, n)
        i = j + 1
    return total


def print_texts(it, fr, I, st, name, args):
    """Formats of plain characters and whole texts, with room for all of it."""
    k = 2 if name == "snprintf" else 1
    d, f = it.as_ptr(st, args[0]), it.as_ptr(st, args[k])
    fo = it.objs[f[1]]
    if fo.kind != "global" or fo.init != "const" or f[2][1] or d[1] == NULL:
        return None
    parts, rest, i = [], list(args[k + 1:]), 0
    b = bytes.fromhex(fo.extra["bytes"])[f[2][0]:].split(b"\0")[0]
    total = L.ZERO
    while i < len(b):
        if b[i] != 37:
            parts.append((total, b[i]))
            total = L.addc(total, 1)
            i += 1
            continue
        if b[i:i + 2] != b"%s" or not rest or rest[0][0] != "P" or rest[0][1] not in it.textlen:
            return None
        p = rest.pop(0)
        n = nul_len(it, st, p)
        parts.append((total, (p, n)))
        total = L.add(total, n)
        i += 2
    if name == "snprintf" and not it.entails(st, L.addc(L.sub(it.u(st, args[1]), total), -1)):
        return None
    sts = [st]
    for at, x in parts + [(total, 0)]:
        to = ("P", d[1], L.add(d[2], at))
        nxt = []
        for s in sts:
            if isinstance(x, tuple):
                nxt += [e for e, _ in memcpy(it, fr, I, s, to, *x)]
            elif it.mem_event(s, fr, I, "store", to, L.const(1)):
                it.store(s, to, 1, ("I", 8, L.const(x)))
                nxt.append(s)
        sts = nxt
    return [(s, ("I", 32, total)) for s in sts]


def sprintf(it, fr, I, st, args):
    d = it.as_ptr(st, args[0])
    f = it.as_ptr(st, args[1])
    if not it.deref(st, fr, I, d):
        return []
    fo = it.objs[f[1]]
    n = None
    if fo.kind == "global" and fo.init == "const":
        b = bytes.fromhex(fo.extra["bytes"])
        n = fmt_len(b[f[2][0]:].split(b"\0")[0].decode("latin1"), it, st, args[2:])
    if n is None:
        it.client.on_access(it, st, fr, I, "store-unbounded", d, None, None)
        it.havoc(st, d[1])
        return [(st, ret_int(it, I, "sprintf", 0, 1 << 30))]
    it.client.on_access(it, st, fr, I, "store", d, L.addc(n, 1), None)
    it.havoc(st, d[1], d[2], L.addc(n, 1))
    a = it.mk_atom("sprintf#%d" % it.bump(), 0, 1 << 48)
    it.add_ge(st, L.sub(n, L.atom(a)))
    if d[2] == L.ZERO:
        pin_strlen(it, st, d, L.atom(a))
    return [(st, ("I", 32, L.atom(a)))]
