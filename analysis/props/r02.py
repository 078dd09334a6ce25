"""R02: a failed system or library call is never taken for success."""
from checklib import *
from names import split_params

# what each call returns when it fails; such a failure has to end in an exception
MUST = {n: (-1,) for n in ("socket", "bind", "listen", "accept", "accept4", "connect", "fcntl", "ioctl", "getsockname", "getpeername", "getsockopt", "send", "recv", "sendto",
                           "recvfrom", "read", "write", "poll", "ppoll", "select", "pselect", "epoll_wait", "epoll_create1", "epoll_ctl", "gethostname", "pipe", "socketpair", "eventfd", "dup",
                           "xmlTextReaderRead", "xmlTextReaderNext", "xmlTextWriterStartDocument", "xmlTextWriterStartElement", "xmlTextWriterWriteString", "xmlTextWriterWriteRaw", "xmlTextWriterWriteElement",
                           "xmlTextWriterEndDocument", "xmlTextWriterFlush", "xmlTextWriterWriteBase64")}
MUST.update({n: (0,) for n in ("SSL_set_fd", "SSL_set_ex_data", "X509_digest", "X509_pubkey_digest", "EVP_Digest", "SSL_CTX_use_certificate_file", "SSL_CTX_use_certificate_chain_file",
                               "SSL_CTX_use_PrivateKey_file", "SSL_CTX_check_private_key", "SSL_CTX_load_verify_locations", "SSL_CTX_set_cipher_list")})
MUST.update({n: (0, -1) for n in ("SSL_accept", "SSL_connect", "SSL_do_handshake", "SSL_read")})
MUST["SSL_write"] = (-1,)
MAKERS = {"SSL_new", "SSL_CTX_new", "xmlNewTextWriterMemory", "xmlNewTextWriter"}
# results that may be absent
ABSENT = MAKERS | {"xmlReaderForMemory", "xmlReaderForDoc", "xmlReaderForIO", "xmlBufferCreate", "xmlTextReaderName", "xmlTextReaderValue", "xmlTextReaderLocalName", "xmlTextReaderConstName",
                   "xmlTextReaderConstValue", "xmlTextReaderConstLocalName", "xmlTextReaderReadString", "xmlTextReaderCurrentNode", "xmlGetNodePath", "xmlGetLastError", "ERR_reason_error_string",
                   "ERR_lib_error_string", "ERR_func_error_string", "EVP_get_digestbyname", "X509_STORE_CTX_get_current_cert", "SSL_get_peer_certificate", "SSL_get1_peer_certificate",
                   "gethostbyname", "inet_ntop", "strrchr", "strchr", "strstr", "getenv"}
# calls that take an absent object and then fail themselves; all others must not be handed one
TOLERANT = ("xmlTextReader", "xmlTextWriter", "xmlFree", "xmlBufferFree", "xmlNewTextWriter", "xmlGetNodePath", "xmlBufferContent", "xmlReaderFor")
FREES = {"SSL_free", "SSL_CTX_free", "X509_free", "free", "SSL_new"}
STRICT = {"X509_digest": (0, 1), "X509_pubkey_digest": (0, 1), "strlen": (0,), "memcpy": (0, 1), "strcpy": (0, 1), "atoi": (0,), "strcmp": (0, 1)}
# failures that do no harm, with the reason
EXEMPT = {
    "close": "nothing is left to do about it", "shutdown": "a goodbye to the peer", "SSL_shutdown": "a goodbye to the peer", "setsockopt": "tuning only",
    "xmlTextWriterEndElement": "the writer keeps the failure and the flush at the end reports it", "xmlTextReaderSetParserProp": "fails only without a reader, then the first read fails",
    "xmlTextReaderNodeType": "fails only without a reader", "xmlTextReaderIsEmptyElement": "fails only without a reader", "xmlTextReaderDepth": "fails only without a reader",
    "CRYPTO_get_ex_new_index": "storing under a bad index fails, which is checked", "OPENSSL_init_ssl": "making a context fails then, which is checked",
    "SSL_get_ex_data": "set before the handshake, which is checked", "X509_STORE_CTX_get_ex_data": "set by the TLS library during a handshake",
}
EINPROGRESS, EINTR = 115, 4
ERRNO = (("G", "errno"), 0)


def table(name): return name in MUST or name in ABSENT or name in ("gethostbyname_r", "getaddrinfo")


class Mon(Recorder):
    def __init__(self, ctx, s):
        super().__init__()
        self.ctx, self.s = ctx, s
        self.sites = set()
        self.resolver = None      # fixed answer of name resolution

    def bad(self, E, st, key, msg, loc=None):
        self.ctx.violation("R02 " + key, loc or E.cur_loc(st), msg, st.trace_list())

    def fails(self, E, st, name, v):
        x = st.fork()
        x.mon["failed"] = (name, st.frames[-1].fn.name, v, E.cur_loc(st))
        x.mon["spent"] = 1
        x.note(E.cur_loc(x), "%s fails and returns %d" % (name, v))
        x.mem[ERRNO] = e = ("s", ("arg", "errno of", name))
        E.assume(x, cmp_("lt", 0, e), True)
        if name != "connect": E.assume(x, cmp_("eq", e, EINPROGRESS), False)
        return Outcome("ret", x, v)

    def on_call(self, E, st, name, fn, args, ins):
        if not fn.decl: return None
        self.no_null(E, st, name, args)
        if name in ("hstrerror", "inet_ntoa", "strerror_r", "strerror", "gai_strerror"):
            v = E.fresh(st, name, ins["id"]); E.assume(st, as_bool(v), True)
            return [Outcome("ret", st, v)]
        if name == "SSL_get_error":
            if isinstance(args[1], int) and args[1] > 0: return [Outcome("ret", st, 0)]
            v = E.fresh(st, "ssl error", ins["id"])
            f = st.mon.get("failed")
            if f and f[2] == args[1]: E.assume(st, as_bool(v), True)
            return [Outcome("ret", st, v)]
        if table(name): self.sites.add((name, st.frames[-1].fn.name))
        if name in ("gethostbyname_r", "getaddrinfo"): return self.resolve(E, st, name, args, ins)
        if st.mon.get("failed", ("",))[0] == name: st.mon.pop("failed")      # tried again
        dead = args and args[0] == 0 and name.startswith(TOLERANT)
        if name in MUST:
            outs = []
            if not st.mon.get("spent"): outs = [self.fails(E, st, name, v) for v in MUST[name]]
            elif dead: return [Outcome("ret", st, MUST[name][0])]
            if dead: return outs[:1]
            v = E.fresh(st, name, ins["id"])
            for w in MUST[name]: E.assume(st, cmp_("eq", v, w), False)
            E.assume(st, cmp_("lt", v, 0), False)
            if name.startswith("xmlTextWriter") or name in ("bind", "listen", "connect", "getsockname", "getsockopt", "gethostname"): v = 0
            elif 0 in MUST[name] and name not in ("SSL_read",): v = 1
            for a in args:
                if is_ptr(a): E.havoc(st, a, None, ("extern", name, ins["id"]))
            return outs + [Outcome("ret", st, v)]
        if name in ABSENT:
            x = st.fork()
            x.note(E.cur_loc(x), "%s has no result" % name)
            x.mon["absent"] = name
            if name in MAKERS and not x.mon.get("spent"):
                x.mon["failed"] = (name, st.frames[-1].fn.name, 0, E.cur_loc(st)); x.mon["spent"] = 1
            if dead: return [Outcome("ret", x, 0)]
            v = E.fresh(st, name, ins["id"])
            E.assume(st, as_bool(v), True)
            return [Outcome("ret", x, 0), Outcome("ret", st, v)]
        return None

    def resolve(self, E, st, name, args, ins):
        """the result is written through a pointer"""
        k = 4 if name == "gethostbyname_r" else 3
        if st.mon.get("failed", ("",))[0] == name: st.mon.pop("failed")
        x = st.fork()
        x.mon["failed"] = (name, st.frames[-1].fn.name, 1, E.cur_loc(st)); x.mon["spent"] = 1
        x.mon["absent"] = name
        x.note(E.cur_loc(x), "the name is not resolved")
        y = x.fork()
        E.store(x, args[k], 0)
        code = ("s", ("arg", "resolver's code"))
        if name == "gethostbyname_r":
            outs = [Outcome("ret", x, code)]          # its code may be zero although there is no host
        else:
            E.assume(x, as_bool(code), True); outs = [Outcome("ret", x, code)]
        if self.resolver == "fails": return outs
        E.store(st, args[k], E.fresh(st, "resolved", ins["id"]))
        E.assume(st, as_bool(E.load(st, args[k])), True)
        st.mon["resolved"] = 1
        return outs + [Outcome("ret", st, 0)]

    def no_null(self, E, st, name, args):
        if not st.mon.get("absent"): return
        pos = STRICT.get(name)
        if pos is None and name.startswith(("SSL_", "X509_", "EVP_")) and name not in FREES: pos = (0,)
        for p in pos or ():
            if p < len(args) and args[p] == 0:
                self.bad(E, st, "absent %s given to %s" % (st.mon["absent"], name), "the result of %s may be absent and is handed to %s unchecked" % (st.mon["absent"], name))
                raise Stop("reported")

    def on_mem_error(self, E, st, kind, p):
        if kind in ("null-deref", "null-string", "null-call") and st.mon.get("absent"):
            what = {"null-deref": "dereferenced", "null-string": "taken for a text", "null-call": "called"}[kind]
            self.bad(E, st, "absent %s in %s" % (st.mon["absent"], st.frames[-1].fn.base), "the result of %s may be absent and is %s unchecked" % (st.mon["absent"], what))
            raise Stop("reported")


def has(v, t): return v == t or isinstance(v, tuple) and any(has(x, t) for x in v)


def containers(s):
    """functions of the library with a call that can fail -> and who calls whom"""
    out, callers, taken = [], {}, set()
    for f in s.prog.funcs.values():
        if f.decl: continue
        for b in f.blocks:
            for i in b:
                if i["op"] in ("call", "invoke") and i["fn"][0] == "f": callers.setdefault(i["fn"][1], set()).add(f.name)
        if "/libiqxmlrpc/" in f.file and any(i["op"] in ("call", "invoke") and i["fn"][0] == "f" and s.prog.funcs[i["fn"][1]].decl and table(i["fn"][1]) for b in f.blocks for i in b):
            out.append(f)
    return out, callers


def walk(ctx, s, mon, f):
    E = s.E
    args = [s.sym("argument %d" % k) for k in range(f.nargs)]
    st = s.blank(); st.frames = []
    ps = split_params(f.dem)
    for k, v in enumerate(args):
        p = ps[k - (f.nargs - len(ps))] if 0 <= k - (f.nargs - len(ps)) < len(ps) else "*"
        if p in ("unsigned long", "unsigned int"):       # an amount of data
            E.assume(st, cmp_("lt", 0, v), True); E.assume(st, cmp_("lt", v, 1 << 30), True)
        elif p.endswith(("*", "&")): E.assume(st, as_bool(v), True)
    return s.run(f, args, st)


def judge(ctx, s, mon, f, callers, site=None, depth=0):
    """every path of f on which a call failed has to throw, or tell its caller"""
    E = s.E
    ends = walk(ctx, s, mon, f)
    ctx.count("functions_walked")
    good = {v for k, v, x in ends if k == "ret" and not x.mon.get("failed") and isinstance(v, int)}
    told = {}
    for k, v, x in ends:
        fl = x.mon.get("failed")
        if not fl or site and fl[:2] != site: continue
        ctx.count("failures")
        if k == "throw": ctx.count("failures_thrown"); continue
        if isinstance(v, tuple) and E.decide(x, as_bool(v)) is not None: v = int(E.decide(x, as_bool(v)))
        apart = isinstance(v, int) and v not in good
        if fl[0] == "connect" and apart and E.subst(x, x.mem.get(ERRNO)) == EINPROGRESS: ctx.count("failures_thrown"); continue
        if has(v, ("s", ("arg", "errno of", fl[0]))): apart = True
        if apart: told.setdefault(fl[:2], (v, x)); continue
        mon.bad(E, x, "%s in %s" % (fl[0], f.base), "%s returns as if nothing happened after %s failed" % (f.dem.split("(")[0], fl[0]), fl[3])
    for st_, (v, x) in told.items():
        # the caller is told by the value: walk the callers
        cs = [s.prog.funcs[c] for c in callers.get(f.name, ()) if c != f.name and not s.prog.funcs[c].decl]
        if not cs or depth >= 4:
            mon.bad(E, x, "%s in %s" % (st_[0], f.base), "%s only returns %s after %s failed and nothing examines it" % (f.dem.split("(")[0], v, st_[0]), x.mon["failed"][3]); continue
        for c in cs:
            ctx.count("callers_walked")
            judge(ctx, s, mon, c, callers, st_, depth + 1)


def lookup(ctx):
    """an address whose name was not resolved is not taken for a resolved one later"""
    s = Session(ctx, None)
    E = s.E
    s.mon = E.mon = mon = Mon(ctx, s)
    host, addr = s.sym("host"), s.sym("inet addr")
    c = s.fn("iqnet::Inet_addr::Inet_addr", nparams=2)
    g = s.fn("iqnet::Inet_addr::get_sockaddr")
    where = "%s:%s" % (g.file, g.line)
    st = s.blank(); st.frames = []
    for v in (host, addr): E.assume(st, as_bool(v), True)
    for k, v, x in s.run(c, [addr, host, s.sym("port")], st):
        if k == "throw": continue
        x.mem[(("S", host), 0)] = x.mem.get((("S", host), 0), ("s", ("arg", "host text")))
        for k1, v1, y in s.run(g, [addr], x):
            ctx.count("lookups_" + k1)
            if k1 == "ret":
                if not y.mon.get("resolved"): mon.bad(E, y, "address unresolved", "an address is returned that was not resolved", where)
                continue
            z = y.fork(); z.mon.pop("failed", None); z.mon.pop("absent", None)
            for k2, v2, w in s.run(g, [addr], z):
                ctx.count("lookups_again_" + k2)
                if k2 == "ret" and not w.mon.get("resolved"):
                    mon.bad(E, w, "failed lookup reused", "after a failed name resolution the address is returned as if it was resolved", where)


def run(ctx):
    ctx.rule("each function of the library that makes a socket, name-resolution, libxml2 or TLS call is walked with each of its calls failing in each way and each possibly absent result absent")
    ctx.rule("after a failed call the path throws, tries again, or returns a value it never returns on success; then its callers are walked and have to throw. Connecting may be in progress, which is told apart")
    ctx.rule("an absent result is not dereferenced, not taken for a text, and not handed to a call that cannot take it; an address whose name was not resolved is never returned as resolved")
    seen = set()
    for config in ("poll", "select"):
        s = Session(ctx, None, config=config)
        s.E.loop_limit = 3
        s.mon = s.E.mon = mon = Mon(ctx, s)
        s.E.boundary = {"iqnet::network_error::network_error": []}
        fs, callers = containers(s)
        for f in fs:
            if (f.name, f.file) in seen: continue
            seen.add((f.name, f.file))
            judge(ctx, s, mon, f, callers)
        for x in sorted(mon.sites): ctx.count("sites"); ctx.count("site_" + x[0])
    lookup(ctx)
    for n, k in (("sites", 35), ("failures", 40), ("failures_thrown", 30), ("lookups_ret", 1), ("lookups_again_throw", 1)): ctx.need(n, k)
    for n, why in sorted(EXEMPT.items()): ctx.assume("a failure of %s is not followed: %s" % (n, why))
