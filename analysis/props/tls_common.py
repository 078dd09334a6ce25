"""TLS contexts and what they are configured to."""
from checklib import *
from engine import bneg
from props.server_common import call_all

CTX = "iqnet::ssl::Ctx::"
NO_SSL3 = 1 << 25          # SSL_OP_NO_SSLv3; SSL_OP_NO_SSLv2 is without effect (0) in this TLS library
MIN_PROTO, TLS1 = 123, 0x301
# makers of methods that negotiate the version: the options decide about SSLv3
FLEXIBLE = {"TLS_method", "TLS_server_method", "TLS_client_method", "SSLv23_method", "SSLv23_server_method", "SSLv23_client_method"}
CERT = {"SSL_CTX_use_certificate_file", "SSL_CTX_use_certificate_chain_file", "SSL_CTX_use_certificate", "SSL_CTX_use_certificate_ASN1"}
KEY = {"SSL_CTX_use_PrivateKey_file", "SSL_CTX_use_RSAPrivateKey_file", "SSL_CTX_use_PrivateKey", "SSL_CTX_use_RSAPrivateKey"}
CHECK = "SSL_CTX_check_private_key"


def tls_config(E, st, name, args, failing=True):
    """the calls that make and configure a TLS context -> outcomes or None; st.mon[("ctx", c)] is a
    dict-like tuple of what was done to context c"""
    def get(c): return dict(st.mon.get(("ctx", c), ()))

    def put(c, x, **kw):
        d = dict(x.mon.get(("ctx", c), ())); d.update(kw)
        x.mon[("ctx", c)] = tuple(sorted(d.items(), key=repr))
    if name in FLEXIBLE or name.endswith("_method") and name.startswith(("SSL", "TLS", "DTLS")):
        return [Outcome("ret", st, ("s", ("method", name)))]
    if name == "SSL_CTX_new":
        k = st.mon["contexts"] = st.mon.get("contexts", 0) + 1
        c = ("s", ("arg", "context", k))
        if c not in E.roots: E.roots.append(c)
        outs = []
        if failing:
            x = st.fork(); x.mon["failed"] = "making the context"
            x.note(E.cur_loc(x), "SSL_CTX_new fails")
            outs.append(Outcome("ret", x, 0))
        E.assume(st, as_bool(c), True)
        m = args[0]
        old = isinstance(m, tuple) and m[0] == "s" and m[1][0] == "method" and m[1][1] not in FLEXIBLE and not m[1][1].startswith("TLSv1")
        put(c, st, options=0, method="old" if old else "any")
        return outs + [Outcome("ret", st, c)]
    if name in ("SSL_CTX_set_options", "SSL_CTX_clear_options"):
        o = get(args[0]).get("options", 0)
        b = args[1] if isinstance(args[1], int) else 0
        put(args[0], st, options=(o | b) if "set" in name else (o & ~b if isinstance(args[1], int) else 0))
        return [Outcome("ret", st, ("s", ("options", name)))]
    if name == "SSL_CTX_ctrl" and args[1] == MIN_PROTO:
        if isinstance(args[2], int): put(args[0], st, least=args[2])
        return [Outcome("ret", st, 1)]
    step = "cert" if name in CERT else "key" if name in KEY else "match" if name == CHECK else None
    if step:
        x = st.fork(); x.mon["failed"] = name
        x.note(E.cur_loc(x), "%s fails" % name)
        d = get(args[0])
        kw = {step: 1}
        if step in ("cert", "key"): kw["match"] = 0        # a check before does not cover what is loaded now
        elif not (d.get("cert") and d.get("key")): kw = {}
        put(args[0], st, **kw)
        return ([Outcome("ret", x, 0)] if failing else []) + [Outcome("ret", st, 1)]
    return None


def safe(d):
    """whether what was done to the context excludes SSLv3"""
    return d.get("method") != "old" and (d.get("options", 0) & NO_SSL3 or d.get("least", 0) >= TLS1)


def makers(s):
    """the outermost functions of the library from which a context is made"""
    callers = {}
    for f in s.prog.funcs.values():
        for b in f.blocks:
            for i in b:
                if i["op"] in ("call", "invoke") and i["fn"][0] == "f": callers.setdefault(i["fn"][1], set()).add(f.name)
    todo, seen = ["SSL_CTX_new"], set()
    while todo:
        for c in callers.get(todo.pop(), ()):
            if c not in seen: seen.add(c); todo.append(c)
    return [s.prog.funcs[n] for n in sorted(seen) if not callers.get(n, set()) - {n}]


class CtxMon(Recorder):
    failing = True

    def __init__(self, ctx, s):
        super().__init__()
        self.ctx, self.s = ctx, s

    def on_call(self, E, st, name, fn, args, ins):
        if fn.decl:
            if name.startswith("SSL_CTX"): self.ctx.count("context_calls")
            return tls_config(E, st, name, args, self.failing)
        return None
