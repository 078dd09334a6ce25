"""T01: peer verification is in force before any TLS data."""
from props.tls_common import *
from props.client_common import ClientMon, SessMon, client_session
from props.reading import ReadMon, world, new_call
from props.server_common import server_classes, handler_impl, call_all

VERIFY = "iqnet::ssl::ConnectionVerifier::do_verify"
PEER, REQUIRED = 1, 2
SERVER_HS, CLIENT_HS = {"SSL_accept"}, {"SSL_connect"}
PLAIN = {"send", "recv", "read", "write", "sendto", "recvfrom", "sendmsg", "recvmsg"}
GLOBAL = ("P", ("G", "_ZN5iqnet3ssl3ctxE"), 0)


class Tls:
    """the TLS library as the environment, and the rules"""
    config = None       # role -> verifier or 0; "required"

    def tls(self, E, st, name, args):
        r = tls_config(E, st, name, args, failing=False)
        if r is not None: return r
        if name == "SSL_new":
            k = st.mon["ssls"] = st.mon.get("ssls", 0) + 1
            v = ("s", ("arg", "ssl", k))
            if v not in E.roots: E.roots.append(v)
            E.assume(st, as_bool(v), True)
            self.put(st, v, **dict(st.mon.get(("verify", args[0]), ())))
            return [Outcome("ret", st, v)]
        if name in ("SSL_set_verify", "SSL_CTX_set_verify"):
            self.put(st, args[0], mode=args[1])
            if args[2] != 0: self.put(st, args[0], callback=args[2])
            return [Outcome("ret", st, None)]
        if name == "SSL_set_ex_data": self.put(st, args[0], **{"data": self.get(st, args[0]).get("data", ()) + ((args[1], args[2]),)}); return [Outcome("ret", st, 1)]
        if name == "SSL_get_ex_data":
            d = dict(self.get(st, args[0]).get("data", ()))
            return [Outcome("ret", st, d.get(args[1], 0))]
        if name == "SSL_get_ex_data_X509_STORE_CTX_idx": return [Outcome("ret", st, ("s", ("arg", "index of the connection")))]
        if name == "X509_STORE_CTX_get_ex_data":
            if args[1] == ("s", ("arg", "index of the connection")) and st.mon.get("verifying"): return [Outcome("ret", st, st.mon["verifying"])]
            return None
        if name in ("SSL_set_accept_state", "SSL_set_connect_state"):
            self.put(st, args[0], role="server" if "accept" in name else "client"); return [Outcome("ret", st, None)]
        if name in ("SSL_accept", "SSL_connect", "SSL_do_handshake"):
            role = {"SSL_accept": "server", "SSL_connect": "client"}.get(name) or self.get(st, args[0]).get("role")
            return self.handshake(E, st, name, args[0], role)
        if name in ("SSL_read", "SSL_write", "SSL_peek", "SSL_read_ex", "SSL_write_ex"):
            self.ctx.count("data_operations")
            if not self.get(st, args[0]).get("done"):
                self.bad(E, st, "data early", "%s moves application data although the handshake has not succeeded" % name); raise Stop("reported")
            return None
        if name in PLAIN: return self.plain(E, st, name, args)
        if name == "SSL_get_error" and st.mon.get("handshake error") is not None: return [Outcome("ret", st, st.mon["handshake error"])]
        return None

    def plain(self, E, st, name, args):
        self.ctx.count("plain_operations")
        if st.mon.get("ssls") or "('arg', 'request')" in repr(args[1]):
            self.bad(E, st, "in clear " + name, "%s moves data of a TLS session in clear" % name); raise Stop("reported")
        return None

    def get(self, st, o): return dict(st.mon.get(("verify", o), ()))

    def put(self, st, o, **kw):
        d = self.get(st, o); d.update(kw)
        st.mon[("verify", o)] = tuple(sorted(d.items(), key=repr))

    def handshake(self, E, st, name, ssl, role):
        self.ctx.count("handshakes_" + str(role))
        st.mon.pop("handshake error", None)
        d = self.get(st, ssl)
        v = self.config.get(role, 0)
        mode = d.get("mode", 0)
        if not isinstance(mode, int): raise CheckError("the verification mode is not known")
        if v and not mode & PEER:
            self.bad(E, st, "off " + role, "the handshake of a %s starts although its verifier is configured and peer verification is off" % role); raise Stop("reported")
        if role == "server" and self.config.get("required") and mode & 3 != 3:
            self.bad(E, st, "not required", "client certificates are required but the handshake starts in a mode that lets a client without one pass"); raise Stop("reported")
        if v: self.consult(E, st, ssl, d.get("callback", 0), v, role)
        outs = []
        for ret, err in ((0, 1), (0, 5), (0, 6), (-1, 1), (-1, 5), (-1, 2), (-1, 3)):
            x = st.fork()
            x.mon["handshake error"] = err
            if err in (2, 3):
                if x.mon.get("again"): continue
                x.mon["again"] = 1
            x.note(E.cur_loc(x), "%s returns %d (error %d)" % (name, ret, err))
            outs.append(Outcome("ret", x, ret))
        self.put(st, ssl, done=1)
        return outs + [Outcome("ret", st, 1)]

    def consult(self, E, st, ssl, cb, v, role):
        """the callback the TLS library will call for each certificate"""
        f = E.prog.funcs.get(cb[1]) if isinstance(cb, tuple) and cb[0] == "F" else None
        if f is None:
            self.bad(E, st, "no callback " + role, "peer verification of the %s is on but the verifier is not consulted" % role); raise Stop("reported")
        for pre in (0, 1):
            self.ctx.count("callbacks")
            y = st.fork()
            y.mon["verifying"] = ssl
            y.mon.pop("consulted", None); y.mon.pop("verifier threw", None)
            y.note(E.cur_loc(y), "verification callback, the TLS library's own verdict is %d" % pre)
            for k, rv, x in ClientMon.nested(self, E, y, f, [pre, ("s", ("arg", "certificates"))]):
                c = x.mon.get("consulted", ())
                where = "%s:%s" % (f.file, f.line)
                if k == "throw": self.bad(E, x, "leaves " + role, "an exception leaves the verification callback", where); continue
                if not any(o == E.norm_ptr(v) for o, p in c):
                    self.bad(E, x, "not consulted " + role, "a certificate is decided about without asking the verifier configured for the %s role" % role, where); continue
                if any(p != pre for o, p in c): self.bad(E, x, "verdict " + role, "the verifier is not told the TLS library's own verdict", where)
                if rv is None: rv = ("s", ("none",))
                if x.mon.get("verifier threw"):
                    if E.decide(x, cmp_("eq", rv, 0)) is not True: self.bad(E, x, "exception " + role, "a certificate is accepted although the verifier failed with an exception", where)
                    continue
                a = ("s", ("arg", "verifier answer"))
                for yes in (True, False):
                    z = x.fork()
                    if not E.assume(z, cmp_("eq", a, 0), not yes): continue
                    if E.decide(z, cmp_("eq", rv, 0)) is not (not yes):
                        self.bad(E, z, "answer %s %s" % (yes, role), "the verifier's %s does not decide" % ("acceptance" if yes else "rejection"), where)

    def asked(self, E, st, args):
        self.ctx.count("verifier_asked")
        p = args[1]
        if isinstance(p, tuple):
            r = E.decide(st, cmp_("eq", p, 0)); p = 0 if r is True else 1 if r is False else p
        st.mon["consulted"] = st.mon.get("consulted", ()) + ((E.norm_ptr(args[0]), 1 if p is True else 0 if p is False else p),)
        outs = [Outcome("ret", st, ("s", ("arg", "verifier answer")))]
        for t in (STDX, FAULT, FOREIGN):
            x = st.fork(); x.mon["verifier threw"] = 1
            x.note(E.cur_loc(x), "the verifier throws")
            outs.append(Outcome("throw", x, (t, ("s", ("exc", t)))))
        return outs


class ServerTls(Tls, ReadMon):
    def on_virtual(self, E, st, name, args, ins, cands):
        if name == VERIFY: return self.asked(E, st, args)
        return super().on_virtual(E, st, name, args, ins, cands)

    def on_call(self, E, st, name, fn, args, ins):
        if fn.decl:
            r = self.tls(E, st, name, args)
            if r is not None: return r
        if fn.decl and name == "SSL_shutdown": return [Outcome("ret", st, 1)]
        if fn.decl and name == "SSL_get_shutdown": return [Outcome("ret", st, 0)]
        return super().on_call(E, st, name, fn, args, ins)


class ClientTls(Tls, SessMon):
    failing = False

    def on_virtual(self, E, st, name, args, ins, cands):
        if name == VERIFY: return self.asked(E, st, args)
        return super().on_virtual(E, st, name, args, ins, cands)

    def environment(self, E, st, name, fn, args, ins):
        if fn.decl:
            r = self.tls(E, st, name, args)
            if r is not None: return r
        return super().environment(E, st, name, fn, args, ins)


class PlainTls(ClientTls):
    pass


def configure(maker, calls):
    """-> function making the context and configuring it in the states given"""
    def pre(s, sts):
        E = s.E
        for n in ("iqnet::ssl::Ctx::prepare_verify",): E.boundary.pop(n, None)
        f = s.fn(CTX + maker)
        names = [s.sym("file %d" % k) for k in range(f.nargs)]
        for x in sts:
            for v in names: E.assume(x, as_bool(v), True)
        out = []
        for st in sts:
            for k, c, x in s.run(f, names, st):
                if k != "ret": continue
                if c not in E.roots: E.roots.append(c)
                E.store(x, GLOBAL, c)
                ys = [x]
                for fn, a in calls:
                    for y in ys:
                        for v in a:
                            if isinstance(v, tuple):
                                E.assume(y, as_bool(v), True)
                                if v not in E.roots: E.roots.append(v)
                    ys = call_all(s, ys, s.fn(CTX + fn), [c] + list(a))
                out += ys
        if not out: raise CheckError("no context is made")
        return out
    return pre


V, W, OLD = (("s", ("arg", n)) for n in ("the verifier", "the other verifier", "a verifier replaced"))

CASES = [    # what, maker for the server / client role, calls, configuration
    ("verifier of clients", "server_only", [("verify_client", (0, V))], {"server": V}),
    ("verifier of clients, required", "client_server", [("verify_client", (1, V)), ("verify_server", (W,))], {"server": V, "client": W, "required": 1}),
    ("required only", "server_only", [("verify_client", (1, 0))], {"required": 1}),
    ("verifier replaced", "client_server", [("verify_client", (0, OLD)), ("verify_client", (1, V))], {"server": V, "required": 1}),
    ("verifier of servers", "client_only", [("verify_server", (V,))], {"client": V}),
    ("both", "client_server", [("verify_server", (V,)), ("verify_client", (0, W))], {"client": V, "server": W}),
    ("verifier of servers replaced", "client_only", [("verify_server", (OLD,)), ("verify_server", (V,))], {"client": V}),
    ("nothing", "client_server", [], {}),
]


def servers(ctx, what, pre, config):
    s0 = Session(ctx, None)
    for cls, ctor in server_classes(s0):
        if "Https" not in cls: continue

        def mk(s):
            m = ServerTls(ctx, s, "T01", cls.rsplit("::")[-1], 0)
            m.config, m.early = config, False
            return m
        s, mon, sts = world(ctx, cls, ctor, mk, None, pre=pre)
        ctx.count("connections")
        term = s.sym("terminate")
        cur, seen = sts, {}
        for turn in range(4):
            nxt = []
            for st in cur:
                w = st.mon.get("watch", 0)
                for bit, meth in ((1, "handle_input"), (2, "handle_output")):
                    if not w & bit: continue
                    y = new_call(st.fork())
                    y.mem[(("S", term), 0)] = 0
                    for k, v, x in s.run(handler_impl(s, y, mon.conn, meth), [mon.conn, term], y):
                        if k != "ret" or x.mem.get((("S", term), 0)) != 0 or x.mon.get("executed"): continue
                        key = (x.mon.get("watch"), x.mon.get("handshake error"), x.mon.get("again"), x.mon.get("reads"), tuple(v for q, v in sorted(x.mon.items(), key=repr) if q[:1] == ("verify",)))
                        if seen.setdefault((turn, key), 0) < 4:
                            seen[(turn, key)] += 1; nxt.append(x)
            cur = nxt


def clients(ctx, what, pre, config):
    for cls in ("iqxmlrpc::Https_client_connection", "iqxmlrpc::Https_proxy_client_connection"):
        def mk(s):
            m = ClientTls(ctx, s, "T01", cls.rsplit("::")[-1])
            m.config = config
            return m
        n = 0
        for k, s, mon, ends in client_session(ctx, cls, mk, sessions=1, events=5 if "proxy" in cls else 4, pre=pre): n += sum(e[0] == "ret" for e in ends)
        if not n and not ctx.violations: raise CheckError("no session of %s ends with a response" % cls)
        ctx.count("connections")


def blocking(ctx, what, pre, config):
    """the connection class that makes its handshake at once"""
    for role, start in (("server", "post_accept"), ("client", "post_connect")):
        s = Session(ctx, None)
        E = s.E
        s.mon = E.mon = mon = PlainTls(ctx, s, "T01", "blocking")
        mon.config = config
        E.boundary = {"iqnet::ssl::exception::exception": [], "iqnet::network_error::network_error": []}
        conn, sock, buf = (s.sym(x) for x in ("blocking connection", "socket", "buffer"))
        n = s.sym("length")
        st = s.blank(); st.frames = []
        for v in (conn, sock, buf): E.assume(st, as_bool(v), True)
        E.assume(st, cmp_("lt", 0, n), True)
        sts = call_all(s, pre(s, [st]), s.fn("iqnet::ssl::Connection::Connection"), [conn, sock])
        vt = s.classes("iqnet::ssl::Connection").get("iqnet::ssl::Connection")
        for x in sts:
            for k, v, y in s.run(s.fn("iqnet::ssl::Connection::" + start), [conn], x):
                if k != "ret": continue
                for op in ("send", "recv"): s.run(s.fn("iqnet::ssl::Connection::" + op), [conn, buf, n], y.fork())
        ctx.count("connections")


def run(ctx):
    ctx.rule("contexts are made and configured in %d ways; at every handshake call reached by server, client, proxied and blocking connections: the mode last set on that connection has peer verification when the role has a verifier, and also fails without a certificate when one is required" % len(CASES))
    ctx.rule("the verification callback in force at the handshake is walked with both verdicts of the TLS library: it asks the verifier configured for the role, on that connection, tells it the verdict, returns its answer, and returns 0 when it throws")
    ctx.rule("every read and write of TLS data is on a connection whose handshake returned success on the same path; nothing of the session goes over the plain socket")
    for what, maker, calls, config in CASES:
        pre = configure(maker, calls)
        ctx.count("configurations")
        if maker != "client_only": servers(ctx, what, pre, config)
        if maker != "server_only": clients(ctx, what, pre, config)
        blocking(ctx, what, pre, config)
    for n, k in (("handshakes_server", 6), ("handshakes_client", 6), ("verifier_asked", 8), ("data_operations", 8), ("callbacks", 8), ("plain_operations", 2)): ctx.need(n, k)
    ctx.assume("the TLS library calls the callback set for the connection for every certificate and ends the handshake when it returns 0; without a callback its own verdict decides")
