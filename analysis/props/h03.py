"""H03: outgoing bytes are sent once, in order, to the end."""
from props.reading import *
from models import SUB, wr
from props.client_common import ClientMon, client_classes, part

R = (SO, ("outgoing text",))
NOSIGNAL = 0x4000
PLAIN_WRITES = {"send", "sendto", "sendmsg", "write", "writev"}


class Out:
    """what is common to server and client connections: the model of the transport and the rules"""
    tls = False

    def sends(self, E, st, name, args, ins):
        self.ctx.count("writes")
        if st.mon.get("wrote in call"): raise Stop("one write per event")
        st.mon["wrote in call"] = 1
        a = args[1]
        shift = 0
        if is_ptr(a) and a[1][0] == "S": a, shift = a[1][1], a[2]
        t = a[1][1] if is_sym(a) and a[1][0] == "cstr" else None
        off = self.offset(t)
        sent = st.mon.get("sent", 0)
        if off is None:
            self.bad(E, st, "other text", "what is written is not the text that was scheduled"); raise Stop("reported")
        off = ladd(off, shift)
        if ladd(off, sent, -1) != 0 and not self.same(E, st, off, sent):
            self.bad(E, st, "position", "a write does not start at the first byte that has not been sent yet"); raise Stop("reported")
        if st.mon.get("text of") is not None and rd(E, st, E.mkptr(*st.mon["text of"])) != t:
            self.bad(E, st, "stale", "the text being written is no longer held by the connection"); raise Stop("reported")
        n, left = args[2], ladd(slen(t), shift, -1)
        if not entails(E, st, bneg(cmp_("lt", left, n))):
            self.bad(E, st, "too long", "a write may reach beyond the end of the text"); raise Stop("reported")
        if ladd(n, left, -1) != 0: self.ctx.count("partial_requests")
        outs = []
        x = st.fork()
        x.mon["sent"] = ladd(sent, n)
        x.note(E.cur_loc(x), "everything asked for is written")
        outs.append(Outcome("ret", x, n))
        if name == "SSL_write":
            x = st.fork()
            if E.assume(x, cmp_("lt", 0, n), True):
                x.mon["failed"] = 1
                x.note(E.cur_loc(x), "the TLS write fails: it returns 0")
                outs.append(Outcome("ret", x, 0))
            st.mon["would block"] = 1
            st.note(E.cur_loc(st), "the TLS write has to be repeated")
            outs.append(Outcome("ret", st, -1))
        else:
            k = st.mon["nwrites"] = st.mon.get("nwrites", 0) + 1
            z = ("s", ("arg", "written", k))
            E.assume(st, cmp_("lt", 0, z), True)
            E.assume(st, cmp_("lt", z, n), True)
            st.mon["sent"] = ladd(sent, z)
            st.note(E.cur_loc(st), "only a part is written")
            outs.append(Outcome("ret", st, z))
        return outs

    def offset(self, t):
        if t == R: return 0
        if isinstance(t, tuple) and t[0] == SUB and t[3] is None:
            o = self.offset(t[1])
            return None if o is None else ladd(o, t[2])
        return None

    def same(self, E, st, a, b):
        return entails(E, st, bneg(cmp_("lt", a, b))) and entails(E, st, bneg(cmp_("lt", b, a)))

    def transport(self, E, st, name, fn, args, ins):
        """outcomes for functions of the environment, or None"""
        if name.startswith("std::") and name.rsplit("::")[-1] in ("c_str", "data"): st.mon["text of"] = E.norm_ptr(args[0])
        if fn.decl and name in ("send", "SSL_write"):
            if name == "send" and not (isinstance(args[3], int) and args[3] & NOSIGNAL):
                self.bad(E, st, "sigpipe", "a write to a socket can raise SIGPIPE")
            return self.sends(E, st, name, args, ins)
        if fn.decl and name == "SSL_get_error":
            if st.mon.get("failed"): self.ctx.count("failed_writes_examined"); raise Stop("the failure is examined")
            if not st.mon.get("would block"): return [Outcome("ret", st, 0)]
            x = st.fork()
            return [Outcome("ret", st, 2), Outcome("ret", x, 3)]
        if fn.decl and name in ("SSL_connect", "SSL_accept"): return [Outcome("ret", st, 1)]
        if fn.decl and name == "SSL_pending": return [Outcome("ret", st, 0)]
        if fn.decl and name in RECV:
            if st.mon.get("armed") and not self.done(E, st):
                self.bad(E, st, "read early", "the connection is read before the last byte of what it sends was accepted")
            raise Stop("reading")
        if fn.decl and name == "SSL_get_shutdown": return [Outcome("ret", st, 0)]
        return None

    def done(self, E, st):
        return self.same(E, st, st.mon.get("sent", 0), slen(R))

    def judge(self, E, x, ended, w, loc):
        """after an event; -> whether the sending goes on"""
        if not x.mon.get("was armed"): return True
        if x.mon.get("failed"):
            self.bad(E, x, "failed write", "a TLS write that accepted nothing is not examined", loc); return False
        if self.done(E, x):
            self.ctx.count("completions")
        elif not x.mon.get("wrote in call") and not ended:
            self.bad(E, x, "no write", "an event passes without writing although bytes remain", loc)
        elif ended:
            self.bad(E, x, "ended early", "the connection ends before the last byte was accepted", loc)
        elif not w:
            self.bad(E, x, "unwatched", "bytes remain but the event loop is not asked to report that the connection is writable", loc)
        elif not x.mon.get("would block") and w & 1:
            self.bad(E, x, "next phase", "the connection goes on to reading before the last byte was accepted", loc)
        else: return True
        return False

    def events(self, s, st):
        """fires what is watched; -> states in which sending goes on"""
        E = s.E
        term = s.sym("terminate")
        out = []
        w = st.mon.get("watch", 0)
        for bit, meth in ((1, "handle_input"), (2, "handle_output")):
            if not w & bit: continue
            y = st.fork()
            y.mem[(("S", term), 0)] = 0
            for k in ("wrote in call", "would block"): y.mon.pop(k, None)
            y.mon["was armed"] = y.mon.get("armed", 0)
            for k, v, x in s.run(handler_impl(s, y, self.conn, meth), [self.conn, term], y):
                if k == "ret" and self.judge(E, x, x.mem.get((("S", term), 0)) != 0, x.mon.get("watch", 0), "%s connection: %s" % (self.what, meth)):
                    out.append(x)
        return out

    def drive(self, s, sts, depth):
        for d in range(depth):
            nxt = []
            seen = {}
            for st in sts: nxt += self.events(s, st)
            sts = nxt
            self.ctx.count("events_followed", len(sts))


class Server_(Out, ReadMon):
    def reactor(self, E, st, what, args, ins): super().reactor(E, st, what, args, ins)

    def on_call(self, E, st, name, fn, args, ins):
        if name == "iqxmlrpc::http::Packet::dump" and ins.get("sret"):
            wr(E, st, args[0], R)
            st.mon["armed"] = 1
            st.mon["sent"] = 0
            return [Outcome("ret", st, None)]
        r = self.transport(E, st, name, fn, args, ins)
        return r if r is not None else super().on_call(E, st, name, fn, args, ins)


class Client_(Out, ClientMon):
    """one call on a client connection: the request, or the request for a tunnel"""
    max_waits = 5

    def environment(self, E, st, name, fn, args, ins):
        if name == "iqxmlrpc::http::Header::dump" and ins.get("sret"):
            wr(E, st, args[0], R)
            self.arm(st)
            return [Outcome("ret", st, None)]
        if fn.decl and name == "SSL_connect": self.arm(st)
        return self.transport(E, st, name, fn, args, ins)

    def arm(self, st):
        st.mon["armed"] = 1
        st.mon["sent"] = 0

    def before_event(self, E, st, meth):
        for k in ("wrote in call", "would block"): st.mon.pop(k, None)
        st.mon["was armed"] = st.mon.get("armed", 0)

    def after_event(self, E, st, meth, ended):
        w = 0
        for h, m in self.watched(st): w |= m
        if not self.judge(E, st, ended, w, self.what + ": " + meth): raise Stop("complete or reported")


def run(ctx):
    ctx.rule("each write of a connection must start at the first byte not yet accepted by the transport and stay within the scheduled text, over all sequences of complete, short and would-block writes")
    ctx.rule("while bytes remain the connection stays watched, is neither ended nor read, and the next event writes again; a TLS write is repeated with the same text, which the connection still holds")
    ctx.rule("every write to a plain socket carries the flag that suppresses SIGPIPE; no TLS context or connection enables partial writes")
    s0 = Session(ctx, None)
    for cls, ctor in server_classes(s0): server(ctx, cls, ctor)
    for cls, ctor in client_classes(s0): client(ctx, cls, ctor)
    lint(ctx, s0)
    for n, k in (("connections", 6), ("writes", 20), ("completions", 8), ("plain_write_sites", 1)): ctx.need(n, k)


def server(ctx, cls, ctor):
    what = cls.rsplit("::")[-1]
    s, mon, sts = world(ctx, cls, ctor, lambda s: Server_(ctx, s, "H03", what, 0), None)
    s.E.boundary.pop("iqxmlrpc::http::Packet::dump", None)
    pkt = s.sym("responsepacket")
    go = []
    for st in sts:
        # a TLS connection first completes its handshake
        for y in mon.events(s, st) or [st]:
            s.E.assume(y, as_bool(pkt), True)
            y.mon["watch"] = 0      # S05: not watched while the request executes
            for k, v, z in s.run(s.fn("iqxmlrpc::Server_connection::schedule_response"), [server_conn_base(s, y, mon.conn), pkt], y):
                if k == "ret": go.append(z)
    if not any(x.mon.get("armed") for x in go): raise CheckError("no response can be scheduled on a %s connection" % what)
    for x in go:
        if not x.mon.get("watch"): mon.bad(s.E, x, "never", "a scheduled response is never written", "%s connection: schedule_response" % what)
    ctx.count("connections")
    for d in range(4):
        nxt = []
        for x in go: nxt += mon.events(s, x)
        go = nxt
        ctx.count("events_followed", len(go))


def client(ctx, cls, ctor):
    what = cls.rsplit("::")[-1]
    s = Session(ctx, None)
    E = s.E
    s.mon = E.mon = mon = Client_(ctx, s, "H03", what)
    mon.max_events = 5
    E.loop_limit = 8
    E.boundary = {"iqnet::ssl::Ctx::prepare_verify": [], "iqnet::Socket::get_peer_addr": [], "iqnet::Socket::set_non_blocking": [], "iqnet::ssl::exception::exception": [],
                  "iqnet::network_error::network_error": [], "iqxmlrpc::http::Header::Header": [], "iqxmlrpc::http::Error_response::Error_response": []}
    conn, sock, opts, req = (s.sym(x) for x in ("connection", "socket", "options", "request"))
    mon.conn = conn
    st = s.blank(); st.frames = []
    for v in (conn, sock, opts, req): E.assume(st, as_bool(v), True)
    sts = call_all(s, [st], ctor, [conn, sock, 1])
    sts = call_all(s, sts, s.fn("iqxmlrpc::Client_connection::set_options"), [part(s, sts[0], conn, "iqxmlrpc::Client_connection"), opts])
    vt = s.classes("iqxmlrpc::Client_connection")[cls]
    post = s.impl(vt, "iqnet::Connection", "post_connect")
    sess = s.impl(vt, "iqxmlrpc::Client_connection", "do_process_session")
    sts = call_all(s, sts, post, [part(s, sts[0], conn, "iqnet::Connection")])
    n = ctx.counts.get("writes", 0)
    for x in sts:
        wr(E, x, req, R)
        if not mon.watched(x): mon.arm(x)      # else a handshake comes first
        s.run(sess, [part(s, x, conn, "iqxmlrpc::Client_connection"), req], x)
    if ctx.counts.get("writes", 0) == n: raise CheckError("a %s never writes" % what)
    ctx.count("connections")


def lint(ctx, s0):
    # every write to a plain socket in the library
    for f in s0.prog.funcs.values():
        if f.decl or "/libiqxmlrpc/" not in f.file: continue
        for b in f.blocks:
            for i in b:
                if i["op"] in ("call", "invoke") and i["fn"][0] == "f" and s0.prog.funcs[i["fn"][1]].decl and i["fn"][1] in PLAIN_WRITES:
                    ctx.count("plain_write_sites")
                    fl = {"send": 3, "sendto": 3, "sendmsg": 2}.get(i["fn"][1])
                    a = i["as"][fl] if fl is not None else None
                    if a is None or a[0] == "c" and not int(a[1]) & NOSIGNAL:
                        ctx.violation("H03 sigpipe " + s0.E.short(f), "%s:%s" % s0.E.loc(i), "a write to a socket in %s can raise SIGPIPE" % s0.E.short(f))
                if i["op"] in ("call", "invoke") and i["fn"][0] == "f" and i["fn"][1] in ("SSL_ctrl", "SSL_CTX_ctrl"):
                    c, m = i["as"][1], i["as"][2]
                    if c[0] == "c" and int(c[1]) == 33 and not (m[0] == "c" and not int(m[1]) & 1):
                        ctx.violation("H03 partial writes " + s0.E.short(f), "%s:%s" % s0.E.loc(i), "partial TLS writes are enabled in %s but a partial write is taken for a complete one" % s0.E.short(f))
