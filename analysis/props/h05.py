"""H05: every response sent is a complete HTTP message that says what becomes of the connection."""
import re
from props.values_common import *
from props.server_common import ServerMonitor, server_classes, accept_one, server_conn_base, handler_impl
from props.messages import check, message, Layout, show, join, tokens
from models import cat, SC, SO, EMPTY, str_eq

HTTP = "iqxmlrpc::http::"
SEND = {"send": 2, "write": 2, "sendto": 2, "SSL_write": 2}
ERROR = HTTP + "Error_response"
BODY = (SO, ("response document",))


class Mon(ServerMonitor):
    def __init__(self, ctx, prop):
        super().__init__(ctx)
        self.prop, self.what = prop, ""
        self.rooms = []
        self.conn, self.phase = None, "boot"
        self.s = None

    def bad(self, E, st, key, msg, loc=None):
        self.ctx.violation("%s %s" % (self.prop, key), loc or E.cur_loc(st), msg, st.trace_list())

    def on_new(self, E, st, ob, size, ins):
        for x in self.rooms: E.assume(st, cmp_("eq", x, ("P", ob, 0)), False)

    def response(self, E, st, args, ins): return None

    def reactor(self, E, st, what, args, ins):
        if what == "register_handler" and self.phase == "accept":
            self.conn = args[1]
            if self.conn not in E.roots: E.roots.append(self.conn)
        if what in ("register_handler", "unregister_handler"):
            m = args[2] if len(args) > 2 else 3
            if not isinstance(m, int): raise CheckError("the events watched are not known")
            x = st.mon.get("watch", 0)
            st.mon["watch"] = x | m if what == "register_handler" else x & ~m

    def on_virtual(self, E, st, name, args, ins, cands):
        if name == "iqxmlrpc::Executor_factory_base::create_reactor": return [Outcome("ret", st, self.reactor_obj)]
        return super().on_virtual(E, st, name, args, ins, cands)

    def on_call(self, E, st, name, fn, args, ins):
        if fn.cd and name == "iqnet::Reactor_interrupter::Reactor_interrupter": return [Outcome("ret", st, None)]
        if fn.decl and name in SEND:
            self.ctx.count("writes")
            if models.portion(E, st, args[1], args[2]):
                raise Stop("sent in portions")      # whether they add up to the text is not judged here
            t = models.memstr(E, st, args[1], args[2])
            st.mon["sent"] = st.mon.get("sent", ()) + (t,)
            return [Outcome("ret", st, args[2])]
        if fn.decl and name in ("SSL_accept", "SSL_connect"): return [Outcome("ret", st, 1)]
        if fn.decl and name == "SSL_shutdown":
            st.mon["shut"] = 1
            return [Outcome("ret", st, 1)]
        if fn.decl and name == "SSL_get_shutdown": return [Outcome("ret", st, 1 if st.mon.get("shut") else 0)]
        if name == "iqxmlrpc::dump_response":
            wr(E, st, args[0], BODY)
            return [Outcome("ret", st, None)]
        if name == HTTP + "Response_header::current_date":
            wr(E, st, args[0], (SO, ("date",)))
            return [Outcome("ret", st, None)]
        if name == HTTP + "Packet_reader::read_request" and not fn.decl: return [Outcome("ret", st, self.packet)]
        if name == HTTP + "Packet_reader::expect_continue": return [Outcome("ret", st, self.expects)]
        if name == HTTP + "Header::conn_keep_alive": return [Outcome("ret", st, self.keep)]
        if name == HTTP + "Packet::dump": return None
        return super().on_call(E, st, name, fn, args, ins)

    packet = expects = keep = 0


class Scene:
    def __init__(self, ctx, prop):
        self.ctx = ctx
        self.mon = Mon(ctx, prop)
        w = self.w = World(ctx, self.mon)
        self.mon.s = w.s
        w.E.boundary = {"iqxmlrpc::Server::log_err_msg": [], "iqnet::Socket::get_peer_addr": [], "iqnet::ssl::Ctx::prepare_verify": [], "iqnet::Inet_addr::Inet_addr": [],
                        "iqxmlrpc::Method_dispatcher_manager::Method_dispatcher_manager": [], "iqnet::Socket::set_non_blocking": [], "iqxmlrpc::Exception::Exception": []}

    def begin(self, what):
        w = self.w
        w.start()
        w.E.roots.clear()
        self.mon.what, self.mon.conn, self.mon.phase = what, None, "boot"
        self.ctx.count("scenes")
        w.E.assume(w.st, cmp_("lt", 0, models.slen(BODY)), True)
        w.E.assume(w.st, str_eq(BODY, EMPTY), False)

    def server(self, ctor):
        w = self.w
        self.srv = w.room()
        self.mon.reactor_obj = w.room()
        w.call(ctor, self.srv, w.room(), w.room())
        self.mon.phase = "accept"
        sts = accept_one(w.s, self.mon, [w.st], self.srv)
        if self.mon.conn is None: raise CheckError("accepting a connection registers no handler")
        w.st = sts[w.choose(len(sts))]
        self.mon.phase = "run"
        w.st.mon.pop("sent", None)
        self.base = server_conn_base(w.s, w.st, self.mon.conn)

    def request(self, keep):
        """a complete request was read"""
        w, m = self.w, self.mon
        m.packet, m.expects, m.keep = w.room(), 0, keep
        w.call(w.s.fn("iqxmlrpc::Server_connection::read_request"), self.base, w.text((SO, ("request",))))

    def flush(self):
        """the event loop lets the connection write for as long as it wants to; -> (text, whether the connection ends)"""
        w = self.w
        term = w.room()
        w.E.roots.append(term)
        w.st.mem[(("S", term), 0)] = ended = 0
        for _ in range(4):
            if not w.st.mon.get("watch", 0) & 2: break
            w.call(handler_impl(w.s, w.st, self.mon.conn, "handle_output"), self.mon.conn, term)
            ended = w.st.mem.get((("S", term), 0))
            if ended or w.st.mon.get("shut"): break
        ts = w.st.mon.get("sent", ())
        w.st.mon.pop("sent", None)
        if not ts: raise CheckError("%s: nothing was sent" % self.mon.what)
        if ended not in (0, 1): raise CheckError("%s: whether the connection ends is not known (%s)" % (self.mon.what, ended))
        t = EMPTY
        for x in ts: t = cat(t, x)
        return t, bool(ended or w.st.mon.get("shut"))

    def bad(self, key, what, fn="iqxmlrpc::Server_connection::schedule_response"):
        f = self.w.s.fn(fn)
        self.mon.bad(self.w.E, self.w.st, key, "%s: %s" % (self.mon.what, what), "%s:%d" % (f.file, f.line))

    def judge(self, t, ended, body, code, keep):
        self.ctx.count("judged")
        wrong, lay = check(t, body)
        if wrong: self.bad("layout", wrong)
        if lay is None: return {}
        line, opts, _ = lay
        ts = tokens(line)
        start = b"".join(x if isinstance(x, bytes) else b"?" for x in ts)
        m = re.match(rb"HTTP/1\.[01] (\d\d\d)( .*)?$", start)
        if not m or int(m.group(1)) not in code:
            self.bad("status line", "the status line is %s instead of one with %s" % (show(line), "the status 200" if len(code) == 1 else "the status of an error"))
        got = {b":status": [int(m.group(1)) if m else 0]}
        for n, v in opts:
            if not isinstance(n, bytes) or not n or any(c in b"()<>@,;:\\\"/[]?={} \t" for c in n): self.bad("option name", "a header line has no proper name: %s" % (n,))
            else: got.setdefault(n, []).append(v)
        for n, v in got.items():
            self.ctx.count("options")
            if len(v) > 1: self.bad("repeated", "the header option %s is there %d times" % (n.decode(), len(v)))
        says = got.get(b"connection", [None])[0]
        want = (SC, b"close" if ended else b"keep-alive")
        if says != want:
            self.bad("connection", "the response says %s and the connection is %s afterwards" % ("connection: " + show(says) if says else "nothing about the connection", "closed" if ended else "kept open"))
        if keep is not None and ended == bool(keep):
            self.bad("kept", "the request asked to %s the connection, and it is %s" % ("keep" if keep else "close", "closed" if ended else "kept"))
        return got


def run(ctx):
    sc = Scene(ctx, "H05")
    w = sc.w
    s = w.s
    errors = sorted(c for c in s.classes(ERROR) if c != ERROR)
    ctx.count("error_classes", len(errors))
    codes = set()
    for cls, ctor in server_classes(s):
        name = cls.rsplit("::", 1)[-1]
        for keep in (0, 1):
            def normal():
                sc.server(ctor)
                for turn in range(2 if keep else 1):
                    sc.request(keep)
                    w.call(s.fn("iqxmlrpc::Server::schedule_response"), sc.srv, w.room(), sc.base, 0)
                    t, ended = sc.flush()
                    sc.judge(t, ended, BODY, (200,), keep)
            explore(sc, "%s, response on a connection to be %s" % (name, "kept" if keep else "closed"), normal)
            for e in errors:
                def error():
                    sc.server(ctor)
                    sc.request(keep)
                    x = w.room()
                    c = [f for f in s.by_short[e + "::" + e.rsplit("::", 1)[-1]] if not f.decl and not f.dem.endswith("const&)") or "basic_string" in f.dem]
                    c = [f for f in c if f.cd]
                    if not c: raise CheckError("anchor: no constructor of %s" % e)
                    w.call(c[0], x, *([w.text((SO, ("detail",)))] if "basic_string" in c[0].dem else []))
                    p = w.room()
                    w.call(w.find(HTTP + "Packet", "Packet", "(iqxmlrpc::http::Packet const&)"), p, x)
                    w.call(s.fn("iqxmlrpc::Server_connection::schedule_response"), sc.base, p)
                    t, ended = sc.flush()
                    got = sc.judge(t, ended, EMPTY, range(400, 600), keep)
                    ctx.count("errors_judged")
                    code = got.get(b":status", [0])[0]
                    codes.add(code)
                    for c, n, v in ((401, b"www-authenticate", b"basic"), (405, b"allow", b"post")):
                        if code != c: continue
                        ctx.count("required_options")
                        x = got.get(n, [EMPTY])[0]
                        if not (x[0] == SC and x[1].lower().startswith(v)):
                            sc.bad(n.decode(), "a response with the status %d has no option %s that says %s" % (c, n.decode().title(), v.decode()), HTTP + "Header::dump")
                explore(sc, "%s, %s on a connection to be %s" % (name, e.rsplit("::", 1)[-1], "kept" if keep else "closed"), error)
        def cont():
            sc.server(ctor)
            sc.mon.packet, sc.mon.expects = 0, 1
            w.call(s.fn("iqxmlrpc::Server_connection::read_request"), sc.base, w.text((SO, ("request",))))
            t, ended = sc.flush()
            ctx.count("interim")
            try:
                line, opts, body = message(t)
                if not re.match(rb"HTTP/1\.1 100( |$)", line[1] if line[0] == SC else b"") or body != EMPTY:
                    sc.bad("continue", "the interim response is %s" % show(t), "iqxmlrpc::Server_connection::read_request")
            except Layout as e: sc.bad("continue", "the interim response %s" % e, "iqxmlrpc::Server_connection::read_request")
            if ended: sc.bad("continue", "the connection is closed after the interim response", "iqxmlrpc::Server_connection::read_request")
            sc.request(0)
            w.call(s.fn("iqxmlrpc::Server::schedule_response"), sc.srv, w.room(), sc.base, 0)
            t, ended = sc.flush()
            sc.judge(t, ended, BODY, (200,), 0)
        explore(sc, "%s, request announced with an expectation" % name, cont)
    if not {401, 405} <= codes and not ctx.violations: raise CheckError("anchor: no responses with the statuses 401 and 405 (%s)" % sorted(codes))
    for n, k in (("judged", 34), ("errors_judged", 28), ("interim", 2), ("required_options", 8), ("error_classes", 7)): ctx.need(n, k)
    ctx.rule("for every server class: the bytes written for a response, for each error response class and for the interim response are a status line, header lines with proper names, one empty line and exactly the body, with the length of the body declared once")
    ctx.rule("after the bytes were written the connection is ended exactly if they say close, and kept exactly if the request asked for it and they say keep-alive; also for a second request on it")
    ctx.rule("a response with status 401 carries a challenge, one with 405 the method that is allowed")
