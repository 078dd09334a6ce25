"""K01: a client never takes a response that belongs to another request."""
from props.client_common import *
from props.h02 import responses

SESSION = "iqxmlrpc::Client_connection::do_process_session"
CONNECT = "iqnet::Connector_base::connect"


class CallMon(Recorder):
    """calls of a client object; connections and sessions are the environment"""
    def __init__(self, ctx, s):
        super().__init__()
        self.ctx, self.s = ctx, s
        self.calling = False

    def bad(self, E, st, key, msg, loc=None):
        self.ctx.violation("K01 " + key, loc or E.cur_loc(st), msg, st.trace_list())

    def throws(self, E, st, types, note):
        outs = []
        for t in types:
            x = st.fork()
            x.note(E.cur_loc(x), "%s throws %s" % (note, t))
            outs.append(Outcome("throw", x, (t, ("s", ("exc", t)))))
        return outs

    def on_call(self, E, st, name, fn, args, ins):
        if name == CONNECT: return self.connect(E, st, fn)
        if name == SESSION: return self.session(E, st, args, ins)
        if name == "iqxmlrpc::parse_response":
            self.ctx.count("parsed")
            return self.throws(E, st, sorted(E.escapes(fn)), "parsing the response") + [Outcome("ret", st, None)]
        return None

    def on_virtual(self, E, st, name, args, ins, cands):
        if name == SESSION: return self.session(E, st, args, ins)
        if "::~" in name and self.conn_of(E, args[0]) is not None:
            o = self.conn_of(E, args[0])
            if o in st.mon.get("gone", ()): self.bad(E, st, "twice", "a connection is destroyed twice"); raise Stop("reported")
            st.mon["gone"] = st.mon.get("gone", ()) + (o,)
            return [Outcome("ret", st, None)]
        if name.endswith("::get_connection"): raise CheckError("the client's class is not known")
        return E.opaque_pure(st, ins, name)

    def conn_of(self, E, p):
        q = E.norm_ptr(p)
        o = q[0] if q else None
        return o if o and o[0] == "S" and is_sym(o[1]) and o[1][1][:2] == ("arg", "connection") else None

    def connect(self, E, st, fn):
        k = st.mon["conns"] = st.mon.get("conns", 0) + 1
        self.ctx.count("connects")
        c = ("s", ("arg", "connection", k))
        if c not in E.roots: E.roots.append(c)
        outs = self.throws(E, st, sorted(E.escapes(fn)), "connecting")
        E.assume(st, as_bool(c), True)
        return outs + [Outcome("ret", st, c)]

    def session(self, E, st, args, ins):
        o = next((self.conn_of(E, a) for a in args if self.conn_of(E, a)), None)
        if o is None: raise CheckError("a session on an unknown connection")
        self.ctx.count("sessions")
        if o in st.mon.get("gone", ()):
            self.bad(E, st, "destroyed", "a session uses a connection that was destroyed"); raise Stop("reported")
        if o in st.mon.get("failed", ()):
            self.bad(E, st, "failed", "a call uses a connection on which an earlier call failed: it can take the response of that call"); raise Stop("reported")
        if o in st.mon.get("used", ()): self.bad(E, st, "retry", "one call runs two sessions on a connection: the second can take the response of the first")
        st.mon["used"] = st.mon.get("used", ()) + (o,)
        outs = self.throws(E, st, self.failures, "the session")
        p = ("s", ("arg", "response packet", st.mon.get("conns")))
        E.assume(st, as_bool(p), True)
        return outs + [Outcome("ret", st, p)]

    def on_end(self, E, st, kind, v):
        super().on_end(E, st, kind, v)
        if not self.calling: return
        self.ctx.count("calls_ended_" + kind)
        if kind == "throw": st.mon["failed"] = st.mon.get("failed", ()) + st.mon.get("used", ())
        for o in st.mon.get("used", ()):
            if kind == "ret" and o not in st.mon.get("gone", ()): self.ctx.count("kept")
        st.mon["used"] = ()


def calls_world(ctx, mk, timeout=False, rounds=3, last=None):
    s = Session(ctx, None)
    E = s.E
    mon = s.mon = E.mon = mk(ctx, s)
    E.boundary = {"iqnet::Inet_addr::Inet_addr": [], "iqnet::Inet_addr::get_host_name": [], "iqnet::Inet_addr::get_port": [], "iqxmlrpc::Request::Request": [], "iqxmlrpc::Request::~Request": [],
                  "iqxmlrpc::dump_request": None, "iqxmlrpc::http::Request_header::Request_header": [], "iqxmlrpc::http::Packet::dump": [], "iqxmlrpc::http::Packet::set_keep_alive": [],
                  "iqxmlrpc::http::Header::set_xheaders": [], "iqxmlrpc::http::Request_header::set_authinfo": [], "iqxmlrpc::http::Header::set_content_length": [],
                  "iqxmlrpc::http::Error_response::Error_response": []}
    imp = [f for f in s.prog.funcs.values() if not f.decl and s.E.short(f).endswith("::do_process_session")]
    if len(imp) < 3: raise CheckError("anchor: %d implementations of a client session" % len(imp))
    esc = set()
    for f in imp: esc |= set(E.escapes(f))
    mon.failures = sorted(esc | {TIMEOUT})
    ctors = [f for f in s.by_short["iqxmlrpc::Client::Client"] if not f.decl and "C2E" in f.name]
    if len(ctors) < 2: raise CheckError("anchor: %d client classes" % len(ctors))
    execute = [f for f in s.by_short["iqxmlrpc::Client_base::execute"] if not f.decl and "Param_list" in f.dem or "vector" in f.dem][0]
    for ctor in ctors:
        cl, addr, uri, vh = (s.sym(x) for x in ("client", "addr", "uri", "vhost"))
        st = s.blank(); st.frames = []
        for v in (cl, addr, uri, vh): E.assume(st, as_bool(v), True)
        mon.calling = False
        sts = call_all(s, [st], ctor, [cl, addr, uri, vh])
        ka = s.sym("keep alive")
        sts = call_all(s, sts, s.fn("iqxmlrpc::Client_base::set_keep_alive"), [cl, ka])
        if timeout:
            mon.T = s.sym("timeout")
            for x in sts: E.assume(x, cmp_("lt", 0, mon.T), True)
            sts = call_all(s, sts, s.fn("iqxmlrpc::Client_base::set_timeout"), [cl, mon.T])
            ps = call_all(s, [x.fork() for x in sts], s.fn("iqxmlrpc::Client_base::set_proxy"), [cl, s.sym("proxy")])
            if not ps: raise CheckError("a proxy cannot be set")
            sts += ps
        for rnd in range(rounds):
            nxt = []
            mon.calling = True
            for x in sts:
                y = x.fork()
                r = s.sym("response%d" % rnd)
                nxt += [e for e in s.run(execute, [r, cl, s.sym("method"), s.sym("params"), s.sym("headers")], y)]
            mon.calling = False
            if not any(k == "ret" for k, _, _ in nxt) or not any(k == "throw" for k, _, _ in nxt): raise CheckError("a call never succeeds or never fails")
            # one state of each kind
            kinds = {}
            for k, v, x in nxt:
                kinds.setdefault((k, x.mon.get("failed"), x.mon.get("gone"), E.decide(x, as_bool(ka))), x)
            sts = list(kinds.values())
            for x in sts: x.caught = (); x.exc = None
            if rnd == 1:
                k2 = s.sym("keep alive later")
                sts = sts + call_all(s, [x.fork() for x in sts], s.fn("iqxmlrpc::Client_base::set_keep_alive"), [cl, k2])
            ctx.count("states_after_call_%d" % (rnd + 1), len(sts))
            if last:
                for x in sts: last(s, mon, x.fork(), cl)


def calls(ctx):
    calls_world(ctx, CallMon)
    for n in ("sessions", "connects", "calls_ended_ret", "calls_ended_throw", "kept"): ctx.need(n, 2)


def run(ctx):
    ctx.rule("three calls in a row on a client object are walked from its constructor, with keep-alive on or off and changed in between; connecting, the session, the HTTP status and parsing may each fail: no session runs on a connection on which an earlier call failed, or that was destroyed")
    ctx.rule("two sessions in a row on one connection of every client class: a session returns only a packet the reader delivered during this session, after its request was sent, and not the answer of a proxy")
    ctx.rule("one reader, given the pieces of two responses in a row: what it delivers second is made of the second response's bytes only, and has their header")
    calls(ctx)
    sessions(ctx)
    responses(ctx, "K01", 2)
    ctx.need("responses_read", 4)


class Mon(SessMon):
    failing = False

    def judge(self, ends, n):
        for k, v, x in ends:
            if k != "ret": continue
            self.ctx.count("sessions_ended")
            loc = "%s: session %d" % (self.what, n + 1)
            p = v[1] if is_sym(v) and v[1][:2] == ("arg", "packet") else None
            if p is None: self.bad(self.s.E, x, "no packet", "a session ends without a response packet", loc)
            elif p[3] != "full": self.bad(self.s.E, x, "tunnel", "a session takes the answer of the proxy for the response", loc)
            elif p[4] != n: self.bad(self.s.E, x, "stale", "a session returns the response of an earlier session on the connection", loc)
            elif not x.mon.get("sent"): self.bad(self.s.E, x, "unsent", "a session returns a response before it sent its request", loc)


def sessions(ctx):
    s0 = Session(ctx, None)
    for cls, ctor in client_classes(s0):
        what = cls.rsplit("::")[-1]
        for n, s, mon, ends in client_session(ctx, cls, lambda s: Mon(ctx, s, "K01", what), events=6 if "proxy" in cls else 4):
            mon.judge(ends, n)
            if n == 0 and not any(k == "ret" for k, _, _ in ends): raise CheckError("a session on a %s never ends" % what)
        ctx.count("connection_classes")
    ctx.need("connection_classes", 4)
    ctx.need("sessions_ended", 6)
