"""K02: every wait of a client is bounded by its timeout."""
from props.client_common import *
from props.k01 import CallMon, calls_world


class Wait:
    """rules at each wait and each socket operation"""
    def before_wait(self, E, st, args, ins):
        ms = args[1] if len(args) > 1 else None
        want = E.binop("mul", self.T, 1000, "i32")
        if ms is None or ladd(ms, want, -1) != 0:
            self.bad(E, st, "unbounded", "a wait for the network does not use the configured timeout"); raise Stop("reported")
        if st.mon.get("timed out"):
            self.bad(E, st, "waits on", "a wait that ran out does not end the call: it waits again"); raise Stop("reported")

    def op(self, E, st, name, h):
        self.ctx.count("socket_operations")
        if self.fd(st, h) not in st.mon.get("nonblocking", ()):
            self.bad(E, st, "blocking " + name, "%s can block outside the bounded wait: the socket is not known to be non-blocking" % name)

    def ended(self, k, v, x, loc):
        if not x.mon.get("timed out"): return
        self.ctx.count("timeouts")
        if k != "throw" or v[0] != TIMEOUT:
            self.bad(self.s.E, x, "not reported", "a wait that ran out does not end the call with the timeout error but with %s" % ("a result" if k == "ret" else v[0]), loc)


class Mon(Wait, SessMon): pass


class Connecting(Wait, SessMon):
    def environment(self, E, st, name, fn, args, ins):
        if fn.decl and name == "socket": return [Outcome("ret", st, ("s", ("arg", "fd")))]
        if fn.decl and name == "connect":
            self.op(E, st, name, args[0])
            x = st.fork()
            return [Outcome("ret", st, 0), Outcome("ret", x, -1)]
        return super().environment(E, st, name, fn, args, ins)

    def on_virtual(self, E, st, name, args, ins, cands):
        if name.endswith("::create_connection"):
            self.ctx.count("connections_made")
            return [Outcome("ret", st, ("s", ("arg", "connection")))]
        return super().on_virtual(E, st, name, args, ins, cands)


def connecting(ctx):
    s = Session(ctx, None)
    E = s.E
    s.mon = E.mon = mon = Connecting(ctx, s, "K02", "connect")
    E.boundary = {"iqnet::network_error::network_error": [], "iqnet::Inet_addr::get_sockaddr": []}
    ctr, T = s.sym("connector"), s.sym("timeout")
    mon.T = T
    st = s.blank(); st.frames = []
    E.assume(st, as_bool(ctr), True)
    E.assume(st, cmp_("lt", 0, T), True)
    for k, v, x in s.run(s.fn("iqnet::Connector_base::connect"), [ctr, T], st): mon.ended(k, v, x, "Connector_base::connect")
    ctx.need("connections_made", 2)


class Calls(CallMon):
    """the configured timeout reaches the connector and the session"""
    def bad(self, E, st, key, msg, loc=None): pass        # K01 judges which connection is used

    def on_call(self, E, st, name, fn, args, ins):
        if name == "iqnet::Connector_base::connect":
            self.ctx.count("connect_calls")
            if args[1] != self.T:
                self.ctx.violation("K02 connect timeout", E.cur_loc(st), "connecting does not use the configured timeout", st.trace_list())
            return CallMon.connect(self, E, st, fn)
        return super().on_call(E, st, name, fn, args, ins)

    def session(self, E, st, args, ins):
        self.ctx.count("session_calls")
        this = next(a for a in args if self.conn_of(E, a))
        ends, o = self.s.eval(st, self.s.fn("iqxmlrpc::Client_connection::opts"), [this])
        for v in o:
            e2, t = self.s.eval(st, self.s.fn("iqxmlrpc::Client_options::timeout"), [v])
            if t != {self.T}:
                self.ctx.violation("K02 session timeout", E.cur_loc(st), "the session does not run with the configured timeout", st.trace_list())
        return CallMon.session(self, E, st, args, ins)


class Loop(Recorder):
    """the event loop itself: how long it waits, and what it says when the time ran out"""
    def __init__(self, ctx, T):
        super().__init__()
        self.ctx, self.T = ctx, T

    def on_call(self, E, st, name, fn, args, ins):
        if name.endswith("::invoke_event_handler"): return [Outcome("ret", st, None)]
        if not (fn.decl and name in ("poll", "ppoll", "select", "epoll_wait")): return None
        self.ctx.count("system_waits")
        if name != "poll": raise CheckError("the event loop waits with %s" % name)
        if ladd(args[2], self.T, -1) != 0 and args[2] != 0:
            self.ctx.violation("K02 loop wait", E.cur_loc(st), "the event loop does not wait for the time it was given", st.trace_list())
            raise Stop("reported")
        x = st.fork()
        x.mon["ran out"] = 1
        x.note(E.cur_loc(x), "poll reports that the time ran out")
        n = ("s", ("arg", "ready"))
        E.assume(st, cmp_("lt", 0, n), True)
        return [Outcome("ret", x, 0), Outcome("ret", st, n)]

    def on_virtual(self, E, st, name, args, ins, cands): return E.opaque_pure(st, ins, name)


def waiting(ctx):
    s = Session(ctx, None)
    E = s.E
    E.iter_depth = 1
    loop, T = s.sym("loop"), s.sym("milliseconds")
    s.mon = E.mon = Loop(ctx, T)
    fs = [f for f in s.fn("iqnet::Reactor::handle_events", many=True) if not f.decl and "Null_lock" in f.dem]
    if len(fs) != 1: raise CheckError("anchor: the event loop of a client")
    st = s.blank(); st.frames = []
    E.assume(st, as_bool(loop), True)
    E.assume(st, cmp_("lt", 0, T), True)
    for k, v, x in s.run(fs[0], [loop, T], st):
        if k != "ret" or not x.mon.get("ran out"): continue
        ctx.count("waits_run_out")
        if v != 0: ctx.violation("K02 loop result", "%s:%s" % (fs[0].file, fs[0].line), "the event loop does not report that the time ran out", x.trace_list())
    for n in ("system_waits", "waits_run_out"): ctx.need(n, 1)


def run(ctx):
    ctx.rule("the event loop of a client waits in poll for exactly the time it was given and reports that it ran out")
    waiting(ctx)
    ctx.rule("with a timeout T > 0 the argument of every wait, while connecting and in sessions of every client class, is the term T * 1000; a wait that reports that the time ran out leads to the timeout error on every path")
    ctx.rule("every connect, send, receive and TLS operation is on a descriptor that was made non-blocking on the same path")
    ctx.rule("the T set on the client is the one given to the connector and read by the session")
    connecting(ctx)
    s0 = Session(ctx, None)
    for cls, ctor in client_classes(s0):
        what = cls.rsplit("::")[-1]
        for n, s, mon, ends in client_session(ctx, cls, lambda s: Mon(ctx, s, "K02", what), sessions=1, events=6 if "proxy" in cls else 4):
            for k, v, x in ends: mon.ended(k, v, x, "%s: session" % what)
        ctx.count("connection_classes")
    calls_world(ctx, Calls, timeout=True, rounds=2)
    for n, k in (("connection_classes", 4), ("timeouts", 8), ("waits", 10), ("socket_operations", 10), ("connect_calls", 2), ("session_calls", 2)): ctx.need(n, k)
    ctx.assume("the time a name resolution takes is not a wait of the event loop and is not bounded by the timeout")
