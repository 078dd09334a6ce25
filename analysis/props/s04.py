"""S04: a failing connection never stops the server loop."""
from props.server_common import *

EH = "iqnet::Event_handler"
NETERR = "_ZTIN5iqnet13network_errorE"


class LoopMon(ServerMonitor):
    """Server::work with the real event loop; the connection handler's behaviour is its set of outcomes."""

    def __init__(self, ctx, s, cls, vt):
        super().__init__(ctx)
        self.s, self.cls, self.vt = s, cls, vt
        self.esc = {}
        for m in ("handle_input", "handle_output", "finish"):
            f = s.impl(vt, EH, m)
            self.esc[m] = sorted(s.E.escapes(f)) if not f.nounwind else []
        self.barrier = s.impl(vt, EH, "catch_in_reactor")

    def bad(self, E, st, key, msg, loc=None):
        self.ctx.violation("S04 " + key, loc or E.cur_loc(st), msg, st.trace_list())

    def on_call(self, E, st, name, fn, args, ins):
        if fn.cd and name == "iqnet::Acceptor::Acceptor": return [Outcome("ret", st, None)]
        if name.startswith("iqnet::Reactor") and name.endswith("::handle_events"):
            st.mon["turns"] = st.mon.get("turns", 0) + 1
            if st.mon.get("failed"):
                self.judge(E, st)
                raise Stop("loop goes on")
            if st.mon["turns"] > 1: raise Stop("nothing failed")
        if fn.decl and name in ("poll", "select", "epoll_wait"):
            self.ctx.count("waits_reached")
            if st.mon.get("failed"):
                self.judge(E, st)
                raise Stop("loop goes on")
            n = ("s", ("ready",))
            E.assume(st, cmp_("lt", 0, n), True)
            return [Outcome("ret", st, n)]
        return None

    def on_virtual(self, E, st, name, args, ins, cands):
        c, _, m = name.rpartition("::")
        if c == EH:
            if m in ("handle_input", "handle_output"): return self.handle(E, st, m, args, ins)
            if m == "catch_in_reactor":
                _, vals = self.s.eval(st, self.barrier, [args[0]])
                if not vals: raise CheckError("catch_in_reactor of %s has no value" % self.cls)
                if len(vals) == 1 and isinstance(next(iter(vals)), int): return [Outcome("ret", st, vals.pop())]
                return [Outcome("ret", st, 0), Outcome("ret", st.fork(), 1)]
            if m == "is_stopper": return [Outcome("ret", st, 0)]
            if m == "finish":
                st.mon["finished"] = st.mon.get("finished", 0) + 1
                if st.mon.get("handler") != args[0]: self.bad(E, st, "other finished", "another connection than the failing one is dropped")
                if st.mon["finished"] > 1: self.bad(E, st, "finished twice", "a failing connection is dropped twice")
                return [Outcome("ret", st, None)] + [Outcome("throw", st.fork(), (t, ("s", ("exc", t)))) for t in self.esc["finish"]]
            if ins["ty"] == "v": return [Outcome("ret", st, None)]
            return E.opaque_pure(st, ins, name)
        return None

    def handle(self, E, st, m, args, ins):
        if st.mon.get("handler"): raise Stop("second event")
        self.ctx.count("handler_calls")
        st.mon["handler"] = args[0]
        outs = []
        for t in self.esc[m]:
            self.ctx.count("exceptions_injected")
            s2 = st.fork()
            s2.mon["failed"] = t
            s2.note(E.cur_loc(st), "%s::%s throws %s" % (self.cls, m, t))
            outs.append(Outcome("throw", s2, (t, ("s", ("exc", t)))))
        s2 = st.fork()
        E.store(s2, args[1], 1)
        s2.mon["failed"] = "terminate"
        outs.append(Outcome("ret", s2, None))
        return outs

    def container_result(self, E, st, op, args, ins, fn):
        if "Event_handler*" in fn.ctx and "map" in fn.ctx:
            if op == "find":
                # what is looked up is registered
                E.assume(st, ("ub", ("found", models.cver(E, st, args[0]), models.mkey(E, st, fn, args[1])), False), True)
            if op in ("erase", "clear") and st.mon.get("failed"): st.mon["erased"] = 1
        return None

    def judge(self, E, st):
        self.ctx.count("failures_survived")
        if not st.mon.get("finished"): self.bad(E, st, "kept", "a connection that failed (%s) is not dropped" % st.mon["failed"], "Server::work")
        if not st.mon.get("erased"): self.bad(E, st, "registered", "a connection that failed (%s) is dropped but stays in the table of handlers" % st.mon["failed"], "Server::work")

    def on_end(self, E, st, kind, v):
        super().on_end(E, st, kind, v)
        f = st.mon.get("failed")
        if not f or kind == "unreachable": return
        if kind == "throw": self.bad(E, st, "escape %s" % f, "%s raised by %s leaves Server::work" % (v[0], self.cls), "Server::work")
        elif kind == "terminate": self.bad(E, st, "terminate", "the process is terminated after %s in %s" % (f, self.cls), "Server::work")
        elif kind == "ret": self.bad(E, st, "ended", "Server::work ends because a connection failed (%s)" % f, "Server::work")


class ListenMon(ServerMonitor):
    """One incoming connection at the listener; every socket call may fail."""

    def __init__(self, ctx, s):
        super().__init__(ctx)
        self.s = s

    def bad(self, E, st, key, msg, loc=None):
        self.ctx.violation("S04 " + key, loc or E.cur_loc(st), msg, st.trace_list())

    def on_virtual(self, E, st, name, args, ins, cands):
        if name == "iqnet::Accepted_conn_factory::create_accepted":
            outs = []
            ts = set()
            for v, off in cands:
                n = E.vt.fn(v, off + self.slot * 8)
                if n and n in E.prog.funcs: ts |= set(E.escapes(E.prog.funcs[n]))
            for t in sorted(ts):
                self.ctx.count("exceptions_injected")
                s2 = st.fork()
                s2.note(E.cur_loc(st), "creating the connection object throws %s" % t)
                outs.append(Outcome("throw", s2, (t, ("s", ("exc", t)))))
            return outs + [Outcome("ret", st, None)]
        if name.startswith("iqnet::Firewall_base::"):
            if name.endswith("grant"): return [Outcome("ret", st, 1), Outcome("ret", st.fork(), 0)]
            models.wr(E, st, args[0], (SO, ("firewall message",)))
            return [Outcome("ret", st, None)]
        return super().on_virtual(E, st, name, args, ins, cands)

    def reactor(self, E, st, what, args, ins):
        if what == "unregister_handler" and args[1] == self.acc:
            self.bad(E, st, "listener unregistered", "the listener is unregistered while it handles an incoming connection")

    def on_call(self, E, st, name, fn, args, ins):
        if fn.decl and name in ("accept", "accept4"): self.ctx.count("accept_calls")
        if fn.decl and name == "close" and args and args[0] == self.lfd: self.bad(E, st, "listener closed", "the listening socket is closed")
        return None

    def on_end(self, E, st, kind, v):
        super().on_end(E, st, kind, v)
        if kind == "unreachable": return
        self.ctx.count("listener_paths")
        if kind == "throw":
            if v[0] == FOREIGN or E.hier.derives(v[0], "_ZTIN5iqnet3ssl15not_initializedE"): return
            self.bad(E, st, "listener escape", "%s raised while an incoming connection is accepted leaves the listener's handler, and with it the work loop" % v[0], "Acceptor::handle_input")
        elif kind == "terminate": self.bad(E, st, "listener terminate", "the process is terminated while an incoming connection is accepted", "Acceptor::handle_input")
        elif E.decide(st, as_bool(E.load(st, self.term, 1))) is not False:
            self.bad(E, st, "listener ends", "a failing incoming connection makes the event loop drop the listener", "Acceptor::handle_input")


class ConnMon(ServerMonitor):
    """Handlers of one connection class: no path may end the process."""

    def __init__(self, ctx, s, cls):
        super().__init__(ctx)
        self.s, self.cls = s, cls

    def on_call(self, E, st, name, fn, args, ins):
        if name in ("iqxmlrpc::Server::schedule_execute", "iqxmlrpc::Server_connection::schedule_response"):
            raise Stop("judged by S03")
        return None

    def on_virtual(self, E, st, name, args, ins, cands):
        if name.rsplit("::")[-1] in ("what", "code"): return E.opaque_pure(st, ins, name)
        return super().on_virtual(E, st, name, args, ins, cands)

    def on_mem_error(self, E, st, kind, p):
        if kind in ("null-string", "null-deref", "null-call"):
            self.ctx.violation("S04 %s %s" % (kind, self.cls.rsplit("::")[-1]), E.cur_loc(st), "handling an error of one connection uses an absent %s" % ("text" if kind == "null-string" else "object"), st.trace_list())

    def on_end(self, E, st, kind, v):
        super().on_end(E, st, kind, v)
        self.ctx.count("connection_paths")
        if kind == "terminate":
            self.ctx.violation("S04 conn terminate " + self.cls.rsplit("::")[-1], self.cls, "an error on one connection terminates the process (exception out of a function that must not throw)", st.trace_list())


def run(ctx):
    ctx.rule("Server::work walked with the real event loop: whatever exception can leave a server connection's handler (escape analysis of its class) is stopped before it leaves the loop, that connection alone is unregistered and finished, and the loop goes on")
    ctx.rule("Acceptor::handle_input never throws, never asks to be dropped and never unregisters itself, whatever socket call or connection set-up fails")
    ctx.rule("no path of a server connection's handlers or finish reaches std::terminate or dereferences an absent result")
    # the loop, for each connection class
    s = Session(ctx, None)
    classes = s.classes(EH, "iqxmlrpc::Server_connection")
    ctx.count("connection_classes", len(classes))
    ctx.need("connection_classes", 2)
    s.E.loop_limit = 1
    for cls, vt in sorted(classes.items()):
        mon = s.mon = s.E.mon = LoopMon(ctx, s, cls, vt)
        server = s.sym("server")
        st0 = s.blank(); st0.frames = []
        s.run(s.fn("iqxmlrpc::Server::work"), [server], st0)
        ctx.sample("%s: handle_input may throw %s" % (cls, mon.esc["handle_input"]))
    for n in ("handler_calls", "exceptions_injected", "failures_survived"): ctx.need(n)
    # the listener
    s = Session(ctx, None)
    mon = s.mon = s.E.mon = ListenMon(ctx, s)
    r = s.prog.records["iqnet::Accepted_conn_factory"]
    mon.slot = [k for k, n, l in r["v"] if n == "create_accepted"][0]
    mon.acc, mon.term = s.sym("acceptor"), s.sym("terminate")
    st0 = s.blank(); st0.frames = []
    s.E.assume(st0, as_bool(mon.acc), True)
    st0.mem[(("S", mon.term), 0)] = 0
    mon.lfd = None
    s.run(s.fn("iqnet::Acceptor::handle_input"), [mon.acc, mon.term], st0)
    ctx.need("accept_calls"); ctx.need("listener_paths", 4)
    # the handlers themselves
    for cls, vt in sorted(classes.items()):
        s = Session(ctx, None)
        mon = s.mon = s.E.mon = ConnMon(ctx, s, cls)
        s.E.boundary = {"iqxmlrpc::Server_connection::read_request": None, "iqxmlrpc::Server::log_err_msg": []}
        for m in ("handle_input", "handle_output", "finish"):
            f = s.impl(vt, EH, m)
            conn, term = s.sym("connection"), s.sym("terminate")
            st0 = s.blank(); st0.frames = []
            s.E.assume(st0, as_bool(conn), True)
            s.set_class(st0, conn, cls)
            s.run(f, [conn, term][:len(f.params)] if hasattr(f, "params") else ([conn, term] if m != "finish" else [conn]), st0)
    ctx.need("connection_paths", 6)
    ctx.assume("failures of poll()/select() itself, of the log stream, of memory allocation and exceptions of the user's firewall are not failures of one connection")
