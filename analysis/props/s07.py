"""S07: a stop request always ends the work loop."""
from props.server_common import *

WRITES = {"send", "write", "sendto", "sendmsg"}


class Mon(ServerMonitor):
    def __init__(self, ctx, s):
        super().__init__(ctx)
        self.s = s
        self.phase = "boot"
        self.flag = None
        self.kept = {}

    def bad(self, E, st, key, msg, loc=None):
        self.ctx.violation("S07 " + key, loc or E.cur_loc(st), msg, st.trace_list())

    def on_virtual(self, E, st, name, args, ins, cands):
        if name == "iqxmlrpc::Executor_factory_base::create_reactor": return [Outcome("ret", st, self.reactor_obj)]
        return super().on_virtual(E, st, name, args, ins, cands)

    # ---- external calls
    def on_call(self, E, st, name, fn, args, ins):
        if fn.cd and name == "iqnet::Acceptor::Acceptor" and self.phase == "work": return [Outcome("ret", st, None)]
        if not fn.decl: return None
        if name in ("socket", "accept", "accept4"):
            fd = E.fresh(st, "fd", ins["id"])
            st.mon[("kind", fd)] = "accepted" if name != "socket" else "own"
            if name != "socket": st.mon[("of", fd)] = args[0]
            E.assume(st, cmp_("lt", fd, 0), False)
            return [Outcome("ret", st, fd)]
        if name in ("socketpair", "pipe", "pipe2", "eventfd"):
            raise CheckError("the wake-up uses %s(), which this analysis does not model" % name)
        if name == "connect":
            st.mon[("kind", args[0])] = "connected"
            return [Outcome("ret", st, 0)]
        if name in ("bind", "listen", "getsockname", "fcntl", "setsockopt") and self.phase == "boot":
            E.opaque(st, fn, args, ins, name)
            return [Outcome("ret", st, 0)]
        if name in WRITES and self.phase == "stop":
            self.ctx.count("wake_ups")
            if st.mon.get(("kind", args[0])) != "connected":
                self.bad(E, st, "wake socket", "the wake-up is not written to the socket connected to the event loop")
            if E.decide(st, cmp_("lt", 0, args[2])) is not True:
                self.bad(E, st, "wake empty", "the wake-up may write nothing")
            st.mon["woken"] = True
            st.mon["snap"] = frozenset(self.ones(E, st))
            return [Outcome("ret", st, args[2])]
        return None

    def ones(self, E, st):
        """cells of lasting objects that hold a constant now and did not before"""
        out = set()
        for k, v in st.mem.items():
            if k[0][0] in ("S", "H") and isinstance(k[1], int) and isinstance(v, int) and v != 0 and self.base.get(k) != v:
                out.add(k)
        return out

    # ---- the loop
    def reactor(self, E, st, what, args, ins):
        if what == "register_handler" and self.phase == "boot":
            st.mon["reg"] = st.mon.get("reg", ()) + ((args[1], args[2]),)
        if what == "unregister_handler" and self.phase == "drain":
            self.bad(E, st, "drain unregister", "the wake-up connection unregisters itself: later stop requests are lost")
        if what == "handle_events" and self.phase == "work":
            self.ctx.count("waits")
            v = E.load(st, ("P",) + self.flag, 1)
            if self.preset:
                self.bad(E, st, "stop before loop", "a stop requested before the loop was entered does not prevent it from waiting")
                raise Stop("judged")
            if E.decide(st, as_bool(v)) is not False:
                self.bad(E, st, "unchecked wait", "the loop waits without having looked at the stop request since its last wait")
            # the timeout argument: -1 is fine, the wake-up ends the wait
            n = st.mon["turn"] = st.mon.get("turn", 0) + 1
            if n > 3: raise Stop("enough turns")
            E.store(st, ("P",) + self.flag, ("s", ("stopflag", n)))

    def on_end(self, E, st, kind, v):
        super().on_end(E, st, kind, v)
        if self.phase == "stop" and kind == "ret":
            self.ctx.count("stop_paths")
            if not st.mon.get("woken"): self.bad(E, st, "no wake", "a stop request can end without waking the loop", "Server::set_exit_flag")
        if self.phase == "work" and kind == "ret":
            self.ctx.count("loop_exits")
            f = E.load(st, ("P",) + self.flag, 1)
            if E.decide(st, as_bool(f)) is not False:
                self.bad(E, st, "not reset", "the loop ends with the stop request still recorded: it cannot be entered again", "Server::work")
        if self.phase == "drain" and kind == "ret":
            self.ctx.count("drain_paths")
            if E.decide(st, as_bool(E.load(st, self.term, 1))) is not False:
                self.bad(E, st, "drain terminate", "taking a wake-up drops the wake-up connection: later stop requests are lost")


def run(ctx):
    ctx.rule("Server::set_exit_flag (also through Server_feedback) on a constructed server: on every path a lasting cell is set to a constant before at least one byte is written to the socket connected to the loop's wake-up connection, which is registered for input")
    ctx.rule("Server::work: at every wait (Reactor_base::handle_events) that cell has been read as false on the path since the previous wait; a cell set beforehand means no wait at all; every normal end leaves it false")
    ctx.rule("taking a wake-up neither drops nor unregisters the wake-up connection")
    s = Session(ctx, None)
    mon = s.mon = s.E.mon = Mon(ctx, s)
    E = s.E
    sts = []
    server, addr, cf, ef = (s.sym(x) for x in ("server", "addr", "connfactory", "execfactory"))
    mon.reactor_obj = s.sym("reactor")
    st0 = s.blank(); st0.frames = []
    for v in (server, cf, ef, mon.reactor_obj): E.assume(st0, as_bool(v), True)
    E.boundary = {"iqnet::Inet_addr::get_sockaddr": [], "iqxmlrpc::Server::log_err_msg": []}
    sts = [st for k, v, st in s.run(s.fn("iqxmlrpc::Server::Server"), [server, addr, cf, ef], st0) if k == "ret"]
    if not sts: raise CheckError("Server::Server has no normal end")
    ctx.count("constructed_states", len(sts))
    for st in sts:
        regs = st.mon.get("reg", ())
        if not regs:
            mon.bad(E, st, "not registered", "no wake-up connection is registered with the event loop when a server is constructed", "Server::Server"); continue
        h, mask = regs[0]
        if not (isinstance(mask, int) and mask & 1): mon.bad(E, st, "not watched", "the wake-up connection is not watched for input", "Server::Server")
        # its descriptor is the accepted end of the connected socket
        q = E.norm_ptr(h)
        vp = st.mem.get(q)
        if not (is_ptr(vp) and vp[1][0] == "G"): raise CheckError("the class of the wake-up connection is unknown")
        vt = vp[1][1]
        _, fds = s.eval(st, s.impl(vt, "iqnet::Event_handler", "get_handler"), [h])
        if not all(st.mon.get(("kind", f)) == "accepted" for f in fds):
            mon.bad(E, st, "wake pair", "the connection registered for wake-ups is not the accepted end of the wake-up socket", "Server::Server")
        ctx.count("wake_connections")
        # the stop request
        mon.phase = "stop"
        mon.base = dict(st.mem)
        ends = s.run(s.fn("iqxmlrpc::Server::set_exit_flag"), [server], st)
        cand = None
        for k, v, x in ends:
            if k != "ret": continue
            fin = mon.ones(E, x)
            cand = fin if cand is None else cand & fin
        if not cand:
            mon.bad(E, st, "not recorded", "a stop request leaves no lasting record", "Server::set_exit_flag"); continue
        for k, v, x in ends:
            if k == "ret" and x.mon.get("woken") and not (cand & x.mon["snap"]):
                mon.bad(E, x, "order", "the loop is woken before the stop request is recorded", "Server::set_exit_flag")
        ctx.count("flag_cells", len(cand))
        # from a method
        fb = s.sym("feedback")
        x = st.fork()
        srv = [f for f in s.by_short.get("iqxmlrpc::Server_feedback::Server_feedback", []) if len(s.E.prog.funcs[f.name].dem.split("(")[1]) > 1]
        for f in srv[:1]:
            mon.phase = "feedback"
            made = s.run(f, [fb, server], x)
            mon.phase = "stop"
            for k, v, y in made:
                if k == "ret": s.run(s.fn("iqxmlrpc::Server_feedback::set_exit_flag"), [fb], y)
                ctx.count("feedback_runs")
        # the loop
        mon.phase = "work"
        for mon.flag in sorted(cand):
            mon.preset = False
            y = st.fork(); y.mem[mon.flag] = ("s", ("stopflag", 0))
            s.run(s.fn("iqxmlrpc::Server::work"), [server], y)
            mon.preset = True
            for k, v, y in ends:
                if k == "ret": s.run(s.fn("iqxmlrpc::Server::work"), [server], y)
        # taking the wake-up
        mon.phase = "drain"
        mon.term = s.sym("terminate")
        y = st.fork(); y.mem[(("S", mon.term), 0)] = 0
        s.run(s.impl(vt, "iqnet::Event_handler", "handle_input"), [h, mon.term], y)
    for n in ("constructed_states", "wake_connections", "wake_ups", "stop_paths", "flag_cells", "feedback_runs", "waits", "loop_exits", "drain_paths"): ctx.need(n) if not ctx.violations else None
    ctx.assume("a byte written to the loopback socket makes its peer readable, which ends a wait of the event loop; writing it succeeds")
    ctx.assume("the record is one byte written by one store, visible to the loop thread after the system calls of the wake-up")
