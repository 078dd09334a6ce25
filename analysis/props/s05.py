"""S05: a connection is not watched while its request executes."""
from props.server_common import *
import known

POLLIN, POLLOUT, POLLERR, POLLHUP = 1, 4, 8, 16
EH = "iqnet::Event_handler"


class Mon(ServerMonitor):
    """The real event loop with one server connection and one other handler."""

    def __init__(self, ctx, s, what):
        super().__init__(ctx)
        self.s, self.what = s, what
        self.phase = "boot"
        self.conn = None

    def bad(self, E, st, key, msg, loc=None):
        self.ctx.violation("S05 %s %s" % (self.what, key), loc or E.cur_loc(st), msg, st.trace_list())

    def on_virtual(self, E, st, name, args, ins, cands):
        c, _, m = name.rpartition("::")
        if name == "iqxmlrpc::Executor_factory_base::create_reactor": return [Outcome("ret", st, self.reactor_obj)]
        if c == EH:
            if args[0] == self.other:
                if m == "get_handler": return [Outcome("ret", st, self.fd2)]
                return [Outcome("ret", st, 0 if ins["ty"] != "v" else None)]
            if m == "is_stopper": return [Outcome("ret", st, 0)]
        return super().on_virtual(E, st, name, args, ins, cands)

    def on_call(self, E, st, name, fn, args, ins):
        if fn.cd and name == "iqnet::Reactor_interrupter::Reactor_interrupter": return [Outcome("ret", st, None)]
        if name == "iqnet::Connection::get_handler" or name == "iqnet::Socket::get_handler":
            return [Outcome("ret", st, self.fd)]
        if name.startswith("iqnet::Reactor") and name.endswith("::register_handler") and self.phase == "accept":
            self.conn = args[1]
            if self.conn not in E.roots: E.roots.append(self.conn)
        if name == "iqxmlrpc::Server::schedule_execute":
            self.ctx.count("requests_handed_over")
            if st.mon.get("executing"): self.bad(E, st, "second", "a second request of the connection is handed over while its first one executes")
            st.mon["executing"] = E.cur_loc(st)
            self.look(E, st)
            return [Outcome("ret", st, None)]
        if self.phase == "loop" and not fn.decl and args and st.mon.get("executing") and name.rsplit("::", 1)[-1] in ("handle_input", "handle_output", "finish") \
                and fn.name in self.handlers and E.norm_ptr(args[0])[0] == E.norm_ptr(self.conn)[0]:
            if not st.mon.get("inside"):
                self.bad(E, st, "event", "the event loop calls %s of a connection whose request is executing" % name)
                raise Stop("judged")
        if fn.decl and name in ("poll", "ppoll"): return self.poll(E, st, args, ins)
        if fn.decl and name in ("select", "epoll_wait"): raise CheckError("the event loop waits in %s(), which this analysis does not model" % name)
        return super().on_call(E, st, name, fn, args, ins)

    def look(self, E, st):
        """what the event loop would watch if another thread looked right now"""
        if self.looking: return
        self.looking = True
        keep = self.ends, E.steps, E.npaths, E.merged
        try:
            x = st.fork(); x.frames = []
            E.push(x, self.loop_fn, (self.reactor_obj, -1), ("look",))
            E.run(x)
        finally:
            self.looking = False
            self.ends, E.steps, E.npaths, E.merged = keep

    looking = False

    def poll(self, E, st, args, ins):
        """what is watched, and every event it can report for the connection"""
        els = None
        for (o, off), v in st.mem.items():
            if isinstance(off, tuple) and off[0] == "kseq" and args[0] in v[1]: els = v[1]
        if els is None: raise CheckError("the set of watched descriptors at poll() is not known")
        self.ctx.count("waits")
        mine = None
        for e in els:
            fd = E.load(st, e, 4)
            ev = E.load(st, ("P", ("S", e), 4), 2)
            if fd == self.fd: mine = (e, ev)
            elif fd != self.fd2: raise CheckError("unknown descriptor watched")
            E.store(st, ("P", ("S", e), 6), 0)
        if st.mon.get("executing"):
            self.ctx.count("waits_while_executing")
            if mine:
                self.bad(E, st, "watched", "the event loop waits on the connection (events %s) while the request handed over at %s executes" % (mine[1], st.mon["executing"]), st.mon["executing"])
            raise Stop("judged")
        if not mine: raise Stop("not watched")
        if not isinstance(mine[1], int): raise CheckError("unknown set of events watched")
        outs = []
        rs = [r for b, r in ((POLLIN, POLLIN), (POLLOUT, POLLOUT)) if mine[1] & b] + [POLLHUP]
        if mine[1] & POLLIN and mine[1] & POLLOUT: rs.append(POLLIN | POLLOUT)
        for r in rs:
            s2 = st.fork()
            E.store(s2, ("P", ("S", mine[0]), 6), r)
            s2.note(E.cur_loc(st), "poll reports event %d of %d watched" % (r, mine[1]))
            outs.append(Outcome("ret", s2, 1))
        return outs

    def on_free(self, E, st, obj, off, ins):
        if self.phase == "loop" and self.conn is not None and obj == E.norm_ptr(self.conn)[0]:
            if st.mon.get("executing"): self.bad(E, st, "destroyed", "the connection is destroyed while its request executes")
            raise Stop("connection gone")


def signature(E, st, objs):
    out = []
    for (o, off), v in st.mem.items():
        if isinstance(v, int) or (isinstance(v, tuple) and v[:1] == ("kseq",)): out.append((repr(o), repr(off), v if isinstance(v, int) else len(v[1])))
        elif isinstance(v, tuple) and v[:1] == ("str",): out.append((repr(o), repr(off), v[1][0] == SC and v[1][1] == b""))
    return frozenset(x for x in out if any(x[0] == repr(o) for o in objs)), bool(st.mon.get("executing"))


def explore(ctx, cls, turns):
    s = Session(ctx, None)
    E = s.E
    mon = s.mon = E.mon = Mon(ctx, s, cls.rsplit("::")[-1])
    E.known, E.inline_extra = True, ("std::find", "std::__find", "__gnu_cxx::__ops", "std::__iterator_category")
    E.loop_limit = 4
    E.boundary = {"iqxmlrpc::http::Packet_reader::read_request": None, "iqxmlrpc::Server::log_err_msg": [], "iqxmlrpc::http::Packet::dump": [],
                  "iqxmlrpc::http::Packet::set_keep_alive": [], "iqxmlrpc::http::Packet::Packet": [], "iqnet::Socket::get_peer_addr": [],
                  "iqxmlrpc::http::Header::conn_keep_alive": [], "iqnet::ssl::Ctx::prepare_verify": None, "iqnet::Inet_addr::Inet_addr": [],
                  "iqxmlrpc::http::Packet_reader::Packet_reader": [], "iqnet::ssl::exception::exception": [], "iqnet::network_error::network_error": [],
                  "iqxmlrpc::Method_dispatcher_manager::Method_dispatcher_manager": [], "iqnet::Socket::set_non_blocking": []}
    server, addr, ef = (s.sym(x) for x in ("server", "addr", "execfactory"))
    mon.reactor_obj, mon.other = s.sym("reactor"), s.sym("otherhandler")
    mon.fd, mon.fd2 = s.sym("fd"), s.sym("otherfd")
    st = s.blank(); st.frames = []
    for v in (server, ef, mon.reactor_obj, mon.other, addr): E.assume(st, as_bool(v), True)
    E.assume(st, cmp_("eq", mon.fd, mon.fd2), False)
    # the loop the pool uses
    ctor = [f for f in s.by_short.get("iqnet::Reactor::Reactor", []) + s.by_short.get("iqnet::Reactor<boost::mutex>::Reactor", []) if "boost::mutex" in f.dem]
    if not ctor: raise CheckError("anchor: no event loop built with boost::mutex")
    sts = call_all(s, [st], ctor[0], [mon.reactor_obj])
    q = E.norm_ptr(mon.reactor_obj)
    vt = sts[0].mem[q][1][1]
    reg, he = s.impl(vt, "iqnet::Reactor_base", "register_handler"), s.impl(vt, "iqnet::Reactor_base", "handle_events")
    mon.loop_fn = he
    sts = call_all(s, sts, reg, [mon.reactor_obj, mon.other, 1])
    short = cls.rsplit("::")[-1]
    sts = call_all(s, sts, s.fn(cls + "::" + short), [server, addr, ef])
    mon.phase = "accept"
    out = accept_one(s, mon, sts, server)
    if mon.conn is None: raise CheckError("accepting a connection registers no handler")
    mon.phase = "loop"
    vts = s.classes(EH, "iqxmlrpc::Server_connection").values()
    mon.handlers = {s.impl(v, EH, m).name for v in vts for m in ("handle_input", "handle_output", "finish")}
    robj, cobj = E.norm_ptr(mon.reactor_obj)[0], E.norm_ptr(mon.conn)[0]
    resp = s.fn("iqxmlrpc::Server_connection::schedule_response")
    r = E.prog.records
    work, seen = list(out), set()
    for turn in range(turns):
        nxt = []
        for st in work:
            E.roots.append(mon.conn) if mon.conn not in E.roots else None
            ends = s.run(he, [mon.reactor_obj, -1], st)
            for k, v, x in ends:
                if k != "ret":
                    ctx.count("loop_exceptions"); continue
                objs = [robj, cobj] + [("S", e) for (o, off), v in x.mem.items() if isinstance(off, tuple) and off[0] == "kseq" and o == robj for e in v[1]]
                sg = signature(E, x, objs)
                if sg in seen: continue
                seen.add(sg)
                nxt.append(x)
        # a worker answers at any moment
        more = []
        for x in nxt:
            if x.mon.get("executing"):
                c = mon.conn
                # the connection object as the server-connection base
                y = x.fork()
                y.mon.pop("executing")
                b = server_conn_base(s, y, c)
                pkt = s.sym("responsepacket")
                E.assume(y, as_bool(pkt), True)
                for k, v, z in s.run(resp, [b, pkt], y):
                    if k != "ret": continue
                    objs = [robj, cobj] + [("S", e) for (o, off), v in z.mem.items() if isinstance(off, tuple) and off[0] == "kseq" and o == robj for e in v[1]]
                    sg = signature(E, z, objs)
                    if sg not in seen: seen.add(sg); more.append(z)
        ctx.count("loop_turns")
        work = nxt + more
        if not work: break
    ctx.count("abstract_loop_states", len(seen))
    ctx.count("fixpoints", 0 if work else 1)
    return bool(work)


def run(ctx):
    ctx.rule("the real event loop (Reactor<boost::mutex>, its tables walked element by element) with one connection of each server class: in every reachable abstract state in which a request was handed to Server::schedule_execute and no response was scheduled, the set given to poll() does not contain the connection's descriptor and none of its handlers is called")
    s = Session(ctx, None)
    servers = [c for c, _ in server_classes(s)]
    ctx.count("server_classes", len(servers))
    ctx.need("server_classes", 2)
    for cls in servers: 
        if explore(ctx, cls, 8): raise CheckError("the loop states of %s did not reach a fixpoint" % cls)
    for n in ("requests_handed_over", "waits", "waits_while_executing", "abstract_loop_states"): ctx.need(n, 2)
    ctx.assume("poll() reports only watched events and hang-up; the response of a worker may come at any moment after the hand-over")
