"""S02: the firewall decides before a peer gets any service."""
from props.server_common import *

GRANT, MESSAGE = "iqnet::Firewall_base::grant", "iqnet::Firewall_base::message"
CREATE = "iqnet::Accepted_conn_factory::create_accepted"
READS = {"recv", "read", "recvfrom", "recvmsg", "SSL_read", "SSL_accept"}
WRITES = {"send", "write", "sendto", "sendmsg", "SSL_write"}


class Mon(ServerMonitor):
    def __init__(self, ctx, s):
        super().__init__(ctx)
        self.s = s
        self.phase = "setup"
        self.loops = []

    def bad(self, E, st, key, msg, loc=None):
        self.ctx.violation("S02 " + key, loc or E.cur_loc(st), msg, st.trace_list())

    def on_virtual(self, E, st, name, args, ins, cands):
        if name == GRANT: return self.grant(E, st, args, ins)
        if name == MESSAGE:
            models.wr(E, st, args[0], (SO, ("firewall message",)))
            return [Outcome("ret", st, None)]
        if name == CREATE: return self.create(E, st, args, ins)
        return super().on_virtual(E, st, name, args, ins, cands)

    def reactor(self, E, st, what, args, ins):
        if what == "handle_events" and self.phase == "work":
            self.loops.append(st.fork())
            raise Stop("loop entered")

    def on_call(self, E, st, name, fn, args, ins):
        if fn.cd and name == "iqnet::Acceptor::Acceptor": st.mon["acceptor"] = args[0]
        if self.phase != "accept" or not fn.decl: return super().on_call(E, st, name, fn, args, ins)
        if name in ("accept", "accept4"):
            self.ctx.count("accept_sites_reached")
            fd = ("s", ("fd",))
            self.sock_addr(E, st, args)
            s2 = st.fork()
            s2.note(E.cur_loc(s2), "%s() fails" % name)
            st.mon["fd"] = fd
            E.assume(st, cmp_("lt", fd, 0), False)
            return [Outcome("ret", s2, -1), Outcome("ret", st, fd)]
        if name in READS | WRITES | {"close", "shutdown"}:
            fd = st.mon.get("fd")
            if fd is None or not args or args[0] != fd: return None
            g = st.mon.get("granted")
            if name in READS and g is not True:
                self.bad(E, st, "read", "%s() reads from a peer the firewall has %s" % (name, "refused" if g is False else "not been asked about"))
            if name in WRITES:
                self.ctx.count("refusal_writes")
                if g is None: self.bad(E, st, "write", "%s() sends to a peer before the firewall was asked" % name)
                elif g is False and not ("firewall message" in repr(args[1])):
                    self.bad(E, st, "other text", "a refused peer is sent something else than the firewall's message")
            if name == "close":
                st.mon["closed"] = st.mon.get("closed", 0) + 1
                if st.mon["closed"] > 1: self.bad(E, st, "closed twice", "the socket of a peer is closed twice")
        return None

    def sock_addr(self, E, st, args):
        q = E.norm_ptr(args[1])
        if q: st.hv[q[0]] = ("peer address",)
        if q:
            for k in [k for k in st.mem if k[0] == q[0]]: del st.mem[k]

    def on_indirect(self, *a): return None

    def grant(self, E, st, args, ins):
        ctx = self.ctx
        ctx.count("grant_calls")
        loc = E.cur_loc(st)
        if args[0] != self.fw: self.bad(E, st, "other firewall", "the object asked is not the installed firewall")
        if st.mon.get("fd") is None: self.bad(E, st, "before accept", "the firewall is asked before a connection was accepted")
        ends, ptrs = self.s.eval(st, self.sockaddr, [args[1]])
        for p in ptrs:
            vals = {o: E.load(st, E.padd(p, o), 4) for o in (4,)}
            if not all("peer address" in repr(v) for v in vals.values()):
                self.bad(E, st, "address", "the address submitted to the firewall is not that of the accepted peer")
        if not ptrs: raise CheckError("Inet_addr::get_sockaddr gives no value")
        outs = []
        for t in (STDX, FOREIGN):
            s2 = st.fork(); s2.mon["granted"] = False
            s2.note(loc, "grant throws")
            outs.append(Outcome("throw", s2, (t, ("s", ("userexc", t)))))
        s2 = st.fork(); s2.mon["granted"] = False
        s2.note(loc, "grant returns false")
        st.mon["granted"] = True
        st.note(loc, "grant returns true")
        return outs + [Outcome("ret", s2, 0), Outcome("ret", st, 1)]

    def create(self, E, st, args, ins):
        ctx = self.ctx
        ctx.count("connections_created")
        g = st.mon.get("granted")
        if g is not True:
            self.bad(E, st, "unguarded", "a connection object is created for a peer the firewall has %s" % ("refused" if g is False else "not been asked about"))
        _, fds = self.s.eval(st, self.handler, [args[1]])
        if fds != {st.mon.get("fd")}:
            self.bad(E, st, "other socket", "the connection object is created for another socket than the one granted")
        if st.mon.get("created"): self.bad(E, st, "created twice", "two connection objects are created for one accepted socket")
        st.mon["created"] = 1
        s2 = st.fork()
        s2.mon["createfail"] = 1
        return [Outcome("ret", st, None), Outcome("throw", s2, ("_ZTIN5iqnet13network_errorE", ("s", ("exc", "create"))))]

    def on_end(self, E, st, kind, v):
        super().on_end(E, st, kind, v)
        if self.phase != "accept" or kind == "unreachable": return
        self.ctx.count("accept_paths")
        if st.mon.get("fd") is None: return
        g = st.mon.get("granted")
        if g is False or (g is None and not st.mon.get("created")):
            self.ctx.count("refused_paths")
            if st.mon.get("closed", 0) == 0:
                self.bad(E, st, "not closed", "the socket of a refused peer is never closed", "Acceptor::handle_input")
        elif g is True and not st.mon.get("created") and kind == "ret":
            self.bad(E, st, "granted dropped", "a granted peer gets no connection object", "Acceptor::handle_input")


def run(ctx):
    ctx.rule("state built by Server::Server, Server::set_firewall, Server::work up to its first wait, then Acceptor::handle_input: every path that creates a connection object (Accepted_conn_factory::create_accepted) has a grant() call of the installed firewall, with the address accept() filled in, that returned true")
    ctx.rule("on every path where grant() returned false or threw, the accepted descriptor is closed exactly once, nothing is read from it and only message() is sent")
    s = Session(ctx, None)
    mon = s.mon = s.E.mon = Mon(ctx, s)
    s.E.boundary = {"iqxmlrpc::Server::log_err_msg": []}
    mon.sockaddr = s.fn("iqnet::Inet_addr::get_sockaddr")
    mon.handler = s.fn("iqnet::Socket::get_handler")
    fw = mon.fw = s.sym("firewall")
    nxt = call_all(s, boot(s, mon), s.fn("iqxmlrpc::Server::set_firewall"), [mon.server, fw])
    for st in nxt: s.E.assume(st, as_bool(fw), True)
    mon.phase = "work"
    for st in nxt: s.run(s.fn("iqxmlrpc::Server::work"), [mon.server], st)
    mon.phase = "accept"
    ctx.count("loop_entries", len(mon.loops))
    hi = s.fn("iqnet::Acceptor::handle_input")
    for st in list(mon.loops):
        a = st.mon.get("acceptor")
        if a is None: raise CheckError("no Acceptor exists when the loop is entered")
        flag = s.sym("terminate")
        s.run(hi, [a, flag], st)
    for n in ("loop_entries", "accept_sites_reached", "grant_calls", "connections_created", "refused_paths"): ctx.need(n)
    ctx.assume("the firewall is installed before Server::work is entered; accepted connection classes are judged by H and S properties")
