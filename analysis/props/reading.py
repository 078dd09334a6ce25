"""Reading messages from a connection: what H01 and H02 share.

The handlers of each connection class are walked over a sequence of reads of symbolic
length; the bytes of each read are a distinct opaque text, so every stored text is a term
over the reads it consists of."""
from props.server_common import *
from models import SUB, cat, EMPTY
from engine import ladd

RECV = {"recv", "read", "recvfrom", "SSL_read"}
SEND = {"send", "write", "sendto", "SSL_write"}
TOOBIG = "iqxmlrpc::http::Request_too_large::Request_too_large"


def member(st, key, d=None): return st.mon.get(key, d)


class ReadMon(ServerMonitor):
    def __init__(self, ctx, s, prop, what, limit):
        super().__init__(ctx)
        self.s, self.prop, self.what, self.limit = s, prop, what, limit
        self.phase = "boot"
        self.conn = None
        self.msg = 0
        self.early = True

    def bad(self, E, st, key, msg, loc=None):
        self.ctx.violation("%s %s %s" % (self.prop, self.what, key), loc or E.cur_loc(st), msg, st.trace_list())

    # ---- the environment
    def reactor(self, E, st, what, args, ins):
        if what == "register_handler" and self.phase == "accept":
            self.conn = args[1]
            if self.conn not in E.roots: E.roots.append(self.conn)
        if what in ("register_handler", "unregister_handler") and len(args) > 2 and isinstance(args[2], int):
            w = st.mon.get("watch", 0)
            st.mon["watch"] = w | args[2] if what == "register_handler" else w & ~args[2]
        elif what == "unregister_handler": st.mon["watch"] = 0

    def on_virtual(self, E, st, name, args, ins, cands):
        if name == "iqxmlrpc::Executor_factory_base::create_reactor": return [Outcome("ret", st, self.reactor_obj)]
        return super().on_virtual(E, st, name, args, ins, cands)

    def response(self, E, st, args, ins):
        return None

    def on_call(self, E, st, name, fn, args, ins):
        if fn.cd and name == "iqnet::Reactor_interrupter::Reactor_interrupter": return [Outcome("ret", st, None)]
        if fn.decl and name in RECV: return self.recv(E, st, args, ins)
        if fn.decl and name in SEND: return [Outcome("ret", st, args[2])]
        if fn.decl and name in ("SSL_accept", "SSL_connect"): return [Outcome("ret", st, 1)]
        if fn.decl and name == "SSL_pending": return [Outcome("ret", st, 0)]
        if fn.cd and name in ("iqxmlrpc::http::Request_header::Request_header", "iqxmlrpc::http::Response_header::Response_header") \
                and "~" not in fn.dem.split("(")[0] and "Verification_level" in fn.dem:
            return self.header(E, st, fn, args, ins)
        if name == "iqxmlrpc::http::Header::content_length":
            k = self.hdr_of(E, st, args[0])
            if k is None: return None
            n = ("s", ("arg", "declared length", k))
            outs = []
            if not st.mon.get(("has length", k)):
                st.mon[("has length", k)] = 1
                E.assume(st, cmp_("lt", n, 0), False)
                if self.early:
                    for t in sorted(E.escapes(fn)):
                        s2 = st.fork(); s2.mon["gone"] = t
                        outs.append(Outcome("throw", s2, (t, ("s", ("exc", t)))))
            return outs + [Outcome("ret", st, n)]
        if name == "iqxmlrpc::http::Header::expect_continue":
            k = self.hdr_of(E, st, args[0])
            if k is not None: return [Outcome("ret", st, ("ub", ("expects", k), False))]
        if name == "iqxmlrpc::http::Header::conn_keep_alive": return [Outcome("ret", st, 1)]
        if fn.cd and name == TOOBIG and "~" not in fn.dem.split("(")[0]:
            self.refused(E, st)
            return None
        if fn.cd and name == "iqxmlrpc::http::Error_response::Error_response" and len(args) == 3:
            self.status(E, st, args[2], ins)
            return [Outcome("ret", st, None)]
        if name == "iqxmlrpc::Server::schedule_execute" and self.phase == "read":
            self.delivered(E, st, args[1])
            st.mon["executed"] = 1
            return [Outcome("ret", st, None)]
        return super().on_call(E, st, name, fn, args, ins)

    def recv(self, E, st, args, ins):
        k = st.mon.get("reads", 0)
        if st.mon.get("read in call"): raise Stop("one read per call")
        st.mon["read in call"] = 1
        st.mon["reads"] = k + 1
        n = ("s", ("arg", "received", k))
        E.assume(st, cmp_("lt", 0, n), True)
        q = E.norm_ptr(args[1])
        for c in [c for c in st.mem if c[0] == q[0]]: del st.mem[c]
        st.hv[q[0]] = ("received", k)
        st.mon["T"] = ladd(st.mon.get("T", 0), n)
        st.mon["chunks"] = st.mon.get("chunks", ()) + (k,)
        st.note(E.cur_loc(st), "read %d of the message" % len(st.mon["chunks"]))
        return [Outcome("ret", st, n)]

    def hdr_of(self, E, st, p):
        h = st.mon.get("hdr")
        q = E.norm_ptr(p)
        if h and q and q[0] == h[0]: return h[1]
        return None

    def header(self, E, st, fn, args, ins):
        q = E.norm_ptr(args[0])
        t = rd(E, st, args[2])
        k = st.mon["nhdr"] = st.mon.get("nhdr", 0) + 1
        st.mon["hdr"] = (q[0], k)
        st.mon["hdrtext"] = t
        st.mon["hdrat"] = st.mon.get("reads", 0)
        self.ctx.count("headers")
        outs = []
        if self.early:
            for ti in sorted(E.escapes(fn)):
                s2 = st.fork(); s2.mon["gone"] = ti
                outs.append(Outcome("throw", s2, (ti, ("s", ("exc", ti)))))
        return outs + [Outcome("ret", st, None)]

    # ---- hooks of the properties
    def refused(self, E, st): st.mon["too big"] = 1

    def status(self, E, st, code, ins): pass

    def delivered(self, E, st, packet): pass

    def rested(self, E, st): pass


def new_call(st):
    st.mon.pop("read in call", None)
    return st


def new_message(st):
    for k in ("T", "chunks", "hdr", "hdrtext", "hdrat", "executed", "announced", "too big"): st.mon.pop(k, None)
    return st


def world(ctx, cls, ctor, mk, limit, config="poll", pre=None):
    """a server object of class cls with a size limit (0 or a symbol) and one accepted connection"""
    s = Session(ctx, None)
    E = s.E
    mon = s.mon = E.mon = mk(s)
    E.boundary = {"iqxmlrpc::Server::log_err_msg": [], "iqxmlrpc::http::Packet::dump": [], "iqxmlrpc::http::Packet::set_keep_alive": [],
                  "iqnet::Socket::get_peer_addr": [], "iqnet::ssl::Ctx::prepare_verify": [], "iqnet::Inet_addr::Inet_addr": [],
                  "iqnet::ssl::exception::exception": [], "iqnet::network_error::network_error": [],
                  "iqxmlrpc::Method_dispatcher_manager::Method_dispatcher_manager": [], "iqnet::Socket::set_non_blocking": [],
                  "iqxmlrpc::http::Header::set_content_length": [], "iqxmlrpc::http::Header::set_option": [], "iqxmlrpc::http::Error_response::Error_response": []}
    server, addr, ef = (s.sym(x) for x in ("server", "addr", "execfactory"))
    mon.reactor_obj = s.sym("reactor")
    st = s.blank(); st.frames = []
    for v in (server, ef, mon.reactor_obj, addr): E.assume(st, as_bool(v), True)
    sts = call_all(s, [st], ctor, [server, addr, ef])
    if pre: sts = pre(s, sts)
    if limit is not None:
        if not isinstance(limit, int):
            s.E.roots.append(limit) if limit not in s.E.roots else None
            for x in sts: E.assume(x, cmp_("lt", 0, limit), True)
        sts = call_all(s, sts, s.fn("iqxmlrpc::Server::set_max_request_sz"), [server, limit])
    mon.phase = "accept"
    sts = accept_one(s, mon, sts, server)
    if mon.conn is None: raise CheckError("accepting a connection registers no handler")
    mon.phase = "read"
    if mon.conn not in E.roots: E.roots.append(mon.conn)
    mon.server = server
    return s, mon, sts


def input_(s, mon, sts):
    """one call of handle_input in each state; -> end states that go on"""
    out = []
    term = s.sym("terminate")
    for st in sts:
        st = new_call(st.fork())
        st.mem[(("S", term), 0)] = 0
        for k, v, x in s.run(handler_impl(s, st, mon.conn, "handle_input"), [mon.conn, term], st):
            if k != "ret" or x.mon.get("gone"): continue
            out.append(x)
    return out


def answer(s, mon, sts):
    """the response to the executed request is scheduled and sent"""
    E = s.E
    out = []
    pkt, term = s.sym("responsepacket"), s.sym("terminate")
    for st in sts:
        y = st.fork()
        E.assume(y, as_bool(pkt), True)
        y.mem[(("S", term), 0)] = 0
        for k, v, z in s.run(s.fn("iqxmlrpc::Server_connection::schedule_response"), [server_conn_base(s, y, mon.conn), pkt], y):
            if k != "ret": continue
            for k2, v2, w in s.run(handler_impl(s, z, mon.conn, "handle_output"), [mon.conn, term], z):
                if k2 == "ret": out.append(w)
    return out
