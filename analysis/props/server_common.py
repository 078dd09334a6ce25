"""What the server-side checks share: request hand-over and the answer it produces."""
import re
from checklib import *
from models import rd, SC, SO, CAT, slen

REACTOR_EVENTS = {
    "iqnet::Reactor_base::register_handler", "iqnet::Reactor_base::unregister_handler",
    "iqnet::Reactor_base::handle_events", "iqnet::Reactor_base::fake_event",
}


class ServerMonitor(Recorder):
    """Turns the walk from the hand-over of a request into events of interest.

    Boundaries: the event loop (its virtual interface), user code, logging, XML text of
    requests and responses (judged by the X properties)."""

    QUIET = {"iqxmlrpc::Server::log_err_msg"}

    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx

    reactor_obj = None

    def on_virtual(self, E, st, name, args, ins, cands):
        if name == "iqxmlrpc::Executor_factory_base::create_reactor" and self.reactor_obj:
            return [Outcome("ret", st, self.reactor_obj)]
        if name in REACTOR_EVENTS or name.startswith("iqnet::Reactor_base::"):
            self.reactor(E, st, name.rsplit("::", 1)[-1], args, ins)
            return E.opaque_pure(st, ins, name)
        if name.rsplit("::", 1)[-1] == "what":
            return [Outcome("ret", st, ("s", ("cstr", models.what_of(E, st, args[0]))))]
        if name == "iqxmlrpc::Exception::code":
            return [Outcome("ret", st, ("s", ("code", args[0])))]
        if name == "iqxmlrpc::Server_connection::do_schedule_response":
            return self.response(E, st, args, ins)
        return None

    def on_call(self, E, st, name, fn, args, ins):
        if fn.cd and name == "iqnet::Reactor_interrupter::Reactor_interrupter" and self.reactor_obj: return [Outcome("ret", st, None)]
        # text of a packet: the status is what its header object says, the rest is judged by the H properties
        if name == "iqxmlrpc::http::Packet::dump" and ins.get("sret") and getattr(self, "s", None):
            pk = self.s.by_short.get("iqxmlrpc::http::Packet::header", [])
            rc = self.s.by_short.get("iqxmlrpc::http::Response_header::code", [])
            if len(pk) == 1 and len(rc) == 1:
                _, hs = self.s.eval(st, pk[0], [args[1]])
                codes = set()
                for h in hs: codes |= self.s.eval(st, rc[0], [h])[1]
                code = codes.pop() if len(codes) == 1 else None
                models.wr(E, st, args[0], (SO, ("packet text", code)))
                return [Outcome("ret", st, None)]
        return None

    def reactor(self, E, st, what, args, ins):
        pass

    def response(self, E, st, args, ins):
        return [Outcome("ret", st, None)]


def http_status(E, st, conn):
    """status code of the response text stored in the connection object, if it is constant"""
    obj = E.norm_ptr(conn)[0]
    out = set()
    for (o, off), v in st.mem.items():
        if o == obj and isinstance(v, tuple) and v[:1] == ("str",):
            t = v[1]
            parts = t[1] if t[0] == CAT else (t,)
            if parts[0][0] == SO and isinstance(parts[0][1], tuple) and parts[0][1][:1] == ("packet text",):
                c = parts[0][1][1]
                out.add(c if isinstance(c, int) else None)
                continue
            if parts[0][0] == SC and parts[0][1].startswith(b"HTTP/1."):
                m = re.match(rb"HTTP/1\.[01] (\d+)", parts[0][1])
                out.add(int(m.group(1)) if m else None)
    return out


def worker_entry(s):
    """the function a pool thread runs: operator() of what is given to thread_group::create_thread"""
    import re as _re
    for f in s.prog.funcs.values():
        if s.E.short(f) == "boost::thread_group::create_thread":
            m = _re.search(r"create_thread<(.*)>\(", f.dem)
            if m:
                n = m.group(1).replace("(anonymous namespace)::", "")
                c = s.by_short.get(n + "::operator()", [])
                if len(c) == 1: return c[0]
    raise CheckError("anchor: no pool thread entry (boost::thread_group::create_thread) found")


def boot(s, mon):
    """states of a server just constructed; mon.server is the server object"""
    server, addr, cf, ef = (s.sym(x) for x in ("server", "addr", "connfactory", "execfactory"))
    mon.server, mon.reactor_obj = server, s.sym("reactor")
    st0 = s.blank(); st0.frames = []
    for v in (server, cf, ef, mon.reactor_obj): s.E.assume(st0, as_bool(v), True)
    sts = [st for k, v, st in s.run(s.fn("iqxmlrpc::Server::Server"), [server, addr, cf, ef], st0) if k == "ret"]
    if not sts: raise CheckError("Server::Server has no normal end")
    return sts


def call_all(s, sts, fn, args):
    out = []
    for st in sts: out += [x for k, v, x in s.run(fn, args, st) if k == "ret"]
    if not out: raise CheckError("%s has no normal end" % fn.dem)
    return out


def server_classes(s):
    """the server classes of the library and their (address, executor factory) constructors"""
    out = sorted(c for c in s.classes("iqxmlrpc::Server") if c != "iqxmlrpc::Server")
    return [(c, s.fn(c + "::" + c.rsplit("::")[-1])) for c in out]


def accept_one(s, mon, sts, server):
    """states in which the server's own factory accepted a connection (mon.accepted(conn) told by the event loop)"""
    E = s.E
    sock = s.sym("socket")
    out = []
    for st in sts:
        E.assume(st, as_bool(sock), True)
        _, fs = s.eval(st, s.fn("iqxmlrpc::Server::get_conn_factory"), [server])
        if len(fs) != 1: raise CheckError("the connection factory is unknown")
        f = fs.pop()
        vp = st.mem.get(E.norm_ptr(f))
        if not (is_ptr(vp) and vp[1][0] == "G"): raise CheckError("the class of the connection factory is unknown")
        out += call_all(s, [st], s.impl(vp[1][1], "iqnet::Accepted_conn_factory", "create_accepted"), [f, sock])
    return out


def server_conn_base(s, st, conn):
    """pointer to the Server_connection part of a connection object"""
    E = s.E
    obj, off = E.norm_ptr(conn)
    for (o, f), v in st.mem.items():
        if o == obj and isinstance(f, int) and is_ptr(v) and v[1][0] == "G" and v[1][1].startswith("_ZTV"):
            if any(vt == v[1][1] and ap == v[2] for vt, ap in E.vt.by_type.get(s.zts("iqxmlrpc::Server_connection"), ())):
                return E.mkptr(obj, f)
    raise CheckError("the connection object has no Server_connection part")


def handler_impl(s, st, conn, meth):
    """the function the event loop reaches for conn->meth"""
    E = s.E
    vp = st.mem.get(E.norm_ptr(conn))
    if not (is_ptr(vp) and vp[1][0] == "G"): raise CheckError("the class of the connection is unknown")
    return s.impl(vp[1][1], "iqnet::Event_handler", meth)
