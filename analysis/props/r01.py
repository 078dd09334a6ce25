"""R01: every socket the library opens is closed exactly once."""
from props.k01 import CallMon, calls_world
from props.client_common import *
from props.server_common import server_classes, accept_one, handler_impl
from props import s04

NETERR = "_ZTIN5iqnet13network_errorE"
USES = {"fcntl", "bind", "listen", "connect", "send", "recv", "shutdown", "setsockopt", "getsockopt", "getsockname", "getpeername", "accept", "accept4", "read", "write"}


class FdMon(SessMon):
    """descriptors: open until closed; every operation that can fail fails on some path"""
    max_pieces = 0
    failing = True

    def environment(self, E, st, name, fn, args, ins):
        if fn.decl:
            if name == "close": return self.close(E, st, args[0])
            if name in USES: self.use(E, st, name, args[0])
            if name == "SSL_set_fd": self.use(E, st, name, args[1])
            if name in ("recv", "SSL_read") and st.mon.get("leaving"):
                self.use(E, st, name, self.fd(st, args[0]))
                st.mon["ssl error"] = 6
                return [Outcome("ret", st, 0)]
            if name in ("SSL_read", "SSL_write", "SSL_connect", "SSL_accept", "SSL_shutdown"): self.use(E, st, name, self.fd(st, args[0]))
            if name in ("socket", "accept", "accept4", "dup"): return self.opens(E, st, name)
            if name in ("bind", "listen", "getsockname"): return [Outcome("ret", st, 0)] + self.fault(E, st, name, -1)
            if name == "connect": return [Outcome("ret", st, 0)] + self.fault(E, st, name, -1)
            if name == "fcntl": return super().environment(E, st, name, fn, args, ins) + self.fault(E, st, name, -1)
            if name in ("shutdown", "setsockopt"): return [Outcome("ret", st, 0)] + self.fault(E, st, name, -1)
            if name == "SSL_new":
                k = st.mon["ssls"] = st.mon.get("ssls", 0) + 1
                v = ("s", ("arg", "ssl", k))
                x = self.fault(E, st, name, 0)
                E.assume(st, as_bool(v), True)
                return x + [Outcome("ret", st, v)]
            if name == "SSL_set_fd": return super().environment(E, st, name, fn, args, ins) + self.fault(E, st, name, 0)
        return super().environment(E, st, name, fn, args, ins)

    def fault(self, E, st, name, v):
        """the operation fails; at most one such failure is walked on a path, the ones after it succeed"""
        if st.mon.get("one failed"): return []
        x = st.fork()
        x.mon["one failed"] = name
        x.note(E.cur_loc(x), "%s fails" % name)
        return [Outcome("ret", x, v)]

    def fails(self, E, st):
        if st.mon.get("one failed") or st.mon.get("leaving"): return []
        out = super().fails(E, st)
        for o in out: o.st.mon["one failed"] = "transport"
        return out

    def fds(self, st): return dict(st.mon.get("fds", ()))

    def opens(self, E, st, name):
        self.ctx.count("opened")
        d = self.fds(st)
        fd = ("s", ("arg", "fd %d of %s" % (len(d) + 1, name)))
        if fd not in E.roots: E.roots.append(fd)
        outs = self.fault(E, st, name, -1)
        E.assume(st, cmp_("lt", fd, 0), False)
        d[fd] = "open"
        st.mon["fds"] = tuple(sorted(d.items(), key=repr))
        return outs + [Outcome("ret", st, fd)]

    def label(self, fd): return fd[1][1] if isinstance(fd, tuple) else str(fd)

    def close(self, E, st, fd):
        self.ctx.count("closes")
        d = self.fds(st)
        if isinstance(fd, int) and fd < 0: return [Outcome("ret", st, -1)]
        if d.get(fd) == "closed":
            self.bad(E, st, "closed twice", "a descriptor is closed a second time (%s)" % self.label(fd)); raise Stop("reported")
        if fd not in d: raise CheckError("a descriptor is closed that is not known: %r" % (fd,))
        d[fd] = "closed"
        st.note(E.cur_loc(st), "%s closed" % self.label(fd))
        st.mon["fds"] = tuple(sorted(d.items(), key=repr))
        return [Outcome("ret", st, 0)]

    def use(self, E, st, name, fd):
        if self.fds(st).get(fd) == "closed":
            self.bad(E, st, "used after close", "%s uses a descriptor that was closed (%s)" % (name, self.label(fd))); raise Stop("reported")

    def wait(self, E, st, args, ins):
        outs = super().wait(E, st, args, ins)
        if not st.mon.get("one failed"):
            x = st.fork(); x.mon["one failed"] = "wait"
            x.note(E.cur_loc(x), "waiting fails")
            outs.append(Outcome("throw", x, (NETERR, ("s", ("exc", "wait")))))
        return outs

    def end(self, st, where, what):
        """nothing is left that could close a descriptor"""
        self.ctx.count("lives_ended")
        for fd, x in self.fds(st).items():
            if x == "open": self.bad(self.s.E, st, "leak " + self.label(fd), "%s: a descriptor is never closed (%s)" % (what, self.label(fd)), where)

    def held(self, st, where, what):
        for fd, x in self.fds(st).items():
            if x == "closed": self.bad(self.s.E, st, "closed early", "%s: its descriptor is closed already (%s)" % (what, self.label(fd)), where)

    def on_virtual(self, E, st, name, args, ins, cands):
        if name.startswith("iqnet::Firewall_base::"):
            if "~" in name: return [Outcome("ret", st, None)]
            outs = []
            for t in (STDX, FOREIGN):
                x = st.fork(); x.note(E.cur_loc(x), "%s throws" % name)
                outs.append(Outcome("throw", x, (t, ("s", ("exc", t)))))
            if name.endswith("grant"):
                return outs + [Outcome("ret", st.fork(), 0), Outcome("ret", st, 1)]
            models.wr(E, st, args[0], (SO, ("firewall message",)))
            return outs + [Outcome("ret", st, None)]
        if name == "iqxmlrpc::Executor_factory_base::create_reactor": return [Outcome("ret", st, self.loop_obj)]
        return super().on_virtual(E, st, name, args, ins, cands)

    def on_call(self, E, st, name, fn, args, ins):
        if name == "iqnet::Inet_addr::get_sockaddr":
            outs = [Outcome("ret", st, ("s", ("arg", "address")))]
            if not st.mon.get("one failed"):
                x = st.fork(); x.mon["one failed"] = "name resolution"
                x.note(E.cur_loc(x), "the host name is not resolved")
                outs.append(Outcome("throw", x, (NETERR, ("s", ("exc", "resolve")))))
            return outs
        return super().on_call(E, st, name, fn, args, ins)


QUIET = {"iqnet::network_error::network_error": [], "iqnet::ssl::exception::exception": [], "iqnet::ssl::Ctx::prepare_verify": [], "iqxmlrpc::http::Header::Header": [],
         "iqxmlrpc::http::Header::dump": [], "iqxmlrpc::http::Error_response::Error_response": [], "iqnet::Inet_addr::get_host_name": [], "iqnet::Inet_addr::get_port": [],
         "iqnet::Inet_addr::Inet_addr": [], "iqnet::Socket::get_peer_addr": [], "iqnet::Socket::get_addr": None, "iqxmlrpc::Method_dispatcher_manager::Method_dispatcher_manager": [],
         "iqxmlrpc::Server::log_err_msg": []}


def scene(ctx, what):
    s = Session(ctx, None)
    s.mon = s.E.mon = mon = FdMon(ctx, s, "R01", what)
    s.E.boundary = {k: v for k, v in QUIET.items() if k != "iqnet::Socket::get_addr"}
    s.E.loop_limit = 8
    mon.loop_obj = s.sym("loop")
    st = s.blank(); st.frames = []
    s.E.assume(st, as_bool(mon.loop_obj), True)
    return s, mon, st


def again(st):
    for k in ("one failed", "waits", "eof", "timed out", "failed", "ssl error", "pieces", "sent"): st.mon.pop(k, None)
    return st


def destroy(s, st, obj, cls, base):
    """delete of an object of class cls through its class base"""
    E = s.E
    vt = s.classes(base)[cls]
    d = deleting(s, vt, base)
    return s.run(d, [part(s, st, obj, base)], st)


def deleting(s, vt, base):
    """the deleting destructor reached through base"""
    E = s.E
    for v, off in E.vt.by_type.get(s.zts(base), ()):
        if v != vt: continue
        for slot, x in sorted(E.vt.slots[v].items()):
            if slot >= off and x[0] == "f":
                f = E.prog.funcs.get(x[1])
                if f is not None and f.cd and ("D0E" in f.name): return f
                if f is not None and "D0Ev" in f.name: return f
    raise CheckError("anchor: %s has no deleting destructor" % base)


def clients(ctx):
    s0 = Session(ctx, None)
    for cls, ctor in client_classes(s0):
        what = cls.rsplit("::")[-1]
        ctx.count("owners")
        s, mon, st = scene(ctx, what)
        E = s.E
        mon.max_events = 4
        ctr, opts, req, T = (s.sym(x) for x in ("connector", "options", "request", "timeout"))
        for v in (ctr, opts, req): E.assume(st, as_bool(v), True)
        E.assume(st, cmp_("lt", 0, T), True)
        conns = [c for c in s.classes("iqnet::Connector_base") if c.endswith("<%s>" % cls)]
        if len(conns) != 1: raise CheckError("anchor: %d connectors for %s" % (len(conns), cls))
        s.set_class(st, ctr, conns[0])
        go = []
        f = s.fn("iqnet::Connector_base::connect")
        where = "%s:%s" % (f.file, f.line)
        for x in call_all(s, [st], s.fn("iqxmlrpc::Client_options::set_timeout"), [opts, T]):
            for k, v, y in s.run(f, [ctr, T], x):
                ctx.count("connects_" + k)
                if k == "throw": mon.end(y, where, "connecting failed"); continue
                mon.held(y, where, "a connection was made")
                go.append((v, again(y)))
                if v not in E.roots: E.roots.append(v)
        if not go: raise CheckError("no connection of class %s is made" % cls)
        vt = s.classes("iqxmlrpc::Client_connection")[cls]
        sess = s.impl(vt, "iqxmlrpc::Client_connection", "do_process_session")
        mon.max_events = 6 if "proxy" in cls and "Https" in cls else 4
        for n in range(3):
            nxt = {}
            for v, x in go:
                # the client drops the connection now
                for k, _, y in destroy(s, x.fork(), v, cls, "iqxmlrpc::Client_connection"):
                    mon.end(y, what + ": destruction", "a connection was dropped after %d calls" % n)
                if n == 2: continue
                for y in call_all(s, [x.fork()], s.fn("iqxmlrpc::Client_connection::set_options"), [v, opts]):
                    y.mon["session"] = n
                    for k, r, z in s.run(sess, [v, req], y):
                        ctx.count("sessions_" + k)
                        if k == "throw":
                            for _, _, w in destroy(s, z.fork(), v, cls, "iqxmlrpc::Client_connection"):
                                mon.end(w, what + ": destruction", "a connection was dropped after a failed call")
                        else: nxt.setdefault((repr(v), z.mon.get("watch"), z.mon.get("fds"), z.mon.get("one failed")), (v, again(z)))
            go = list(nxt.values())[:4]


def accepting(ctx):
    """the listener, what it accepts, and the connections made of it"""
    s0 = Session(ctx, None)
    for cls, ctor in server_classes(s0):
        what = cls.rsplit("::")[-1]
        ctx.count("owners")
        s, mon, st = scene(ctx, what)
        E = s.E
        server, addr, ef, acc, fw, term = (s.sym(x) for x in ("server", "addr", "execfactory", "acceptor", "firewall", "terminate"))
        for v in (server, addr, ef, acc, fw): E.assume(st, as_bool(v), True)
        E.boundary["iqnet::Reactor_interrupter::Reactor_interrupter"] = []
        for x in call_all(s, [st], ctor, [server, addr, ef]):
            _, fs = s.eval(x, s.fn("iqxmlrpc::Server::get_conn_factory"), [server])
            if len(fs) != 1: raise CheckError("the connection factory is unknown")
            fac = fs.pop()
            f = s.fn("iqnet::Acceptor::Acceptor")
            where = "%s:%s" % (f.file, f.line)
            for k, v, y in s.run(f, [acc, addr, fac, mon.loop_obj], x):
                ctx.count("listeners_" + k)
                if k == "throw": mon.end(y, where, "making a listener failed"); continue
                mon.held(y, where, "a listener was made")
                for wall in (0, fw):
                    for z in call_all(s, [again(y.fork())], s.fn("iqnet::Acceptor::set_firewall"), [acc, wall]):
                        incoming(ctx, s, mon, z, acc, term, what)


def incoming(ctx, s, mon, st, acc, term, what):
    E = s.E
    st.mem[(("S", term), 0)] = 0
    before = {h for h, m in mon.watched(st)}
    f = s.fn("iqnet::Acceptor::handle_input")
    for k, v, x in s.run(f, [acc, term], st):
        ctx.count("incoming_" + k)
        for h, m in [w for w in mon.watched(x) if w[0] not in before]:
            ctx.count("accepted")
            hp = E.mkptr(*h)
            leaves(ctx, s, mon, x, hp, term, what)
            # as the event loop does when the connection is over
            outs = []
            mon.watch(E, x, mon.loop_obj, hp, 3, False)
            if hp not in E.roots: E.roots.append(hp)
            for k2, v2, y in s.run(handler_impl(s, x, hp, "finish"), [hp], x):
                if k2 == "ret": done(ctx, s, mon, y, acc, what)
            break
        else: done(ctx, s, mon, x, acc, what)


def leaves(ctx, s, mon, st, hp, term, what):
    """the peer closes its side: the connection has to come to its end"""
    E = s.E
    cur, seen = [again(st.fork())], set()
    h = E.norm_ptr(hp)
    if hp not in E.roots: E.roots.append(hp)
    for turn in range(6):
        nxt = []
        for x in cur:
            x.mon["leaving"] = 1
            mask = dict(mon.watched(x)).get(h, 0)
            if not mask:
                mon.bad(E, x, "stuck", "after the peer closed its side the connection is watched for nothing and never ends", what + ": a connection"); continue
            for bit, meth in ((1, "handle_input"), (2, "handle_output")):
                if not mask & bit: continue
                y = x.fork()
                y.mem[(("S", term), 0)] = 0
                for k, v, z in s.run(handler_impl(s, y, hp, meth), [hp, term], y):
                    if k == "throw" or k == "ret" and z.mem.get((("S", term), 0)) == 1: ctx.count("peers_left"); continue
                    key = (z.mon.get("watch"), turn, tuple(sorted((repr(o), v) for o, v in z.mem.items() if o[0] == h[0] and isinstance(v, int))) if turn < 5 else 0)
                    if k == "ret" and key not in seen: seen.add(key); nxt.append(z)
        cur = nxt[:12]
    if cur: mon.bad(E, cur[0], "kept", "the connection of a peer that closed its side stays open", what + ": a connection")


def looped(ctx):
    """the event loop drops a connection that asks for it or fails"""
    s = Session(ctx, None)
    s.E.loop_limit = 1
    for cls, vt in sorted(s.classes(s04.EH, "iqxmlrpc::Server_connection").items()):
        s.mon = s.E.mon = Loop(ctx, s, cls, vt)
        st = s.blank(); st.frames = []
        s.run(s.fn("iqxmlrpc::Server::work"), [s.sym("server")], st)


class Loop(s04.LoopMon):
    def bad(self, E, st, key, msg, loc=None):
        if key in ("kept", "finished twice"): self.ctx.violation("R01 loop " + key, loc or E.cur_loc(st), msg, st.trace_list())


def done(ctx, s, mon, x, acc, what):
    d = s.fn("iqnet::Acceptor::~Acceptor", pred=lambda f: "D2E" in f.name or "D1E" in f.name)
    for k, v, y in s.run(d, [acc], x):
        mon.end(y, "%s: the listener and a peer" % what, "a peer came and went")


def interrupter(ctx):
    s, mon, st = scene(ctx, "interrupter")
    ctx.count("owners")
    E = s.E
    it = s.sym("interrupter")
    E.assume(st, as_bool(it), True)
    c = s.fn("iqnet::Reactor_interrupter::Reactor_interrupter")
    d = s.fn("iqnet::Reactor_interrupter::~Reactor_interrupter", pred=lambda f: "D2E" in f.name or "D1E" in f.name)
    where = "%s:%s" % (c.file, c.line)
    for k, v, x in s.run(c, [it, mon.loop_obj], st):
        ctx.count("interrupters_" + k)
        if k == "throw": mon.end(x, where, "making the interrupter failed"); continue
        for k2, _, w in s.run(s.fn("iqnet::Reactor_interrupter::make_interrupt"), [it], again(x.fork())):
            for k3, _, y in s.run(d, [it], w): mon.end(y, "%s:%s" % (d.file, d.line), "the interrupter was destroyed")


class Owner(CallMon):
    """a client owns the connections that were made for it"""
    def bad(self, E, st, key, msg, loc=None):
        if key in ("twice", "destroyed"): self.ctx.violation("R01 client " + key, loc or E.cur_loc(st), msg, st.trace_list())


def owning(ctx):
    def last(s, mon, st, cl):
        d = s.fn("iqxmlrpc::Client_base::~Client_base", pred=lambda f: "D2E" in f.name)
        for k, v, x in s.run(d, [cl], st):
            ctx.count("clients_destroyed")
            for n in range(1, x.mon.get("conns", 0) + 1):
                o = ("S", ("s", ("arg", "connection", n)))
                if as_bool(o[1]) and o not in x.mon.get("gone", ()) and s.E.decide(x, as_bool(o[1])) is True:
                    ctx.violation("R01 client keeps", "%s:%s" % (d.file, d.line), "a client was destroyed, but a connection made for it was not: its descriptor is never closed", x.trace_list())
    calls_world(ctx, Owner, rounds=3, last=last)
    ctx.need("clients_destroyed", 6)


def run(ctx):
    ctx.rule("three calls in a row on a client object, each of whose steps may fail: when the client is destroyed every connection made for it was destroyed exactly once")
    ctx.rule("each descriptor from socket, accept or dup is followed through connecting, listening, accepting, the event loop's interrupter and two sessions of every client class, with every operation failing on some path")
    ctx.rule("on every path that ends with an error, and after the object that was returned or registered is destroyed, each descriptor was closed exactly once; no operation uses it after that, and it is open as long as its object lives")
    ctx.rule("a server connection whose peer closed its side comes to its end, and the event loop finishes exactly once a connection that ended or failed")
    interrupter(ctx)
    accepting(ctx)
    clients(ctx)
    looped(ctx)
    owning(ctx)
    for n, k in (("failures_survived", 2), ("peers_left", 2), ("owners", 7), ("opened", 8), ("closes", 20), ("connects_ret", 4), ("connects_throw", 8), ("accepted", 2), ("incoming_ret", 4), ("lives_ended", 30), ("sessions_ret", 4), ("sessions_throw", 4)): ctx.need(n, k)
    ctx.assume("memory allocation does not fail; one operation fails on a path")
    ctx.assume("connections still open when their server object is destroyed are not destroyed by it and are outside this property")
