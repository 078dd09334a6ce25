"""Client connections and the event loop of a client.

The loop is not walked: it is replaced by what it does for its one handler, i.e. it either
reports that the time ran out or calls the handler for one event that is being watched."""
from checklib import *
from engine import cmp_, bneg, as_bool, is_sym, is_ptr, Outcome, ladd
from models import rd, wr, slen, SO, SC, SUB, CAT
from props.server_common import call_all, handler_impl

TIMEOUT = "_ZTIN8iqxmlrpc14Client_timeoutE"


def short_reactor(name):
    for p in ("iqnet::Reactor::", "iqnet::Reactor_base::"):
        if name.startswith(p): return name[len(p):]
    return None


class ClientMon(Recorder):
    def __init__(self, ctx, s, prop, what):
        super().__init__()
        self.ctx, self.s, self.prop, self.what = ctx, s, prop, what
        self.max_events = 3

    def bad(self, E, st, key, msg, loc=None):
        self.ctx.violation("%s %s %s" % (self.prop, self.what, key), loc or E.cur_loc(st), msg, st.trace_list())

    # ---- the loop
    def watched(self, st, loop=None):
        """(handler, events) pairs, of one loop or of all"""
        return tuple((k[1], v) for k, v in st.mon.get("watch", ()) if loop is None or k[0] == loop)

    def watch(self, E, st, loop, h, mask, on):
        w = dict(st.mon.get("watch", ()))
        k = (E.norm_ptr(loop), E.norm_ptr(h))
        v = w.get(k, 0)
        v = (v | mask) if on else (v & ~mask)
        if v: w[k] = v
        else: w.pop(k, None)
        st.mon["watch"] = tuple(sorted(w.items(), key=repr))

    def on_call(self, E, st, name, fn, args, ins):
        m = short_reactor(name)
        if m is not None: return self.loop(E, st, m, fn, args, ins)
        return self.environment(E, st, name, fn, args, ins)

    def on_virtual(self, E, st, name, args, ins, cands):
        m = short_reactor(name)
        if m is not None: return self.loop(E, st, m, None, args, ins)
        return None

    def loop(self, E, st, m, fn, args, ins):
        if m in ("register_handler", "unregister_handler"):
            mask = args[2] if len(args) > 2 else 3
            if not isinstance(mask, int): raise CheckError("the watched events are not a constant")
            self.watch(E, st, args[0], args[1], mask, m[0] == "r")
            return [Outcome("ret", st, None)]
        if m == "fake_event": return [Outcome("ret", st, None)]
        if m == "handle_events": return self.wait(E, st, args, ins)
        if "~" in m:
            st.mon["watch"] = tuple(x for x in st.mon.get("watch", ()) if x[0][0] != E.norm_ptr(args[0]))
        if (fn is not None and fn.cd) or m.startswith("~"): return [Outcome("ret", st, None)]
        return E.opaque_pure(st, ins, m)

    def wait(self, E, st, args, ins):
        outs = []
        k = st.mon["waits"] = st.mon.get("waits", 0) + 1
        self.ctx.count("waits")
        self.before_wait(E, st, args, ins)
        x = st.fork()
        x.mon["timed out"] = 1
        x.note(E.cur_loc(x), "the wait ends with no event")
        outs.append(Outcome("ret", x, 0))
        if k > self.max_events: return outs
        for h, mask in self.watched(st, E.norm_ptr(args[0])):
            for bit, meth in ((1, "handle_input"), (2, "handle_output")):
                if mask & bit: outs += self.event(E, st, args[0], E.mkptr(*h), meth)
        return outs

    def event(self, E, st, loop, h, meth):
        """the loop calls h->meth"""
        self.ctx.count("events")
        y = st.fork()
        term = self.s.sym("terminate")
        y.mem[(("S", term), 0)] = 0
        y.note(E.cur_loc(y), "event: " + meth)
        self.before_event(E, y, meth)
        outs, ends = [], []
        for k, v, x in self.nested(E, y, self.impl_(E, y, h, meth), [h, term]):
            ends += [(k, v, y) for y in split_flag(E, x, (("S", term), 0))]
        for k, v, x in ends:
            end = x.mem.get((("S", term), 0))
            if k == "ret":
                if end != 0: self.watch(E, x, loop, h, 3, False)
                try: self.after_event(E, x, meth, end != 0)
                except Stop: continue
                outs.append(Outcome("ret", x, 1))
            elif k == "throw": outs.append(Outcome("throw", x, v))
        return outs

    def impl_(self, E, st, h, meth):
        return handler_impl(self.s, st, h, meth)

    def nested(self, E, st, fn, args):
        """walks a call of fn in state st; -> ends, with the frames of st put back"""
        saved, frames, caught, pend = self.ends, st.frames, st.caught, st.pending
        self.ends = []
        y = st.fork()
        y.frames = []
        # what the suspended frames hold stays alive
        key = ("suspended", fn.name, len(frames))
        y.mon[key] = tuple(v for f in frames for v in list(f.args) + list(f.regs.values()) if isinstance(v, tuple))
        E.push(y, fn, tuple(args), ("nested", fn.name, len(frames)))
        try: E.run(y)
        finally: ends, self.ends = self.ends, saved
        for k, v, x in ends:
            x.mon.pop(key, None)
            x.frames = [f.copy() for f in frames]
            x.caught, x.pending, x.exc = caught, pend, None
        return ends

    # ---- for the properties
    def before_wait(self, E, st, args, ins): pass
    def before_event(self, E, st, meth): pass
    def after_event(self, E, st, meth, ended): pass
    def environment(self, E, st, name, fn, args, ins): return None


def client_classes(s):
    """the client connection classes -> (class, constructor)"""
    out = []
    for c in sorted(s.classes("iqxmlrpc::Client_connection")):
        f = [x for x in s.by_short.get(c + "::" + c.rsplit("::")[-1], []) if not x.decl and x.cd and "~" not in x.dem.split("(")[0]]
        f = [x for x in f if "C1E" in x.name] or f
        if f: out.append((c, f[0]))
    if len(out) < 4: raise CheckError("only %d client connection classes" % len(out))
    return out


def part(s, st, obj, base):
    """pointer to the sub-object of class base"""
    E = s.E
    o, off = E.norm_ptr(obj)
    for (q, f), v in st.mem.items():
        if q == o and isinstance(f, int) and is_ptr(v) and v[1][0] == "G" and v[1][1].startswith("_ZTV"):
            if any(vt == v[1][1] and ap == v[2] for vt, ap in E.vt.by_type.get(s.zts(base), ())):
                return E.mkptr(o, f)
    raise CheckError("the object has no %s part" % base)


class SessMon(ClientMon):
    """sessions of a client connection: the transport accepts what is written and delivers bytes,
    the end of the stream or an error; the packet reader needs more, delivers a packet or refuses"""
    NONBLOCK = 0x800
    max_pieces = 1        # a packet is complete after at most so many more pieces
    failing = True        # transport errors and refusals are walked too

    def environment(self, E, st, name, fn, args, ins):
        if name == "iqxmlrpc::http::Packet_reader::read_response": return self.reads(E, st, fn, args, ins)
        if not fn.decl: return None
        if name == "fcntl":
            if args[1] == 4:
                nb = st.mon.get("nonblocking", ())
                nb = tuple(x for x in nb if x != args[0])
                if isinstance(args[2], int) and args[2] & self.NONBLOCK: nb += (args[0],)
                st.mon["nonblocking"] = nb
            return [Outcome("ret", st, 0)]
        if name == "SSL_set_fd":
            st.mon["ssl fd"] = st.mon.get("ssl fd", ()) + ((args[0], args[1]),)
            return [Outcome("ret", st, 1)]
        if name in ("send", "SSL_write"):
            self.op(E, st, name, args[0])
            st.mon["sent"] = st.mon.get("sent", 0) + 1
            return [Outcome("ret", st, args[2])] + self.fails(E, st)
        if name in ("recv", "SSL_read"):
            self.op(E, st, name, args[0])
            k = st.mon["reads"] = st.mon.get("reads", 0) + 1
            x = st.fork()
            if st.mon.get("eof"): return [Outcome("ret", st, 0)]        # a stream that ended stays ended
            n = ("s", ("arg", "received", k))
            E.assume(st, cmp_("lt", 0, n), True)
            E.assume(st, cmp_("lt", args[2], n), False)
            q = E.norm_ptr(args[1])
            for c in [c for c in st.mem if c[0] == q[0]]: del st.mem[c]
            st.hv[q[0]] = ("received", k)
            st.mon["last read"] = (q, n, k)
            outs = [Outcome("ret", st, n)]
            if not self.failing: return outs
            failed = self.fails(E, x)
            x.mon["eof"] = 1
            x.mon["ssl error"] = 6
            x.note(E.cur_loc(x), "end of the stream")
            return outs + [Outcome("ret", x, 0)] + failed
        if name in ("SSL_connect", "SSL_accept"):
            self.op(E, st, name, args[0])
            return [Outcome("ret", st, 1)] + self.fails(E, st)
        if name == "SSL_get_error":
            e = st.mon.get("ssl error", 0)
            if e != "any": return [Outcome("ret", st, e)]
            outs = []
            for c in (1, 2, 3, 5):
                y = st.fork(); y.mon["ssl error"] = c
                if c in (2, 3): y.mon.pop("failed", None)
                outs.append(Outcome("ret", y, c))
            return outs
        if name == "SSL_pending": return [Outcome("ret", st, 0)]
        if name == "SSL_get_shutdown": return [Outcome("ret", st, 0)]
        if name == "SSL_shutdown": self.op(E, st, name, args[0]); return [Outcome("ret", st, 1)]
        if name == "connect": self.op(E, st, name, args[0]); return None
        return None

    def fails(self, E, st):
        if not self.failing: return []
        x = st.fork()
        x.mon["failed"] = 1
        x.mon["ssl error"] = "any"
        x.note(E.cur_loc(x), "the operation fails or would block")
        return [Outcome("ret", x, -1)]

    def reads(self, E, st, fn, args, ins):
        """the packet reader gets a piece of text"""
        self.ctx.count("packet_reads")
        only = args[2] if len(args) > 2 else 0
        self.text(E, st, args[1])
        outs = []
        if self.failing:
            for t in sorted(E.escapes(fn)):
                x = st.fork()
                outs.append(Outcome("throw", x, (t, ("s", ("exc", t)))))
        m = st.mon["pieces"] = st.mon.get("pieces", 0) + 1
        if m <= self.max_pieces: outs.append(Outcome("ret", st.fork(), 0))
        k = st.mon["packets"] = st.mon.get("packets", 0) + 1
        p = ("s", ("arg", "packet", k, "header only" if only != 0 else "full", st.mon.get("session", 0)))
        E.assume(st, as_bool(p), True)
        st.mon["eof"] = 0
        return outs + [Outcome("ret", st, p)]

    def fd(self, st, h):
        return next((f for s, f in st.mon.get("ssl fd", ()) if s == h), h)

    def op(self, E, st, name, h): pass
    def text(self, E, st, p): pass


SESSION_BOUNDARY = {"iqnet::ssl::Ctx::prepare_verify": [], "iqnet::Socket::get_peer_addr": [], "iqnet::ssl::exception::exception": [],
                    "iqnet::network_error::network_error": [], "iqxmlrpc::http::Header::Header": [], "iqxmlrpc::http::Header::dump": [], "iqxmlrpc::http::Error_response::Error_response": [],
                    "iqnet::Inet_addr::get_host_name": [], "iqnet::Inet_addr::get_port": []}


def client_session(ctx, cls, mk, timeout="positive", sessions=2, events=4, pre=None):
    """walks sessions on one connection made by the connector; yields (session number, ends)"""
    s = Session(ctx, None)
    E = s.E
    s.mon = E.mon = mon = mk(s)
    mon.max_events = events
    E.loop_limit = 8
    E.boundary = dict(SESSION_BOUNDARY)
    ctr, sock, opts, req, T = (s.sym(x) for x in ("connector", "socket", "options", "request", "timeout"))
    mon.T = T
    st = s.blank(); st.frames = []
    for v in (ctr, sock, opts, req): E.assume(st, as_bool(v), True)
    if timeout == "positive": E.assume(st, cmp_("lt", 0, T), True)
    sts = call_all(s, pre(s, [st]) if pre else [st], s.fn("iqxmlrpc::Client_options::set_timeout"), [opts, T])
    mk_ = [f for f in s.by_short.get("iqnet::Connector::create_connection", ()) if not f.decl and "<%s>" % cls in f.dem]
    if len(mk_) != 1: raise CheckError("anchor: %d connectors for %s" % (len(mk_), cls))
    go = []
    for x in sts:
        for k, v, y in s.run(mk_[0], [ctr, sock], x):
            if k == "ret":
                go.append((v, y))
                if v not in E.roots: E.roots.append(v)
    if not go: raise CheckError("no connection of class %s is made" % cls)
    vt = s.classes("iqxmlrpc::Client_connection")[cls]
    sess = s.impl(vt, "iqxmlrpc::Client_connection", "do_process_session")
    setopt = s.fn("iqxmlrpc::Client_connection::set_options")
    for n in range(sessions):
        nxt = {}
        allends = []
        for v, x in go:
            for y in call_all(s, [x.fork()], setopt, [v, opts]):
                y.mon["session"] = n
                for k in ("waits", "eof", "timed out", "failed", "sent", "ssl error", "pieces"): y.mon.pop(k, None)
                for e in s.run(sess, [v, req], y):
                    allends.append(e)
                    if e[0] == "ret": nxt.setdefault((repr(v), e[2].mon.get("watch"), e[2].mon.get("packets")), (v, e[2]))
        yield n, s, mon, allends
        go = list(nxt.values())[:6]
