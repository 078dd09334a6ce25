"""K04: a request carries exactly what was configured on its client."""
from props.values_common import *
from props.client_common import ClientMon
from props.messages import check, message, Layout, show, join, tokens
from models import cat, SC, SO, EMPTY, str_eq
import known

CONNECT = "iqnet::Connector_base::connect"


class Mon(ClientMon):
    """a client whose connecting succeeds; the text of each session is recorded"""
    def __init__(self, ctx, prop):
        super().__init__(ctx, None, prop, "")
        self.rooms, self.seen = [], set()

    def on_new(self, E, st, ob, size, ins):
        for x in self.rooms: E.assume(st, cmp_("eq", x, ("P", ob, 0)), False)

    def on_call(self, E, st, name, fn, args, ins):
        if name == CONNECT: return self.connect(E, st, args)
        if name == "iqxmlrpc::dump_request":
            wr(E, st, args[0], (SO, ("document",)))
            return [Outcome("ret", st, None)]
        if name == "iqxmlrpc::Binary_data::get_base64" and not fn.decl:
            ps = self.s.eval(st, self.s.fn("iqxmlrpc::Binary_data::get_data"), [args[0]])[1]
            if len(ps) != 1: raise CheckError("the data to encode is not known")
            t = self.w.room_in(st)
            wr(E, st, t, (SO, ("base64", rd(E, st, ps.pop()))))
            return [Outcome("ret", st, t)]
        if name.endswith("::do_process_session") and not fn.decl: return None if self.probing else self.session(E, st, fn, args)
        if self.probing and fn.decl and name in ("send", "write", "sendto"):
            if models.portion(E, st, args[1], args[2]): raise Stop("sent in portions")
            self.clear.add(models.memstr(E, st, args[1], args[2]))
            raise Stop("seen")
        if name == "iqxmlrpc::parse_response": return [Outcome("ret", st, None)]
        if name == "iqnet::Inet_addr::get_host_name":
            wr(E, st, self.w.room_in(st), EMPTY)
            t = self.w.room_in(st)
            wr(E, st, t, (SO, ("host of", self.addr(E, st, args[0]))))
            return [Outcome("ret", st, t)]
        if name == "iqnet::Inet_addr::get_port": return [Outcome("ret", st, ("s", ("port of", self.addr(E, st, args[0]))))]
        return super().on_call(E, st, name, fn, args, ins)

    def addr(self, E, st, p):
        q = E.norm_ptr(p)
        return E.load(st, E.mkptr(q[0], q[1] + 8))

    def connect(self, E, st, args):
        q = E.norm_ptr(args[0])
        vt = st.mem.get(q)
        if not is_ptr(vt): raise CheckError("the class of a connector is not known")
        self.ctx.count("connects")
        f = [(o, ty) for n, o, sz, ty, ln in self.s.prog.records["iqnet::Connector_base"]["m"] if "Inet_addr" in str(ty)]
        if len(f) != 1: raise CheckError("anchor: the address a connector connects to")
        st.mon["via"] = st.mon.get("via", ()) + (self.addr(E, st, E.mkptr(q[0], q[1] + f[0][0])),)
        self.seen.add(vt[1][1])
        f = self.s.impl(vt[1][1], "iqnet::Connector_base", "create_connection")
        sock = self.w.room_in(st)
        return [Outcome("ret", x, v) for k, v, x in self.nested(E, st, f, [args[0], sock]) if k == "ret"]

    probing = False

    def wait(self, E, st, args, ins):
        if not self.probing: return super().wait(E, st, args, ins)
        for h, mask in self.watched(st, E.norm_ptr(args[0])):
            if mask & 2: self.event(E, st, args[0], E.mkptr(*h), "handle_output")
        raise Stop("seen")

    def session(self, E, st, fn, args):
        self.ctx.count("requests")
        # what the connection writes first, unless that is left to the TLS library
        self.probing, self.clear = True, set()
        try: self.nested(E, st.fork(), fn, args)
        finally: self.probing = False
        st.mon["clear"] = tuple(sorted(self.clear, key=repr))
        st.mon["texts"] = st.mon.get("texts", ()) + (rd(E, st, args[1]),)
        p = ("s", ("arg", "response packet", len(st.mon["texts"])))
        E.assume(st, as_bool(p), True)
        return [Outcome("ret", st, p)]


def plain(t):
    """numbers without the width they were written with"""
    return join([(SO, x[1][:2]) if not isinstance(x, bytes) and x[0] == SO and x[1][:1] == ("lex",) else x for x in tokens(t)])


class Client(World):
    def room_in(self, st):
        keep, self.st = self.st, st
        v = self.room()
        self.st = keep
        return v


class Scene:
    def __init__(self, ctx, prop):
        self.ctx, self.prop = ctx, prop
        self.mon = Mon(ctx, prop)
        w = self.w = Client(ctx, self.mon)
        self.mon.s, self.mon.w = w.s, w
        w.E.boundary = {"iqxmlrpc::Request::Request": [], "iqxmlrpc::Request::~Request": [], "iqxmlrpc::http::Error_response::Error_response": [], "iqnet::Socket::set_non_blocking": [],
                        "iqnet::ssl::Ctx::prepare_verify": [], "iqnet::Socket::get_peer_addr": [], "iqnet::ssl::Connection::Connection": []}
        self.ctors = [f for f in w.s.by_short["iqxmlrpc::Client::Client"] if not f.decl and "C2E" in f.name]
        if len(self.ctors) < 2: raise CheckError("anchor: %d client classes" % len(self.ctors))

    def begin(self, what):
        self.w.start()
        self.mon.what = what
        self.ctx.count("scenes")
        self.some((SO, ("document",)))

    def some(self, t):
        """a text that is not empty"""
        self.w.E.assume(self.w.st, cmp_("lt", 0, models.slen(t)), True)
        self.w.E.assume(self.w.st, str_eq(t, EMPTY), False)
        return t

    def client(self, ctor, vhost=True, proxy=False, slash=True):
        w = self.w
        self.cl, self.addr = w.room(), w.room()
        self.slash = not slash
        self.uri = cat((SC, b"/" if slash else b"R"), (SO, ("uri",)))
        self.vhost = (SO, ("virtual host",)) if vhost else None
        if vhost: self.some(self.vhost)
        w.call(ctor, self.cl, self.addr, w.text(self.uri), w.text(self.vhost or EMPTY))
        if not vhost: self.vhost = (SO, ("host of", self.mon.addr(w.E, w.st, self.addr)))
        self.port = ("s", ("port of", self.mon.addr(w.E, w.st, self.addr)))
        self.proxy = w.room() if proxy else None
        self.server_id = self.mon.addr(w.E, w.st, self.addr)
        if proxy:
            self.set("set_proxy", self.proxy)
            self.proxy_id = self.mon.addr(w.E, w.st, self.proxy)

    def set(self, name, *args): self.w.call(self.w.s.fn("iqxmlrpc::Client_base::" + name), self.cl, *args)

    def headers(self, *hs):
        w = self.w
        x = w.room()
        w.call(w.find("iqxmlrpc::XHeaders", "XHeaders", "()"), x)
        for n, v in hs:
            r = w.call(w.find("iqxmlrpc::XHeaders", "operator[]"), x, w.text(n))
            wr(w.E, w.st, r, v)
        return x

    def execute(self, hs=()):
        """a call; -> text of its request. Ends of the call that sent the same are one."""
        w = self.w
        f = [f for f in w.s.by_short["iqxmlrpc::Client_base::execute"] if not f.decl and ("Param_list" in f.dem or "vector" in f.dem)]
        if len(f) != 1: raise CheckError("anchor: the call of a client")
        n = len(w.st.mon.get("texts", ()))
        x = self.headers(*hs)
        ends = w.s.run(f[0], [w.room(), self.cl, w.room(), w.room(), x], w.st)
        per = {}
        for k, v, st in ends:
            ts = st.mon.get("texts", ())[n:]
            if k == "ret": per.setdefault((ts, st.mon.get("via", ())), st)
        if not per:
            if self.ctx.violations: raise Dead()
            raise CheckError("%s: no call ends normally (%d ends)" % (self.mon.what, len(ends)))
        keys = sorted(per, key=repr)
        key = keys[w.choose(len(keys))]
        w.st = per[key]
        if len(key[0]) != 1: raise CheckError("%s: a call runs %d sessions" % (self.mon.what, len(key[0])))
        return key[0][0]

    # -- judging
    def bad(self, key, what):
        w = self.w
        f = w.s.fn("iqxmlrpc::Client_connection::process_session")
        self.mon.bad(w.E, w.st, key, "%s: %s" % (self.mon.what, what), "%s:%d" % (f.file, f.line))

    def via(self, proxy):
        self.ctx.count("targets")
        want = self.proxy_id if proxy else self.server_id
        for a in self.w.st.mon.get("via", ()):
            if a != want: self.bad("address", "the connection is made to %s" % ("the server past its proxy" if proxy and a == self.server_id else "another address than the configured one"))

    def judge(self, t, keep, auth=None, extra=(), proxy=False):
        """the request says what is configured and nothing else"""
        ctx = self.ctx
        ctx.count("judged")
        doc = (SO, ("document",))
        wrong, lay = check(t, doc)
        if wrong: self.bad("layout", wrong)
        if lay is None: return
        line, opts, body = plain(lay[0]), [(n, plain(v)) for n, v in lay[1]], lay[2]
        want = self.target() if proxy else [self.uri]
        if line not in [join([b"P", b"O", b"S", b"T", b" "] + tokens(u) + tokens((SC, b" HTTP/1.0"))) for u in want] + \
                [join(tokens((SC, b"POST ")) + tokens(u) + tokens((SC, b" HTTP/1.1"))) for u in want]:
            self.bad("request line", "the request line is %s instead of a POST of %s" % (show(line), " or ".join(show(u) for u in want)))
        exp = {b"connection": [(SC, b"keep-alive" if keep else b"close")], b"host": [self.host()]}
        if auth: exp[b"authorization"] = [cat((SC, b"Basic "), (SO, ("base64", cat(cat(auth[0], (SC, b":")), auth[1]))))]
        for n, v in extra: exp[n.lower()] = [v]
        got = {}
        for n, v in opts: got.setdefault(n, []).append(v)
        for n, v in exp.items():
            if got.get(n) != v:
                self.bad(n.decode(), "%s is %s instead of %s" % (n.decode(), " and ".join(show(x) for x in got[n]) if n in got else "missing", show(v[0])))
        for n, v in got.items():
            if n in exp or n == b"content-length": continue
            if not isinstance(n, bytes) or any(x[0] != SC for x in v) or n.startswith(b"x-") or n in (b"authorization", b"cookie", b"proxy-authorization"):
                self.bad("unasked", "the request has a line nobody configured: %s: %s" % (n.decode() if isinstance(n, bytes) else show(n), show(v[0])))

    def in_clear(self, t, tls, proxy):
        """what is written without TLS is the request, or on the way to a tunnel only the order to connect to the server"""
        self.ctx.count("first_writes")
        got = self.w.st.mon.get("clear", ())
        if not tls:
            if not got: raise CheckError("%s: the connection writes nothing" % self.mon.what)
            for x in got:
                if x != t: self.bad("written", "what is written is %s instead of the request" % show(x))
            return
        if not proxy:
            for x in got: self.bad("in clear", "%s is written without TLS" % show(x))
            return
        if not got: raise CheckError("%s: no order to connect is written" % self.mon.what)
        self.ctx.count("tunnel_orders")
        a = ("host of", self.server_id)
        want = cat(cat(cat((SC, b"CONNECT "), (SO, a)), (SC, b":")), (SO, ("lex", self.port)))
        for x in got:
            try: line, opts, body = message(x)
            except Layout as e:
                self.bad("order", "the order to connect %s" % e); continue
            if plain(line) not in (cat(want, (SC, b" HTTP/1.0")), cat(want, (SC, b" HTTP/1.1"))): self.bad("order", "the order to connect is %s" % show(line))
            if body != EMPTY: self.bad("order body", "the order to connect is followed by %s" % show(body))
            for n, v in opts:
                if not isinstance(n, bytes) or v[0] != SC and n != b"host": self.bad("order", "the order to connect has a line nobody configured: %s" % show(v))

    def host(self): return cat(cat(self.vhost, (SC, b":")), (SO, ("lex", self.port)))

    def target(self):
        pre = cat((SC, b"http://"), self.host())
        return [cat(cat(pre, (SC, b"/") if self.slash else EMPTY), self.uri)]


def run(ctx):
    sc = Scene(ctx, "K04")
    w = sc.w
    v = lambda n: (SO, (n,))
    up = lambda *xs: [w.text(x) for x in xs]
    for ctor in sc.ctors:
        for proxy in (False, True):
            name = "%s%s" % (ctor.ctx.split("<")[-1].rstrip("> ").rsplit("::", 1)[-1], " behind a proxy" if proxy else "")
            plain = proxy and "Https" not in ctor.ctx     # a tunnelled request is the same as a direct one

            def bare():
                sc.client(ctor, proxy=proxy)
                t = sc.execute()
                sc.judge(t, False, proxy=plain)
                sc.via(proxy)
                sc.in_clear(t, "Https" in ctor.ctx, proxy)

            def unnamed():
                sc.client(ctor, vhost=False, proxy=proxy, slash=False)
                t = sc.execute()
                sc.judge(t, False, proxy=plain)
                sc.via(proxy)
                sc.in_clear(t, "Https" in ctor.ctx, proxy)

            def full():
                sc.client(ctor, proxy=proxy)
                sc.set("set_authinfo", *up(sc.some(v("user")), v("password")))
                sc.set("set_xheaders", sc.headers((b"X-One", v("v1")), (b"x-both", v("v2"))))
                t = sc.execute(((b"X-Two", v("v3")), (b"X-Both", v("v4"))))
                sc.judge(t, False, (v("user"), v("password")), ((b"x-one", v("v1")), (b"x-two", v("v3")), (b"x-both", v("v4"))), plain)

            def kept():
                sc.client(ctor, proxy=proxy)
                sc.set("set_keep_alive", 1)
                sc.set("set_xheaders", sc.headers((b"X-One", v("v1"))))
                sc.judge(sc.execute(((b"X-Two", v("v3")),)), True, None, ((b"x-one", v("v1")), (b"x-two", v("v3"))), plain)
                sc.mon.what += ", second call"
                sc.set("set_authinfo", *up(sc.some(v("user")), v("password")))
                sc.judge(sc.execute(), True, (v("user"), v("password")), ((b"x-one", v("v1")),), plain)
                sc.mon.what += " and third"
                sc.set("set_authinfo", *up(sc.some(v("other user")), v("other password")))
                sc.set("set_xheaders", sc.headers((b"X-Three", v("v5"))))
                sc.judge(sc.execute(), True, (v("other user"), v("other password")), ((b"x-three", v("v5")),), plain)
                sc.mon.what += " and a fourth that closes"
                sc.set("set_keep_alive", 0)
                sc.judge(sc.execute(), False, (v("other user"), v("other password")), ((b"x-three", v("v5")),), plain)
            explore(sc, name + ", nothing configured", bare)
            explore(sc, name + ", no virtual host", unnamed)
            explore(sc, name + ", credentials and headers", full)
            explore(sc, name + ", kept connection", kept)
    ctx.need("judged", 28)
    ctx.need("connects", 16)
    ctx.need("targets", 8)
    ctx.count("connectors", len(sc.mon.seen))
    ctx.need("connectors", 4)
    ctx.need("first_writes", 8)
    ctx.need("tunnel_orders", 2)
    ctx.rule("for every client class, with and without a proxy: the text handed to the session is the request line with the configured URI, "
             "exactly the configured host, credentials, extra headers and keep-alive state, no other line that varies, an empty line, and the document with its length declared")
    ctx.rule("calls on a kept connection say what is configured when they are made")
    ctx.rule("the first text a connection writes without TLS is the request itself for HTTP, nothing for HTTPS, and for HTTPS behind a proxy an order to connect to the configured server and nothing else")
    ctx.rule("the connection is made to the proxy where one is set and to the configured server otherwise")
