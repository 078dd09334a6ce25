"""D01: a request runs exactly the method registered under its name."""
from props.server_common import *
from props.values_common import World, Dead, explore, INLINE
from props.v01 import V, KIND
from models import rd, wr, str_eq, SC, SO
import known

MANAGER = "iqxmlrpc::Method_dispatcher_base"
CREATE, ASK, LIST = "iqxmlrpc::Method_factory_base::create", MANAGER + "::do_create_method", MANAGER + "::do_get_methods_list"
EXECUTE = "iqxmlrpc::Method::execute"
UNKNOWN = "_ZTIN8iqxmlrpc14Unknown_methodE"
QUIET = ("iqxmlrpc::Server::log_err_msg", "iqxmlrpc::http::Header::get_xheaders", "iqxmlrpc::Server::interrupt")


class Mon(ServerMonitor):
    what = ""
    request = None
    phase = ""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.s = None
        self.rooms = []
        self.calls = []
        self.offers = {}

    def bad(self, E, st, key, msg, loc=None):
        if "Value" not in (getattr(E, "lost", None) or "Value"): raise CheckError("%s: what %s does to a container is not known" % (self.what, E.lost))
        self.ctx.violation("D01 " + key, loc or (E.cur_loc(st) if st.frames else self.what), "%s: %s" % (self.what, msg), st.trace_list())

    def on_new(self, E, st, ob, size, ins):
        for x in self.rooms: E.assume(st, cmp_("eq", x, ("P", ob, 0)), False)

    def on_mem_error(self, E, st, kind, p):
        self.bad(E, st, kind, {"use-after-free": "an object is used after it was destroyed", "double-free": "an object is destroyed twice",
                               "null-deref": "a method that does not exist is used"}.get(kind, kind))
        raise Stop("reported")

    def log(self, st, *what): st.mon["log"] = st.mon.get("log", ()) + (what,)

    def method(self, E, st, of):
        m = ("s", ("method of", of))
        E.assume(st, as_bool(m), True)
        for x in self.rooms: E.assume(st, cmp_("eq", x, m), False)
        return m

    def on_call(self, E, st, name, fn, args, ins):
        if name == "iqxmlrpc::parse_request" and self.request is not None:
            return [Outcome("ret", st, self.request)]
        if name == "iqxmlrpc::dump_response":
            self.answer(E, st, args[1])
            wr(E, st, args[0], (SO, ("xml",)))
            return [Outcome("ret", st, None)]
        if fn.cd and name == "iqxmlrpc::http::Packet::Packet": return [Outcome("ret", st, None)]
        return super().on_call(E, st, name, fn, args, ins)

    def answer(self, E, st, resp):
        f = self.s.eval(st, self.s.fn("iqxmlrpc::Response::is_fault"), [resp])[1]
        c = self.s.eval(st, self.s.fn("iqxmlrpc::Response::fault_code"), [resp])[1]
        tree = None
        if f == {0}:
            vs = self.s.eval(st, self.s.fn("iqxmlrpc::Response::value"), [resp])[1]
            self.w.st, keep = st, self.w.st
            tree = self.w.tree(vs.pop()) if len(vs) == 1 else None
            self.w.st = keep
        self.log(st, "answer", f == {1}, tuple(sorted(c, key=repr)) if f == {1} else (), tree)

    def on_virtual(self, E, st, name, args, ins, cands):
        if name == CREATE:
            self.log(st, "create", args[0])
            return [Outcome("ret", st, self.method(E, st, args[0]))]
        if name == ASK and self.user(E, args[0]):
            self.log(st, "ask", args[0], rd(E, st, args[1]))
            return [Outcome("ret", st, self.method(E, st, args[0]) if self.offers.get(args[0]) else 0)]
        if name == LIST and self.user(E, args[0]):
            self.log(st, "list", args[0])
            return [Outcome("ret", st, None)]
        if name == EXECUTE: return self.execute(E, st, args)
        if "::~" in name and args[0] in self.owned:
            self.log(st, "destroy", args[0])
            return [Outcome("ret", st, None)]
        if name == "iqxmlrpc::Exception::code": return None
        if name == "iqxmlrpc::Server_connection::do_schedule_response": return [Outcome("ret", st, None)]
        return super().on_virtual(E, st, name, args, ins, cands)

    def user(self, E, p): return is_sym(E.norm_ptr(p)[0][1]) if E.norm_ptr(p) and E.norm_ptr(p)[0][0] == "S" else False

    owned = ()
    addr = None

    def execute(self, E, st, args):
        m, params = args[0], args[1]
        n = self.s.eval(st, self.s.fn("iqxmlrpc::Method::name"), [m])[1]
        names = {rd(E, st, p) for p in n}
        p = self.s.eval(st, self.s.fn("iqxmlrpc::Method::peer_addr"), [m])[1]
        peer = {self.addr(st, x) for x in p}
        els = known.seq(E, st, params)
        vals = None
        if els is not None:
            self.w.st, keep = st, self.w.st
            vals = tuple(self.w.tree(e) for e in els)
            self.w.st = keep
        self.log(st, "execute", m, tuple(sorted(names, key=repr)), tuple(sorted(peer, key=repr)), vals)
        return [Outcome("ret", st, None)]

    def container_result(self, E, st, op, args, ins, fn):
        if "Pool_executor*" not in fn.ctx: return None
        if op in ("push_back", "push_front", "emplace_back", "push") and self.phase == "exec":
            st.mon["executor"] = E.load(st, args[1])
            return ("s", ("back",)) if ins["ty"] != "v" else None
        if self.phase == "worker" and not fn.cd:
            this = args[1] if ins.get("sret") and len(args) > 1 else args[0]
            if st.mon.get("queue") is None:
                st.mon["queue"] = E.norm_ptr(this)
                n = known.new_el(E, st, ins)
                E.store(st, n, st.mon["executor"])
                known.setseq(E, st, this, (n,))
            elif op in ("empty", "size") and self.taken(E, st) and E.norm_ptr(this) == st.mon["queue"]:
                self.ends.append(("ret", None, st.fork())); raise Stop("next request")
        return None

    def taken(self, E, st):
        q = st.mon.get("queue")
        return q is not None and known.seq(E, st, ("P",) + tuple(q)) == ()

    def on_sync(self, E, st, kind, args, ins):
        if self.phase == "worker" and kind == "wait":
            if self.taken(E, st): self.ends.append(("ret", None, st.fork()))
            raise Stop("idle worker")


class Scene:
    def __init__(self, ctx):
        self.ctx = ctx
        self.mon = Mon(ctx)
        w = self.w = World(ctx, self.mon, {n: [] for n in QUIET})
        self.mon.s, self.mon.w, self.mon.addr = w.s, w, self.addr
        w.E.boundary["iqxmlrpc::http::Response_header::Response_header"] = []
        w.E.boundary["iqxmlrpc::http::Packet::set_keep_alive"] = []
        w.E.shared_havoc = lambda st, stamp: None

    def begin(self, what):
        w = self.w
        w.start()
        self.mon.what = what
        self.mon.phase, self.mon.request, self.mon.offers, self.mon.owned = "", None, {}, ()
        self.ctx.count("scenes")
        self.server, addr, cf, ef = (w.room() for _ in range(4))
        self.mon.server, self.mon.reactor_obj = self.server, w.room()
        w.call(w.s.fn("iqxmlrpc::Server::Server"), self.server, addr, cf, ef)

    def register(self, name, f=None):
        w = self.w
        f = f or w.room()
        w.call(w.s.fn("iqxmlrpc::Server::register_method"), self.server, w.text(name), f)
        return f

    def push(self, offers=False):
        d = self.w.room()
        self.mon.offers[d] = offers
        self.w.call(self.w.s.fn("iqxmlrpc::Server::push_dispatcher"), self.server, d)
        return d

    def other(self, tag, *names):
        """a name that is none of the given ones"""
        t = (SO, (tag,))
        for n in names: self.w.E.assume(self.w.st, str_eq(t, n), False)
        return t

    def request(self, name):
        """every way the request for the name ends: logs of what happened"""
        w, mon, E, s = self.w, self.mon, self.w.E, self.w.s
        r, pl = w.room(), w.room()
        vals = []
        for k in range(2):
            e = w.room()
            w.call(w.find(V, "Value", "(int)"), e, s.sym("parameter %d" % k))
            vals.append(e)
        known.setseq(E, w.st, pl, vals)
        w.call(w.find("iqxmlrpc::Request", "Request", "(std::__cxx11"), r, w.text(name), pl)
        mon.request = r
        pkt, conn = w.room(), w.room()
        mon.phase = "exec"
        want = tuple(w.tree(e) for e in vals)
        peer = s.eval(w.st, s.fn("iqxmlrpc::Server_connection::get_peer_addr"), [conn])[1]
        peers = tuple(sorted({self.addr(w.st, p) for p in peer}, key=repr))
        ends = s.run(s.fn("iqxmlrpc::Server::schedule_execute"), [self.server, pkt, conn], w.st, {"log": ()})
        out = []
        mon.phase = "worker"
        for k, v, x in ends:
            if k != "ret": mon.bad(E, x, "throws", "handing over a request ends in an exception"); continue
            if x.mon.get("executor") is None: out.append(x)
            else:
                self.ctx.count("pool_requests")
                got = s.run(worker_entry(s), [s.sym("thread")], x)
                out += [y for k, v, y in got if mon.taken(s.E, y)]
        mon.phase = ""
        if not out and not self.ctx.violations: raise CheckError("%s: the request has no end" % mon.what)
        return out, want, peers

    def addr(self, st, p): return self.w.E.load(st, self.w.E.mkptr(self.w.E.norm_ptr(p)[0], self.w.E.norm_ptr(p)[1] + 8))

    def runs(self, name, maker, asked=()):
        """the request for the name is executed by what maker makes, after the given dispatchers were asked"""
        mon, E = self.mon, self.w.E
        out, want, peers = self.request(name)
        for x in out:
            log = x.mon.get("log", ())
            ex = [e for e in log if e[0] == "execute"]
            self.asked(x, log, name, asked)
            made = [e[1] for e in log if e[0] == "create"]
            if self.mon.offers.get(maker) is None and made != [maker] or self.mon.offers.get(maker) is not None and made:
                mon.bad(E, x, "wrong factory", "%s is made by another factory than the one registered under its name, or more than once" % self.name(name))
            if len(ex) != 1: mon.bad(E, x, "not run", "the method is run %d times" % len(ex)); continue
            self.ctx.count("methods_run")
            _, m, n, p, vals = ex[0]
            if m != ("s", ("method of", maker)): mon.bad(E, x, "wrong method", "%s is executed by the method that belongs to another name" % self.name(name))
            if n != (name if isinstance(name, tuple) else (SC, name),): mon.bad(E, x, "name", "the method sees the name %s instead of %s" % (n, self.name(name)))
            if p != peers: mon.bad(E, x, "peer", "the method sees another peer address than that of its request's connection (%s, %s)" % (p, peers))
            if vals is None: raise CheckError("%s: the parameters given to the method are not known" % mon.what)
            if vals != want: mon.bad(E, x, "parameters", "the method gets %s instead of the parameters of its request, %s" % (vals, want))

    def asked(self, x, log, name, asked):
        t = name if isinstance(name, tuple) else (SC, name)
        got = [e[1:] for e in log if e[0] == "ask"]
        if got != [(d, t) for d in asked]:
            self.mon.bad(self.w.E, x, "asked", "dispatchers are not asked for %s in the order of their installation up to the first that offers it" % self.name(name))

    def unknown(self, name, asked=()):
        mon, E = self.mon, self.w.E
        out, want, peers = self.request(name)
        for x in out:
            log = x.mon.get("log", ())
            self.asked(x, log, name, asked)
            if any(e[0] in ("create", "execute") for e in log): mon.bad(E, x, "ran unknown", "a method is made or run for %s, under which none is registered" % self.name(name)); continue
            a = [e for e in log if e[0] == "answer"]
            self.ctx.count("unknown_names")
            if len(a) != 1 or not a[0][1]: mon.bad(E, x, "unknown answer", "a request for an unknown method is not answered with a fault")
            elif a[0][2] != (-32601,): mon.bad(E, x, "unknown code", "the fault for an unknown method has the code %s" % (a[0][2],))

    def name(self, n): return n.decode() if isinstance(n, bytes) else str(n[1][0])


def scenes(ctx):
    sc = Scene(ctx)
    w = sc.w
    X, Y = b"alpha", b"alphabet"

    def two(call):
        def f():
            f1, f2 = sc.register(X), sc.register(Y)
            z = sc.other("a third name", (SC, X), (SC, Y))
            f3 = sc.register(z)
            call(z, f1, f2, f3)
        return f
    explore(sc, "three methods, the first requested", two(lambda z, f1, f2, f3: sc.runs(X, f1)))
    explore(sc, "three methods, the second requested", two(lambda z, f1, f2, f3: sc.runs(Y, f2)))
    explore(sc, "three methods, the third requested", two(lambda z, f1, f2, f3: sc.runs(z, f3)))
    explore(sc, "three methods, another requested", two(lambda z, f1, f2, f3: sc.unknown(sc.other("another name", z, (SC, X), (SC, Y)))))
    for n in (b"", b"Alpha", b"alph", b"alphabe", b"alphabets", b"alpha "):
        explore(sc, "three methods, %r requested" % n, two(lambda z, f1, f2, f3: (w.E.assume(w.st, str_eq(z, (SC, n)), False), sc.unknown(n))))
    explore(sc, "no method registered", lambda: sc.unknown((SO, ("any name",))))

    def dispatchers(offers, call):
        def f():
            f1 = sc.register(X)
            ds = [sc.push(o) for o in offers]
            call(f1, ds)
        return f
    explore(sc, "a registered method and two dispatchers", dispatchers((True, True), lambda f1, ds: sc.runs(X, f1)))
    for offers in ((True, False), (True, True), (False, True)):
        k = offers.index(True)
        explore(sc, "dispatchers that offer %s" % (offers,), dispatchers(offers, lambda f1, ds: sc.runs(sc.other("another name", (SC, X)), ds[k], ds[:k + 1])))
    explore(sc, "dispatchers that offer nothing", dispatchers((False, False), lambda f1, ds: sc.unknown(sc.other("another name", (SC, X)), ds)))

    def again():
        f1, f2 = sc.register(X), sc.register(Y)
        f3 = sc.register(X)
        sc.runs(X, f3)
    explore(sc, "a name registered again", again)

    def listing():
        sc.register(X)
        w.call(w.s.fn("iqxmlrpc::Server::enable_introspection"), sc.server)
        z = sc.other("a third name", (SC, X), (SC, b"system.listMethods"))
        sc.register(z)
        d = sc.push()
        for x in sc.request(b"system.listMethods")[0]:
            log = x.mon.get("log", ())
            ctx.count("listings")
            a = [e for e in log if e[0] == "answer" and not e[1]]
            if len(a) != 1 or a[0][3] is None: sc.mon.bad(w.E, x, "no list", "a request for the list of methods is not answered with one value"); continue
            if [e[1] for e in log if e[0] == "list"] != [d]: sc.mon.bad(w.E, x, "list asked", "the dispatchers are not each asked once for their methods")
            c, els = a[0][3]
            if c != KIND["array"]: sc.mon.bad(w.E, x, "list kind", "the list of methods is not an array but %s" % c); continue
            got = sorted((e[1][1] for e in els), key=repr)
            want = sorted((((SC, X),), ((SC, b"system.listMethods"),), (z,)), key=repr)
            if got != want: sc.mon.bad(w.E, x, "list", "the list of methods is %s instead of %s" % (got, want))
    explore(sc, "the list of methods", listing)

    def owned(extra):
        def f():
            fs = sc.mon.owned = [w.room() for _ in range(3 if extra else 2)]
            for n, o in zip((X, Y, X), fs): sc.register(n, o)
            objs = list(fs)
            if extra: objs += [sc.push(), sc.push(True)]
            sc.mon.owned = objs
            for k, v, x in w.s.run(w.s.fn("iqxmlrpc::Server::~Server", pred=lambda f: "D1E" in f.name or "D2E" in f.name), [sc.server], w.st):
                if k != "ret": continue
                ctx.count("servers_destroyed")
                gone = [e[1] for e in x.mon.get("log", ()) if e[0] == "destroy"]
                if len(gone) != len(set(gone)): sc.mon.bad(w.E, x, "destroyed twice", "a factory or dispatcher is destroyed twice")
                left = [o for o in objs if o not in gone]
                if left: sc.mon.bad(w.E, x, "never destroyed", "%d of the registered factories and dispatchers are never destroyed" % len(left))
        return f
    explore(sc, "a server with two methods is destroyed", owned(False))
    explore(sc, "a server with a method registered again and two dispatchers is destroyed", owned(True))


def run(ctx):
    ctx.rule("on a constructed server with methods and dispatchers installed through its public functions, the hand-over of a request is walked for each registered name, for names close to them and for any other name: the factory registered under exactly that name makes the method, else the dispatchers are asked with that name in order of installation up to the first that offers one")
    ctx.rule("the method made is run once, with exactly the values of the request's parameters, and reads the request's name and the address of its connection; for a name nobody offers nothing is made or run and the answer is the unknown-method fault")
    ctx.rule("the introspection method returns an array with every registered name once, and asks every dispatcher once")
    ctx.rule("when a server is destroyed each factory registered and each dispatcher installed on it was destroyed exactly once")
    scenes(ctx)
    if not ctx.violations:
        for n, k in (("methods_run", 8), ("unknown_names", 9), ("pool_requests", 8), ("listings", 1), ("servers_destroyed", 2)): ctx.need(n, k)
