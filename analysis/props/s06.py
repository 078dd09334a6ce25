"""S06: interceptors enclose every method execution."""
from props.server_common import *

PROCESS, EXECUTE = "iqxmlrpc::Interceptor::process", "iqxmlrpc::Method::execute"
CREATE = "iqxmlrpc::Method_dispatcher_base::do_create_method"


class Mon(ServerMonitor):
    def __init__(self, ctx, s):
        super().__init__(ctx)
        self.s = s
        self.phase = "boot"
        self.entries = []

    def bad(self, E, st, key, msg, loc=None):
        self.ctx.violation("S06 " + key, loc or E.cur_loc(st), msg, st.trace_list())

    def on_call(self, E, st, name, fn, args, ins):
        if name == "iqxmlrpc::parse_request":
            r = ("s", ("request",))
            E.assume(st, as_bool(r), True)
            return [Outcome("ret", st, r)]
        if name == "iqxmlrpc::dump_response":
            models.wr(E, st, args[0], (SO, ("xml",)))
            return [Outcome("ret", st, None)]
        if fn.cd and name == "iqxmlrpc::http::Packet::Packet": return [Outcome("ret", st, None)]
        return super().on_call(E, st, name, fn, args, ins)

    def on_virtual(self, E, st, name, args, ins, cands):
        if name == CREATE:
            m = ("s", ("method",))
            E.assume(st, as_bool(m), True)
            return [Outcome("ret", st, m)]
        if "authenticate" in name: return [Outcome("ret", st, 1)]
        if name == PROCESS: return self.enter(E, st, ("process", args[0]), args[1:], ins)
        if name == EXECUTE: return self.enter(E, st, ("execute",), args, ins)
        if name == "iqxmlrpc::Server_connection::do_schedule_response": return [Outcome("ret", st, None)]
        return super().on_virtual(E, st, name, args, ins, cands)

    def enter(self, E, st, what, args, ins):
        """args: method, parameters, result"""
        self.ctx.count("entries_" + what[0])
        if st.mon.get("entered"):
            self.bad(E, st, "twice %s %s" % (self.where, self.chain), "one request enters the method or its interceptors twice")
        st.mon["entered"] = what
        if what != self.expect:
            nm = lambda w: "the method directly" if w[0] == "execute" else "the interceptor installed %s" % self.order.get(w[1], "elsewhere")
            self.bad(E, st, "wrong entry %s %s" % (self.where, self.chain), "%s calls %s instead of %s" % (self.label, nm(what), nm(self.expect)))
        if args[0] != ("s", ("method",)):
            self.bad(E, st, "other method " + self.where, "%s passes another method object" % self.label)
        if self.given and tuple(args[1:3]) != self.given:
            self.bad(E, st, "arguments " + self.where, "%s does not pass on the parameters and result it was given" % self.label)
        self.entries.append((what, args, st.fork()))
        return [Outcome("ret", st, None)]

    def container_result(self, E, st, op, args, ins, fn):
        if "Pool_executor*" in fn.ctx:
            if op in ("push_back", "push_front", "emplace_back", "push") and self.phase == "exec":
                st.mon["executor"] = E.load(st, args[1])
                return ("s", ("back",)) if ins["ty"] != "v" else None
            if self.phase == "worker":
                if op in ("empty", "size"):
                    if st.mon.get("popped"): self.done(E, st); raise Stop("next request")
                    return 0 if op == "empty" else 1
                if op in ("front", "back"):
                    st.mem[(("q", 0), 0)] = st.mon["executor"]
                    return ("P", ("q", 0), 0)
                if op in ("pop_front", "pop_back", "pop"):
                    st.mon["popped"] = 1
                    return None if ins["ty"] == "v" else U
        return None

    def on_sync(self, E, st, kind, args, ins):
        if self.phase == "worker" and kind == "wait":
            if st.mon.get("popped"): self.done(E, st)
            raise Stop("idle worker")

    def done(self, E, st):
        self.ctx.count("finished_requests")
        if not st.mon.get("entered"): self.bad(E, st, "never %s %s" % (self.where, self.chain), "%s ends without entering the method or an interceptor" % self.label)

    def on_end(self, E, st, kind, v):
        super().on_end(E, st, kind, v)
        if self.phase == "exec" and kind == "ret" and st.mon.get("executor") is None:
            if st.mon.get("entered") or not st.mon.get("refused"): self.done(E, st)
        if self.phase == "yield" and kind == "ret": self.done(E, st)


def run(ctx):
    ctx.rule("with 0..3 interceptors installed by Server::push_interceptor on a constructed server, with and without an authentication plugin, Server::schedule_execute (and the pool worker that takes the queued executor) enters exactly once: the interceptor installed last, or the method if there is none")
    ctx.rule("Interceptor::yield on each interceptor of that state enters exactly the next one, the innermost enters the method, with the method object, parameters and result it was given")
    pe = None
    for n in range(0, 4):
        s = Session(ctx, None)
        mon = s.mon = s.E.mon = Mon(ctx, s)
        E = s.E
        E.boundary = {"iqxmlrpc::Server::log_err_msg": [], "iqxmlrpc::http::Header::get_xheaders": [], "iqxmlrpc::http::Response_header::Response_header": [],
                      "iqxmlrpc::Server::interrupt": [], "iqxmlrpc::http::Request_header::get_authinfo": [], "iqxmlrpc::http::Packet::set_keep_alive": []}
        E.shared_havoc = lambda st, stamp: None
        sts = boot(s, mon)
        ics = [s.sym("interceptor%d" % (i + 1)) for i in range(n)]
        mon.order = {ic: "#%d" % (i + 1) for i, ic in enumerate(ics)}
        mon.chain = "chain of %d" % n
        for ic in ics:
            for st in sts: E.assume(st, as_bool(ic), True)
            sts = call_all(s, sts, s.fn("iqxmlrpc::Server::push_interceptor"), [mon.server, ic])
        plug = s.sym("plugin")
        for st in sts: E.assume(st, as_bool(plug), True)
        sts = sts + call_all(s, [x.fork() for x in sts], s.fn("iqxmlrpc::Server::set_auth_plugin"), [mon.server, plug])
        mon.given = None
        pkt, conn = s.sym("packet"), s.sym("connection")
        mon.expect = ("process", ics[-1]) if ics else ("execute",)
        for st in sts:
            for v in (pkt, conn): E.assume(st, as_bool(v), True)
            mon.phase, mon.where, mon.label = "exec", "serial", "request execution"
            ends = s.run(s.fn("iqxmlrpc::Server::schedule_execute"), [mon.server, pkt, conn], st)
            queued = [x for k, v, x in ends if k == "ret" and x.mon.get("executor") is not None]
            ctx.count("queued_states", len(queued))
            mon.phase, mon.where, mon.label = "worker", "pool", "the pool worker"
            entry, th = worker_entry(s), s.sym("thread")
            for x in queued: s.run(entry, [th], x)
        # the chain
        mon.phase, mon.where = "yield", "yield"
        seen = [e for e in mon.entries if e[0][0] == "process"]
        first = list({(e[0], e[1][:3]): e for e in seen}.values())[:4]
        depth = 0
        while first and depth < n:
            depth += 1
            i = n - depth
            nxt = []
            for what, args, st in first:
                mon.entries = []
                st = st.fork(); st.mon.pop("entered", None)
                st.frames = []
                mon.given = tuple(args[1:3])
                mon.expect = ("process", ics[i - 1]) if i > 0 else ("execute",)
                mon.label = "yield() of the interceptor installed #%d" % (i + 1)
                ctx.count("yields")
                s.run(s.fn("iqxmlrpc::Interceptor::yield"), [what[1], args[0], args[1], args[2]], st)
                nxt += [e for e in mon.entries if e[0][0] == "process"]
            first = list({(e[0], e[1][:3]): e for e in nxt}.values())[:4]
    for n in ("entries_process", "entries_execute", "queued_states", "finished_requests", "yields"):
        if not ctx.violations: ctx.need(n, 3)
    ctx.assume("an interceptor calls yield() as its contract says; chains longer than 3 repeat the same installation step")
