"""S03: every complete request handed over is answered exactly once, on its own connection."""
from props.server_common import *
from names import strip_templates

USER = {"iqxmlrpc::Method::execute", "iqxmlrpc::Interceptor::process", "iqxmlrpc::Auth_Plugin_base::do_authenticate",
        "iqxmlrpc::Auth_Plugin_base::do_authenticate_anonymous", "iqxmlrpc::Method_dispatcher_base::do_create_method"}
THROWS = [FAULT, EXC, STDX, HTTPERR, FOREIGN]


class Mon(ServerMonitor):
    def __init__(self, ctx, s):
        super().__init__(ctx)
        self.s = s
        self.phase = "setup"
        self.newobjs = set()

    def bad(self, E, st, key, msg, loc=None):
        self.ctx.violation("S03 " + key, loc or E.cur_loc(st), msg, st.trace_list())

    # ---- user code: may return or throw anything
    def on_virtual(self, E, st, name, args, ins, cands):
        if name in USER: return self.user(E, st, name, args, ins)
        if name == "iqxmlrpc::Method_factory_base::create": return self.user(E, st, name, args, ins)
        return super().on_virtual(E, st, name, args, ins, cands)

    def user(self, E, st, name, args, ins):
        ctx = self.ctx
        ctx.count("user_code_calls")
        loc = E.cur_loc(st)
        outs = []
        runs = name.endswith(("execute", "process"))
        if runs:
            if st.mon.get("ran"): self.bad(E, st, "method run twice", "the method (or interceptor chain) is run a second time for one request")
            if st.mon.get("answers"): self.bad(E, st, "run after answer", "the method is run after the response was scheduled")
            st.mon["ran"] = 1
        for t in THROWS:
            s2 = st.fork()
            e = ("s", ("userexc", t))
            s2.mon["fail"] = (t, e if runs else None)
            s2.note(loc, "%s throws %s" % (name, t))
            outs.append(Outcome("throw", s2, (t, e)))
        st.note(loc, "%s returns" % name)
        v = None
        if name.endswith("do_create_method"):
            m = ("s", ("method",))
            s2 = st.fork()
            s2.note(loc, "the dispatcher does not know the method")
            outs.append(Outcome("ret", s2, 0))
            st.mon["made"] = st.mon.get("made", frozenset()) | {("method", ("S", m))}
            E.assume(st, as_bool(m), True)
            v = m
        elif runs:
            st.mon["result"] = args[3] if name.endswith("process") else args[2]
        elif "authenticate" in name:
            s2 = st.fork()
            s2.mon["fail"] = ("rejected", None)
            outs.append(Outcome("ret", s2, 0))
            v = 1
        outs.append(Outcome("ret", st, v))
        return outs

    def on_new(self, E, st, obj, *a):
        self.newobjs.add(obj)

    # ---- library internals of interest
    def on_call(self, E, st, name, fn, args, ins):
        if name == "iqxmlrpc::dump_response": return self.dump(E, st, args, ins)
        if name == "iqxmlrpc::parse_request":
            outs = []
            for t in E.escapes(fn):
                s2 = st.fork()
                s2.mon["fail"] = (t, None)
                s2.note(E.cur_loc(s2), "parse_request throws %s" % t)
                outs.append(Outcome("throw", s2, (t, ("s", ("exc", t)))))
            r = ("s", ("request",))
            st.mon["made"] = st.mon.get("made", frozenset()) | {("request", ("S", r))}
            E.assume(st, as_bool(r), True)
            return outs + [Outcome("ret", st, r)]
        if fn.cd and fn.base in ("Executor",) and not fn.dem.split("(")[0].endswith("~Executor"):
            q = E.norm_ptr(args[0])
            if q[0] in self.newobjs: st.mon["made"] = st.mon.get("made", frozenset()) | {("executor", q[0])}
        if name in ("iqxmlrpc::Server::log_err_msg",): return [Outcome("ret", st, None)]
        if name in ("iqxmlrpc::Server::interrupt",): return [Outcome("ret", st, None)]
        if fn.cd and name == "iqxmlrpc::http::Packet::Packet":
            q = E.norm_ptr(args[0])
            if q[0] in self.newobjs: st.mon["made"] = st.mon.get("made", frozenset()) | {("response packet", q[0])}
        return super().on_call(E, st, name, fn, args, ins)

    def on_free(self, E, st, obj, off, ins):
        if obj in st.freed or any(o == obj and st.mon.get("gone", frozenset()) for o in st.mon.get("gone", ())):
            self.bad(E, st, "double free", "an object of the request is destroyed twice")
        st.mon["gone"] = st.mon.get("gone", frozenset()) | {obj}
        made = st.mon.get("made", frozenset())
        if any(o == obj for _, o in made):
            st.mon["made"] = frozenset((n, o) for n, o in made if o != obj)

    def on_mem_error(self, E, st, kind, p):
        if kind in ("use-after-free", "double-free"):
            self.bad(E, st, kind, "an object of the request is used or freed after it was destroyed (%s)" % kind)

    def container_result(self, E, st, op, args, ins, fn):
        if "Pool_executor*" in fn.ctx:
            if op in ("push_back", "push_front", "emplace_back", "push") and self.phase == "exec":
                st.mon["queued"] = st.mon.get("queued", 0) + 1
                st.mon["executor"] = E.load(st, args[1])
                self.ctx.count("hand_overs_to_pool")
                if st.mon.get("answers"): self.bad(E, st, "queued after answer", "a request already answered is queued for execution")
                return ("s", ("back",)) if ins["ty"] != "v" else None
            if self.phase == "worker":
                if op == "empty":
                    if st.mon.get("popped"): self.worker_done(E, st); raise Stop("second request")
                    return 0
                if op == "size":
                    if st.mon.get("popped"): self.worker_done(E, st); raise Stop("second request")
                    return 1
                if op in ("front", "back"):
                    st.mem[(("q", 0), 0)] = st.mon["executor"]
                    return ("P", ("q", 0), 0)
                if op in ("pop_front", "pop_back", "pop"):
                    st.mon["popped"] = 1
                    return None if ins["ty"] == "v" else U
        return None

    def on_sync(self, E, st, kind, args, ins):
        if self.phase == "worker" and kind == "wait":
            if st.mon.get("popped"): self.worker_done(E, st)
            raise Stop("idle worker")

    def worker_done(self, E, st):
        """the worker goes on to its next request (or ends)"""
        self.ctx.count("worker_paths")
        loc = "pool worker"
        if not st.mon.get("answers"): self.bad(E, st, "worker unanswered", "a worker finishes a request without a response", loc)
        self.leaks(E, st, loc)

    def leaks(self, E, st, loc):
        left = {nm for nm, o in st.mon.get("made", ())}
        if left: self.bad(E, st, "leak " + ",".join(sorted(left)), "the request is finished but its %s is never destroyed" % ", ".join(sorted(left)), loc)

    # ---- the response
    def dump(self, E, st, args, ins):
        ctx = self.ctx
        ctx.count("responses_built")
        r = args[1] if ins.get("sret") else args[0]
        fail = st.mon.get("fail")
        _, vals = self.s.eval(st, self.is_fault, [r])
        isf = {E.decide(st, as_bool(v)) for v in vals}
        if fail and isf != {True}:
            self.bad(E, st, "failure answered as success", "a request that failed (%s) is answered with a value, not a fault" % fail[0])
        if not fail:
            if not st.mon.get("ran"):
                if isf != {True}: self.bad(E, st, "value without run", "a success response is built although the method did not run")
            elif isf != {False}: self.bad(E, st, "success answered as fault", "a method that returned normally is answered with a fault")
            else:
                ends, vals = self.s.eval(st, self.value, [r])
                if vals != {st.mon.get("result")}:
                    self.bad(E, st, "other value", "the response does not hold the value the method produced")
        if fail and fail[0] == FAULT and fail[1] is not None:
            ctx.count("method_faults")
            _, codes = self.s.eval(st, self.fcode, [r])
            ends, strs = self.s.eval(st, self.fstr, [r])
            txt = {rd(E, ends[0][2], x) for x in strs}
            if codes != {("s", ("code", fail[1]))}:
                self.bad(E, st, "fault code", "the response to a fault thrown by the method does not carry its code (%s)" % (codes,))
            if txt != {(SO, ("cstrof", (SO, ("what", fail[1]))))} and txt != {(SO, ("what", fail[1]))}:
                self.bad(E, st, "fault text", "the response to a fault thrown by the method does not carry its text (%s)" % (txt,))
        if isf == {True} or isf == {False}: st.mon["body"] = "fault" if isf == {True} else "value"
        models.wr(E, st, args[0], (SO, ("xml",)))
        return [Outcome("ret", st, None)]

    def response(self, E, st, args, ins):
        ctx = self.ctx
        ctx.count("responses_scheduled")
        n = st.mon["answers"] = st.mon.get("answers", 0) + 1
        if n > 1: self.bad(E, st, "two answers", "a second response is scheduled for one request")
        if args[0] != self.conn: self.bad(E, st, "other connection", "the response is scheduled on another connection than the request's")
        if st.mon.get("queued"): 
            if self.phase == "exec": self.bad(E, st, "answer and queue", "a request queued for a worker is also answered directly")
        codes = http_status(E, st, args[0])
        ctx.sample("answer at %s, status %s, after %s" % (E.cur_loc(st), codes, st.mon.get("fail")))
        if st.mon.get("fail"):
            ok = codes and all(c is not None and c >= 400 for c in codes) or st.mon.get("body") == "fault"
            if not ok and not (st.mon["fail"][0] == HTTPERR and codes <= {None}): self.bad(E, st, "failure status", "a request that failed (%s) gets a response with status %s that is not a fault" % (st.mon["fail"][0], codes))
        elif st.mon.get("ran"):
            if codes != {200}: self.bad(E, st, "success status", "a successful request is answered with status %s" % codes)
        elif st.mon.get("body") != "fault" and not (codes and all(c is not None and c >= 400 for c in codes)):
            self.bad(E, st, "refusal status", "a request that was not run is answered with status %s" % codes)
        # what follows does not depend on what was answered
        for k in ("body", "fail", "result"): st.mon.pop(k, None)
        obj = E.norm_ptr(args[0])[0]
        for k in [k for k, v in st.mem.items() if k[0] == obj and isinstance(v, tuple) and v[:1] == ("str",)]:
            st.mem[k] = ("str", (SO, ("answered",)))
        return [Outcome("ret", st, None)]

    def on_end(self, E, st, kind, v):
        super().on_end(E, st, kind, v)
        if self.phase == "setup" or kind == "unreachable": return
        n, q = st.mon.get("answers", 0), st.mon.get("queued", 0)
        loc = {"exec": "Server::schedule_execute", "worker": "pool worker"}[self.phase]
        if kind == "terminate":
            self.bad(E, st, "terminate " + self.phase, "the process is terminated while a request is handled", E.cur_loc(st)); return
        if kind == "throw":
            self.bad(E, st, "escape " + self.phase, "an exception (%s) leaves the handling of a request%s" % (v[0], "" if n else " before it was answered"), loc); return
        if self.phase == "exec":
            self.ctx.count("request_paths")
            if n + q == 0: self.bad(E, st, "unanswered", "a path ends with the request neither answered nor queued", loc)
            if not q: self.leaks(E, st, loc)
        elif st.mon.get("popped"): self.worker_done(E, st)


def run(ctx):
    ctx.rule("from Server::schedule_execute, for every outcome of every user callback (return, Fault, Exception, std::exception, HTTP error, foreign exception), each path schedules exactly one response on the request's connection or queues exactly one executor; a worker taking that executor schedules exactly one")
    ctx.rule("failed requests are answered by a fault or a status >= 400, successful ones by status 200 holding the value the method filled in; a Fault keeps its code and text")
    ctx.rule("packet, request, method, executor and response packet are destroyed exactly once on each path")
    s = Session(ctx, None)
    mon = s.mon = s.E.mon = Mon(ctx, s)
    s.E.throw_user = THROWS
    s.E.boundary = {"iqxmlrpc::Binary_data::from_base64": None, "iqxmlrpc::http::Response_header::current_date": [],
                    "iqxmlrpc::http::Header::get_xheaders": None}
    for a, n in (("is_fault", "is_fault"), ("fcode", "fault_code"), ("fstr", "fault_string"), ("value", "value")):
        setattr(mon, a, s.fn("iqxmlrpc::Response::" + n))
    server, pkt, conn = s.sym("server"), s.sym("packet"), s.sym("connection")
    mon.conn = conn
    st0 = s.blank(); st0.frames = []
    for v in (pkt, conn, server): s.E.assume(st0, as_bool(v), True)
    st0.mon["made"] = frozenset({("request packet", ("S", pkt))})
    mon.phase = "exec"
    ends = s.run(s.fn("iqxmlrpc::Server::schedule_execute"), [server, pkt, conn], st0)
    queued = [st for k, v, st in ends if k == "ret" and st.mon.get("queued")]
    ctx.need("hand_overs_to_pool"); ctx.need("responses_scheduled", 4); ctx.need("method_faults")
    ctx.count("queued_states", len(queued))
    mon.phase = "worker"
    s.E.shared_havoc = lambda st, stamp: None
    entry = worker_entry(s)
    th = s.sym("thread")
    seen = set()
    for st in queued:
        s.run(entry, [th], st)
    ctx.need("worker_paths")
    ctx.assume("memory allocation succeeds; the XML writer fails only when memory runs out")
    ctx.assume("user code returns or throws; an interceptor is opaque (the chain itself is judged by S06)")
