"""H04: after an HTTP-level refusal the connection is closed."""
from props.reading import *

HTTP = "iqxmlrpc::http::"
# what has to be refused, where it is found out, and the exceptions that stand for the refusal
SOURCES = [
    (HTTP + "Request_header::Request_header", "a request whose method is not POST", ("Method_not_allowed",)),
    (HTTP + "Header::content_length", "a request without Content-Length", ("Length_required",)),
    (HTTP + "Header::content_length", "a request with a malformed Content-Length", ("Malformed_packet", "Bad_request")),
    (HTTP + "Header::parse", "a header line that is no option", ("Malformed_packet", "Bad_request")),
]
VALIDATORS = [("a malformed Content-Length", ("Malformed_packet", "Bad_request")), ("an unknown expectation", ("Expectation_failed",)),
              ("an unsupported content type", ("Unsupported_content_type",))]


def zti(n): return "_ZTIN8iqxmlrpc4http%d%sE" % (len(n), n)


class Mon(ReadMon):
    refusing = False

    def recv(self, E, st, args, ins):
        if st.mon.get("gone"):
            self.bad(E, st, "read on", "the connection is read again after a request on it was refused (the rest of that request would be taken for a new one)")
            raise Stop("reported")
        st.mon["reads"] = 0
        st.mon.pop("chunks", None); st.mon.pop("T", None)
        return super().recv(E, st, args, ins)

    def refused(self, E, st):
        super().refused(E, st)
        st.mon["gone"] = zti("Request_too_large")

    def on_call(self, E, st, name, fn, args, ins):
        if fn.decl and name in SEND:
            if st.mon.get("gone"): st.mon["sent"] = 1
            return [Outcome("ret", st, args[2])]
        if name == "iqxmlrpc::Server::schedule_execute" and st.mon.get("gone"):
            self.bad(E, st, "executed", "a request that was refused is handed over for execution")
            raise Stop("reported")
        if fn.cd and name == "iqxmlrpc::http::Error_response::Error_response": return None
        if name in (HTTP + "Header::set_content_length", HTTP + "Header::set_option", HTTP + "Header::set_conn_keep_alive"): return [Outcome("ret", st, None)]
        if fn.decl and name == "SSL_shutdown": return [Outcome("ret", st, 1)]
        if fn.decl and name == "SSL_get_shutdown":
            return [Outcome("ret", st, 0)]
        if name == "iqxmlrpc::Server_connection::schedule_response" and self.phase == "read":
            self.answer(E, st, args[1])
        return super().on_call(E, st, name, fn, args, ins)

    def answer(self, E, st, packet):
        self.ctx.count("answers")
        st.mon["answered"] = st.mon.get("answered", 0) + 1
        s = self.s
        _, hs = s.eval(st, s.fn("iqxmlrpc::http::Packet::header"), [packet])
        for h in hs:
            codes = s.eval(st, s.fn("iqxmlrpc::http::Response_header::code"), [h])[1]
            for c in codes:
                if isinstance(c, int):
                    if not 400 <= c <= 599:
                        self.bad(E, st, "status", "a refused request is answered with status %d" % c)
                elif "('exc'" not in repr(h) + repr(c) and "('arg', 'refusal" not in repr(h) + repr(c):
                    self.bad(E, st, "other answer", "the answer to a refused request is not the response of the error that was raised")


class Reg(Recorder):
    def __init__(self):
        super().__init__()
        self.regs, self.fns = [], {}

    def on_call(self, E, st, name, fn, args, ins):
        if name.startswith("boost::function") and fn.cd and len(args) > 1 and isinstance(args[1], tuple) and args[1][0] == "F":
            self.fns[args[0]] = args[1]
        if name == HTTP + "Header::register_validator":
            self.regs.append((models.const_str(rd(E, st, args[1])), self.fns.get(args[2], args[2]), args[3]))
            return [Outcome("ret", st, None)]
        return None


class Called(Recorder):
    def on_call(self, E, st, name, fn, args, ins):
        if name.startswith("boost::function1::operator()"):
            q = E.norm_ptr(args[0])
            st.mon["called"] = st.mon.get("called", frozenset()) | {q[0] if q else None}
            return [Outcome("ret", st, None)]
        return None


def applied(ctx):
    """storing a parsed option runs every validator registered for it whose level is not above the configured one"""
    s = Session(ctx, None)
    E = s.E
    s.mon = E.mon = Called()
    E.boundary = {HTTP + "Header::set_option": []}
    f = s.fn(HTTP + "Header::set_option_checked")
    st = s.blank(); st.frames = []
    ran = 0
    for k, v, x in s.run(f, [s.sym("header"), s.sym("name"), s.sym("value")], st):
        if k != "ret": continue
        called = x.mon.get("called", frozenset())
        ran += len(called)
        for dr in list(x.facts):
            if not (isinstance(dr, tuple) and len(dr) == 2 and all(isinstance(d, tuple) and len(d) == 2 for d in dr)): continue
            flds = [t for t, _ in dr if isinstance(t, tuple) and t[0] == "s" and t[1][0] == "fld"]
            node = [t for t in flds if t[1][1][0] == "S" and isinstance(t[1][1][1], tuple) and t[1][1][1][1][0] == "node"]
            if len(flds) != 2 or len(node) != 1 or node[0][1][1] in called: continue
            y = x.fork()
            if E.assume(y, cmp_("eq", flds[0], flds[1]), True):
                ctx.violation("H04 validator skipped", "%s:%s" % (f.file, f.line), "an option is stored without running a validator registered for the configured level", x.trace_list())
    ctx.count("validators_run", ran)
    if not ran: ctx.violation("H04 validators unused", "%s:%s" % (f.file, f.line), "options are stored without running their validators")


def detection(ctx):
    """the method and the validators of options"""
    s = Session(ctx, None)
    E = s.E
    ctors = [x for x in s.fn(HTTP + "Request_header::Request_header", many=True) if "Verification_level" in x.dem]
    if len(ctors) != 1: raise CheckError("anchor: no parsing constructor of the request header")
    s.mon = E.mon = Recorder()
    E.boundary = {HTTP + "Header::Header": [], HTTP + "Header::parse": None, HTTP + "Header::set_option_default": [], HTTP + "Error_response::Error_response": []}
    st = s.blank(); st.frames = []
    for k, v, x in s.run(ctors[0], [s.sym("header"), s.sym("level"), s.sym("text")], st):
        if k != "ret": continue
        ctx.count("accepted_headers")
        post = [q for d, q in x.facts.items() if isinstance(d, tuple) and d[0] == "ub" and isinstance(d[1], tuple) and d[1][0] == "streq" and (SC, b"POST") in d[1]]
        if True not in post:
            ctx.violation("H04 method", ctors[0].file + ":" + str(ctors[0].line), "a request header is accepted on a path where its method was not found to be POST", x.trace_list())
    s = Session(ctx, None)
    s.mon = s.E.mon = reg = Reg()
    s.E.boundary = {HTTP + "Header::set_option_default": []}
    base = [x for x in s.fn(HTTP + "Header::Header", many=True) if "Verification_level" in x.dem]
    if len(base) != 1: raise CheckError("anchor: no constructor of the header")
    st = s.blank(); st.frames = []
    s.run(base[0], [s.sym("header"), s.sym("level")], st)
    for opt, top, wants, what in ((b"content-length", 0, ("Malformed_packet", "Bad_request"), "a malformed Content-Length"), (b"expect", 0, ("Expectation_failed",), "an unknown expectation"),
                                  (b"content-type", 1, ("Unsupported_content_type",), "an unsupported content type")):
        ctx.count("validators")
        ok = False
        loc = lambda f: "%s:%s" % (f.file, f.line)
        for n, f, lev in reg.regs:
            if n == opt and isinstance(f, tuple) and f[0] == "F":
                accepts(ctx, Session(ctx, None), opt, f[1], {b"expect": b"100-continue", b"content-type": b"text/xml"}.get(opt), loc)
            if n == opt and isinstance(f, tuple) and f[0] == "F" and isinstance(lev, int) and lev <= top:
                s.E.escapes(s.prog.funcs[f[1]])
                if s.E.esc.of(f[1]) & {zti(w) for w in wants}: ok = True
        if not ok:
            ctx.violation("H04 validator " + opt.decode(), base[0].file + ":" + str(base[0].line), "%s is not refused: no validator of the option %s raises %s" % (what, opt.decode(), "/".join(wants)))


def mentions(t, what):
    return t == what or isinstance(t, tuple) and any(mentions(x, what) for x in t)


def opaque(t):
    return isinstance(t, tuple) and (bool(t) and isinstance(t[0], str) and t[0].startswith("ret:") or any(opaque(x) for x in t))


def accepts(ctx, s, opt, fname, want, loc):
    """what the validator lets pass: -> whether no returning path lacks the test that is wanted"""
    s.mon = s.E.mon = Recorder()
    s.E.boundary = {HTTP + "Error_response::Error_response": []}
    val = s.sym("value")
    st = s.blank(); st.frames = []
    for k, v, x in s.run(s.prog.funcs[fname], [val], st):
        if k != "ret": continue
        ctx.count("accepting_paths")
        yes = [d for d, q in x.facts.items() if mentions(d, val) and (q is True if isinstance(d, tuple) and d[0] == "ub" else True)]
        if want is None: ok = any(not mentions(d, "lexok") for d in yes)
        else: ok = any(mentions(d, (SC, want)) or opaque(d) for d in yes)
        if not ok:
            ctx.violation("H04 accepted " + opt.decode(), loc(s.prog.funcs[fname]), "the validator of the option %s returns on a path where the value was not found to be %s" % (
                opt.decode(), "a number (digits only)" if want is None else want.decode()), x.trace_list())
            return


def lines(ctx):
    """no header is accepted in which a line without a colon was seen"""
    s = Session(ctx, None)
    s.mon = s.E.mon = Recorder()
    s.E.boundary = {HTTP + "Header::set_option_checked": []}
    f = s.fn(HTTP + "Header::parse")
    st = s.blank(); st.frames = []
    for k, v, x in s.run(f, [s.sym("header"), s.sym("text")], st):
        if k != "ret": continue
        ctx.count("accepted_headers")
        for d, q in x.facts.items():
            if isinstance(d, tuple) and d[0] == "ub" and isinstance(d[1], tuple) and d[1][0] == "has" and d[1][2] == (SC, b":") and q is False and not entails(s.E, x, cmp_("eq", slen(d[1][1]), 0)):
                ctx.violation("H04 line", "%s:%s" % (f.file, f.line), "a header is accepted although a line of it was found to have no colon", x.trace_list())
                return


def run(ctx):
    detection(ctx)
    lines(ctx)
    applied(ctx)
    ctx.rule("every error the header parser, the length check and the reader can raise in handle_input of a server connection is followed to its end: exactly one error response is scheduled, nothing is executed")
    ctx.rule("from then on, whatever event the loop was asked to watch happens, the connection is not read again, and when the response has been sent it ends (or enters the TLS shutdown, which ends it)")
    ctx.rule("each kind of refusal is raised by the code that has to detect it")
    s0 = Session(ctx, None)
    E0 = s0.E
    for fname, what, wants in SOURCES:
        fns = [f for f in s0.fn(fname, many=True) if not f.decl]
        if fname.endswith("Request_header"): fns = [f for f in fns if "Verification_level" in f.dem]
        if not fns: raise CheckError("anchor: %s not found" % fname)
        ctx.count("refusal_sources")
        for f in fns:
            E0.escapes(f)
            if not E0.esc.of(f.name) & {zti(w) for w in wants}:
                ctx.violation("H04 never raised " + wants[0], fname, "%s is not refused: %s raises none of %s" % (what, fname, "/".join(wants)))
    for what, wants in VALIDATORS:
        ctx.count("refusal_sources")
        fns = [f for f in s0.prog.funcs.values() if not f.decl and E0.esc.of(f.name) & {zti(w) for w in wants}]
        if not fns:
            ctx.violation("H04 never raised " + wants[0], HTTP + "validator", "%s is not refused: nothing raises %s" % (what, "/".join(wants)))
    for cls, ctor in server_classes(s0):
        what = cls.rsplit("::")[-1]
        for limit in (("s", ("arg", "M")),):
            s, mon, sts = world(ctx, cls, ctor, lambda s: Mon(ctx, s, "H04", what, limit), limit)
            s.E.boundary.pop("iqxmlrpc::http::Packet::set_keep_alive", None)
            s.E.boundary.pop("iqxmlrpc::http::Error_response::Error_response", None)
            s.E.boundary["iqxmlrpc::http::Header::set_conn_keep_alive"] = []
            s.E.boundary["iqxmlrpc::http::Response_header::current_date"] = []
            s.E.boundary["iqxmlrpc::http::Header::Header"] = []
            first = drive(ctx, s, mon, sts, what)
            # the same after a request that was answered and kept the connection
            kept = [new_message(x) for x in answer(s, mon, first[:3])]
            if not kept: raise CheckError("no path leads to a second request on a %s connection" % what)
            for x in kept: x.mon.pop("answered", None)
            drive(ctx, s, mon, kept, what)
    for n in ("refusals_followed", "answers", "refusal_sources"): ctx.need(n, 4)


def drive(ctx, s, mon, sts, what):
    E = s.E
    term = s.sym("terminate")

    def event(st, meth):
        st = new_call(st.fork())
        st.mem[(("S", term), 0)] = 0
        return s.run(handler_impl(s, st, mon.conn, meth), [mon.conn, term], st)
    cur = sts
    gone, executed = [], []
    for turn in range(4):
        nxt = []
        for st in cur:
            w = st.mon.get("watch", 0)
            for bit, meth in ((1, "handle_input"), (2, "handle_output")):
                if not w & bit: continue
                for k, v, x in event(st, meth):
                    if not x.mon.get("gone"):
                        if k == "ret": (executed if x.mon.get("executed") else nxt).append(x)
                        continue
                    t = x.mon["gone"]
                    ctx.count("refusals_followed")
                    ctx.sample("%s: %s refused" % (what, t))
                    if k == "throw":
                        mon.bad(E, x, "unanswered " + str(t), "an error raised while reading a request (%s) leaves handle_input: the peer gets no error response" % t, what + " connection: " + meth)
                    elif x.mon.get("answered") != 1:
                        mon.bad(E, x, "answers", "a refused request gets %s responses" % x.mon.get("answered", 0), what + " connection: " + meth)
                    elif x.mem.get((("S", term), 0)) != 0:
                        mon.bad(E, x, "ended unsent", "the connection of a refused request ends before the response was sent", what + " connection: " + meth)
                    else: gone.append(x)
        cur = nxt[:24]
    # after the refusal
    done = 0
    seen = {}
    for turn in range(6):
        nxt = []
        for st in gone:
            key = (st.mon.get("watch", 0), st.mon.get("sent"), turn)
            if seen.setdefault(key, 0) >= 6: continue
            seen[key] += 1
            w = st.mon.get("watch", 0)
            if not w:
                mon.bad(E, st, "stuck", "after the refusal the connection is watched for nothing and never ends", what + " connection")
                continue
            for bit, meth in ((1, "handle_input"), (2, "handle_output")):
                if not w & bit: continue
                for k, v, x in event(st, meth):
                    if k == "throw": continue
                    tv = x.mem.get((("S", term), 0))
                    if tv == 1:
                        if not x.mon.get("sent"): mon.bad(E, x, "ended unsent", "the connection of a refused request ends before the response was sent", what + " connection: " + meth)
                        done += 1
                        ctx.count("closings")
                        continue
                    nxt.append(x)
        gone = nxt
    if not done: mon.bad(E, sts[0], "not closed", "no path closes the connection after the response to a refused request", what + " connection")
    for x in gone[:1]:
        mon.bad(E, x, "kept", "after the response to a refused request the connection stays open", what + " connection")
    return executed
