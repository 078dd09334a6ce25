"""K03: only an HTTP 200 response with a body can become a result."""
import models
from props.client_common import *
from props.k01 import CallMon, SESSION

PARSE = "iqxmlrpc::parse_response"


def code_of(s, st, packet):
    """term of the HTTP status of a packet"""
    ends, h = s.eval(st, s.fn("iqxmlrpc::http::Packet::header"), [packet])
    if len(h) != 1: raise CheckError("the header of a packet is not readable")
    h = next(iter(h))
    e2, c = s.eval(st, s.fn("iqxmlrpc::http::Response_header::code"), [h])
    e3, p = s.eval(st, s.fn("iqxmlrpc::http::Response_header::phrase"), [h])
    if len(c) != 1 or len(p) != 1: raise CheckError("the status of a packet is not readable")
    return next(iter(c)), rd(s.E, st, next(iter(p)))


class Status(Recorder):
    """one call on a connection: a session that delivers a packet, then what becomes of it"""
    def __init__(self, ctx, s):
        super().__init__()
        self.ctx, self.s = ctx, s

    def bad(self, E, st, key, msg, loc=None):
        self.ctx.violation("K03 " + key, loc or E.cur_loc(st), msg, st.trace_list())

    def on_virtual(self, E, st, name, args, ins, cands):
        if name == SESSION: return self.session(E, st)
        return E.opaque_pure(st, ins, name)

    def session(self, E, st):
        E.assume(st, as_bool(self.packet), True)
        st.mon["session"] = st.mon.get("session", 0) + 1
        return [Outcome("ret", st, self.packet)]

    def on_call(self, E, st, name, fn, args, ins):
        if name == SESSION: return self.session(E, st)
        if name == PARSE:
            self.ctx.count("parses")
            if not st.mon.get("session"): self.bad(E, st, "early", "a response is parsed before one was received")
            c, ph = code_of(self.s, st, self.packet)
            if E.decide(st, cmp_("eq", c, 200)) is not True:
                self.bad(E, st, "status", "a response is parsed whose HTTP status may be other than 200")
            ends, v = self.s.eval(st, self.s.fn("iqxmlrpc::http::Packet::content"), [self.packet])
            if rd(E, st, args[-1]) not in {rd(E, st, x) for x in v}:
                self.bad(E, st, "content", "what is parsed is not the body of the response")
            st.mon["parsed"] = E.norm_ptr(args[0])
            outs = [Outcome("ret", st, None)]
            for t in sorted(E.escapes(fn)):
                x = st.fork(); x.mon["refused"] = 1
                outs.append(Outcome("throw", x, (t, ("s", ("exc", t)))))
            return outs
        if fn.cd and name == "iqxmlrpc::http::Error_response::Error_response" and len(args) == 3:
            c, ph = code_of(self.s, st, self.packet)
            self.ctx.count("status_errors")
            if ladd(args[2], c, -1) != 0: self.bad(E, st, "error code", "the HTTP error does not carry the status of the response")
            if rd(E, st, args[1]) != ph: self.bad(E, st, "error text", "the HTTP error does not carry the text of the response")
            st.mon["http error"] = 1
            return [Outcome("ret", st, None)]
        if fn.cd and name == "iqxmlrpc::Response::Response" and st.mon.get("session") and len(args) > 1 and not self.copy(fn):
            self.bad(E, st, "invented", "a result is made that was not parsed from the response")
        return None

    def copy(self, fn): return "Response const&" in fn.dem or "Response&&" in fn.dem

    def on_end(self, E, st, kind, v):
        super().on_end(E, st, kind, v)
        if not st.mon.get("session"): return
        self.ctx.count("calls_" + kind)
        c, ph = code_of(self.s, st, self.packet)
        ok = E.decide(st, cmp_("eq", c, 200))
        if kind == "ret" and (ok is not True or not st.mon.get("parsed")):
            self.bad(E, st, "result", "a call returns a result although the HTTP status may be other than 200", "a client call")
        if kind == "throw" and ok is False and not st.mon.get("http error"):
            self.bad(E, st, "other error", "a status other than 200 does not raise the HTTP error", "a client call")
        if kind == "throw" and ok is True and not st.mon.get("refused"):
            self.bad(E, st, "refused", "a response with status 200 is refused for its status", "a client call")


def status(ctx):
    s = Session(ctx, None)
    E = s.E
    s.mon = E.mon = mon = Status(ctx, s)
    E.boundary = {"iqnet::Inet_addr::get_host_name": [], "iqnet::Inet_addr::get_port": [], "iqxmlrpc::dump_request": [], "iqxmlrpc::http::Request_header::Request_header": [],
                  "iqxmlrpc::http::Packet::dump": [], "iqxmlrpc::http::Packet::set_keep_alive": [], "iqxmlrpc::http::Header::set_xheaders": [], "iqxmlrpc::http::Request_header::set_authinfo": [],
                  "iqxmlrpc::http::Header::set_content_length": [], "iqxmlrpc::http::Header::~Header": [], "iqxmlrpc::http::Packet::~Packet": []}
    mon.packet = s.sym("response packet")
    conn, out, req, xh = (s.sym(x) for x in ("connection", "result", "request", "headers"))
    st = s.blank(); st.frames = []
    for v in (conn, out, req, xh): E.assume(st, as_bool(v), True)
    s.run(s.fn("iqxmlrpc::Client_connection::process_session"), [out, conn, req, xh], st)
    for n in ("parses", "status_errors", "calls_ret", "calls_throw"): ctx.need(n, 1)


# ---- end of stream, and the answer of a proxy
class Ends(SessMon):
    def environment(self, E, st, name, fn, args, ins):
        if fn.cd and name == "iqxmlrpc::http::Error_response::Error_response" and len(args) == 3: self.ctx.count("proxy_refusals")
        if fn.decl and name in ("recv", "SSL_read") and st.mon.get("eof"):
            self.bad(E, st, "reading on", "the session goes on reading after the end of the stream"); raise Stop("reported")
        if fn.decl and name == "SSL_connect":
            n = st.mon.get("packets", 0)
            if n:
                # a tunnel through a proxy: the proxy must have agreed
                self.ctx.count("tunnels")
                c, ph = code_of(self.s, st, ("s", ("arg", "packet", n, "header only", st.mon.get("session", 0))))
                if E.decide(st, cmp_("eq", c, 200)) is not True:
                    self.bad(E, st, "proxy status", "the session goes on although the proxy's answer may have a status other than 200"); raise Stop("reported")
        return super().environment(E, st, name, fn, args, ins)

    def reads(self, E, st, fn, args, ins):
        if st.mon.get("eof"):
            self.bad(E, st, "text after end", "the reader is given text although nothing was received"); raise Stop("reported")
        return super().reads(E, st, fn, args, ins)

    def text(self, E, st, p):
        """the text given to the reader is what was received"""
        q, n, k = st.mon.get("last read", (None, None, None))
        t = rd(E, st, p)
        if q is None or t[0] != SO or t[1][0] != "memstr" or ("received", k) not in t[1][1] or ladd(t[1][2], n, -1) != 0:
            self.bad(E, st, "text", "the text given to the reader is not what was received")
        self.ctx.count("texts")


def streams(ctx):
    s0 = Session(ctx, None)
    for cls, ctor in client_classes(s0):
        what = cls.rsplit("::")[-1]
        got = 0
        for n, s, mon, ends in client_session(ctx, cls, lambda s: Ends(ctx, s, "K03", what), sessions=1, events=6 if "proxy" in cls else 4):
            for k, v, x in ends:
                if x.mon.get("eof"): ctx.count("ends_of_stream")
                if k != "ret": continue
                got += 1
                loc = what + ": session"
                if x.mon.get("eof"): mon.bad(s.E, x, "end of stream", "a session ends normally although the stream ended before the response was complete", loc)
                if not (is_sym(v) and v[1][:2] == ("arg", "packet") and v[1][3] == "full"):
                    mon.bad(s.E, x, "no packet", "a session returns something other than a complete response", loc)
        if not got: raise CheckError("a session on a %s never ends" % what)
        ctx.count("connection_classes")
    for n, k in (("connection_classes", 4), ("ends_of_stream", 4), ("texts", 6), ("tunnels", 1)): ctx.need(n, k)


# ---- reading the value of a response
class Value_(Recorder):
    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx


def values(ctx):
    s = Session(ctx, None)
    E = s.E
    s.mon = E.mon = Value_(ctx)
    r, txt, code, val = (s.sym(x) for x in ("response", "fault text", "fault code", "value"))
    ctor = s.fn("iqxmlrpc::Response::Response", 2)
    get = s.fn("iqxmlrpc::Response::value")
    isf = s.fn("iqxmlrpc::Response::is_fault")
    T = (SO, ("fault text",))
    st = s.blank(); st.frames = []
    for v in (r, txt, val): E.assume(st, as_bool(v), True)
    wr(E, st, txt, T)

    def bad(x, key, msg): ctx.violation("K03 " + key, "Response::value", msg, x.trace_list())
    for x in call_all(s, [st], ctor, [r, code, txt]):
        e, f = s.eval(x, isf, [r])
        if f != {1}: bad(x, "fault unknown", "a response made from a fault does not say that it is one")
        for k, v, y in s.run(get, [r], x.fork()):
            ctx.count("fault_reads")
            if k != "throw": bad(y, "fault value", "reading the value of a fault yields a value"); continue
            ex = v[1]
            if v[0] not in FAULTS: bad(y, "fault type", "reading the value of a fault raises %s and not the fault" % v[0])
            e, c = s.eval(y, s.fn("iqxmlrpc::Exception::code"), [ex])
            if {repr(z) for z in c} != {repr(code)}: bad(y, "fault code", "the raised fault does not carry the code of the response")
            t = models.what_of(E, y, ex)
            if t != T: bad(y, "fault text", "the raised fault does not carry the text of the response")
    one = s.fn("iqxmlrpc::Response::Response", 1, pred=lambda f: "Value*" in f.dem)
    for x in call_all(s, [st], one, [r, val]):
        for k, v, y in s.run(get, [r], x.fork()):
            ctx.count("value_reads")
            if k != "ret" or v != val: bad(y, "value", "reading the value of a response does not yield it")
    for n in ("fault_reads", "value_reads"): ctx.need(n, 1)


# ---- the status line
HTTP = "iqxmlrpc::http::"


def token(i):
    """what a term says about the word of that number in the status line"""
    def f(t):
        if isinstance(t, tuple):
            if t[:2] == ("elt", i) or any(map(f, t)): return True
        return False
    return f


def lines(ctx):
    """the response header reads its status and its text from the line it was given"""
    s = Session(ctx, None)
    E = s.E
    s.mon = E.mon = Recorder()
    c = s.fn(HTTP + "Response_header::Response_header", pred=lambda f: "Verification_level" in f.dem)
    E.boundary = {HTTP + "Header::Header": [], HTTP + "Header::parse": [], HTTP + "Header::set_option_default": [], HTTP + "Error_response::Error_response": []}
    h = s.sym("header")
    st = s.blank(); st.frames = []
    E.assume(st, as_bool(h), True)

    def bad(x, key, msg): ctx.violation("K03 " + key, c.loc() if hasattr(c, "loc") else c.dem.split("(")[0], msg, x.trace_list())
    words = set()
    for k, v, x in s.run(c, [h, s.sym("level"), s.sym("text")], st):
        if k != "ret": continue
        ctx.count("status_lines")
        e, codes = s.eval(x, s.fn(HTTP + "Response_header::code"), [h])
        e, ph = s.eval(x, s.fn(HTTP + "Response_header::phrase"), [h])
        if len(codes) != 1 or len(ph) != 1: raise CheckError("the status of a header is not readable")
        code, ph = next(iter(codes)), rd(E, x, next(iter(ph)))
        read = is_sym(code) and code[1][0] == "lexval"
        if read:
            ctx.count("status_read")
            if not token(1)(code): bad(x, "status read", "the status of a response is not read from the second word of its first line")
        elif E.decide(x, cmp_("eq", code, 200)) is not False:
            bad(x, "status invented", "a response whose status is not a number may count as one with status 200")
        if token(0)(ph) or token(1)(ph):
            bad(x, "text read", "the text of a response is made of the wrong words of its first line")
        n = 2
        while token(n)(ph): n += 1
        if n == 2 and ph != (SC, b""): bad(x, "text read", "the text of a response is not made of the words of its first line")
        sizes = [f for q, f in x.facts.items() if len(q) == 1 and is_sym(q[0][0]) and q[0][0][1][0] == "size" and q[0][1] == 1]
        if not any(f[1] <= n for f in sizes): bad(x, "text read", "the text of a response lacks words of its first line")
        words.add(n)
    if len(words) < 3 and not ctx.violations: raise CheckError("anchor: the words of a status line")
    ctx.need("status_read", 1)


# ---- a fault in a document
def faults(ctx):
    from props.x03 import Docs, VALUE, NUM, WORD, RESPONSE, plain
    from props.x03 import scene
    from props.x04 import MEMBER, FAULT, el

    @scene
    def fault(d, doc):
        w = d.w
        rets, bad, exc = d.response(doc)
        for r, x in rets:
            w.st = x
            ctx.count("faults_parsed")
            if w.call(w.find(RESPONSE, "is_fault"), r) != 1: d.bad("fault parsed", "a fault in a document may become an ordinary response")
            c = w.call(w.find(RESPONSE, "fault_code"), r)
            if ladd(c, ("s", ("arg", "number")), -1) != 0: d.bad("fault parsed code", "the code of a fault is not the one in the document")
            t = w.call(w.find(RESPONSE, "fault_string"), r)
            if plain(rd(w.E, w.st, t)) != (SO, ("word",)): d.bad("fault parsed text", "the text of a fault is not the one in the document")
    d = Docs(ctx, "K03")
    code, string = MEMBER(b"faultCode", VALUE(el("i4", NUM(32)))), MEMBER(b"faultString", VALUE(el("string", WORD)))
    for what, m in (("a fault", (code, string)), ("a fault, text first", (string, code))):
        fault(d, what, FAULT(VALUE(el("struct", *m))))
    ctx.need("faults_parsed", 2)


FAULTS = ("_ZTIN8iqxmlrpc5FaultE",)


def run(ctx):
    ctx.rule("a client call is walked from the packet its session delivers: parsing is reached only where the status term is known to be 200 and gets that packet's body; any other path raises the HTTP error made from that packet's status and text")
    ctx.rule("sessions of every client class: the reader is given exactly the received bytes, no session returns after the end of the stream, and a tunnel is used only after the proxy answered 200")
    ctx.rule("a response made from a fault raises a fault with that code and text on every path that reads its value")
    ctx.rule("the status is the number read from the second word of the first line, never 200 where there is none, and the text is the remaining words; a parsed fault is a fault with the document's code and text")
    status(ctx)
    streams(ctx)
    values(ctx)
    lines(ctx)
    faults(ctx)
