"""X02: no value or name can break out of the generated XML."""
from props.xml_common import *
from props.server_common import call_all
from props.x01 import sites


class Mon(WriterMon):
    def on_virtual(self, E, st, name, args, ins, cands):
        if name == APPLY:
            # induction: every value type is walked on its own below
            self.ctx.count("nested_values")
            emit(st, "value")
            outs = [Outcome("ret", st, None)]
            if self.failing:
                x = st.fork()
                x.mon["failed"] = "writing a nested value"
                outs.append(Outcome("throw", x, ("_ZTIN8iqxmlrpc14XmlBuild_errorE", ("s", ("nested error",)))))
            return outs
        if "::~" in name: return [Outcome("ret", st, None)]
        return None

    def on_end(self, E, st, kind, v):
        super().on_end(E, st, kind, v)
        if self.phase == "quiet": return
        self.ctx.count("ends_" + kind)
        if kind != "ret": return
        if st.mon.get("failed"):
            self.bad(E, st, "failure ignored", "%s failed, yet writing ends without an error" % st.mon["failed"], self.where)
        if self.phase == "part" and st.mon.get("open"):
            self.bad(E, st, "unbalanced", "elements are left open: " + ", ".join(st.mon["open"]), self.where)
        if self.phase == "whole":
            t = rd(E, st, self.out)
            if not whole(t):
                self.bad(E, st, "not the document", "the generated text is not the content of the writer", self.where)
            if not st.mon.get("root"): self.bad(E, st, "empty", "a document without an element is generated", self.where)


def whole(t):
    if t[0] != SO: return False
    if t[1][0] == "memstr": return ("s", ("arg", "document")) in t[1][1] and not isinstance(t[1][2], int)
    return t[1][0] == "chars" and t[1][1] == ("s", ("arg", "document"))


class Carry(Recorder):
    """generated documents travel unchanged"""
    def __init__(self, ctx, doc):
        super().__init__()
        self.ctx, self.doc = ctx, doc

    def on_virtual(self, E, st, name, args, ins, cands): return E.opaque_pure(st, ins, name)

    def on_call(self, E, st, name, fn, args, ins):
        if name in ("iqxmlrpc::dump_request", "iqxmlrpc::dump_response"):
            wr(E, st, args[0], self.doc)
            return [Outcome("ret", st, None)]
        if fn.cd and name == "iqxmlrpc::http::Packet::Packet" and len(args) == 3:
            self.ctx.count("packets")
            if rd(E, st, args[2]) != self.doc:
                self.ctx.violation("X02 carried", E.cur_loc(st), "what is sent is not the generated document", st.trace_list())
            return [Outcome("ret", st, None)]
        return None


def carried(ctx):
    doc = (SO, ("generated document",))
    for name in ("iqxmlrpc::Client_connection::process_session", "iqxmlrpc::Server::schedule_response"):
        s = Session(ctx, None)
        E = s.E
        s.mon = E.mon = Carry(ctx, doc)
        E.boundary = {n: [] for n in ("iqxmlrpc::http::Response_header::Response_header", "iqxmlrpc::http::Request_header::Request_header", "iqxmlrpc::http::Packet::dump", "iqxmlrpc::parse_response",
                                      "iqxmlrpc::http::Packet::set_keep_alive", "iqxmlrpc::http::Header::set_xheaders", "iqxmlrpc::http::Request_header::set_authinfo", "iqxmlrpc::http::Packet::~Packet",
                                      "iqxmlrpc::http::Error_response::Error_response", "iqnet::Inet_addr::get_host_name", "iqnet::Inet_addr::get_port", "iqxmlrpc::Executor::~Executor")}
        f = s.fn(name)
        st = s.blank(); st.frames = []
        args = [s.sym("c%d" % k) for k in range(f.nargs)]
        for a in args: E.assume(st, as_bool(a), True)
        s.run(f, args, st)
    ctx.need("packets", 2)


def run(ctx):
    ctx.rule("the writers of requests, responses and of every value type are walked with each step of the XML writer succeeding or failing: element names are constants, text goes only through escaping calls, no call that writes markup or raw text is used")
    ctx.rule("every part leaves as many elements open as it found; a document is taken only when all elements are closed and everything is flushed, and never after a failed step; the result is the writer's content")
    ctx.rule("what is put in an HTTP message is the generated document")
    # requests and responses
    for name in ("iqxmlrpc::dump_request", "iqxmlrpc::dump_response"):
        s = Session(ctx, None)
        E = s.E
        mon = s.mon = E.mon = Mon(ctx, "X02")
        mon.where, mon.phase = name, "whole"
        E.boundary = {"iqxmlrpc::Struct::insert": [], "iqxmlrpc::Struct::Struct": [], "iqxmlrpc::Struct::~Struct": [], "iqxmlrpc::Value::~Value": [], "iqxmlrpc::Value::Value": []}
        out, r = s.sym("text"), s.sym("message")
        mon.out = out
        st = s.blank(); st.frames = []
        for v in (out, r): E.assume(st, as_bool(v), True)
        s.run(s.fn(name), [out, r], st)
    # values
    s = Session(ctx, None)
    E = s.E
    mon = s.mon = E.mon = Mon(ctx, "X02")
    for cls, (vt, impl) in value_classes(s).items():
        mon.phase = "quiet"
        st = s.blank(); st.frames = []
        v, st = visitor(s, st)
        val = s.sym("value")
        E.assume(st, as_bool(val), True)
        s.set_class(st, val, cls)
        mon.phase, mon.where = "part", "writing a " + cls
        E.boundary = {"iqxmlrpc::Binary_data::encode": []}
        ends = s.run(impl, [val, v], st)
        if not any(k == "ret" for k, _, _ in ends): raise CheckError("writing a %s never ends" % cls)
        ctx.count("value_types")
    # and the element around a value
    mon.phase = "quiet"
    st = s.blank(); st.frames = []
    v, st = visitor(s, st)
    mon.phase, mon.where = "part", "writing a value"
    val = s.sym("value")
    s.run(s.fn("iqxmlrpc::Value_type_visitor::visit_value"), [v, val], st)
    for n, l in sorted(sites(s).items()):
        if MARKUP.match(n):
            for f, i in l: ctx.violation("X02 raw " + n, "%s:%s" % tuple(E.loc(i)) if isinstance(E.loc(i), tuple) else E.loc(i), "text is put in a document by %s, which does not escape it" % n)
    carried(ctx)
    for n, k in (("value_types", 10), ("elements", 15), ("texts", 8), ("documents_read", 2), ("ends_ret", 12), ("ends_throw", 4)): ctx.need(n, k)
    ctx.assume("xmlTextWriterWriteString escapes its text (libxml)")
