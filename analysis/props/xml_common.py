"""Writing and reading XML: the XML library as an environment of the walks."""
import re
from checklib import *
from engine import Outcome, Stop, is_sym, is_ptr, ladd
from models import rd, wr, cstr, SC, SO, EMPTY

VALUE_TYPE = "iqxmlrpc::Value_type"
APPLY = "iqxmlrpc::Value_type::apply_visitor"
WRITER = "xmlTextWriter"
MARKUP = re.compile(r"^xmlTextWriter\w*(Raw|CDATA|Comment|PI|DTD|Entity|Notation)|^xmlBuffer(Add|Cat|CCat|Write|AddHead)|^xmlBufferWrite|^xmlOutputBufferWrite|^xmlNodeDump|^xmlDocDump")
NAME = re.compile(rb"^[A-Za-z_][\w.\-]*$")


def emit(st, *e):
    st.mon["dirty"] = 1
    if "out" in st.mon: st.mon["out"] += (tuple(e),)          # recorded on demand only


class WriterMon(Recorder):
    """the text writer: what is written, in which order, and whether a step failed"""
    failing = True

    def __init__(self, ctx, prop):
        super().__init__()
        self.ctx, self.prop = ctx, prop

    def bad(self, E, st, key, msg, loc=None):
        self.ctx.violation("%s %s" % (self.prop, key), loc or E.cur_loc(st), msg, st.trace_list())

    def result(self, E, st, what, ins, ok=None):
        """a step of the writer succeeds or fails"""
        outs = []
        if self.failing and not st.mon.get("failed") and not st.mon.get("unclosed"):
            x = st.fork()
            x.mon["failed"] = what
            x.note(E.cur_loc(x), "%s fails" % what)
            outs.append(Outcome("ret", x, -1))
        n = ("s", ("written", st.frames[-1].ctx, ins["id"]))
        E.assume(st, cmp_("lt", n, 0), False)
        return outs + [Outcome("ret", st, n)]

    def on_call(self, E, st, name, fn, args, ins):
        n = fn.name
        if not fn.decl or not n.startswith("xml"): return None
        self.ctx.count("xml_calls")
        if MARKUP.match(n):
            self.bad(E, st, "raw " + n, "text is put in a document by %s, which does not escape it" % n)
            return self.result(E, st, n, ins)
        if n == "xmlBufferCreate" or n == "xmlBufferCreateSize":
            return [Outcome("ret", st, ("s", ("arg", "xml buffer")))]
        if n == "xmlNewTextWriterMemory":
            x = st.fork()
            x.mon["failed"] = n
            w = ("s", ("arg", "xml writer"))
            E.assume(st, as_bool(w), True)
            return [Outcome("ret", st, w)] + ([Outcome("ret", x, 0)] if self.failing else [])
        if n.startswith("xmlNewTextWriter"):
            self.bad(E, st, "other writer", "a document is written by %s and not to memory" % n)
        if n in ("xmlTextWriterStartElement", "xmlTextWriterWriteElement", "xmlTextWriterWriteAttribute", "xmlTextWriterStartAttribute"):
            t = cstr(E, st, args[1])
            if t[0] != SC:
                self.bad(E, st, "name", "the name of an element is not a constant"); raise Stop("reported")
            if not NAME.match(t[1]): self.bad(E, st, "bad name", "%r is not the name of an element" % t[1])
            self.ctx.count("elements")
            outs = self.result(E, st, n, ins)
            if "Attribute" in n: emit(st, "attribute", t[1].decode()); return outs
            st.mon["open"] = st.mon.get("open", ()) + (t[1].decode(),)
            st.mon["root"] = 1
            emit(st, "open", t[1].decode())
            if n == "xmlTextWriterWriteElement":
                emit(st, "text", cstr(E, st, args[2])); self.close(E, st)
            return outs
        if n.startswith(("xmlTextWriterStart", "xmlTextWriterWriteElementNS", "xmlTextWriterWriteFormatElement")) and n != "xmlTextWriterStartDocument":
            self.bad(E, st, "unknown " + n, "%s is not understood" % n)
        if n in ("xmlTextWriterWriteString", "xmlTextWriterWriteBase64", "xmlTextWriterWriteBinHex"):
            self.ctx.count("texts")
            outs = self.result(E, st, n, ins)
            emit(st, "text", cstr(E, st, args[1]))
            return outs
        if n in ("xmlTextWriterEndElement", "xmlTextWriterFullEndElement"):
            if not st.mon.get("open"):
                # nothing is open: the writer reports it
                if not st.mon.get("ended"): self.extra(E, st)
                return [Outcome("ret", st, -1)]
            outs = self.result(E, st, n, ins)
            # an element whose end failed is closed when the document ends
            for o in outs:
                if o.v == -1: o.st.mon.pop("failed", None); o.st.mon["unclosed"] = 1
                self.close(E, o.st)
            return outs
        if n == "xmlTextWriterEndDocument":
            outs = self.result(E, st, n, ins)
            while st.mon.get("open"): self.close(E, st)
            st.mon["ended"] = 1
            return outs
        if n == "xmlTextWriterFlush":
            outs = self.result(E, st, n, ins)
            for o in outs: o.st.mon["dirty"] = 0
            return outs
        if n == "xmlTextWriterStartDocument": return self.result(E, st, n, ins)
        if n == "xmlFreeTextWriter":
            st.mon["dirty"] = 0
            return [Outcome("ret", st, None)]
        if n in ("xmlBufferContent", "xmlBufferDetach"):
            self.content(E, st)
            return [Outcome("ret", st, ("s", ("arg", "document")))]
        return E.opaque_pure(st, ins, n)

    def close(self, E, st):
        st.mon["open"] = st.mon.get("open", ())[:-1]
        emit(st, "close")

    def extra(self, E, st): self.bad(E, st, "not open", "an element is closed that is not open")

    def content(self, E, st):
        self.ctx.count("documents_read")
        if st.mon.get("open"): self.bad(E, st, "open", "a document is taken while elements of it are open: " + ", ".join(st.mon["open"]))
        if st.mon.get("unclosed") and not st.mon.get("ended"): self.bad(E, st, "open", "a document is taken although closing an element of it failed")
        if st.mon.get("dirty", 1): self.bad(E, st, "unflushed", "a document is taken before everything written has reached it")
        if st.mon.get("failed"): self.bad(E, st, "failure", "a document is taken although %s failed" % st.mon["failed"]); raise Stop("reported")


def visitor(s, st, server=None):
    """a serialising visitor on a writer"""
    v, b = s.sym("visitor"), s.sym("builder")
    for x in (v, b): s.E.assume(st, as_bool(x), True)
    c = s.fn("iqxmlrpc::Value_type_to_xml::Value_type_to_xml")
    from props.server_common import call_all
    outs = call_all(s, [st], c, [v, b, s.sym("server mode") if server is None else server])
    if len(outs) != 1: raise CheckError("constructing the serialiser forks")
    return v, outs[0]


def value_classes(s):
    """concrete classes of values -> their apply_visitor"""
    c = s.classes(VALUE_TYPE)
    if len(c) < 10: raise CheckError("anchor: only %d value types" % len(c))
    return {k: (vt, s.impl(vt, VALUE_TYPE, "apply_visitor")) for k, vt in sorted(c.items())}


# ------------------------------------------------------------------ reading
EL, END, TEXT, WS, CDATA, COMMENT, ERR = "el", "end", "text", "ws", "cdata", "comment", "err"
TYPE = {EL: 1, TEXT: 3, CDATA: 4, COMMENT: 8, WS: 14, END: 15}


def el(name, *kids):
    """an element as a list of nodes; no content: an empty-element tag"""
    if not kids: return [(EL, name, 1)]
    return [(EL, name, 0)] + [n for k in kids for n in (k if isinstance(k, list) else [k])] + [(END, name)]


def el2(name): return [(EL, name, 0), (END, name)]           # <name></name>


def text(t): return (TEXT, (SC, t) if isinstance(t, bytes) else t)


class ReaderEnv:
    """the text reader delivering one document, given as a list of nodes"""
    doc = ()

    def read_call(self, E, st, n, args, ins):
        if not n.startswith(("xmlTextReader", "xmlReader", "xmlFreeTextReader", "xmlGetNodePath", "xmlGetLastError", "xmlNewTextReader", "xmlCtxt")): return None
        self.ctx.count("reader_calls")
        pos = st.mon.get("pos", -1)
        def ret(v):
            if not isinstance(v, int): E.assume(st, as_bool(v), True)
            return [Outcome("ret", st, v)]
        cur = self.doc[pos] if 0 <= pos < len(self.doc) else None
        if n == "xmlTextReaderRead":
            if st.mon.get("broken"): return ret(-1)
            pos = min(pos + 1, len(self.doc))
            st.mon["pos"] = pos
            if pos == len(self.doc): return ret(0)
            self.ctx.count("nodes_read")
            if self.doc[pos][0] == ERR:
                st.mon["broken"] = 1
                return ret(-1)
            return ret(1)
        if n == "xmlTextReaderNodeType": return ret(TYPE.get(cur[0], 0) if cur else 0)
        if n == "xmlTextReaderIsEmptyElement": return ret(1 if cur and cur[0] == EL and cur[2] else 0)
        if n in ("xmlTextReaderName", "xmlTextReaderConstName", "xmlTextReaderLocalName", "xmlTextReaderConstLocalName"):
            if cur is None: return ret(0)
            v = cur[1].encode() if cur[0] in (EL, END) else {TEXT: b"#text", WS: b"#text", CDATA: b"#cdata-section", COMMENT: b"#comment"}.get(cur[0], b"")
            if "Local" in n: v = v.rsplit(b":", 1)[-1]
            return ret(("s", ("cstr", (SC, v))))
        if n in ("xmlTextReaderValue", "xmlTextReaderConstValue"):
            if cur is None or cur[0] in (EL, END, ERR): return ret(0)
            return ret(("s", ("cstr", cur[1] if len(cur) > 1 else (SC, b" "))))
        if n == "xmlTextReaderDepth":
            d = 0
            for x in self.doc[:pos + 1]: d += (x[0] == EL and not x[2]) - (x[0] == END)
            return ret(max(0, d - (1 if cur and cur[0] == EL and not cur[2] else 0)))
        if n.startswith(("xmlReaderFor", "xmlReaderNew", "xmlNewTextReader")):
            st.mon["pos"] = -1
            v = ("s", ("arg", "reader"))
            E.assume(st, as_bool(v), True)
            return ret(v)
        if n == "xmlGetNodePath": return ret(("s", ("cstr", (SO, ("node path",)))))
        if n == "xmlGetLastError": return ret(0)
        return E.opaque_pure(st, ins, n)
