"""X01: parsing a document never fetches or expands external entities."""
import re
from checklib import *
from engine import Outcome, Stop

ENTRIES = ("iqxmlrpc::parse_request", "iqxmlrpc::parse_response")
NONET = 1 << 11
FORBIDDEN = {"entity substitution": 1 << 1, "external DTD loading": 1 << 2, "DTD attribute defaults": 1 << 3, "DTD validation": 1 << 4, "XInclude": 1 << 10}
PROPS = {1: "external DTD loading", 2: "DTD attribute defaults", 3: "DTD validation", 4: "entity substitution"}

# every way libxml offers to start reading a document; position of the options argument of those that take one
OPTIONS = {"xmlReaderForMemory": 4, "xmlReaderForDoc": 3, "xmlReaderForFile": 2, "xmlReaderForFd": 4, "xmlReaderForIO": 6, "xmlReaderWalker": None,
           "xmlReaderNewMemory": 5, "xmlReaderNewDoc": 4, "xmlReaderNewFile": 3, "xmlReaderNewFd": 5, "xmlReaderNewIO": 7, "xmlTextReaderSetup": 4,
           "xmlReadMemory": 4, "xmlReadDoc": 3, "xmlReadFile": 2, "xmlReadFd": 4, "xmlReadIO": 6,
           "xmlCtxtReadMemory": 5, "xmlCtxtReadDoc": 4, "xmlCtxtReadFile": 3, "xmlCtxtReadFd": 5, "xmlCtxtReadIO": 7}
PARSE = re.compile(r"^(xml(Reader(For|New)|Read(Memory|Doc|File|Fd|IO)$|CtxtRead|NewTextReader|TextReaderSetup|Parse(Doc|File|Memory|Entity|Chunk|DTD|Balanced|InNode|External|Ext|Document|Ctxt)|"
                   r"SAX(Parse|User|2?Ext)|Create(\w*)Parser(Ctxt)?|Recover|LoadCatalog|XInclude|TextReaderExpand|TextReaderReadInnerXml|TextReaderReadOuterXml)|html\w*(Parse|Read))")
FROM_NAME = re.compile(r"File|Fd$|IO$|ForIO|Walker|Filename")
GLOBAL = re.compile(r"^(__)?xml(SubstituteEntitiesDefault|LoadExtDtdDefault|SetExternalEntityLoader|DoValidityChecking|PedanticParserDefault|CtxtUseOptions|CtxtResetPush|RegisterInputCallbacks|RegisterDefaultInputCallbacks)")


class Mon(Recorder):
    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx
        self.seen = set()

    def bad(self, E, st, key, msg):
        self.ctx.violation("X01 " + key, E.cur_loc(st), msg, st.trace_list())

    def on_virtual(self, E, st, name, args, ins, cands): return E.opaque_pure(st, ins, name)

    def on_call(self, E, st, name, fn, args, ins):
        n = fn.name
        if not fn.decl: return None
        if PARSE.match(n):
            self.seen.add(ins["id"] if False else (st.frames[-1].fn.name, ins["id"]))
            self.judge(E, st, n, args)
            r = E.fresh(st, "reader", ins["id"])
            st.mon["made"] = st.mon.get("made", 0) + 1
            return [Outcome("ret", st, r)]
        if n == "xmlTextReaderSetParserProp":
            self.ctx.count("settings")
            p, v = E.subst(st, args[1]), E.subst(st, args[2])
            if not isinstance(p, int) or not isinstance(v, int): self.bad(E, st, "setting", "a parser feature is switched by values that are not constants")
            elif p in PROPS and v: self.bad(E, st, "setting %d" % p, "%s is switched on" % PROPS[p])
            return E.opaque_pure(st, ins, n)
        if n in ("xmlTextReaderRead", "xmlTextReaderNext"):
            self.ctx.count("reads")
            if not st.mon.get("made"): self.bad(E, st, "unknown reader", "a document is read that was not opened by the configured entry")
        if n.startswith("xml"): return E.opaque_pure(st, ins, n)
        return None

    def judge(self, E, st, n, args):
        self.ctx.count("entries")
        k = OPTIONS.get(n)
        if FROM_NAME.search(n): self.bad(E, st, "source " + n, "a document is read from a place named in a call (%s) and not from the message" % n)
        if k is None or k >= len(args):
            self.bad(E, st, "no options", "a document is parsed by %s, which cannot be told to stay off the network" % n); return
        o = E.subst(st, args[k])
        if not isinstance(o, int):
            self.bad(E, st, "options", "a document is parsed with options that are not constant"); return
        if not o & NONET: self.bad(E, st, "network", "a document is parsed without disabling network access")
        for what, bit in FORBIDDEN.items():
            if o & bit: self.bad(E, st, "option %d" % bit, "a document is parsed with %s" % what)


def sites(s):
    out = {}
    for f in s.prog.funcs.values():
        for b in f.blocks:
            for i in b:
                if i["op"] in ("call", "invoke") and i["fn"][0] == "f" and s.prog.funcs[i["fn"][1]].decl: out.setdefault(i["fn"][1], []).append((f, i))
    return out


def walk(ctx, s, f):
    E = s.E
    st = s.blank(); st.frames = []
    args = [s.sym("a%d" % k) for k in range(f.nargs)]
    for a in args: E.assume(st, as_bool(a), True)
    s.run(f, args, st)


def run(ctx):
    ctx.rule("the walks from both parse entries meet every place where libxml is told to open a document; there the options are a constant with network access off and entity substitution, DTD loading, attribute defaults, validation and XInclude off, and no later setting switches one on")
    ctx.rule("no other libxml entry that reads documents, and none that changes its global defaults or loaders, is called anywhere in the library")
    s = Session(ctx, None)
    E = s.E
    mon = s.mon = E.mon = Mon(ctx)
    E.loop_limit, E.const_loop_limit = 1, 2
    E.boundary = {n: [] for n in ("iqxmlrpc::BuilderBase::visit_element", "iqxmlrpc::BuilderBase::visit_element_end", "iqxmlrpc::BuilderBase::visit_text", "iqxmlrpc::Parser::Impl::tag_name",
                                  "iqxmlrpc::Parser::Impl::get_context", "iqxmlrpc::Parser::Impl::read_data", "iqxmlrpc::StateMachine::change", "iqxmlrpc::Value::Value", "iqxmlrpc::Value::~Value")}
    ext = sites(s)
    ctx.count("external_functions", len(ext))
    xml = sorted(n for n in ext if n.startswith(("xml", "__xml", "html")))
    ctx.count("xml_functions", len(xml))
    if len(xml) < 5: raise CheckError("anchor: only %d libxml functions are called" % len(xml))
    for n in xml:
        for f, i in ext[n]:
            ctx.count("xml_call_sites")
            if GLOBAL.match(n): ctx.violation("X01 global " + n, E.loc(i), "a global default of the XML library is changed by " + n)
    for e in ENTRIES: walk(ctx, s, s.fn(e))
    # places not met from the entries are judged on their own
    for n in xml:
        if not PARSE.match(n): continue
        for f, i in ext[n]:
            ctx.count("parse_sites")
            if (f.name, i["id"]) not in mon.seen:
                ctx.count("sites_apart")
                before = len(mon.seen)
                walk(ctx, s, f)
                if (f.name, i["id"]) not in mon.seen:
                    ctx.violation("X01 unreached " + n, E.loc(i), "a place that opens a document is not reached from the parse entries: another parse entry")
    for g in ("xmlSubstituteEntitiesDefaultValue", "xmlLoadExtDtdDefaultValue", "xmlDoValidityCheckingDefaultValue"):
        if g in s.prog.globals: ctx.violation("X01 variable " + g, g, "a global default of the XML library is used by the library")
    for n, k in (("entries", 2), ("reads", 2), ("parse_sites", 1)): ctx.need(n, k)
    ctx.assume("libxml keeps a feature off that neither its options nor a setting of the reader switched on")
