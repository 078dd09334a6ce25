"""X03: whatever type is written is the type that is read back."""
from props.xml_common import *
from props.values_common import World, Dead, KIND, V, explore
from props.v02 import Scene, A, S
import known

CONTENT = ("iqxmlrpc::Date_time", "iqxmlrpc::Binary_data")
RESPONSE, REQUEST = "iqxmlrpc::Response", "iqxmlrpc::Request"


class Mon(WriterMon, ReaderEnv):
    failing = False
    what = ""
    rooms = ()

    def on_new(self, E, st, ob, size, ins):
        for x in self.rooms: E.assume(st, cmp_("eq", x, ("P", ob, 0)), False)

    def on_call(self, E, st, name, fn, args, ins):
        cls = name.rsplit("::", 1)[0]
        if cls in CONTENT:
            # the text of a date or of encoded data is another matter: here it is just a text
            if fn.cd and fn.base[0] != "~" and len(args) >= 2 and "basic_string" in fn.dem:
                self.s.set_class(st, args[0], cls)
                return [Outcome("ret", st, None)]
            if fn.base in ("to_string", "get_base64"):
                t = (SO, ("encoded", cls))
                if ins.get("sret"):
                    wr(E, st, args[0], t)
                    return [Outcome("ret", st, None)]
                p = ("s", ("arg", "encoded text"))
                wr(E, st, p, t)
                return [Outcome("ret", st, p)]
        if fn.decl:
            r = self.read_call(E, st, fn.name, args, ins)
            if r is not None: return r
        return super().on_call(E, st, name, fn, args, ins)

    def on_indirect(self, E, st, v, args, ins):
        if "xmlFree" in repr(v): return [Outcome("ret", st, None)]
        return None

    def on_mem_error(self, E, st, kind, p):
        if kind == "null-deref":
            self.bad(E, st, kind, "%s: a null pointer is used" % self.what)
            raise Stop("reported")


class Docs(Scene):
    """values written to documents and documents read back"""
    any_name = False

    def __init__(self, ctx, prop="X03", mon=Mon):
        super().__init__(ctx)
        self.prop = prop
        self.mon = mon(ctx, prop)
        self.mon.s = self.w.s
        self.w.E.special, self.w.E.straight = {}, True
        self.w.E.rec_limit, self.w.E.max_depth, self.w.E.const_loop_limit = 14, 300, 200
        self.w.E.inline_extra = self.w.E.inline_extra + ("boost::foreach", "boost::begin", "boost::end", "boost::range", "boost::addressof")
        self.w.mon = self.w.s.mon = self.w.E.mon = self.mon

    def begin(self, what):
        super().begin(what)
        for f in ("drop_default_int", "drop_default_int64"): self.w.call(self.w.find(V, f))

    # -- values to write
    def make(self, spec):
        """a Value from a kind, a constant, or a list/dict of those"""
        w = self.w
        if isinstance(spec, str): return self.value(spec)
        v = w.room()
        c = lambda p: w.find(V, "Value", p)
        if isinstance(spec, bool): w.call(c("(bool)"), v, int(spec))
        elif isinstance(spec, bytes): w.call(c("(std::__cxx11::basic_string"), v, w.text(spec))
        elif isinstance(spec, list):
            a = w.room()
            w.call(w.find(A, "Array", "()"), a)
            for x in spec: w.call(w.find(A, "push_back", "Value const&"), a, self.make(x))
            w.call(c("(iqxmlrpc::Array const&)"), v, a)
        else:
            a = w.room()
            w.call(w.find(S, "Struct", "()"), a)
            for n, x in spec.items(): w.call(w.find(S, "insert", "Value const&"), a, w.text(n), self.make(x))
            w.call(c("(iqxmlrpc::Struct const&)"), v, a)
        return v

    def shape(self, t):
        """classes, names and the contents that are kept as they are"""
        c, f = t[0], t[1] if len(t) > 1 else ()
        if c in (A, S): return (c, tuple((k, self.shape(x)) for k, x in f))
        if c in CONTENT or c == KIND["nil"]: return (c,)
        return (c, tuple(map(plain, f)) if isinstance(f, tuple) else f)

    # -- writing
    def option(self, on): self.w.call(self.w.find(V, "omit_string_tag_in_responses", "(bool)"), int(on))

    def written(self, fn, p):
        w = self.w
        w.st.mon["out"] = ()
        for k in ("open", "root", "ended", "dirty"): w.st.mon.pop(k, None)
        r = w.room()
        w.call(fn, r, p)
        out = w.st.mon.pop("out")
        doc, stack = [], []
        for e in out:
            if e[0] == "open": doc.append([EL, e[1], 1]); stack.append(e[1])
            elif e[0] == "close": doc.append([END, stack.pop()])
            elif e[0] == "text": doc.append([TEXT, plain(e[1])])
            else: self.bad(e[0], "a document has an unexpected %s" % e[0])
        # an element with nothing written in it has an empty tag; an empty text is nothing to read
        res = []
        for i, n in enumerate(doc):
            if n[0] == EL and doc[i + 1][0] != END: n[2] = 0
            if n[0] == END and doc[i - 1][0] == EL and doc[i - 1][2]: continue
            if n[0] == TEXT and n[1] == EMPTY: continue
            if n[0] == TEXT and n[1][0] == SC and not n[1][1].strip(): n[0] = WS
            res.append(tuple(n))
        self.ctx.count("documents")
        if not res: raise CheckError("nothing was written")
        return res

    # -- reading
    def read(self, fn, doc, args=None):
        """ends of reading the document: (ends that return, ends that raise)"""
        w = self.w
        self.mon.doc = doc
        for k in ("pos", "broken"): w.st.mon.pop(k, None)
        self.ctx.count("documents_parsed")
        r = w.room()
        ends = w.s.run(fn, ([r] if args is None else []) + [w.text((SO, ("document",)))], w.st)
        rets = [(r if args is None else v, x) for k, v, x in ends if k == "ret"]
        return rets, [x for k, v, x in ends if k != "ret"], [v for k, v, x in ends if k != "ret"]

    def response(self, doc):
        w = self.w
        rets, bad, exc = self.read(w.s.fn("iqxmlrpc::parse_response"), doc)
        return rets, bad, exc

    def request(self, doc):
        return self.read(self.w.s.fn("iqxmlrpc::parse_request"), doc, True)

    def one(self, ends, doc):
        rets, bad, exc = ends
        if bad:
            self.w.st = bad[0]
            self.bad("refused", "%s: what was written is refused by the parser (%s): %s" % (self.mon.what, exc[0][0] if exc[0] else "?", show(doc)))
        if not rets:
            if self.ctx.violations: raise Dead()
            raise CheckError("%s: no result" % self.mon.what)
        r, self.w.st = rets[self.w.choose(len(rets))]
        return r

    def response_value(self, doc):
        r = self.one(self.response(doc), doc)
        v = self.w.call(self.w.find(RESPONSE, "value"), r)
        return [self.w.tree(v)]

    def request_values(self, doc):
        r = self.one(self.request(doc), doc)
        w = self.w
        n = w.call(w.find(REQUEST, "get_name"), r)
        self.name = plain(rd(w.E, w.st, n))
        p = w.call(w.find(REQUEST, "get_params"), r)
        els = known.seq(w.E, w.st, p)
        if els is None: raise CheckError("the parameters of a parsed request are not known")
        return [w.tree(e) for e in els]

    def bad(self, key, msg):
        self.ctx.violation("%s %s" % (self.prop, key), self.mon.what, msg, self.w.st.trace_list())
        raise Dead()

    def same(self, got, want, doc):
        g, u = [self.shape(t) for t in got], [self.shape(t) for t in want]
        if g != u: self.bad("differs", "%s: %s is read as %s instead of %s" % (self.mon.what, show(doc), short(g), short(u)))
        self.ctx.count("values_compared", len(want))


def plain(t):
    while isinstance(t, tuple) and t[:1] == (SO,) and t[1][0] == "cstrof": t = t[1][1]
    if isinstance(t, tuple) and t[:1] == ("z",): t = t[1]
    if isinstance(t, bool): return int(t)
    return t


def show(doc):
    o = ""
    for n in doc:
        o += {EL: lambda: "<%s%s>" % (n[1], "/" if n[2] else ""), END: lambda: "</%s>" % n[1], TEXT: lambda: n[1][1].decode() if n[1][0] == SC else "text"}.get(n[0], lambda: " ")()
    return o


def short(x):
    return repr(x).replace("iqxmlrpc::", "").replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "string")[:300]


def scene(f):
    def g(d, what, *a):
        def play():
            f(d, *a)
            d.ctx.count("scenes_complete")
        explore(d, what, play)
    return g


@scene
def round_response(d, spec, omit):
    w = d.w
    d.option(omit)
    v = d.make(spec)
    want = [w.tree(v)]
    r = w.room()
    w.call(w.find(RESPONSE, "Response", "(iqxmlrpc::Value*)"), r, v)
    doc = d.written(w.s.fn("iqxmlrpc::dump_response"), r)
    d.same(d.response_value(doc), want, doc)


@scene
def round_request(d, specs, omit):
    w = d.w
    d.option(omit)
    vs = [d.make(s) for s in specs]
    want = [w.tree(v) for v in vs]
    p, r = w.room(), w.room()
    known.setseq(w.E, w.st, p, vs)
    w.call(w.find(REQUEST, "Request", "basic_string"), r, w.text(b"m"), p)
    doc = d.written(w.s.fn("iqxmlrpc::dump_request"), r)
    d.same(d.request_values(doc), want, doc)
    if d.name != (SC, b"m"): d.bad("name", "the method name is read as %s" % (d.name,))


WORD = text((SO, ("word",)))
NUM = lambda w: text((SO, ("lex", ("s", ("arg", "number")), w)))
VALUE = lambda *k: el("value", *k)


def alternatives():
    """(what, nodes of the value element, kind)"""
    for p in ("", "ex:"):
        yield VALUE(el(p + "i4", NUM(32))), "int"
        yield VALUE(el(p + "i8", NUM(64))), "int64"
        yield VALUE(el(p + "nil")), "nil"
    yield VALUE(el("int", NUM(32))), "int"
    yield VALUE(el("boolean", text(b"1"))), "bool"
    yield VALUE(el("boolean", text(b"0"))), "bool"
    yield VALUE(el("double", NUM("double"))), "double"
    yield VALUE(el("string", WORD)), "string"
    yield VALUE(WORD), "string"
    yield VALUE(), "string"
    yield el2("value"), "string"
    yield VALUE(el("string")), "string"
    yield VALUE(el2("string")), "string"
    yield VALUE(el("base64", WORD)), "binary"
    yield VALUE(el("base64")), "binary"
    yield VALUE(el2("base64")), "binary"
    yield VALUE(el("dateTime.iso8601", WORD)), "datetime"
    yield VALUE(el2("nil")), "nil"
    yield VALUE(el("array", el("data"))), "array"
    yield VALUE(el("array", el2("data"))), "array"
    yield VALUE(el("struct")), "struct"
    yield VALUE(el2("struct")), "struct"


LAST = VALUE(el("boolean", text(b"1")))
OK = lambda v: el("methodResponse", el("params", el("param", v)))
CALL = lambda *v: el("methodCall", el("methodName", text(b"m")), el("params", *[el("param", x) for x in v]))
FRAME = {
    "alone in a response": lambda v: (OK(v), None, ["*"]),
    "among the parameters of a request": lambda v: (CALL(v, v, LAST), 1, ["*", "*", "bool"]),
    "in an array": lambda v: (OK(VALUE(el("array", el("data", v, v, LAST)))), None, [["*", "*", "bool"]]),
    "in a struct": lambda v: (OK(VALUE(el("struct", *[el("member", el("name", text(n)), x) for n, x in ((b"a", v), (b"b", v), (b"c", LAST))]))), None, [{b"a": "*", b"b": "*", b"c": "bool"}]),
    "in an array followed by another": lambda v: (CALL(VALUE(el("array", el("data", VALUE(el("array", el("data", v))), v))), LAST), 1, [[["*"], "*"], "bool"]),
}


def spaced(doc):
    """white space between elements, as a formatted document has it"""
    out = []
    for i, n in enumerate(doc):
        out.append(n)
        nxt = doc[i + 1] if i + 1 < len(doc) else None
        if nxt and n[0] in (EL, END) and nxt[0] in (EL, END):
            if n[0] == EL and not n[2] and nxt[0] == END and n[1] not in ("data", "struct", "params"): continue
            out.append((WS, (SC, b"\n  ")))
            if n[0] == END: out += [(COMMENT, (SC, b" c ")), (WS, (SC, b"\n"))]
    return out


def kinds(t):
    if t[0] == A: return [kinds(x) for k, x in t[1]]
    if t[0] == S: return {k[1]: kinds(x) for k, x in t[1]}
    return next((k for k, c in KIND.items() if c == t[0]), t)


def fill(e, kind):
    if isinstance(e, list): return [fill(x, kind) for x in e]
    if isinstance(e, dict): return {n: fill(x, kind) for n, x in e.items()}
    return e if e != "*" else {"array": [], "struct": {}}.get(kind, kind)


@scene
def alternative(d, nodes, kind, frame, space):
    doc, req, want = FRAME[frame](nodes)
    if space: doc = spaced(doc)
    got = d.request_values(doc) if req else d.response_value(doc)
    k, u = [kinds(t) for t in got], fill(want, kind)
    if k != u: d.bad("alternative", "%s is read as %s instead of %s" % (show(doc), short(k), short(u)))
    d.ctx.count("values_compared")


@scene
def defaults(d, tag, kind, setter):
    """an empty integer element stands for the configured default"""
    w = d.w
    n = w.s.sym("default")
    w.call(w.find(V, setter), n)
    for v in (el(tag), el2(tag)):
        got = d.response_value(OK(VALUE(v)))
        if kinds(got[0]) != kind or d.shape(got[0])[1] != (n,): d.bad("default", "an empty %s element is read as %s instead of the configured default" % (tag, short(got)))


def run(ctx):
    ctx.rule("values of every type, alone and in containers and parameter lists, are walked through the writer into a sequence of elements, and that sequence through the parser: the resulting structure has the same types, order, member names and plain contents")
    ctx.rule("every spelling of every type the protocol allows, in every place a value can stand, is read as its type and leaves what follows it intact")
    d = Docs(ctx)
    if set(KIND.values()) != set(d.w.s.classes(VALUE_TYPE)): raise CheckError("anchor: the value types")
    specs = [k for k in KIND if k not in ("bool", "array", "struct")] + [True, False, b"", b"text", [], {}, "array", "struct"]
    for s in specs:
        for omit in (False, True):
            o = ", string tags omitted" if omit else ""
            n = "a value (%s)%s" % (s if isinstance(s, str) else repr(s), o)
            round_response(d, n + " in a response", s, omit)
            round_response(d, n + " in an array in a response", [s, s, [s], s, "int"], omit)
            round_response(d, n + " in a struct in a response", {b"a": s, b"b": s, b"c": {b"d": s}, b"e": "int"}, omit)
        round_request(d, n + " in a request", [s, s, "int"], omit)
        round_request(d, n + " in containers in a request", [[s, {b"a": s, b"b": [s]}, "int"], s], omit)
    for n in (b"", b" ", b"a b"):
        round_response(d, "a member named %r" % n.decode(), [{n: {n: "int"}}, {n: "int", b"z": "nil"}, "string"], False)
        round_request(d, "a member named %r in a request" % n.decode(), [{n: [{n: "int"}], b"y": "int"}, "string"], False)
    round_request(d, "a request without parameters", [], False)
    for nodes, kind in alternatives():
        for f in FRAME:
            alternative(d, "%s %s" % (show(nodes), f), nodes, kind, f, False)
            alternative(d, "%s %s, with white space" % (show(nodes), f), nodes, kind, f, True)
    for tag, kind, setter in (("i4", "int", "set_default_int"), ("int", "int", "set_default_int"), ("i8", "int64", "set_default_int64")):
        defaults(d, "an empty %s with a configured default" % tag, tag, kind, setter)
    if not ctx.violations and ctx.counts.get("scenes") != ctx.counts.get("scenes_complete"): raise CheckError("a scene did not end")
    ctx.need("scenes", 250)
    ctx.need("documents_parsed", 250)
    ctx.need("values_compared", 250)
