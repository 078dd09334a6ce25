"""X04: a broken document is always an error, never a partial message."""
from props.x03 import *
from props.values_common import PartMon

BOGUS = "bogus"
NEVER = ("methodCall", "methodResponse", "methodName", "params", "fault", "data", "member", "name", "i4")


class DocMon(Mon):
    """everything allocated while a document is parsed is tracked"""
    where = {}

    def on_new(self, E, st, ob, size, ins):
        super().on_new(E, st, ob, size, ins)
        if "live" in st.mon:
            self.ctx.count("objects_made")
            st.mon["live"] |= {ob}
            self.where[ob] = str(E.cur_loc(st)).rsplit("/", 1)[-1]

    def on_free(self, E, st, obj, off, ins):
        if "live" in st.mon and obj[0] == "H":
            if obj not in st.mon["live"]:
                self.bad(E, st, "freed twice", "%s: an object is freed a second time" % self.what)
                raise Stop("reported")
            self.ctx.count("objects_freed")
            st.mon["live"] -= {obj}

    def on_mem_error(self, E, st, kind, p):
        if kind in ("use-after-free", "double-free", "null-deref"):
            self.bad(E, st, kind, "%s: %s" % (self.what, {"null-deref": "a null pointer is used", "use-after-free": "an object is used after it was freed", "double-free": "an object is freed a second time"}[kind]))
            raise Stop("reported")


class Broken(Docs):
    def __init__(self, ctx):
        super().__init__(ctx, "X04", DocMon)

    def leak(self, st, when):
        left = st.mon.get("live", ())
        if left:
            self.w.st = st
            where = sorted({self.mon.where.get(o, "?") for o in left})
            self.ctx.violation("X04 leak %s" % where[0], self.mon.what, "%s: %s, %d objects made while parsing are never released (made at %s): %s" % (self.mon.what, when, len(left), ", ".join(where), show(self.mon.doc)), st.trace_list())
            raise Dead()

    def parse(self, doc, req):
        self.w.st.mon["live"] = frozenset()
        return self.request(doc) if req else self.response(doc)

    def refused(self, doc, req):
        rets, bad, exc = self.parse(doc, req)
        for r, x in rets:
            self.w.st = x
            self.bad("accepted", "%s: the document is accepted: %s" % (self.mon.what, show(doc)))
        if not bad and not self.ctx.violations: raise CheckError("%s: no end" % self.mon.what)
        for x in bad: self.leak(x, "when the document is refused")
        self.ctx.count("documents_refused")

    def accepted(self, doc, req):
        """the document is right: what results is whole and owns everything that was made"""
        w = self.w
        rets, bad, exc = self.parse(doc, req)
        for x in bad: self.leak(x, "when the text of a value is refused")
        if not rets and not self.ctx.violations: raise CheckError("%s is refused" % show(doc))
        for r, x in rets:
            w.st = x
            if req:
                n = rd(w.E, x, w.call(w.find(REQUEST, "get_name"), r))
                if plain(n) != (SC, b"m"): self.bad("name", "%s: the method name is not the one in the document" % self.mon.what)
                w.call(w.find(REQUEST, "~Request"), r)
                o = w.E.norm_ptr(r)[0]
                w.st.mon["live"] -= {o}
            else:
                w.call(w.find(RESPONSE, "~Response"), r)
            self.leak(w.st, "when what was parsed is destroyed")
        self.ctx.count("documents_accepted")


def show(doc):
    from props import x03
    return x03.show([n for n in doc if n[0] != ERR]) + ("<error>" if any(n[0] == ERR for n in doc) else "")


@scene
def refuse(d, doc, req): d.refused(doc, req)


@scene
def accept(d, doc, req): d.accepted(doc, req)


@scene
def default(d, tag, setter):
    d.w.call(d.w.find(V, setter), d.w.s.sym("default"))
    d.accepted(CALL(VALUE(el(tag)), LAST), True)


MEMBER = lambda n, v: el("member", el("name", text(n)), v)
I4 = VALUE(el("i4", NUM(32)))
FAULT = lambda v: el("methodResponse", el("fault", v))
CODE, STRING = MEMBER(b"faultCode", I4), MEMBER(b"faultString", VALUE(el("string", WORD)))

DOCS = [
    ("a request with scalar parameters", CALL(I4, VALUE(el("string", WORD)), VALUE(WORD), VALUE(el("nil")), LAST), True),
    ("a request with an array and a struct", CALL(VALUE(el("array", el("data", I4, VALUE(WORD), VALUE(el("nil"))))), VALUE(el("struct", MEMBER(b"a", I4), MEMBER(b"b", VALUE(el("base64", WORD)))))), True),
    ("a response with nested containers", OK(VALUE(el("struct", MEMBER(b"a", VALUE(el("array", el("data", VALUE(el("double", NUM("double"))), VALUE(el("array", el("data", LAST))))))), MEMBER(b"b", VALUE(el("dateTime.iso8601", WORD)))))), False),
    ("a response with a number", OK(VALUE(el("i8", NUM(64)))), False),
    ("a fault response", FAULT(VALUE(el("struct", CODE, STRING))), False),
]


def renamed(doc, i, name):
    out = list(doc)
    out[i] = (EL, name) + doc[i][2:]
    if not doc[i][2]:
        n = 0
        for j in range(i, len(doc)):
            n += (doc[j][0] == EL and not doc[j][2]) - (doc[j][0] == END)
            if n == 0: out[j] = (END, name); break
    return out


def run(ctx):
    ctx.rule("the reader is given each canonical document broken at one place: an error of the XML library at every node, an unknown element in place of every element and in every gap, an element of the protocol in every gap where it is out of order, and every required part missing; every walk through the parser ends in an exception")
    ctx.rule("when parsing ends in an exception, and when the parsed message is destroyed, no object made while parsing is left; none is used after or freed twice")
    d = Broken(ctx)
    for what, doc, req in DOCS:
        accept(d, what, doc, req)
        for i in range(len(doc)):
            refuse(d, "%s, broken off" % what, doc[:i] + [(ERR,)], req)
            if doc[i][0] == EL: refuse(d, "%s, <%s> replaced by another element" % (what, doc[i][1]), renamed(doc, i, BOGUS), req)
            if i == 0: continue
            for new in (el(BOGUS), el(BOGUS, WORD)) + tuple(el2(n) for n in NEVER):
                refuse(d, "%s, with <%s> where it does not belong" % (what, new[0][1]), doc[:i] + new + doc[i:], req)
        refuse(d, "%s in place of the other message" % what, doc, not req)
    for req in (True, False):
        refuse(d, "an empty document", [], req)
        for r in ("methodCall", "methodResponse"):
            refuse(d, "an empty <%s>" % r, el(r), req)
            refuse(d, "an empty <%s>" % r, el2(r), req)
    refuse(d, "a request without a method name", el("methodCall", el("params", el("param", I4))), True)
    for n in ("params", "fault"):
        refuse(d, "a response with an empty <%s>" % n, el("methodResponse", el(n)), False)
    refuse(d, "a response with an empty parameter", OK([(EL, "param", 1)])[0:2] + [(EL, "param", 1)] + OK(I4)[-2:], False)
    refuse(d, "a response with two values", el("methodResponse", el("params", el("param", I4), el("param", I4))), False)
    for w, v in (("no struct", I4), ("an array", VALUE(el("array", el("data", I4)))), ("an empty value", VALUE()), ("no members", VALUE(el("struct"))), ("no code", VALUE(el("struct", STRING))), ("no string", VALUE(el("struct", CODE))),
                 ("a member too many", VALUE(el("struct", CODE, STRING, MEMBER(b"x", I4)))), ("another member", VALUE(el("struct", CODE, MEMBER(b"x", VALUE(WORD))))),
                 ("a text for its code", VALUE(el("struct", MEMBER(b"faultCode", VALUE(WORD)), STRING))), ("a number for its string", VALUE(el("struct", CODE, MEMBER(b"faultString", I4))))):
        refuse(d, "a fault with %s" % w, FAULT(v), False)
    for k in ("i4", "int", "i8", "boolean", "double", "dateTime.iso8601"):
        for v in (el(k), el2(k)):
            refuse(d, "an empty %s" % k, CALL(VALUE(v)), True)
            refuse(d, "an empty %s in an array" % k, OK(VALUE(el("array", el("data", I4, VALUE(v))))), False)
    for w, m in (("an empty member", el("member")), ("a member without a name", el("member", I4)), ("a member without a value", el("member", el("name", WORD))), ("a member with its value first", el("member", I4, el("name", WORD)))):
        for v in (VALUE(el("struct", m)), VALUE(el("struct", MEMBER(b"k", I4), m, MEMBER(b"l", I4)))):
            refuse(d, w, CALL(v), True)
            refuse(d, w, OK(v), False)
    bad = text((SO, ("free text",)))
    for k in ("i4", "int", "i8", "boolean", "double"):
        accept(d, "a number in %s" % k, CALL(I4, VALUE(el(k, bad))), True)
    for tag, setter in (("i4", "set_default_int"), ("int", "set_default_int"), ("i8", "set_default_int64")):
        default(d, "an empty %s with a configured default" % tag, tag, setter)
    if not ctx.violations and ctx.counts.get("scenes") != ctx.counts.get("scenes_complete"): raise CheckError("a scene did not end")
    ctx.need("documents_refused", 500)
    ctx.need("objects_freed", 1000)
