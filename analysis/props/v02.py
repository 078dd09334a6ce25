"""V02: copies of values share nothing and each part is freed once."""
from props.values_common import *
from models import str_eq

A, S = KIND["array"], KIND["struct"]
NAMES = (b"k1", b"k2", b"k3", b"k9", b"new", b"zz")


class Scene:
    any_name = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.mon = PartMon(ctx, "V02")
        self.w = World(ctx, self.mon)

    def begin(self, what):
        self.w.start()
        self.mon.what = what
        self.ctx.count("scenes")
        self.here = []

    def value(self, kind, salt="x"):
        """a Value of the kind with unknown content, in storage of its own"""
        w = self.w
        v = w.room()
        c = lambda p: w.find(V, "Value", p)
        sym = w.s.sym("content %s%d" % (salt, w.n))
        if kind == "nil": w.call(c("(iqxmlrpc::Nil)"), v, self.nil())
        elif kind == "int": w.call(c("(int)"), v, sym)
        elif kind == "int64": w.call(c("(long)"), v, sym)
        elif kind == "bool": w.call(c("(bool)"), v, ("ub", ("content", salt, w.n), False))
        elif kind == "double": w.call(c("(double)"), v, sym)
        elif kind == "string": w.call(c("(std::__cxx11::basic_string"), v, w.text((SO, ("text", salt, w.n))))
        elif kind == "binary":
            b = w.call(w.find("iqxmlrpc::Binary_data", "from_data", "(std::__cxx11"), w.text((SO, ("data", salt, w.n))))
            w.call(c("(iqxmlrpc::Value_type*)"), v, b)
        elif kind == "datetime":
            t = w.room()
            w.call(c("(tm const*)"), v, t)
        elif kind == "array":
            a = w.room()
            w.call(w.find(A, "Array", "()"), a)
            for k in ("int", "string"):
                x = self.value(k, salt)
                w.call(w.find(A, "push_back", "Value const&"), a, x)
                self.destroy(x)
            w.call(c("(iqxmlrpc::Array const&)"), v, a)
            self.drop_obj(a, A)
            self.here = [y for y in self.here if y != a]
        elif kind == "struct":
            a = w.room()
            w.call(w.find(S, "Struct", "()"), a)
            # the third name may be any other
            some = (SO, ("some name",))
            for n in NAMES: w.E.assume(w.st, str_eq(some, (SC, n)), False)
            for n, k in ((b"k1", "int"), (b"k2", "array"), (some, "string"))[:3 if self.any_name else 2]:
                x = self.value(k, salt)
                w.call(w.find(S, "insert", "Value const&"), a, w.text(n), x)
                self.destroy(x)
            w.call(c("(iqxmlrpc::Struct const&)"), v, a)
            self.drop_obj(a, S)
        self.here.append(v)
        if w.cls(w.held(v)) != KIND[kind]: raise CheckError("a value made from %s holds %s" % (kind, w.cls(w.held(v))))
        return v

    def nil(self):
        w = self.w
        n = w.room()
        w.s.set_class(w.st, n, KIND["nil"])
        return n

    def drop_obj(self, p, cls):
        w = self.w
        w.call(w.find(cls, "~" + cls.rsplit("::")[-1]), p)

    def destroy(self, v):
        w = self.w
        w.call(w.find(V, "~Value"), v)
        self.here = [x for x in self.here if x != v]

    def heap(self, *vs):
        out = []
        for v in vs: self.w.tree(v, out)
        return [o for o in out if o[0] == "H"]

    def distinct(self, a, b):
        """two values share no part and neither contains one twice"""
        x, y = self.heap(a), self.heap(b)
        for o in x + y:
            if o in self.w.st.freed: self.bad("freed part", "a part that is still in use was freed")
        if set(x) & set(y): self.bad("shared", "two values share a part")
        elif len(set(x)) != len(x) or len(set(y)) != len(y): self.bad("twice", "a part belongs to a value twice")

    def equal(self, a, t, what="a copy differs from its original"):
        u = self.w.tree(a)
        if u != t: self.bad("content", "%s: %s instead of %s" % (what, u, t))

    def bad(self, key, msg):
        self.ctx.violation("V02 %s" % key, self.mon.what, msg, self.w.st.trace_list())
        raise Dead()

    def end(self, *vs):
        """everything is destroyed; nothing may be left"""
        for v in list(self.here): self.destroy(v)
        left = self.w.st.mon.get("live", frozenset())
        if left: self.bad("leak", "%s: %d parts are never freed (made at %s)" % (self.mon.what, len(left), self.places(left)))
        self.ctx.count("scenes_complete")

    def places(self, obs):
        return ", ".join(sorted({str(o[2]) for o in obs}))[:60]


def scene(f):
    def g(sc, what, *a):
        def play():
            f(sc, *a)
            sc.end()
        explore(sc, what, play)
    return g


@scene
def copy(sc, kind):
    w = sc.w
    v = sc.value(kind)
    t = w.tree(v)
    u = w.room()
    w.call(w.find(V, "Value", "(iqxmlrpc::Value const&)"), u, v)
    sc.here.append(u)
    sc.equal(u, t); sc.distinct(u, v)
    sc.destroy(v)
    sc.equal(u, t, "a copy changes when its original is destroyed")


@scene
def clone(sc, kind):
    w = sc.w
    v = sc.value(kind)
    t = w.tree(v)
    h = w.held(v)
    c = w.call(w.s.impl(w.s.classes("iqxmlrpc::Value_type")[KIND[kind]], "iqxmlrpc::Value_type", "clone"), h)
    u = w.room()
    w.call(w.find(V, "Value", "(iqxmlrpc::Value_type*)"), u, c)
    sc.here.append(u)
    sc.equal(u, t, "a clone differs from its original"); sc.distinct(u, v)


@scene
def assign(sc, a, b):
    w = sc.w
    v, u = sc.value(a, "l"), sc.value(b, "r")
    t = w.tree(u)
    r = w.call(w.find(V, "operator=", "(iqxmlrpc::Value const&)"), v, u)
    sc.equal(v, t, "an assigned value differs from what was assigned"); sc.equal(u, t, "assignment changes what is assigned"); sc.distinct(u, v)
    sc.destroy(u)
    sc.equal(v, t, "an assigned value changes when its source is destroyed")


@scene
def self_assign(sc, kind):
    w = sc.w
    v = sc.value(kind)
    t = w.tree(v)
    w.call(w.find(V, "operator=", "(iqxmlrpc::Value const&)"), v, v)
    sc.equal(v, t, "self assignment changes a value")


@scene
def assign_part(sc, kind):
    """v = v[0]"""
    w = sc.w
    v = sc.value(kind)
    e = w.elements(w.held(v), KIND[kind])[-1][1]
    t = w.tree(e)
    w.call(w.find(V, "operator=", "(iqxmlrpc::Value const&)"), v, e)
    sc.equal(v, t, "a value assigned from its own part differs from that part")


@scene
def obj_assign(sc, kind, same):
    """assignment of arrays and structs themselves"""
    w = sc.w
    cls = KIND[kind]
    v = sc.value(kind, "l")
    u = v if same else sc.value(kind, "r")
    if not same: grow(sc, u, kind)
    t = w.tree(u)
    w.call(w.find(cls, "operator="), w.held(v), w.held(u))
    sc.equal(v, t, "an assigned container differs from what was assigned")
    if not same: sc.distinct(u, v); sc.equal(u, t, "assignment changes what is assigned")


def grow(sc, v, kind):
    w = sc.w
    x = sc.value("int64", "g")
    if kind == "array": w.call(w.find(A, "push_back", "Value const&"), w.held(v), x)
    else: w.call(w.find(S, "insert", "Value const&"), w.held(v), w.text(b"k9"), x)
    sc.destroy(x)


@scene
def swap(sc, kind):
    w = sc.w
    v, u = sc.value(kind, "l"), sc.value(kind, "r")
    grow(sc, u, kind)
    t, z = w.tree(v), w.tree(u)
    w.call(w.find(KIND[kind], "swap"), w.held(v), w.held(u))
    sc.equal(v, z, "swap"); sc.equal(u, t, "swap"); sc.distinct(u, v)


@scene
def clear(sc, kind):
    w = sc.w
    v = sc.value(kind)
    w.call(w.find(KIND[kind], "clear"), w.held(v))
    sc.equal(v, (KIND[kind], ()), "a cleared container has content")
    grow(sc, v, kind)
    w.call(w.find(KIND[kind], "clear"), w.held(v))


@scene
def push(sc, kind, own):
    w = sc.w
    v = sc.value("array")
    t = w.tree(v)
    x = w.elements(w.held(v), A)[0][1] if own else sc.value(kind, "n")
    tx = w.tree(x)
    w.call(w.find(V, "push_back"), v, x)
    sc.equal(v, (A, t[1] + ((None, tx),)), "appending to an array")
    if not own: sc.distinct(v, x)


@scene
def push_ptr(sc, kind):
    """handing over a value"""
    w = sc.w
    v = sc.value("array")
    t = w.tree(v)
    p = owned(sc, kind)
    w.call(w.find(A, "push_back", "ExplicitPtr"), w.held(v), p)
    sc.equal(v, (A, t[1] + ((None, sc.given),)), "handing a value over to an array")
    w.call(w.find("iqxmlrpc::util::ExplicitPtr<iqxmlrpc::Value*>", "~ExplicitPtr"), p)


def owned(sc, kind):
    """an owning pointer to a fresh heap value"""
    w = sc.w
    x = sc.value(kind, "n")
    sc.given = w.tree(x)
    h = w.E.mkptr(("H", ("given", w.n), 0, 0), 0)
    w.E.roots.append(h)
    w.st.mon["live"] = w.st.mon.get("live", frozenset()) | {("H", ("given", w.n), 0, 0)}
    w.call(w.find(V, "Value", "(iqxmlrpc::Value const&)"), h, x)
    sc.destroy(x)
    p = w.room()
    w.call(w.find("iqxmlrpc::util::ExplicitPtr<iqxmlrpc::Value*>", "ExplicitPtr", "(iqxmlrpc::Value*)"), p, h)
    return p


@scene
def insert_ptr(sc, kind, key, there):
    w = sc.w
    v = sc.value("struct")
    p = owned(sc, kind)
    w.call(w.find(S, "insert", "ExplicitPtr"), w.held(v), w.text(key), p)
    got = dict(w.tree(v)[1])
    if len(got) != 3 + (not there) or got.get((SC, key)) != sc.given: sc.bad("insert", "a value handed over to a struct is not its member")
    w.call(w.find("iqxmlrpc::util::ExplicitPtr<iqxmlrpc::Value*>", "~ExplicitPtr"), p)


@scene
def insert(sc, kind, key, there, own):
    w = sc.w
    v = sc.value("struct")
    els = dict(w.elements(w.held(v), S))
    x = els[(SC, b"k2")] if own else sc.value(kind, "n")
    tx = w.tree(x)
    w.call(w.find(V, "insert"), v, w.text(key), x)
    got = dict(w.tree(v)[1])
    if len(got) != 3 + (not there): sc.bad("insert size", "after inserting %s a struct of three has %d members" % ("an existing member" if there else "a member", len(got)))
    if got.get((SC, key)) != tx: sc.bad("insert content", "an inserted member differs from what was inserted")
    if not own: sc.distinct(v, x)


@scene
def erase(sc, key, there):
    w = sc.w
    v = sc.value("struct")
    w.call(w.find(S, "erase"), w.held(v), w.text(key))
    got = dict(w.tree(v)[1])
    if len(got) != 3 - there or (SC, key) in got: sc.bad("erase", "erasing a member does not remove exactly it")


@scene
def change(sc, kind):
    """changing a copy leaves the original alone"""
    w = sc.w
    v = sc.value(kind)
    t = w.tree(v)
    u = w.room()
    w.call(w.find(V, "Value", "(iqxmlrpc::Value const&)"), u, v)
    sc.here.append(u)
    e = w.elements(w.held(u), KIND[kind])[0][1]
    x = sc.value("double", "n")
    w.call(w.find(V, "operator=", "(iqxmlrpc::Value const&)"), e, x)
    grow(sc, u, kind)
    sc.equal(v, t, "changing a copy changes the original")
    w.call(w.find(KIND[kind], "clear"), w.held(u))
    sc.equal(v, t, "clearing a copy changes the original")


def run(ctx):
    ctx.rule("operations on values are walked one after another on values built by the library's own constructors, with every allocated part tracked: no part is freed twice, used after it was freed, or left when all values are destroyed")
    ctx.rule("after a copy, clone or assignment the structure and contents equal the source's and no part is shared; later changes and destruction of one leave the other's structure as it was")
    sc = Scene(ctx)
    for k in KIND:
        copy(sc, "copying a value holding " + k, k)
        clone(sc, "cloning a " + k, k)
        self_assign(sc, "assigning a value holding %s to itself" % k, k)
    for a, b in (("int", "string"), ("string", "array"), ("array", "int"), ("struct", "array"), ("array", "array"), ("struct", "struct"), ("nil", "binary"), ("binary", "datetime"), ("string", "string"), ("datetime", "struct")):
        assign(sc, "assigning %s to a value holding %s" % (b, a), a, b)
    for k in ("array", "struct"):
        assign_part(sc, "assigning a part of a %s to the value that holds it" % k, k)
        obj_assign(sc, "assigning a %s" % k, k, False)
        obj_assign(sc, "assigning a %s to itself" % k, k, True)
        swap(sc, "swapping two of " + k, k)
        clear(sc, "clearing a " + k, k)
        change(sc, "changing the copy of a " + k, k)
    for k in ("int", "string", "array", "struct"):
        push(sc, "appending %s to an array" % k, k, False)
        push_ptr(sc, "handing %s over to an array" % k, k)
        for key, there in ((b"k1", True), (b"new", False)):
            insert(sc, "inserting %s as %s member" % (k, "an existing" if there else "a new"), k, key, there, False)
            insert_ptr(sc, "handing %s over as %s member" % (k, "an existing" if there else "a new"), k, key, there)
    push(sc, "appending an element of an array to it", "int", True)
    insert(sc, "inserting a member of a struct in its own place", "int", b"k2", True, True)
    insert(sc, "inserting a member of a struct under another name", "int", b"k3", False, True)
    erase(sc, "erasing a member", b"k2", True)
    erase(sc, "erasing a member that does not exist", b"zz", False)
    if not ctx.violations:
        if ctx.counts.get("scenes") != ctx.counts.get("scenes_complete"): raise CheckError("a scene did not end")
    ctx.need("scenes", 80)
    ctx.need("parts_freed", 500)
