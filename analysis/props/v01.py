"""V01: a value is only ever read as the type it holds."""
from checklib import *
from engine import Outcome, Stop, is_sym, is_ptr
from models import rd, cstr, csize, cver, wr, SO, SC
from props.server_common import call_all

V = "iqxmlrpc::Value"
STR = "iqxmlrpc::Scalar<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>>"
KIND = {"nil": "iqxmlrpc::Nil", "int": "iqxmlrpc::Scalar<int>", "int64": "iqxmlrpc::Scalar<long>", "bool": "iqxmlrpc::Scalar<bool>", "double": "iqxmlrpc::Scalar<double>", "string": STR,
        "binary": "iqxmlrpc::Binary_data", "datetime": "iqxmlrpc::Date_time", "array": "iqxmlrpc::Array", "struct": "iqxmlrpc::Struct"}
NAMES = {"nil": b"nil", "int": b"i4", "int64": b"i8", "bool": b"boolean", "double": b"double", "string": b"string", "binary": b"base64", "datetime": b"dateTime.iso8601", "array": b"array", "struct": b"struct"}
# what every way to read a value reads it as
READS = {"get_int": "int", "get_int64": "int64", "get_bool": "bool", "get_double": "double", "get_string": "string", "get_binary": "binary", "get_datetime": "datetime",
         "operator int": "int", "operator long": "int64", "operator bool": "bool", "operator double": "double", "operator iqxmlrpc::Binary_data": "binary", "operator tm": "datetime",
         "the_array": "array", "size": "array", "push_back": "array", "arr_begin": "array", "arr_end": "array", "the_struct": "struct", "has_field": "struct", "insert": "struct"}


class Mon(Recorder):
    unchecked = None

    def on_virtual(self, E, st, name, args, ins, cands):
        if "::~" in name: return [Outcome("ret", st, None)]
        if name.endswith("::clone"): return [Outcome("ret", st, ("s", ("clone", args[0])))]
        return None

    def on_call(self, E, st, name, fn, args, ins):
        if self.unchecked and name == "iqxmlrpc::Struct::insert": self.unchecked(E, st, "insert", args, fn)
        return super().on_call(E, st, name, fn, args, ins)

    def on_container(self, E, st, base, a, ins, fn):
        if self.unchecked: self.unchecked(E, st, base, a, fn)


def string_op(s):
    c = [f for f in s.prog.funcs.values() if f.name.startswith("_ZNK8iqxmlrpc5ValuecvNSt7__cxx1112basic_string") and not f.decl]
    return c[0] if c else None


def held(s, st, cls):
    """a value holding an object of the class"""
    E = s.E
    v, h = s.sym("value"), s.sym("held")
    for x in (v, h): E.assume(st, as_bool(x), True)
    s.set_class(st, h, cls)
    c = s.fn(V + "::Value", pred=lambda f: f.dem.endswith("(iqxmlrpc::Value_type*)"))
    outs = call_all(s, [st], c, [v, h])
    if len(outs) != 1: raise CheckError("constructing a value forks")
    return v, h, outs[0]


def run(ctx):
    ctx.rule("for each type a value can hold and each way to read a value, the reader is walked on a value holding that type: another type than the one read always ends in an exception, the same type gives exactly what is held")
    ctx.rule("type queries are true for exactly the type held and the type's name is its protocol name")
    ctx.rule("an element of an array is reached only by an index below its size, a member of a struct only where it was found; otherwise an exception is raised and nothing is inserted")
    s = Session(ctx, None)
    E = s.E
    mon = s.mon = E.mon = Mon()
    E.narrowing = True
    E.boundary = {"iqxmlrpc::Struct::insert": [], "iqxmlrpc::Value::Bad_cast::Bad_cast": [], "iqxmlrpc::Array::Out_of_range::Out_of_range": [], "iqxmlrpc::Struct::No_field::No_field": []}
    have = s.classes("iqxmlrpc::Value_type")
    extra = set(have) - set(KIND.values())
    if set(KIND.values()) - set(have): raise CheckError("anchor: value types missing: %s" % sorted(set(KIND.values()) - set(have)))
    for k in sorted(extra): ctx.sample("value type not in the protocol: " + k)
    readers = []
    for n, kind in sorted(READS.items()):
        c = [f for f in s.prog.funcs.values() if f.ctx == V and f.base == n and not f.decl]
        if not c: raise CheckError("anchor: no %s::%s" % (V, n))
        readers += [(f, kind) for f in c]
    so = string_op(s)
    if so is None: raise CheckError("anchor: no conversion of a value to a string")
    readers.append((so, "string"))
    index = [f for f in s.prog.funcs.values() if f.ctx == V and f.base == "operator[]" and not f.decl]
    if len(index) < 6: raise CheckError("anchor: %d index operators" % len(index))
    for f in index: readers.append((f, "array" if f.dem.split("(")[1].startswith(("int", "unsigned")) else "struct"))
    ctx.count("readers", len(readers))
    order = sorted(set(KIND.values()) | extra)

    for f, kind in readers:
        want = KIND[kind]
        for cls in order:
            st = s.blank(); st.frames = []
            v, h, st = held(s, st, cls)
            ret = s.sym("result")
            E.assume(st, as_bool(ret), True)
            args = ([ret] if f.sret else []) + [v]
            while len(args) < f.nargs:
                x = s.sym("arg%d" % len(args))
                E.assume(st, as_bool(x), True)
                args.append(x)
            what = f.dem.split("(")[0].replace("iqxmlrpc::", "").replace("[abi:cxx11]", "") if f is not so else "Value::operator std::string"

            def bad(key, msg, x):
                ctx.violation("V01 %s" % key, "%s:%d" % (f.file, f.line), msg, x.trace_list())
            elem = {}

            def unchecked(E, x, base, a, fn):
                q = fn.ctx
                if base in ("insert", "emplace", "insert_or_assign", "try_emplace") and f.base != "insert":
                    bad("inserting read", "reading a struct or array inserts something", x)
                if base in ("operator[]", "at", "front", "back", "data"):
                    if q.startswith(("std::map", "std::unordered_map")):
                        from models import mkey
                        k = mkey(E, x, fn, a[1])
                        if base != "at" and x.facts.get(("ub", ("found", cver(E, x, a[0]), k))) is not True:
                            bad("inserting read", "reading a missing member of a struct inserts an empty one", x)
                    elif base != "at":
                        i = E.subst(x, a[1]) if base == "operator[]" else 0
                        n = csize(E, x, a[0])
                        if not entails(E, x, cmp_("lt", i, n)):           # negative indices are walked below
                            bad("unchecked index", "an element of an array is read by an index that may be out of range", x)
            mon.unchecked = unchecked if kind in ("array", "struct") and f.base != "push_back" else None
            ctx.count("readings")
            E.loop_limit, E.const_loop_limit = 1, 4
            for k, r, x in s.run(f, args, st):
                if k == "throw":
                    if cls == want and not f.base.startswith("operator[]"):
                        bad("refused %s" % what, "reading a value as the type it holds raises an error (%s)" % what, x)
                    continue
                if k != "ret": raise CheckError("%s ends with %s" % (what, k))
                ctx.count("read_results")
                if cls != want:
                    bad("misread %s" % what, "%s returns normally on a value holding %s" % (what, cls), x)
                    continue
                # what is read is what is held
                if kind in ("int", "int64", "bool", "double"):
                    g = next((y for y in s.prog.funcs.values() if y.ctx == want and y.base == "value" and not y.decl), None)
                    if g is None: raise CheckError("anchor: no %s::value" % want)
                    c = content(s, x, g, h, {"int": 4, "int64": 8, "bool": 1, "double": 8}[kind])
                    if not (as_bool(r) == as_bool(c) if kind == "bool" else same(E, x, r, c)): bad("content %s" % what, "%s gives something other than what is held: %s" % (what, r), x)
                elif kind == "string":
                    g = next((y for y in s.prog.funcs.values() if y.ctx == want and y.base == "value" and not y.decl), None)
                    if g is None: raise CheckError("anchor: no %s::value" % want)
                    p = content(s, x, g, h, None)
                    if rd(E, x, ret) != rd(E, x, p): bad("content %s" % what, "%s gives a text other than the one held" % what, x)
                elif kind == "binary" and f.sret:
                    g = s.fn("iqxmlrpc::Binary_data::get_data")
                    if rd(E, x, content(s, x, g, ret, None)) != rd(E, x, content(s, x, g, h, None)): bad("content %s" % what, "%s gives data other than those held" % what, x)
                elif kind in ("array", "struct") and f.base.startswith("the_"):
                    if E.norm_ptr(r) != E.norm_ptr(h): bad("content %s" % what, "%s gives an object other than the one held" % what, x)
                elif f.base == "size":
                    e, vals = s.eval(x, s.fn("iqxmlrpc::Array::size"), [h])
                    if vals != {r}: bad("content size", "the size of a value is not that of its array", x)
                elif f.base == "operator[]":
                    if not elem_ok(s, f, kind, x, h, args[1], r): bad("element %s" % what, "%s gives something other than the element asked for" % what, x)
            if cls == want and kind == "array" and f.base == "operator[]":
                # indices outside the array
                for i in (-1, -2147483648, 7, 2147483647):
                    y = st.fork()
                    a = array_of(s, y, h)
                    y.mem[a] = 7
                    ctx.count("bad_indices")
                    for k, r, x in s.run(f, [v, i], y):
                        if k == "ret": bad("out of range", "index %d of an array of 7 elements gives an element" % i, x)
    mon.unchecked = None

    # type queries
    for kind, cls in sorted(KIND.items()):
        f = s.fn(V + "::is_" + kind)
        for c in order:
            st = s.blank(); st.frames = []
            v, h, st = held(s, st, c)
            ctx.count("queries")
            for k, r, x in s.run(f, [v], st):
                if k != "ret": raise CheckError("a type query raises an error")
                d = E.decide(x, as_bool(r))
                if d is not (c == cls):
                    ctx.violation("V01 query %s" % kind, f.dem.split("(")[0], "is_%s answers %s for a value holding %s" % (kind, d, c), x.trace_list())
    names(ctx, s, mon)
    fields(ctx, s, mon)
    ctx.need("readings", 250)
    ctx.need("read_results", 25)
    ctx.need("queries", 100)
    ctx.need("bad_indices", 8)


def array_of(s, st, h):
    """the cell of the size of the array's elements"""
    ends, vals = s.eval(st, s.fn("iqxmlrpc::Array::size"), [h])
    for v in vals:
        if is_sym(v) and v[1][0] == "size": return (v[1][1], v[1][2])
    raise CheckError("the elements of an array are not in a container")


def same(E, st, a, b):
    if a == b: return True
    return E.decide(st, cmp_("eq", a, b)) is True if not (isinstance(a, tuple) and a[0] in ("b", "ub", "and", "or")) else False


def content(s, st, fn, obj, size):
    ends, vals = s.eval(st, fn, [obj])
    if len(vals) != 1: raise CheckError("%s has %d results" % (fn.dem, len(vals)))
    p = vals.pop()
    if size is None: return p
    return s.E.load(st, p, size)


def elem_ok(s, f, kind, st, h, key, r):
    E = s.E
    if kind == "array":
        # the pointer kept at that index
        return is_sym(r) and "elt" in repr(r) and repr(key[1]) in repr(r)
    k = repr(key[1])
    if not any(v is True and isinstance(q, tuple) and q[0] == "ub" and isinstance(q[1], tuple) and q[1][0] == "found" for q, v in st.facts.items()): return False
    return is_sym(r) and "find" in repr(r) and k in repr(r)


def names(ctx, s, mon):
    """the protocol name of each type"""
    E = s.E
    for kind, cls in sorted(KIND.items()):
        st = s.blank(); st.frames = []
        v, h, st = held(s, st, cls)
        f = s.fn(V + "::type_name")
        for k, r, x in s.run(f, [v], st):
            if k != "ret": ctx.violation("V01 name %s" % kind, f.dem, "the name of a type raises an error", x.trace_list()); continue
            ctx.count("names")
            t = rd(E, x, r)
            if t[0] != SC:
                g = r[1] if is_ptr(r) else None
                t = None
                for init in [i for i in s.prog.funcs.values() if not i.decl and i.name.startswith("__cxx_global_var_init")]:
                    if g is None or g[0] != "G" or not mentions(init, g[1]): continue
                    for k2, r2, y in s.run(init, []):
                        if k2 == "ret": t = rd(E, y, r)
            if t is None: raise CheckError("the name of %s is not a constant" % cls)
            if t != (SC, NAMES[kind]):
                ctx.violation("V01 name %s" % kind, "Value::type_name", "a value holding %s is called %s" % (cls, t[1]), x.trace_list())
    ctx.need("names", 10)


def mentions(fn, g): return g in repr(fn.blocks)


def fields(ctx, s, mon):
    """has_field says whether the member exists"""
    E = s.E
    for f, obj in [(s.fn(V + "::has_field"), "value"), (s.fn("iqxmlrpc::Struct::has_field"), "struct")]:
        st = s.blank(); st.frames = []
        v, h, st = held(s, st, KIND["struct"])
        key = s.sym("key")
        E.assume(st, as_bool(key), True)
        for k, r, x in s.run(f, [v if obj == "value" else h, key], st):
            ctx.count("member_queries")
            b = as_bool(r)
            ok = False
            if isinstance(b, tuple) and b[0] == "ub" and b[1][0] == "found": ok = not b[2]
            else:
                fs = [q for q in x.facts if isinstance(q, tuple) and q[0] == "ub" and isinstance(q[1], tuple) and q[1][0] == "found"]
                ok = len(fs) == 1 and E.decide(x, b) is x.facts[fs[0]]
            if k != "ret" or not ok:
                ctx.violation("V01 member query", f.dem.split("(")[0], "the answer whether a member exists is not whether it was found", x.trace_list())
    ctx.need("member_queries", 2)
