"""Containers with known contents.

Enabled per session (E.known = True): a container built by a default constructor that the
analysis walked through has a known sequence of elements, each its own abstract object.
Iterators then denote elements, so loops over and searches in such containers are walked
exactly. Anything not modelled here makes the content unknown again."""
from engine import Outcome, U, is_ptr, is_sym, cmp_, as_bool
from models import rd, wr, str_eq
from names import split_params, strip_templates


def cell(E, p):
    q = E.norm_ptr(p)
    return (q[0], ("kseq", q[1])) if q else None


def seq(E, st, p):
    c = cell(E, p)
    v = st.mem.get(c) if c else None
    return v[1] if v is not None else None


def setseq(E, st, p, els):
    st.mem[cell(E, p)] = ("kseq", tuple(els))


def drop(E, st, p):
    c = cell(E, p)
    if c: st.mem.pop(c, None)


def new_el(E, st, ins, tag="kel"):
    e = E.fresh(st, tag, ins["id"])
    E.assume(st, as_bool(e), True)
    if ("S", e) in st.freed: st.freed = st.freed - {("S", e)}
    return e


def lost(E, fn):
    """the contents of a container are no longer known: nothing found afterwards is a verdict"""
    E.lost = fn.dem


def remove(E, st, p, fn, gone):
    """elements leave a container; those with storage of their own are gone for iterators and pointers, too"""
    setseq(E, st, p, tuple(x for x in seq(E, st, p) if x not in gone))
    if strip_templates(fn.ctx).rsplit("::", 1)[-1] in ("map", "multimap", "set", "multiset", "list"):
        st.freed = st.freed | {("S", e) for e in gone}


def esize(fn):
    return None


def copy_into(E, st, dst, src, limit=None):
    """copies the cells of the object at src to dst"""
    qs, qd = E.norm_ptr(src), E.norm_ptr(dst)
    if qs is None or qd is None: return
    for (o, off), v in list(st.mem.items()):
        if o != qs[0]: continue
        if isinstance(off, int):
            if off >= qs[1] and (limit is None or off < qs[1] + limit): st.mem[(qd[0], off - qs[1] + qd[1])] = v
        elif isinstance(off, tuple) and len(off) == 2 and isinstance(off[1], int) and off[1] >= qs[1] and (limit is None or off[1] < qs[1] + limit):
            st.mem[(qd[0], (off[0], off[1] - qs[1] + qd[1]))] = v
    if limit:
        # cells never touched keep the identity of the source
        pass


def copies(E, st, ins, src, size):
    new = []
    for e in src:
        n = new_el(E, st, ins)
        for k in [k for k in st.mem if k[0] == ("S", n)]: del st.mem[k]
        copy_into(E, st, n, e, size)
        new.append(n)
    return tuple(new)


def it(E, p, e):
    q = E.norm_ptr(p)
    return ("s", ("kit", q[0], q[1], e))


def end(E, p):
    q = E.norm_ptr(p)
    return ("s", ("kit", q[0], q[1], None))


def is_it(v):
    return is_sym(v) and v[1][0] == "kit"


def step(E, st, v, d):
    _, o, off, e = v[1]
    els = seq(E, st, E.mkptr(o, off))
    if els is None: return None
    if e is None: i = len(els)
    elif e in els: i = els.index(e)
    else: return None
    i += d
    if not 0 <= i <= len(els): return None
    return ("s", ("kit", o, off, els[i] if i < len(els) else None))


def value_type(fn):
    from names import strip_templates
    c = fn.ctx
    i = c.find("<")
    return split_params("f(" + c[i + 1:-1] + ")") if i >= 0 else []


def elem_size(E, fn):
    t = value_type(fn)
    if not t: return None
    t = t[0]
    if t.endswith("*"): return 8
    r = E.prog.records.get(t)
    if r and r["sz"]: return r["sz"]
    return {"int": 4, "char": 1, "bool": 1, "unsigned int": 4, "long": 8, "unsigned long": 8}.get(t)


def special(E, cls, what):
    """copy constructor or destructor of an element class that has one to walk"""
    r = E.special.get((cls, what))
    if r is None:
        tail = cls.rsplit("::", 1)[-1]
        base, par = ("~" + tail, "()") if what == "destroy" else (tail, "(%s const&)" % cls)
        c = [f for f in E.prog.funcs.values() if f.ctx == cls and f.base == base and not f.decl and f.cd and f.dem.endswith(par)]
        c = [f for f in c if "C1E" in f.name or "D1E" in f.name] or [f for f in c if "C2E" in f.name or "D2E" in f.name]
        r = E.special[(cls, what)] = c[0] if c else False
    return r


def by_class(E, st, fn, a, ins, base, ps):
    """a vector of objects: elements are copied and destroyed by their own functions"""
    cls = (value_type(fn) or [""])[0]
    copy, destroy = special(E, cls, "copy"), special(E, cls, "destroy")
    if not copy or not destroy: return None
    g = ("progress", st.frames[-1].ctx, ins["id"])
    done = st.mon.get(g, ())
    els = seq(E, st, a[0])

    def one(f, n, *args):
        st.mon[g] = done + (n,)
        return (True, [Outcome("redo", st, (f, args, len(done)))])

    def fresh():
        n = new_el(E, st, ins)
        for k in [k for k in st.mem if k[0] == ("S", n)]: del st.mem[k]
        return n
    if fn.cd and "~" in fn.dem.split("(")[0].rsplit("::", 1)[-1] or base == "clear":
        if els is None: return None
        if len(done) < len(els): return one(destroy, els[len(done)], els[len(done)])
        st.mon.pop(g, None)
        if base == "clear": setseq(E, st, a[0], ())
        else: drop(E, st, a[0])
        return (True, None)
    if fn.cd and len(ps) == 1 and ps[0].endswith("const&") and "vector" in ps[0]:
        src = seq(E, st, a[1])
        if src is None: return None
        if len(done) < len(src):
            n = fresh()
            return one(copy, n, n, src[len(done)])
        st.mon.pop(g, None)
        setseq(E, st, a[0], done)
        return (True, None)
    if base in ("push_back", "emplace_back") and els is not None and len(ps) == 1 and ps[0].replace("&&", "").replace("const&", "").strip() == cls:
        if len(els) >= 8: return None
        if not done:
            n = fresh()
            return one(copy, n, n, a[1])
        st.mon.pop(g, None)
        setseq(E, st, a[0], els + done)
        return (True, None)
    return None


def cont(E, st, fn, a, ins, base, ps, is_map, second_off):
    """-> (handled, result)"""
    NO = (False, None)
    if E.special is not None and strip_templates(fn.ctx) == "std::vector":
        r = by_class(E, st, fn, a, ins, base, ps)
        if r is not None: return r
    if fn.cd:
        tail = fn.dem.split("(")[0].rsplit("::", 1)[-1]
        if "~" in tail: drop(E, st, a[0]); return NO
        cls = strip_templates(fn.ctx).rsplit("::", 1)[-1]
        if not ps or (len(ps) == 1 and "allocator" in ps[0] and cls not in ps[0]):
            setseq(E, st, a[0], ()); return NO
        if len(ps) == 1 and len(a) > 1 and not isinstance(a[1], int):
            src = seq(E, st, a[1])
            if src is not None and "&" in ps[0]:
                setseq(E, st, a[0], copies(E, st, ins, src, None)); return (True, None)
        drop(E, st, a[0])
        return NO
    sret = bool(ins.get("sret"))
    this = a[1] if sret and len(a) > 1 else a[0]
    if isinstance(this, int): return NO
    els = seq(E, st, this)
    if els is None: return NO

    def give(v):
        if sret: E.store(st, a[0], v); return (True, None)
        return (True, v)
    if base == "size": return (True, len(els))
    if base == "empty": return (True, 1 if not els else 0)
    if base in ("begin", "cbegin"): return give(it(E, this, els[0]) if els else end(E, this))
    if base in ("end", "cend"): return give(end(E, this))
    if base == "clear": remove(E, st, this, fn, els); return (True, None)
    if base == "swap" and len(a) == 2 and not isinstance(a[1], int):
        o = seq(E, st, a[1])
        if o is not None:
            setseq(E, st, this, o); setseq(E, st, a[1], els); return (True, None)
    if base == "operator=" and len(a) == 2 and E.norm_ptr(a[1]) and seq(E, st, a[1]) is not None:
        src = seq(E, st, a[1])
        if E.norm_ptr(a[1]) != E.norm_ptr(this):
            if is_map: remove(E, st, this, fn, els)
            setseq(E, st, this, copies(E, st, ins, src, None if is_map else elem_size(E, fn)))
        return (True, a[0])
    if base in ("push_back", "push_front", "push") and len(a) == 2 and len(els) < 8:
        n = new_el(E, st, ins)
        for k in [k for k in st.mem if k[0] == ("S", n)]: del st.mem[k]
        copy_into(E, st, n, a[1], elem_size(E, fn))
        setseq(E, st, this, (n,) + els if base == "push_front" else els + (n,))
        return (True, None)
    if base in ("pop_front", "pop_back", "pop") and els:
        setseq(E, st, this, els[:-1] if base == "pop_back" else els[1:]); return (True, None)
    if base in ("front", "back", "top") and els: return (True, els[-1] if base in ("back", "top") else els[0])
    if not is_map:
        if base in ("operator[]", "at"):
            i = E.subst(st, a[1])
            if isinstance(i, int) and 0 <= i < len(els): return (True, els[i])
            if base == "operator[]" and i == 0 and not els: return (True, ("s", ("kpast", E.norm_ptr(this))))
            return NO
        if base == "data" and els: return (True, els[0])
        if base == "insert" and len(a) == 3 + sret and len(ps) == 2 and not ps[1].startswith("std::initializer") and len(els) < 8:
            v = a[-2]
            if is_ptr(v) and not is_it(v): v = E.load(st, v)
            if is_it(v) and (v[1][3] is None or v[1][3] in els):
                i = len(els) if v[1][3] is None else els.index(v[1][3])
                n = new_el(E, st, ins)
                for k in [k for k in st.mem if k[0] == ("S", n)]: del st.mem[k]
                copy_into(E, st, n, a[-1], elem_size(E, fn))
                setseq(E, st, this, els[:i] + (n,) + els[i:])
                return give(it(E, this, n))
        if base == "reserve": return (True, None)
        if base == "resize" and len(a) == 2:
            i = E.subst(st, a[1])
            if isinstance(i, int) and 0 <= i <= 8 and (i <= len(els) or (value_type(fn) or [""])[0].endswith("*")):
                els = els[:i]
                while len(els) < i:
                    n = new_el(E, st, ins)
                    for k in [k for k in st.mem if k[0] == ("S", n)]: del st.mem[k]
                    E.store(st, n, 0)
                    els += (n,)
                setseq(E, st, this, els); return (True, None)
        if base == "erase" and len(a) == 2 + sret:
            v = a[-1]
            if is_ptr(v): v = E.load(st, v)
            if is_it(v) and v[1][3] in els:
                nx = step(E, st, v, 1)
                remove(E, st, this, fn, (v[1][3],))
                return give(nx)
            drop(E, st, this); return NO
        lost(E, fn)
        drop(E, st, this)
        return NO
    if base in ("insert", "emplace") and len(a) == 2 and len(els) < 24 and ps and "pair<" in ps[0]:
        skey = "<std::__cxx11::basic_string" in fn.ctx[:48]
        key = rd(E, st, a[1]) if skey else E.load(st, a[1], 4)
        outs, cur = [], st
        many = "::multi" in strip_templates(fn.ctx)
        pair = lambda e, new: None if ins["ty"] == "v" else it(E, this, e) if many else ("A", it(E, this, e), new)
        for e in () if many else els:
            b = str_eq(rd(E, cur, e), key) if skey else cmp_("eq", E.load(cur, e, 4), key)
            d = E.decide(cur, b)
            if d is False: continue
            if d is True: return (True, outs + [Outcome("ret", cur, pair(e, 0))])
            s2 = cur.fork()
            if E.assume(s2, b, True): outs.append(Outcome("ret", s2, pair(e, 0)))
            if not E.assume(cur, b, False): return (True, outs)
        n = new_el(E, cur, ins)
        for k in [k for k in cur.mem if k[0] == ("S", n)]: del cur.mem[k]
        copy_into(E, cur, n, a[1], second_off + 8)
        setseq(E, cur, this, els + (n,))
        return (True, outs + [Outcome("ret", cur, pair(n, 1))])
    # maps: a linear search over the known keys, forking when equality is unknown
    if base in ("find", "count", "operator[]", "at", "erase", "lower_bound"):
        if base == "erase" and ps and "iterator" in ps[0]:
            v = a[-1]
            if is_ptr(v): v = E.load(st, v)
            if is_it(v) and v[1][3] in els:
                nx = step(E, st, v, 1)
                remove(E, st, this, fn, (v[1][3],))
                return (True, nx if ins["ty"] != "v" else None)
            drop(E, st, this); return NO
        skey = "<std::__cxx11::basic_string" in fn.ctx[:48]
        key = rd(E, st, a[-1]) if skey else E.load(st, a[-1], 4)
        outs = []
        cur = st

        def found(s, e):
            if base in ("find", "lower_bound"): return it(E, this, e) if not sret else None
            if base == "count": return 1
            if base == "erase":
                remove(E, s, this, fn, (e,)); return 1
            return ("P", ("S", e), second_off)
        for e in els:
            b = str_eq(rd(E, cur, e), key) if skey else cmp_("eq", E.load(cur, e, 4), key)
            d = E.decide(cur, b)
            if d is False: continue
            if d is True:
                outs.append(Outcome("ret", cur, found(cur, e))); return (True, outs)
            s2 = cur.fork()
            if E.assume(s2, b, True): outs.append(Outcome("ret", s2, found(s2, e)))
            if not E.assume(cur, b, False): return (True, outs)
        if base == "lower_bound":       # the order of the keys is not known: any other entry
            for e in els:
                s2 = cur.fork()
                outs.append(Outcome("ret", s2, it(E, this, e)))
        if base in ("find", "lower_bound"): outs.append(Outcome("ret", cur, end(E, this)))
        elif base in ("count", "erase"): outs.append(Outcome("ret", cur, 0))
        elif base == "operator[]":
            n = new_el(E, cur, ins)
            if skey: wr(E, cur, n, key)
            else: E.store(cur, n, key)
            setseq(E, cur, this, els + (n,))
            E.store(cur, ("P", ("S", n), second_off), 0)
            outs.append(Outcome("ret", cur, ("P", ("S", n), second_off)))
        else: outs.append(Outcome("throw", cur, ("_ZTISt12out_of_range", ("s", ("oor",)))))
        return (True, outs)
    lost(E, fn)
    drop(E, st, this)
    return NO
