"""Models of the C++ runtime, std and boost facilities used by the library."""
import re
from engine import (Outcome, Stop, U, is_ptr, is_sym, ladd, lscale, lin, mklin, cmp_, bneg, as_bool)
from names import split_params, strip_templates

SC, SO, CAT, SUB = "sc", "so", "cat", "sub"
EMPTY = (SC, b"")


# ------------------------------------------------------------------ string terms
def cat(a, b):
    pa = list(a[1]) if a[0] == CAT else [a]
    pb = list(b[1]) if b[0] == CAT else [b]
    out = []
    for x in pa + pb:
        if x == EMPTY: continue
        if out and out[-1][0] == SC and x[0] == SC: out[-1] = (SC, out[-1][1] + x[1])
        else: out.append(x)
    if not out: return EMPTY
    if len(out) == 1: return out[0]
    if len(out) > 24: return (SO, ("long",))
    return (CAT, tuple(out))


def slen(t):
    if t[0] == SC: return len(t[1])
    if t[0] == CAT:
        r = 0
        for x in t[1]: r = ladd(r, slen(x))
        return r
    if t[0] == SO and t[1][0] == "memstr": return t[1][2]
    if t[0] == SO and t[1][0] == "edited": return slen(t[1][1])
    if t[0] == SUB and len(t) == 4:
        return ladd(slen(t[1]), t[2], -1) if t[3] is None else t[3]
    return ("len", t)


def sub(t, pos, n, exact=False):
    if t[0] == SC and isinstance(pos, int) and (n is None or isinstance(n, int)):
        return (SC, t[1][pos:] if n is None else t[1][pos:pos + n])
    if pos == 0 and (n is None or n == slen(t)): return t
    if n == 0: return EMPTY
    if t[0] == CAT and isinstance(pos, int) and pos >= 0 and (n is None or isinstance(n, int)) and all(x[0] == SC or (x[0] == SO and x[1][0] == "memstr" and x[1][2] == 1) for x in t[1]):
        one = []        # character by character
        for x in t[1]: one += [(SC, x[1][k:k + 1]) for k in range(len(x[1]))] if x[0] == SC else [x]
        r = EMPTY
        for x in one[pos:] if n is None else one[pos:pos + n]: r = cat(r, x)
        return r
    if n is not None and not exact: return (SUB, t, pos, n, "cut")     # at most n characters
    return (SUB, t, pos, n)


def rd(E, st, p):
    """abstract content of the std::string object at p"""
    q = E.norm_ptr(p)
    if q is None: return (SO, ("null",))
    if q[0] in st.freed: E.mem_error(st, "use-after-free", p)
    v = st.mem.get(q)
    if isinstance(v, tuple) and v[:1] == ("str",): return v[1]
    t = (SO, ("str", q[0], q[1], st.hv.get(q[0], 0)))
    st.mem[q] = ("str", t)
    return t


def wr(E, st, p, t):
    q = E.norm_ptr(p)
    if q is None: return
    if q[0] in st.freed: E.mem_error(st, "use-after-free", p)
    st.mem[q] = ("str", t)
    if E.mon: E.mon.on_strwrite(E, st, q, t)


def cstr(E, st, p):
    """abstract content of a NUL terminated char array"""
    if is_sym(p) and p[1][0] == "cstr":
        t = p[1][1]
        # neither a number nor what was read up to a NUL has one inside
        return t if t[0] == SC or (t[0] == SO and t[1][0] in ("lex", "cstrof")) else (SO, ("cstrof", t))
    if is_ptr(p) and p[1][0] == "G" and isinstance(p[2], int):
        g = E.prog.globals.get(p[1][1])
        if g and g.get("const") and "init" in g:
            i = g["init"]
            if i[0] == "s":
                b = bytes(x & 255 for x in i[1])[p[2]:]
                k = b.find(0)
                return (SC, b[:k] if k >= 0 else b)
            if i[0] == "z": return EMPTY
            if i[0] == "arr" and i[1] == 1:
                b = bytes((x[1] & 255) for x in i[2] if x[0] == "c")[p[2]:]
                k = b.find(0)
                return (SC, b[:k] if k >= 0 else b)
    if isinstance(p, tuple) and p and p[0] == "sel":
        return (SO, ("selstr", p))
    if hasattr(E, "buffer"):
        t = E.buffer(st, p, None)
        if t is not None: return t
    q = E.norm_ptr(p)
    stamp = st.hv.get(q[0], 0) if q else 0
    return (SO, ("chars", p, stamp))


def const_str(t):
    return t[1] if t[0] == SC else None


def opaque_str(E, st, ins, kind, *deps):
    return (SO, (kind,) + deps)


# ------------------------------------------------------------------ std::string
def m_string_ctor(E, st, fn, a, ins):
    ps = split_params(fn.dem)
    this = a[0]
    if not ps: wr(E, st, this, EMPTY); return None
    p0 = ps[0]
    if "basic_string" in p0 and ("const&" in p0 or "&&" in p0):
        t = rd(E, st, a[1])
        if len(ps) >= 2 and "unsigned long" in ps[1]:
            n = None
            if len(ps) >= 3 and "unsigned long" in ps[2]: n = a[3]
            if n == -1: n = None
            t = sub(t, a[2], n)
        elif "&&" in p0: wr(E, st, a[1], EMPTY)
        wr(E, st, this, t); return None
    if p0.startswith("char const*") and (len(ps) < 2 or "allocator" in ps[1]):
        if a[1] == 0:
            E.mem_error(st, "null-string", a[1])
            return [Outcome("throw", st, ("_ZTISt11logic_error", ("s", ("nullstr",))))]
        if E.decide(st, as_bool(a[1])) is None and E.nullable(a[1]):
            s2 = st.fork()
            E.assume(s2, as_bool(a[1]), False)
            s2.note(E.cur_loc(s2), "std::string constructed from a null pointer")
            E.mem_error(s2, "null-string", a[1])
            E.assume(st, as_bool(a[1]), True)
            wr(E, st, this, cstr(E, st, a[1]))
            return [Outcome("throw", s2, ("_ZTISt11logic_error", ("s", ("nullstr",)))), Outcome("ret", st, None)]
        wr(E, st, this, cstr(E, st, a[1])); return None
    if p0.startswith("char const*") or p0.startswith("char*"):
        if len(ps) >= 2 and ps[1].startswith("char"):     # iterator pair
            n = ladd(a[2], a[1], -1)
        else:
            n = a[2]
            if isinstance(n, tuple) and is_ptr(n): n = E.load(st, n)
        wr(E, st, this, memstr(E, st, a[1], n)); return None
    if p0.startswith("unsigned long") and len(ps) >= 2 and ps[1].startswith("char"):
        if isinstance(a[1], int) and isinstance(a[2], int) and 0 <= a[1] < 64: wr(E, st, this, (SC, bytes([a[2] & 255]) * a[1]))
        else: wr(E, st, this, fill(a[1], a[2]))
        return None
    if "__normal_iterator" in p0:
        wr(E, st, this, iter_sub(E, st, a[1], a[2])); return None
    if "allocator" in p0 and len(ps) == 1: wr(E, st, this, EMPTY); return None
    wr(E, st, this, (SO, ("ctor", fn.name) + tuple(x for x in a[1:])))
    return None


def fill(n, c):
    """n times the same character"""
    if n == 0: return EMPTY
    if isinstance(n, int) and isinstance(c, int) and 0 < n < 64: return (SC, bytes([c & 255]) * n)
    return (SO, ("memstr", ("chr" if n == 1 else "fill", c), n))


def memstr(E, st, p, n):
    if is_sym(p) and p[1][0] == "cstr" and n == slen(p[1][1]): return p[1][1]
    if is_ptr(p) and p[1][0] == "G" and isinstance(n, int):
        b = raw_bytes(E, p, n)
        if b is not None: return (SC, b)
    if n == 0: return EMPTY
    if hasattr(E, "buffer"):
        t = E.buffer(st, p, n)
        if t is not None: return t
    q = E.norm_ptr(p)
    return (SO, ("memstr", (p, st.hv.get(q[0], 0) if q else 0), n))


def portion(E, st, p, n):
    """whether n is a constant number of characters, fewer than the text at p has"""
    return isinstance(n, int) and is_sym(p) and p[1][0] == "cstr" and E.decide(st, cmp_("lt", n, slen(p[1][1]))) is True


def raw_bytes(E, p, n):
    g = E.prog.globals.get(p[1][1])
    if g and g.get("const") and g.get("init", ["?"])[0] == "s" and isinstance(p[2], int):
        b = bytes(x & 255 for x in g["init"][1])[p[2]:p[2] + n]
        return b if len(b) == n else None
    return None


def iter_sub(E, st, b, e):
    """characters between two string iterators"""
    pb, pe = sit(b), sit(e)
    if pb and pe and pb[0] == pe[0]:
        t = pb[0]
        if pe[1] == slen(t): return sub(t, pb[1], None)
        n = ladd(pe[1], pb[1], -1)
        return sub(t, pb[1], n, True)
    if is_ptr(b) or is_ptr(e): return (SO, ("iters", b, e))
    return (SO, ("iters", b, e))


def sit(v):
    """string iterator value -> (term, pos)"""
    if isinstance(v, tuple) and v:
        if v[0] == "s" and v[1][0] == "sit": return v[1][1], v[1][2]
        if v[0] == "P" and v[1][0] == "S" and is_sym(v[1][1]) and v[1][1][1][0] == "sit":
            k = v[1][1][1]
            return k[1], ladd(k[2], v[2])
    return None


def mk_sit(t, pos):
    return ("s", ("sit", t, pos))


def arg_str(E, st, ty, v):
    """string content of an argument of type std::string / char const* / char"""
    if "basic_string" in ty: return rd(E, st, v)
    if ty.startswith("char const*") or ty.startswith("char const ("): return cstr(E, st, v)
    if ty.strip() in ("char", "char const&"):
        if isinstance(v, int): return (SC, bytes([v & 255]))
        return (SO, ("memstr", ("chr", v), 1))
    return (SO, ("arg", v))


def m_str_assign(E, st, fn, a, ins):
    ps = split_params(fn.dem)
    base = strip_templates(fn.base)
    if base == "assign" and len(ps) >= 2 and ps[0].startswith("char const*"):
        wr(E, st, a[0], memstr(E, st, a[1], a[2])); return a[0]
    if base == "assign" and len(ps) >= 2 and "__normal_iterator" in ps[0]:
        wr(E, st, a[0], iter_sub(E, st, a[1], a[2])); return a[0]
    t = arg_str(E, st, ps[0], a[1])
    if len(ps) >= 3 and "basic_string" in ps[0]: t = sub(t, a[2], None if a[3] == -1 else a[3])
    if "&&" in ps[0] and a[0] != a[1]: wr(E, st, a[1], EMPTY)
    wr(E, st, a[0], t)
    return a[0]


def m_str_append(E, st, fn, a, ins):
    ps = split_params(fn.dem)
    if len(ps) == 2 and ps[0].startswith("char const*"): t = memstr(E, st, a[1], a[2])
    elif len(ps) >= 2 and "__normal_iterator" in ps[0]: t = iter_sub(E, st, a[1], a[2])
    elif len(ps) >= 2 and ps[0].startswith("unsigned long"): t = fill(a[1], a[2])
    else:
        t = arg_str(E, st, ps[0], a[1])
        if len(ps) >= 3 and "basic_string" in ps[0]: t = sub(t, a[2], None if a[3] == -1 else a[3])
    wr(E, st, a[0], cat(rd(E, st, a[0]), t))
    return a[0] if strip_templates(fn.base) != "push_back" else None


def m_str_insert(E, st, fn, a, ins):
    ps = split_params(fn.dem)
    cur = rd(E, st, a[0])
    if ps and ps[0] == "unsigned long" and len(ps) == 2:
        t = arg_str(E, st, ps[1], a[2])
        if a[1] == 0: wr(E, st, a[0], cat(t, cur)); return a[0]
        if a[1] == slen(cur): wr(E, st, a[0], cat(cur, t)); return a[0]
        wr(E, st, a[0], cat(cat(sub(cur, 0, a[1], True), t), sub(cur, a[1], None))); return a[0]
    wr(E, st, a[0], (SO, ("insert", cur) + tuple(a[1:])))
    return a[0]


def m_str_erase(E, st, fn, a, ins):
    ps = split_params(fn.dem)
    cur = rd(E, st, a[0])
    if ps and ps[0] == "unsigned long":
        pos, n = a[1], a[2]
        head = sub(cur, 0, pos, True)
        tail = EMPTY if n == -1 else sub(cur, ladd(pos, n), None)
        if pos == 0 and n == slen(cur): r = EMPTY
        else: r = cat(head, tail)
        s2 = None
        # position beyond the end raises out_of_range
        over = cmp_("lt", slen(cur), pos)
        d = False if pos == 0 else E.decide(st, over)
        if d is True: return [Outcome("throw", st, ("_ZTISt12out_of_range", ("s", ("oor",))))]
        outs = []
        if d is None:
            s2 = st.fork()
            if E.assume(s2, over, True):
                s2.note(E.cur_loc(s2), "string::erase position beyond the end")
                outs.append(Outcome("throw", s2, ("_ZTISt12out_of_range", ("s", ("oor",)))))
            E.assume(st, over, False)
        wr(E, st, a[0], r)
        return outs + [Outcome("ret", st, a[0])]
    if not ps:
        wr(E, st, a[0], EMPTY); return a[0]
    if len(ps) == 2:
        pb, pe = sit(a[1]), sit(a[2])
        if pb and pe and pb[0] == cur:
            wr(E, st, a[0], cat(sub(cur, 0, pb[1], True), sub(cur, pe[1], None)))
            return mk_sit(rd(E, st, a[0]), pb[1])
    wr(E, st, a[0], (SO, ("erase", cur) + tuple(a[1:])))
    return ("s", ("erit", a[0]))


def m_str_clear(E, st, fn, a, ins):
    wr(E, st, a[0], EMPTY)
    return None


def m_str_len(E, st, fn, a, ins):
    return slen(rd(E, st, a[0]))


def m_str_empty(E, st, fn, a, ins):
    return str_eq(rd(E, st, a[0]), EMPTY)


def m_str_cstr(E, st, fn, a, ins):
    return ("s", ("cstr", rd(E, st, a[0])))


def m_str_substr(E, st, fn, a, ins):
    # sret, this, pos, n
    t = rd(E, st, a[1])
    over = cmp_("lt", slen(t), a[2])
    d = False if a[2] == 0 else E.decide(st, over)
    outs = []
    if d is True: return [Outcome("throw", st, ("_ZTISt12out_of_range", ("s", ("oor",))))]
    if d is None:
        s2 = st.fork()
        if E.assume(s2, over, True):
            outs.append(Outcome("throw", s2, ("_ZTISt12out_of_range", ("s", ("oor",)))))
        E.assume(st, over, False)
    n = None if a[3] == -1 else a[3]
    exact = n is not None and E.decide(st, cmp_("lt", slen(t), ladd(a[2], n))) is False
    wr(E, st, a[0], sub(t, a[2], n, exact))
    return outs + [Outcome("ret", st, None)]


def m_str_plus(E, st, fn, a, ins):
    ps = split_params(fn.dem)
    wr(E, st, a[0], cat(arg_str(E, st, ps[0], a[1]), arg_str(E, st, ps[1], a[2])))
    return None


def filled(t):
    """certainly not empty"""
    if t[0] == CAT: return any(filled(x) for x in t[1])
    return t[0] == SC and bool(t[1]) or t[0] == SO and t[1][:1] == ("lex",)


def str_eq(t1, t2):
    if t1 == t2: return 1
    if t1[0] == SC and t2[0] == SC: return 1 if t1[1] == t2[1] else 0
    for x, y in ((t1, t2), (t2, t1)):
        if x == EMPTY: return 0 if filled(y) else cmp_("eq", slen(y), 0)
    a, b = sorted((t1, t2), key=repr)
    return ("ub", ("streq", a, b), False)


def m_str_eqop(E, st, fn, a, ins):
    ps = split_params(fn.dem)
    if "basic_string" not in "".join(ps): return generic(E, st, fn, a, ins)
    r = str_eq(arg_str(E, st, ps[0], a[0]), arg_str(E, st, ps[1], a[1]))
    if strip_templates(fn.base) == "operator!=": r = bneg(r)
    return r


def m_str_compare(E, st, fn, a, ins):
    ps = split_params(fn.dem)
    if len(ps) == 1:
        r = str_eq(rd(E, st, a[0]), arg_str(E, st, ps[0], a[1]))
    elif len(ps) == 3 and "basic_string" in ps[2] or len(ps) == 3 and ps[2].startswith("char"):
        t = rd(E, st, a[0])
        n = None if a[2] == -1 else a[2]
        exact = n is not None and E.decide(st, cmp_("lt", slen(t), ladd(a[1], n))) is False
        r = str_eq(sub(t, a[1], n, exact), arg_str(E, st, ps[2], a[3]))
    else: return E.fresh(st, "strcmp", ins["id"])
    if isinstance(r, int): return 0 if r else 1
    outs = []
    s2 = st.fork()
    if E.assume(s2, r, True): outs.append(Outcome("ret", s2, 0))
    if E.assume(st, r, False):
        v = E.fresh(st, "strcmp", ins["id"])
        E.assume(st, cmp_("eq", v, 0), False)
        outs.append(Outcome("ret", st, v))
    return outs


def m_str_find(E, st, fn, a, ins):
    ps = split_params(fn.dem)
    t = rd(E, st, a[0])
    pat = arg_str(E, st, ps[0], a[1])
    base = strip_templates(fn.base)
    start = a[2] if len(a) > 2 else 0
    if hasattr(E, "find_char"):
        outs = E.find_char(st, base, t, pat, start)
        if outs is not None: return outs
    if t[0] == SC and pat[0] == SC and isinstance(start, int):
        if base == "find": return t[1].find(pat[1], start if start >= 0 else len(t[1]))
        if base == "rfind": return t[1].rfind(pat[1])
        at = [i for i, c in enumerate(t[1]) if i >= start]
        if base == "find_first_of": return next((i for i in at if t[1][i] in pat[1]), -1)
        if base == "find_first_not_of": return next((i for i in at if t[1][i] not in pat[1]), -1)
    if pat[0] == SC and start == 0 and base in ("find", "find_first_of"):
        n = len(pat[1]) if base == "find" else 1
        key = pat if base == "find" or len(pat[1]) == 1 else (SO, ("any of", pat))
        fpos, found = ("s", ("fpos", t, key)), ("ub", ("has", t, key), False)
        outs = []
        s2 = st.fork()
        if E.assume(s2, found, False): outs.append(Outcome("ret", s2, -1))
        if E.assume(st, found, True):
            E.assume(st, cmp_("lt", fpos, 0), False)
            E.assume(st, cmp_("lt", slen(t), ladd(fpos, n)), False)
            outs.append(Outcome("ret", st, fpos))
        return outs
    return ("s", ("strfind", base, t, pat, start))


def editable(E, st, fn, p, t):
    """the characters of this string can be written through what is returned"""
    if not fn.dem.rstrip().endswith("const") and E.norm_ptr(p): E.editable.setdefault(t, set()).add(E.norm_ptr(p))


def m_str_index(E, st, fn, a, ins):
    t = rd(E, st, a[0])
    editable(E, st, fn, a[0], t)
    return ("P", ("S", ("s", ("cstr", t))), a[1]) if a[1] != 0 else ("s", ("cstr", t))


def m_str_begin(E, st, fn, a, ins):
    editable(E, st, fn, a[0], rd(E, st, a[0]))
    return mk_sit(rd(E, st, a[0]), 0)


def m_str_end(E, st, fn, a, ins):
    t = rd(E, st, a[0])
    return mk_sit(t, slen(t))


def m_str_dtor(E, st, fn, a, ins):
    q = E.norm_ptr(a[0])
    if q: st.mem.pop(q, None)
    return None


def m_str_swap(E, st, fn, a, ins):
    x, y = rd(E, st, a[0]), rd(E, st, a[1])
    wr(E, st, a[0], y); wr(E, st, a[1], x)
    return None


def m_str_resize(E, st, fn, a, ins):
    t = rd(E, st, a[0])
    if E.decide(st, cmp_("lt", slen(t), a[1])) is False: wr(E, st, a[0], sub(t, 0, a[1], True))
    elif isinstance(a[1], int) and a[1] == 0: wr(E, st, a[0], EMPTY)
    else: wr(E, st, a[0], (SO, ("memstr", ("resized", t), a[1])))
    return None


def m_str_at(E, st, fn, a, ins):
    inb = cmp_("lt", a[1], slen(rd(E, st, a[0])))
    outs = []
    if E.decide(st, inb) is not True:
        s2 = st.fork()
        if E.assume(s2, inb, False): outs.append(Outcome("throw", s2, ("_ZTISt12out_of_range", ("s", ("oor",)))))
    if E.assume(st, inb, True): outs.append(Outcome("ret", st, m_str_index(E, st, fn, a, ins)))
    return outs


def m_str_front(E, st, fn, a, ins):
    return m_str_index(E, st, fn, [a[0], 0], ins)


def m_str_back(E, st, fn, a, ins):
    return m_str_index(E, st, fn, [a[0], ladd(slen(rd(E, st, a[0])), -1)], ins)


def m_str_pop_back(E, st, fn, a, ins):
    t = rd(E, st, a[0])
    wr(E, st, a[0], sub(t, 0, ladd(slen(t), -1), True))
    return None


STRING = {
    "string": m_string_ctor, "~string": m_str_dtor, "operator=": m_str_assign, "assign": m_str_assign,
    "append": m_str_append, "operator+=": m_str_append, "push_back": m_str_append, "insert": m_str_insert,
    "erase": m_str_erase, "clear": m_str_clear, "size": m_str_len, "length": m_str_len, "empty": m_str_empty,
    "c_str": m_str_cstr, "data": m_str_cstr, "substr": m_str_substr, "compare": m_str_compare,
    "find": m_str_find, "rfind": m_str_find, "find_first_of": m_str_find, "find_first_not_of": m_str_find,
    "find_last_of": m_str_find, "find_last_not_of": m_str_find,
    "operator[]": m_str_index, "at": m_str_at, "front": m_str_front, "back": m_str_back, "pop_back": m_str_pop_back, "begin": m_str_begin, "end": m_str_end, "cbegin": m_str_begin, "cend": m_str_end,
    "swap": m_str_swap, "resize": m_str_resize,
    "reserve": lambda E, st, fn, a, ins: None, "capacity": lambda E, st, fn, a, ins: E.fresh(st, "cap", ins["id"]),
    "shrink_to_fit": lambda E, st, fn, a, ins: None,
    "max_size": lambda E, st, fn, a, ins: E.fresh(st, "maxsz", ins["id"]),
}


# ------------------------------------------------------------------ streams
def ss_cell(E, st, p):
    q = E.norm_ptr(p)
    return (q[0], ("ss", q[1]))


def m_oss_ctor(E, st, fn, a, ins):
    st.mem[ss_cell(E, st, a[0])] = ("str", EMPTY)
    return None


def m_oss_str(E, st, fn, a, ins):
    if ins.get("sret"):
        v = st.mem.get(ss_cell(E, st, a[1]))
        wr(E, st, a[0], v[1] if v else (SO, ("ssunk", a[1])))
        return None
    st.mem[ss_cell(E, st, a[0])] = ("str", rd(E, st, a[1]))
    return None


def ss_append(E, st, stream, t):
    q = E.norm_ptr(stream)
    if q is None or q[0][0] == "G": return
    c = ss_cell(E, st, stream)
    v = st.mem.get(c)
    st.mem[c] = ("str", cat(v[1], t) if v else (SO, ("ssunk", stream)))


def m_ostream_ins(E, st, fn, a, ins):
    ps = split_params(fn.dem)
    if len(ps) == 2:        # free operator<<(ostream&, X)
        ty, v = ps[1], a[1]
        stream = a[0]
    else:
        ty, v, stream = ps[0] if ps else "", a[1], a[0]
    if "basic_string" in ty or ty.startswith("char"):
        t = arg_str(E, st, ty, v)
    elif "(*)" in ty:
        t = EMPTY if "ios_base" in ty else (SC, b"\n")
    else:
        t = (SO, ("lex", v)) if not isinstance(v, int) else (SC, str(v).encode())
    ss_append(E, st, stream, t)
    return stream


# ------------------------------------------------------------------ containers
def ccell(E, p, what):
    q = E.norm_ptr(p)
    if q is None: raise Stop("null container")
    return (q[0], (what, q[1]))


def csize(E, st, p):
    c = ccell(E, p, "csz")
    v = st.mem.get(c)
    if v is None:
        v = ("s", ("size", c[0], c[1], st.hv.get(c[0], 0)))
        st.mem[c] = v
    return E.subst(st, v)


def cver(E, st, p):
    c = ccell(E, p, "cver")
    return (c[0], c[1][1], st.mem.get(c, 0), st.hv.get(c[0], 0))


def bump(E, st, p, ins, size=None):
    c = ccell(E, p, "cver")
    f = st.frames[-1]
    old = st.mem.get(c, 0)
    n = old[2] + 1 if isinstance(old, tuple) and old[:2] == (f.ctx, ins["id"]) else 0
    st.mem[c] = (f.ctx, ins["id"], min(n, 3))
    if size is not None: st.mem[ccell(E, p, "csz")] = size
    else:
        st.mem[ccell(E, p, "csz")] = ("s", ("size", c[0], c[1], st.mem[c]))


def is_map(fn):
    c = fn.ctx
    return c.startswith("std::map<") or c.startswith("std::multimap<") or c.startswith("std::set<") or c.startswith("std::unordered_map<")


def mkey(E, st, fn, p):
    c = fn.ctx
    if c.startswith(("std::map<std::__cxx11::basic_string", "std::unordered_map<std::__cxx11::basic_string", "std::multimap<std::__cxx11::basic_string", "std::set<std::__cxx11::basic_string")):
        return rd(E, st, p)
    return E.load(st, p)


def second_off(fn):
    return 32 if "<std::__cxx11::basic_string" in fn.ctx[:48] else 8


def m_cont(E, st, fn, a, ins):
    base = strip_templates(fn.base)
    cls = strip_templates(fn.ctx).rsplit("::", 1)[-1]
    ps = split_params(fn.dem)
    if E.mon:
        r = E.mon.container_result(E, st, base, a, ins, fn)
        if r is not None: return r
    if E.known:
        import known
        ok, r = known.cont(E, st, fn, a, ins, base, ps, is_map(fn), second_off(fn))
        if ok: return r
    if fn.cd:
        if "~" in fn.dem.split("(")[0].rsplit("::", 1)[-1]:
            return None
        if not ps or (len(ps) == 1 and "allocator" in ps[0] and "const&" in ps[0] and cls not in ps[0]):
            bump(E, st, a[0], ins, 0); return None
        if len(ps) >= 1 and ps[0].startswith("unsigned long"):
            bump(E, st, a[0], ins, a[1]); return None
        if len(ps) == 1 and is_ptr(a[1]) or is_sym(a[1]):
            try: bump(E, st, a[0], ins, csize(E, st, a[1]))
            except Stop: bump(E, st, a[0], ins)
            return None
        bump(E, st, a[0], ins); return None
    if base == "size": return csize(E, st, a[0])
    if base == "empty": return cmp_("eq", csize(E, st, a[0]), 0)
    if base in ("push_back", "push_front", "emplace_back", "push", "emplace_front"):
        sz = csize(E, st, a[0])
        if E.mon: E.mon.on_container(E, st, base, a, ins, fn)
        st.mem[ccell(E, a[0], "csz")] = ladd(sz, 1)
        if not isinstance(sz, int): E.assume(st, cmp_("lt", sz, 0), False)
        return ("s", ("back", cver(E, st, a[0]))) if ins["ty"] != "v" else None
    if base in ("pop_front", "pop_back", "pop"):
        if E.mon: E.mon.on_container(E, st, base, a, ins, fn)
        sz = csize(E, st, a[0])
        bump(E, st, a[0], ins, ladd(sz, -1))
        return None
    if base in ("front", "back", "top"):
        if E.mon: E.mon.on_container(E, st, base, a, ins, fn)
        return ("s", ("elt", base, cver(E, st, a[0])))
    if base == "clear":
        if E.mon: E.mon.on_container(E, st, base, a, ins, fn)
        bump(E, st, a[0], ins, 0); return None
    if base == "swap":
        x, y = csize(E, st, a[0]), csize(E, st, a[1])
        bump(E, st, a[0], ins, y); bump(E, st, a[1], ins, x)
        if E.mon: E.mon.on_container(E, st, base, a, ins, fn)
        return None
    if base in ("begin", "cbegin", "rbegin"):
        if ins.get("sret"):
            E.store(st, a[0], ("s", ("it", "begin", cver(E, st, a[1])))); return None
        return ("s", ("it", "begin", cver(E, st, a[0])))
    if base in ("end", "cend", "rend"):
        if ins.get("sret"):
            E.store(st, a[0], ("s", ("it", "end", cver(E, st, a[1])[:2]))); return None
        return ("s", ("it", "end", cver(E, st, a[0])[:2]))
    if is_map(fn):
        if base == "find":
            return ("s", ("it", "find", cver(E, st, a[0]), mkey(E, st, fn, a[1])))
        if base == "count":
            return ("z", ("ub", ("found", cver(E, st, a[0]), mkey(E, st, fn, a[1])), False))
        if base in ("operator[]", "at"):
            k = mkey(E, st, fn, a[1])
            cv = cver(E, st, a[0])
            it = ("s", ("it", "find", cv, k))
            outs = []
            if base == "at":
                s2 = st.fork()
                if E.assume(s2, ("ub", ("found", cv, k), False), False):
                    outs.append(Outcome("throw", s2, ("_ZTISt12out_of_range", ("s", ("oor",)))))
            if E.mon: E.mon.on_container(E, st, base, a, ins, fn)
            node = ("s", ("node", it))
            was = st.facts.get(("ub", ("found", cv, k)))
            if base == "at" and not E.assume(st, ("ub", ("found", cv, k), False), True): return outs
            st.facts[("ub", ("found", cv, k))] = True
            if base == "operator[]" and was is not True:
                pass
            return outs + [Outcome("ret", st, ("P", ("S", node), second_off(fn)))]
        if base == "erase" and len(a) == 2:
            if E.mon: E.mon.on_container(E, st, base, a, ins, fn)
            key = None
            if "iterator" in ps[0]:
                it = a[1]
                if is_sym(it) and it[1][:2] == ("it", "find"): key = it[1][3]
            else: key = mkey(E, st, fn, a[1])
            bump(E, st, a[0], ins)
            if key is not None: st.facts[("ub", ("found", cver(E, st, a[0]), key))] = False
            return E.fresh(st, "erase", ins["id"]) if ins["ty"] != "v" else None
        if base in ("insert", "emplace", "insert_or_assign"):
            if E.mon: E.mon.on_container(E, st, base, a, ins, fn)
            bump(E, st, a[0], ins)
            E.assume(st, cmp_("eq", csize(E, st, a[0]), 0), False)
            if ins["ty"] != "v": return ("A", E.fresh(st, "insit", ins["id"]), E.fresh(st, "insb", ins["id"]))
            return None
    if base in ("operator[]", "at"):
        if E.mon: E.mon.on_container(E, st, base, a, ins, fn)
        idx = E.subst(st, a[1])
        r = ("s", ("elt", idx, cver(E, st, a[0])))
        if base == "at":
            sz = csize(E, st, a[0])
            inb = cmp_("lt", idx, sz)
            d = E.decide(st, inb)
            if d is True: return r
            outs = []
            s2 = st.fork()
            if E.assume(s2, inb, False):
                s2.note(E.cur_loc(s2), "at(): index out of range")
                outs.append(Outcome("throw", s2, ("_ZTISt12out_of_range", ("s", ("oor",)))))
            if E.assume(st, inb, True): outs.append(Outcome("ret", st, r))
            return outs
        return r
    if base == "erase":
        if ins["ty"] == "v" and len(a) == len(ps) + 2:      # iterators passed and returned in memory
            its = [E.load(st, x) for x in a[2:]]
            E.store(st, a[0], ("s", ("erit", st.frames[-1].ctx, ins["id"])))
            a = [a[1]] + its
        if E.mon: E.mon.on_container(E, st, base, a, ins, fn)
        bump(E, st, a[0], ins)
        return E.fresh(st, "eraseit", ins["id"]) if ins["ty"] != "v" else None
    if base == "operator=":
        try: bump(E, st, a[0], ins, csize(E, st, a[1]))
        except Stop: bump(E, st, a[0], ins)
        if E.mon: E.mon.on_container(E, st, base, a, ins, fn)
        return a[0]
    if base == "resize":
        bump(E, st, a[0], ins, a[1]); return None
    if base == "reserve": return None
    if base in ("data",): return ("s", ("elt", 0, cver(E, st, a[0])))
    if E.mon: E.mon.on_container(E, st, base, a, ins, fn)
    return generic(E, st, fn, a, ins)


def it_val(E, st, p):
    """iterator argument passed by reference -> value"""
    return E.load(st, p)


def iter_eq(E, st, x, y):
    if x == y: return 1
    for a, b in ((x, y), (y, x)):
        if is_sym(a) and a[1][0] == "it" and is_sym(b) and b[1][0] == "it":
            if b[1][1] == "end" and a[1][1] == "find" and a[1][2][:2] == b[1][2]:
                return ("ub", ("found", a[1][2], a[1][3]), True)
            if b[1][1] == "end" and a[1][1] == "begin" and a[1][2][:2] == b[1][2]:
                c = (b[1][2][0], ("csz", b[1][2][1]))
                sz = st.mem.get(c)
                if sz is not None: return cmp_("eq", E.subst(st, sz), 0)
                p = E.mkptr(b[1][2][0], b[1][2][1])
                return cmp_("eq", csize(E, st, p), 0)
    if is_sym(x) and is_sym(y) and x[1][0] == y[1][0] == "kit" and x[1][1:3] == y[1][1:3]: return 0
    sx, sy = sit(x), sit(y)
    if sx and sy and sx[0] == sy[0]: return cmp_("eq", sx[1], sy[1])
    a, b = sorted((x, y), key=repr)
    return ("ub", ("iteq", a, b), False)


def m_iter_cmp(E, st, fn, a, ins):
    ps = split_params(fn.dem)
    x = it_val(E, st, a[0]) if not isinstance(a[0], int) else a[0]
    y = it_val(E, st, a[1]) if not isinstance(a[1], int) else a[1]
    r = iter_eq(E, st, x, y)
    if strip_templates(fn.base) == "operator!=": r = bneg(r)
    return r


def is_str_iter(fn): return "char" in fn.dem.split("(")[0]


def m_std_find(E, st, fn, a, ins):
    """some element of the range, or its end"""
    if not ins.get("sret") and is_sym(a[0]) and a[0][1][:2] == ("it", "begin"):
        E.opaque(st, fn, a, ins, "std::find")
        return ("s", ("it", "some", a[0][1][2], (st.frames[-1].ctx, ins["id"])))
    return generic(E, st, fn, a, ins)


def m_iter(E, st, fn, a, ins):
    base = strip_templates(fn.base)
    if fn.cd:
        if len(a) > 1 and not isinstance(a[1], int):
            ps = split_params(fn.dem)
            v = E.load(st, a[1]) if ps and ps[0].endswith("&") else a[1]
            E.store(st, a[0], v)
        return None
    if base in ("operator->", "operator*"):
        v = E.load(st, a[0])
        if is_sym(v) and v[1][0] == "kit" and v[1][3] is not None: return v[1][3]
        s = sit(v)
        if s: return ("P", ("S", ("s", ("cstr", s[0]))), s[1]) if s[1] != 0 else ("s", ("cstr", s[0]))
        return ("s", ("node", v))
    if base in ("operator++", "operator--"):
        v = E.load(st, a[0])
        s = sit(v)
        d = 1 if base == "operator++" else -1
        k = None
        if is_sym(v) and v[1][0] == "kit":
            import known
            k = known.step(E, st, v, d)
        if k: nv = k
        elif s: nv = mk_sit(s[0], ladd(s[1], d))
        else:
            depth = v[1][1] if is_sym(v) and v[1][0] == "next" else 0
            nv = ("s", ("next", min(depth + 1, E.iter_depth), v[1][2] if depth else v, d, st.frames[-1].ctx))
        if len(a) > 1:
            # postfix
            if ins.get("sret"):
                E.store(st, a[0], v); return None
            E.store(st, a[0], nv); return v
        E.store(st, a[0], nv)
        return a[0]
    if base == "base": return a[0]
    if base in ("operator+", "operator-", "operator+=", "operator-="):
        if base in ("operator+", "operator-") and not ins.get("sret"):
            v = E.load(st, a[0]); s = sit(v)
            if s: return mk_sit(s[0], ladd(s[1], a[1], 1 if base == "operator+" else -1))
    return generic(E, st, fn, a, ins)


# ------------------------------------------------------------------ smart pointers modelled as a plain pointer cell
def m_counted(E, st, fn, a, ins, base, ps):
    """shared pointers with their use counted: the last one destroys the object (E.special)"""
    import known
    g = ("progress", st.frames[-1].ctx, ins["id"])
    gone = st.mon.pop(g, None)

    def take(p):
        if p != 0 and not isinstance(p, int): st.mon[("uses", p)] = st.mon.get(("uses", p), 0) + 1

    def leave(p):
        """-> outcome to run first, or None"""
        if gone is not None:
            E.free_obj(st, gone, ins); return None
        if isinstance(p, int) or ("uses", p) not in st.mon: return None
        n = st.mon[("uses", p)] - 1
        if n:
            st.mon[("uses", p)] = n; return None
        del st.mon[("uses", p)]
        cls = (known.value_type(fn) or [""])[0]
        d = known.special(E, cls, "destroy")
        if not d: E.free_obj(st, p, ins); return None
        st.mon[g] = p
        return [Outcome("redo", st, (d, (p,), 0))]
    if fn.cd and "~" in fn.dem.split("(")[0].rsplit("::", 1)[-1]:
        r = leave(E.load(st, a[0]) if gone is None else 0)
        return r if r else (None,)
    if fn.cd:
        if ps and "shared_ptr" in ps[0]:
            if "&&" not in ps[0]: take(E.load(st, a[1]))
        elif ps and len(a) > 1: take(a[1])
        return None
    if base == "reset" or base == "operator=":
        new = (a[1] if len(a) > 1 else 0) if base == "reset" else E.load(st, a[1])
        if gone is None:
            take(new)
            r = leave(E.load(st, a[0]))
            if r: return r
        else: leave(0)
        E.store(st, a[0], new)
        return (a[0] if base == "operator=" else None,)
    return None


def m_shared(E, st, fn, a, ins):
    base = strip_templates(fn.base)
    ps = split_params(fn.dem)
    if E.special is not None:
        r = m_counted(E, st, fn, a, ins, base, ps)
        if isinstance(r, tuple): return r[0]
        if r is not None: return r
    if fn.cd:
        if "~" in fn.dem.split("(")[0].rsplit("::", 1)[-1]: return None
        if not ps: E.store(st, a[0], 0); return None
        if "shared_ptr" in ps[0]:
            E.store(st, a[0], E.load(st, a[1]))
            if "&&" in ps[0]: E.store(st, a[1], 0)
            return None
        E.store(st, a[0], a[1] if len(a) > 1 else 0)
        return None
    if base in ("operator->", "get", "operator*"): return E.load(st, a[0])
    if base in ("operator bool",): return as_bool(E.load(st, a[0]))
    if base == "operator!": return bneg(as_bool(E.load(st, a[0])))
    if base == "reset":
        E.store(st, a[0], a[1] if len(a) > 1 else 0); return None
    if base == "operator=":
        if ps and "shared_ptr" in ps[0]:
            E.store(st, a[0], E.load(st, a[1]))
        return a[0]
    if base == "swap":
        x, y = E.load(st, a[0]), E.load(st, a[1])
        E.store(st, a[0], y); E.store(st, a[1], x); return None
    return generic(E, st, fn, a, ins)


# ------------------------------------------------------------------ generic
def generic(E, st, fn, a, ins):
    return E.opaque(st, fn, a, ins, E.short(fn))


def nop(E, st, fn, a, ins):
    return None


def m_new(E, st, fn, a, ins):
    f = st.frames[-1]
    base = ("new", f.ctx, ins["id"])
    g = st.gens.get(base, 0)
    st.gens[base] = min(g + 1, E.new_limit)
    ob = ("H", f.ctx, ins["id"], g)
    for k in [k for k in st.mem if k[0] == ob]: del st.mem[k]
    if ob in st.freed: st.freed = st.freed - {ob}
    if E.mon and fn.name != "__cxa_allocate_exception": E.mon.on_new(E, st, ob, a[0], ins)
    return ("P", ob, 0)


def m_delete(E, st, fn, a, ins):
    E.free_obj(st, a[0], ins)
    return None


def m_throw(E, st, fn, a, ins):
    ti = a[1][1][1] if is_ptr(a[1]) else "foreign"
    st.note(E.cur_loc(st), "throw %s" % ti)
    return [Outcome("throw", st, (ti, a[0]))]


def m_begin_catch(E, st, fn, a, ins):
    st.caught = st.caught + (st.exc,)
    st.note(E.cur_loc(st), "caught %s" % (st.exc[0] if st.exc else "?"))
    return a[0]


def m_end_catch(E, st, fn, a, ins):
    st.caught = st.caught[:-1]
    return None


def m_rethrow(E, st, fn, a, ins):
    e = st.caught[-1] if st.caught else ("foreign", U)
    return [Outcome("throw", st, e)]


def m_terminate(E, st, fn, a, ins):
    return [Outcome("end", st, "terminate")]


def m_typeid(E, st, fn, a, ins):
    return ("tid", a[0][1][1]) if is_ptr(a[0]) else ("tid", None)


def m_typetest(E, st, fn, a, ins):
    v, md = a
    if isinstance(md, tuple) and md[0] == "md" and is_sym(v):
        E.vt_types.setdefault(v, set()).add(md[1])
    return 1


def m_assume(E, st, fn, a, ins):
    if not E.assume(st, as_bool(a[0]), True): raise Stop("assume")
    return None


def m_memcpy(E, st, fn, a, ins):
    d, s, n = a[0], a[1], a[2]
    qd, qs = E.norm_ptr(d), E.norm_ptr(s)
    if qd is None or qs is None: return None
    n = E.subst(st, n)
    if not isinstance(n, int) or not isinstance(qd[1], int) or not isinstance(qs[1], int):
        E.havoc(st, d, None, ("mc", st.frames[-1].ctx, ins["id"])); return None
    for k in [k for k in st.mem if k[0] == qd[0] and isinstance(k[1], int) and qd[1] <= k[1] < qd[1] + n]: del st.mem[k]
    if qs[0][0] == "G":
        g = E.prog.globals.get(qs[0][1])
        if g and g.get("const"):
            for o in range(0, n):
                v = None
                E.global_cell(qs[0][1], 0)
                c = g.get("_cells", {})
                if qs[1] + o in c: st.mem[(qd[0], qd[1] + o)] = E.const(c[qs[1] + o])
            return None
    found = False
    for k in [k for k in st.mem if k[0] == qs[0] and isinstance(k[1], int) and qs[1] <= k[1] < qs[1] + n]:
        st.mem[(qd[0], qd[1] + k[1] - qs[1])] = st.mem[k]; found = True
    if not found and n in (1, 2, 4, 8):
        st.mem[qd] = E.load(st, s)
    # cells of the source that nobody looked at yet keep their identity in the copy
    for k in [k for k in st.mem if k[0] == qd[0] and isinstance(k[1], tuple) and k[1][0] == "cp" and qd[1] <= k[1][1] < qd[1] + n]: del st.mem[k]
    E.cp_objs.add(qd[0])
    if qs[0] in E.cp_objs:
        for k in [k for k in st.mem if k[0] == qs[0] and isinstance(k[1], tuple) and k[1][0] == "cp"]:
            _, o, m = k[1]
            if qs[1] <= o < qs[1] + n: st.mem[(qd[0], ("cp", o - qs[1] + qd[1], min(m, qs[1] + n - o)))] = st.mem[k]
            elif o <= qs[1] < o + m: st.mem[(qd[0], ("cp", qd[1], min(n, o + m - qs[1])))] = st.mem[k][:2] + (st.mem[k][2] + qs[1] - o,) + st.mem[k][3:]
            else: continue
            return None
    st.mem[(qd[0], ("cp", qd[1], n))] = ("cpr", qs[0], qs[1], st.hv.get(qs[0], 0))
    return None


def m_memset(E, st, fn, a, ins):
    q = E.norm_ptr(a[0])
    if q is None: return None
    n = E.subst(st, a[2])
    if isinstance(n, int) and isinstance(q[1], int) and a[1] == 0 and n <= 512:
        for k in [k for k in st.mem if k[0] == q[0] and isinstance(k[1], int) and q[1] <= k[1] < q[1] + n]: del st.mem[k]
        for o in range(0, n, 2): st.mem[(q[0], q[1] + o)] = 0
    else:
        E.havoc(st, a[0], n if isinstance(n, int) else None, ("ms", st.frames[-1].ctx, ins["id"]))
    return None


def m_errno(E, st, fn, a, ins):
    return ("P", ("G", "errno"), 0)


def m_dyncast(E, st, fn, a, ins):
    p, dst = a[0], a[2][1][1] if is_ptr(a[2]) else None
    if p == 0: return 0
    q = E.norm_ptr(p)
    vt = st.mem.get(q) if q else None
    if isinstance(vt, tuple) and is_ptr(vt) and vt[1][0] == "G" and vt[1][1].startswith("_ZTV"):
        ti = "_ZTI" + vt[1][1][4:]
        if E.hier.derives(ti, dst): return p
        return 0
    s2 = st.fork()
    key = ("ub", ("dyn", p, dst), False)
    outs = []
    if E.assume(s2, key, False):
        s2.note(E.cur_loc(s2), "dynamic_cast fails")
        outs.append(Outcome("ret", s2, 0))
    if E.assume(st, key, True): outs.append(Outcome("ret", st, p))
    return outs


WIDTH = {"int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64, "double": "double", "long long": 64}


def m_lexical(E, st, fn, a, ins):
    # result type: string via sret, else scalar
    if ins.get("sret") or fn.sret:
        ps = split_params(fn.dem)
        if "basic_string" in ps[0]:
            wr(E, st, a[0], rd(E, st, a[1])); return None
        v = E.load(st, a[1])
        wr(E, st, a[0], (SC, str(v).encode()) if isinstance(v, int) else (SO, ("lex", v, WIDTH.get(ps[0].replace("const", "").strip(" &")))))
        return None
    ps = split_params(fn.dem)
    t = arg_str(E, st, ps[0], a[0]) if ps and ("basic_string" in ps[0] or "char" in ps[0]) else (SO, ("x", a[0]))
    w = {"i32": 32, "i64": 64, "double": "double"}.get(str(fn.ret))
    if t[0] == SC and isinstance(w, int) and re.match(rb"^-?\d{1,9}$", t[1]): return int(t[1])
    if t[0] == SO and t[1][0] == "lex":
        o = t[1][2] if len(t[1]) > 2 else None
        if None in (o, w) or o == w or (isinstance(o, int) and (w == "double" or w > o)): return t[1][1]
    s2 = st.fork()
    outs = []
    ok = ("ub", ("lexok", t, fn.ret), False)
    if E.assume(s2, ok, False):
        s2.note(E.cur_loc(s2), "lexical_cast fails")
        outs.append(Outcome("throw", s2, ("_ZTIN5boost16bad_lexical_castE", ("s", ("lexexc",)))))
    if E.assume(st, ok, True): outs.append(Outcome("ret", st, ("s", ("lexval", t, fn.ret))))
    return outs


def m_lower(E, st, fn, a, ins):
    t = rd(E, st, a[0])
    wr(E, st, a[0], (SC, t[1].lower()) if t[0] == SC else (t if t[0] == SO and t[1][0] == "lower" else (SO, ("lower", t))))
    return None


def m_find_first(E, st, fn, a, ins):
    # iterator_range find_first(string&, pattern) ; result returned as {ptr,ptr} or sret
    ps = split_params(fn.dem)
    off = 1 if ins.get("sret") else 0
    t = rd(E, st, a[off])
    pat = cstr(E, st, a[off + 1]) if "basic_string" not in ps[1] else rd(E, st, a[off + 1])
    fpos = ("s", ("fpos", t, pat))
    found = ("ub", ("has", t, pat), False)
    s2 = st.fork()
    outs = []
    for s, val in ((s2, False), (st, True)):
        if not E.assume(s, found, val): continue
        s.note(E.cur_loc(s), "find_first(%s) %s" % (pat[1] if pat[0] == SC else "?", "found" if val else "not found"))
        if val:
            E.assume(s, cmp_("lt", fpos, 0), False)
            # position + pattern length fits into the text
            E.assume(s, cmp_("lt", slen(t), ladd(fpos, slen(pat))), False)
            b, e = mk_sit(t, fpos), mk_sit(t, ladd(fpos, slen(pat)))
        else:
            b = e = mk_sit(t, slen(t))
        if ins.get("sret"):
            E.store(s, a[0], b); E.store(s, E.padd(a[0], 8), e)
            outs.append(Outcome("ret", s, None))
        else:
            outs.append(Outcome("ret", s, ("A", b, e)))
    return outs


AFFIX = {"boost::algorithm::" + i + n for i in ("", "i") for n in ("starts_with", "ends_with", "contains", "equals")}


def m_affix(E, st, fn, a, ins):
    """starts_with / ends_with / contains / equals and their case-insensitive forms: a predicate of both texts"""
    ps = split_params(fn.dem)
    x = [rd(E, st, v) if "basic_string" in p else cstr(E, st, v) for v, p in zip(a, ps[:2])]
    kind = fn.dem.split("<")[0].split("(")[0].rsplit("::")[-1].strip()
    return [Outcome("ret", st, ("ub", (kind, x[0], x[1]), False))]


def m_range_iter(E, st, fn, a, ins):
    base = strip_templates(fn.base)
    if base == "begin": return E.load(st, a[0])
    if base == "end": return E.load(st, E.padd(a[0], 8))
    if base in ("empty", "operator!"):
        return iter_eq(E, st, E.load(st, a[0]), E.load(st, E.padd(a[0], 8)))
    if base.startswith("operator"):
        # unspecified bool
        return bneg(iter_eq(E, st, E.load(st, a[0]), E.load(st, E.padd(a[0], 8))))
    return generic(E, st, fn, a, ins)


def m_copy(E, st, fn, a, ins):
    ps = split_params(fn.dem)
    if len(ps) == 3 and "back_insert_iterator" in ps[2] and "basic_string" in ps[2]:
        t = iter_sub(E, st, a[0], a[1])
        dst = a[2]
        wr(E, st, dst, cat(rd(E, st, dst), t))
        return dst
    return generic(E, st, fn, a, ins)


def m_id(E, st, fn, a, ins):
    return a[0]


def ev(kind):
    def m(E, st, fn, a, ins):
        if E.mon: E.mon.on_sync(E, st, kind, a, ins)
        return None
    return m


def m_cv_wait(E, st, fn, a, ins):
    """condition variable wait(lock): other threads run, so everything shared may change"""
    if len(split_params(fn.dem)) > 1 and not fn.decl:
        st.note("%s:%d" % (fn.file, fn.line), "enter cv wait with predicate")
        return [Outcome("enter", st, (fn, a))]
    if E.mon: E.mon.on_sync(E, st, "wait", a, ins)
    E.shared_havoc(st, ("wait", st.frames[-1].ctx, ins["id"]))
    return None


def m_extern(E, st, fn, a, ins):
    r = E.opaque(st, fn, a, ins, fn.name)
    st.mem[(("G", "errno"), 0)] = E.fresh(st, "errno", ins["id"])
    return r


def m_strlen(E, st, fn, a, ins):
    return slen(cstr(E, st, a[0]))


def m_function_call(E, st, fn, a, ins):
    """boost::function1::operator(): any address-taken in-repo function with that signature"""
    sig = fn.ctx
    outs = []
    cands = E.fn_targets(fn)
    if not cands: return generic(E, st, fn, a, ins)
    for c in cands:
        s2 = st.fork()
        s2.note(E.cur_loc(s2), "boost::function -> " + c.dem)
        outs.append(Outcome("enter", s2, (c, a[1:])))
    return outs


def m_what(E, st, fn, a, ins):
    return ("s", ("cstr", (SO, ("what", a[0]))))


def m_exc_ctor(E, st, fn, a, ins):
    ps = split_params(fn.dem)
    q = E.norm_ptr(a[0])
    if q and ps:
        if "basic_string" in ps[0] or ps[0].startswith("char"): t = arg_str(E, st, ps[0], a[1])
        else:
            q2 = E.norm_ptr(a[1])
            v = st.mem.get((q2[0], ("wh", q2[1]))) if q2 else None
            t = v[1] if v else (SO, ("what", a[1]))
        st.mem[(q[0], ("wh", q[1]))] = ("str", t)
    return None


def what_of(E, st, p):
    q = E.norm_ptr(p)
    v = st.mem.get((q[0], ("wh", q[1]))) if q else None
    return v[1] if v else (SO, ("what", p))


def m_exc_what(E, st, fn, a, ins):
    return ("s", ("cstr", what_of(E, st, a[0])))


def m_call_once(E, st, fn, a, ins):
    """boost::call_once(flag, f): f runs at most once"""
    return generic(E, st, fn, a, ins)


BY_NAME = {
    "_Znwm": m_new, "_Znam": m_new, "_ZnwmRKSt9nothrow_t": m_new,
    "_ZdlPv": m_delete, "_ZdaPv": m_delete, "_ZdlPvm": m_delete, "_ZdaPvm": m_delete,
    "__cxa_allocate_exception": m_new, "__cxa_free_exception": nop, "__cxa_throw": m_throw,
    "__cxa_begin_catch": m_begin_catch, "__cxa_end_catch": m_end_catch, "__cxa_rethrow": m_rethrow,
    "__clang_call_terminate": m_terminate, "_ZSt9terminatev": m_terminate, "abort": m_terminate, "exit": m_terminate, "_exit": m_terminate,
    "__cxa_call_unexpected": m_terminate, "__cxa_pure_virtual": m_terminate,
    "llvm.eh.typeid.for": m_typeid, "llvm.public.type.test": m_typetest, "llvm.type.test": m_typetest,
    "llvm.assume": m_assume, "llvm.trap": m_terminate,
    "llvm.memcpy.p0.p0.i64": m_memcpy, "llvm.memmove.p0.p0.i64": m_memcpy, "llvm.memset.p0.i64": m_memset,
    "memset": m_memset,
    "__errno_location": m_errno, "__dynamic_cast": m_dyncast,
    "__cxa_atexit": nop, "strlen": m_strlen,
    "__cxa_guard_acquire": lambda E, st, fn, a, ins: E.fresh(st, "guard", ins["id"]),
    "__cxa_guard_release": nop, "__cxa_guard_abort": nop,
}

NOP_PREFIX = ("llvm.lifetime", "llvm.invariant", "llvm.dbg", "llvm.experimental", "std::allocator::", "std::__new_allocator::", "std::locale", "std::ios_base",
              "std::exception::exception", "std::exception::~exception", "std::basic_ostringstream::~", "std::basic_stringstream::~")


def by_prefix(name, fn):
    n = fn.name
    if n in BY_NAME: return BY_NAME[n]
    if n.startswith("llvm."):
        if n.startswith(("llvm.expect", "llvm.threadlocal.address")): return m_id
        if n.startswith(("llvm.lifetime", "llvm.invariant", "llvm.dbg", "llvm.experimental", "llvm.stack", "llvm.va_")): return nop
        return None
    if name.startswith("std::string::"):
        return STRING.get(name[len("std::string::"):])
    if name == "std::operator+":
        return m_str_plus if "basic_string" in fn.dem else None
    if name in ("std::operator==", "std::operator!="):
        ps = split_params(fn.dem)
        if ps and any("iterator" in p for p in ps): return m_iter_cmp
        if "basic_string" in "".join(ps): return m_str_eqop
        return None
    if name in ("__gnu_cxx::operator==", "__gnu_cxx::operator!=", "std::__detail::operator==", "std::__detail::operator!="): return m_iter_cmp
    if name == "std::operator<<" or name == "std::ostream::operator<<": return m_ostream_ins
    if name in ("std::basic_ostringstream::basic_ostringstream", "std::basic_stringstream::basic_stringstream", "std::ostringstream::ostringstream"): return m_oss_ctor
    if name in ("std::basic_ostringstream::str", "std::basic_stringstream::str"): return m_oss_str
    if name.startswith(("std::vector::", "std::list::", "std::deque::", "std::map::", "std::multimap::", "std::set::", "std::queue::", "std::unordered_map::", "std::multiset::")):
        return m_cont
    if name.startswith(("std::_Rb_tree_iterator::", "std::_Rb_tree_const_iterator::", "std::_List_iterator::", "std::_List_const_iterator::",
                        "std::_Deque_iterator::", "__gnu_cxx::__normal_iterator::", "std::reverse_iterator::",
                        "std::__detail::_Node_iterator::", "std::__detail::_Node_const_iterator::")):
        return m_iter
    if name.startswith(("boost::shared_ptr::", "std::shared_ptr::", "std::__shared_ptr::", "std::__shared_ptr_access::")): return m_shared
    if name == "boost::lexical_cast": return m_lexical
    if name == "boost::algorithm::to_lower": return m_lower
    if name == "boost::algorithm::find_first": return m_find_first
    if name in AFFIX: return m_affix
    if name.startswith("boost::iterator_range_detail::iterator_range_base") or name.startswith("boost::iterator_range"):
        return m_range_iter
    if name == "std::copy": return m_copy
    if name in ("std::find", "std::find_if") and not is_str_iter(fn): return m_std_find
    if name == "std::back_inserter": return m_id
    if name in ("boost::mutex::lock", "std::mutex::lock", "boost::recursive_mutex::lock", "boost::timed_mutex::lock", "pthread_mutex_lock", "std::recursive_mutex::lock"): return ev("lock")
    if name in ("boost::mutex::unlock", "std::mutex::unlock", "boost::recursive_mutex::unlock", "boost::timed_mutex::unlock", "pthread_mutex_unlock", "std::recursive_mutex::unlock"): return ev("unlock")
    if name in ("boost::mutex::mutex", "boost::mutex::~mutex", "std::mutex::mutex", "std::mutex::~mutex", "boost::recursive_mutex::recursive_mutex", "boost::recursive_mutex::~recursive_mutex"): return nop
    if name in ("boost::condition_variable_any::wait", "boost::condition_variable::wait", "std::condition_variable::wait", "std::_V2::condition_variable_any::wait"): return m_cv_wait
    if name in ("boost::condition_variable_any::notify_one", "boost::condition_variable::notify_one", "std::condition_variable::notify_one"): return ev("notify_one")
    if name in ("boost::condition_variable_any::notify_all", "boost::condition_variable::notify_all", "std::condition_variable::notify_all"): return ev("notify_all")
    if name in ("boost::condition_variable_any::condition_variable_any", "boost::condition_variable_any::~condition_variable_any"): return nop
    if name == "boost::thread_group::join_all" or name.endswith("thread::join"): return ev("join")
    if name == "boost::function1::operator()": return m_function_call
    if name.startswith("boost::thread_group::create_thread"): return ev("create_thread")
    if name in ("std::runtime_error::runtime_error", "std::logic_error::logic_error", "std::invalid_argument::invalid_argument", "std::out_of_range::out_of_range"):
        return m_exc_ctor
    if name in ("std::runtime_error::what", "std::logic_error::what", "std::exception::what"): return m_exc_what
    if name.startswith(("std::runtime_error::", "std::logic_error::", "std::invalid_argument::")):
        return nop
    if name.startswith(NOP_PREFIX): return nop
    if fn.decl and not n.startswith("_Z"): return m_extern
    return None


def install(E):
    E.shared = set()
