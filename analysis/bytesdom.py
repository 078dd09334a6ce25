"""Abstract values for code that works on single bytes of a text.

A byte of the input is a variable with a set of possible values. A number made of
such bytes is a vector of bits, each of which is constant or a truth table over the
values of one byte; comparing a byte splits its set. Shifts, masks, unions, widening
and table look-ups keep this form; anything else stays a term over it.
"""
from engine import Engine, Outcome, Unsupported, as_bool, bneg, is_sym, ladd, lin
import models

ALL = (1 << 256) - 1
WHITE = {9, 10, 11, 12, 13, 32}
CTYPE = {
    "isspace": lambda c: c in WHITE, "isdigit": lambda c: 48 <= c <= 57, "isupper": lambda c: 65 <= c <= 90, "islower": lambda c: 97 <= c <= 122,
    "isalpha": lambda c: 65 <= c <= 90 or 97 <= c <= 122, "isalnum": lambda c: 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122,
}


def mask(pred):
    m = 0
    for v in range(256):
        if pred(v): m |= 1 << v
    return m


BIT = [mask(lambda v, k=k: v >> k & 1) for k in range(8)]


def byte(i):
    """the i-th byte of the input"""
    return ("x", 8, tuple((i, BIT[k]) for k in range(8)))


def is_x(v):
    return isinstance(v, tuple) and v[:1] == ("x",)


def is_t(v):
    """a term over bytes that is no vector of bits"""
    return isinstance(v, tuple) and v[:1] == ("xt",)


def num(bits):
    v = 0
    for k, b in enumerate(bits):
        if b: v |= 1 << k
    return v - (1 << len(bits)) if bits and bits[-1] else v


def mk(bits):
    bits = tuple(bits)
    if all(isinstance(b, int) for b in bits): return num(bits)
    return ("x", len(bits), bits)


def bits_of(v, w):
    """bits of a value at a width, widened by its sign; None if it is no vector of bits"""
    if isinstance(v, int): return [v >> k & 1 for k in range(w)]
    if is_x(v):
        b = list(v[2])
        while len(b) < w: b.append(b[-1])
        return b[:w]
    return None


def support(v):
    out = set()
    if is_x(v):
        for b in v[2]:
            if not isinstance(b, int): out.add(b[0])
    elif is_t(v):
        for a in v[3:]: out |= support(a)
    elif isinstance(v, tuple):
        for a in v: out |= support(a)
    return out


def value(v, env):
    """the number a term stands for, for given bytes (signed)"""
    if isinstance(v, int): return v
    if is_x(v): return num([b if isinstance(b, int) else b[1] >> env[b[0]] & 1 for b in v[2]])
    w, op = v[1], v[2]
    a = [value(x, env) for x in (v[4:] if op == "tab" else v[3:])]
    m = (1 << w) - 1
    u = [x & m for x in a]
    if op == "tab":
        t = v[3]
        r = t[a[0]] if 0 <= a[0] < len(t) else 0
    elif op in ("and", "or", "xor", "add", "sub", "mul"):
        r = {"and": u[0] & u[1], "or": u[0] | u[1], "xor": u[0] ^ u[1], "add": u[0] + u[1], "sub": u[0] - u[1], "mul": u[0] * u[1]}[op]
    elif op == "shl": r = u[0] << u[1]
    elif op == "lshr": r = u[0] >> u[1]
    elif op == "ashr": r = a[0] >> u[1]
    elif op in ("trunc", "sext"): r = a[0]
    elif op == "zext": r = a[0] & ((1 << (v[3][1] if isinstance(v[3], tuple) else 64)) - 1)
    elif op in ("udiv", "sdiv"): r = u[0] // u[1] if op == "udiv" else int(a[0] / a[1])
    elif op in ("urem", "srem"): r = u[0] % u[1] if op == "urem" else a[0] - a[1] * int(a[0] / a[1])
    else: raise Unsupported("operation %s on bytes" % op)
    r &= m
    return r - (1 << w) if r >> (w - 1) else r


def compare(pr, a, b, w):
    if pr[0] == "u": a, b = a & ((1 << w) - 1), b & ((1 << w) - 1)
    return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pr if pr in ("eq", "ne") else pr[1:]]


class ByteEngine(Engine):
    """an engine whose states know the possible values of each byte of the input"""
    now = None
    toosmall = None     # where a time did not fit into its buffer
    vague = None        # a condition on bytes that could not be told apart by the values of one byte
    outside = None      # told where a table is read outside of its bounds

    def choices(self, st, i):
        return st.facts.get(("byte", i), ALL)

    def norm(self, v):
        """bits that are the same for all possible values are constants"""
        if not is_x(v) or self.now is None: return v
        out = []
        for b in v[2]:
            if not isinstance(b, int):
                s = self.choices(self.now, b[0])
                t = b[1] & s
                b = 0 if t == 0 else 1 if t == s else (b[0], t)
            out.append(b)
        return mk(out)

    def tabulate(self, v, i):
        """a term over one byte as bits"""
        w = v[1]
        s = self.choices(self.now, i) if self.now is not None else ALL
        tt = [0] * w
        for x in range(256):
            if not s >> x & 1: continue
            r = value(v, {i: x})
            for k in range(w):
                if r >> k & 1: tt[k] |= 1 << x
        return self.norm(mk([(i, t) if t else 0 for t in tt]))

    def term(self, w, op, *args):
        v = ("xt", w, op) + args
        s = support(v)
        if len(s) == 1: return self.tabulate(v, s.pop())
        if not s: return value(v, {})
        return v

    # -- instructions
    def simple(self, st, f, ins, op):
        self.now = st
        return super().simple(st, f, ins, op)

    def binop(self, o, a, b, ty):
        if o == "sub" and isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ("P",) and a[1] == b[1] and (support(a) or support(b)):
            a, b = self.flat(a[2]), self.flat(b[2])
        if not (is_x(a) or is_x(b) or is_t(a) or is_t(b)) or ty == "i1": return super().binop(o, a, b, ty)
        w = int(ty[1:])
        a, b = self.norm(a), self.norm(b)
        if not (isinstance(a, int) or is_x(a) or is_t(a)) or not (isinstance(b, int) or is_x(b) or is_t(b)): return super().binop(o, a, b, ty)
        if isinstance(a, int) and isinstance(b, int): return super().binop(o, a, b, ty)
        x, y = bits_of(a, w), bits_of(b, w)
        if x and y:
            if o == "mul" and isinstance(b, int) and b > 0 and b & (b - 1) == 0: o, b = "shl", b.bit_length() - 1
            if o == "udiv" and isinstance(b, int) and b > 0 and b & (b - 1) == 0: o, b = "lshr", b.bit_length() - 1
            if o == "urem" and isinstance(b, int) and b > 0 and b & (b - 1) == 0: o, b, y = "and", b - 1, bits_of(b - 1, w)
            if o in ("shl", "lshr", "ashr") and isinstance(b, int) and 0 <= b < w:
                if o == "shl": return self.norm(mk([0] * b + x[:w - b]))
                return self.norm(mk(x[b:] + [0 if o == "lshr" else x[-1]] * b))
            if o in ("add", "or", "xor") and all(p == 0 or q == 0 for p, q in zip(x, y)):
                return self.norm(mk([p or q for p, q in zip(x, y)]))
            if o in ("and", "or", "xor"):
                out = []
                for p, q in zip(x, y):
                    r = self.bit(o, p, q)
                    if r is None: break
                    out.append(r)
                else: return self.norm(mk(out))
        return self.term(w, o, a, b)

    def bit(self, o, p, q):
        if isinstance(p, int) and isinstance(q, int): return {"and": p & q, "or": p | q, "xor": p ^ q}[o]
        if isinstance(p, int): p, q = q, p
        if isinstance(q, int):
            if o == "and": return p if q else 0
            if o == "or": return 1 if q else p
            return (p[0], ALL & ~p[1]) if q else p
        if p == q: return 0 if o == "xor" else p
        if p[0] != q[0]: return None
        t = {"and": p[1] & q[1], "or": p[1] | q[1], "xor": p[1] ^ q[1]}[o]
        return (p[0], t) if t else 0

    def cast(self, o, a, fr, to):
        if is_x(a) or is_t(a):
            w, n = int(to[1:]), int(fr[1:])
            a = self.norm(a)
            if isinstance(a, int): return super().cast(o, a, fr, to)
            if is_t(a):
                if to == "i1": return self.icmp("ne", self.binop("and", a, 1, fr), 0)
                return self.term(w, o, a)
            b = bits_of(a, n)
            if to == "i1": return self.icmp("ne", mk(b[:1] + [0]), 0)
            if o == "trunc": return self.norm(mk(b[:w]))
            if o == "zext": return self.norm(mk(b + [0] * (w - n)))
            if o == "sext": return self.norm(mk(b + [b[-1]] * (w - n)))
            return super().cast(o, a, fr, to)
        if o in ("zext", "sext") and fr == "i1" and isinstance(a, tuple):
            t = self.truth(as_bool(a))
            if t is not None:
                w = int(to[1:])
                return self.norm(mk([t] + [0 if o == "zext" else t] * (w - 1)))
        return super().cast(o, a, fr, to)

    def icmp(self, pr, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ("P",) and a[1] == b[1]:
            a, b = (self.flat(v[2]) for v in (a, b))
        if is_x(a) or is_x(b) or is_t(a) or is_t(b):
            a, b = self.norm(a), self.norm(b)
            if isinstance(a, int) and isinstance(b, int): return super().icmp(pr, a, b)
            if all(isinstance(v, int) or is_x(v) or is_t(v) for v in (a, b)):
                w = max(v[1] for v in (a, b) if not isinstance(v, int))
                return ("ub", ("xc", pr, w, a, b), False)
        return super().icmp(pr, a, b)

    def flat(self, v):
        """a sum over bytes as one value"""
        if isinstance(v, int): return v
        c, d = lin(v)
        if not all(is_x(t) or is_t(t) for t in d): return v
        r = c
        for t, k in d.items(): r = self.binop("add", self.binop("mul", t, k, "i64") if k != 1 else t, r, "i64")
        return r

    def truth(self, c):
        """a condition on one byte as a truth table (byte, table); a constant; None if it is neither"""
        if isinstance(c, int): return 1 if c else 0
        if c[0] == "ub" and isinstance(c[1], tuple) and c[1][:1] == ("xc",):
            _, pr, w, a, b = c[1]
            s = support(a) | support(b)
            if len(s) != 1: return None
            i = s.pop()
            key = (c[1],)
            t = self.tables.get(key)
            if t is None:
                t = 0
                for x in range(256):
                    if compare(pr, value(a, {i: x}), value(b, {i: x}), w): t |= 1 << x
                self.tables[key] = t
            if c[2]: t = ALL & ~t
            return (i, t)
        if c[0] in ("and", "or"):
            p, q = self.truth(c[1]), self.truth(c[2])
            if p is None or q is None: return None
            return self.bit(c[0], p, q)
        if c[0] == "b" and c[1] == "eq" and len(c[4]) == 1 and (is_x(c[4][0][0]) or is_t(c[4][0][0])) and abs(c[4][0][1]) == 1:
            _, _, neg, k, dr, sg = c
            v = -k * sg * dr[0][1]
            return self.truth(("ub", ("xc", "ne" if neg else "eq", dr[0][0][1], dr[0][0], v), False))
        return None

    tables = {}

    def decide(self, st, b):
        if isinstance(b, tuple) and b[0] in ("ub", "b", "and", "or"):
            t = self.truth(b)
            if isinstance(t, tuple):
                s = self.choices(st, t[0])
                return True if s & t[1] == s else False if s & t[1] == 0 else None
            if t is not None: return bool(t)
            if support(b): self.vague = b
        return super().decide(st, b)

    def of_one(self, st, v, f, w):
        """a function of a value over one byte, as bits; None if it is over several"""
        self.now = st
        v = self.norm(v)
        if isinstance(v, int): return f(v)
        s = support(v)
        if not (is_x(v) or is_t(v)) or len(s) != 1: return None
        i = s.pop()
        tt = [0] * w
        for x in range(256):
            if not self.choices(st, i) >> x & 1: continue
            r = f(value(v, {i: x}))
            for k in range(w):
                if r >> k & 1: tt[k] |= 1 << x
        return self.norm(mk([(i, t) if t else 0 for t in tt]))

    def unsure(self, st, known):
        """a condition of the path that does not only speak of the bytes; None if there is none"""
        for k, v in st.facts.items():
            if k[0] == "byte" or k in known: continue
            if k[0] == "ub" and isinstance(k[1], tuple) and k[1][0] == "xc": continue
            return (k, v)
        return None

    def find_char(self, st, base, t, pat, start):
        """the library's searches in a text of known characters -> outcomes; None if it is not one"""
        if not isinstance(start, int): return None
        cs, ps = chars(t), chars(pat)
        if cs is None or ps is None or all(isinstance(c, int) for c in cs + ps): return None
        if base == "find" and len(ps) == 1 and all(isinstance(c, int) for c in cs):
            r = self.of_one(st, ps[0], lambda v: next((k for k, c in enumerate(cs) if k >= start and (c - v) & 255 == 0), -1), 64)
            return None if r is None else [Outcome("ret", st, r)]
        back = base in ("rfind", "find_last_of", "find_last_not_of")
        if base in ("find", "rfind") and len(ps) != 1: return None
        neg = base.endswith("not_of")
        if start < 0 and not back: start = len(cs)
        at = [k for k in range(len(cs)) if (back and (start < 0 or k <= start)) or (not back and k >= start)]
        outs = []
        for k in reversed(at) if back else at:
            hit = 0
            for q in ps:
                self.now = st
                c = as_bool(self.icmp("eq", cs[k], q))
                hit = self.either(hit, c)
            cond = self.truth(hit)
            if cond is None: return None
            s2 = st.fork()
            if self.assume(s2, hit, not neg): outs.append(Outcome("ret", s2, k))
            if not self.assume(st, hit, neg): return outs
        outs.append(Outcome("ret", st, -1))
        return outs

    def either(self, a, b):
        if a == 0 or b == 1: return b
        if b == 0 or a == 1: return a
        return ("or", a, b)

    def assume(self, st, b, val):
        if isinstance(b, tuple) and b[0] in ("ub", "b", "and", "or"):
            t = self.truth(b)
            if isinstance(t, tuple):
                s = self.choices(st, t[0]) & (t[1] if val else ALL & ~t[1])
                if not s: return False
                st.facts[("byte", t[0])] = s
                return True
            if t is not None: return bool(t) == val
        return super().assume(st, b, val)

    # -- memory
    def load(self, st, p, size=8, ins=None):
        q = self.norm_ptr(p)
        if q:
            obj, off = q
            if size == 1 and obj[0] == "S" and is_sym(obj[1]) and obj[1][1][0] in ("cstr", "sit"):
                k = obj[1][1]
                v = char_at(k[1], ladd(off, k[2]) if k[0] == "sit" else off)
                if v is not None: return self.now_norm(st, v)
            if obj[0] == "G" and not isinstance(off, int):
                c, d = lin(off)
                if len(d) == 1:
                    (t, k), = d.items()
                    t = self.now_norm(st, t)
                    cells = self.table(obj[1])
                    if (is_x(t) or is_t(t)) and cells is not None and k > 0 and c % k == 0 and k == size: return self.look(st, cells, k, t, c // k)
                    if isinstance(t, int): return super().load(st, ("P", obj, c + k * t), size, ins)
            elif not isinstance(off, int):
                v = self.local(st, obj, off, size)
                if v is not None: return v
        v = super().load(st, p, size, ins)
        return v

    def buffer(self, st, p, n):
        """the text in a local array of n characters (None: up to its zero)"""
        q = self.norm_ptr(p)
        if not q or not isinstance(q[1], int) or not (n is None or isinstance(n, int)): return None
        out = []
        while n is None or len(out) < n:
            v = st.mem.get((q[0], q[1] + len(out)))
            if not (isinstance(v, int) or is_x(v) or is_t(v)): return None
            if n is None:
                if v == 0: break
                if not isinstance(v, int) and self.span(st, v)[0] <= 0: return None
            out.append(v)
        return text(out)

    def local(self, st, obj, off, size):
        """a cell of an array in memory, chosen by one byte"""
        self.now = st
        off = self.norm(self.flat(off))
        s = support(off)
        if isinstance(off, int) or not (is_x(off) or is_t(off)) or len(s) != 1: return None
        i = s.pop()
        tt = [0] * (8 * size)
        for x in range(256):
            if not self.choices(st, i) >> x & 1: continue
            r = st.mem.get((obj, value(off, {i: x})))
            if not isinstance(r, int): return None
            for k in range(8 * size):
                if r >> k & 1: tt[k] |= 1 << x
        return self.norm(mk([(i, t) if t else 0 for t in tt]))

    def now_norm(self, st, v):
        self.now = st
        return self.norm(v)

    def table(self, name):
        g = self.prog.globals.get(name)
        if not g or not g.get("const") or "init" not in g: return None
        return g

    def look(self, st, g, k, idx, base):
        n = g.get("sz", 0) // k
        name = next(x for x, y in self.prog.globals.items() if y is g)
        tab = tuple(self.global_cell(name, j * k) for j in range(n))
        if not all(isinstance(x, int) for x in tab): return self.fresh(st, "cell")
        if base: idx = self.binop("add", idx, base, "i64")
        if isinstance(idx, int):
            if 0 <= idx < n: return tab[idx]
            self.bounds(st, name); return self.fresh(st, "cell")
        lo, hi = self.span(st, idx)
        if lo < 0 or hi >= n: self.bounds(st, name)
        return self.term(8 * k, "tab", tab, idx)

    def span(self, st, v):
        """least and greatest number a value can be"""
        if is_x(v):
            lo = hi = 0
            for k, b in enumerate(v[2]):
                s = -(1 << k) if k == len(v[2]) - 1 else 1 << k
                if b == 1: lo += s; hi += s
                elif b != 0: lo += min(0, s); hi += max(0, s)
            s = support(v)
            if len(s) == 1:
                i = s.pop()
                vs = [value(v, {i: x}) for x in range(256) if self.choices(st, i) >> x & 1]
                return min(vs), max(vs)
            return lo, hi
        return -(1 << 63), 1 << 63

    def bounds(self, st, name):
        if self.outside: self.outside(self, st, self.prog.globals[name].get("dem") or name)


def pieces(t):
    return list(t[1]) if t[0] == models.CAT else [t]


def char_at(t, pos):
    """the character at a position of a text whose pieces have known lengths"""
    if not isinstance(pos, int) or pos < 0: return None
    for x in pieces(t):
        n = models.slen(x)
        if not isinstance(n, int): return None
        if pos < n:
            if x[0] == models.SC:
                c = x[1][pos]
                return c - 256 if c > 127 else c
            if x[0] == models.SO and x[1][0] == "memstr" and n == 1 and isinstance(x[1][1], tuple) and x[1][1][0] == "chr": return x[1][1][1]
            return None
        pos -= n
    return 0 if pos == 0 else None      # the terminating zero


def chars(t):
    """the characters of a text, one by one; None if they are not known"""
    n = models.slen(t)
    if not isinstance(n, int): return None
    out = [char_at(t, k) for k in range(n)]
    return None if any(c is None for c in out) else out


def text(bs):
    """a text of given characters: numbers and values over bytes"""
    t = models.EMPTY
    for b in bs:
        t = models.cat(t, (models.SC, bytes([b & 255])) if isinstance(b, int) else (models.SO, ("memstr", ("chr", b), 1)))
    return t


def m_ctype(E, st, name, v):
    """the C library's character classes"""
    E.now = st
    v = E.norm(v)
    f = CTYPE[name]
    if isinstance(v, int): return 1 if f(v) else 0
    if is_x(v) and len(support(v)) == 1:
        i = next(iter(support(v)))
        t = mask(lambda x: f(value(v, {i: x})))
        return E.norm(mk([(i, t)] + [0] * 31))
    return None


def m_search(E, st, name, fn, args):
    """searches for a byte in a constant table"""
    n = name.split("<")[0]
    if n in ("strchr", "memchr"):
        base, v = args[0], args[1]
    elif n == "std::find" and len(args) == 3 and "char" in fn.dem.split("(")[0] and "iterator" not in fn.dem:
        base, v = args[0], E.load(st, args[2], 1)
    else: return None
    q = E.norm_ptr(base)
    if not q or q[0][0] != "G" or not isinstance(q[1], int): return None
    obj, off = q
    g = E.table(obj[1])
    if g is None: return None
    end = g.get("sz", 0)
    if n == "std::find":
        e = E.norm_ptr(args[1])
        if not e or e[0] != obj or not isinstance(e[1], int): return None
        end = e[1]
    elif n == "memchr":
        if not isinstance(args[2], int): return None
        end = off + args[2]
    if end > g.get("sz", 0): E.bounds(st, obj[1])
    cells = [E.global_cell(obj[1], k) for k in range(off, min(end, g.get("sz", 0)))]
    if not all(isinstance(c, int) for c in cells): return None
    if n == "strchr": cells = cells[:cells.index(0) + 1] if 0 in cells else cells
    r = E.of_one(st, v, lambda x: next((k for k, c in enumerate(cells) if (c - x) & 255 == 0), -1 if n != "std::find" else len(cells)), 64)
    if r is None: return None
    E.now = st
    outs = []
    if n != "std::find":
        none = as_bool(E.icmp("eq", r, -1))
        s2 = st.fork()
        if E.decide(s2, none) is not False and E.assume(s2, none, True): outs.append(Outcome("ret", s2, 0))
        if E.decide(st, none) is True or not E.assume(st, none, False): return outs
        r = E.now_norm(st, r)
    return outs + [Outcome("ret", st, ("P", obj, ladd(off, r)))]


def m_atoi(E, st, name, args):
    """a number from the start of a text -> outcomes"""
    name = name.replace("__cxx11::", "")
    if name not in ("atoi", "atol", "atoll", "std::stoi", "std::stol"): return None
    throws = name.startswith("std::")
    if throws:
        if args[1] != 0 or args[2] != 10: return None
        t = models.rd(E, st, args[0])
    else: t = args[0][1][1] if is_sym(args[0]) and args[0][1][0] == "cstr" else models.cstr(E, st, args[0])
    cs = chars(t)
    if cs is None: return None
    w = 32 if name in ("atoi", "std::stoi") else 64
    ty = "i%d" % w
    if len(cs) > 9: return None
    outs = []

    def split(s, c, f):
        """-> (state where the character is of the class or None, state where it is not or None)"""
        E.now = s
        c = E.norm(c)
        if isinstance(c, int): return (s, None) if f(c & 255) else (None, s)
        i = next(iter(support(c)))
        m = mask(lambda x: f(value(c, {i: x}) & 255))
        yes, no = E.choices(s, i) & m, E.choices(s, i) & ~m
        a, b = (s.fork() if yes else None), (s.fork() if no else None)
        if a: a.facts[("byte", i)] = yes
        if b: b.facts[("byte", i)] = no
        return a, b

    def digits(s, k, acc, neg, first=True):
        y, n = split(s, cs[k], CTYPE["isdigit"]) if k < len(cs) else (None, s)
        if n and first and throws: outs.append(Outcome("throw", n, ("_ZTISt16invalid_argument", ("s", ("no number",)))))
        elif n: outs.append(Outcome("ret", n, E.binop("sub", 0, acc, ty) if neg else acc))
        if y:
            E.now = y
            d = E.binop("sub", E.cast("sext", cs[k], "i8", ty) if not isinstance(cs[k], int) else cs[k], 48, ty)
            digits(y, k + 1, E.binop("add", E.binop("mul", acc, 10, ty), d, ty), neg, False)

    def start(s, k):
        w, n = split(s, cs[k], CTYPE["isspace"]) if k < len(cs) else (None, s)
        if w: start(w, k + 1)
        if not n: return
        plus, n = split(n, cs[k], lambda c: c == 43) if k < len(cs) else (None, n)
        if plus: digits(plus, k + 1, 0, False)
        if not n: return
        minus, n = split(n, cs[k], lambda c: c == 45) if k < len(cs) else (None, n)
        if minus: digits(minus, k + 1, 0, True)
        if n: digits(n, k, 0, False)

    start(st.fork(), 0)
    return outs


TM = {"S": (0, 0, 2), "M": (4, 0, 2), "H": (8, 0, 2), "d": (12, 0, 2), "m": (16, 1, 2), "Y": (20, 1900, 4), "I": (8, 11, 2), "y": (20, 0, 2)}


def m_strftime(E, st, name, args):
    """a time written by a constant format; the fields are taken to have the usual number of digits"""
    if name != "strftime": return None
    buf, size, fmt, tm = args
    f = models.cstr(E, st, fmt)
    q = E.norm_ptr(buf)
    if f[0] != models.SC or not isinstance(size, int) or not q or not isinstance(q[1], int): return None
    f = f[1].decode("latin-1").replace("%T", "%H:%M:%S").replace("%F", "%Y-%m-%d").replace("%R", "%H:%M")
    out, k = [], 0
    E.now = st
    while k < len(f):
        if f[k] != "%": out.append(ord(f[k])); k += 1; continue
        if f[k + 1] not in TM: return None
        off, add, n = TM[f[k + 1]]
        v = E.load(st, ("P", E.norm_ptr(tm)[0], ladd(E.norm_ptr(tm)[1], off)), 4)
        if not (isinstance(v, int) or is_x(v) or is_t(v)): return None
        v = E.binop("add", v, add, "i32")
        if f[k + 1] == "I": v = E.binop("add", E.binop("urem", v, 12, "i32"), 1, "i32")
        for d in range(n - 1, -1, -1):
            x = E.binop("udiv", v, 10 ** d, "i32") if d else v
            out.append(E.cast("trunc", E.binop("add", E.binop("urem", x, 10, "i32"), 48, "i32"), "i32", "i8"))
        k += 2
    for c in [c for c in st.mem if c[0] == q[0] and isinstance(c[1], int) and q[1] <= c[1] < q[1] + size]: del st.mem[c]
    if len(out) + 1 > size:
        E.toosmall = E.cur_loc(st)
        return [Outcome("ret", st, 0)]
    for j, c in enumerate(out + [0]): st.mem[(q[0], q[1] + j)] = c
    return [Outcome("ret", st, len(out))]
