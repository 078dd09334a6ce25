"""Path-sensitive typestate / abstract-value analysis over the exported IR.

The analysis walks the control-flow graph of a root function, entering in-repo
callees, and propagates abstract states: constants, pointers to abstract objects
with offsets, opaque symbols, linear terms over symbols with interval facts, and
abstract string contents. Exceptional edges are followed with the C++ type
hierarchy. Identical states at join points are merged, so exploration is a
finite dataflow over abstract states; no program code is run and no solver used.
Monitors receive events (calls, returns, frees, field accesses, path ends).
"""
import sys
from functools import lru_cache
from names import short, split_params, strip_templates

INF = float("inf")
U = ("U",)


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


# ------------------------------------------------------------------ values
def is_ptr(v):
    return isinstance(v, tuple) and v and v[0] == "P"


def is_sym(v):
    return isinstance(v, tuple) and v and v[0] == "s"


def lin(v):
    if isinstance(v, int):
        return v, {}
    if isinstance(v, tuple) and v and v[0] == "L":
        return v[1], dict(v[2])
    return 0, {v: 1}


_order = {}


def _k(t):
    # stable total order on terms
    r = _order.get(t)
    if r is None:
        r = repr(t)
        _order[t] = r
    return r


def mklin(c, d):
    d = {k: x for k, x in d.items() if x}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return ("L", c, tuple(sorted(d.items(), key=lambda kv: _k(kv[0]))))


def ladd(a, b, s=1):
    ca, da = lin(a)
    cb, db = lin(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + s * v
    return mklin(ca + s * cb, da)


def lscale(a, k):
    c, d = lin(a)
    return mklin(c * k, {t: x * k for t, x in d.items()})


def direction(c, d):
    """(c + d) -> (c', dir, sign): dir normalised so that its first coef is positive."""
    items = sorted(d.items(), key=lambda kv: _k(kv[0]))
    sg = 1 if items[0][1] > 0 else -1
    return c, tuple((t, sg * x) for t, x in items), sg


def bneg(b):
    if isinstance(b, int):
        return 0 if b else 1
    if b[0] == "b":
        return ("b", b[1], not b[2], b[3], b[4], b[5])
    if b[0] == "and":
        return ("or", bneg(b[1]), bneg(b[2]))
    if b[0] == "or":
        return ("and", bneg(b[1]), bneg(b[2]))
    if b[0] == "ub":
        return ("ub", b[1], not b[2])
    return ("b", "eq", False, 0, ((b, 1),), 1)


def as_bool(v):
    """integer-ish value -> boolean condition (v != 0)"""
    if isinstance(v, int):
        return 1 if v else 0
    if v == U:
        return ("ub", ("undef",), False)
    if v[0] in ("b", "and", "or", "ub"):
        return v
    if v[0] == "z":
        return v[1]
    if v[0] == "P" or v[0] == "F":
        return 1
    c, d = lin(v)
    c, dr, sg = direction(c, d)
    return ("b", "eq", True, c, dr, sg)


def cmp_(kind, a, b):
    """condition a==b ('eq') or a<b ('lt')"""
    if kind == "eq":
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int) and isinstance(x, tuple):
                if x[0] in ("b", "and", "or", "ub"):
                    return x if y else bneg(x)
                if x[0] == "z":
                    if y == 0: return bneg(x[1])
                    if y == 1: return x[1]
                    return 0
                if x[0] in ("P", "F") and y == 0:
                    return 0
                if x[0] == "tid":
                    return 1 if y == 0 and x[1] is None and False else (1 if x == y else 0)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a == b and a != U: return 1
            if a[0] == "tid" and b[0] == "tid": return 1 if a[1] == b[1] else 0
            if a[0] == "F" and b[0] == "F": return 0
            if is_ptr(a) and is_ptr(b):
                if a[1] == b[1]:
                    if isinstance(a[2], int) and isinstance(b[2], int): return 1 if a[2] == b[2] else 0
                elif concrete(a[1]) and concrete(b[1]):
                    return 0
            for x, y in ((a, b), (b, a)):
                if x[0] in ("b", "and", "or", "ub") and y[0] in ("b", "and", "or", "ub"):
                    return ("or", ("and", x, y), ("and", bneg(x), bneg(y)))
    if a == U or b == U:
        return ("ub", ("undef",), False)
    if kind == "lt":                        # 0/1 values of conditions
        if isinstance(b, tuple) and b[0] == "z" and isinstance(a, int): return 1 if a < 0 else b[1] if a < 1 else 0
        if isinstance(a, tuple) and a[0] == "z" and isinstance(b, int): return 1 if b > 1 else bneg(a[1]) if b > 0 else 0
    if is_ptr(a) and is_ptr(b) and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
        return 1 if (a[2] == b[2] if kind == "eq" else a[2] < b[2]) else 0
    d = ladd(a, b, -1)
    if isinstance(d, int):
        return 1 if (d == 0 if kind == "eq" else d < 0) else 0
    c, dd = lin(d)
    c, dr, sg = direction(c, dd)
    return ("b", kind, False, c, dr, sg)


def concrete(obj):
    return obj[0] in ("al", "H", "G", "arg")


# ------------------------------------------------------------------ program helpers
class Hierarchy:
    STD = {
        "_ZTISt13runtime_error": ["_ZTISt9exception"], "_ZTISt11logic_error": ["_ZTISt9exception"],
        "_ZTISt16invalid_argument": ["_ZTISt11logic_error"], "_ZTISt12out_of_range": ["_ZTISt11logic_error"],
        "_ZTISt12length_error": ["_ZTISt11logic_error"], "_ZTISt8bad_cast": ["_ZTISt9exception"],
        "_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt9exception": [],
        "_ZTISt12system_error": ["_ZTISt13runtime_error"],
        "_ZTIN5boost16bad_lexical_castE": ["_ZTISt8bad_cast"],
    }

    def __init__(self, prog):
        self.bases = dict(self.STD)
        for n, g in prog.globals.items():
            if n.startswith("_ZTI") and "init" in g:
                bs = []
                init = g["init"]
                if init[0] == "st":
                    for off, v in init[1][2:]:
                        if v[0] == "g" and v[1].startswith("_ZTI"):
                            bs.append(v[1])
                        elif v[0] == "arr":
                            pass
                self.bases[n] = bs
        self.cache = {}

    def derives(self, t, b):
        k = (t, b)
        r = self.cache.get(k)
        if r is None:
            r = t == b or any(self.derives(x, b) for x in self.bases.get(t, ()))
            self.cache[k] = r
        return r


class VTables:
    def __init__(self, prog):
        self.prog = prog
        self.by_type = {}
        self.slots = {}
        for n, g in prog.globals.items():
            if not n.startswith("_ZTV") or "init" not in g: continue
            cells = {}
            self.flat(g["init"], 0, cells)
            self.slots[n] = cells
            for off, t in g.get("types", ()):
                if t.startswith("_ZTSM"): continue
                self.by_type.setdefault(t, []).append((n, off))

    def flat(self, v, base, out):
        if v[0] == "st":
            for off, x in v[1]: self.flat(x, base + off, out)
        elif v[0] == "arr":
            for k, x in enumerate(v[2]): self.flat(x, base + k * v[1], out)
        elif v[0] == "z":
            pass
        else:
            out[base] = v

    def fn(self, vt, off):
        v = self.slots.get(vt, {}).get(off)
        if v and v[0] == "f": return v[1]
        return None


def type_of_zts(zts):
    """'_ZTSN5iqnet8AcceptorE' -> demangled class name (via a tiny demangler for nested names)"""
    s = zts[4:]
    if s.startswith("N"):
        s = s[1:]
    parts, i = [], 0
    while i < len(s) and s[i].isdigit():
        j = i
        while s[j].isdigit(): j += 1
        n = int(s[i:j])
        parts.append(s[j:j + n])
        i = j + n
    return "::".join("(anonymous)" if x == "_GLOBAL__N_1" else x for x in parts)


# ------------------------------------------------------------------ state
class Frame:
    __slots__ = ("fn", "b", "i", "prev", "regs", "ctx", "args", "allocas", "visits", "tag")

    def __init__(self, fn, args, ctx):
        self.fn = fn; self.args = args; self.ctx = ctx
        self.b = 0; self.i = 0; self.prev = -1
        self.regs = {}; self.allocas = []; self.visits = {}
        self.tag = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.args = self.args; f.ctx = self.ctx; f.b = self.b; f.i = self.i; f.prev = self.prev
        f.regs = dict(self.regs); f.allocas = self.allocas; f.visits = dict(self.visits); f.tag = self.tag
        return f


class State:
    __slots__ = ("frames", "mem", "facts", "mon", "hv", "gens", "trace", "caught", "exc", "freed", "pending")

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.facts = dict(self.facts); s.mon = dict(self.mon)
        s.hv = dict(self.hv); s.gens = dict(self.gens); s.trace = self.trace
        s.caught = self.caught; s.exc = self.exc; s.freed = self.freed; s.pending = self.pending
        return s

    @property
    def top(self):
        return self.frames[-1]

    def note(self, *what):
        self.trace = (self.trace, what)

    def trace_list(self, limit=60):
        out, t = [], self.trace
        while t is not None:
            out.append(t[1]); t = t[0]
        out.reverse()
        if len(out) > limit:
            out = out[:10] + [("...", "%d steps omitted" % (len(out) - limit))] + out[-(limit - 10):]
        return out


class Outcome:
    """Result of a modelled call: normal return (kind 'ret') or exception ('throw')."""
    __slots__ = ("kind", "st", "v")

    def __init__(self, kind, st, v):
        self.kind, self.st, self.v = kind, st, v


class Stop(Exception):
    """Raised by a model or monitor to drop the current path (infeasible / out of scope)."""


class Engine:
    def __init__(self, prog, monitor=None, max_steps=40_000_000, max_states=1_500_000):
        self.prog = prog
        self.hier = Hierarchy(prog)
        self.vt = VTables(prog)
        self.mon = monitor
        self.max_steps = max_steps
        self.max_states = max_states
        self.steps = 0
        self.ends = 0
        self.npaths = 0
        self.cp_objs = set()
        self.known = False
        self.straight, self.work, self.skipped = False, None, 0     # straight: walks hardly fork
        self.special = None             # a dict: element classes are copied by their own constructors
        self.rec_limit = 2              # nested activations of one function
        self.new_limit, self.fresh_limit = 3, 4     # objects and values told apart per place of creation
        self.narrowing = False          # keep truncations of unknown integers visible
        self.inline_extra = ()
        self.merged = 0
        self.vt_types = {}
        self.ctxs = {}
        self.otype = {}
        self.entered = {}
        self.opaque_called = {}
        self.vcalls = {}
        self.unknown_calls = {}
        self.user_virtual = {}
        self.models = {}
        self.boundary = {}
        self.no_inline = set()
        self.loop_limit = 2
        self.editable = {}
        self.iter_depth = 3        # elements told apart when an unknown container is walked
        self.const_loop_limit = 80
        self.max_depth = 60
        self.field_track = None
        self._preds = {}
        self._live = {}
        self._live_at = {}
        self._phi_use = {}
        self._deps = {}
        self._short = {}
        self.esc = None
        self.throw_user = []
        self.roots = []
        import models
        models.install(self)

    # -------------------------------------------------- utilities
    def short(self, fn):
        r = self._short.get(fn.name)
        if r is None:
            r = self._short[fn.name] = short(fn)
        return r

    def loc(self, ins):
        l = ins.get("l")
        if not l: return ("?", 0)
        return (self.prog.files[l[0]], l[1])

    def cur_loc(self, st):
        """innermost in-repo source location of the current state"""
        for f in reversed(st.frames):
            bl = f.fn.blocks[f.b]
            k = min(f.i, len(bl) - 1)
            for j in range(k, -1, -1):
                l = bl[j].get("l")
                if l and l[1]:
                    fn = self.prog.files[l[0]]
                    if "libiqxmlrpc" in fn or fn.startswith("/verif"):
                        return "%s:%d" % (fn, l[1])
                    break
        f = st.frames[-1] if st.frames else None
        return "%s:%d" % (f.fn.file, f.fn.line) if f else "?"

    def intern_ctx(self, key):
        r = self.ctxs.get(key)
        if r is None:
            r = self.ctxs[key] = len(self.ctxs)
        return r

    def fresh(self, st, kind, ins_id=None, extra=None):
        f = st.frames[-1] if st.frames else None
        base = (kind, f.ctx if f else -1, ins_id if ins_id is not None else -1, extra)
        g = st.gens.get(base, 0)
        st.gens[base] = min(g + 1, self.fresh_limit)
        v = ("s", base + (g,))
        if g >= self.fresh_limit:
            self.forget(st, v)
        return v

    def forget(self, st, v):
        dead = [d for d in st.facts if v in self.syms(d)]
        for d in dead: del st.facts[d]
        ob = ("S", v)
        for k in [k for k in st.mem if k[0] == ob]: del st.mem[k]

    # -------------------------------------------------- facts
    def irange(self, st, t):
        if isinstance(t, tuple):
            if t[0] == "z": return 0, 1
            if t[0] == "len": return 0, INF
        return -INF, INF

    def dir_range(self, st, dr):
        r = st.facts.get(dr)
        if r: lo, hi, ne = r
        else: lo, hi, ne = -INF, INF, ()
        if len(dr) == 1:
            l2, h2 = self.irange(st, dr[0][0])
            lo, hi = max(lo, l2), min(hi, h2)
        elif len(dr) == 2:
            # combine single-term ranges
            l2 = h2 = 0
            for t, k in dr:
                a, b, _ = self.dir_range(st, ((t, 1),))
                if k > 0: l2 += k * a if a != -INF else -INF; h2 += k * b if b != INF else INF
                else: l2 += k * b if b != INF else -INF; h2 += k * a if a != -INF else INF
            lo, hi = max(lo, l2), min(hi, h2)
        return lo, hi, ne

    def subst(self, st, v):
        """replace symbols known equal to a constant"""
        if isinstance(v, int) or not isinstance(v, tuple): return v
        if v[0] in ("P", "F", "U", "A", "tid"): return v
        if v[0] == "s":
            r = st.facts.get(((v, 1),))
            if r and r[0] == r[1]: return int(r[0])
            return v
        if v[0] == "L":
            c, d = lin(v)
            ch = False
            for t in list(d):
                r = st.facts.get(((t, 1),))
                if r and r[0] == r[1]:
                    c += d.pop(t) * int(r[0]); ch = True
            return mklin(c, d) if ch else v
        return v

    def decide(self, st, b):
        if isinstance(b, int): return bool(b)
        k = b[0]
        if k == "b":
            _, kind, neg, c, dr, sg = b
            # condition: c + sg*dir  (== 0 | < 0)
            if len(dr) > 1:
                d = {t: x for t, x in dr}
                sub = {}
                ch = False
                cc = c
                for t, x in dr:
                    r = st.facts.get(((t, 1),))
                    if r and r[0] == r[1]: cc += sg * x * int(r[0]); ch = True
                    else: sub[t] = x
                if ch:
                    if not sub:
                        r = (cc == 0) if kind == "eq" else cc < 0
                        return (not r) if neg else r
                    return self.decide(st, ("b", kind, neg) + self._redir(cc, {t: sg * x for t, x in sub.items()}))
            lo, hi, ne = self.dir_range(st, dr)
            if kind == "eq":
                tgt = -c * sg
                if lo == hi == tgt: r = True
                elif tgt < lo or tgt > hi or tgt in ne: r = False
                else: return None
            else:
                # c + sg*d < 0
                if sg > 0:
                    if hi < -c: r = True
                    elif lo >= -c: r = False
                    else: return None
                else:
                    if lo > c: r = True
                    elif hi <= c: r = False
                    else: return None
            return (not r) if neg else r
        if k == "and":
            a = self.decide(st, b[1])
            if a is False: return False
            c = self.decide(st, b[2])
            if c is False: return False
            return True if a and c else None
        if k == "or":
            a = self.decide(st, b[1])
            if a is True: return True
            c = self.decide(st, b[2])
            if c is True: return True
            return False if a is False and c is False else None
        if k == "ub":
            r = st.facts.get(("ub", b[1]))
            if r is None: return None
            return (not r) if b[2] else r
        return self.decide(st, as_bool(b))

    def _redir(self, c, d):
        return direction(c, d)

    def assume(self, st, b, val):
        """Adds the fact; False if contradictory."""
        if isinstance(b, int): return bool(b) == val
        k = b[0]
        if k == "b":
            _, kind, neg, c, dr, sg = b
            if neg: val = not val
            d0 = self.decide(st, ("b", kind, False, c, dr, sg))
            if d0 is not None: return d0 == val
            if len(dr) > 1:
                sub, cc, ch = {}, c, False
                for t, x in dr:
                    r = st.facts.get(((t, 1),))
                    if r and r[0] == r[1]: cc += sg * x * int(r[0]); ch = True
                    else: sub[t] = sg * x
                if ch:
                    return self.assume(st, ("b", kind, False) + self._redir(cc, sub), val)
            r = st.facts.get(dr)
            lo, hi, ne = r if r else (-INF, INF, frozenset())
            if kind == "eq":
                tgt = -c * sg
                if val: lo = hi = tgt
                else:
                    ne = ne | {tgt}
                    while lo in ne: lo += 1
                    while hi in ne: hi -= 1
            else:
                if sg > 0:
                    if val: hi = min(hi, -c - 1)
                    else: lo = max(lo, -c)
                else:
                    if val: lo = max(lo, c + 1)
                    else: hi = min(hi, c)
                while lo in ne: lo += 1
                while hi in ne: hi -= 1
            if len(dr) == 1:
                l2, h2 = self.irange(st, dr[0][0])
                lo, hi = max(lo, l2), min(hi, h2)
                # boolean term z(b): propagate
            if lo > hi: return False
            st.facts[dr] = (lo, hi, ne)
            if len(dr) == 1 and isinstance(dr[0][0], tuple) and dr[0][0][0] == "z" and lo == hi:
                return self.assume(st, dr[0][0][1], bool(lo))
            return True
        if k == "and":
            if val: return self.assume(st, b[1], True) and self.assume(st, b[2], True)
            a, c = self.decide(st, b[1]), self.decide(st, b[2])
            if a is True: return self.assume(st, b[2], False)
            if c is True: return self.assume(st, b[1], False)
            return True
        if k == "or":
            if not val: return self.assume(st, b[1], False) and self.assume(st, b[2], False)
            a, c = self.decide(st, b[1]), self.decide(st, b[2])
            if a is False: return self.assume(st, b[2], True)
            if c is False: return self.assume(st, b[1], True)
            return True
        if k == "ub":
            if b[1] == ("undef",): return True
            if b[2]: val = not val
            r = st.facts.get(("ub", b[1]))
            if r is not None: return r == val
            st.facts[("ub", b[1])] = val
            return True
        return self.assume(st, as_bool(b), val)

    def known_nonzero(self, st, v):
        return self.decide(st, as_bool(v)) is True

    def known_zero(self, st, v):
        return self.decide(st, as_bool(v)) is False

    # -------------------------------------------------- memory
    def norm_ptr(self, p):
        """-> (obj, off) or None"""
        if is_ptr(p): return p[1], p[2]
        if isinstance(p, tuple) and p and p[0] == "F": return ("Fn", p[1]), 0
        if isinstance(p, int) or p == U: return None
        return ("S", p), 0

    def mkptr(self, obj, off):
        if off == 0 and obj[0] == "S": return obj[1]
        return ("P", obj, off)

    def padd(self, p, off, idx=()):
        if isinstance(p, int):
            if p == 0 and not idx: return 0 if off == 0 else ("P", ("null",), off)
            return ("s", ("pint", p, off))
        if p == U: return U
        obj, o = self.norm_ptr(p)
        if idx:
            d = 0
            for v, sc in idx:
                d = ladd(d, lscale(v, sc))
            t = ladd(d, off)
            t = ladd(t, o)
            return self.mkptr(obj, t)
        t = ladd(o, off)
        return self.mkptr(obj, t)

    def global_cell(self, name, off):
        g = self.prog.globals.get(name)
        if not g or not g.get("const") or "init" not in g: return None
        cells = g.get("_cells")
        if cells is None:
            cells = {}
            self._flat(g["init"], 0, cells)
            g["_cells"] = cells
        if off in cells: return self.const(cells[off])
        if isinstance(off, int) and 0 <= off < g.get("sz", 0) and any(True for _ in [0]):
            if g["init"][0] == "z": return 0
            if g["init"][0] in ("st", "arr"): return 0 if off not in cells else None
        return None

    def _flat(self, v, base, out):
        if v[0] == "st":
            for off, x in v[1]: self._flat(x, base + off, out)
        elif v[0] == "arr":
            for k, x in enumerate(v[2]): self._flat(x, base + k * v[1], out)
        elif v[0] == "s":
            for k, x in enumerate(v[1]): out[base + k] = ["c", x if x < 128 else x - 256, 8]
        elif v[0] == "z":
            pass
        else:
            out[base] = v

    def load(self, st, p, size=8, ins=None):
        q = self.norm_ptr(p)
        if q is None:
            self.mem_error(st, "null-deref", p)
            raise Stop("null deref")
        obj, off = q
        if obj in st.freed: self.mem_error(st, "use-after-free", p)
        key = (obj, off)
        v = st.mem.get(key)
        if v is not None:
            return self.subst(st, v)
        if obj[0] == "G":
            v = self.global_cell(obj[1], off)
            if v is not None: return v
        if obj[0] == "null":
            self.mem_error(st, "null-deref", p)
            raise Stop("null deref")
        if obj[0] == "S" and is_sym(obj[1]) and obj[1][1][0] == "cstr" and size == 1 and isinstance(off, int):
            t = obj[1][1][1]
            if t[0] == "cat": t = t[1][0]
            if t[0] == "sc" and 0 <= off < len(t[1]) and t[1][off] < 128: return t[1][off]
        v = None
        if obj in self.cp_objs and isinstance(off, int):
            for k, r in st.mem.items():
                if k[0] == obj and isinstance(k[1], tuple) and k[1][0] == "cp" and k[1][1] <= off < k[1][1] + k[1][2]:
                    v = ("s", ("fld", r[1], r[2] + off - k[1][1], r[3]))
        if v is None: v = ("s", ("fld", obj, off, st.hv.get(obj, 0)))
        st.mem[key] = v
        return self.subst(st, v)

    def store(self, st, p, v):
        q = self.norm_ptr(p)
        if q is None:
            self.mem_error(st, "null-deref", p)
            raise Stop("null deref")
        obj, off = q
        if obj in st.freed: self.mem_error(st, "use-after-free", p)
        if not isinstance(off, int):
            # unknown index: forget cells of the object
            for k in [k for k in st.mem if k[0] == obj and not (isinstance(k[1], int) and isinstance(st.mem[k], tuple) and st.mem[k][:1] == ("str",))]:
                if k[1] != off and obj[0] in ("al",): pass
        if obj[0] == "S" and is_sym(obj[1]) and obj[1][1][0] in ("cstr", "sit"): self.edit_text(st, obj[1][1][1])
        st.mem[(obj, off)] = v

    def edit_text(self, st, t):
        """a character of a text is overwritten: the strings that gave access to it hold another text"""
        for c in self.editable.get(t, ()):
            if st.mem.get(c) == ("str", t):
                n = t if t[0] == "so" and t[1][:1] == ("edited",) else ("so", ("edited", t))
                st.mem[c] = ("str", n)
                self.editable.setdefault(n, set()).add(c)

    def havoc(self, st, p, size, stamp):
        q = self.norm_ptr(p)
        if q is None: return
        obj, off = q
        if obj[0] in ("Fn",): return
        for k in [k for k in st.mem if k[0] == obj]:
            o = k[1]
            v = st.mem[k]
            if is_ptr(v) and v[1][0] == "G" and v[1][1].startswith("_ZTV"): continue      # the dynamic type stays
            if size is None or not isinstance(o, int) or not isinstance(off, int) or off <= o < off + size:
                del st.mem[k]
        # the stamp makes later lazily read cells distinct from earlier ones
        st.hv[obj] = stamp

    def mem_error(self, st, kind, p):
        if self.mon: self.mon.on_mem_error(self, st, kind, p)

    def const(self, o):
        k = o[0]
        if k == "c": return o[1]
        if k == "g": return ("P", ("G", o[1]), o[2])
        if k == "f": return ("F", o[1])
        if k == "u": return U
        if k == "z": return ("A", "zero")
        if k == "fp": return ("fp", o[1])
        if k == "md": return ("md", o[1])
        if k == "st": return ("A",) + tuple(self.const(x[1]) for x in o[1])
        return ("s", ("const", str(o)))

    def val(self, st, o):
        k = o[0]
        f = st.frames[-1]
        if k == "r":
            try:
                return f.regs[o[1]]
            except KeyError:
                return U
        if k == "a": return f.args[o[1]]
        return self.const(o)

    # -------------------------------------------------- CFG helpers
    def preds(self, fn):
        r = self._preds.get(fn.name)
        if r is None:
            r = {}
            for bi, b in enumerate(fn.blocks):
                t = b[-1]
                for s in self.succs(t): r.setdefault(s, set()).add(bi)
            self._preds[fn.name] = r
        return r

    @staticmethod
    def succs(t):
        op = t["op"]
        if op == "br": return [t["t"]] + ([t["f"]] if "f" in t else [])
        if op == "switch": return [t["d"]] + [c[1] for c in t["cs"]]
        if op == "invoke": return [t["t"], t["uw"]]
        return []

    def uses(self, ins):
        out = []
        def w(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == "r" and isinstance(x[1], int): out.append(x[1])
                elif len(x) == 2 and x[0] == "a" and isinstance(x[1], int): out.append(-1 - x[1])
                else:
                    for y in x: w(y)
        for k, v in ins.items():
            if k in ("l", "id", "op", "cls"): continue
            if isinstance(v, list): w(v)
        return out

    def live_in(self, fn):
        r = self._live.get(fn.name)
        if r is None:
            n = len(fn.blocks)
            use = [set() for _ in range(n)]
            dfn = [set() for _ in range(n)]
            phi_use = [dict() for _ in range(n)]
            for bi, b in enumerate(fn.blocks):
                for ins in b:
                    if ins["op"] == "phi":
                        for pb, v in ins["in"]:
                            if v[0] == "r": phi_use[bi].setdefault(pb, set()).add(v[1])
                            elif v[0] == "a": phi_use[bi].setdefault(pb, set()).add(-1 - v[1])
                    else:
                        for u in self.uses(ins):
                            if u not in dfn[bi]: use[bi].add(u)
                    dfn[bi].add(ins["id"])
            live = [set() for _ in range(n)]
            ch = True
            while ch:
                ch = False
                for bi in range(n - 1, -1, -1):
                    out = set()
                    for s in self.succs(fn.blocks[bi][-1]):
                        out |= {x for x in live[s]}
                        out |= phi_use[s].get(bi, set())
                    # phi defs are excluded from live-in but kept by key() after evaluation
                    li = use[bi] | (out - dfn[bi])
                    if li != live[bi]:
                        live[bi] = li; ch = True
            r = self._live[fn.name] = live
            self._phi_use[fn.name] = phi_use
        return r

    def live_at(self, fn, b, i):
        """registers (and, negative, arguments) needed from instruction i of block b on"""
        k = (fn.name, b, i)
        r = self._live_at.get(k)
        if r is None:
            li = self.live_in(fn)
            pu = self._phi_use[fn.name]
            bl = fn.blocks[b]
            cur = set()
            for s in self.succs(bl[-1]):
                cur |= li[s]
                cur |= pu[s].get(b, set())
            for j in range(len(bl) - 1, i - 1, -1):
                if bl[j]["op"] == "phi": continue
                cur.discard(bl[j]["id"])
                cur.update(self.uses(bl[j]))
            r = self._live_at[k] = frozenset(cur)
        return r

    def live_after(self, fn, b, i):
        k = (fn.name, b, i, "after")
        r = self._live_at.get(k)
        if r is None:
            ins = fn.blocks[b][i]
            if ins["op"] == "invoke":
                li = self.live_in(fn); pu = self._phi_use[fn.name]
                cur = set()
                for s in self.succs(ins):
                    cur |= li[s] | pu[s].get(b, set())
                cur.discard(ins["id"])
            else:
                cur = set(self.live_at(fn, b, i + 1)); cur.discard(ins["id"])
            r = self._live_at[k] = frozenset(cur)
        return r

    # -------------------------------------------------- state key for merging
    def deps(self, v):
        """abstract objects and symbols a value mentions"""
        if not isinstance(v, tuple): return ()
        r = self._deps.get(v)
        if r is None:
            out = set()
            stack = [v]
            while stack:
                x = stack.pop()
                if isinstance(x, tuple) and x:
                    h = x[0]
                    if h == "s": out.add(("S", x))
                    elif h in ("al", "H") and len(x) >= 3: out.add(x)
                    for y in x:
                        if isinstance(y, tuple): stack.append(y)
            r = self._deps[v] = frozenset(out)
        return r

    def syms(self, v):
        return {x[1] for x in self.deps(v) if x[0] == "S"}

    def gc(self, st, extra=()):
        """drops memory and facts that nothing live can reach"""
        reach = set()
        for d, f in enumerate(st.frames):
            if d == len(st.frames) - 1 or st.frames[d + 1].tag == "redo": lv = self.live_at(f.fn, f.b, f.i)
            else: lv = self.live_after(f.fn, f.b, f.i)
            if len(f.regs) > len(lv):
                for k in [k for k in f.regs if k not in lv]: del f.regs[k]
            for v in f.regs.values(): reach.update(self.deps(v))
            for n, v in enumerate(f.args):
                if (-1 - n) in lv or d == 0: reach.update(self.deps(v))
        for v in st.mon.values(): reach.update(self.deps(v))
        for v in self.roots: reach.update(self.deps(v))
        for e in st.caught:
            if e: reach.update(self.deps(e))
        if st.exc: reach.update(self.deps(st.exc))
        byobj = {}
        for k in st.mem: byobj.setdefault(k[0], []).append(k)
        work = list(reach)
        for o in byobj:
            if o[0] == "G" or self.is_root_obj(o):
                for k in byobj[o]:
                    for d in self.deps(st.mem[k]):
                        if d not in reach: reach.add(d); work.append(d)
        while work:
            o = work.pop()
            for k in byobj.get(o, ()):
                for d in self.deps(st.mem[k]):
                    if d not in reach: reach.add(d); work.append(d)
                if isinstance(k[1], tuple):
                    for d in self.deps(k[1]):
                        if d not in reach: reach.add(d); work.append(d)
        for o, ks in byobj.items():
            if o[0] == "G" or o in reach or self.is_root_obj(o): continue
            # keep objects embedded in reachable ones through their symbol
            for k in ks: del st.mem[k]
        dead = []
        for d in st.facts:
            dd = self.deps(d)
            if dd and not any(x in reach for x in dd): dead.append(d)
        for d in dead: del st.facts[d]
        if st.freed: st.freed = frozenset(o for o in st.freed if o in reach)
        return reach

    def is_root_obj(self, o):
        return o[0] == "arg"

    def merge_key(self, st):
        if self.straight and not self.work:
            # no other path is waiting: nothing to merge with
            self.skipped += 1
            if self.skipped % 60: return None
        return self.key(st)

    def key(self, st):
        self.gc(st)
        fr = []
        n = len(st.frames) - 1
        for d, f in enumerate(st.frames):
            lv = self.live_at(f.fn, f.b, f.i) if d == n or st.frames[d + 1].tag == "redo" else self.live_after(f.fn, f.b, f.i)
            fr.append((f.fn.name, f.b, f.i, f.ctx, frozenset(f.regs.items()),
                       tuple(v if (-1 - k) in lv else None for k, v in enumerate(f.args))))
        mem = frozenset(st.mem.items())
        facts = frozenset(st.facts.items())
        mon = tuple(sorted(st.mon.items(), key=lambda kv: repr(kv[0])))
        return hash((tuple(fr), mem, facts, mon, st.caught, st.freed))

    # -------------------------------------------------- exploration
    def start(self, fn, args, mem=None, mon=None):
        st = State()
        st.frames = []; st.mem = dict(mem or {}); st.facts = {}; st.mon = dict(mon or {}); st.hv = {}; st.gens = {}
        st.trace = None; st.caught = (); st.exc = None; st.freed = frozenset(); st.pending = None
        self.push(st, fn, tuple(args), ("root", fn.name))
        return st

    def push(self, st, fn, args, ctxkey):
        parent = st.frames[-1].ctx if st.frames else -1
        fr = Frame(fn, args, self.intern_ctx((parent,) + ctxkey))
        st.frames.append(fr)
        self.entered[fn.name] = self.entered.get(fn.name, 0) + 1
        # object types from the declared parameter types
        dt = fn.dt[1:]
        shift = 1 if fn.sret else 0
        for k, t in enumerate(dt):
            j = k + shift
            if j >= len(args): break
            a = args[j]
            if t.endswith("*") or t.endswith("&"):
                q = self.norm_ptr(a)
                if q and q[1] == 0 and q[0] not in self.otype:
                    base = t.rstrip("*&")
                    if t.count("*") + t.count("&") == 1:
                        self.otype[q[0]] = base.replace("const ", "")
        return fr

    def run(self, st0, on_end=None):
        work = [st0]
        seen = set()
        states = 0
        outer, self.work = self.work, work
        try: self.run_all(st0, work, seen, states)
        finally: self.work = outer

    def run_all(self, st0, work, seen, states):
        while work:
            st = work.pop()
            states += 1
            if states > self.max_states:
                raise Budget("more than %d states from %s" % (self.max_states, st0.frames[0].fn.dem if st0.frames else "?"))
            try:
                self.run_one(st, work, seen)
            except Stop:
                self.npaths += 1

    def finish(self, st, kind, v=None):
        self.ends += 1
        self.npaths += 1
        if self.mon: self.mon.on_end(self, st, kind, v)

    def goto(self, st, b):
        f = st.frames[-1]
        f.prev = f.b
        f.b = b
        f.i = 0
        bl = f.fn.blocks[b]
        # phis in parallel
        new = {}
        while bl[f.i]["op"] == "phi":
            ins = bl[f.i]
            for pb, v in ins["in"]:
                if pb == f.prev:
                    new[ins["id"]] = self.val(st, v)
                    break
            f.i += 1
        f.regs.update(new)
        li = self.live_in(f.fn)[b]
        for k in [k for k in f.regs if k not in li and k not in new]:
            del f.regs[k]

    def run_one(self, st, work, seen):
        """Runs until the path ends; pushes forks on work."""
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget("more than %d steps" % self.max_steps)
            f = st.frames[-1]
            ins = f.fn.blocks[f.b][f.i]
            op = ins["op"]
            if op == "br":
                if "f" not in ins:
                    tgt = ins["t"]
                    if not self.enter_block(st, tgt, seen): return
                    continue
                c = as_bool(self.val(st, ins["c"]))
                d = self.decide(st, c)
                if d is None:
                    # fork
                    vk = (f.b, "fork")
                    n = f.visits.get(vk, 0)
                    f.visits[vk] = n + 1
                    if n >= self.loop_limit * 2:
                        self.npaths += 1
                        return
                    s2 = st.fork()
                    ok1 = self.assume(s2, c, False)
                    if ok1:
                        if self.mon: self.mon.on_branch(self, s2, ins, c, False)
                        s2.note(self.cur_loc(s2), "condition false")
                        if self.enter_block(s2, ins["f"], seen): work.append(s2)
                    if not self.assume(st, c, True): return
                    if self.mon: self.mon.on_branch(self, st, ins, c, True)
                    st.note(self.cur_loc(st), "condition true")
                    if not self.enter_block(st, ins["t"], seen): return
                else:
                    if not self.enter_block(st, ins["t"] if d else ins["f"], seen): return
                continue
            if op == "switch":
                v = self.subst(st, self.val(st, ins["c"]))
                if isinstance(v, int):
                    tgt = ins["d"]
                    for cv, b in ins["cs"]:
                        if cv == v: tgt = b
                    if not self.enter_block(st, tgt, seen): return
                    continue
                alts = []
                for cv, b in ins["cs"]:
                    s2 = st.fork()
                    if self.assume(s2, cmp_("eq", v, cv), True):
                        s2.note(self.cur_loc(s2), "case %d" % cv)
                        alts.append((s2, b))
                ok = True
                for cv, b in ins["cs"]:
                    if not self.assume(st, cmp_("eq", v, cv), False): ok = False; break
                if ok:
                    st.note(self.cur_loc(st), "default case")
                    alts.append((st, ins["d"]))
                for s2, b in alts:
                    if self.enter_block(s2, b, seen): work.append(s2)
                return
            if op in ("call", "invoke"):
                r = self.do_call(st, ins, work, seen)
                if not r: return
                continue
            if op == "ret":
                v = self.val(st, ins["v"]) if "v" in ins else None
                if not self.do_ret(st, v, work, seen): return
                continue
            if op == "resume":
                if not self.unwind(st, work, seen, resume=True): return
                continue
            if op == "unreachable":
                self.npaths += 1
                if self.mon: self.mon.on_end(self, st, "unreachable", None)
                return
            self.simple(st, f, ins, op)
            f.i += 1

    def enter_block(self, st, b, seen):
        f = st.frames[-1]
        n = f.visits.get(b, 0) + 1
        f.visits[b] = n
        if n > self.const_loop_limit:
            self.npaths += 1
            return False
        self.goto(st, b)
        if len(self.preds(f.fn).get(b, ())) > 1:
            k = self.merge_key(st)
            if k is not None and k in seen:
                self.merged += 1
                return False
            seen.add(k)
        return True

    def simple(self, st, f, ins, op):
        R = f.regs
        V = self.val
        if op == "load":
            p = V(st, ins["p"])
            if self.field_track: self.field_track(self, st, "read", p, ins, None)
            v = self.parts(st, p, ins["ty"]) if ins["ty"][0] == "i" and ins["ty"] not in ("i1", "i8") else None
            R[ins["id"]] = self.load(st, p, ins["sz"], ins) if v is None else v
        elif op == "store":
            p = V(st, ins["p"]); v = V(st, ins["v"])
            if self.field_track: self.field_track(self, st, "write", p, ins, v)
            if isinstance(v, tuple) and v[:1] == ("A",):
                q = self.norm_ptr(p)
                if v[1:2] == ("zero",): self.store(st, p, 0)
                else:
                    for k, x in enumerate(v[1:]): self.store(st, self.padd(p, 8 * k), x)
            elif isinstance(v, tuple) and v[:1] == ("BV",):
                for k, x in v[1]: self.store(st, self.padd(p, k), x)
            else:
                self.store(st, p, v)
        elif op == "gep":
            if "bad" in ins: R[ins["id"]] = self.fresh(st, "gep", ins["id"])
            else:
                idx = [(self.subst(st, V(st, v)), sc) for v, sc in ins.get("idx", ())]
                R[ins["id"]] = self.padd(V(st, ins["p"]), ins["off"], idx)
        elif op == "alloca":
            ob = ("al", f.ctx, ins["id"])
            for k in [k for k in st.mem if k[0] == ob]: del st.mem[k]
            st.hv.pop(ob, None)
            if ob in st.freed: st.freed = st.freed - {ob}
            R[ins["id"]] = ("P", ob, 0)
        elif op == "icmp":
            a, b = self.subst(st, V(st, ins["a"])), self.subst(st, V(st, ins["b"]))
            R[ins["id"]] = self.icmp(ins["pr"], a, b)
        elif op == "bin":
            R[ins["id"]] = self.binop(ins["o"], self.subst(st, V(st, ins["a"])), self.subst(st, V(st, ins["b"])), ins["ty"])
        elif op == "cast":
            R[ins["id"]] = self.cast(ins["o"], self.subst(st, V(st, ins["a"])), ins["from"], ins["ty"])
        elif op == "select":
            c = as_bool(V(st, ins["c"]))
            d = self.decide(st, c)
            a, b = V(st, ins["a"]), V(st, ins["b"])
            if d is None:
                if isinstance(a, tuple) and a[:1] in (("b",), ("and",), ("or",), ("ub",)) or isinstance(b, tuple) and b[:1] in (("b",), ("and",), ("or",), ("ub",)):
                    a2, b2 = as_bool(a), as_bool(b)
                    if a2 == 1: R[ins["id"]] = ("or", c, b2)
                    elif b2 == 0: R[ins["id"]] = ("and", c, a2)
                    else: R[ins["id"]] = ("or", ("and", c, a2), ("and", bneg(c), b2))
                elif a == b: R[ins["id"]] = a
                else:
                    R[ins["id"]] = ("sel", c, a, b)
            else:
                R[ins["id"]] = a if d else b
        elif op == "ev":
            a = V(st, ins["a"])
            for k in ins["ix"]:
                if isinstance(a, tuple) and a[:1] == ("A",) and k + 1 < len(a): a = a[k + 1]
                else: a = ("s", ("ev", a, k))
            R[ins["id"]] = a
        elif op == "iv":
            a = V(st, ins["a"]); b = V(st, ins["b"]); k = ins["ix"][0]
            l = list(a[1:]) if isinstance(a, tuple) and a[:1] == ("A",) else []
            while len(l) <= k: l.append(U)
            l[k] = b
            R[ins["id"]] = ("A",) + tuple(l)
        elif op == "lpad":
            R[ins["id"]] = ("A", st.exc[1] if st.exc else U, st.pending if st.pending is not None else 0)
        elif op == "fcmp":
            a, b = V(st, ins["a"]), V(st, ins["b"])
            R[ins["id"]] = ("ub", ("fcmp", ins["pr"], a, b), False)
        elif op == "rmw":
            p = V(st, ins["p"])
            if self.field_track: self.field_track(self, st, "atomic", p, ins, None)
            old = self.load(st, p)
            v = V(st, ins["v"])
            nv = ladd(old, v) if ins["o"] == "add" else ladd(old, v, -1) if ins["o"] == "sub" else self.fresh(st, "rmw", ins["id"])
            if ins["o"] == "xchg": nv = v
            self.store(st, p, nv)
            R[ins["id"]] = old
        else:
            R[ins["id"]] = self.fresh(st, op, ins["id"])

    def icmp(self, pr, a, b):
        if pr in ("ult", "ule", "ugt", "uge"):
            if b == -1 and not isinstance(a, int):      # the largest unsigned value
                return {"ult": bneg(cmp_("eq", a, -1)), "ule": 1, "ugt": 0, "uge": cmp_("eq", a, -1)}[pr]
            if a == -1 and not isinstance(b, int):
                return {"ult": 0, "ule": cmp_("eq", b, -1), "ugt": bneg(cmp_("eq", b, -1)), "uge": 1}[pr]
            if isinstance(a, int) and a < 0: a += 1 << 64
            if isinstance(b, int) and b < 0: b += 1 << 64
        if pr == "eq": return cmp_("eq", a, b)
        if pr == "ne": return bneg(cmp_("eq", a, b))
        if pr in ("ult", "slt"): return cmp_("lt", a, b)
        if pr in ("ugt", "sgt"): return cmp_("lt", b, a)
        if pr in ("uge", "sge"): return bneg(cmp_("lt", a, b))
        return bneg(cmp_("lt", b, a))

    # small structs travel in one register: values of several fields side by side, ("BV", ((offset, value), ...))
    def parts(self, st, p, ty):
        n = int(ty[1:]) // 8
        odd = ty not in ("i16", "i32", "i64", "i128")
        if n < 2 or (not odd and n > 8): return None
        q = self.norm_ptr(p)
        if q is None or not isinstance(q[1], int): return None
        obj, off = q
        if not odd and (obj, off + 1) not in st.mem: return None
        if obj in st.freed: self.mem_error(st, "use-after-free", p)
        return ("BV", tuple((k, self.subst(st, st.mem[(obj, off + k)])) for k in range(n) if (obj, off + k) in st.mem))

    def bv(self, o, a, b, ty):
        """shifts, masks and unions of such values"""
        isbv = lambda x: isinstance(x, tuple) and x[:1] == ("BV",)
        odd = ty not in ("i1", "i8", "i16", "i32", "i64", "i128")
        if not (isbv(a) or isbv(b) or odd): return None
        if o in ("shl", "lshr") and isinstance(b, int) and b % 8 == 0 and not isinstance(a, int):
            k, n = b // 8, int(ty[1:]) // 8
            ps = a[1] if isbv(a) else ((0, a),)
            return ("BV", tuple((i + k if o == "shl" else i - k, x) for i, x in ps if (i + k < n if o == "shl" else i >= k)))
        if o == "or" and not (isinstance(a, int) and isinstance(b, int)):
            d = {}
            for v in (a, b):
                if v == 0: continue
                for i, x in (v[1] if isbv(v) else ((0, v),)):
                    if i in d and d[i] != 0 and x != 0: return None
                    d[i] = x if d.get(i, 0) == 0 else d[i]
            return ("BV", tuple(sorted(d.items(), key=lambda e: e[0])))
        if o == "and" and isbv(a) and isinstance(b, int):
            return ("BV", tuple((i, x) for i, x in a[1] if (b >> (8 * i)) & 255 == 255))
        return None

    def binop(self, o, a, b, ty):
        if ty != "i1" and o in ("shl", "lshr", "or", "and"):
            r = self.bv(o, a, b, ty)
            if r is not None: return r
        if o == "add": return ladd(self.unb(a), self.unb(b))
        if o == "sub":
            if is_ptr(a) and is_ptr(b) and a[1] == b[1]: return ladd(a[2], b[2], -1)
            return ladd(self.unb(a), self.unb(b), -1)
        if o == "mul":
            if isinstance(b, int): return lscale(a, b)
            if isinstance(a, int): return lscale(b, a)
        bools = ("b", "and", "or", "ub")
        if ty == "i1":
            if o == "xor":
                if b in (1, -1): return bneg(as_bool(a))
                if b == 0: return a
                a2, b2 = as_bool(a), as_bool(b)
                return ("or", ("and", a2, bneg(b2)), ("and", bneg(a2), b2))
            if o == "and": return ("and", as_bool(a), as_bool(b)) if not isinstance(a, int) and not isinstance(b, int) else (0 if a == 0 or b == 0 else (b if isinstance(a, int) else a))
            if o == "or": return ("or", as_bool(a), as_bool(b)) if not isinstance(a, int) and not isinstance(b, int) else (1 if (isinstance(a, int) and a) or (isinstance(b, int) and b) else (b if isinstance(a, int) else a))
        if isinstance(a, int) and isinstance(b, int):
            try:
                if o == "and": return a & b
                if o == "or": return a | b
                if o == "xor": return a ^ b
                if o == "shl": return self.wrap(a << b, ty)
                if o in ("lshr", "ashr"): return (a if o == "ashr" or a >= 0 else a + (1 << int(ty[1:]))) >> b
                if o in ("sdiv", "udiv") and b: return int(a / b) if abs(a) < 2**52 else a // b
                if o in ("srem", "urem") and b: return a - b * int(a / b) if abs(a) < 2**52 else a % b
            except Exception:
                pass
        if o == "and" and (a == 0 or b == 0): return 0
        if o == "and" and b == -1: return a
        if o == "and" and a == -1: return b
        if o == "or":
            if a == 0: return b
            if b == 0: return a
            # boolean or on bytes (|= on bools)
        if o == "shl" and isinstance(b, int): return lscale(a, 1 << b)
        if o in ("or", "and") and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "z" and b[0] == "z":
            return ("z", (o, a[1], b[1]))
        return ("op", o, a, b)

    def unb(self, v):
        if isinstance(v, tuple) and v and v[0] in ("b", "and", "or", "ub"): return ("z", v)
        return v

    @staticmethod
    def wrap(v, ty):
        n = int(ty[1:])
        v &= (1 << n) - 1
        return v - (1 << n) if v >> (n - 1) else v

    def cast(self, o, a, fr, to):
        if isinstance(a, tuple) and a[:1] == ("BV",):
            if o == "trunc":
                ps = tuple((i, x) for i, x in a[1] if i * 8 < int(to[1:]))
                if not ps: return ("ub", ("undef",), False) if to == "i1" else U
                if len(ps) == 1 and ps[0][0] == 0:
                    x = ps[0][1]
                    return (x & 1 if isinstance(x, int) else as_bool(x)) if to == "i1" else x
                return as_bool(ps[0][1]) if to == "i1" else ("BV", ps)
            if o in ("zext", "sext"): return a
        if o == "trunc":
            if to == "i1":
                if isinstance(a, int): return a & 1
                return as_bool(a)
            if isinstance(a, int): return self.wrap(a, to)
            if self.narrowing and isinstance(a, tuple) and int(to[1:]) < int(fr[1:]): return ("op", "trunc", a, to)
            return a
        if o == "zext":
            if isinstance(a, int):
                n = int(fr[1:])
                return a & ((1 << n) - 1)
            if fr == "i1":
                b = as_bool(a)
                return b if isinstance(b, int) else ("z", b)
            return a
        if o == "sext":
            if fr == "i1" and not isinstance(a, int): return ("op", "sext1", a, 0)
            return a
        if o in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"): return a
        if isinstance(a, tuple): return ("op", o, a, 0)
        return ("op", o, a, 0)

    # -------------------------------------------------- calls
    def do_call(self, st, ins, work, seen):
        f = st.frames[-1]
        fv = ins["fn"]
        args = tuple(self.val(st, a) for a in ins["as"])
        if fv[0] == "f":
            return self.call_fn(st, self.prog.funcs[fv[1]], args, ins, work, seen)
        if fv[0] == "x":
            f.regs[ins["id"]] = self.fresh(st, "asm", ins["id"])
            return self.after_call(st, ins)
        v = self.subst(st, self.val(st, fv))
        if isinstance(v, tuple) and v[0] == "F":
            return self.call_fn(st, self.prog.funcs[v[1]], args, ins, work, seen)
        if v == 0:
            self.mem_error(st, "null-call", v)
            raise Stop("null call")
        # virtual call through an unknown vtable?
        if is_sym(v) and v[1][0] == "fld" and v[1][1][0] == "S":
            vs = v[1][1][1]
            tys = self.vt_types.get(vs)
            if tys:
                return self.virtual_call(st, vs, tys, v[1][2], args, ins, work, seen)
        return self.indirect(st, v, args, ins, work, seen)

    def indirect(self, st, v, args, ins, work, seen):
        outs = self.mon.on_indirect(self, st, v, args, ins) if self.mon else None
        if outs is None:
            outs = self.opaque(st, None, args, ins, "indirect")
        return self.apply(st, outs, ins, work, seen)

    def vname(self, tys, slot):
        """Qualified name of the virtual function in a slot, from debug info."""
        for zts in tys:
            cls = type_of_zts(zts)
            r = self.vslot_name(cls, slot)
            if r: return r
            # templates or anonymous classes: use any implementing function's name
            for vt, off in self.vt.by_type.get(zts, ()):
                fn = self.vt.fn(vt, off + slot * 8)
                if fn and fn in self.prog.funcs and not fn.startswith("__cxa"):
                    return self.short(self.prog.funcs[fn])
        return "%s::vslot%d" % (type_of_zts(sorted(tys)[0]), slot)

    def vslot_name(self, cls, slot):
        r = self.prog.records.get(cls)
        if not r: return None
        for k, n, l in r.get("v", ()):
            if k == slot: return cls + "::" + n
            if n.startswith("~") and k + 1 == slot: return cls + "::" + n
        for b, off in r["b"]:
            if off == 0:
                x = self.vslot_name(b, slot)
                if x: return x
        return None

    def virtual_call(self, st, vs, tys, off, args, ins, work, seen):
        slot = off // 8 if isinstance(off, int) else -1
        name = self.vname(tys, slot)
        base = name.rsplit("::", 1)[-1]
        self.vcalls[name] = self.vcalls.get(name, 0) + 1
        cands = None
        for zts in tys:
            c = {(vt, o) for vt, o in self.vt.by_type.get(zts, ())}
            cands = c if cands is None else cands & c
        cands = sorted(cands or ())
        if self.mon:
            outs = self.mon.on_virtual(self, st, name, args, ins, cands)
            if outs is not None:
                return self.apply(st, outs, ins, work, seen)
        if base.startswith("~"):
            # destruction of an object of unknown dynamic type
            self.free_obj(st, args[0], ins, deleting=True)
            return self.after_call(st, ins)
        if name in self.user_virtual:
            outs = self.user_call(st, name, args, ins)
            return self.apply(st, outs, ins, work, seen)
        impl = {}
        for vt, o in cands:
            fn = self.vt.fn(vt, o + slot * 8)
            if fn and not fn.startswith("__cxa_pure"):
                impl.setdefault(fn, []).append((vt, o))
        if self.mon: impl = self.mon.filter_impls(self, st, name, args, impl)
        if not impl:
            outs = self.opaque(st, None, args, ins, "virtual " + name)
            return self.apply(st, outs, ins, work, seen)
        items = sorted(impl.items())
        states = [st] + [st.fork() for _ in items[1:]]
        cont = False
        for s2, (fn, vts) in zip(states, items):
            if len(vts) == 1 and vs[1][0] == "fld":
                # remember the chosen dynamic type
                s2.mem[(vs[1][1], vs[1][2])] = ("P", ("G", vts[0][0]), vts[0][1])
                # the vtable symbol itself now resolves to that vtable
            s2.note(self.cur_loc(s2), "virtual %s -> %s" % (name, fn))
            if s2 is st:
                first = fn
            else:
                try:
                    if self.call_fn(s2, self.prog.funcs[fn], args, ins, work, seen): work.append(s2)
                except Stop:
                    self.npaths += 1
        return self.call_fn(st, self.prog.funcs[first], args, ins, work, seen)

    def user_call(self, st, name, args, ins):
        """user code behind a virtual: returns anything or throws any kind of exception"""
        outs = []
        for ti in self.throw_user:
            s2 = st.fork()
            s2.note(self.cur_loc(s2), "user code %s throws %s" % (name, ti))
            outs.append(Outcome("throw", s2, (ti, ("s", ("userexc", ti)))))
        r = self.fresh(st, "user:" + name, ins["id"])
        st.note(self.cur_loc(st), "user code %s returns" % name)
        outs.append(Outcome("ret", st, r))
        return outs

    def inlinable(self, fn):
        if fn.decl: return False
        f = fn.file
        if "/libiqxmlrpc/" in f or f.endswith("driver.cc"): return True
        return self.inline_lib(fn)

    INLINE_PREFIX = ("std::auto_ptr", "boost::scoped_ptr", "boost::optional", "boost::optional_detail", "boost::unique_lock",
                     "std::unique_ptr", "std::__uniq_ptr", "std::pair", "boost::lock_guard", "std::lock_guard", "std::unique_lock",
                     "std::forward", "std::move", "std::addressof", "std::__addressof", "boost::addressof", "std::tuple", "std::get",
                     "std::_Head_base", "std::_Tuple_impl", "std::__get_helper", "std::default_delete", "boost::checked_delete",
                     "boost::optional_ns", "boost::detail::addr", "std::atomic", "std::__atomic_base", "std::operator&",
                     "std::unique_ptr_impl", "std::__uniq_ptr_data", "std::__uniq_ptr_impl", "std::get_deleter", "std::swap", "std::exchange",
                     "boost::lock", "boost::move", "boost::forward", "std::make_unique", "boost::core", "boost::detail::lock",
                     "boost::move_detail", "boost::scoped_array", "boost::aligned_storage", "boost::detail::aligned_storage", "boost::utility",
                     "std::min", "std::max", "boost::addressof_impl", "std::allocator", "std::__new_allocator", "__gnu_cxx::new_allocator", "boost::none_t", "boost::noncopyable", "boost::in_place_factory_base")

    def inline_lib(self, fn):
        s = self.short(fn)
        return s.startswith(self.INLINE_PREFIX) or (bool(self.inline_extra) and s.startswith(self.inline_extra))

    def call_fn(self, st, fn, args, ins, work, seen):
        name = self.short(fn)
        if self.mon:
            outs = self.mon.on_call(self, st, name, fn, args, ins)
            if outs is not None:
                return self.apply(st, outs, ins, work, seen)
        m = self.models.get(name)
        if m is None and fn.name in self.models: m = self.models[fn.name]
        if m is None and not (self.inline_extra and name.startswith(self.inline_extra)):
            m = self.model_by_prefix(name, fn)
        if m is not None:
            r = m(self, st, fn, args, ins)
            if isinstance(r, list):
                return self.apply(st, r, ins, work, seen)
            if r is None and ins["ty"] != "v": r = self.fresh(st, "ret:" + name, ins["id"])
            st.frames[-1].regs[ins["id"]] = r
            return self.after_call(st, ins)
        if name in self.boundary:
            outs = self.summary(st, fn, name, args, ins)
            return self.apply(st, outs, ins, work, seen)
        if self.inlinable(fn) and name not in self.no_inline:
            depth = sum(1 for f in st.frames if f.fn.name == fn.name)
            if depth < self.rec_limit and len(st.frames) < self.max_depth:
                st.note("%s:%d" % (fn.file, fn.line), "enter " + name)
                self.push(st, fn, args, (ins["id"], fn.name))
                return True
            outs = self.summary(st, fn, name, args, ins)
            return self.apply(st, outs, ins, work, seen)
        outs = self.opaque(st, fn, args, ins, name)
        return self.apply(st, outs, ins, work, seen)

    def model_by_prefix(self, name, fn):
        import models
        return models.by_prefix(name, fn)

    def summary(self, st, fn, name, args, ins):
        """in-repo function not entered: any result, plus the exceptions that can escape it"""
        outs = []
        tis = self.boundary.get(name)
        if tis is None or tis is True:
            tis = self.escapes(fn)
        for ti in sorted(tis):
            s2 = st.fork()
            s2.note(self.cur_loc(s2), "%s throws %s" % (name, ti))
            outs.append(Outcome("throw", s2, (ti, ("s", ("exc", name, ti)))))
        outs += self.opaque(st, fn, args, ins, name)
        return outs

    def escapes(self, fn):
        if self.esc is None:
            import escape
            self.esc = escape.Escape(self.prog, self)
        return self.esc.reps(self.esc.of(fn.name))

    CONSTREF = ("const&", "const*")

    def opaque(self, st, fn, args, ins, name):
        """unknown code: havocs what it can write, returns a fresh symbol"""
        self.opaque_called[name] = self.opaque_called.get(name, 0) + 1
        taint = self.taint(st, args)
        stamp = (st.frames[-1].ctx, ins["id"], st.gens.get(("hv", st.frames[-1].ctx, ins["id"]), 0), taint)
        g = ("hv", st.frames[-1].ctx, ins["id"])
        st.gens[g] = min(st.gens.get(g, 0) + 1, 3)
        params = split_params(fn.dem) if fn is not None and fn.name.startswith("_Z") else []
        isconst = fn is not None and fn.dem.endswith(" const")
        ismember = fn is not None and fn.ctx and len(params) + 1 + (1 if ins.get("sret") else 0) == len(args)
        ps = (["sret"] if ins.get("sret") else []) + ((["this const"] if isconst else ["this"]) if ismember else []) + params
        for k, a in enumerate(args):
            if isinstance(a, int) or a == U: continue
            q = self.norm_ptr(a)
            if q is None or q[0][0] in ("Fn", "G"): continue
            if q[0][0] == "S" and not is_sym(q[0][1]): continue
            t = ps[k] if k < len(ps) else ""
            if "const&" in t or "const*" in t or t == "this const": continue
            if t and not (t.endswith("&") or t.endswith("*") or t in ("sret", "this")): continue
            self.havoc(st, a, self.pointee_size(fn, t), stamp)
        v = None
        if ins["ty"] != "v":
            v = self.fresh(st, "ret:" + name, ins["id"], taint)
        return [Outcome("ret", st, v)]

    def taint(self, st, args):
        """root arguments the inputs of an opaque call derive from"""
        out = set()
        for a in args:
            if not isinstance(a, tuple): continue
            for d in self.deps(a): self._taint1(st, d, out)
            q = self.norm_ptr(a)
            if q:
                v = st.mem.get(q)
                if v is not None:
                    for d in self.deps(v): self._taint1(st, d, out)
                h = st.hv.get(q[0])
                if h:
                    for d in self.deps(h): self._taint1(st, d, out)
        return tuple(sorted(out, key=repr))

    @staticmethod
    def _taint1(st, d, out):
        if d[0] == "S" and isinstance(d[1], tuple) and d[1][1][0] == "arg": out.add(d[1])

    def opaque_pure(self, st, ins, name):
        """a call without effect on tracked state"""
        return [Outcome("ret", st, self.fresh(st, "ret:" + name, ins["id"]) if ins["ty"] != "v" else None)]

    def pointee_size(self, fn, t):
        if t == "this" and fn is not None:
            r = self.prog.records.get(fn.ctx)
            if r and r["sz"]: return r["sz"]
            return None
        b = t.rstrip("&* ").strip()
        if b.startswith("std::__cxx11::basic_string<char"): return 32
        r = self.prog.records.get(b)
        if r and r["sz"]: return r["sz"]
        return {"bool": 1, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "char": None, "void": None}.get(b, None)

    def apply(self, st, outs, ins, work, seen):
        """applies outcomes; returns True if st itself continues"""
        cont = False
        for o in outs:
            s2 = o.st
            try:
                if o.kind == "ret":
                    if o.v is not None: s2.frames[-1].regs[ins["id"]] = o.v
                    ok = self.after_call(s2, ins)
                elif o.kind == "enter":
                    fn, args = o.v
                    self.push(s2, fn, tuple(args), (ins["id"], fn.name))
                    ok = True
                elif o.kind == "redo":
                    # the call is made again when the function entered here has returned
                    fn, args, k = o.v
                    self.push(s2, fn, tuple(args), (ins["id"], fn.name, "redo", k))
                    s2.frames[-1].tag = "redo"
                    ok = True
                elif o.kind == "end":
                    self.finish(s2, o.v)
                    ok = False
                else:
                    s2.exc = o.v
                    ok = self.unwind(s2, work, seen)
            except Stop:
                self.npaths += 1
                ok = False
            if s2 is st: cont = ok
            elif ok: work.append(s2)
        return cont

    def after_call(self, st, ins):
        f = st.frames[-1]
        if ins["op"] == "invoke":
            self.goto(st, ins["t"])
        else:
            f.i += 1
        return True

    def do_ret(self, st, v, work, seen):
        fr = st.frames.pop()
        if self.mon: self.mon.on_return(self, st, fr, v)
        # drop the frame's locals
        dead = [k for k in st.mem if k[0][0] == "al" and k[0][1] == fr.ctx]
        for k in dead: del st.mem[k]
        if not st.frames:
            self.finish(st, "ret", v)
            return False
        f = st.frames[-1]
        if fr.tag == "redo": return True
        ins = f.fn.blocks[f.b][f.i]
        if v is not None: f.regs[ins["id"]] = v
        self.after_call(st, ins)
        if self.multi_ret(fr.fn):
            k = self.merge_key(st)
            if k is not None and k in seen:
                self.merged += 1
                return False
            seen.add(k)
        return True

    def multi_ret(self, fn):
        """worth trying to merge after this callee: it branches"""
        r = self._live_at.get(("mr", fn.name))
        if r is None:
            r = self._live_at[("mr", fn.name)] = len(fn.blocks) > 2
        return r

    def unwind(self, st, work, seen, resume=False):
        """st.exc is set; finds the handler. Returns True if st continues there."""
        if resume:
            # leaving a cleanup landing pad of the current frame
            fr = st.frames.pop()
            for k in [k for k in st.mem if k[0][0] == "al" and k[0][1] == fr.ctx]: del st.mem[k]
            if self.mon: self.mon.on_unwind_frame(self, st, fr)
        while st.frames:
            f = st.frames[-1]
            ins = f.fn.blocks[f.b][f.i]
            if ins["op"] == "invoke":
                lp = None
                for x in f.fn.blocks[ins["uw"]]:
                    if x["op"] == "lpad": lp = x; break
                sel = self.match(lp, st.exc[0])
                if sel is not None:
                    st.pending = sel
                    self.goto(st, ins["uw"])
                    return True
            fr = st.frames.pop()
            for k in [k for k in st.mem if k[0][0] == "al" and k[0][1] == fr.ctx]: del st.mem[k]
            if self.mon: self.mon.on_unwind_frame(self, st, fr)
        self.finish(st, "throw", st.exc)
        return False

    def match(self, lp, ti):
        for kind, c in lp["cls"]:
            if kind == "catch":
                if c[0] == "c": return ("tid", None)          # catch (...)
                if c[0] == "g" and self.hier.derives(ti, c[1]): return ("tid", c[1])
            else:
                return ("tid", "filter")
        if "cl" in lp: return 0
        return None

    # -------------------------------------------------- misc services for models
    NULLABLE = ("ret:ERR_reason_error_string", "ret:xml", "ret:hstrerror", "ret:inet_ntoa", "ret:getenv")

    def nullable(self, v):
        return is_sym(v) and isinstance(v[1][0], str) and v[1][0].startswith(self.NULLABLE)

    def shared_havoc(self, st, stamp):
        """another thread may have run: forget every cell of objects reachable from outside this frame"""
        for k in [k for k in st.mem if k[0][0] != "al" and not (is_ptr(st.mem[k]) and st.mem[k][1][0] == "G")]:
            if k[0][0] == "G" and k[0][1] == "errno": continue
            if self.keep_shared(st, k): continue
            st.hv[k[0]] = stamp
            del st.mem[k]

    def keep_shared(self, st, k):
        return False

    def fn_targets(self, fn):
        """in-repo functions whose address is stored in a boost::function of the same signature"""
        r = self._short.get(("targets", fn.name))
        if r is None:
            # function1<R, A1>::operator()(A1): match on the parameter list
            ps = split_params(fn.dem)
            taken = self.address_taken()
            r = [self.prog.funcs[n] for n in sorted(taken) if not self.prog.funcs[n].decl and "/libiqxmlrpc/" in self.prog.funcs[n].file
                 and split_params(self.prog.funcs[n].dem) == ps]
            self._short[("targets", fn.name)] = r
        return r

    def address_taken(self):
        r = self._short.get("taken")
        if r is None:
            r = set()
            def w(x):
                if isinstance(x, list):
                    if len(x) == 2 and x[0] == "f" and isinstance(x[1], str): r.add(x[1])
                    else:
                        for y in x: w(y)
            for f in self.prog.funcs.values():
                for b in f.blocks:
                    for i in b:
                        for k, v in i.items():
                            if k == "fn" and v[0] == "f": continue
                            if isinstance(v, list): w(v)
            self._short["taken"] = r
        return r

    # -------------------------------------------------- heap
    def free_obj(self, st, p, ins, deleting=False):
        if isinstance(p, int): return
        q = self.norm_ptr(p)
        if q is None: return
        obj, off = q
        if self.mon: self.mon.on_free(self, st, obj, off, ins)
        if obj in st.freed:
            self.mem_error(st, "double-free", p)
        st.freed = st.freed | {obj}

    def field_name(self, obj, off):
        t = self.otype.get(obj)
        if t is None: return None
        return self.field_in(t, off)

    def field_in(self, t, off, depth=0):
        r = self.prog.records.get(t)
        if not r or not isinstance(off, int) or depth > 6: return None
        for n, o, sz, ty, ln in r["m"]:
            if o <= off < o + max(sz, 1) and not n.startswith("_vptr"):
                return (t, n, ty, off - o)
        for b, o in r["b"]:
            rb = self.prog.records.get(b)
            if rb and o <= off < o + rb["sz"]:
                x = self.field_in(b, off - o, depth + 1)
                if x: return x
        return None


class Monitor:
    """Base class: override what a property needs."""
    def on_call(self, E, st, name, fn, args, ins): return None
    def on_virtual(self, E, st, name, args, ins, cands): return None
    def filter_impls(self, E, st, name, args, impl): return impl
    def on_indirect(self, E, st, v, args, ins): return None
    def on_return(self, E, st, fr, v): pass
    def on_unwind_frame(self, E, st, fr): pass
    def on_end(self, E, st, kind, v): pass
    def on_branch(self, E, st, ins, c, val): pass
    def on_mem_error(self, E, st, kind, p): pass
    def on_free(self, E, st, obj, off, ins): pass
    def on_new(self, E, st, obj, size, ins): pass
    def on_sync(self, E, st, kind, args, ins): pass
    def on_container(self, E, st, op, args, ins, fn): pass
    def container_result(self, E, st, op, args, ins, fn): return None
    def on_strwrite(self, E, st, q, t): pass
