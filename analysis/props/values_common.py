"""Values built by walking the library's own constructors and operations; their parts are tracked."""
from checklib import *
from engine import Outcome, Stop, is_sym, is_ptr
from models import rd, wr, SC, SO
import known
from props.v01 import KIND, STR, V

INLINE = ("std::for_each", "std::make_pair", "std::pair", "std::forward", "std::move", "std::__iterator_category", "__gnu_cxx::__ops", "std::swap", "std::iter_swap", "std::addressof", "std::__addressof")


class PartMon(Recorder):
    """every part of a value: made once, freed once, never used afterwards"""
    def __init__(self, ctx, prop):
        super().__init__()
        self.ctx, self.prop = ctx, prop
        self.what = ""
        self.rooms = []

    def bad(self, E, st, key, msg, loc=None):
        self.ctx.violation("%s %s" % (self.prop, key), loc or (E.cur_loc(st) if st.frames else self.what), msg, st.trace_list())

    def on_new(self, E, st, ob, size, ins):
        self.ctx.count("parts_made")
        st.mon["live"] = st.mon.get("live", frozenset()) | {ob}
        for x in self.rooms: E.assume(st, cmp_("eq", x, ("P", ob, 0)), False)

    def on_free(self, E, st, obj, off, ins):
        live = st.mon.get("live", frozenset())
        if obj[0] == "H":
            if obj not in live:
                self.bad(E, st, "freed twice", "%s: a part of a value is freed a second time" % self.what)
                raise Stop("reported")
            self.ctx.count("parts_freed")
            st.mon["live"] = live - {obj}
        elif obj[0] == "S" and self.foreign(E, st, obj):
            self.bad(E, st, "foreign", "%s: something that is not a part of the value is freed" % self.what)

    def foreign(self, E, st, obj): return False

    def on_mem_error(self, E, st, kind, p):
        if kind in ("use-after-free", "double-free"):
            self.bad(E, st, kind, "%s: a part of a value is %s after it was freed" % (self.what, "used" if kind[0] == "u" else "freed"))
            raise Stop("reported")
        if kind == "null-deref":
            self.bad(E, st, kind, "%s: a missing part of a value is used" % self.what)
            raise Stop("reported")


class World:
    """one abstract state on which operations are walked one after another"""
    def __init__(self, ctx, mon, boundary=None):
        self.ctx, self.mon = ctx, mon
        s = self.s = Session(ctx, mon)
        E = self.E = s.E
        E.known, E.inline_extra = True, INLINE
        E.new_limit = E.fresh_limit = 60
        E.rec_limit, E.loop_limit, E.const_loop_limit = 6, 6, 40
        E.max_depth = 120
        E.boundary = boundary or {}
        self.script, self.taken = [], []
        self.start()

    def start(self):
        self.E.otype.clear(); self.E.vt_types.clear()
        self.st = self.s.blank()
        self.st.frames = []
        self.n = 0
        self.syms = self.mon.rooms = []

    def room(self):
        """storage for an object, not on the heap"""
        v = self.s.sym("object%d" % self.n)
        self.n += 1
        self.E.assume(self.st, as_bool(v), True)
        for x in self.syms: self.E.assume(self.st, cmp_("eq", x, v), False)
        for o in self.st.mon.get("live", ()): self.E.assume(self.st, cmp_("eq", v, ("P", o, 0)), False)
        self.syms.append(v)
        return v

    def text(self, b):
        v = self.room()
        wr(self.E, self.st, v, (SC, b) if isinstance(b, bytes) else b)
        return v

    def find(self, ctx, base, params=None):
        c = [f for f in self.s.prog.funcs.values() if f.ctx == ctx and f.base == base and not f.decl and (params is None or params in f.dem[f.dem.index("("):])]
        if c and c[0].cd: c = [f for f in c if "C1E" in f.name or "D1E" in f.name] or [f for f in c if "C2E" in f.name or "D2E" in f.name] or c
        c = sorted(c, key=lambda f: f.dem)
        if not c: raise CheckError("anchor: no %s::%s(%s)" % (ctx, base, params or ""))
        return c[0]

    def call(self, fn, *args):
        """walks fn; where it has several normal ends, the scene is repeated for each of them"""
        ends = self.s.run(fn, list(args), self.st)
        rets = [(v, x) for k, v, x in ends if k == "ret"]
        if not rets:
            if self.ctx.violations: raise Dead()
            raise CheckError("%s: no normal end of %d" % (fn.dem[:120], len(ends)))
        v, self.st = rets[self.choose(len(rets))]
        return v

    def choose(self, n):
        if n == 1: return 0
        k = len(self.taken)
        i = self.script[k] if k < len(self.script) else 0
        self.taken.append((i, n))
        return i

    # -- values
    def cls(self, p):
        """dynamic class of an object"""
        E = self.E
        q = E.norm_ptr(p)
        vt = self.st.mem.get(q) if q else None
        if is_ptr(vt) and vt[1][0] == "G" and vt[1][1].startswith("_ZTV"): return self.s.prog.globals[vt[1][1]]["dem"][11:]
        return None

    def held(self, v):
        """what a Value holds"""
        off = self.voff()
        q = self.E.norm_ptr(v)
        return self.E.load(self.st, self.E.mkptr(q[0], q[1] + off))

    def voff(self):
        r = self.s.prog.records[V]
        m = [o for n, o, sz, ty, ln in r["m"] if "Value_type" in str(ty) or n == "value"]
        if len(m) != 1: raise CheckError("anchor: the field of a value that holds its content")
        return m[0]

    def elements(self, p, cls):
        """(key or None, element pointer) of an array or struct"""
        r = self.s.prog.records[cls]
        off = None
        q = self.E.norm_ptr(p)
        for o in sorted(o for (b, o) in self.st.mem if b == q[0] and isinstance(o, tuple) and o[0] == "kseq"):
            off = o[1]
        if off is None: raise CheckError("the elements of %s are not known" % cls)
        els = self.st.mem[(q[0], ("kseq", off))][1]
        E = self.E
        if cls == KIND["struct"]: return [(rd(E, self.st, e), E.load(self.st, ("P", ("S", e), 32))) for e in els]
        return [(None, E.load(self.st, e)) for e in els]

    def tree(self, v, objs=None, depth=0):
        """structure of a value: class and content; objs collects its heap parts"""
        if depth > 8: return "deep"
        E = self.E
        h = self.held(v)
        if objs is not None:
            q = E.norm_ptr(v)
            if q: objs.append(q[0])
        return self.body(h, objs, depth)

    def body(self, h, objs=None, depth=0):
        E = self.E
        if h == 0 or not (is_ptr(h) or is_sym(h)): return ("nothing", h)
        q = E.norm_ptr(h)
        if objs is not None: objs.append(q[0])
        if q[0] in self.st.freed: return ("freed",)
        c = self.cls(h)
        if c in (KIND["array"], KIND["struct"]):
            els = [(k, self.tree(x, objs, depth + 1)) for k, x in self.elements(h, c)]
            if c == KIND["struct"]: els.sort(key=repr)
            return (c, tuple(els))
        if c is None: return ("unknown", h)
        r = self.record(c)
        fields = []
        for n, o, sz, ty, ln in sorted(r["m"], key=lambda m: m[1]):
            if n.startswith("_vptr"): continue
            fields.append(self.field(q[0], q[1] + o, sz, str(ty), c))
        return (c, tuple(fields))

    def record(self, c):
        r = self.s.prog.records.get(c)
        if r is None:
            n = [k for k in self.s.prog.records if k.replace(" ", "") == c.replace(" ", "")]
            if len(n) != 1: raise CheckError("anchor: the layout of %s" % c)
            r = self.s.prog.records[n[0]]
        return r

    def field(self, obj, off, sz, ty, c):
        E = self.E
        v = self.st.mem.get((obj, off))
        if isinstance(v, tuple) and v[:1] == ("str",): return v[1]
        if sz > 8 and sz != 32:
            return tuple(sorted(((o - off, repr(x)) for (b, o), x in self.st.mem.items() if b == obj and isinstance(o, int) and off <= o < off + sz), key=repr))
        if sz == 32: return rd(E, self.st, E.mkptr(obj, off))
        return E.load(self.st, E.mkptr(obj, off), sz)


class Dead(Exception):
    """the walk ended in a reported violation"""


def explore(sc, what, f):
    """plays a scene once for every combination of the ends its steps have"""
    w = sc.w
    script = []
    for _ in range(100):
        w.script, w.taken = script, []
        sc.begin(what)
        try: f()
        except Dead: pass
        t = w.taken
        while t and t[-1][0] + 1 >= t[-1][1]: t.pop()
        if not t: return
        script = [i for i, n in t[:-1]] + [t[-1][0] + 1]
        sc.ctx.count("scenes_repeated")
    raise CheckError("%s: too many different ends" % what)
