"""X05: document nesting cannot exhaust the stack."""
import sys
from checklib import *
from engine import Outcome, Stop, is_sym, ladd, lin
import escape

ENTRIES = ("iqxmlrpc::parse_request", "iqxmlrpc::parse_response")
INPUT = ("xmlTextReaderRead", "xmlTextReaderNext")


class Graph(escape.Escape):
    """who calls whom, virtual calls resolved to all implementations"""
    def __init__(self, prog, E):
        self.prog, self.E, self.hier = prog, E, E.hier
        self.calls = {}
        self.ext = {}

    def relevant(self, fn): return not fn.decl

    def succ(self, n):
        r = self.calls.get(n)
        if r is None:
            r, x = set(), set()
            for bi, k, i, tg, leaf, vn in self.resolve(self.prog.funcs[n]):
                r.update(tg)
                if i["fn"][0] == "f" and self.prog.funcs[i["fn"][1]].decl: x.add(i["fn"][1])
                # a function handed to library code may be called by it
                for a in i["as"]:
                    if isinstance(a, list) and len(a) == 2 and a[0] == "f" and not self.prog.funcs[a[1]].decl: r.add(a[1])
            self.calls[n], self.ext[n] = r, x
        return r

    def in_vtables(self):
        if not hasattr(self, "_vt"):
            self._vt = {x[1] for sl in self.E.vt.slots.values() for x in sl.values() if x[0] == "f"}
        return self._vt

    def direct_xml(self, n):
        self.succ(n)
        return any(x.startswith("xml") for x in self.ext[n])

    def reach(self, roots):
        seen, work = set(roots), list(roots)
        while work:
            for t in self.succ(work.pop()):
                if t not in seen: seen.add(t); work.append(t)
        return seen


def sccs(nodes, succ):
    sys.setrecursionlimit(20000)
    idx, low, on, stack, out = {}, {}, set(), [], []
    def go(v):
        idx[v] = low[v] = len(idx)
        stack.append(v); on.add(v)
        for w in succ(v):
            if w not in nodes: continue
            if w not in idx: go(w); low[v] = min(low[v], low[w])
            elif w in on: low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            c = []
            while True:
                w = stack.pop(); on.discard(w); c.append(w)
                if w == v: break
            out.append(c)
    for v in sorted(nodes):
        if v not in idx: go(v)
    return [c for c in out if len(c) > 1 or c[0] in succ(c[0])]


class Rank(Recorder):
    """walks one function of a cycle and looks, where it is entered again, for a quantity that grew and is bounded"""
    def __init__(self, ctx, s, head, g, comp=None):
        super().__init__()
        self.g, self.comp = g, comp
        self.ctx, self.s, self.head = ctx, s, head
        self.measures = None
        self.fails = []
        self.entry = None
        self.first = []
        self.restoring = None
        self.lost = {}

    def on_virtual(self, E, st, name, args, ins, cands):
        if name.rsplit("::", 1)[-1].startswith("~"): return [Outcome("ret", st, None)]
        return None

    def on_call(self, E, st, name, fn, args, ins):
        if fn.name == "__cxa_throw": raise Stop("an error ends the recursion")
        if fn.name != self.head.name:
            # what talks to the XML library directly has no part in the bound
            if not fn.decl and self.g.direct_xml(fn.name) and not fn.cd: return self.opaque(E, st, fn, args, ins, name)
            # nor have overridable functions off the cycle: handlers of texts and closing tags, destructors
            if self.comp and fn.name not in self.comp and fn.name in self.g.in_vtables(): return E.opaque_pure(st, ins, name)
            return None
        if self.entry is None:
            self.first.append((st.fork(), args))
            raise Stop("reached")
        self.ctx.count("reentries")
        # inner rounds leave the quantity as they found it: that is what is being shown
        if self.restoring is not None: return E.opaque_pure(st, ins, name)
        m = self.grown(E, st, args)
        if not m: self.fails.append((E.cur_loc(st), st.trace_list()))
        self.measures = m if self.measures is None else self.measures & m
        raise Stop("entered again")

    def opaque(self, E, st, fn, args, ins, name):
        """not walked; what it writes to the objects it is given is forgotten"""
        for k, off in effects(self.ctx, self.g, fn):
            if k < len(args) and not (k == 0 and ins.get("sret")):
                q = E.norm_ptr(args[k]) if isinstance(args[k], tuple) else None
                if q and isinstance(q[1], int): st.mem[(q[0], q[1] + off)] = E.fresh(st, "written", ins["id"])
        return E.opaque_pure(st, ins, name)

    def on_end(self, E, st, kind, v):
        super().on_end(E, st, kind, v)
        if self.restoring is None or kind != "ret": return
        self.ctx.count("rounds_left")
        for p in self.restoring:
            a, b = value_at(E, self.st0.fork(), self.entry, p), value_at(E, st, self.entry, p)
            try: d = ladd(b, a, -1)
            except Exception: d = None
            if d != 0: self.lost[p] = st.trace_list()

    def grown(self, E, st, args):
        """access paths whose value differs by a constant from that on entry, in the direction of a bound"""
        out = set()
        work = [(("arg", k), E.norm_ptr(a), E.norm_ptr(b)) for k, (a, b) in enumerate(zip(self.entry, args)) if isinstance(a, tuple) and isinstance(b, tuple)]
        for k, (a, b) in enumerate(zip(self.entry, args)):
            if self.bounded(E, st, a, b): out.add(("arg", k, "value"))
        seen = set()
        while work:
            path, p, q = work.pop()
            if p is None or q is None or len(path) > 9 or not isinstance(q[1], int) or not isinstance(p[1], int): continue
            if (p, q) in seen: continue
            seen.add((p, q))
            for (o, off), v in list(st.mem.items()):
                if o != q[0] or not isinstance(off, int) or off < q[1]: continue
                v0 = self.initial(E, p[0], p[1] + off - q[1])
                v = E.subst(st, v)
                if self.bounded(E, st, v0, v): out.add(path + (off - q[1],))
                elif isinstance(v, tuple) and v[0] in ("s", "P"): work.append((path + (off - q[1], "*"), E.norm_ptr(v0), E.norm_ptr(v)))
        for (o, off), v in list(st.mem.items()):
            if o[0] == "G" and isinstance(off, int) and self.bounded(E, st, self.initial(E, o, off), E.subst(st, v)): out.add(("global", o[1], off))
        return out

    def initial(self, E, obj, off): return self.st0.mem.get((obj, off), ("s", ("fld", obj, off, self.st0.hv.get(obj, 0))))

    def bounded(self, E, st, a, b):
        try: d = ladd(b, a, -1)
        except Exception: return False
        if not isinstance(d, int) or d == 0 or isinstance(a, int): return False
        for k in (100, 1000, 1 << 14, 1 << 17):
            if d > 0 and E.decide(st, cmp_("lt", b, k + 1)) is True: self.bound = k; return True
            if d < 0 and E.decide(st, cmp_("lt", b, -k)) is False: self.bound = k; return True
        return False


_effects = {}


def effects(ctx, g, fn):
    """(argument, offset) of the cells a function writes in the objects its arguments point to"""
    r = _effects.get(fn.name)
    if r is None:
        s = Session(ctx, None, max_steps=200_000)
        s.mon = s.E.mon = Recorder()
        s.E.loop_limit, s.E.const_loop_limit = 1, 2
        args = [s.sym("e%d" % k) for k in range(fn.nargs)]
        st = s.blank(); st.frames = []
        for a in args: s.E.assume(st, as_bool(a), True)
        before = dict(st.mem)
        own = {s.E.norm_ptr(a)[0]: k for k, a in enumerate(args)}
        r = set()
        for k, v, x in s.run(fn, args, st):
            for (o, off), w in x.mem.items():
                if o in own and isinstance(off, int) and before.get((o, off)) != w and w != ("s", ("fld", o, off, 0)): r.add((own[o], off))
        _effects[fn.name] = r
        ctx.count("summaries")
    return sorted(r)


def value_at(E, st, args, path):
    """the value at an access path from the arguments"""
    if path[0] == "global":
        return E.load(st, ("P", ("G", path[1]), path[2]))
    v = args[path[1]]
    if path[2:] == ("value",): return v
    for x in path[2:]:
        if x == "*": continue
        q = E.norm_ptr(v)
        if q is None: return None
        v = E.load(st, E.mkptr(q[0], q[1] + x))
    return v


def alias(s, st, head, args):
    """objects of a cycle that refer to the parser refer to the one being used"""
    E = s.E
    from names import split_params
    ps = split_params(head.dem)
    recs = ([head.ctx] if len(ps) + 1 == len(args) else [None] * (len(args) - len(ps) - 0)) + [p.rstrip("&* ") for p in ps]
    own = {t: a for t, a in zip(recs, args) if t}
    for t, a in zip(recs, args):
        r = s.prog.records.get(t)
        if not r: continue
        for n, o, sz, ty, ln in r["m"]:
            b = (ty or "").replace("const", "").rstrip("&* ").strip()
            if b in own and b != t and (ty or "").rstrip().endswith(("&", "*")):
                q = E.norm_ptr(a)
                st.mem[(q[0], q[1] + o)] = own[b]


def prove(ctx, g, comp, head):
    s = Session(ctx, None, max_steps=600_000, max_states=60_000)
    E = s.E
    E.loop_limit, E.const_loop_limit = 1, 2
    mon = s.mon = E.mon = Rank(ctx, s, head, g, set(comp))
    E.boundary = {n: [] for n in ("iqxmlrpc::Value::Value", "iqxmlrpc::Array::push_back", "iqxmlrpc::Struct::insert", "iqxmlrpc::Value::~Value")}
    args = [s.sym("a%d" % k) for k in range(head.nargs)]
    st = s.blank(); st.frames = []
    alias(s, st, head, args)
    for a in args: E.assume(st, as_bool(a), True)
    mon.st0 = st
    mon.entry = args
    s.run(head, args, st)
    if mon.measures is None: return None, [("%s:%d" % (head.file, head.line), [("", "the function is not entered again on any walked path")])]
    if not mon.measures: return None, mon.fails
    # every round leaves it as it found it
    mon.restoring = [m for m in mon.measures if m[2:] != ("value",)]
    st = s.blank(); st.frames = []
    alias(s, st, head, args)
    for a in args: E.assume(st, as_bool(a), True)
    mon.st0 = st.fork()
    s.run(head, args, st)
    mon.measures = {m for m in mon.measures if m not in mon.lost}
    if not mon.measures:
        return None, [("%s:%d" % (head.file, head.line), [("", "the quantity that bounds the recursion is not what it was when the function was entered")] + list(next(iter(mon.lost.values()))))]
    # and it starts from a constant
    ok = set(mon.measures)
    for ent in ENTRIES:
        s2 = Session(ctx, None, max_steps=600_000)
        m2 = s2.mon = s2.E.mon = Rank(ctx, s2, head, g)
        s2.E.boundary = dict(E.boundary)
        f = s2.fn(ent)
        a2 = [s2.sym("e%d" % k) for k in range(f.nargs)]
        st2 = s2.blank(); st2.frames = []
        for a in a2: s2.E.assume(st2, as_bool(a), True)
        s2.run(f, a2, st2)
        if not m2.first: continue
        for x, a in m2.first:
            ok = {p for p in ok if p[0] == "global" or isinstance(value_at(s2.E, x, a, p), int)}
    if not ok: return None, [("%s:%d" % (head.file, head.line), [("", "the quantity that bounds the recursion does not start from a constant: %s" % sorted(mon.measures, key=repr))])]
    ctx.sample("recursion through %s is bounded by %d: measure %s" % (head.dem.split("(")[0], mon.bound, sorted(ok, key=repr)[0]))
    return ok, []


def run(ctx):
    ctx.rule("every cycle of the call graph (virtual calls resolved to all implementations) reachable from the two parse entries that can read input: on every path from one entry of the cycle to the next some quantity moves by a constant towards a constant bound that the path has checked, and it starts from a constant")
    s = Session(ctx, None)
    g = Graph(s.prog, s.E)
    roots = [s.fn(e).name for e in ENTRIES]
    nodes = g.reach(roots)
    ctx.count("functions_reachable", len(nodes))
    reads = {n for n in nodes if any(x in INPUT for x in g.ext.get(n, ()))}
    if not reads: raise CheckError("anchor: nothing reachable from the parse entries reads the document")
    consuming = 0
    comps = sccs(nodes, g.succ)
    for c in comps:
        inrepo = [n for n in c if "/libiqxmlrpc/" in s.prog.funcs[n].file]
        if not inrepo: ctx.count("library_cycles"); continue
        if not (g.reach(c) & reads):
            ctx.count("structural_cycles")
            ctx.sample("cycle over an already built value, one round per level: " + ", ".join(sorted({s.E.short(s.prog.funcs[n]) for n in inrepo}))[:300])
            continue
        ctx.count("input_cycles")
        done, why = False, []
        heads = [n for n in inrepo if not sccs(set(c) - {n}, g.succ)]
        if not heads: raise CheckError("a cycle of calls without a common function: " + ", ".join(sorted(inrepo))[:400])
        for n in sorted(heads, key=lambda n: (s.prog.funcs[n].nargs, n)):
            ctx.count("heads_tried")
            m, fails = prove(ctx, g, c, s.prog.funcs[n])
            if m: done = True; break
            why += fails[:1]
        if not done:
            ctx.violation("X05 unbounded", why[0][0], "reading a document recurses once per level of nesting without a constant bound, through " +
                          ", ".join(sorted({s.E.short(s.prog.funcs[n]) for n in inrepo})), list(why[0][1]))
    # the statement holds as well if there is no recursion on input at all
    if not comps: raise CheckError("no cycle found at all: the call graph is not understood")
    ctx.assume("recursion over an already built value (destroying, copying) is as deep as the value, which the bounded parsing built")
