"""Shared parts of all checks: program access, sessions, reporting."""
import json
import os
import resource
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import frontend
from frontend import CheckError
import engine
from engine import Engine, Monitor, Outcome, Stop, Budget, U, as_bool, cmp_, bneg, is_ptr, is_sym, lin
import models

FAULT = "_ZTIN8iqxmlrpc5FaultE"
EXC = "_ZTIN8iqxmlrpc9ExceptionE"
STDX = "_ZTISt13runtime_error"
HTTPERR = "_ZTIN8iqxmlrpc4http14Error_responseE"
FOREIGN = "foreign"

# virtual functions whose implementation belongs to the user of the library
USER_VIRTUALS = {
    "iqxmlrpc::Method::execute", "iqxmlrpc::Interceptor::process",
    "iqxmlrpc::Auth_Plugin_base::do_authenticate", "iqxmlrpc::Auth_Plugin_base::do_authenticate_anonymous",
    "iqnet::Firewall_base::grant", "iqnet::Firewall_base::message",
    "iqxmlrpc::Method_dispatcher_base::do_create_method", "iqxmlrpc::Method_factory_base::create",
    "iqnet::ssl::ConnectionVerifier::do_verify",
}


AFTER_FIRST = 45     # seconds the analysis goes on after a first violation
TIME_LIMIT = 720
MEM_LIMIT = 12 << 30


class OutOfTime(BaseException): pass


def limits():
    def expired(*_): raise OutOfTime()
    signal.signal(signal.SIGALRM, expired)
    signal.alarm(TIME_LIMIT)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, resource.getrlimit(resource.RLIMIT_AS)[1]))


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations = []
        self.counts = {}
        self.rules = []
        self.samples = []
        self.assumptions = []
        self.functions = set()
        self.config = "poll"
        self._prog = {}

    # -- program
    def prog(self, config="poll"):
        if config not in self._prog:
            self._prog[config] = frontend.load_program(config)
        return self._prog[config]

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, minimum=1):
        n = self.counts.get(name, 0)
        if n < minimum:
            raise CheckError("rule instance count '%s' is %d, expected at least %d: the analysis did not reach what it has to judge" % (name, n, minimum))

    def rule(self, text):
        if text not in self.rules: self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions: self.assumptions.append(text)

    def sample(self, text):
        if len(self.samples) < 12 and text not in self.samples: self.samples.append(text)

    def violation(self, key, loc, msg, trace=()):
        for v in self.violations:
            if v["key"] == key: return
        self.violations.append({"key": key, "where": loc, "what": msg, "path": ["%s: %s" % (a, b) for a, b in trace]})
        if len(self.violations) == 1 and not any(k["key"] == key for k in known_findings(self.prop)):
            signal.alarm(AFTER_FIRST)       # enough to collect the other instances

    def absorb(self, E):
        """measured counts of an engine run"""
        self.count("steps", E.steps)
        self.count("paths", E.npaths)
        self.count("merged_states", E.merged)
        self.functions.update(E.entered)
        E.steps = E.npaths = E.merged = 0


class Recorder(Monitor):
    """Collects path ends; property monitors derive from it."""

    def __init__(self):
        self.ends = []

    def on_end(self, E, st, kind, v):
        self.ends.append((kind, v, st))


def split_flag(E, st, cell):
    """the states a boolean in memory stands for: one with it clear, one with it set"""
    v = st.mem.get(cell)
    if v is None or isinstance(v, int): return [st]
    out = []
    for n in (0, 1):
        y = st.fork()
        if E.assume(y, cmp_("eq", v, 0), n == 0):
            y.mem[cell] = n
            out.append(y)
    return out


class Session:
    """An engine plus composition of several calls on shared abstract state."""

    def __init__(self, ctx, monitor, config="poll", reactor=True, user=None, engine_class=Engine, **kw):
        self.ctx = ctx
        self.prog = ctx.prog(config)
        self.mon = monitor
        self.E = engine_class(self.prog, monitor, **kw)
        self.E.user_virtual = set(USER_VIRTUALS if user is None else user)
        self.E.throw_user = [FAULT, STDX, FOREIGN]
        self.E.roots = []
        self.by_short = index(self.prog, self.E)

    def fn(self, name, nparams=None, pred=None, many=False):
        c = [f for f in self.by_short.get(name, ()) if not f.decl]
        if nparams is not None:
            from names import split_params
            c = [f for f in c if len(split_params(f.dem)) == nparams]
        if pred: c = [f for f in c if pred(f)]
        # constructors: keep the complete-object variant
        if c and c[0].cd: c = [f for f in c if "C1E" in f.name or "D1E" in f.name] or c
        if many:
            if not c: raise CheckError("anchor not found: %s" % name)
            return c
        if len(c) != 1:
            raise CheckError("anchor %s: %d candidates (%s)" % (name, len(c), ", ".join(f.dem for f in c)))
        return c[0]

    def sym(self, name):
        v = ("s", ("arg", name))
        if v not in self.E.roots: self.E.roots.append(v)
        return v

    def run(self, fn, args, st=None, mon=None):
        """-> list of (kind, value, state) at the end of fn"""
        E = self.E
        rec = self.mon.ends = []
        s = E.start(fn, args)
        if st is not None:
            s.mem = dict(st.mem); s.facts = dict(st.facts); s.mon = dict(st.mon); s.hv = dict(st.hv)
            s.gens = dict(st.gens); s.freed = st.freed; s.trace = st.trace
        if mon: s.mon.update(mon)
        E.run(s)
        self.ctx.absorb(E)
        flag = (("S", self.sym("terminate")), 0)
        return [(k, v, y) for k, v, x in rec for y in split_flag(E, x, flag)]

    def blank(self):
        return self.E.start(next(f for f in self.prog.funcs.values() if not f.decl), ())

    def eval(self, st, fn, args):
        """Runs a side-effect free accessor in a copy of st; returns its value if all paths agree."""
        E, m = self.E, self.E.mon
        quiet = Recorder()
        E.mon = quiet
        saved = E.steps, E.npaths, E.merged
        try:
            s = st.fork()
            s.frames = []
            E.push(s, fn, tuple(args), ("eval", fn.name))
            E.run(s)
        finally:
            E.mon = m
            E.steps, E.npaths, E.merged = saved
        vals = {v for k, v, _ in quiet.ends if k == "ret"}
        return quiet.ends, vals

    def set_class(self, st, ptr, cls):
        """declares the dynamic class of the object ptr points to"""
        E = self.E
        obj, off = E.norm_ptr(ptr)
        vt = [n for n in E.vt.slots if E.prog.globals[n]["dem"] in ("vtable for " + cls, "vtable for " + cls.replace("(anonymous namespace)::", "(anonymous namespace)::"))]
        if len(vt) != 1: raise CheckError("anchor: no unique vtable for %s" % cls)
        g = E.prog.globals[vt[0]]
        for ap in sorted({o for o, t in g.get("types", ())}):
            top, ti = E.vt.slots[vt[0]].get(ap - 16), E.vt.slots[vt[0]].get(ap - 8)
            if not (ti and str(ti[1]).startswith("_ZTI")): continue         # a slot, not an address point
            o = -top[1] if top and top[0] == "c" else 0
            if top and top[0] == "ce": o = 0
            st.mem[(obj, off + o)] = ("P", ("G", vt[0]), ap)
        E.otype[obj] = cls


    def zts(self, cls):
        ps = cls.split("::")
        m = "".join("%d%s" % (len(x), x) for x in ps)
        return "_ZTSN%sE" % m if len(ps) > 1 else "_ZTS" + m

    def classes(self, *bases):
        """concrete classes deriving from all bases -> {class: vtable}"""
        E = self.E
        out = None
        for b in bases:
            c = {}
            for vt, off in E.vt.by_type.get(self.zts(b), ()):
                g = E.prog.globals[vt]
                if g["dem"].startswith("vtable for "): c[g["dem"][11:]] = vt
            out = c if out is None else {k: v for k, v in out.items() if k in c}
        res = {}
        for k, v in (out or {}).items():
            if not any(x[0] == "f" and x[1].startswith("__cxa_pure") for x in E.vt.slots[v].values()): res[k] = v
        return res

    def impl(self, vt, base, meth):
        """the function a virtual call base::meth reaches on an object of the class with vtable vt"""
        E = self.E
        r = E.prog.records.get(base)
        slots = [k for k, n, l in r.get("v", ()) if n == meth] if r else []
        if not slots: raise CheckError("anchor: no virtual %s::%s" % (base, meth))
        for v, off in E.vt.by_type.get(self.zts(base), ()):
            if v == vt:
                n = E.vt.fn(v, off + slots[0] * 8)
                if n and n in E.prog.funcs: return E.prog.funcs[n]
        raise CheckError("anchor: %s::%s has no implementation in %s" % (base, meth, vt))


def entails(E, st, cond, depth=2):
    """whether the linear facts of the state imply the condition, combining up to `depth` of them"""
    r = E.decide(st, cond)
    if r is not None: return r is True
    if not (isinstance(cond, tuple) and cond[0] == "b" and cond[1] == "lt"): return False
    _, _, neg, c, dr, sg = cond
    # goal: v < 0 with v = c + sg*dir, or v >= 0
    goal = engine.mklin(c, {t: sg * k for t, k in dr})
    if neg: goal = engine.ladd(engine.lscale(goal, -1), -1)      # v >= 0  <=>  -v-1 < 0
    return _implied(E, st, goal, depth)


def _implied(E, st, goal, depth):
    """goal < 0"""
    if E.decide(st, cmp_("lt", goal, 0)) is True: return True
    if depth == 0 or isinstance(goal, int): return False
    terms = set(lin(goal)[1])
    for dr, f in st.facts.items():
        if not (isinstance(f, tuple) and len(f) == 3 and isinstance(dr, tuple) and dr and isinstance(dr[0], tuple) and len(dr[0]) == 2): continue
        if not terms & {t for t, _ in dr}: continue
        v = engine.mklin(0, dict(dr))
        lo, hi, _ = f
        # v - hi <= 0 and lo - v <= 0: goal < 0 follows from goal - (v - hi) < 0
        if hi != engine.INF and _implied(E, st, engine.ladd(goal, engine.ladd(v, int(hi), -1), -1), depth - 1): return True
        if lo != -engine.INF and _implied(E, st, engine.ladd(goal, engine.ladd(int(lo), v, -1), -1), depth - 1): return True
    return False


_index = {}


def index(prog, E):
    r = _index.get(id(prog))
    if r is None:
        r = {}
        for f in prog.funcs.values():
            r.setdefault(E.short(f), []).append(f)
        _index[id(prog)] = r
    return r


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def main(prop, run, level="other", explanation="", technique=""):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    ev = os.path.join(evdir, prop + ".json")
    status, err = 0, None
    try:
        limits()
        run(ctx)
    except OutOfTime:
        err = "time limit of the analysis exceeded"
    except CheckError as e:
        err = str(e)
    except Budget as e:
        err = "analysis budget exceeded: %s" % e
    except Exception:
        import traceback
        err = "internal error of the analysis\n" + traceback.format_exc()
    signal.alarm(0)
    known = known_findings(prop)
    new, old = [], []
    for v in ctx.violations:
        k = [k for k in known if k["key"] == v["key"]]
        (old if k else new).append((v, k[0] if k else None))
    cov = {"explanation": explanation, "functions_analysed": len(ctx.functions), "rules": ctx.rules, "samples": ctx.samples}
    cov.update(ctx.counts)
    fns = sorted({ctx.prog(c).funcs[n].dem.split("(")[0] for c in ctx._prog for n in ctx.functions if n in ctx.prog(c).funcs and "/libiqxmlrpc/" in ctx.prog(c).funcs[n].file}) if ctx._prog else []
    cov["functions"] = fns[:400]
    doc = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
           "wall_s": round(time.time() - ctx.t0, 2), "assumptions": ctx.assumptions,
           "violations": [dict(v, known=bool(k)) for v, k in new + old]}
    if err: doc["coverage"]["error"] = err
    json.dump(doc, open(ev, "w"), indent=1, default=str)
    print("%s: %d functions analysed, %s" % (prop, len(ctx.functions), ", ".join("%s=%s" % kv for kv in sorted(ctx.counts.items()))))
    for r in ctx.rules: print("  rule:", r)
    for v, k in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if new:
        d = os.path.join(evdir, "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, prop + ".txt")
        with open(rp, "w") as f:
            for v, _ in new:
                f.write("%s\n  at %s\n  rule instance: %s\n" % (v["what"], v["where"], v["key"]))
                for s in v["path"]: f.write("    %s\n" % s)
        for v, _ in new:
            print("%s: %s [%s]" % (v["where"], v["what"], v["key"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if err:
        print("ERROR: %s" % err)
        return 2
    print("%s holds" % prop)
    return 0
