"""L01: tables shared between threads are touched only under their lock."""
from props.locking import *


class Mon(LockMon):
    def __init__(self, ctx, s):
        super().__init__(ctx, s)
        self.seen = {}        # (record, field) -> entry -> [(held names, kind, location, trace)]
        self.entry = None
        self.alone = False
        self.started = False

    def event(self, E, st, kind, q, args, ins):
        if kind == "create_thread":
            self.started = True
            st.mon["alone"] = False
        elif kind == "join": st.mon["alone"] = True

    def access(self, E, st, rec, m, kind):
        if st.mon.get("alone"): return
        self.ctx.count("accesses")
        d = self.seen.setdefault((rec, m[0]), {}).setdefault(self.entry, {})
        h = frozenset(n for n in (self.lock_name(x) for x in self.held(st)) if n)
        d.setdefault((h, kind), (E.cur_loc(st), st.trace_list()))

    def call(self, E, st, name, fn, args, ins):
        if name == "iqxmlrpc::Pool_executor::process_actual_execution": return [Outcome("ret", st, None)]
        return None

    def on_virtual(self, E, st, name, args, ins, cands):
        # handlers and executors are other objects; they come back through the entries
        if name.startswith(("iqnet::Event_handler::", "iqxmlrpc::Executor::")): return E.opaque_pure(st, ins, name)
        return None


def judge(ctx, mon, need):
    found = set()
    for (rec, fld), by in sorted(mon.seen.items()):
        written = any(k != "read" for d in by.values() for _, k in d)
        if len(by) < 2 or not written: continue
        found.add(rec)
        ctx.count("shared_fields")
        ctx.sample("%s::%s: %d entries, locks %s" % (rec, fld, len(by), sorted(frozenset.intersection(*[h for d in by.values() for h, _ in d]))))
        common = frozenset.intersection(*[h for d in by.values() for h, _ in d])
        if common: continue
        # the guard is the lock that covers most accesses
        cnt = {}
        for d in by.values():
            for h, _ in d:
                for l in h: cnt[l] = cnt.get(l, 0) + 1
        guard = max(sorted(cnt), key=lambda l: cnt[l]) if cnt else None
        for e, d in sorted(by.items()):
            for (h, k), (loc, tr) in sorted(d.items(), key=repr):
                if guard is None or guard not in h:
                    ctx.violation("L01 %s::%s %s" % (rec, fld, e), loc, "%s of %s::%s without holding %s" % (k, rec, fld, guard or "any lock"), tr)
    if not found >= need: raise CheckError("no shared field found in %s" % ", ".join(sorted(need - found)))


def run(ctx):
    ctx.rule("lockset analysis: every member function of the thread pool and of the pool server's event loop that is reachable from outside is walked; each field that two of them use and one of them writes must have a lock that is held at every access")
    ctx.rule("exempt are the phases in which no other thread exists: construction before the first thread is started, destruction after the threads were joined")
    s = Session(ctx, None)
    E = s.E
    E.iter_depth = 1
    s.mon = E.mon = mon = Mon(ctx, s)
    pool = s.sym("pool")
    po = E.norm_ptr(pool)[0]
    mon.types[po] = POOL
    mon.watched = {po: POOL}
    st = s.blank(); st.frames = []
    E.assume(st, as_bool(pool), True)
    s.set_class(st, pool, POOL)
    # construction, up to the first thread
    mon.entry = "constructor"
    s.run(s.fn(POOL + "::" + POOL.rsplit("::")[-1]), [pool, s.sym("number")], st, {"alone": True})
    if not mon.started: raise CheckError("constructing the pool starts no thread")
    th = thread_entries(s)
    tc = {class_of(s, f) for f in th}
    ents = [f for f in unit_entries(s, {POOL} | tc) if not (f.cd and "~" not in f.dem)]
    dts = [f for f in ents if "~" in f.dem]
    n = 0
    for f in ents:
        if f in dts and "D1E" not in f.name and any("D1E" in x.name for x in dts): continue
        mon.entry = f.dem.split("(")[0] if not f.dem.endswith("operator()()") else f.dem[:-2]
        n += 1
        if class_of(s, f) in tc:
            y = st.fork()
            s.run(f, [functor(s, y, class_of(s, f), pool, mon.types)], y)
        else:
            s.run(f, [pool] + [s.sym("a%d" % i) for i in range(len(split_params(f.dem)))], st)
    ctx.count("entries", n)
    # the event loop the pool server uses
    vts = {}
    mon.entry = "create_reactor"
    cr = s.impl(s.classes("iqxmlrpc::Executor_factory_base")[POOL], "iqxmlrpc::Executor_factory_base", "create_reactor")
    for k, v, x in s.run(cr, [pool], st):
        if k != "ret": continue
        vp = x.mem.get(E.norm_ptr(v))
        if not (is_ptr(vp) and vp[1][0] == "G"): raise CheckError("the class of the pool server's event loop is unknown")
        vts[vp[1][1]] = s.prog.globals[vp[1][1]]["dem"][len("vtable for "):]
    if not vts: raise CheckError("the class of the pool server's event loop is unknown")
    for vt, cls in sorted(vts.items()):
        ctx.sample("event loop of the pool server: " + cls)
        loop = s.sym("reactor of " + vt)
        lo = E.norm_ptr(loop)[0]
        mon.types[lo] = cls
        mon.watched = {lo: cls}
        mon._derived = {}
        st = s.blank(); st.frames = []
        E.assume(st, as_bool(loop), True)
        s.set_class(st, loop, cls)
        n = 0
        for f in unit_entries(s, {cls}):
            if f.cd: continue
            mon.entry = f.dem.split("(")[0] + "(%d)" % len(split_params(f.dem))
            n += 1
            s.run(f, [loop] + [s.sym("r%d" % i) for i in range(len(split_params(f.dem)))], st)
        ctx.count("entries", n)
    judge(ctx, mon, {POOL} | set(vts.values()))
    ctx.need("entries", 8); ctx.need("shared_fields", 4); ctx.need("accesses", 20)
