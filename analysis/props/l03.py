"""L03: pool workers miss neither requests nor the shutdown."""
from props.locking import *
from models import cver

QUEUES = ("std::deque<", "std::list<", "std::vector<", "std::queue<")
TAKE = ("front", "back", "top", "operator[]", "at")
REMOVE = ("pop_front", "pop_back", "pop", "erase")
RUN = "iqxmlrpc::Pool_executor::process_actual_execution"


class Mon(LockMon):
    def __init__(self, ctx, s, pool):
        super().__init__(ctx, s)
        self.pool = pool
        self.phase = None
        self.most = 0
        self.queue = self.qlock = self.cond = self.flag = None

    def bad(self, E, st, key, msg, loc=None):
        self.ctx.violation("L03 " + key, loc or E.cur_loc(st), msg, st.trace_list())

    def mptr(self, st, m): return self.s.E.mkptr(self.po, m)

    # ---- what other threads may have changed: a field is stable while its lock is held
    def acquired(self, E, st, q):
        if self.phase != "find" and not st.mon.get("joined"): self.stale(E, st, q)

    def stale(self, E, st, q):
        """the lock was given up and taken again: what it guards is unknown"""
        k = st.mon["epoch"] = st.mon.get("epoch", 0) + 1
        guards = [m for m, l in self.guard.items() if l == q]
        if q == self.qlock:
            for x in ("notified", "seen flag"): st.mon.pop(x, None)
        for m in guards:
            old = st.mem.get((self.po, m), 0)
            lo = m; hi = m + self.sizes[m]
            for c in [c for c in st.mem if c[0] == self.po and lo <= self.at(c) < hi]: del st.mem[c]
            if m == self.queue:
                n = ("s", ("size", "epoch", k))
                E.assume(st, cmp_("lt", n, 0), False)
                st.mem[(self.po, ("cver", m))] = ("epoch", k)
                st.mem[(self.po, ("csz", m))] = n
            elif not (m == self.flag and E.decide(st, as_bool(old)) is True):     # never withdrawn, see track
                st.mem[(self.po, m)] = ("s", ("shared", m, k))
            else: st.mem[(self.po, m)] = old

    def at(self, c): return c[1] if isinstance(c[1], int) else c[1][1] if isinstance(c[1], tuple) and len(c[1]) > 1 and isinstance(c[1][1], int) else -1

    # ---- finding the queue, its lock, its condition and the shutdown flag
    def access(self, E, st, rec, m, kind):
        off = m[2]
        self.sizes[off] = self.s_size(rec, off)
        h = self.held(st)
        self.used.setdefault(off, {}).setdefault(self.phase_name, set()).add(kind)
        if not st.mon.get("alone"):
            g = self.guards.get(off)
            self.guards[off] = set(h) if g is None else g & set(h)
        if self.phase == "worker" and off == self.flag and kind == "read" and self.qlock in h: st.mon["seen flag"] = 1

    def s_size(self, rec, off):
        for n, o, sz, t, _ in self.s.prog.records[rec]["m"]:
            if o == off: return sz
        return 8

    # ---- events
    def event(self, E, st, kind, q, args, ins):
        if self.phase == "find":
            if kind == "wait":
                self.conds.add(q)
                for h in self.held(st): self.wlocks.add(h)
            return
        if kind == "create_thread": st.mon["alone"] = False
        if kind == "wait":
            self.wait(E, st, q)
            self.stale(E, st, self.qlock)
        if kind in ("notify_one", "notify_all") and q == self.cond:
            self.ctx.count("notifications")
            st.mon["notified"] = kind
            st.mon["pending"] = 0
            if kind == "notify_all" and st.mon.get("flag set") and st.mon.get("locked since"): st.mon["all told"] = 1
        if kind == "join":
            self.ctx.count("joins")
            v = E.load(st, E.mkptr(self.po, self.flag), 1)
            if E.decide(st, as_bool(v)) is not True: self.bad(E, st, "join flag", "threads are joined although the shutdown was not recorded")
            elif not st.mon.get("all told"):
                self.bad(E, st, "join untold", "threads are joined although a waiting thread may not have been woken: after recording the shutdown and taking the queue's lock, all waiting threads must be notified")
            st.mon["joined"] = 1
            st.mon["alone"] = True
            # nobody else is left; look at the case that requests are
            self.stale(E, st, self.qlock)
            c = cver(E, st, E.mkptr(self.po, self.queue))
            E.assume(st, cmp_("eq", csize(E, st, E.mkptr(self.po, self.queue)), 0), False)
            E.assume(st, cmp_("eq", ("s", ("it", "begin", c)), ("s", ("it", "end", c[:2]))), False)

    def acquire(self, E, st, q):
        if st.mon.get("flag set") and q == self.qlock: st.mon["locked since"] = 1

    def track(self, E, st, kind, p, ins, v):
        q = E.norm_ptr(p)
        if q == (self.po, self.flag) and kind == "write" and self.phase != "find" and E.decide(st, as_bool(v)) is not True:
            self.bad(E, st, "withdrawn", "the recorded shutdown is withdrawn")
        if self.phase == "destructor" and q == (self.po, self.flag) and kind == "write" and v not in (0, False):
            st.mon["flag set"] = 1
            if self.qlock in self.held(st): st.mon["locked since"] = 1
        if self.phase == "destructor" and q and kind == "read" and q[0][0] == "S" and (self.po, self.queue) in self.derived(q[0]):
            v = E.load(st, p, 8)
            if is_sym(v): E.assume(st, as_bool(v), True)       # what is queued is a request
        super().track(E, st, kind, p, ins, v)

    def wait(self, E, st, q):
        self.ctx.count("condition_waits")
        if self.qlock not in self.held(st):
            self.bad(E, st, "wait lock", "a worker waits without holding the queue's lock"); raise Stop("reported")
        n = csize(E, st, E.mkptr(self.po, self.queue))
        if E.decide(st, cmp_("eq", n, 0)) is not True:
            self.bad(E, st, "wait queue", "a worker may wait although a request is in the queue")
        if not st.mon.get("seen flag") or E.decide(st, as_bool(E.load(st, E.mkptr(self.po, self.flag), 1))) is not False:
            self.bad(E, st, "wait flag", "a worker may wait although the shutdown has begun: it has not looked at it since it took the queue's lock")

    def on_container(self, E, st, op, args, ins, fn):
        q = E.norm_ptr(args[0])
        if self.phase == "find":
            if q and q[0] == self.po: self.qops.setdefault(q[1], set()).add(op)
            return
        if q != (self.po, self.queue): return
        if self.phase == "worker" and op in TAKE + REMOVE:
            self.ctx.count("queue_takes")
            if E.decide(st, cmp_("eq", 0, csize(E, st, args[0]))) is not False:
                self.bad(E, st, "empty " + op, "a worker may take from an empty queue"); raise Stop("reported")
        if self.phase == "worker" and op in REMOVE:
            if st.mon.get("taken"): self.bad(E, st, "removes twice", "a worker removes a request it does not execute")
            w = "back" if op == "pop_back" else "front"
            if op == "erase":
                w = self.whichend(args[-1])
                if w is None: raise CheckError("which request is removed from the queue is not known")
            if not st.mon.get("seen flag") or E.decide(st, as_bool(E.load(st, E.mkptr(self.po, self.flag), 1))) is not False:
                self.bad(E, st, "take flag", "a worker may take a request for execution although the shutdown has begun: it has not looked at it since it took the queue's lock")
            st.mon["taken"] = (w, cver(E, st, args[0])[2:])
        if op == "clear" and self.phase == "worker": self.bad(E, st, "clear", "a worker throws requests away")
        if op in ("push_back", "push_front", "push", "emplace_back"):
            st.mon["pushed"] = st.mon.get("pushed", 0) + 1
            # told already, while the lock was held all the time: a woken thread sees the new request
            st.mon["pending"] = 0 if st.mon.get("notified") and self.qlock in self.held(st) else 1
            v = E.load(st, args[1]) if E.norm_ptr(args[1]) else None
            if v != self.arg: self.bad(E, st, "other pushed", "what is queued is not the request that was handed over")

    def whichend(self, v):
        t = repr(v)
        return "front" if "'begin'" in t or "'front'" in t or "'elt', 0" in t else "back" if "'back'" in t else None

    def call(self, E, st, name, fn, args, ins):
        if name == RUN:
            self.ctx.count("executions")
            if self.phase == "worker":
                tk = st.mon.get("taken")
                if not tk: self.bad(E, st, "not removed", "a worker executes a request it did not take out of the queue")
                elif self.whichend(args[0]) != tk[0] or not holds(args[0], tk[1]):
                    self.bad(E, st, "other executed", "a worker executes something other than the request it took out of the queue")
                if E.decide(st, as_bool(E.load(st, E.mkptr(self.po, self.flag), 1))) is True:
                    self.bad(E, st, "after shutdown", "a worker executes a request although it knows of the shutdown")
                st.mon["taken"] = 0
            return [Outcome("ret", st, None)]
        return None

    def on_virtual(self, E, st, name, args, ins, cands):
        if "::~" in name and self.phase == "destructor":
            if st.mon.get("joined"): st.mon["released"] = st.mon.get("released", 0) + 1
            return [Outcome("ret", st, None)]
        return None

    def on_end(self, E, st, kind, v):
        super().on_end(E, st, kind, v)
        if self.phase == "find" or kind not in ("ret", "throw"): return
        self.ctx.count("ends")
        if self.phase == "worker":
            if st.mon.get("taken"): self.bad(E, st, "lost request", "a worker ends with a request it took and did not execute", "the worker")
            if kind == "ret" and E.decide(st, as_bool(st.mem.get((self.po, self.flag), ("s", ("unknown",))))) is not True:
                self.bad(E, st, "worker ends", "a worker may end although the shutdown has not begun", "the worker")
        if self.phase == "register" and kind == "ret":
            if st.mon.get("pushed", 0) != 1: self.bad(E, st, "push count", "a request handed over is queued %d times" % st.mon.get("pushed", 0), "handing over a request")
            elif st.mon.get("pending"): self.bad(E, st, "not told", "a request is queued without waking a worker", "handing over a request")
        if self.phase == "destructor" and kind == "ret":
            if not st.mon.get("joined"): self.bad(E, st, "no join", "the pool is destroyed without waiting for its threads", "destruction of the pool")
            elif not st.mon.get("released"):
                self.bad(E, st, "not released", "requests still queued when the pool is destroyed are not released", "destruction of the pool")
            self.most = max(self.most, st.mon.get("released", 0))


def holds(t, ver):
    """whether a term mentions that version of the queue"""
    if not isinstance(t, tuple): return False
    return t[2:] == ver or any(holds(x, ver) for x in t)


def run(ctx):
    ctx.rule("the worker's loop is walked with the fields guarded by a lock unknown whenever the lock was not held: at each condition wait, under the queue's lock, the queue is known empty and the shutdown was looked at and not begun")
    ctx.rule("a worker takes only from a queue known not to be empty, removes exactly what it executes, executes it once and ends only after the shutdown began")
    ctx.rule("a request handed over is queued once and a worker is notified; destruction records the shutdown, then takes the queue's lock and notifies all, joins the threads and releases what is queued")
    s = Session(ctx, None)
    E = s.E
    pool = s.sym("pool")
    s.mon = E.mon = mon = Mon(ctx, s, pool)
    mon.po = po = E.norm_ptr(pool)[0]
    mon.types[po] = POOL
    mon.watched = {po: POOL}
    mon.sizes, mon.guards, mon.used, mon.conds, mon.wlocks, mon.qops, mon.guard = {}, {}, {}, set(), set(), {}, {}
    th = thread_entries(s)
    if len(th) != 1: raise CheckError("anchor: %d thread entries" % len(th))
    tc = class_of(s, th[0])

    def fresh():
        st = s.blank(); st.frames = []
        E.assume(st, as_bool(pool), True)
        s.set_class(st, pool, POOL)
        return st
    dtor = [f for f in s.by_short[POOL + "::~" + POOL.rsplit("::")[-1]] if not f.decl and "D1E" in f.name or "D2E" in f.name][0]
    # first pass: which field is what
    mon.phase = "find"
    mon.queue = None
    mon.phase_name = "worker"
    st = fresh()
    s.run(th[0], [functor(s, st, tc, pool, mon.types)], st)
    mon.phase_name = "destructor"
    s.run(dtor, [pool], fresh())
    worker = {o for o, u in mon.used.items() if "worker" in u}
    rec = {o: (n, t) for n, o, sz, t, _ in s.prog.records[POOL]["m"]}
    qs = [o for o in worker if rec[o][1].startswith(QUEUES) and mon.qops.get(o, set()) & set(REMOVE)]
    fl = [o for o in worker if not rec[o][1].startswith(QUEUES) and "write" in mon.used[o].get("destructor", ())]
    if len(qs) != 1 or len(fl) != 1 or len(mon.conds) != 1 or len(mon.wlocks) < 1:
        raise CheckError("anchor: queue %s, shutdown flag %s, condition %d" % (qs, fl, len(mon.conds)))
    mon.queue, mon.flag, mon.cond = qs[0], fl[0], list(mon.conds)[0]
    for o in (mon.queue, mon.flag):
        if not mon.guards.get(o):
            ctx.violation("L03 unguarded " + rec[o][0], "%s::%s" % (POOL, rec[o][0]), "what tells a worker to go on or to end is used with no lock that is always held: a wake-up can be lost", [])
            return
    mon.guard = {o: sorted(mon.guards[o], key=repr)[0] for o in worker if mon.guards.get(o)}
    mon.qlock = mon.guard[mon.queue]
    ctx.sample("queue %s, lock %s, condition at %s, shutdown flag %s" % (rec[mon.queue][0], mon.lock_name(mon.qlock), mon.cond[1], rec[mon.flag][0]))
    # the worker
    mon.phase = mon.phase_name = "worker"
    E.loop_limit = 3
    st = fresh()
    s.run(th[0], [functor(s, st, tc, pool, mon.types)], st)
    # handing over
    mon.phase = mon.phase_name = "register"
    mon.arg = s.sym("request")
    cl = callers(s)
    regs = [f for f in unit_entries(s, {POOL, tc}) if not f.cd and f is not th[0] and pushes(s, f, rec[mon.queue][1])]
    if not regs: raise CheckError("anchor: nothing queues requests")
    for f in regs:
        st = fresh(); E.assume(st, as_bool(mon.arg), True)
        s.run(f, [pool, mon.arg], st)
    # destruction
    mon.phase = mon.phase_name = "destructor"
    s.run(dtor, [pool], fresh())
    if mon.most == 1: ctx.violation("L03 only one released", "destruction of the pool", "at most one of the requests still queued is released", [])
    for k, n in (("condition_waits", 1), ("queue_takes", 2), ("executions", 1), ("notifications", 2), ("joins", 1)): ctx.need(k, n)


def pushes(s, f, qt, seen=None):
    """whether f, with what it calls inside the library, adds to a container of that type"""
    seen = seen if seen is not None else set()
    if f.name in seen or f.decl: return False
    seen.add(f.name)
    el = qt.split("<", 1)[1].split("*")[0].strip()
    for b in f.blocks:
        for i in b:
            if i["op"] in ("call", "invoke") and i["fn"][0] == "f":
                g = s.prog.funcs[i["fn"][1]]
                n = s.E.short(g)
                if n.startswith("std::") and n.rsplit("::")[-1] in ("push_back", "push_front", "push", "emplace_back") and el + "*" in g.dem: return True
                if "/libiqxmlrpc/" in g.file and pushes(s, g, qt, seen): return True
    return False
