"""L02: lock acquisition can never deadlock."""
from props.locking import *

WAITS = {"poll", "ppoll", "select", "pselect", "epoll_wait", "accept", "accept4", "recv", "recvfrom", "recvmsg", "sleep", "usleep", "nanosleep", "pthread_join", "sem_wait"}
HANDLERS = ("iqnet::Event_handler::handle_input", "iqnet::Event_handler::handle_output", "iqnet::Event_handler::finish",
            "iqnet::Event_handler::log_exception", "iqnet::Event_handler::log_unknown_exception")


class Mon(LockMon):
    def __init__(self, ctx, s):
        super().__init__(ctx, s)
        self.edges = {}
        self.root = self.cur = None
        self.roots = set()
        self.handlers = set()

    def bad(self, E, st, key, msg):
        self.ctx.violation("L02 %s %s" % (self.root, key), E.cur_loc(st), msg, st.trace_list())

    def names(self, st): return [self.lock_name(q) or "an unnamed lock" for q in self.held(st)]

    def acquire(self, E, st, q):
        if q in self.held(st):
            self.bad(E, st, "again", "%s is acquired by a thread that already holds it" % self.lock_name(q))
            raise Stop("deadlock")
        n = self.lock_name(q)
        for h in self.held(st):
            m = self.lock_name(h)
            if m and n: self.edges.setdefault((m, n), (E.cur_loc(st), st.trace_list()))
            else: raise CheckError("a lock taken in %s has no name" % self.root)

    def not_held(self, E, st, q):
        self.bad(E, st, "unlock", "%s is released without being held" % self.lock_name(q))
        raise Stop("reported")

    def event(self, E, st, kind, q, args, ins):
        h = self.held(st)
        if kind == "join" and h: self.bad(E, st, "join", "threads are joined while %s is held" % ", ".join(self.names(st)))
        if kind == "wait":
            self.ctx.count("condition_waits")
            # the wait gives back the lock it is called with and no other
            own = self.lock_of(E, st, args[1])
            if any(x != own for x in h):
                self.bad(E, st, "wait", "a thread waits for a condition while holding a lock the wait does not release")

    def lock_of(self, E, st, lk):
        q = E.norm_ptr(lk)
        v = E.load(st, E.mkptr(*q)) if q else None
        return E.norm_ptr(v) if v is not None else None

    def user(self, E, st, name):
        if self.held(st):
            self.bad(E, st, "user " + name, "%s is called while %s is held" % (name, ", ".join(self.names(st))))

    def call(self, E, st, name, fn, args, ins):
        if fn.decl and name in WAITS and self.held(st):
            self.bad(E, st, "blocks", "%s() is called while %s is held" % (name, ", ".join(self.names(st))))
        if fn.decl and name in ("pthread_mutex_lock", "pthread_mutex_trylock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock"):
            raise CheckError("a lock is taken outside the lock classes")
        if name == "boost::mutex::try_lock": raise CheckError("try_lock is not modelled")
        if name in ("iqxmlrpc::Pool_executor::process_actual_execution", "iqxmlrpc::Method::process_execution"):
            self.user(E, st, name)
            return E.opaque_pure(st, ins, name)
        if fn.name in self.handlers and st.frames[-1].fn.name not in self.handlers: return self.handler(E, st, name, ins)
        if fn.name in self.roots and not self.held(st) and len(st.frames) >= 1 and fn.name != self.cur:
            # walked on its own; enters and leaves without locks
            outs = []
            for t in sorted(E.escapes(fn)):
                x = st.fork()
                outs.append(Outcome("throw", x, (t, ("s", ("exc", t)))))
            r = E.opaque_pure(st, ins, name)
            return outs + (r if isinstance(r, list) else [Outcome("ret", st, r)])
        return None

    def on_virtual(self, E, st, name, args, ins, cands):
        base = name
        if base in self.s.E.user_virtual and "~" not in base: self.user(E, st, name)
        if base in HANDLERS: return self.handler(E, st, name, ins)
        return None

    def handler(self, E, st, name, ins):
        self.user(E, st, name)
        outs = []
        for t in (STDX, FOREIGN) if "handle_" in name else ():
            x = st.fork()
            outs.append(Outcome("throw", x, (t, ("s", ("exc", t)))))
        r = E.opaque_pure(st, ins, name)
        return outs + (r if isinstance(r, list) else [Outcome("ret", st, r)])

    def on_end(self, E, st, kind, v):
        super().on_end(E, st, kind, v)
        if kind in ("ret", "throw"):
            self.ctx.count("exits")
            if self.held(st):
                self.ctx.violation("L02 %s leak %s" % (self.root, kind), self.root, "%s is still held when %s %s" % (", ".join(self.names(st)), self.root, "returns" if kind == "ret" else "throws"), st.trace_list())


def acquirers(s):
    """functions of the library that take a lock themselves, and are used"""
    cl = callers(s)
    virt = {x[1] for sl in s.E.vt.slots.values() for x in sl.values() if x[0] == "f"}
    th = {f.name for f in thread_entries(s)}
    out = []
    for f in s.prog.funcs.values():
        if f.decl or "/libiqxmlrpc/" not in f.file: continue
        hit = False
        for b in f.blocks:
            for i in b:
                if i["op"] in ("call", "invoke") and i["fn"][0] == "f":
                    n = s.E.short(s.prog.funcs[i["fn"][1]])
                    c = n.rsplit("::", 1)
                    if n.startswith(("boost::", "std::")) and (c[-1] in ("lock",) and "mutex" in c[0] or "lock" in c[-1] and c[0].rsplit("::", 1)[-1] == c[-1] and c[-1] in ("unique_lock", "lock_guard", "scoped_lock")):
                        hit = True
        if hit and (f.name in virt or f.name in th or cl.get(f.name) or f.name in s.E.address_taken()): out.append(f)
    return out


def run(ctx):
    ctx.rule("every function that takes a lock is walked with everything it calls; the pairs (lock held, lock taken) form a graph without cycles, and no lock is taken again by its holder")
    ctx.rule("at every exit, normal or by exception, no lock is held; no user code, event handler, wait for network events or join happens under a lock, and a condition wait holds only its own lock")
    s = Session(ctx, None)
    E = s.E
    s.mon = E.mon = mon = Mon(ctx, s)
    E.boundary = {"iqxmlrpc::Server::log_err_msg": [], "iqnet::network_error::network_error": []}
    pool = s.sym("pool")
    tcls = {class_of(s, f) for f in thread_entries(s)}
    roots = acquirers(s)
    mon.roots = {f.name for f in roots}
    for vt in s.classes("iqnet::Event_handler").values():
        for h in HANDLERS: mon.handlers.add(s.impl(vt, "iqnet::Event_handler", h.rsplit("::")[-1]).name)
    for f in roots:
        cls = class_of(s, f)
        if f.cd and "~" in f.dem and "D1E" not in f.name and "D2E" not in f.name: continue
        if f.cd and any(g.dem == f.dem and g.name < f.name for g in roots): continue
        mon.root = f.dem.split("(")[0] if not f.dem.endswith("operator()()") else f.dem[:-2]
        mon.cur = f.name
        st = s.blank(); st.frames = []
        E.assume(st, as_bool(pool), True)
        mon.types[E.norm_ptr(pool)[0]] = POOL
        if cls in tcls: this = functor(s, st, cls, pool, mon.types)
        else:
            this = s.sym("this " + cls)
            E.assume(st, as_bool(this), True)
            mon.types[E.norm_ptr(this)[0]] = cls
            if any(E.prog.globals[n]["dem"] == "vtable for " + cls for n in E.vt.slots): s.set_class(st, this, cls)
        ctx.count("acquiring_functions")
        s.run(f, [this] + [s.sym("%s %d" % (f.name, i)) for i in range(len(split_params(f.dem)))], st)
    g = {}
    for a, b in mon.edges: g.setdefault(a, set()).add(b)
    ctx.count("order_edges", len(mon.edges))
    for a, b in sorted(mon.edges): ctx.sample("%s is held when %s is taken" % (a, b))
    for (a, b), (loc, tr) in sorted(mon.edges.items()):
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            todo += g.get(x, ())
        if a in seen and a != b:
            ctx.violation("L02 order %s %s" % (a, b), loc, "%s is taken while %s is held, elsewhere they are taken in the opposite order" % (b, a), tr)
    ctx.need("acquiring_functions", 8); ctx.need("exits", 20); ctx.need("condition_waits", 1)
