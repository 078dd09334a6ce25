"""Locks and threads: what L01, L02 and L03 share."""
from checklib import *
from engine import cmp_, bneg, as_bool, is_sym, is_ptr, Outcome, ladd
from models import csize
from names import split_params

POOL = "iqxmlrpc::Pool_executor_factory"
SYNC = ("mutex", "condition", "thread_group", "once_flag")


def strip_type(t):
    t = t.replace("const ", "").replace("volatile ", "").strip()
    return t[:-1].strip() if t.endswith(("*", "&")) else None


class LockMon(Recorder):
    """follows the set of held locks and the fields of watched objects"""
    def __init__(self, ctx, s):
        super().__init__()
        self.ctx, self.s = ctx, s
        self.types = {}            # object -> record name
        s.E.field_track = self.track

    # ---- naming
    def otype(self, obj):
        if obj in self.types: return self.types[obj]
        r = None
        if obj[0] == "S" and is_sym(obj[1]) and obj[1][1][0] == "fld":
            _, o, off, _ = obj[1][1]
            m = self.member(self.otype(o), off) if isinstance(off, int) else None
            r = strip_type(m[3]) if m and m[1] == 0 else None
        self.types[obj] = r
        return r

    def member(self, rec, off, depth=0):
        """-> (name, offset inside the member, its offset, its type)"""
        r = self.s.prog.records.get(rec)
        if not r or depth > 8: return None
        for n, o, sz, t, _ in r["m"]:
            if o <= off < o + max(sz, 1): return (n, off - o, o, t)
        for b, o in r["b"]:
            sub = self.member(b, off - o, depth + 1)
            if sub: return (sub[0], sub[1], sub[2] + o, sub[3])
        return None

    def lock_name(self, q):
        t = self.otype(q[0])
        m = self.member(t, q[1]) if t and isinstance(q[1], int) else None
        return "%s::%s" % (t, m[0]) if m else None

    # ---- locks
    def held(self, st): return st.mon.get("held", ())

    def on_sync(self, E, st, kind, args, ins):
        q = E.norm_ptr(args[0]) if args else None
        if kind == "lock":
            self.ctx.count("acquisitions")
            self.acquire(E, st, q)
            st.mon["held"] = self.held(st) + (q,)
            self.acquired(E, st, q)
        elif kind == "unlock":
            h = list(self.held(st))
            if q in h: h.remove(q)
            else: self.not_held(E, st, q)
            st.mon["held"] = tuple(h)
        else:
            self.event(E, st, kind, q, args, ins)

    def acquire(self, E, st, q): pass
    def acquired(self, E, st, q): pass
    def not_held(self, E, st, q): pass
    def event(self, E, st, kind, q, args, ins): pass

    # ---- accesses
    def track(self, E, st, kind, p, ins, v):
        q = E.norm_ptr(p)
        if q: self.touch(E, st, q, kind)

    def touch(self, E, st, q, kind):
        if q[0] in self.watched: self.field(E, st, q[0], q[1], kind)
        elif q[0][0] == "S":
            for w, off in self.derived(q[0]): self.field(E, st, w, off, kind)

    watched = ()

    def derived(self, obj):
        """(watched object, offset) of the containers an element object belongs to"""
        r = self._derived.get(obj) if hasattr(self, "_derived") else None
        if r is None:
            if not hasattr(self, "_derived"): self._derived = {}
            r = set()
            todo = [obj[1]]
            while todo:
                t = todo.pop()
                if not isinstance(t, tuple): continue
                if len(t) == 4 and t[0] in self.watched and isinstance(t[1], int): r.add((t[0], t[1])); continue
                if len(t) and t[0] == "fld": continue      # a pointer stored in the container points elsewhere
                todo.extend(t)
            self._derived[obj] = r
        return r

    def field(self, E, st, obj, off, kind):
        rec = self.watched[obj]
        m = self.member(rec, off) if isinstance(off, int) else None
        if m is None or any(x in m[3] for x in SYNC) or m[0].startswith("_vptr"): return
        self.access(E, st, rec, m, kind)

    def access(self, E, st, rec, m, kind): pass

    def on_call(self, E, st, name, fn, args, ins):
        if name.startswith(("std::", "__gnu_cxx::", "boost::")):
            const = fn.dem.rstrip().endswith("const")
            for k, a in enumerate(args):
                if not (is_ptr(a) or is_sym(a)) or fn.cd and k == 0: continue
                q = E.norm_ptr(a)
                if q and q[0] in self.watched: self.touch(E, st, q, "read" if const and k == 0 else "write")
        return self.call(E, st, name, fn, args, ins)

    def call(self, E, st, name, fn, args, ins): return None


def thread_entries(s):
    """functions a thread of the library starts in"""
    out = []
    for r in s.prog.records:
        if r.startswith("boost::detail::thread_data<"):
            f = r[len("boost::detail::thread_data<"):-1].strip()
            c = [x for x in s.by_short.get(f + "::operator()", ()) if not x.decl]
            out += c
    if not out: raise CheckError("anchor: no thread entry")
    return out


def callers(s):
    """function -> set of functions calling or referring to it"""
    r = {}
    for f in s.prog.funcs.values():
        if f.decl: continue
        for b in f.blocks:
            for i in b:
                if i["op"] in ("call", "invoke") and i["fn"][0] == "f":
                    r.setdefault(i["fn"][1], set()).add(f.name)
    return r


def class_of(s, f):
    """the class a member function belongs to, with template arguments"""
    d = f.dem.split("(")[0] if not f.dem.endswith("operator()()") else f.dem[:-len("operator()()") - 2]
    if f.dem.endswith("operator()()"): return d
    return d.rsplit("::", 1)[0].split(" ")[-1] if "::" in d else None


def unit_entries(s, classes):
    """member functions of the classes that are used from elsewhere (not only by each other)"""
    own = {f.name for f in s.prog.funcs.values() if not f.decl and class_of(s, f) in classes}
    cl = callers(s)
    virt = set()
    for vt, sl in s.E.vt.slots.items():
        for x in sl.values():
            if x[0] == "f": virt.add(x[1])
    th = {f.name for f in thread_entries(s)}
    out = []
    for n in sorted(own):
        f = s.prog.funcs[n]
        if n in virt or n in th or (cl.get(n, set()) - own) or not cl.get(n): out.append(f)
    return out


def functor(s, st, cls, pool, types):
    """the object a thread starts with: it refers to the pool"""
    E = s.E
    th = s.sym("thread of " + cls)
    E.assume(st, as_bool(th), True)
    o = E.norm_ptr(th)[0]
    types[o] = cls
    n = 0
    for name, off, sz, t, _ in s.prog.records[cls]["m"]:
        if strip_type(t) == POOL: st.mem[(o, off)] = pool; n += 1
    if not n: raise CheckError("a thread of the pool does not refer to it")
    return th
