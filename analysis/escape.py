"""Flow-insensitive analysis: which exception types can leave a function."""
from engine import U
from names import strip_templates

LEX = "_ZTIN5boost16bad_lexical_castE"
OOR = "_ZTISt12out_of_range"


class Escape:
    def __init__(self, prog, E):
        self.prog, self.E = prog, E
        self.hier = E.hier
        self.esc = {}
        self.calls = {}
        self.catch_types = set()
        for f in prog.funcs.values():
            for b in f.blocks:
                for i in b:
                    if i["op"] == "lpad":
                        for k, c in i["cls"]:
                            if k == "catch" and c[0] == "g": self.catch_types.add(c[1])
        self.targets = {}
        self.solve()

    def relevant(self, fn):
        return not fn.decl and ("/libiqxmlrpc/" in fn.file or fn.file.endswith("driver.cc") or self.E.inline_lib(fn))

    def leaf(self, name, fn):
        if name == "boost::lexical_cast": return {LEX} if not fn.sret else set()
        if name in ("std::vector::at", "std::map::at", "std::deque::at"): return {OOR}
        if name.startswith("boost::function1::operator()"): return set()
        return set()

    def resolve(self, fn):
        """per call site: list of callee function names, and extra leaf types"""
        defs = {}
        for b in fn.blocks:
            for i in b: defs[i["id"]] = i
        vt = {}
        for b in fn.blocks:
            for i in b:
                if i["op"] in ("call", "invoke") and i["fn"][0] == "f" and i["fn"][1] in ("llvm.public.type.test", "llvm.type.test"):
                    v, md = i["as"]
                    if v[0] == "r" and md[0] == "md": vt.setdefault(v[1], set()).add(md[1])
        out = []
        for bi, b in enumerate(fn.blocks):
            for k, i in enumerate(b):
                if i["op"] not in ("call", "invoke"): continue
                fv = i["fn"]
                tg, leaf = [], set()
                vname = None
                if fv[0] == "f":
                    c = self.prog.funcs[fv[1]]
                    n = self.E.short(c)
                    if c.name == "__cxa_throw":
                        t = i["as"][1]
                        leaf = {t[1]} if t[0] == "g" else {"foreign"}
                    elif n == "boost::function1::operator()":
                        tg = [x.name for x in self.E.fn_targets(c)]
                    elif self.relevant(c): tg = [c.name]
                    else: leaf = self.leaf(n, c)
                    # callbacks handed to library code (for_each, bind, threads, ...)
                    if not self.relevant(c):
                        for a in i["as"]:
                            if a[0] == "f" and self.relevant(self.prog.funcs[a[1]]) and c.name not in ("__cxa_throw", "__cxa_atexit"):
                                pass
                elif fv[0] == "r":
                    d = defs.get(fv[1])
                    if d and d["op"] == "load" and d["p"][0] == "r":
                        g = defs.get(d["p"][1])
                        base, off = None, None
                        if g and g["op"] == "gep" and g["p"][0] == "r": base, off = g["p"][1], g["off"]
                        elif g: base, off = d["p"][1], 0
                        tys = vt.get(base)
                        if tys is not None:
                            slot = off // 8
                            vname = self.E.vname(tys, slot)
                            if vname in self.E.user_virtual:
                                leaf = set(self.E.throw_user)
                            else:
                                cands = None
                                for z in tys:
                                    cs = set(self.E.vt.by_type.get(z, ()))
                                    cands = cs if cands is None else cands & cs
                                for v, o in cands or ():
                                    x = self.E.vt.fn(v, o + slot * 8)
                                    if x and x in self.prog.funcs and self.relevant(self.prog.funcs[x]): tg.append(x)
                out.append((bi, k, i, sorted(set(tg)), leaf, vname))
        return out

    def solve(self):
        fns = [f for f in self.prog.funcs.values() if self.relevant(f)]
        for f in fns:
            self.esc[f.name] = set()
            self.calls[f.name] = self.resolve(f)
        ch = True
        while ch:
            ch = False
            for f in fns:
                new = self.transfer(f)
                if not new <= self.esc[f.name]:
                    self.esc[f.name] |= new
                    ch = True

    def transfer(self, f):
        out = set()
        for bi, k, i, tg, leaf, vn in self.calls[f.name]:
            if i.get("nu"): continue
            ts = set(leaf)
            for t in tg:
                if not self.prog.funcs[t].nounwind: ts |= self.esc.get(t, set())
            if not ts: continue
            if i["op"] == "call":
                out |= ts
                continue
            lp = self.pad(f, i["uw"])
            for t in ts:
                sel = self.E.match(lp, t)
                if sel is None: out.add(t)
                elif sel == 0: out.add(t)            # cleanup, then resume
                elif sel == ("tid", "filter"): pass
                elif self.rethrows(f, i["uw"]): out.add(t)
        return out

    def pad(self, f, b):
        for x in f.blocks[b]:
            if x["op"] == "lpad": return x

    def rethrows(self, f, b):
        key = (f.name, b)
        r = self.targets.get(key)
        if r is None:
            seen, work, r = {b}, [b], False
            while work:
                x = work.pop()
                stop = False
                for i in f.blocks[x]:
                    if i["op"] in ("call", "invoke") and i["fn"] == ["f", "__cxa_rethrow"]: r = True
                    if i["op"] in ("call", "invoke") and i["fn"] == ["f", "__cxa_end_catch"]: stop = True
                if stop: continue
                for s in self.E.succs(f.blocks[x][-1]):
                    if s not in seen: seen.add(s); work.append(s)
            self.targets[key] = r
        return r

    def of(self, name):
        return self.esc.get(name, set())

    def reps(self, types):
        by = {}
        for t in sorted(types):
            sig = frozenset(c for c in self.catch_types if self.hier.derives(t, c))
            by.setdefault(sig, t)
        return sorted(by.values())
