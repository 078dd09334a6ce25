"""In-memory form of the exported module."""
import json


class Fn:
    __slots__ = ("name", "dem", "ctx", "base", "cd", "nargs", "nounwind", "noreturn", "ro", "ret", "sret", "at",
                 "decl", "file", "line", "qn", "scope", "dt", "blocks", "va", "_live")

    def __repr__(self):
        return "<Fn %s>" % self.dem


class Program:
    pass


def load(path, sources):
    d = json.load(open(path))
    p = Program()
    files = d["files"]
    p.files = files
    p.sources = sources
    p.funcs = {}
    for n, o in d["funcs"].items():
        f = Fn()
        f.name, f.dem, f.ctx, f.base = n, o["dem"], o.get("ctx", ""), o.get("base", n)
        f.cd = bool(o.get("cd")); f.nargs = o["nargs"]
        f.nounwind = bool(o.get("nounwind")); f.noreturn = bool(o.get("noreturn")); f.ro = bool(o.get("ro"))
        f.ret = o["ret"]; f.sret = bool(o.get("sret")); f.at = o["at"]; f.va = bool(o.get("va"))
        f.decl = bool(o.get("decl"))
        f.file = files[o["file"]] if "file" in o else ""
        f.line = o.get("line", 0); f.qn = o.get("qn", ""); f.scope = o.get("scope", ""); f.dt = o.get("dt", [])
        f.blocks = o.get("bl", []); f._live = None
        p.funcs[n] = f
    p.globals = d["globals"]
    for g in p.globals.values():
        if "file" in g: g["file"] = files[g["file"]]
    never_written(p)
    p.records = d["records"]
    for r in p.records.values():
        r["file"] = files[r["file"]] if "file" in r else ""
    p.enums = d["enums"]
    return p


def never_written(p):
    """variables private to a source file that are only ever loaded have their initial value"""
    cand = {n for n, g in p.globals.items() if n.startswith(("_ZZ", "_ZL", "_ZN12_GLOBAL__N_")) and not g.get("const") and "init" in g and not g["dem"].startswith("guard ")}

    def drop(v):
        if isinstance(v, list):
            if len(v) > 1 and v[0] == "g" and v[1] in cand: cand.discard(v[1])
            for x in v:
                if isinstance(x, (list, dict)): drop(x)
        elif isinstance(v, dict):
            for x in v.values(): drop(x)
    for f in p.funcs.values():
        for b in f.blocks:
            for ins in b:
                for k, v in ins.items():
                    if isinstance(v, list) and not (ins["op"] == "load" and k == "p" and v and v[0] == "g"): drop(v)
    for g in p.globals.values():
        if "init" in g: drop(g["init"])
    for n in cand: p.globals[n]["const"] = 1
