"""Short, template-free names for functions, and type information lookups."""
import re
from functools import lru_cache


@lru_cache(maxsize=None)
def strip_templates(s):
    out, d, i = [], 0, 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == "<":
            # operator<, operator<<, operator<=
            t = "".join(out[-8:])
            if d == 0 and t.endswith("operator"):
                out.append(c); i += 1
                while i < n and s[i] in "<=":
                    out.append(s[i]); i += 1
                continue
            d += 1
        elif c == ">":
            t = "".join(out[-9:])
            if d == 0:
                out.append(c)   # operator>, ->
            elif not (s[i - 1] == "-" and d):
                d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    r = "".join(out)
    r = r.replace("std::__cxx11::basic_string", "std::string").replace("std::__cxx11::", "std::")
    return r.replace("[abi:cxx11]", "").strip()


def short(fn):
    """Qualified name without template arguments and parameters."""
    if fn.qn and not fn.decl and not fn.ctx.startswith("std::") and not fn.name.startswith("_Z"):
        return fn.qn
    if not fn.name.startswith("_Z"):
        return fn.name
    c = strip_templates(fn.ctx)
    b = strip_templates(fn.base)
    if fn.cd and fn.dem.split("(")[0].rsplit("::", 1)[-1].startswith("~") and not b.startswith("~"):
        b = "~" + b
    if b == "basic_string": b = "string"
    if b == "~basic_string": b = "~string"
    r = (c + "::" + b) if c else b
    return r.replace("(anonymous namespace)::", "")


def split_params(dem):
    """Parameter type strings of a demangled function name."""
    # find the parameter list: last top-level '(' ... ')'
    depth, end = 0, None
    s = dem
    s2 = s[:-6] if s.endswith(" const") else s
    if not s2.endswith(")"):
        return []
    i = len(s2) - 1
    d = 0
    while i >= 0:
        if s2[i] == ")": d += 1
        elif s2[i] == "(":
            d -= 1
            if d == 0: break
        i -= 1
    body = s2[i + 1:-1]
    if not body: return []
    out, d, cur = [], 0, ""
    for ch in body:
        if ch in "<([": d += 1
        elif ch in ">)]": d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out
