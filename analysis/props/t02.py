"""T02: every TLS context excludes SSLv2 and SSLv3 and checks its key."""
from props.tls_common import *
from names import split_params

WEAKEN = ("SSL_CTX_clear_options", "SSL_clear_options", "SSL_CTX_set_ssl_version", "SSL_set_ssl_method")


class Mon(CtxMon):
    def bad(self, E, st, key, msg, loc=None):
        self.ctx.violation("T02 " + key, loc or E.cur_loc(st), msg, st.trace_list())

    def on_call(self, E, st, name, fn, args, ins):
        if fn.decl and (name.startswith("SSL_CTX_") or name == "SSL_new") and args and args[0] == 0:
            self.bad(E, st, "no context " + name, "%s is used on a context that could not be made" % name); raise Stop("reported")
        if fn.decl and name == "SSL_new" and not safe(dict(st.mon.get(("ctx", args[0]), ()))):
            self.bad(E, st, "used early", "a context is used before SSLv3 is excluded")
        return super().on_call(E, st, name, fn, args, ins)


def run(ctx):
    ctx.rule("every outermost function that reaches the making of a TLS context is walked with each step failing or succeeding")
    ctx.rule("where it returns, SSLv3 is excluded from the context inside (options, or least version), and if it takes file names a certificate and a key were loaded into it and then checked to match; a path with a failed step ends with an exception")
    ctx.rule("no call in the library takes the exclusion back or replaces the protocol method")
    s = Session(ctx, None)
    E = s.E
    s.mon = E.mon = mon = Mon(ctx, s)
    inside = s.fn(CTX + "context")
    for f in makers(s):
        ctx.count("makers")
        args = [s.sym("argument %d" % k) for k in range(f.nargs)]
        files = sum("basic_string" in p or p == "char const*" for p in split_params(f.dem)) >= 2
        where = "%s:%s" % (f.file, f.line)
        st = s.blank(); st.frames = []
        for v in args: E.assume(st, as_bool(v), True)
        for k, v, x in s.run(f, args, st):
            ctx.count("ends_" + k)
            if k == "throw": continue
            if x.mon.get("failed"):
                mon.bad(E, x, "failure ignored %s %s" % (f.base, x.mon["failed"]), "%s returns a context although this failed: %s" % (f.base, x.mon["failed"]), where); continue
            _, cs = s.eval(x, inside, [v])
            if len(cs) != 1: raise CheckError("the context inside what %s returns is unknown" % f.base)
            d = dict(x.mon.get(("ctx", cs.pop()), ()))
            ctx.count("contexts")
            if not d: mon.bad(E, x, "other " + f.base, "what %s returns holds no context made by it" % f.base, where); continue
            if not safe(d): mon.bad(E, x, "old protocols " + f.base, "a context made by %s does not exclude SSLv2 and SSLv3" % f.base, where)
            if files:
                ctx.count("file_contexts")
                for step, what in (("cert", "a certificate was loaded"), ("key", "a key was loaded"), ("match", "its key was checked to match its certificate")):
                    if not d.get(step): mon.bad(E, x, step + " " + f.base, "%s returns a context although it was not made sure that %s" % (f.base, what), where)
    for f in s.prog.funcs.values():
        for b in f.blocks:
            for i in b:
                if i["op"] in ("call", "invoke") and i["fn"][0] == "f" and i["fn"][1] in WEAKEN:
                    n = i["fn"][1]
                    m = i["as"][1] if len(i["as"]) > 1 else None
                    if "clear" in n and isinstance(m, list) and m[0] == "c" and not m[1] & NO_SSL3: continue
                    if f.name in E.entered and "clear" in n: continue        # judged by its effect above
                    ctx.violation("T02 weakened " + f.base, "%s:%s" % (f.file, f.line), "%s calls %s, which can admit SSLv3 again" % (f.dem.split("(")[0], n))
    for n, k in (("makers", 3), ("contexts", 3), ("file_contexts", 2), ("ends_throw", 4)): ctx.need(n, k)
    ctx.assume("the constants of the installed TLS library: SSLv2 does not exist in it, SSLv3 is excluded by an option or by the least version")
