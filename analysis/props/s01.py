"""S01: nothing of a request runs unless the installed plugin accepted that request."""
from props.server_common import *
from engine import ladd
from models import SUB, SO, slen

RUNS = {"iqxmlrpc::Method_dispatcher_base::do_create_method", "iqxmlrpc::Method_factory_base::create",
        "iqxmlrpc::Method::execute", "iqxmlrpc::Interceptor::process"}
AUTH = "iqxmlrpc::Auth_Plugin_base::do_authenticate"
ANON = "iqxmlrpc::Auth_Plugin_base::do_authenticate_anonymous"


class Mon(ServerMonitor):
    def __init__(self, ctx, s):
        super().__init__(ctx)
        self.s = s
        self.installed = True

    def on_virtual(self, E, st, name, args, ins, cands):
        if name in (AUTH, ANON): return self.auth(E, st, name, args, ins)
        if name in RUNS: return self.runs(E, st, name, args, ins)
        return super().on_virtual(E, st, name, args, ins, cands)

    def on_call(self, E, st, name, fn, args, ins):
        if name in RUNS and name != "iqxmlrpc::Interceptor::process":
            self.check_run(E, st, name, args)
        if fn.name in ("xmlReaderForMemory",):
            self.ctx.count("parse_calls")
        return None

    # the plugin decides
    def auth(self, E, st, name, args, ins):
        ctx = self.ctx
        ctx.count("plugin_calls")
        loc = E.cur_loc(st)
        if self.installed and args[0] != self.plugin:
            ctx.violation("S01 other plugin", loc, "the object asked is not the installed authentication plugin", st.trace_list())
        outs = []
        if name == AUTH:
            u, p = rd(E, st, args[1]), rd(E, st, args[2])
            for what, t in (("user name", u), ("password", p)):
                if self.pkt_obj not in E.deps(t) and t != (SC, b""):
                    ctx.violation("S01 credentials " + what, loc, "the %s given to the plugin does not come from the request being handled" % what, st.trace_list())
            if u == p:
                ctx.violation("S01 credentials same", loc, "the plugin is asked with the same text as user name and password", st.trace_list())
            self.split(E, st, u, p, loc)
            who = ("named", u)
        else:
            if self.has_credentials(E, st) is not False:
                ctx.violation("S01 anonymous", loc, "anonymous access is asked for a request that may carry credentials", st.trace_list())
            who = ("anon",)
        for t in (FAULT, STDX, FOREIGN):
            s2 = st.fork()
            s2.mon["auth"] = ("failed",)
            s2.note(loc, "%s throws %s" % (name, t))
            outs.append(Outcome("throw", s2, (t, ("s", ("userexc", t)))))
        s2 = st.fork()
        s2.mon["auth"] = ("rejected",)
        s2.note(loc, "%s returns false" % name)
        outs.append(Outcome("ret", s2, 0))
        st.mon["auth"] = ("accepted",) + who
        st.note(loc, "%s returns true" % name)
        outs.append(Outcome("ret", st, 1))
        return outs

    def split(self, E, st, u, p, loc):
        """the carried text is "user:password": judged where both parts are recognisable cuts of one text"""
        if u[0] != SUB and p[0] != SUB: return
        d = u[1] if u[0] == SUB else p[1]
        if any(x[0] == SUB and x[1] != d for x in (u, p)): return
        self.ctx.count("credential_splits")
        cuts = [x for x in (u, p) if x[0] == SUB]
        wrong = None
        k = u[3] if u[0] == SUB else None
        if u[0] == SUB:
            if u[2] != 0: wrong = "the user name does not start at the beginning of the credentials"
            elif not (is_sym(k) and k[1][0] in ("fpos", "strfind")): return
            elif k[1][0] == "strfind" and k[1][1] in ("rfind", "find_last_of", "find_last_not_of"): wrong = "the user name ends at the last colon, not at the first"
            elif k[1][0] == "fpos" and k[1][2] not in ((SC, b":"), (SO, ("any of", (SC, b":")))): wrong = "the user name does not end at the first colon"
        if wrong is None and u[0] == SUB and k[1][0] == "fpos":
            if p[0] == SUB and (ladd(p[2], k, -1) != 1 or p[3] is not None): wrong = "the password is not the rest behind the first colon"
            elif p == (SC, b"") and E.decide(st, cmp_("eq", ladd(slen(d), k, -1), 1)) is not True: wrong = "the password behind the first colon is dropped"
        if wrong is None and p[0] == SUB and u == d: wrong = "the user name is not cut at the colon"
        if wrong: self.ctx.violation("S01 credentials split", loc, wrong + ": the plugin is asked about other credentials than the request carried", st.trace_list())

    def has_credentials(self, E, st):
        """True/False/None: is an Authorization option known to be present in the request's header?"""
        res = set()
        for k, v in st.facts.items():
            if k[0] == "ub" and k[1][0] == "found" and k[1][2] == (SC, b"authorization") and self.pkt_obj in E.deps(k[1][1]):
                res.add(v)
        return res.pop() if len(res) == 1 else None

    def check_run(self, E, st, name, args):
        ctx = self.ctx
        if not self.installed: return
        ctx.count("guarded_points")
        a = st.mon.get("auth")
        ctx.sample("%s reached at %s only after %s" % (name, E.cur_loc(st), a))
        if not a or a[0] != "accepted":
            ctx.violation("S01 unguarded " + name, E.cur_loc(st),
                          "%s is reached although the plugin has %s this request" % (name, {"rejected": "rejected", "failed": "failed for"}.get(a[0] if a else "", "not been asked about")),
                          st.trace_list())

    def runs(self, E, st, name, args, ins):
        self.check_run(E, st, name, args)
        if name.endswith(("do_create_method", "::create")):
            st.mon["method"] = m = ("s", ("method",))
            return [Outcome("ret", st, m)]
        # user name seen by the method
        m = st.mon.get("method")
        a = st.mon.get("auth")
        meth = args[1] if name.endswith("process") else args[0]
        if self.installed and a and a[0] == "accepted" and meth == m:
            s2 = st.fork()
            s2.frames = []
            ends, vals = self.s.eval(st, self.getter, [m])
            ctx = self.ctx
            for v in vals:
                t = rd(E, ends[0][2], v)
                ctx.count("authname_reads")
                if a[1] == "named" and t != a[2]:
                    ctx.violation("S01 authname", E.cur_loc(st), "the user name visible to the method (%r) is not the one the plugin accepted" % (t,), st.trace_list())
                if a[1] == "anon" and self.pkt_obj in E.deps(t):
                    ctx.violation("S01 authname anon", E.cur_loc(st), "an anonymous request gives the method a user name taken from the request", st.trace_list())
        return []          # what happens afterwards is judged by S03

    def response(self, E, st, args, ins):
        st.mon["answers"] = st.mon.get("answers", 0) + 1
        a = st.mon.get("auth")
        if a and a[0] == "rejected":
            self.ctx.count("rejections_answered")
            codes = http_status(E, st, args[0])
            if codes != {401}:
                self.ctx.violation("S01 status", E.cur_loc(st), "a rejected request is answered with status %s instead of 401" % sorted(map(str, codes)), st.trace_list())
        return [Outcome("ret", st, None)]

    def on_end(self, E, st, kind, v):
        super().on_end(E, st, kind, v)
        a = st.mon.get("auth")
        if self.installed and a and a[0] == "rejected" and kind in ("ret", "throw") and not st.mon.get("answers") and self.phase == "exec":
            self.ctx.violation("S01 no answer", E.cur_loc(st) if st.frames else "Server::schedule_execute", "a rejected request is not answered", st.trace_list())


def setup(ctx):
    s = Session(ctx, None)
    mon = s.mon = s.E.mon = Mon(ctx, s)
    s.E.boundary = {"iqxmlrpc::parse_request": None, "iqxmlrpc::dump_response": None, "iqxmlrpc::Server::log_err_msg": [], "iqxmlrpc::Binary_data::from_base64": None}
    mon.getter = s.fn("iqxmlrpc::Method::authname", 0)
    mon.server, mon.pkt, mon.conn = s.sym("server"), s.sym("packet"), s.sym("connection")
    mon.plugin = s.sym("plugin")
    mon.pkt_obj = ("S", mon.pkt)
    return s, mon


def run(ctx):
    ctx.rule("with a plugin installed through Server::set_auth_plugin, on every path from the hand-over of a request (Server::schedule_execute) each call of a dispatcher, factory, interceptor or method is preceded by a call of that plugin that returned true on the same path")
    ctx.rule("the plugin's arguments derive from the request's own header; anonymous access is asked only where the Authorization option is known absent")
    ctx.rule("a path on which the plugin returned false answers with constant status 401")
    ctx.rule("the user name a method can read equals the accepted one")
    s, mon = setup(ctx)
    mon.phase = "setup"
    ends = s.run(s.fn("iqxmlrpc::Server::set_auth_plugin"), [mon.server, mon.plugin])
    if not any(k == "ret" for k, _, _ in ends): raise CheckError("Server::set_auth_plugin does not return")
    mon.phase = "exec"
    for k, v, st in ends:
        if k != "ret": continue
        s.E.assume(st, as_bool(mon.plugin), True)
        s.E.assume(st, as_bool(mon.pkt), True)
        s.run(s.fn("iqxmlrpc::Server::schedule_execute"), [mon.server, mon.pkt, mon.conn], st)
    ctx.assume("single-threaded hand-over; user-supplied Method_dispatcher, Interceptor and Method classes are opaque")
    for n in ("plugin_calls", "guarded_points", "rejections_answered", "authname_reads"): ctx.need(n)
