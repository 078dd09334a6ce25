"""H01: the configured maximum request size is always enforced."""
from props.reading import *


class Mon(ReadMon):
    def need(self, E, st, cond, key, msg, loc=None):
        if not entails(E, st, cond): self.bad(E, st, key, msg, loc)

    def hsize(self, st):
        """header length plus declared length of the current message, when both are known"""
        h = st.mon.get("hdr")
        if not h or not st.mon.get(("has length", h[1])): return None
        return ladd(slen(st.mon["hdrtext"]), ("s", ("arg", "declared length", h[1])))

    def refused(self, E, st):
        super().refused(E, st)
        self.ctx.count("refusals")
        T, h = st.mon.get("T", 0), self.hsize(st)
        if self.limit == 0:
            self.bad(E, st, "refused without limit", "a request is refused for its size although no maximum is configured"); return
        if entails(E, st, bneg(cmp_("lt", T, self.limit))): return
        if h is not None and entails(E, st, bneg(cmp_("lt", h, self.limit))): return
        self.bad(E, st, "refused below limit", "a request is refused for its size although neither its received bytes nor its header plus declared length reach the maximum")

    def status(self, E, st, code, loc):
        if st.mon.get("too big") and code != 413:
            self.bad(E, st, "status", "a request that is too large is refused with another status than 413")
        if st.mon.get("too big"): self.ctx.count("statuses")

    def delivered(self, E, st, packet):
        self.ctx.count("deliveries")
        if self.limit == 0: return
        h = self.hsize(st)
        self.need(E, st, cmp_("lt", st.mon["T"], self.limit), "delivered", "a request is handed over although its received bytes may have reached the maximum")
        if h is not None:
            self.need(E, st, cmp_("lt", h, self.limit), "delivered declared", "a request is handed over although its header plus declared length may reach the maximum")

    def on_end(self, E, st, kind, v):
        super().on_end(E, st, kind, v)
        if self.phase != "read" or kind != "ret" or not st.mon.get("read in call"): return
        if st.mon.get("executed") or st.mon.get("gone"): return
        if st.mon.get("too big"): return
        self.ctx.count("partial_reads")
        if self.limit == 0: return
        self.need(E, st, cmp_("lt", st.mon["T"], self.limit), "kept reading", "reading goes on although the received bytes may have reached the maximum", handler_name(self))
        h = self.hsize(st)
        if h is not None and st.mon["hdrat"] < st.mon["reads"]:
            self.need(E, st, cmp_("lt", h, self.limit), "kept reading declared", "reading goes on although header plus declared length may reach the maximum", handler_name(self))


def handler_name(mon): return mon.what + " connection: handle_input"


def run(ctx):
    ctx.rule("handle_input of each server connection class, walked over sequences of reads of symbolic length against a symbolic maximum M: every path that delivers the request or goes on reading carries facts implying received < M, and header + declared < M from the read after the header on")
    ctx.rule("every path that raises the too-large refusal carries facts implying received >= M or header + declared >= M; with no maximum configured there is no such path")
    depth = 5 if ctx.tier == "thorough" else 4
    s0 = Session(ctx, None)
    for cls, ctor in server_classes(s0):
        for limit in (("s", ("arg", "M")), 0, None):
            what = cls.rsplit("::")[-1]
            s, mon, sts = world(ctx, cls, ctor, lambda s: Mon(ctx, s, "H01", what, limit or 0), limit)
            ctx.count("configurations")
            first = [x for x in input_(s, mon, sts)]
            # TLS: the first event completes the handshake and reads nothing
            if first and not any(x.mon.get("reads") for x in first): first = input_(s, mon, first)
            cur, done = first, []
            for rnd in range(2):
                for d in range(depth - 1):
                    go = [x for x in cur if not x.mon.get("executed") and not x.mon.get("too big")]
                    done += [x for x in cur if x.mon.get("executed")]
                    cur = input_(s, mon, go)
                done += [x for x in cur if x.mon.get("executed")]
                if rnd == 0:
                    nxt = answer(s, mon, done[:6])
                    if not nxt: raise CheckError("no path leads to a second request on a %s connection" % what)
                    ctx.count("second_messages", len(nxt))
                    cur = input_(s, mon, [new_message(x) for x in nxt])
                    done = []
    for n in ("refusals", "deliveries", "partial_reads", "statuses", "headers", "second_messages"): ctx.need(n, 2)
    ctx.assume("sizes are mathematical integers: 64-bit sums of received bytes do not wrap")
