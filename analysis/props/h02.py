"""H02: a message body is exactly its declared length and carries no residue."""
from props.reading import *
from models import SC, SO, CAT, SUB, wr


class Foreign(Exception): pass


def span(st, t, chunks):
    """the part [a, b) of the message's byte stream a text consists of"""
    if t[0] == SO and t[1][0] == "memstr" and isinstance(t[1][1], tuple) and len(t[1][1]) == 2 \
            and isinstance(t[1][1][1], tuple) and t[1][1][1][:1] == ("received",):
        k = t[1][1][1][1]
        if k not in chunks: raise Foreign("bytes of another message")
        a = 0
        for c in chunks:
            if c == k: break
            a = ladd(a, ("s", ("arg", "received", c)))
        return a, ladd(a, t[1][2])
    if t[0] == CAT:
        out = None
        for p in t[1]:
            if p == EMPTY: continue
            q = span(st, p, chunks)
            if out is None: out = q
            elif ladd(out[1], q[0], -1) != 0: raise Foreign("pieces of the message that are not consecutive")
            else: out = (out[0], q[1])
        return out or (0, 0)
    if t[0] == SUB:
        a, b = span(st, t[1], chunks)
        a2 = ladd(a, t[2])
        if t[3] is None: return a2, b
        if len(t) > 4: raise Foreign("a part of unknown length")
        return a2, ladd(a2, t[3])
    if t == EMPTY: return None
    raise Foreign("text that was not received")


def ends_at(t):
    """(position of the header end, length of the separator) when the header text was cut at a found separator"""
    n = slen(t)
    if isinstance(n, tuple) and n[0] == "s" and n[1][0] == "fpos" and n[1][2][0] == SC: return n, len(n[1][2][1])
    return n, None


class Judge:
    """rules for one read: mixed into the monitors of servers and clients"""
    def header(self, E, st, fn, args, ins):
        out = super().header(E, st, fn, args, ins)
        t = st.mon["hdrtext"]
        try:
            sp = span(st, t, st.mon.get("chunks", ()))
            if sp is not None and sp[0] != 0: raise Foreign("a part that does not begin with the message")
        except Foreign as e:
            self.bad(E, st, "header", "the header text of a message is made of %s" % e)
        return out

    def body_at(self, st):
        n, sep = ends_at(st.mon["hdrtext"])
        return None if sep is None else ladd(n, sep)

    def judge(self, E, st, body, loc=None):
        self.ctx.count("deliveries")
        h = st.mon.get("hdr")
        if not h: self.bad(E, st, "no header", "a message is delivered before its header was read", loc); return
        n = ("s", ("arg", "declared length", h[1]))
        ln = slen(body)
        if ladd(ln, n, -1) != 0 and not (entails(E, st, bneg(cmp_("lt", ln, n))) and entails(E, st, bneg(cmp_("lt", n, ln)))):
            self.bad(E, st, "length", "a message is delivered whose body may be longer or shorter than its Content-Length declares", loc)
        try:
            sp = span(st, body, st.mon["chunks"])
        except Foreign as e:
            self.bad(E, st, "body", "the body of a message is made of %s" % e, loc); return
        at = self.body_at(st)
        if sp is None or entails_eq(E, st, n, 0): return
        if at is not None and ladd(sp[0], at, -1) != 0:
            self.bad(E, st, "body start", "the body of a message does not start right after its header", loc)
        if not entails(E, st, bneg(cmp_("lt", st.mon["T"], sp[1]))):
            self.bad(E, st, "body end", "a message may be delivered before its body has arrived", loc)

    def waits(self, E, st, loc):
        """the message goes on: its body must be incomplete"""
        h = st.mon.get("hdr")
        if not h: return
        at = self.body_at(st)
        self.ctx.count("partial_bodies")
        if at is None: return
        n = ("s", ("arg", "declared length", h[1]))
        if not entails(E, st, cmp_("lt", ladd(st.mon["T"], at, -1), n)):
            self.bad(E, st, "late", "a message whose body may be complete is not delivered", loc)


def entails_eq(E, st, a, b):
    return E.decide(st, cmp_("eq", a, b)) is True


class Mon(Judge, ReadMon):
    def delivered(self, E, st, packet):
        ends, vals = self.s.eval(st, self.s.fn("iqxmlrpc::http::Packet::content"), [packet])
        if len(vals) != 1: raise CheckError("the content of a delivered packet is not readable")
        self.judge(E, st, rd(E, st, next(iter(vals))))
        ends, vals = self.s.eval(st, self.s.fn("iqxmlrpc::http::Packet::header"), [packet])
        h = st.mon.get("hdr")
        if h and {E.norm_ptr(v)[0] if E.norm_ptr(v) else None for v in vals} != {h[0]}:
            self.bad(E, st, "other header", "a message is delivered with a header that was not read from it")

    def reactor(self, E, st, what, args, ins):
        super().reactor(E, st, what, args, ins)
        if self.phase == "read" and what == "register_handler" and args[2] == 2 and not st.mon.get("executed") and not st.mon.get("too big"):
            self.ctx.count("announcements")
            h = st.mon.get("hdr")
            if not h: self.bad(E, st, "announced early", "something is sent before the header of the message was read")
            elif E.decide(st, ("ub", ("expects", h[1]), False)) is not True:
                self.bad(E, st, "announced", "continuation is announced for a message that does not expect it")
            elif st.mon.get("announced"):
                self.bad(E, st, "announced twice", "continuation is announced twice for one message")
            st.mon["announced"] = 1

    def refused(self, E, st):
        """only this message's own size may be what it is refused for"""
        super().refused(E, st)
        self.ctx.count("refusals")
        T, h = st.mon.get("T", 0), st.mon.get("hdr")
        n = ladd(slen(st.mon["hdrtext"]), ("s", ("arg", "declared length", h[1]))) if h else 0
        if self.limit != 0 and not any(entails(E, st, bneg(cmp_("lt", x, self.limit))) for x in (T, n)):
            self.bad(E, st, "count", "a message is refused for its size although its own bytes and its own declared length do not reach the maximum")

    def on_end(self, E, st, kind, v):
        super().on_end(E, st, kind, v)
        if self.phase == "read" and kind == "throw" and isinstance(v, tuple) and v and v[0] == "_ZTISt12out_of_range":
            self.bad(E, st, "position", "reading a message can fail on a position beyond the received text instead of waiting for the rest of the body", self.what + " connection: handle_input")
        if self.phase != "read" or kind != "ret" or st.mon.get("executed") or st.mon.get("too big") or not st.mon.get("read in call"): return
        loc = self.what + " connection: handle_input"
        self.waits(E, st, loc)
        h = st.mon.get("hdr")
        if h and not st.mon.get("announced") and E.decide(st, ("ub", ("expects", h[1]), False)) is not False:
            self.bad(E, st, "not announced", "a message that expects it gets no announcement of continuation", loc)


def step(s, mon, sts):
    """the watched event happens: output first"""
    out = []
    term = s.sym("terminate")
    for st in sts:
        st = new_call(st.fork())
        st.mem[(("S", term), 0)] = 0
        meth = "handle_output" if st.mon.get("watch", 0) & 2 else "handle_input"
        for k, v, x in s.run(handler_impl(s, st, mon.conn, meth), [mon.conn, term], st):
            if k == "ret": out.append(x)
    return out


def live(sts): return [x for x in sts if not x.mon.get("executed") and not x.mon.get("too big")]


class Responses(Judge, ReadMon):
    """the reader of a client connection, given one piece of text after another"""
    def on_call(self, E, st, name, fn, args, ins):
        if name == "iqxmlrpc::http::Header::set_content_length": return [Outcome("ret", st, None)]
        return super().on_call(E, st, name, fn, args, ins)

    def content(self, st, packet):
        vals = self.s.eval(st, self.s.fn("iqxmlrpc::http::Packet::content"), [packet])[1]
        if len(vals) != 1: raise CheckError("the content of a delivered packet is not readable")
        return rd(self.s.E, st, next(iter(vals)))

    def of_this(self, E, st, packet, loc):
        vals = self.s.eval(st, self.s.fn("iqxmlrpc::http::Packet::header"), [packet])[1]
        h = st.mon.get("hdr")
        if h and {E.norm_ptr(v)[0] if E.norm_ptr(v) else None for v in vals} != {h[0]}:
            self.bad(E, st, "other header", "a message is delivered with a header that was not read from it", loc)


def responses(ctx, prop, depth, rounds=2):
    """responses in a row, read by one reader"""
    s = Session(ctx, None)
    E = s.E
    s.mon = E.mon = mon = Responses(ctx, s, prop, "the client's reader:", 0)
    mon.early = False
    E.boundary = {}
    loc = "Packet_reader::read_response"
    rdr = s.sym("reader")
    if rdr not in E.roots: E.roots.append(rdr)
    st = s.blank(); st.frames = []
    E.assume(st, as_bool(rdr), True)
    cur = [x for k, v, x in s.run(s.fn("iqxmlrpc::http::Packet_reader::Packet_reader", 0), [rdr], st) if k == "ret"]
    f = s.fn("iqxmlrpc::http::Packet_reader::read_response")
    for rnd in range(rounds):
        done = []
        for d in range(depth):
            nxt = []
            for x in cur:
                k = x.mon["reads"] = x.mon.get("reads", 0) + 1
                n = ("s", ("arg", "received", k))
                E.assume(x, cmp_("lt", 0, n), True)
                t = s.sym("piece%d" % k)
                E.assume(x, as_bool(t), True)
                wr(E, x, t, (SO, ("memstr", (None, ("received", k)), n)))
                x.mon["T"] = ladd(x.mon.get("T", 0), n)
                x.mon["chunks"] = x.mon.get("chunks", ()) + (k,)
                for kind, v, y in s.run(f, [rdr, t, 0], x):
                    if kind != "ret":
                        if isinstance(v, tuple) and v and v[0] == "_ZTISt12out_of_range":
                            mon.bad(E, y, "position", "reading a message can fail on a position beyond the received text instead of waiting for the rest of the body", loc)
                        continue
                    if v == 0:
                        mon.waits(E, y, loc)
                        nxt.append(y)
                    else:
                        done.append(y)
                        mon.judge(E, y, mon.content(y, v), loc)
                        mon.of_this(E, y, v, loc)
            cur = nxt
        if not done and not ctx.violations: raise CheckError("the reader never delivers a response")
        ctx.count("responses_read", len(done))
        cur = [new_message(x) for x in done]


def run(ctx):
    ctx.rule("the reader of a client connection is walked over pieces of text in the same way, over two responses")
    responses(ctx, "H02", 3)
    ctx.rule("handle_input of each server connection class, walked over sequences of reads of symbolic length: a delivered body is a term over the reads, and must be exactly the span of this message's bytes that starts behind its header and has the declared length")
    ctx.rule("a path that goes on reading carries facts implying that fewer body bytes than declared have arrived")
    ctx.rule("the rules are re-applied to a second message on the same connection, starting from every class of state the first one leaves; an expected announcement of continuation is sent exactly once per message")
    ctx.rule("with a maximum configured, a message is refused for its size only where this message's own bytes or declared length reach it")
    depth = 4 if ctx.tier == "thorough" else 3
    s0 = Session(ctx, None)
    for (cls, ctor), limit in [(c, l) for c in server_classes(s0) for l in (None, ("s", ("arg", "M")))]:
        what = cls.rsplit("::")[-1]
        s, mon, sts = world(ctx, cls, ctor, lambda s: Mon(ctx, s, "H02", what, limit or 0), limit)
        mon.early = False
        cur = step(s, mon, sts)
        if cur and not any(x.mon.get("reads") for x in cur): cur = step(s, mon, cur)
        for rnd in range(2):
            done = []
            seen = 0
            while cur and seen < 2 * depth:
                done += [x for x in cur if x.mon.get("executed")]
                cur = step(s, mon, [x for x in live(cur) if len(x.mon.get("chunks", ())) < depth])
                seen += 1
            if not done: raise CheckError("no path delivers a message on a %s connection" % what)
            if rnd == 0:
                # one state of each kind: announced or not, number of reads
                kinds = {}
                for x in done: kinds.setdefault((x.mon.get("announced"), len(x.mon["chunks"])), []).append(x)
                nxt = answer(s, mon, [x for v in kinds.values() for x in v[:2]])
                if not nxt: raise CheckError("no path leads to a second request on a %s connection" % what)
                ctx.count("second_messages", len(nxt))
                cur = step(s, mon, [new_message(x) for x in nxt])
    for n in ("deliveries", "partial_bodies", "announcements", "second_messages", "headers", "refusals"): ctx.need(n, 2)
    ctx.assume("the number of reads per message is bounded by %d; the reader's state after a read is described by the same facts for any larger number" % depth)
