"""V03: a text is taken for a date only if it is one, and then means exactly that date."""
from itertools import product
from checklib import *
from engine import Outcome
from models import rd, wr
from bytesdom import ByteEngine, ALL, CTYPE, byte, chars, compare, is_t, is_x, m_atoi, m_ctype, m_search, m_strftime, mask, mk, support, text, value

D = "iqxmlrpc::Date_time"
# field: offset in struct tm, its characters, what is added to the number, numbers that must be taken, numbers that may be taken
FIELDS = {
    "year": (20, (0, 1, 2, 3), 1900, range(1900, 10000), range(0, 10000)),
    "month": (16, (4, 5), 1, range(1, 13), range(1, 13)),
    "day": (12, (6, 7), 0, range(1, 32), range(1, 32)),
    "hour": (8, (9, 10), 0, range(0, 24), range(0, 24)),
    "minute": (4, (12, 13), 0, range(0, 60), range(0, 60)),
    "second": (0, (15, 16), 0, range(0, 60), range(0, 62)),
}
MARKS = {8: ord("T"), 11: ord(":"), 14: ord(":")}
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


class Mon(Recorder):
    def on_call(self, E, st, name, fn, args, ins):
        if name in CTYPE:
            v = m_ctype(E, st, name, args[0])
            if v is not None: return [Outcome("ret", st, v)]
        for m in (m_atoi, m_strftime):
            outs = m(E, st, name, args)
            if outs is not None: return outs
        outs = m_search(E, st, name, fn, args)
        if outs is not None: return outs
        return super().on_call(E, st, name, fn, args, ins)


class Dates:
    def __init__(self, ctx):
        self.ctx = ctx
        s = self.s = Session(ctx, Mon(), engine_class=ByteEngine)
        E = self.E = s.E
        E.loop_limit, E.const_loop_limit, E.max_depth = 40, 200, 60
        self.parse = s.fn(D + "::Date_time", nparams=1, pred=lambda f: "basic_string" in f.dem)
        self.from_fields = s.fn(D + "::Date_time", nparams=1, pred=lambda f: "tm const*" in f.dem)
        self.show = s.fn(D + "::to_string")
        self.get = s.fn(D + "::get_tm")

    def wrong(self, st, key, what):
        """a violation, if all conditions of the path are understood"""
        u = self.E.unsure(st, self.known)
        if u is not None: raise CheckError("a condition of the path is not understood: %s" % str(u)[:300])
        self.ctx.violation("V03 " + key, D, what, st.trace_list())

    def conditions(self, st):
        """conditions on several characters the path went by -> {group of characters: [condition]}"""
        groups = []
        for k, v in st.facts.items():
            if k[0] == "byte" or not support((k, v)): continue
            if k[0] != "ub" or not isinstance(k[1], tuple) or k[1][0] != "xc": raise CheckError("a condition on the characters is not understood: %s" % str(k)[:300])
            groups.append((support(k[1]), [(k[1], v)]))
        for _, cs, _, _, _ in FIELDS.values(): groups.append((set(cs), []))
        for i in MARKS: groups.append(({i}, []))
        # groups that share a character are one
        out = []
        for s, c in groups:
            for g in [g for g in out if g[0] & s]:
                out.remove(g)
                s, c = s | g[0], c + g[1]
            out.append((s, c))
        return out

    def worlds(self, st):
        """-> [(characters, their possible values)]; None if the path cannot be taken"""
        out = []
        for s, conds in self.conditions(st):
            s = sorted(s)
            dom = [self.values(st, i) for i in s]
            if not conds:
                out.append((s, dom, None)); continue
            n = 1
            for d in dom: n *= len(d)
            if n > 300000: raise CheckError("a condition on %d characters" % len(s))
            got = []
            for vs in product(*dom):
                env = dict(zip(s, vs))
                if all(compare(c[1], value(c[3], env), value(c[4], env), c[2]) == v for c, v in conds): got.append(env)
            if not got: return None
            out.append((s, dom, got))
        return out

    def values(self, st, i):
        return [v for v in range(256) if self.E.choices(st, i) >> v & 1]


def of(world, i):
    """whether and with what a group speaks of a character"""
    return i in world[0]


def each(world, ids, only=None):
    """the possible values of some characters of one group"""
    s, dom, got = world
    if got is None: return product(*[[v for v in dom[s.index(i)] if only is None or only(v)] for i in ids])
    return sorted({tuple(e[i] for i in ids) for e in got})


def number(cs):
    return sum((c - 48) * 10 ** k for k, c in enumerate(reversed(cs)))


def digits(cs):
    return all(48 <= c <= 57 for c in cs)


def written(cs):
    return "".join(chr(c) if 32 < c < 127 else "?" for c in cs)


def accepted(d, st, this, ws):
    """a text that was taken: all texts of the path are dates, the fields are theirs, and the text comes back"""
    ctx, E = d.ctx, d.E
    for i, m in MARKS.items():
        w = next(w for w in ws if of(w, i))
        bad = [v for (v,) in each(w, (i,)) if v != m]
        if bad:
            d.wrong(st, "mark", "a date whose character %d is %r instead of %r is accepted" % (i, written(bad[:1]), chr(m))); return
    fields = []
    for name, (off, ids, add, must, may) in FIELDS.items():
        w = next(w for w in ws if of(w, ids[0]))
        odd = next((cs for cs in ([(v,) for i in ids for v in w[1][w[0].index(i)]] if w[2] is None else each(w, ids)) if not digits(cs)), None)
        if odd: d.wrong(st, "digits", "a date with %r in its %s is accepted" % (written(odd), name)); return
        for cs in each(w, ids):
            if number(cs) not in may: d.wrong(st, "range", "a date with the %s %r is accepted" % (name, written(cs))); return
        ctx.count("fields_in_range")
        fields.append((name, off, ids, add, w))
    for k, p, y in d.s.run(d.get, [this], st):
        if k != "ret": raise CheckError("the fields of a date cannot be read")
        for name, off, ids, add, w in fields:
            q = E.norm_ptr(p)
            v = E.load(y, ("P", q[0], q[1] + off), 4)
            if not (isinstance(v, int) or is_x(v) or is_t(v)): raise CheckError("the %s of a date is not known: %s" % (name, str(v)[:200]))
            if not support(v) <= set(ids):
                d.wrong(y, "field", "the %s of a date depends on other characters than its own" % name); return
            for cs in each(w, ids):
                if value(v, dict(zip(ids, cs))) + add != number(cs):
                    d.wrong(y, "field", "a date with the %s %r gets %d" % (name, written(cs), value(v, dict(zip(ids, cs))) + add)); return
            ctx.count("fields_compared")
    for turn in (1, 2):
        ends = d.s.run(d.show, [this], st)
        for k, p, y in ends:
            if k != "ret": d.wrong(y, "text", "an accepted date cannot be turned into text"); return
            if E.toosmall: ctx.violation("V03 text", E.toosmall, "the text of a date does not fit into its buffer", y.trace_list()); return
            cs = chars(rd(E, y, p))
            if cs is None: raise CheckError("the text of a date is not known: %s" % str(rd(E, y, p))[:300])
            if len(cs) != 17: d.wrong(y, "text", "the text of a date has %d characters" % len(cs)); return
            for i, c in enumerate(cs):
                ids = next((x for _, x, _, _, _ in FIELDS.values() if i in x), (i,))
                w = next(w for w in ws if of(w, i))
                if not support(c) <= set(ids): d.wrong(y, "text", "character %d of the text of a date is another than the one it was made of" % i); return
                for vs in each(w, ids):
                    if value(c, dict(zip(ids, vs))) != vs[ids.index(i)]:
                        d.wrong(y, "text", "character %d of the text of a date is another than the one it was made of (%s)" % (i, written(vs))); return
                ctx.count("characters_compared")
        st = ends[0][2] if len(ends) == 1 else st


def refused(d, st, ws):
    """a text that was refused: none of the texts of the path is a date that must be accepted"""
    ok = {}
    for i, m in MARKS.items():
        if not any(v == m for (v,) in each(next(w for w in ws if of(w, i)), (i,))): return True
    for name, (off, ids, add, must, may) in FIELDS.items():
        w = next(w for w in ws if of(w, ids[0]))
        ok[name] = {number(cs) for cs in each(w, ids, CTYPE["isdigit"]) if digits(cs) and number(cs) in must}
        if not ok[name]: return True
    pair = [(m, x) for m in sorted(ok["month"]) for x in sorted(ok["day"]) if x <= DAYS[m - 1]]
    if not pair: return True
    d.wrong(st, "refused", "a date is refused: %04d%02d%02dT%02d:%02d:%02d" % ((min(ok["year"]),) + pair[0] + tuple(min(ok[x]) for x in ("hour", "minute", "second"))))
    return False


def made(d, n):
    """a text of n unknown characters as a date -> [(whether it was taken, object, state)]"""
    s, E = d.s, d.E
    st = s.blank(); st.frames = []
    p, this = s.sym("text"), s.sym("date")
    for x in (p, this): E.assume(st, as_bool(x), True)
    wr(E, st, p, text([byte(i) for i in range(n)]))
    d.known = set(st.facts)
    out = []
    for k, v, x in s.run(d.parse, [this, p], st):
        if k == "ret": out.append((True, this, x))
        elif k == "throw": out.append((False, this, x))
    if not out: raise CheckError("a text of %d characters: no end" % n)
    return out


def from_fields(d):
    """a date made of given fields keeps them and is written as them"""
    ctx, s, E = d.ctx, d.s, d.E
    st = s.blank(); st.frames = []
    p, this = s.sym("fields"), s.sym("date")
    for x in (p, this): E.assume(st, as_bool(x), True)
    q, given = E.norm_ptr(p), {}
    for k, (name, (off, ids, add, must, may)) in enumerate(FIELDS.items()):
        st.facts[("byte", k)] = mask(lambda v: v + add in may)
        given[name] = st.mem[(q[0], q[1] + off)] = mk(list(byte(k)[2]) + [0] * 24)
    d.known = set(st.facts)
    for k, v, x in s.run(d.from_fields, [this, p], st):
        if k != "ret": d.wrong(x, "made", "a date cannot be made of its fields"); continue
        for turn in (1, 2):
            for k2, r, y in s.run(d.get, [this], x):
                for name, (off, ids, add, must, may) in FIELDS.items():
                    g = E.norm_ptr(r)
                    v = E.load(y, ("P", g[0], g[1] + off), 4)
                    E.now = y
                    if E.norm(v) != E.norm(given[name]): d.wrong(y, "made", "the %s of a date made of fields is another than the one given" % name); return
                    ctx.count("fields_kept")
            ends = s.run(d.show, [this], x)
            for k2, r, y in ends:
                if E.toosmall: ctx.violation("V03 text", E.toosmall, "the text of a date does not fit into its buffer", y.trace_list()); return
                if k2 != "ret": d.wrong(y, "text", "a date cannot be turned into text"); return
                cs = chars(rd(E, y, r))
                if cs is None: raise CheckError("the text of a date is not known: %s" % str(rd(E, y, r))[:300])
                if len(cs) != 17: d.wrong(y, "text", "the text of a date has %d characters" % len(cs)); return
                for i, c in enumerate(cs):
                    n, f = next(((n, f) for n, f in enumerate(FIELDS.values()) if i in f[1]), (None, None))
                    if f is None:
                        if c != MARKS[i]: d.wrong(y, "text", "character %d of the text of a date is not %r" % (i, chr(MARKS[i]))); return
                        continue
                    if not support(c) <= {n}: d.wrong(y, "text", "character %d of the text of a date is not of its field" % i); return
                    for v in d.values(y, n):
                        want = ord(("%0*d" % (len(f[1]), v + f[2]))[f[1].index(i)])
                        if value(c, {n: v}) != want: d.wrong(y, "text", "character %d of the text of a date is wrong for the number %d" % (i, v + f[2])); return
                    ctx.count("characters_written")
            x = ends[-1][2]


def run(ctx):
    ctx.rule("every text of 17 unknown characters is walked through the constructor: all texts of an accepting path have the form YYYYMMDDThh:mm:ss with fields in range, no text of a refusing path is such a date from the year 1900 on")
    ctx.rule("the fields of an accepted date are the numbers written in the text, and its text, asked for twice, is the one it was made of")
    ctx.rule("a date made of fields with unknown numbers in range keeps them, and its text is written as them")
    ctx.rule("no text of another length is accepted")
    ctx.assume("dates before 1900, leap seconds and days a month does not have may be accepted or refused")
    d = Dates(ctx)
    for taken, this, st in made(d, 17):
        ws = d.worlds(st)
        if ws is None: ctx.count("impossible_paths"); continue
        if taken:
            ctx.count("accepting_paths")
            accepted(d, st, this, ws)
        else:
            ctx.count("refusing_paths")
            refused(d, st, ws)
    for n in (0, 1, 8, 14, 16, 18, 20):
        for taken, this, st in made(d, n):
            ctx.count("other_lengths")
            if taken: d.wrong(st, "length", "a text of %d characters is accepted as a date" % n)
    from_fields(d)
    ctx.need("characters_written", 14)
    ctx.need("accepting_paths", 1)
    ctx.need("refusing_paths", 20)
    ctx.need("characters_compared", 17)
