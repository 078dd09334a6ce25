"""B01: binary data is encoded and decoded exactly as base64."""
from itertools import product
from checklib import *
from engine import Budget, Outcome
from models import rd, wr
from bytesdom import ByteEngine, ALL, CTYPE, byte, bits_of, chars, is_t, is_x, mask, mk, m_ctype, m_search, support, text, value

B = "iqxmlrpc::Binary_data"
ALPHABET = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
LETTERS = mask(lambda c: c in ALPHABET)
PAD = 1 << ord("=")
WHITE = mask(CTYPE["isspace"])
INDEX = [mask(lambda c, k=k: c in ALPHABET and ALPHABET.index(c) >> k & 1) for k in range(6)]


class Mon(Recorder):
    def on_call(self, E, st, name, fn, args, ins):
        if name in CTYPE:
            v = m_ctype(E, st, name, args[0])
            if v is not None: return [Outcome("ret", st, v)]
        outs = m_search(E, st, name, fn, args)
        if outs is not None: return outs
        return super().on_call(E, st, name, fn, args, ins)


class Coder:
    def __init__(self, ctx):
        self.ctx = ctx
        self.mon = Mon()
        s = self.s = Session(ctx, self.mon, engine_class=ByteEngine)
        E = self.E = s.E
        E.loop_limit, E.const_loop_limit, E.max_depth = 40, 300, 60
        E.outside = self.outside
        self.what = ""
        one = lambda n: s.fn(B + "::" + n, nparams=1, pred=lambda f: "basic_string" in f.dem)
        self.from_data, self.from_base64 = one("from_data"), one("from_base64")
        self.from_memory = s.fn(B + "::from_data", nparams=2)
        self.get_data, self.get_base64 = s.fn(B + "::get_data"), s.fn(B + "::get_base64")

    def outside(self, E, st, name):
        self.ctx.violation("B01 table", E.cur_loc(st), "%s: a table of characters is read outside of its bounds" % self.what, st.trace_list())

    def through(self, make, get, t, sets=(), memory=False):
        """a text through both functions -> [(characters or None for an error, state)]"""
        s, E = self.s, self.E
        st = s.blank(); st.frames = []
        p = s.sym("text")
        E.assume(st, as_bool(p), True)
        args = [p]
        if memory:
            q = E.norm_ptr(p)
            for i, b in enumerate(t): st.mem[(q[0], q[1] + i)] = b
            args.append(len(t))
        else: wr(E, st, p, t)
        for i, m in enumerate(sets): st.facts[("byte", i)] = m
        self.known = set(st.facts)
        out = []
        for k, v, x in s.run(make, args, st):
            if k == "throw": out.append((None, x)); continue
            if k != "ret": continue
            if v == 0 or v == U: raise CheckError("%s: no object is made" % make.dem)
            for k2, v2, y in s.run(get, [v], x):
                if k2 == "throw": out.append((None, y)); continue
                if k2 != "ret": continue
                r = self.read(y, v2)
                out.append((r, y))
                # a second look gives the same
                for k3, v3, z in s.run(get, [v], y):
                    if k3 != "ret" or self.read(z, v3) != self.read(z, ("T", r)):
                        self.ctx.violation("B01 again", B, "%s: asking for the result a second time gives something else" % self.what, z.trace_list())
        if not out: raise CheckError("%s: no end" % self.what)
        return out

    def read(self, st, v):
        E = self.E
        r = v[1] if v[:1] == ("T",) else chars(rd(E, st, v))
        if r is None and cut(rd(E, st, v)): r = []; self.ctx.violation("B01 zero", B, "%s: data is cut at its first zero byte" % self.what, st.trace_list())
        if r is None: raise CheckError("%s: the resulting text is not known character by character: %s" % (self.what, str(rd(E, st, v))[:300]))
        E.now = st
        return [E.norm(c) for c in r]

    def sure(self, st):
        """what is found is only a verdict if the paths are told apart exactly"""
        u = self.E.unsure(st, self.known)
        if u is not None: raise CheckError("%s: a condition of the path is not understood: %s" % (self.what, str(u)[:300]))
        if self.E.vague is not None: raise CheckError("%s: a condition on the characters is not understood: %s" % (self.what, str(self.E.vague)[:300]))

    def differs(self, st, got, want):
        """whether a character can differ from the expected function of the bytes; want: (bytes, function)"""
        E = self.E
        got, ids, fn = got, want[0], want[1]
        s = sorted(support(got) | set(ids))
        dom = [[v for v in range(256) if E.choices(st, i) >> v & 1] for i in s]
        n = 1
        for d in dom: n *= len(d)
        if n > 70000: raise CheckError("%s: a character depends on %d bytes" % (self.what, len(s)))
        pos = [s.index(i) for i in ids]
        for vs in product(*dom):
            if (value(got, dict(zip(s, vs))) - fn(*[vs[k] for k in pos])) & 255: return dict(zip(s, vs))
        return None


def keeping(c, n):
    """data given as text or as memory is kept byte by byte"""
    want = [((i,), lambda a: a) for i in range(n)]
    for memory in (False, True):
        c.what = "%d bytes of data%s" % (n, " in memory" if memory else "")
        bs = [byte(i) for i in range(n)]
        for got, st in c.through(c.from_memory if memory else c.from_data, c.get_data, bs if memory else text(bs), memory=memory):
            if got is None: c.ctx.violation("B01 keep", B, "%s are refused" % c.what, st.trace_list()); continue
            judge(c, st, got, want, "keep", "data")
            c.ctx.count("data_kept")


def cut(t):
    """whether a text was read up to a zero"""
    return isinstance(t, tuple) and (t[:1] in (("cstrof",), ("chars",)) or any(cut(x) for x in t))


def opaque(v):
    return not (isinstance(v, int) or is_x(v) or is_t(v))


def encoding(c, n):
    ctx = c.ctx
    c.what = "encoding %d bytes" % n
    ends = c.through(c.from_data, c.get_base64, text([byte(i) for i in range(n)]))
    for got, st in ends:
        if got is None:
            ctx.violation("B01 encode error", B, "%s: encoding can fail" % c.what, st.trace_list()); continue
        ctx.count("encodings")
        want = []
        for g in range(0, n, 3):
            k = min(3, n - g)
            want.append(((g,), lambda a: ALPHABET[a >> 2]))
            if k == 1: want += [((g,), lambda a: ALPHABET[(a & 3) << 4]), ((), lambda: 61), ((), lambda: 61)]
            else:
                want.append(((g, g + 1), lambda a, b: ALPHABET[(a & 3) << 4 | b >> 4]))
                if k == 2: want += [((g + 1,), lambda a: ALPHABET[(a & 15) << 2]), ((), lambda: 61)]
                else: want += [((g + 1, g + 2), lambda a, b: ALPHABET[(a & 15) << 2 | b >> 6]), ((g + 2,), lambda a: ALPHABET[a & 63])]
        judge(c, st, got, want, "encode", "encoded text")


def judge(c, st, got, want, key, name):
    ctx = c.ctx
    if len(got) != len(want):
        ctx.violation("B01 %s length" % key, B, "%s: the %s has %d characters instead of %d" % (c.what, name, len(got), len(want)), st.trace_list()); return
    for j, (g, w) in enumerate(zip(got, want)):
        if opaque(g): raise CheckError("%s: character %d of the %s is not known: %s" % (c.what, j, name, str(g)[:200]))
        ctx.count("characters_compared")
        d = c.differs(st, g, w)
        if d is not None:
            ctx.violation("B01 %s character" % key, B, "%s: character %d of the %s is wrong, for example for %s" % (c.what, j, name, ", ".join("byte %d = %d" % kv for kv in sorted(d.items()))), st.trace_list())
            return


def index(ch): return ALPHABET.index(ch)


def decoding(c, what, t, sets, n):
    """all texts of n characters with the given possible values"""
    ctx, E = c.ctx, c.E
    c.what = what
    for got, st in c.through(c.from_base64, c.get_data, t, sets):
        ctx.count("decodings")
        # the classes each character of this path belongs to
        S = [E.choices(st, i) for i in range(n)]
        cls = []
        for m in S:
            k = [x for x, s in (("letter", LETTERS), ("pad", PAD), ("white", WHITE)) if m & s]
            if m & ~(LETTERS | PAD | WHITE): k.append("other")
            cls.append(k)
        ctx.count("text_classes")
        for combo in product(*cls):
            want = verdict(combo)
            if want == "any": continue
            shown = " ".join(combo)
            if want is None:
                if got is not None: c.sure(st); ctx.violation("B01 accepted", B, "%s: a text that is not base64 is accepted (%s)" % (what, shown), st.trace_list())
                else: ctx.count("refusals")
                continue
            if got is None:
                c.sure(st)
                ctx.violation("B01 refused", B, "%s: a text that is base64 is refused (%s)" % (what, shown), st.trace_list()); continue
            y = st.fork()
            for i, k in enumerate(combo): y.facts[("byte", i)] = S[i] & {"letter": LETTERS, "pad": PAD, "white": WHITE, "other": ALL}[k]
            judge(c, y, got, want, "decode", "decoded data")
            ctx.count("acceptances")


def verdict(combo):
    """expected data for a text of characters of the given classes; None: to be refused"""
    seq = [(i, k) for i, k in enumerate(combo) if k != "white"]
    if any(k == "other" for _, k in seq) or len(seq) % 4: return None
    want = []
    for g in range(0, len(seq), 4):
        q = seq[g:g + 4]
        ks = [k for _, k in q]
        a, b, cc, d = [i for i, _ in q]
        if ks[:2] != ["letter", "letter"] or ks[2:] == ["pad", "letter"]: return None
        if g + 4 < len(seq) and "pad" in ks: return "any"
        want.append(((a, b), lambda x, y: (index(x) << 2 | index(y) >> 4) & 255))
        if ks[2] == "letter": want.append(((b, cc), lambda x, y: (index(x) << 4 | index(y) >> 2) & 255))
        if ks[3] == "letter": want.append(((cc, d), lambda x, y: (index(x) << 6 | index(y)) & 255))
    return want


def texts(c):
    """texts of unknown characters; where that gives too many paths, one unknown character at a time"""
    ctx, E = c.ctx, c.E
    go = lambda what, sets: decoding(c, what, text([byte(i) for i in range(len(sets))]), sets, len(sets))
    name = "a text of %d characters"
    for n in range(3): go(name % n, [ALL] * n)
    upper, few = mask(lambda v: 65 <= v <= 90), mask(lambda v: v in b"qV")
    try:
        E.max_steps = E.steps + 400_000
        for n in (3, 4): go(name % n, [ALL] * n)
        go("a text of 8 letters", [upper] * 8)
        go("letters and white space", [upper | WHITE] * 6)
    except Budget:
        E.max_steps = 400_000_000
        ctx.assume("texts of 3 and 4 characters were walked with one unknown character at a time, the others being one of four")
        some = few | PAD | 1 << ord("*")
        for n in (3, 4):
            for k in range(n): go(name % n, [ALL if i == k else some for i in range(n)])
        go("a text of 8 letters", [few] * 8)
        go("letters and white space", [few | 1 << 9] * 6)
    E.max_steps = 400_000_000


def run(ctx):
    ctx.rule("data of 0 to 7 unknown bytes is walked through the encoder: the text has exactly the characters of RFC 4648, each compared for all values of the bytes it depends on")
    ctx.rule("every text of up to 4 unknown characters, of 8 letters and of letters mixed with white space is walked through the decoder: base64 gives exactly its data, anything else is refused")
    ctx.rule("no table is read outside of its bounds")
    ctx.assume("what follows a padded group of four is outside this property")
    c = Coder(ctx)
    for n in range(8): encoding(c, n)
    for n in (0, 1, 4): keeping(c, n)
    ctx.need("data_kept", 6)
    ctx.need("encodings", 8)
    texts(c)
    ctx.need("acceptances", 3)
    ctx.need("characters_compared", 60)
    ctx.need("refusals", 20)
