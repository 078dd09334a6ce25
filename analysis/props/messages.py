"""Layout of the texts of HTTP messages the library sends."""
from checklib import *
from models import SC, SO, CAT, cat, slen, EMPTY


class Layout(Exception):
    """the text is no message"""


def parts(t): return list(t[1]) if t[0] == CAT else [t]


def tokens(t):
    """bytes and opaque pieces, in order"""
    out = []
    for p in parts(t):
        if p[0] == SC: out += [p[1][i:i + 1] for i in range(len(p[1]))]
        else: out.append(p)
    return out


def join(ts):
    r = EMPTY
    for x in ts: r = cat(r, (SC, x) if isinstance(x, bytes) else x)
    return r


def find(ts, what, start=0):
    n = len(what)
    want = [what[i:i + 1] for i in range(n)]
    for i in range(start, len(ts) - n + 1):
        if ts[i:i + n] == want: return i
    return None


def message(t):
    """-> start line, [(name, value)], body; opaque pieces of the head are taken to hold no line ends"""
    ts = tokens(t)
    if not ts: raise Layout("is empty")
    i = find(ts, b"\r\n\r\n")
    if i is None: raise Layout("has no empty line that ends its header")
    head, body = ts[:i], ts[i + 4:]
    lines, cur = [], 0
    while True:
        j = find(head, b"\r\n", cur)
        lines.append(head[cur:j])
        if j is None: break
        cur = j + 2
    for l in lines:
        if b"\n" in l or b"\r" in l: raise Layout("has a line end that is not CR LF in its header")
        if not l: raise Layout("has an empty line before the end of its header")
    opts = []
    for l in lines[1:]:
        if b":" not in l: raise Layout("has a header line without a colon: %s" % show(join(l)))
        k = l.index(b":")
        name, val = l[:k], l[k + 1:]
        while val and val[0] in (b" ", b"\t"): val = val[1:]
        n = join(name)
        opts.append((n[1].lower() if n[0] == SC else n, join(val)))
    return join(lines[0]), opts, join(body)


def show(t):
    def one(p):
        if p[0] == SC: return p[1].decode("latin-1")
        if p[1][:1] == ("base64",): return "<base64 of %s>" % show(p[1][1])
        return "<%s>" % (p[1][0] if isinstance(p[1], tuple) else p[1],)
    return "".join(one(p) for p in parts(t))


def is_number(t, v):
    """whether the text is the decimal notation of v"""
    if isinstance(v, int): return t == (SC, str(v).encode())
    return t[0] == SO and isinstance(t[1], tuple) and t[1][0] == "lex" and t[1][1] == v


def check(t, body):
    """what is wrong with the text of a message that is to carry the body, or None; -> (problem, layout)"""
    try: line, opts, got = message(t)
    except Layout as e: return "the message %s" % e, None
    lens = [v for n, v in opts if n == b"content-length"]
    if got != body: return "what follows the header is %s instead of the body" % (show(got) or "nothing"), (line, opts, got)
    if len(lens) != 1: return "the message declares its length %d times" % len(lens), (line, opts, got)
    if not is_number(lens[0], slen(body)): return "the declared length %s is not the length of the body" % show(lens[0]), (line, opts, got)
    return None, (line, opts, got)
