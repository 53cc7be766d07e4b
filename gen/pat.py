"""Patterns as written in parser!(...): syntax trees, their source, the output
shape the documentation gives them, and a reference evaluator.

This is an implementation of the documented language of its own: it shares
nothing with the crate nor with mc/src/model.rs."""
import functools, itertools

ALPHA, DIGIT = "alpha", "digit"


class Ill(Exception):
    """Not well typed (arms of different types, more than eight values, ...)."""


class N:
    __slots__ = ("k", "a", "_h")

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def key(self):
        return (self.k,) + tuple(x.key() if isinstance(x, N) else tuple(y.key() if isinstance(y, N) else y for y in x) if isinstance(x, tuple) else x for x in self.a)


# constructors -------------------------------------------------------------
def lit(src, text): return N("lit", src, text)
def const(name, text): return N("const", name, text)
def leaf(kind): return N("leaf", kind)
def var(name, node): return N("var", name, node)          # let name = parser!(node)
def grp(e): return N("grp", e)
def alt(arms, trail=False): return N("alt", tuple(arms), trail)
def call(f, args, trail=False): return N("call", f, tuple(args), trail)
def raw(code): return N("raw", code)                      # a Rust literal as an argument, not a pattern
def q(op, t): return N("q", op, t)
def lab(name, t): return N("lab", name, t)
def seq(ts): return N("seq", tuple(ts)) if len(ts) != 1 else ts[0]
def fmap(k, e): return N("map", k, e)                     # e => m(k, labels of e)
XFN = {}


def xmap(e, code, ty, fn):
    """e => code, which means fn of the labels' values"""
    XFN[code] = fn
    return N("xmap", e, code, ty)


def ruleref(name): return N("ref", name)
def rules(rs, e): return N("rules", tuple(rs), e)         # rs: (name, type, expr)


A = lit("'a'", "a")
AB = lit('"ab"', "ab")
X = lit("'x'", "x")
YZ = lit('"yz"', "yz")
K = const("KK", "-")
C = const("CC", "+")
D = leaf(DIGIT)
L = leaf(ALPHA)


# source -------------------------------------------------------------------
def terms(e):
    return list(e.a[0]) if e.k == "seq" else [e]


def labels(e):
    return [t.a[0] for t in terms(e) if t.k == "lab"]


def src(e):
    k, a = e.k, e.a
    if k in ("lit", "const", "leaf", "var", "ref"):
        return a[0]
    if k == "grp":
        return "(" + src(a[0]) + ")"
    if k == "alt":
        return "{" + ", ".join(map(src, a[0])) + (",}" if a[1] else "}")
    if k == "raw":
        return a[0]
    if k == "call":
        return a[0].removeprefix("fn:") + "(" + ", ".join(map(src, a[1])) + (",)" if a[2] else ")")
    if k == "q":
        return src(a[1]) + a[0]
    if k == "lab":
        return a[0] + ":" + src(a[1])
    if k == "seq":
        return " ".join(map(src, a[0]))
    if k == "map":
        return src(a[1]) + f" => m({a[0]}, &[" + ", ".join("&" + l for l in labels(a[1])) + "])"
    if k == "xmap":
        return src(a[0]) + " => " + a[1]
    if k == "rules":
        return " ".join(f"rule {n}: {rust(t)} = {src(b)};" for n, t, b in a[0]) + " " + src(a[1])
    raise ValueError(k)


def need_vars(e, out):
    """Named parsers used by e, innermost first."""
    if e.k == "var":
        need_vars(e.a[1], out)
        if all(n != e.a[0] for n, _ in out):
            out.append((e.a[0], e.a[1]))
    for x in e.a:
        if isinstance(x, N):
            if e.k != "var":
                need_vars(x, out)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, N):
                    need_vars(y, out)
                elif isinstance(y, tuple) and len(y) == 3 and isinstance(y[2], N):
                    need_vars(y[2], out)
    return out


def need_fns(e):
    """Functions of the user's own with a name that has a meaning elsewhere."""
    out = {e.a[0][3:]} if e.k == "call" and e.a[0].startswith("fn:") else set()
    for x in e.a:
        for y in x if isinstance(x, tuple) else (x,):
            for z in y if isinstance(y, tuple) else (y,):
                if isinstance(z, N) and e.k != "var":
                    out |= need_fns(z)
    return out


# types --------------------------------------------------------------------
UNIT = "()"


def rust(t):
    if isinstance(t, str):
        return t
    if t[0] == "tup":
        return "(" + ", ".join(map(rust, t[1])) + ")"
    return f"{t[0]}<{rust(t[1])}>"


def user_ty(r):
    return UNIT if len(r) == 0 else r[0] if len(r) == 1 else ("tup", r)


CALLS = {"string": 1, "line": 1, "lines": 1, "section": 1, "sections": 1, "repeat_sep": 2, "vec_deque": 1, "btree_set": 1,
         "same": 1, "second": 2, "third": 3, "sixth": 6, "twelfth": 12, "nought": 0}
OWN = ("same", "second", "third", "sixth", "twelfth")


def raw_ty(e, env=None):
    """Types of the values e contributes to the surrounding concatenation."""
    env = env or {}
    k, a = e.k, e.a
    if k in ("lit", "const", "raw"):
        return ()
    if k == "leaf":
        return ("usize",) if a[0] == DIGIT else ("char",)
    if k == "var":
        if a[1].k in ("lit", "const") and a[0].startswith("text"):
            return ()                                       # let text = "..."
        return (user_ty(raw_ty(a[1], env)),)
    if k == "grp":
        return (user_ty(raw_ty(a[0], env)),)
    if k == "alt":
        if len(a[0]) == 1:
            return raw_ty(a[0][0], env)
        ts = {user_ty(raw_ty(x, env)) for x in a[0]}
        if len(ts) != 1:
            raise Ill("arms of different types")
        return (ts.pop(),)
    if k == "call":
        f = a[0]
        if f.startswith("fn:"):
            f = "second"
        if f not in CALLS or CALLS[f] != len(a[1]):
            raise Ill("call")
        if f == "nought":
            return ("usize",)
        ts = [raw_ty(x, env) for x in a[1]]
        if f == "string":
            return ("String",)
        if f in ("line", "section"):
            return (user_ty(ts[0]),)
        if f in ("lines", "sections", "repeat_sep"):
            return (("Vec", user_ty(ts[0])),)
        if f in OWN:
            return ts[-1]
        t = user_ty(ts[0])
        if t[0] != "Vec":
            raise Ill("not a list")
        return ({"vec_deque": ("VecDeque", t[1]), "btree_set": ("BTreeSet", t[1])}[f],)
    if k == "q":
        t = user_ty(raw_ty(a[1], env))
        return (("Option", t) if a[0] == "?" else ("Vec", t),)
    if k == "lab":
        return raw_ty(a[1], env)
    if k == "seq":
        r = ()
        for x in reversed(a[0]):
            r = raw_ty(x, env) + r
            if len(r) > 8:
                raise Ill("more than eight values")
        return r
    if k == "map":
        ls = labels(a[1])
        if len(set(ls)) != len(ls):
            raise Ill("label twice")
        for x in terms(a[1]):
            raw_ty(x, env)
        return ("M",)
    if k == "xmap":
        for x in terms(a[0]):
            raw_ty(x, env)
        return (a[2],)
    if k == "ref":
        return (env[a[0]],)
    if k == "rules":
        env = dict(env)
        for n, t, _ in a[0]:
            env[n] = t
        for n, t, b in a[0]:
            if user_ty(raw_ty(b, env)) != t:
                raise Ill("rule type")
        return (user_ty(raw_ty(a[1], env)),)
    raise ValueError(k)


def parser_ty(e):
    """Output type of parser!(e)."""
    return user_ty(raw_ty(e))


# meaning ------------------------------------------------------------------
def user(v):
    return "()" if len(v) == 0 else v[0] if len(v) == 1 else "(" + ",".join(v) + ")"


class Ev:
    """All ways e matches s from i: (end, values), most preferred first."""

    def __init__(self, limit=200000):
        self.steps, self.limit = 0, limit

    def run(self, e, s, i, env):
        self.steps += 1
        if self.steps > self.limit:
            raise Ill("too many steps")
        k, a = e.k, e.a
        if k in ("lit", "const"):
            if s.startswith(a[1], i):
                yield i + len(a[1]), ()
        elif k == "leaf":
            if i < len(s) and (s[i].isdigit() if a[0] == DIGIT else s[i].isalpha()):
                yield i + 1, ((str(int(s[i])),) if a[0] == DIGIT else ("'" + s[i],))
        elif k == "var":
            textual = a[1].k in ("lit", "const") and a[0].startswith("text")
            for j, v in self.run(a[1], s, i, env):
                yield j, (v if textual else (user(v),))
        elif k == "grp":
            for j, v in self.run(a[0], s, i, env):
                yield j, (user(v),)
        elif k == "alt":
            for x in a[0]:
                for j, v in self.run(x, s, i, env):
                    yield j, (v if len(a[0]) == 1 else (user(v),))
        elif k == "lab":
            yield from self.run(a[1], s, i, env)
        elif k == "seq":
            yield from self.seq(a[0], 0, s, i, env)
        elif k == "map":
            ts = terms(a[1])
            for j, vs in self.each(ts, 0, s, i, env):
                yield j, (f"m{a[0]}(" + ",".join(user(v) for t, v in zip(ts, vs) if t.k == "lab") + ")",)
        elif k == "xmap":
            ts = terms(a[0])
            for j, vs in self.each(ts, 0, s, i, env):
                yield j, (XFN[a[1]](*[user(v) for t, v in zip(ts, vs) if t.k == "lab"]),)
        elif k == "q":
            if a[0] == "?":
                for j, v in self.run(a[1], s, i, env):
                    yield j, ("S{" + user(v) + "}",)
                yield i, ("N",)
            else:
                for j, vs in self.many(a[1], None, s, i, env, None):
                    yield j, ("[" + ",".join(vs) + "]",)
                if a[0] == "*":
                    yield i, ("[]",)
        elif k == "call":
            yield from self.call(a[0], a[1], s, i, env)
        elif k == "ref":
            rs, outer = env[a[0]]
            for j, v in self.run(rs, s, i, outer[0]):
                yield j, (user(v),)
        elif k == "rules":
            box = [None]
            env2 = dict(env)
            for n, _, b in a[0]:
                env2[n] = (b, box)
            box[0] = env2
            for j, v in self.run(a[1], s, i, env2):
                yield j, (user(v),)
        else:
            raise ValueError(k)

    def seq(self, ts, n, s, i, env):
        if n == len(ts):
            yield i, ()
            return
        for j, v in self.run(ts[n], s, i, env):
            for j2, w in self.seq(ts, n + 1, s, j, env):
                yield j2, v + w

    def each(self, ts, n, s, i, env):
        if n == len(ts):
            yield i, ()
            return
        for j, v in self.run(ts[n], s, i, env):
            for j2, w in self.each(ts, n + 1, s, j, env):
                yield j2, (v,) + w

    def many(self, e, sep, s, i, env, last):
        """one or more, greedily; nothing more where the last element started"""
        if last == i:
            return
        for j, v in self.run(e, s, i, env):
            if sep is None:
                for j3, vs in self.many(e, sep, s, j, env, i):
                    yield j3, (user(v),) + vs
            else:
                for j2, _ in self.run(sep, s, j, env):
                    for j3, vs in self.many(e, sep, s, j2, env, i):
                        yield j3, (user(v),) + vs
            yield j, (user(v),)

    def region(self, f, e, s, i, env):
        """at most one (end, user value)"""
        if f == "line":
            if i > 0 and s[i - 1] != "\n" or i >= len(s):
                return
            n = s.find("\n", i)
            inner, end = (s[i:n], n + 1) if n >= 0 else (s[i:], len(s))
        else:
            if not (i == 0 or s[:i] == "\n" or s[:i].endswith("\n\n")) or i >= len(s):
                return
            n = i
            while n < len(s) and s[n] != "\n":
                m = s.find("\n", n)
                n = m + 1 if m >= 0 else len(s)
            inner, end = s[i:n], min(n + 1, len(s))
        for j, v in self.run(e, inner, 0, env):
            if j == len(inner):
                yield end, user(v)
                return

    def call(self, f, args, s, i, env):
        if f == "nought":                                     # a function without parameters that returns digit
            yield from self.run(D, s, i, env)
            return
        e = args[0]
        if f == "string":
            for j, _ in self.run(e, s, i, env):
                yield j, ("<" + s[i:j] + ">",)
        elif f in ("line", "section"):
            for j, v in self.region(f, e, s, i, env):
                yield j, (v,)
        elif f in ("lines", "sections"):
            one = N("call", f[:-1], (e,), False)
            for j, vs in self.many(one, None, s, i, env, None):
                yield j, ("[" + ",".join(vs) + "]",)
            yield i, ("[]",)
        elif f == "repeat_sep":
            for j, vs in self.many(e, args[1], s, i, env, None):
                yield j, ("[" + ",".join(vs) + "]",)
            yield i, ("[]",)
        elif f in OWN or f.startswith("fn:"):
            yield from self.run(args[-1], s, i, env)
        elif f == "vec_deque":
            for j, v in self.run(e, s, i, env):
                yield j, ("dq" + v[0],)
        elif f == "btree_set":
            # digits or letters: their printed forms sort as they do
            for j, v in self.run(e, s, i, env):
                yield j, ("bs[" + ",".join(sorted(set(x for x in v[0][1:-1].split(",") if x))) + "]",)
        else:
            raise ValueError(f)


def parse(e, s, limit=200000):
    """-> (value or None, steps)"""
    ev = Ev(limit)
    for j, v in ev.run(e, s, 0, {}):
        if j == len(s):
            return user(v), ev.steps
    return None, ev.steps


# texts --------------------------------------------------------------------
DEFS = {}


def witnesses(e, most=10):
    """Texts e was made to match, with digits and letters told apart."""
    out, seen = [], set()
    for t in _gen(e, 3):
        d, l, o = 0, 0, []
        for c in t:
            if c == "\1":
                o.append("123456789"[d % 9])
                d += 1
            elif c == "\2":
                o.append("bcdefghijk"[l % 10])
                l += 1
            else:
                o.append(c)
        t = "".join(o)
        if t not in seen:
            seen.add(t)
            out.append(t)
            if len(out) >= most:
                break
    return out


def _gen(e, depth):
    k, a = e.k, e.a
    if depth < 0:
        return
    if k in ("lit", "const"):
        yield a[1]
    elif k == "leaf":
        yield "\1" if a[0] == DIGIT else "\2"
    elif k == "var":
        yield from _gen(a[1], depth)
    elif k in ("grp",):
        yield from _gen(a[0], depth)
    elif k == "xmap":
        yield from _gen(a[0], depth)
    elif k == "lab" or k == "map":
        yield from _gen(a[1], depth)
    elif k == "alt":
        its = [_gen(x, depth) for x in a[0]]
        for row in itertools.zip_longest(*its):
            yield from (x for x in row if x is not None)
    elif k == "seq":
        # full product for short sequences; for long ones vary one at a time
        opts = [list(itertools.islice(_gen(x, depth), 4)) for x in a[0]]
        if any(not o for o in opts):
            return
        first = [o[0] for o in opts]
        yield "".join(first)
        yield "".join(o[-1] for o in opts)
        for n, o in enumerate(opts):
            for alt_ in o[1:]:
                yield "".join(first[:n] + [alt_] + first[n + 1:])
    elif k == "q":
        xs = list(itertools.islice(_gen(a[1], depth), 2))
        if not xs:
            xs = [""]
        yield xs[0]
        if a[0] == "?":
            yield ""
        else:
            yield xs[0] + xs[-1]
            if a[0] == "*":
                yield ""
    elif k == "call":
        f = a[0]
        xs = list(itertools.islice(_gen(a[1][0] if a[1] else D, depth), 3))
        if not xs:
            return
        if f in ("line",):
            yield from (x + "\n" for x in xs)
        elif f == "lines":
            yield xs[0] + "\n"
            yield xs[0] + "\n" + xs[-1] + "\n"
            yield ""
        elif f == "section":
            yield from (x + "\n" for x in xs)
        elif f == "sections":
            yield xs[0] + "\n"
            yield xs[0] + "\n\n" + xs[-1] + "\n"
            yield ""
        elif f == "repeat_sep":
            for t in itertools.islice(_gen(a[1][1], depth), 2):
                yield xs[0] + t + xs[-1] + t + xs[0]
            yield xs[0]
            yield ""
        elif f in OWN or f.startswith("fn:"):
            yield from _gen(a[1][-1], depth)
        elif f == "nought":
            yield from ("3", "7")
        else:
            yield from xs
    elif k == "ref":
        b = DEFS.get(a[0])
        if b is not None and depth > 0:
            yield from itertools.islice(_gen(b, depth - 1), 4)
    elif k == "rules":
        for n, _, b in a[0]:
            DEFS[n] = b
        yield from _gen(a[1], depth)
