"""Bounded exhaustive families of patterns for P18 and P19.
Each family: (name, bounds, list of (pattern, texts or None for witnesses))."""
import itertools
from pat import *


def well_typed(e):
    try:
        parser_ty(e)
        return True
    except Ill:
        return False


def strings(chars, n):
    out = [""]
    layer = [""]
    for _ in range(n):
        layer = [s + c for s in layer for c in chars]
        out += layer
    return out


# P18: shapes ----------------------------------------------------------------
P0 = var("p0", X)                       # let p0 = parser!('x'): one value, ()
P1 = var("p1", D)
P2 = var("p2", seq([D, L]))
PP = var("pp", var("p2", seq([D, L])))  # let pp = parser!(p2)
T0 = var("text0", lit('"yz"', "yz"))    # let text0 = "yz": no value
T1 = var("text1", lit("'x'", "x"))


def pieces():
    dl = seq([D, L])
    return [X, YZ, K, C, T0, T1, D, L,
            grp(D), grp(X), grp(dl), grp(seq([D, X, L])), grp(grp(dl)), grp(seq([grp(dl), D])),
            alt([D, seq([X, D])]), alt([X, YZ]), alt([dl, seq([X, D, L])], True), alt([grp(X), X]),
            q("*", D), q("+", X), q("*", grp(dl)), q("?", D), q("?", X), q("?", grp(dl)), q("?", grp(q("+", D))),
            call("string", [dl]), call("string", [X]), call("repeat_sep", [D, X]), call("repeat_sep", [dl, YZ]),
            call("vec_deque", [q("*", D)]), call("same", [D]),
            P0, P1, P2, PP, grp(T0), grp(K), q("?", grp(T1)), alt([grp(T0), P0]), grp(P2),
            grp(fmap(1, seq([lab("a", D), X]))), alt([fmap(1, X), fmap(2, D)])]


def few():
    dl = seq([D, L])
    return [X, D, grp(dl), grp(X), alt([dl, seq([X, D, L])]), q("*", grp(dl)), q("?", D), q("?", X), call("string", [dl]), P0, P1, P2]


def nestings(k):
    """All ways to bracket k leaves in a row, as nested lists (no bracket around a single leaf or the whole)."""
    if k == 1:
        return [[0]]
    out = []
    for parts in compositions(k):
        if len(parts) == 1:
            continue
        opts = [[0] if p == 1 else [("g", x) for x in nestings(p)] for p in parts]
        for row in itertools.product(*opts):
            out.append(list(row))
    return out


def compositions(k):
    if k == 0:
        yield []
        return
    for first in range(1, k + 1):
        for rest in compositions(k - first):
            yield [first] + rest


def fill(shape, leaves):
    out = []
    for x in shape:
        out.append(leaves.pop(0) if x == 0 else grp(seq(fill(x[1], leaves))))
    return out


def p18(tier):
    t, tt = True, tier == "thorough"
    fams = []
    ps = pieces()
    two = [seq(list(c)) for n in (1, 2) for c in itertools.product(ps, repeat=n)]
    fams.append(("pairs of pieces", f"every sequence of 1 or 2 of {len(ps)} pieces of every kind", two))
    f = few() + ([T0, grp(D), alt([X, YZ]), PP, C] if t else [])
    fams.append(("triples of pieces", f"every sequence of 3 of {len(f)} kinds of pieces", [seq(list(c)) for c in itertools.product(f, repeat=3)]))
    if tt:
        fams.append(("triples of all pieces", f"every sequence of 3 of {len(ps)} pieces", [seq(list(c)) for c in itertools.product(ps, repeat=3)]))
    four = [X, D, grp(seq([D, L])), q("?", D), P2] + ([grp(X), call("string", [seq([D, L])])] if t else [])
    fams.append(("four pieces", f"every sequence of 4 of {len(four)} kinds", [seq(list(c)) for c in itertools.product(four, repeat=4)]))
    # up to eight values, with literals anywhere
    out = []
    for n in range(5, 9):
        for c in itertools.product([X, D], repeat=n):
            if n < 8 or t or list(c).count(X) in (0, 1, 2, 7, 8):
                out.append(seq(list(c)))
    for n in (9, 10, 11, 12) if t else (9, 10):
        for c in itertools.combinations(range(n), 8):
            out.append(seq([D if i in c else X for i in range(n)]))
    for n in range(5, 9):
        out.append(seq([D if i % 2 else L for i in range(n)]))
        for i in range(n):
            out.append(seq([grp(seq([D, L])) if j == i else D for j in range(n)]))
            out.append(seq([q("*", L) if j == i else D for j in range(n)]))
    fams.append(("up to eight values", "every sequence of 5 to 8 pieces 'x' or digit; 8 digits with literals at every place; one group or list at every place", out))
    out = []
    V = call("string", [D])         # a value that may stand directly before a group
    for k in range(2, 8 if tt else 7):
        for sh in nestings(k):
            for c in itertools.product([V, X] if k < (6 if t else 5) else [V], repeat=k):
                out.append(seq(fill(sh, list(c))))
                if k == 3:
                    out.append(grp(seq(fill(sh, list(c)))))
    fams.append(("groups", f"every nesting of groups over 2 to {7 if tt else 6} leaves (value or literal at each, up to {5 if t else 4})", out))
    # each shape in each context
    bodies = [seq(list(c)) for n in (1, 2) for c in itertools.product([X, D, grp(seq([D, L])), P2, grp(X), q("?", D), P0], repeat=n)]
    bodies += [seq([D] * n) for n in range(3, 9)]
    bodies += [seq([X, D, X]), seq([D, X, L])]
    out = []
    for b in bodies:
        g = grp(b)
        ctx = [q("*", g), q("+", g), q("?", g), alt([b, seq([X, X, b])]), alt([b, b, seq([X, b])]), call("string", [b]), call("line", [b]), call("lines", [b]),
               call("section", [call("line", [b])]), call("sections", [call("lines", [b])]), call("repeat_sep", [b, X]), call("repeat_sep", [D, b]),
               call("vec_deque", [q("*", g)]), var("v", b), call("second", [X, var("v", b)]),
               call("same", [b]), grp(call("same", [b])), grp(call("string", [b])), grp(grp(call("same", [b]))), q("?", call("same", [b])), q("*", grp(call("same", [seq([b, L])]))),
               alt([call("same", [b]), seq([X, X, call("same", [b])])]), grp(fmap(1, lab("w", call("same", [b])))), call("same", [g]), grp(call("same", [g])),
               grp(fmap(1, lab("w", g))), alt([fmap(1, lab("w", g)), fmap(2, seq([X, lab("w", g), lab("z", X)]))]),
               rules([("r", user_ty(raw_ty(b)), b)], ruleref("r")), rules([("r", user_ty(raw_ty(b)), b)], seq([ruleref("r"), X, ruleref("r")])),
               rules([("r", ("Vec", user_ty(raw_ty(b))), q("*", ruleref("w"))), ("w", user_ty(raw_ty(b)), b)], ruleref("r"))]
        for c in ctx:
            out.append(c)
            if c.k not in ("rules",):
                out.append(seq([D, c, D]) if c.k != "call" or c.a[0] not in ("line", "lines", "section", "sections") else seq([c, D]))
                out.append(seq([c, c]))
    fams.append(("shapes in contexts", f"{len(bodies)} output shapes in 30 contexts (quantifiers, arms, calls, let, labels, rules), alone, between pieces and twice", out))
    fams.append(("long sequences", "sequences of 9 to 40 pieces of which 0 to 8 have a value: the first ones, the last ones, or spread out; with and without => and labels on all or some", long_seqs(tt)))
    return [(n, b, [(e, None) for e in es if well_typed(e) and not callish(e)], {}) for n, b, es in fams]


def long_seqs(t):
    out = []
    kinds = [D, L, q("?", D), call("string", [D]), grp(seq([D, X])), q("*", YZ), alt([seq([D, X]), D]), P2]
    marks = [X, YZ, K, C, lit("'-'", "-"), lit('""', "")]
    for n in list(range(9, 25)) + [30, 32, 33, 40] if t else [9, 10, 11, 12, 13, 15, 16, 17, 20, 32, 33, 40]:
        fill = [marks[i % len(marks)] for i in range(n)]
        for k in range(9) if t else (0, 1, 3, 8):
            for places in {tuple(range(k)), tuple(range(n - k, n)), tuple(i * n // max(k, 1) for i in range(k)), tuple(sorted(i * 7 % n for i in range(k)))}:
                ts = list(fill)
                for j, i in enumerate(sorted(set(places))):
                    ts[i] = kinds[j]
                out.append(seq(ts))
                if k in (1, 3, 8):
                    out.append(fmap(1, seq([lab(f"l{i}", x) if i in places else x for i, x in enumerate(ts)])))
        # all labelled, more values than a tuple may have
        out.append(fmap(1, seq([lab(f"l{i}", [D, L, q("?", D), X][i % 4]) for i in range(n)])))
    return out


# P19: syntax ----------------------------------------------------------------
class Sents:
    """Every sentence of the documented grammar with n tokens (a pair of
    delimiters is one token, as is a call's name with its delimiters, `label:`,
    and `=> expression`)."""

    def __init__(self, leaves, calls=("string",), rep=True):
        self.leaves, self.calls, self.rep = leaves, calls, rep
        self.memo = {}

    def prim(self, n):
        k = ("prim", n)
        if k in self.memo:
            return self.memo[k]
        out = list(self.leaves) if n == 1 else []
        if n >= 2:
            for e in self.expr(n - 1):
                out.append(grp(e))
                for c in self.calls:
                    out.append(call(c, [e]))
            out += [alt(arms, tr) for arms, tr in self.lists(n - 1)]
        if self.rep and n >= 4:
            for i in range(1, n - 2):
                for a in self.expr(i):
                    for b in self.expr(n - 2 - i):
                        out.append(call("repeat_sep", [a, b]))
        self.memo[k] = out
        return out

    def lists(self, n):
        """arms, with the commas counted"""
        k = ("lists", n)
        if k in self.memo:
            return self.memo[k]
        out = [((e,), False) for e in self.expr(n)]
        if n >= 2:
            out += [((e,), True) for e in self.expr(n - 1)]
        for i in range(1, n - 1):
            for e in self.expr(i):
                for es, tr in self.lists(n - 1 - i):
                    out.append(((e,) + es, tr))
        self.memo[k] = out
        return out

    def term(self, n):
        k = ("term", n)
        if k in self.memo:
            return self.memo[k]
        out = list(self.prim(n))
        if n >= 2:
            for t in self.term(n - 1):
                for op in "*+?":
                    if not (op == "?" and t.k == "q" and t.a[0] in "*+"):
                        out.append(q(op, t))
        self.memo[k] = out
        return out

    def lterm(self, n):
        return self.term(n) + ([lab("l", t) for t in self.term(n - 1)] if n >= 2 else [])

    def seqs(self, n):
        k = ("seqs", n)
        if k in self.memo:
            return self.memo[k]
        out = [(t,) for t in self.lterm(n)]
        for i in range(1, n):
            for t in self.lterm(i):
                for r in self.seqs(n - i):
                    # `name (` is a call
                    if ends_in_name(t) and starts_with_paren(r[0]):
                        continue
                    out.append((t,) + r)
        self.memo[k] = out
        return out

    def expr(self, n):
        k = ("expr", n)
        if k in self.memo:
            return self.memo[k]
        out = [seq(ts) for ts in self.seqs(n)]
        if n >= 2:
            out += [fmap(1, seq(ts)) for ts in self.seqs(n - 1)]
        self.memo[k] = out
        return out


def ends_in_name(t):
    if t.k == "lab":
        t = t.a[1]
    return t.k in ("leaf", "const", "var", "ref")


def starts_with_paren(t):
    while t.k in ("q",):
        t = t.a[1]
    return t.k == "grp"


def relabel(e):
    """Give the labels of each expression different names, conversions different numbers."""
    n = [0, 0]

    def go(e):
        if e.k == "lab":
            n[0] += 1
            return lab("abcdefgh"[n[0] % 8] + str(n[0]), go(e.a[1]))
        if e.k == "map":
            n[1] += 1
            return fmap(n[1], go(e.a[1]))
        return N(e.k, *[go(x) if isinstance(x, N) and e.k != "var" else tuple(go(y) if isinstance(y, N) else y for y in x) if isinstance(x, tuple) else x for x in e.a])
    return go(e)


def p19(tier):
    t = tier == "thorough"
    fams = []
    tx = strings("a1", 4)
    s1 = Sents([A, D])
    fams.append(("all short sentences", f"every sentence of <= {6 if t else 5} tokens over 'a' digit * + ? ( ) {{ , }} label: => string( ) repeat_sep( , ); all texts over {{a,1}} of length <= 4",
                 [relabel(e) for n in range(1, (7 if t else 6)) for e in s1.expr(n)], tx))
    s2 = Sents([A, K, D, P2, T1, lit('"a1"', "a1")], calls=("string", "same"))
    s2b = Sents([D, P2, T1], calls=("same",))
    fams.append(("all short sentences with names", f"every sentence of <= {5 if t else 4} tokens over 'a' \"a1\" a constant, a named parser, a named text, digit and calls",
                 [relabel(e) for n in (1, 2, 3, 4) for e in s2.expr(n)] + ([relabel(e) for e in s2b.expr(5)] if t else []), strings("a1-x", 4)))
    # what a quantifier, a label and => apply to
    ts = [A, D, lit('"ab"', "ab"), grp(seq([A, D])), alt([D, seq([A, D])]), call("string", [seq([A, D])]), P2, K]
    qt = [x for t_ in ts for x in [t_] + [q(o, t_) for o in "*+?"]]
    out = []
    for x in qt:
        for y in qt if t else qt[:16:1]:
            if ends_in_name(x) and starts_with_paren(y):
                continue
            out.append(seq([x, y]))
            out.append(fmap(1, seq([lab("l", x), y])))
            out.append(fmap(1, seq([x, lab("l", y)])))
            out.append(fmap(1, seq([lab("k", x), lab("l", y)])))
    fams.append(("quantifiers, labels and =>", f"every two terms out of {len(qt)} (each kind of term, plain or quantified), labelled or not, with => and without", out, None))
    # which label gets which term
    out = []
    kinds = [D, X, q("*", L), grp(seq([D, X])), call("string", [D]), q("?", D)]
    for n in range(1, 7 if t else 6):
        for mask in range(1 << n):
            for rot in range(len(kinds) if n < 5 else 2):
                tsq = []
                for i in range(n):
                    t_ = kinds[(i + rot) % len(kinds)]
                    tsq.append(lab(f"l{i}", t_) if mask >> i & 1 else t_)
                if not any(ends_in_name(tsq[i]) and starts_with_paren(tsq[i + 1]) for i in range(n - 1)):
                    out.append(fmap(1, seq(tsq)))
    for n in range(7, 13):
        tsq = [D if i % 3 else X for i in range(n)]
        out.append(fmap(1, seq([lab(f"l{i}", x) for i, x in enumerate(tsq)])))
        for i in range(n):
            out.append(fmap(1, seq([lab(f"l{j}", x) if j == i else x for j, x in enumerate(tsq)])))
    fams.append(("labels", "every subset of the terms of a sequence of 1 to 5 labelled; one or all of 7 to 12", out, None))
    # labels in nested scopes
    out = []
    inner = [fmap(2, lab("l", D)), fmap(2, seq([lab("l", D), lab("k", L)])), fmap(2, seq([X, lab("k", D)])), fmap(2, X)]
    for i in inner:
        for wrap in (grp, lambda e: alt([e, fmap(3, seq([YZ, lab("l", L)]))]), lambda e: q("*", grp(e)), lambda e: call("string", [e]), lambda e: call("repeat_sep", [e, X]), lambda e: call("second", [X, e])):
            for outer in (lambda w: fmap(1, lab("l", w)), lambda w: fmap(1, seq([lab("l", X), w])), lambda w: fmap(1, seq([w, X, lab("l", D)])), lambda w: fmap(1, seq([lab("k", D), X, lab("l", w)])),
                          lambda w: seq([w, X, w]), lambda w: fmap(1, seq([lab("k", w), X, lab("l", w)]))):
                out.append(outer(wrap(i)))
    fams.append(("labels in nested scopes", "the same names inside and outside groups, arms, lists, calls", out, None))
    # commas
    out = []
    arm = [D, seq([X, D]), call("string", [D]), grp(D), alt([D, seq([YZ, D])], True), call("same", [D], True), q("*", D), fmap(1, lab("l", D)), fmap(2, seq([X, lab("l", D)])), fmap(3, lab("l", alt([X, YZ]))), X, YZ, K, seq([D, L])]
    for n in (1, 2, 3):
        for c in itertools.product(arm, repeat=n):
            for tr in (False, True):
                if n < 3 or t or sum(1 for x in c if x.k in ("map", "alt", "call")) >= 2:
                    out.append(alt(c, tr))
    for n in range(4, 13):
        for tr in (False, True):
            out.append(alt([seq([L, D] + [X] * i) for i in range(n)], tr))
            out.append(alt([fmap(i, seq([X] * (n - i) + [lab("d", D)])) for i in range(n)], tr))
    out += arms(t)
    for f, k in (("same", 1), ("second", 2), ("third", 3), ("sixth", 6), ("twelfth", 12)):
        for c in itertools.product([X, D, alt([D, X_D()], False), call("same", [D]), fmap(1, lab("l", D))], repeat=min(k, 3)):
            for tr in (False, True):
                out.append(call(f, ([D] * (k - 3) if k > 3 else []) + list(c), tr))
    for a in (D, seq([D, L]), fmap(1, lab("l", D)), alt([D, seq([X, D])])):
        for b in (X, seq([X, YZ]), alt([X, YZ]), q("*", X), fmap(2, X)):
            for tr in (False, True):
                out.append(call("repeat_sep", [a, b], tr))
                out.append(seq([L, call("repeat_sep", [a, b], tr), YZ]))
    fams.append(("commas", "alternations of 1 to 12 arms (also 2 and 3 overlapping arms of 18 and 8 kinds in every order) and calls of 1 to 6 arguments, with and without a final comma, arms and arguments with commas and => of their own", out, None))
    # writing it inline, in parentheses, with let, or through a function
    out = []
    s3 = Sents([A, D], rep=False)
    bodies = [e for n in (1, 2, 3) for e in s3.expr(n)] if t else [e for n in (1, 2) for e in s3.expr(n)] + [e for e in s3.expr(3)][::1]
    for b in bodies:
        b = relabel(b)
        v = var("v", b)
        g = grp(b)
        both = (v, g)
        ctx = [lambda h: h, lambda h: q("*", h), lambda h: seq([h, D]), lambda h: alt([h, h])]
        for c in ctx if t else ctx[1:3]:
            out += [c(h) for h in both]
    fams.append(("inline, grouped, named", "every sentence of <= 3 tokens, in parentheses and as a named parser, in 2 (thorough: 4) contexts", out, tx))
    # rules
    out = []
    bodies = [e for n in (1, 2, 3) for e in Sents([A, D, ruleref("r")], calls=("string",), rep=False).expr(n)]
    for b in bodies:
        b = relabel(b)
        for ty in ("usize", "()", "M", ("Vec", "usize"), ("Vec", "()"), ("Option", "usize"), "String", ("tup", ("usize", "usize"))):
            for entry in (ruleref("r"), seq([A, ruleref("r")])):
                e = rules([("r", ty, b)], entry)
                if not left_rec(b) and well_typed(e):
                    out.append(e)
    R, S = ruleref("r"), ruleref("s")
    for b1 in (D, seq([D, A]), fmap(1, seq([lab("x", D), A])), alt([D, seq([A, S])]), seq([A, S]), seq([A, q("?", S)]), fmap(1, seq([A, lab("y", S)]))):
        for b2 in (A, seq([A, R]), q("*", R), seq([A, q("*", R)]), fmap(2, lab("x", R)), R):
            for ord_ in (0, 1):
                for ent in (R, S, seq([S, R]), q("*", R), fmap(3, seq([lab("p", R), A, lab("q", S)]))):
                    for t1 in ("usize", "M", ("tup", ("usize", "M")), "()"):
                        for t2 in ("usize", "M", "()", ("Vec", "usize"), ("Vec", "M"), ("Vec", "()")):
                            rs = [("r", t1, b1), ("s", t2, b2)]
                            e = rules(rs[::-1] if ord_ else rs, ent)
                            if well_typed(e) and not (b1.k == "ref" or left2(b1, b2)):
                                out.append(e)
    fams.append(("rule sets", "one rule with every body of <= 3 tokens; two rules in both orders, with conversions, lists and labels in and around them", out, strings("a1", 5)))
    fams.append(("many rules", f"chains of 3 to {24 if t else 16} rules, first to last and last to first, of one type and of four types in turn, each place the odd one out", many_rules(24 if t else 16), None))
    fams += exprs(t) + names(t) + literals(t) + functions(t) + rule_types(t) + no_arguments(t) + surroundings(t) + places(t) + sizes(t)
    res = []
    for n, b, es, texts, *opts in fams:
        es = [e if isinstance(e, tuple) else (e, texts) for e in es]
        res.append((n, b, [(e, tx_) for e, tx_ in es if well_typed(e) and not unsettled(e) and not callish(e)], opts[0] if opts else {}))
    return res


def functions(t):
    """Functions of the user's own, whatever their names; arguments that are not patterns."""
    out = []
    for n in NAMES + "string line lines section sections repeat_sep hash_set vec_deque char_of upper u32 map_ new build rule_".split():
        f = "fn:" + n
        c = call(f, [X, L])
        out += [c, call(f, [X, L], True), q("*", c), seq([D, c, X]), fmap(1, seq([lab("l", c), X])), alt([c, seq([X, L])]), call(f, [c, c]), call(f, [D, seq([L, D])]), grp(c),
                rules([("r", "char", c)], seq([ruleref("r"), X, ruleref("r")])), fmap(1, seq([D, lab(n if n not in ("r#type",) else "l", c)]))]
    fams = [("names of functions", "as many names, and those of the crate's own functions, given to functions of the user's own", out, strings("x1b", 3))]
    out = []
    raws = [raw(x) for x in ("3", "3usize", "0x1f", "1_000u64", "2.5", "1e3f64", "true", "false", "b'x'", 'b"xy"', "'q'", '"q"', 'r"q"', "'*'", '"?"', '","')]
    for r in raws:
        c = call("second", [r, L])
        out += [c, call("second", [r, L], True), q("*", c), seq([D, c, X]), fmap(1, seq([lab("l", c), X])), alt([c, seq([X, L])]), call("string", [seq([c, D])]), call("second", [r, seq([L, D])])]
        out += [call("third", [r, r2, L]) for r2 in raws[::3]] + [call("third", [r2, D, call("second", [r, L])]) for r2 in raws[::5]]
    fams.append(("literals as arguments", f"{len(raws)} Rust literals of every kind as arguments of functions of the user's own", out, strings("x1b", 3)))
    return fams


# types a rule can have: how to make one from a digit, and the digit from it
TYPES = [
    ("[usize; 2]", "[d, 0]", "v[0]"), ("[[usize; 1]; 2]", "[[d], [9]]", "v[0][0]"), ("(usize, char)", "(d, 'c')", "v.0"), ("((usize, char), ())", "((d, 'c'), ())", "(v.0).0"), ("(usize,)", "(d,)", "v.0"), ("(usize)", "d", "v"),
    ("&'static str", "&\"0123456789\"[d..d + 1]", "v.parse::<usize>().unwrap()"), ("&'static [usize]", "{ let all: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]; &all[d..] }", "v[0]"), ("Result<usize, String>", "Ok(d)", "v.unwrap()"), ("Result<(), usize>", "Err(d)", "v.unwrap_err()"),
    ("Option<Option<usize>>", "Some(Some(d))", "v.unwrap().unwrap()"), ("Vec<Vec<Vec<usize>>>", "vec![vec![vec![d]]]", "v[0][0][0]"), ("std::collections::BTreeMap<char, Vec<usize>>", "[('k', vec![d])].into_iter().collect()", "v[&'k'][0]"),
    ("Box<dyn Fn(usize) -> usize>", "Box::new(move |x| x + d) as Box<dyn Fn(usize) -> usize>", "v(0)"), ("Box<dyn std::fmt::Display + Send + 'static>", "Box::new(d) as Box<dyn std::fmt::Display + Send>", "v.to_string().parse::<usize>().unwrap()"), ("Box<[usize]>", "vec![d].into_boxed_slice()", "v[0]"), ("<usize as std::borrow::ToOwned>::Owned", "d", "v"),
    ("<Vec<usize> as IntoIterator>::IntoIter", "vec![d].into_iter()", "v.last().unwrap()"), ("std::rc::Rc<std::cell::RefCell<usize>>", "std::rc::Rc::new(std::cell::RefCell::new(d))", "{ let x = *v.borrow(); x }"), ("fn(usize) -> usize", "{ fn k(x: usize) -> usize { x } let _ = d; k as fn(usize) -> usize }", "v(5)"),
    ("for<'a> fn(&'a str) -> &'a str", "{ fn k(x: &str) -> &str { x.trim() } let _ = d; k as for<'a> fn(&'a str) -> &'a str }", "v(\" 5 \").parse::<usize>().unwrap()"), ("::core::num::Wrapping<u8>", "::core::num::Wrapping(d as u8)", "v.0 as usize"), ("std::ops::RangeInclusive<usize>", "d..=d", "*v.start()"), ("Mine", "Mine { x: d }", "v.x"), ("Mine2<'static, usize, 3>", "Mine2([d; 3], &7)", "v.0[1]"),
    ("u8", "d as u8", "v as usize"), ("f64", "d as f64", "v as usize"), ("bool", "d > 4", "usize::from(v)"), ("()", "{ let _ = d; }", "{ let _ = v; 5 }"), ("String", "d.to_string()", "v.parse::<usize>().unwrap()"), ("M", "m(d as u32, &[])", "{ let x: M = v; x.0[1..2].parse::<usize>().unwrap() }"),
]


def rule_types(t):
    out = []
    for ty, make, back in TYPES:
        fn = (lambda x: "5") if "5" in back else (lambda x: str(int(int(x) > 4))) if ty == "bool" else (lambda x: x)
        made = xmap(lab("d", D), make, ty, lambda x: x)
        two = xmap(seq([X, lab("d", D), L]), make, ty, lambda x: x)
        R = xmap(lab("v", ruleref("r")), back, "usize", fn)
        for e in (R, q("*", grp(R)), seq([grp(R), X, grp(R)]), alt([R, two_(R)]), call("repeat_sep", [R, A], True), fmap(1, lab("l", q("?", grp(R))))):
            out.append(rules([("r", ty, made)], e))
            out.append(rules([("s", "usize", R), ("r", ty, alt([two, made], True))], e))
        out.append(rules([("r", ty, made), ("o", ("Option", ty), q("?", ruleref("r"))), ("w", ("Vec", ty), q("*", ruleref("r")))], seq([grp(xmap(lab("v", ruleref("r")), back, "usize", fn)), X])))
        for ty2, make2, back2 in TYPES[::4 if not t else 1]:
            if ty2 == "bool" or "5" in back2:
                continue
            R2 = xmap(lab("v", ruleref("s")), back2, "usize", lambda x: x)
            out.append(rules([("r", ty, made), ("s", ty2, xmap(seq([X, lab("d", D)]), make2, ty2, lambda x: x))], seq([grp(R), grp(R2)])))
    return [("types of rules", f"rules of {len(TYPES)} types of every syntax (arrays, references, function pointers, trait objects, projections, paths, generics), alone and in pairs, used in 6 ways", out, strings("x1a", 4) + ["x5a7", "x7", "7x3", "7", "5a3", "5x8", "8x6"], {"head": "struct Mine { x: usize } struct Mine2<'a, T, const N: usize>([T; N], #[allow(dead_code)] &'a T); "})]


def two_(R):
    return xmap(seq([X, lab("v", ruleref("r"))]), R.a[1], "usize", XFN[R.a[1]])


def no_arguments(t):
    N0 = call("nought", [])
    out = []
    ts = [N0, q("*", N0), q("?", grp(q("+", N0))), lab("l", N0), grp(N0), grp(fmap(1, lab("l", q("?", N0)))), call("string", [N0]), call("lines", [seq([N0, X])], True), call("second", [N0, L]), call("repeat_sep", [N0, N0]), alt([N0, seq([X, D])]), alt([seq([X, N0]), N0], True)]
    out += ts[:3] + ts[4:] + [fmap(1, ts[3])]
    out += [seq([x, y]) for x in ts for y in ts + [X, D, L, K, grp(L), q("*", X)] if x.k != "lab" and y.k != "lab"]
    out += [seq([y, x]) for x in ts for y in (X, L, K, grp(L), q("*", X)) if x.k != "lab"]
    out += [fmap(2, seq([y, ts[3], X])) for y in ts if y.k != "lab"] + [rules([("r", "usize", N0)], seq([ruleref("r"), q("*", ruleref("r"))])), rules([("r", "M", alt([fmap(1, seq([X, lab("l", ruleref("r"))])), fmap(2, lab("l", N0))]))], q("*", ruleref("r")))]
    return [("calls without arguments", "a function without parameters, called as a piece in every place and beside every other", out, strings("x1a", 4))]


def surroundings(t):
    """The same patterns, with the macro called in other ways."""
    tx = strings("a1", 4)
    s1 = Sents([A, D])
    short = [relabel(e) for n in ((1, 2, 3, 4) if t else (1, 2, 3)) for e in s1.expr(n)]
    R = ruleref("r")
    short += [rules([("r", "usize", D)], seq([R, A, R])), rules([("r", "M", alt([fmap(1, seq([A, lab("l", R)])), fmap(2, lab("d", D))]))], q("*", R)), rules([("r", "usize", D), ("s", ("Vec", "usize"), call("repeat_sep", [R, A]))], seq([ruleref("s"), q("?", A)]))]
    fams = []
    for name, how, opts in (("by its path", "::rt::aoc_parse::parser!", {"call": "::rt::aoc_parse::parser!"}),
                            ("renamed", "under another name", {"head": "use rt::aoc_parse::parser as pattern; ", "call": "pattern!"}),
                            ("inside a macro", "through a macro of the user's own that passes its tokens on", {"head": "macro_rules! through { ($($t:tt)*) => { parser!($($t)*) } } ", "call": "through!"})):
        fams.append((f"parser! called {name}", f"every sentence of <= {4 if t else 3} tokens, and rules, {how}", short, tx, opts))
    prims = [A, AB, D, L, P2, K, grp(seq([D, A])), alt([D, seq([A, D])]), call("string", [D]), call("repeat_sep", [D, A], True)]
    ts = [y for x in prims for y in (x, q("*", x), q("?", x), q("+", q("?", x)))]
    out = [seq([x]) for x in ts] + [seq([x, y]) for x in ts for y in (ts if t else ts[::3])] + [seq(list(c)) for c in itertools.product(prims[::2], repeat=3)]
    fams.append(("parts given to a macro", f"sequences of 1 to 3 of {len(ts)} terms, whose literals, names and groups are arguments (literal, ident, tt) of a macro of the user's own", out, None, {"fragments": True}))
    return fams


def places(t):
    """Patterns that refer to what is in scope where they are written."""
    W, TX = const("word", "x"), const("text_local", "zz")

    def around(code, ty, f):
        e = xmap(seq([lab("a", D)]), code, ty, f)
        xe = xmap(seq([W, lab("a", D), q("?", X)]), code, ty, f)
        two = xmap(seq([TX, lab("a", D)]), code, ty, f)
        return [e, xe, grp(e), q("*", grp(xe)), q("?", grp(e)), alt([e], True), alt([xe, two]), alt([two, e], True), call("string", [xe]), call("lines", [xe]), call("repeat_sep", [e, W]), call("second", [two, xe]),
                seq([L, grp(xe), TX]), fmap(1, seq([lab("g", grp(xe)), W])), var("v", xe), seq([q("*", TX), grp(xe)])]

    name = lambda a: "<" + ["zero", "one"][int(a) % 2] + ">"
    plus = lambda k: lambda a: str(int(a) + k)
    uses = [("a + base", "usize", plus(10)), ("names[a % 2].clone()", "String", name), ("&names[a % 2][..]", "&str", name), ("names.len() + a", "usize", plus(2)), ("{ let n = &names; n.len() + base + a }", "usize", plus(12)),
            ("names.iter().map(|n| n.len()).sum::<usize>() + a", "usize", plus(7)), ("more(a)", "usize", plus(10)), ("func(a)", "usize", plus(3)), ("LOCAL + a", "usize", plus(5)), ("count.replace(base) - count.replace(base) + a", "usize", lambda a: a),
            ("Pair { x: a, y: base }.sum()", "usize", plus(10)), ("parser!(digit* => 4).parse(&word_digits).unwrap() + a", "usize", plus(4)), ("{ macro_rules! inc { ($e:expr) => { $e + 1 } } inc!(a) }", "usize", plus(1))]
    pre = ('let base = 10usize; let names = vec![String::from("zero"), String::from("one")]; let word_ = String::from("x"); let word: &str = &word_; let text_ = format!("z{}", "z"); let text_local = &text_[..]; let word_digits = String::from("123"); '
           'let more = |x: usize| x + base; fn func(x: usize) -> usize { x + 3 } const LOCAL: usize = 5; let count = std::cell::Cell::new(10usize); struct Pair { x: usize, y: usize } impl Pair { fn sum(&self) -> usize { self.x + self.y } } ')
    post = " drop(names); drop(count); drop(word_); drop(text_);"
    local = [(e, None) for u in uses for e in around(*u)]
    # of the function written in
    own = [("a + N", "usize", plus(10)), ("T::of(a)", "T", lambda a: str(int(a) * 2)), ("a + extra.into()", "usize", plus(4)), ("(T::of(a), N)", ("tup", ("T", "usize")), lambda a: f"({int(a) * 2},10)")]
    # (lists of T)
    generic = [(e, None) for u in own for e in around(*u)]
    gpre = ("trait Of: Show { fn of(x: usize) -> Self; } impl Of for usize { fn of(x: usize) -> usize { x * 2 } } fn inner<'s, const N: usize, T: Of, I: Into<usize> + Copy>(id: u32, word: &'s str, text_local: &str, extra: I) { BODY } "
            'inner::<10, usize, u8>(id, &String::from("x"), &String::from("zz"), 4u8);')
    meth = [(e, None) for u in [("self.base + a", "usize", plus(10)), ("self.add(a)", "usize", plus(10)), ("Self::twice(a)", "usize", lambda a: str(int(a) * 2)), ("self.names[a % 2].clone()", "String", name)] for e in around(*u)]
    mpre = ("struct S { base: usize, names: [String; 2] } impl S { fn add(&self, x: usize) -> usize { x + self.base } fn twice(x: usize) -> usize { x * 2 } fn go(&self, id: u32, word: &str, text_local: &str) { BODY } } "
            'S { base: 10, names: ["zero".to_string(), "one".to_string()] }.go(id, &String::from("x"), &String::from("zz"));')
    only = lambda a: f"only{a}"
    moved = []
    for e in around("Only(a)", "Only", only):
        if well_typed((e)) and not unsettled(e) and not callish(e):
            moved.append((e, None))
    o1, o2 = grp(xmap(seq([X, lab("a", D)]), "Only(a)", "Only", only)), grp(xmap(lab("a", D), "Only(a)", "Only", only))
    both = xmap(seq([lab("g", o1), lab("h", q("?", o2))]), "Both(g, h)", "Both", lambda g, h: f"both({g},{h})")
    many = xmap(lab("g", q("*", o1)), "{ let mut v = g; v.reverse(); v }", ("Vec", "Only"), lambda g: "[" + ",".join(reversed(g[1:-1].split(","))) + "]" if g != "[]" else g)
    RO = ruleref("r")
    moved += [(e, None) for e in (both, grp(both), q("*", grp(both)), many, seq([grp(many), L]), seq([o1, o2]), seq([o1, L, o2]), q("*", grp(seq([o2, o1]))), alt([o1, o2]), seq([alt([o1, o2]), q("?", o1)]), call("vec_deque", [q("*", o1)]),
              call("repeat_sep", [o1, o2]), q("+", q("?", o1)), seq([o1] * 5), seq([o2] * 8), alt([both, xmap(seq([L, L, lab("g", o1)]), "Both(g, None)", "Both", lambda g: f"both({g},N)")]),
              rules([("r", "Only", o1)], seq([RO, RO])), rules([("r", "Both", both), ("s", ("Vec", "Both"), q("*", RO))], seq([ruleref("s"), L])))]
    key = grp(xmap(seq([X, lab("a", D)]), "Key(a)", "Key", lambda a: f"key{a}"))
    moved += [(e, None) for e in (call("btree_set", [q("*", key)]), call("btree_set", [call("repeat_sep", [key, L])], True), q("*", grp(seq([call("btree_set", [q("+", key)]), L]))))]
    opre = "#[derive(PartialEq, Eq, PartialOrd, Ord)] struct Key(usize); impl Show for Key { fn show(&self, o: &mut String) { o.push_str(&format!(\"key{}\", self.0)) } } struct Only(usize); impl Show for Only { fn show(&self, o: &mut String) { o.push_str(&format!(\"only{}\", self.0)) } } struct Both(Only, Option<Only>); impl Show for Both { fn show(&self, o: &mut String) { o.push_str(\"both(\"); self.0.show(o); o.push(','); self.1.show(o); o.push(')') } } "
    lpre = 'let word = "x"; let text_local = "zz"; '
    clos = [(e, None) for u in uses[:6] for e in around(*u)]
    cpre = pre + "let run = |id: u32| { BODY }; run(id);" + post
    s1 = Sents([A, D])
    short = [relabel(e) for n in ((1, 2, 3, 4) if t else (1, 2, 3)) for e in s1.expr(n)]
    R = ruleref("r")
    short += [rules([("r", "usize", D)], seq([R, A, R])), rules([("r", "M", alt([fmap(1, seq([A, lab("l", R)])), fmap(2, lab("d", D))]))], q("*", R)), rules([("r", "usize", D), ("s", ("Vec", "usize"), call("repeat_sep", [R, A]))], seq([ruleref("s"), q("?", A)])), seq([P2, P2]), fmap(1, lab("l", P2))]
    plain = [(relabel(e), None) for n in (1, 2, 3, 4) for e in Sents([A, lit('"b1"', "b1")], calls=()).expr(n)]
    plain = [(e, None) for e, _ in plain if "repeat_sep" not in src(e) and "string" not in src(e)]
    tx = strings("a1", 4)
    fams = [("locals", f"{len(uses)} expressions after => that use local variables (kept by the caller), closures, functions, constants, types and macros defined beside the parser, in 16 patterns around local strings", local, None, {"around": pre + "{ BODY }" + post}),
            ("in a generic function", f"{len(own)} expressions after => that use type and constant parameters and arguments of the function written in, in 16 patterns around strings it was given", generic, None, {"around": gpre}),
            ("in a method", "4 expressions after => that use self, in 16 patterns", meth, None, {"around": mpre}),
            ("in a closure", "6 expressions after => that use variables from outside the closure, in 16 patterns", clos, None, {"around": cpre}),
            ("values that can only be moved", "values of types without any traits (not Clone, Copy, Debug, Default, PartialEq; in a btree_set, only ordered), in 35 patterns", moved, None, {"around": opre + lpre + "{ BODY }"}),
            ("returned from a function", f"every sentence of <= {4 if t else 3} tokens, and rules, in a function that returns impl Parser", [(e, tx) for e in short], None, {"returned": True}),
            ("without the prelude", "every sentence of <= 4 tokens over 'a' \"b1\" in a module that uses nothing but parser", plain, None, {"around": "mod only { use rt::{aoc_parse::parser, m}; pub mod say { pub use rt::go; } pub fn run(id: u32) { use self::say::go; use rt::M; BODY } } only::run(id);"})]
    fams = [(n, b, [x if isinstance(x, tuple) else (x, None) for x in xs], o) for n, b, xs, _, o in fams]
    for ed in ("2015", "2018", "2024"):
        fams.append((f"edition {ed}", f"every sentence of <= {4 if t else 3} tokens, and rules, in a program of that edition", [(e, tx) for e in short], {"edition": ed}))
    return [(n, b, xs, None, o) for n, b, xs, o in fams]


def sizes(t):
    out = []
    for n in range(1, 33):
        three = [X, YZ, lit("'-'", "-")]
        out += [seq([three[i % 3] for i in range(n)]), seq([D] + [three[i % 3] for i in range(n - 1)] + [q("?", D)]), fmap(1, seq([lab(f"l{i}", [D, L][i % 2]) for i in range(n)])), fmap(1, seq([lab(f"l{i}", D) if i in (0, n // 2, n - 1) else X for i in range(n)])),
                q("*", seq([D])) if n < 2 else call("string", [seq([[D, X][i % 2] for i in range(n)])])]
        if n <= 18:
            out.append(rules([("r", "()", seq([X] * n))], seq([q("*", ruleref("r"))])))
        e = D
        for i in range(n if n < 7 else 0):
            e = q("?", e)
            out.append(e)
        # (every token of an arm counts)
        if n <= 14:
            out += [alt([lit(f'"{i}-"', f"{i}-") for i in range(n)], n % 2)]
        if n <= 12:
            out += [alt([seq([lit(f'"{i}-"', f"{i}-"), D]) for i in range(n)], n % 2)]
        if n <= 7:
            out += [alt([fmap(i, seq([lit(f'"{i}-"', f"{i}-"), lab("d", D)])) for i in range(n)])]
        if n <= 12:
            g, c, a, m = D, D, D, fmap(0, lab("l", D))
            for i in range(n):
                g, c, a, m = grp(seq([X, g])), call("same", [c], i % 2), alt([seq([X, a]), D]), fmap(i, seq([X, lab("l", grp(m))]))
            out += [x for x, most in ((g, 9), (c, 6), (a, 4), (m, 5)) if i < most]
    return [("sizes", "sequences of 1 to 32 terms, alternations of 1 to 14 arms, groups, calls, arms and groups with => nested up to 9, 6, 4 and 5 deep, in programs that do not raise the compiler's limits", out, None, {"limit": ""})]


def arms(t):
    """Alternations whose arms overlap, so that their order shows."""
    A2, AB2 = lit('"a"', "a"), lit('"a1"', "a1")
    shapes = [A, A2, AB2, lab("l", L), L, seq([A, D]), seq([A2, lab("l", q("?", D))]), K, grp(L), lab("l", grp(A2)), call("string", [L]), lab("l", q("+", L)), alt([L, D_()]), q("*", A2), seq([lab("l", L), lab("k", D)]), P2, lab("l", T1), seq([q("?", A), lab("l", q("*", D))])]
    few_ = [A, A2, lab("l", L), seq([A, D]), AB2, grp(L), lab("l", q("+", L)), P2]
    tx = strings("a1-", 2) + ["aa1", "a11", "a1a", "aaa", "1a1"]
    out = []
    for n, sh in ((2, shapes), (3, shapes if t else few_)) + (((4, few_),) if t else ()):
        for c in itertools.product(sh, repeat=n):
            e = alt([fmap(i + 1, x) for i, x in enumerate(c)])
            out.append((e, tx))
            if n == 2 and (t or c[0] in few_ and c[1] in few_):
                out += [(q("*", e), tx), (seq([e, A2]), tx), (seq([q("?", A), e]), tx)]
    # arms without =>
    for sh in ([A, A2, AB2, K, seq([A, A2]), q_unit()], [L, grp(L), alt([L]), seq([A, L]), seq([L, A2]), alt([L, seq([A2, L])])], [grp(A), grp(A2), grp(AB2), grp(seq([A, A2]))]):
        for n in (2, 3):
            for c in itertools.product(sh, repeat=n):
                e = alt(c)
                out.append((q("*", e) if n == 2 else seq([e, q("?", X)]), tx))
                # some with =>
                out.append((alt([fmap(i + 1, x) if i else x for i, x in enumerate(c)]), tx))
    return out


def D_(): return call("string", [D])
def q_unit(): return lit('""', "")


def many_rules(most):
    out = []
    tys = ["usize", ("Vec", "usize"), "String", ("tup", ("usize", "char"))]
    bods = [D, q("+", D), call("string", [seq([L, D])]), seq([D, L])]
    sample = ["3", "123", "a1", "4b"]
    for n in range(3, most + 1):
        r = lambda i: ruleref(f"r{i}")
        chain = [(f"r{i}", "M", fmap(i, seq([lab("d", D), lab("n", r(i + 1))]))) for i in range(n - 1)] + [(f"r{n - 1}", "M", fmap(n, lab("l", L)))]
        tx = [("123456789" * 5)[:k] + y for k in (0, 1, n - 2, n - 1, n) for y in ("a", "", "xa", "ab")]
        out += [(rules(chain, r(0)), tx), (rules(chain[::-1], r(0)), tx), (rules(chain[n // 2:] + chain[:n // 2], seq([r(n - 2), X, r(n - 1)])), ["1axb", "axb", "12axb", "1ax1b", "1ab", "1axb1"])]
        back = [(f"r{i}", "M", alt([fmap(i, seq([X] * (i % 3 + 1) + [lab("n", r((i + 1) % n))])), fmap(100 + i, lab("d", D))])) for i in range(n)]
        tx = ["x" * k + "1" + y for k in range(2 * n + 3) for y in ("", "yz", "yzyz", "1")] + ["x" * k for k in range(n)]
        out += [(rules(back, r(0)), tx), (rules(back, alt([seq([r(i), q("*", YZ)]) for i in (0, n // 2, n - 1)])), tx)]
        out.append((rules(back, seq([r(n - 1), YZ, r(1)])), ["x" * i + "1yz" + "x" * j + "2" for i in range(n) for j in range(n)]))
        mix = [(f"r{i}", tys[i % 4], bods[i % 4]) for i in range(n)]
        for first in range(0, n, 3):
            at = [(first + j) % n for j in range(min(n, 5))]
            ts = ["".join("x" + sample[i % 4] for i in at)]
            for j in range(len(at)):
                for other in sample:
                    ts.append("".join("x" + (other if k == j else sample[i % 4]) for k, i in enumerate(at)))
            out.append((rules(mix, fmap(1, seq([y for j, i in enumerate(at) for y in (X, lab(f"l{j}", r(i)))]))), ts))
        if n <= 8:
            good = [sample[j % 4] for j in range(n)]
            ts = ["".join("x" + g for g in good)] + ["".join("x" + (o if k == j else g) for k, g in enumerate(good)) for j in range(n) for o in sample]
            out.append((rules(mix, seq([y for j in range(n) for y in (X, r(j))])), ts))
    return out


# the Rust expression after =>: anything goes, as long as its commas are inside brackets
def add(a, b): return str(int(a) + int(b))
def mul(a, b): return str(int(a) * int(b))
def tup(*v): return "(" + ",".join(v) + ")"
def lst(*v): return "[" + ",".join(v) + "]"


CODES = [
    ("a + b", "usize", add), ("a * b", "usize", mul), ("a + b * a", "usize", lambda a, b: str(int(a) + int(a) * int(b))), ("(a, b)", ("tup", ("usize", "usize")), tup),
    ("(b, a)", ("tup", ("usize", "usize")), lambda a, b: tup(b, a)), ("vec![a, b]", ("Vec", "usize"), lst), ("vec![b; 2]", ("Vec", "usize"), lambda a, b: lst(b, b)),
    ("{ a + b }", "usize", add), ("{ let c = a; c + b }", "usize", add), ("{ let mut v = vec![a]; v.push(b); v }", ("Vec", "usize"), lst),
    ("if a < b { a } else { b }", "usize", lambda a, b: str(min(int(a), int(b)))), ("match (a, b) { (0, _) => 0, (_, 0) => 1, _ => 2 }", "usize", lambda a, b: "0" if a == "0" else "1" if b == "0" else "2"),
    ("a.max(b)", "usize", lambda a, b: str(max(int(a), int(b)))), ("usize::max(a, b)", "usize", lambda a, b: str(max(int(a), int(b)))), ("[a, b].to_vec()", ("Vec", "usize"), lst),
    ("std::cmp::min(a, b)", "usize", lambda a, b: str(min(int(a), int(b)))), ("(|c: usize| c + b)(a)", "usize", add), ("[a, b].iter().map(|x| x + 1).collect::<Vec<usize>>()", ("Vec", "usize"), lambda a, b: lst(str(int(a) + 1), str(int(b) + 1))),
    ("Some(a).filter(|x| *x > b)", ("Option", "usize"), lambda a, b: "S{" + a + "}" if int(a) > int(b) else "N"), ("format!(\"{}-{}\", a, b)", "String", lambda a, b: f"<{a}-{b}>"),
    ("format!(\"{a}={b}\")", "String", lambda a, b: f"<{a}={b}>"), ("loop { break a + b }", "usize", add), ("(a + b) as usize", "usize", add), ("*&a + b", "usize", add), ("!!a + b", "usize", add),
    ("m(7, &[&a, &b])", "M", lambda a, b: f"m7({a},{b})"), ("Box::new((a, b))", ("Box", ("tup", ("usize", "usize"))), tup), ("{ fn f(x: usize, y: usize) -> usize { x * y } f(a, b) }", "usize", mul),
    ("a?.checked_add(b)", None, None), ("", None, None),
]


def exprs(t):
    out = []
    for code, ty, fn in CODES:
        if ty is None:
            continue
        e = xmap(seq([lab("a", D), X, lab("b", D)]), code, ty, fn)
        two = xmap(seq([YZ, lab("a", D), lab("b", D)]), code, ty, fn)
        out += [e, grp(e), q("*", grp(e)), q("?", grp(e)), alt([e], True), alt([e, two]), alt([two, e], True), call("string", [e]), call("lines", [e]), call("repeat_sep", [e, X]),
                call("repeat_sep", [e, xmap(seq([lab("a", D), lab("b", D)]), code, ty, fn)], True), call("second", [two, e]), seq([L, grp(e), X]), fmap(1, seq([lab("a", grp(e)), X])),
                var("v", e), rules([("r", ty, e)], ruleref("r")), rules([("r", ty, e), ("s", ("Vec", ty), q("*", ruleref("r")))], ruleref("s")),
                rules([("r", ty, alt([e, two]))], fmap(2, seq([lab("b", ruleref("r")), lab("a", X)])))]
    return [("expressions after =>", f"{len(CODES) - 2} kinds of expression (operators that are quantifiers too, commas inside brackets, blocks, closures, macros) in 18 places", out, None)]


# names that the macro uses too, and names of the crate's own
NAMES = "builder map alt opt star plus pair sequence single_value empty head tail left right out value it iter context start parser seq pats stack pattern label f x args parser_var p core std aoc_parse macros i digit2 _u r#type Vec2 self_".split()


def names(t):
    out = []
    for n in NAMES:
        v = var(n, seq([D, L]))
        r = ruleref(n)
        out += [seq([X, v]), q("*", v), call("string", [v]), alt([v, seq([X, D, L])]), fmap(1, lab("z", v)),
                fmap(1, seq([X, lab(n, D)])), fmap(1, seq([lab(n, q("*", D)), X, lab("z", D)])), alt([fmap(1, seq([X, lab(n, D)])), fmap(2, lab(n, L))]), fmap(1, lab(n, call("string", [D]))),
                fmap(1, seq([X, lab(n, v)])), fmap(1, lab("z", grp(fmap(2, seq([X, lab(n, D)])))))]
        if n != "rule":
            out += [rules([(n, "usize", D)], r), rules([(n, ("Vec", "M"), q("*", grp(fmap(1, seq([X, lab("z", r)])))))], r), rules([(n, "usize", D), ("s", ("Vec", "usize"), q("*", r))], seq([ruleref("s"), X, r])),
                    rules([("r", "usize", D)], fmap(1, seq([lab(n, ruleref("r")), X]))), rules([("r", ("tup", ("usize", "char")), v)], ruleref("r"))]
    return [("names", f"{len(NAMES)} names that the macro or the crate use inside, as named parsers, labels and rules", out, strings("x1b", 3))]


def literals(t):
    ls = [("'\\n'", "\n"), ("'\\t'", "\t"), ("'\\''", "'"), ("'\"'", '"'), ("'\\\\'", "\\"), ("'\\u{e9}'", "\u00e9"), ("'\u00e9'", "\u00e9"), ("'\\x41'", "A"), ("' '", " "), ("','", ","), ("'*'", "*"), ("'?'", "?"), ("'('", "("), ("'}'", "}"), ("';'", ";"), ("'='", "="),
          ('""', ""), ('"\\n"', "\n"), ('"\\"q\\""', '"q"'), ('r"\\n"', "\\n"), ('r#"a"b"#', 'a"b'), ('"a, b"', "a, b"), ('"=> x"', "=> x"), ('"rule r"', "rule r"), ('"*?"', "*?"), ('"(;)"', "(;)"), ('"{}"', "{}"), ('"\u00e9\u20ac"', "\u00e9\u20ac"), ('"\\u{1F602}"', "\U0001F602"), ('"a \\\n   b"', "a b"), ('"//x"', "//x"), ('"/*"', "/*"), ('"$x"', "$x"), ('"%d"', "%d")]
    out = []
    for s, v in ls:
        x = lit(s, v)
        out += [x, seq([x, D]), seq([D, x]), q("?", x), grp(x), alt([x, YZ]), alt([YZ, x], True), call("string", [x]), call("repeat_sep", [D, x]), fmap(1, lab("l", x)), fmap(1, seq([x, lab("l", D)])), rules([("r", "()", x)], ruleref("r")), alt([fmap(1, x), fmap(2, D)])]
        if v:
            out += [q("*", x), q("+", x), fmap(1, lab("l", q("+", x)))]
        out += [seq([x, lit(s2, v2)]) for s2, v2 in ls[::3]]
    return [("literals", f"{len(ls)} spellings of character and string literals, in 13 to 16 places and in pairs", out, None)]


def unsettled(e):
    """{p} with one arm inside a sequence: the documentation does not say
    whether its values are one value or join the sequence's."""
    if e.k == "seq" and any(one_arm(x) for x in e.a[0]):
        return True
    return any(unsettled(y) for x in e.a for y in (x if isinstance(x, tuple) else (x,)) for y in ((y[2],) if isinstance(y, tuple) and len(y) == 3 else (y,)) if isinstance(y, N))


def callish(e):
    """a name directly before a group: that is a call"""
    if e.k == "seq" and any(ends_in_name(x) and starts_with_paren(y) for x, y in zip(e.a[0], e.a[0][1:])):
        return True
    return any(callish(y) for x in e.a for y in (x if isinstance(x, tuple) else (x,)) for y in ((y[2],) if isinstance(y, tuple) and len(y) == 3 else (y,)) if isinstance(y, N))


def one_arm(x):
    while x.k == "lab":
        x = x.a[1]
    if x.k != "alt" or len(x.a[0]) > 1:
        return False
    y = x.a[0][0]
    return y.k == "seq" or y.k in ("lit", "const") or one_arm(y) or y.k == "var" or y.k == "call"


def X_D():
    return seq([X, D])


def nullable(e, rn=frozenset()):
    k, a = e.k, e.a
    if k in ("lit", "const"):
        return a[1] == ""
    if k == "leaf":
        return False
    if k == "q":
        return a[0] != "+" or nullable(a[1])
    if k in ("grp",):
        return nullable(a[0])
    if k in ("lab", "map", "var"):
        return nullable(a[1])
    if k == "seq":
        return all(nullable(x) for x in a[0])
    if k == "alt":
        return any(nullable(x) for x in a[0])
    if k == "call" and not a[1]:
        return False
    if k == "call":
        return nullable(a[1][0]) if a[0] == "string" else True
    if k == "ref":
        return True
    return True


def heads(e):
    """Rule names e can try where it starts."""
    k, a = e.k, e.a
    if k == "ref":
        return {a[0]}
    if k == "seq":
        out = set()
        for x in a[0]:
            out |= heads(x)
            if not nullable(x):
                break
        return out
    if k == "alt":
        return set().union(*[heads(x) for x in a[0]])
    if k == "call":
        return set().union(set(), *[heads(x) for x in a[1]])
    if k in ("grp",):
        return heads(a[0])
    if k in ("lab", "map", "q"):
        return heads(a[1])
    return set()


def left_rec(b):
    return "r" in heads(b)


def left2(b1, b2):
    h = {"r": heads(b1), "s": heads(b2)}
    for _ in range(3):
        for n in h:
            for m in list(h[n]):
                h[n] |= h[m]
    return "r" in h["r"] or "s" in h["s"]
