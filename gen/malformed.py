"""P20: which token sequences are patterns.

A recogniser for the documented grammar (see `parser!` in macros.rs) decides
what every token sequence of a bounded space is: a pattern (must compile),
not one (must be a compile error), or something the documentation does not
settle (left alone). rustc and the real macro give the other answer.

Tokens are strings; a pair of delimiters is a tuple ("(", [tokens])."""
import itertools, sys, time
from build import Broken, chunks, pool
import pat
from pat import N, Ill, UNIT

LITS = {"'a'": "a", '"ab"': "ab"}
FUNCS = ("string", "repeat_sep", "lines")
VALUES = {"digit": "usize", "usize": "usize", "alpha": "char"}     # pieces by name, with their types
LABELS = ("x", "y")
GOOD, BAD, UNSETTLED = "pattern", "not a pattern", "unsettled"


class Bad(Exception):
    pass


class Cannot(Exception):
    pass


def is_name(t):
    return isinstance(t, str) and (t[0].isalpha() or t[0] == "_")


def tree(t, d):
    return isinstance(t, tuple) and t[0] == d


class Rec:
    """Recognises; collects what the documentation leaves open in self.open."""

    def __init__(self):
        self.open = False
        self.env = {}

    def pattern(self, ts):
        if not ts:
            raise Bad("no pattern")
        rules = []
        if ts[0] != "rule":
            return self.top(rules, ts)
        i = 0
        raw = []
        while i < len(ts) and ts[i] == "rule":
            j = i
            while j < len(ts) and ts[j] != ";":
                j += 1
            if j == len(ts):
                raise Bad("missing semicolon or final pattern")
            raw.append(ts[i:j])
            i = j + 1
        if i == len(ts):
            raise Bad("missing final pattern")
        for r in raw:
            if len(r) < 5 or not is_name(r[1]) or r[2] != ":" or r[4] != "=":
                raise Bad("rule syntax")
            ty = r[3] if isinstance(r[3], str) else UNIT if r[3] == ("(", ()) else None
            if ty == "_" or isinstance(r[3], tuple) and r[3][1]:
                self.open = True      # inferred
            elif ty not in ("usize", "char", UNIT):
                if is_name(r[3]) and r[3] not in pat.CALLS:
                    raise Bad("no such type")
                raise Bad("no type")
            if r[1] in VALUES or r[1] in FUNCS or r[1] in ("KK", "rule"):
                self.open = True      # shadows a constant
            if any(n == r[1] for n, _, _ in rules):
                self.open = True
            rules.append((r[1], ty, r[5:]))
        return self.top(rules, ts[i:])

    def top(self, rules, ts):
        for n, ty, _ in rules:
            self.env[n] = ty
        done, bad = [], None
        for n, ty, b in rules:
            done.append((n, ty, self.expr(b)))
        e = self.expr(ts)
        return pat.rules(done, e) if rules else e

    def expr(self, ts):
        if not ts:
            self.open = True          # empty group, arm or argument
            return N("seq", ())
        if "=>" in ts:
            i = ts.index("=>")
            after = ts[i + 1:]
            if not after or "=>" in after or after[0] in (":", ",", ";", "?", "+", "rule", "="):
                raise Bad("no expression after =>")
            if i == 0:
                self.open = True
                e = N("seq", ())
            else:
                e = self.seq(ts[:i])
            if len(after) > 1:
                if any(isinstance(a, str) and isinstance(b, str) and atom(a) and atom(b) for a, b in zip(after, after[1:])):
                    raise Bad("not an expression after =>")
                self.open = True
                return N("conv", e, "?")
            a = after[0]
            ls = pat.labels(e) if i else []
            if len(set(ls)) != len(ls):
                self.open = True
            if a == "1":
                return N("conv", e, "u8")
            if a in LABELS:
                if a not in ls:
                    raise Bad("not in scope after =>")
                t = [t for t in pat.terms(e) if t.k == "lab" and t.a[0] == a][-1]
                return N("conv", e, t)
            self.open = True
            return N("conv", e, "?")
        return self.seq(ts)

    def seq(self, ts):
        out, i, n = [], 0, len(ts)
        while i < n:
            name = None
            if is_name(ts[i]) and i + 1 < n and ts[i + 1] == ":":
                name = ts[i]
                if name not in LABELS:
                    self.open = True
                i += 2
                if i == n:
                    raise Bad("label without a pattern")
            t = ts[i]
            i += 1
            if is_name(t) and i < n and tree(ts[i], "("):
                e = self.call(t, ts[i][1])
                i += 1
            elif t in LITS:
                e = pat.lit(t, LITS[t])
            elif is_name(t):
                if i < n and ts[i] == ":":
                    if name is not None:
                        raise Bad("two labels")
                e = self.name(t)
            elif tree(t, "("):
                e = pat.grp(self.expr(t[1]))
            elif tree(t, "{"):
                e = self.alt(t[1])
            else:
                raise Bad(f"{t} is not a pattern")
            last = ""
            while i < n and ts[i] in ("*", "+", "?"):
                if ts[i] == "?" and last in ("*", "+"):
                    raise Bad("non-greedy")
                last = ts[i]
                e = pat.q(last, e)
                i += 1
            out.append(pat.lab(name, e) if name else e)
        return pat.seq(out)

    def name(self, t):
        if t == "KK":
            return pat.K
        if t in VALUES:
            return N("ty", (VALUES[t],))
        if t in self.env:
            return N("ty", (self.env[t],))
        raise Bad(f"no parser {t}")

    def split(self, ts):
        parts, cur = [], []
        for t in ts:
            if t == ",":
                parts.append(cur)
                cur = []
            else:
                cur.append(t)
        return parts, cur

    def call(self, f, ts):
        if f not in FUNCS:
            raise Bad(f"{f} is not a function")
        parts, cur = self.split(ts)
        if cur:
            parts.append(cur)
        if any(not p for p in parts):
            self.open = True
        args = [self.expr(p) for p in parts]
        if len(args) != pat.CALLS[f]:
            if not self.open:
                raise Bad("wrong number of arguments")
        return pat.call(f, args)

    def alt(self, ts):
        if not ts:
            raise Bad("no arms")
        parts, cur = self.split(ts)
        if cur:
            parts.append(cur)
        return pat.alt([self.expr(p) for p in parts])


def atom(t):
    return is_name(t) or t in LITS or t == "1"


def ty(e, env=None):
    """raw_ty with the extra nodes of this file"""
    if e.k == "ty":
        return e.a[0]
    if e.k == "conv":
        ts = pat.terms(e.a[0])
        for t in ts:
            pat.raw_ty(t)
        a = e.a[1]
        return (a,) if isinstance(a, str) else (pat.user_ty(pat.raw_ty(a)),)
    return _raw(e, env)


_raw = pat.raw_ty
pat.raw_ty = ty          # the recursion inside pat.py goes through the module's name


def classify(ts):
    r = Rec()
    try:
        e = r.pattern(list(ts))
    except Bad as x:
        return (UNSETTLED if r.open and str(x) == "wrong number of arguments" else BAD), str(x)
    if r.open:
        return UNSETTLED, ""
    try:
        t = pat.user_ty(pat.raw_ty(e, dict(r.env)))
        return (UNSETTLED if has_q(t) else GOOD), t
    except Ill as x:
        if str(x) in ("arms of different types", "rule type"):
            return BAD, str(x)
        return UNSETTLED, str(x)


def has_q(t):
    return t == "?" or isinstance(t, tuple) and any(has_q(x) for x in t)


def show(ts):
    o = []
    for t in ts:
        if isinstance(t, tuple):
            o.append(t[0] + show(t[1]) + {"(": ")", "{": "}", "[": "]"}[t[0]])
        else:
            o.append("1u8" if t == "1" else t)
    return " ".join(o)


# enumeration ----------------------------------------------------------------
def forests(n, atoms, delims, memo):
    if n == 0:
        return [()]
    if n in memo:
        return memo[n]
    out = []
    for rest in forests(n - 1, atoms, delims, memo):
        out += [(a,) + rest for a in atoms]
    for k in range(n):
        for inner in forests(k, atoms, delims, memo):
            for rest in forests(n - 1 - k, atoms, delims, memo):
                out += [((d, inner),) + rest for d in delims]
    memo[n] = out
    return out


def norm(f):
    return tuple((t[0], norm(t[1])) if isinstance(t, tuple) else t for t in f)


def edits(ts, alphabet):
    """Everything one change away."""
    n = len(ts)
    for i in range(n + 1):
        for a in alphabet:
            yield ts[:i] + (a,) + ts[i:]
        for d in "({[":
            yield ts[:i] + ((d, ()),) + ts[i:]
    for i in range(n):
        yield ts[:i] + ts[i + 1:]
        for a in alphabet:
            yield ts[:i] + (a,) + ts[i + 1:]
        yield ts[:i] + (ts[i],) + ts[i:]
        if i + 1 < n:
            yield ts[:i] + (ts[i + 1], ts[i]) + ts[i + 2:]
        for j in range(i + 1, n + 1):
            for d in "({[":
                yield ts[:i] + ((d, ts[i:j]),) + ts[j:]
        t = ts[i]
        if isinstance(t, tuple):
            yield ts[:i] + t[1] + ts[i + 1:]
            for d in "({[":
                yield ts[:i] + ((d, t[1]),) + ts[i + 1:]
            for inner in edits(t[1], alphabet):
                yield ts[:i] + ((t[0], inner),) + ts[i + 1:]


def lex(s):
    """tokens of a pattern written out below"""
    toks, stack = [], []
    for w in s.split():
        if w in "({[":
            stack.append((w, toks))
            toks = []
        elif w in ")}]":
            d, outer = stack.pop()
            outer.append((d, tuple(toks)))
            toks = outer
        else:
            toks.append(w)
    assert not stack
    return tuple(toks)


BASES = [lex(s) for s in [
    "digit", "'a' digit", "digit * 'a'", "x : digit => x", "x : digit * => x", "( digit 'a' ) +", "string ( digit * )", "{ digit , 'a' digit }", "{ 'a' , \"ab\" , }",
    "repeat_sep ( digit , 'a' )", "lines ( digit 'a' digit )", "{ 'a' => 1 , x : digit => 1 }", "x : string ( digit + ) 'a' y : digit => x", "KK digit ? 'a'",
    "x : ( y : digit 'a' => y ) * => x", "x : { digit , 'a' digit } 'a' => x",
    "rule r : usize = digit ; r", "rule r : usize = { digit , 'a' r } ; r *", "rule r : usize = x : digit 'a' => x ; rule s : usize = r ; s", "rule r : ( ) = 'a' ; lines ( r )",
]]
FOREIGN = [".", ";", "&", "|", "-", "=", "!", "<", "@", "#", "1", "_", "::", "..", "->", "$"]


def spaces(tier):
    t = tier == "thorough"
    atoms = ["'a'", "digit", "x", ":", "*", "+", "?", "=>", "1", ","]
    m = {}
    n = 4
    yield "all short token sequences", f"every sequence of <= {n} tokens (a pair of delimiters counts as one) over {' '.join(atoms)} ( ) {{ }}", (f for k in range(1, n + 1) for f in forests(k, atoms, "({", m))
    if t:
        a2 = ["digit", "x", ":", "*", "?", "=>", ","]
        m2 = {}
        yield "all sequences of five tokens", f"every sequence of 5 tokens over {' '.join(a2)} 1 ( ) {{ }}", (f for f in forests(5, a2 + ["1"], "({", m2))
    a3 = ["string", "repeat_sep", "digit", "'a'", ",", "*", "KK"]
    m3 = {}
    yield "calls", f"every sequence of <= {5 if t else 4} tokens over {' '.join(a3)} ( )", (f for k in range(1, (6 if t else 5)) for f in forests(k, a3, "(", m3))
    a4 = ["rule", "r", ":", "usize", "=", "digit", ";"]
    head = ("rule", "r", ":", "usize", "=")
    def rule_spaces():
        m4 = {}
        for k in range(1, 5 if not t else 6):
            for f in forests(k, a4, "", m4):
                yield f
        for k in range(0, 4 if not t else 5):
            for f in forests(k, ["rule", "r", ";", "digit", "*", ":", "=>", "'a'"], "(", {}):
                yield head + f
                yield head + ("digit", ";") + f
                yield head + ("digit", ";", "r") + f
                yield head + ("digit",) + head + f
    yield "rule sets", f"every sequence of tokens over {' '.join(a4)}; every continuation of `rule r: usize =`, of `rule r: usize = digit ;` and of an unfinished rule", rule_spaces()
    alphabet = ["'a'", "digit", "x", "y", ":", "*", "+", "?", "=>", ",", "rule", "string"] + FOREIGN
    yield "one change away", f"every insertion, removal, replacement, exchange, doubling, bracketing and unbracketing of {len(alphabet)} tokens in {len(BASES)} patterns with calls, labels, conversions, alternatives and rules", \
        (e for b in BASES for e in itertools.chain([b], edits(b, alphabet)))
    small = ["digit", "x", ":", "*", "?", "=>", ",", ";"]
    yield "two changes away", f"two such changes with {len(small)} tokens in {12 if t else 6} of them", \
        (e for b in ([BASES[i] for i in (0, 1, 2, 3, 4, 6, 7, 8, 10, 11, 13, 16)] if t else [BASES[i] for i in (0, 1, 2, 3, 7, 10)]) for e1 in edits(b, small) for e in edits(e1, small))


HEAD = "#![recursion_limit = \"2048\"] extern crate rt; use rt::aoc_parse::{parser, prelude::*}; use rt::*;\n"


def line(i, ts):
    return f"fn f{i}() {{ let p = parser!({show(ts)}); chk(&p); }}\n"


def survivors(rc, items):
    """Which of the items compile: failing ones are taken out until the rest compile."""
    while items:
        text = HEAD + "".join(line(i, ts) for i, ts in items)
        ok, errs, raw = rc.compile(text, True)
        if ok:
            return items
        bad = {l - 2 for l, _ in errs if l}
        if not bad:
            if len(items) == 1:
                return []
            h = len(items) // 2
            return survivors(rc, items[:h]) + survivors(rc, items[h:])
        items = [x for k, x in enumerate(items) if k not in bad]
    return []


def compilable(ts):
    """Can be written down at all (no lone `'` and the like)."""
    return True


def check(rc, tier, st, extra):
    seen = set()
    extra["must_compile"] = extra["must_not_compile"] = 0
    for n, (name, bounds, fs) in enumerate(spaces(tier)):
        t0 = time.time()
        good, bad, open_ = [], [], 0
        for f in fs:
            s = show(f)
            if s in seen:
                continue
            seen.add(s)
            c, why = classify(f)
            st["transitions"] += 1
            i = len(good) + len(bad)
            if c == GOOD:
                good.append((i, f))
            elif c == BAD:
                bad.append((i, f))
            else:
                open_ += 1
        for ok in pool(lambda c: (c, survivors(rc, c)), chunks(good, 400)):
            c, kept = ok
            if len(kept) != len(c):
                have = {i for i, _ in kept}
                for i, f in c:
                    if i not in have:
                        r, errs, raw = rc.compile(HEAD + line(0, f), True)
                        if not r:
                            return n, i, f"{name}: parser!({show(f)}) is a pattern but does not compile: {errs[0][1] if errs else raw[-300:]}"
                raise Broken("patterns that fail to compile together compile alone")
        for kept in pool(lambda c: survivors(rc, c), chunks(bad, 700)):
            for i, f in kept:
                r, errs, raw = rc.compile(HEAD + line(0, f), True)
                if r:
                    return n, i, f"{name}: parser!({show(f)}) is not a pattern ({classify(f)[1]}) but compiles"
                raise Broken("sequences that compile together do not compile alone")
        st["patterns"] += len(good) + len(bad)
        st["states"] += len(good) + len(bad) + open_
        st["accepted"] += len(good)
        st["rejected"] += len(bad)
        extra["must_compile"] += len(good)
        extra["must_not_compile"] += len(bad)
        extra["left_open"] = extra.get("left_open", 0) + open_
        for f in bad[len(bad) // 3:len(bad) // 3 + 1]:
            st["samples"].append(f"{name}: parser!({show(f[1])}) is rejected ({classify(f[1])[1]})")
        for f in good[len(good) // 2:len(good) // 2 + 1]:
            st["samples"].append(f"{name}: parser!({show(f[1])}) compiles")
        st["parts"].append(f"{name} [{bounds}]: {len(good)} patterns, {len(bad)} other sequences, {open_} not settled by the documentation")
        print(f"gen: part {st['parts'][-1]}, {time.time() - t0:.1f}s", file=sys.stderr)
