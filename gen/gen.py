"""P18, P19, P20: what the parser! macro makes of pattern source.

Programs with every pattern of a bounded family written out in parser!(...)
are compiled against /repo's crate and run; outcomes are compared with the
reference in pat.py (P18, P19), or with the reference recogniser in
malformed.py (P20: which token sequences must be rejected)."""
import json, os, sys, time
from concurrent.futures import ProcessPoolExecutor
import build, enums, malformed
from build import Broken, Rustc, chunks, pool
from pat import *

LIMIT = "#![recursion_limit = \"2048\"] "
HEAD = "extern crate rt; use rt::aoc_parse::{parser, prelude::*, Parser}; use rt::*; use std::collections::*;\n"


def fragments(e):
    """-> the parameters of a macro that is given the primitive terms of e, the
    pattern made of these parameters, and the arguments"""
    ps, out, args = [], [], []
    for t in terms(e):
        label = ""
        if t.k == "lab":
            label, t = t.a[0] + ":", t.a[1]
        quants = ""
        while t.k == "q":
            quants, t = t.a[0] + quants, t.a[1]
        n = f"$z{len(ps)}"
        if t.k == "call":
            ps += [n + ":ident", n + "a:tt"]
            out.append(label + n + " " + n + "a" + quants)
        else:
            ps.append(n + (":literal" if t.k == "lit" else ":ident" if t.k in ("leaf", "const", "var", "ref") else ":tt"))
            out.append(label + n + quants)
        args.append(src(t))
    return " ".join(ps), " ".join(out), " ".join(args)


def fn(i, e, texts, opts={}):
    """One line of source: a function that builds e and runs the texts."""
    call = opts.get("call", "parser!")
    lets = "".join(f"let {n} = {src(b) if n.startswith('text') else call + '(' + src(b) + ')'}; " for n, b in need_vars(e, []))
    lets += "".join(f"fn {n}<A, B: Parser>(_a: A, b: B) -> B {{ b }} " for n in need_fns(e))
    top = src(e)
    if opts.get("fragments"):
        ps, out, args = fragments(e.a[1] if e.k == "map" else e)
        lets += f"macro_rules! mine {{ ({ps}) => {{ parser!({out}) }} }} "
        call, top = "mine!", args
    ts = texts if isinstance(texts, str) else "&[" + ", ".join(rstr(s) for s in texts) + "]"
    ty = rust(parser_ty(e))
    if opts.get("returned"):
        body = f"fn mk() -> impl Parser<Output = {ty}> {{ {lets}{call}({top}) }} let p = mk(); go::<{ty}, _>(id, p, {ts});"
    else:
        body = f"{lets}let p = {call}({top}); go::<{ty}, _>(id, p, {ts});"
    return f"fn f{i}(id: u32) {{ " + opts.get("around", "BODY").replace("BODY", body) + " }\n"


def rstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def program(items, head):
    """items: (id, line). -> source, {line number: id}"""
    out, lines = [head], {}
    n = 2
    for i, t in items:
        out.append(t)
        lines[n] = i
        n += t.count("\n")
    return out, lines


def texts_of(e):
    w = witnesses(e)
    out = list(w)
    for s in w[:4]:
        for c in (s[:-1], s[1:], s + "x", s + "1", "x" + s):
            if c not in out:
                out.append(c)
    if "" not in out:
        out.append("")
    return out


def expect(args):
    """-> per pattern: (expected line without id, texts, steps, accepted)"""
    res = []
    for e, texts in args:
        ts = texts if texts is not None else texts_of(e)
        r = run_texts(e, ts)
        if texts is not None and r is not None and r[2] == 0:
            ts = texts + [s for s in texts_of(e) if s not in texts]
            r = run_texts(e, ts)
        res.append(None if r is None else (r[0], ts) + r[1:])
    return res


def run_texts(e, ts):
    o, steps, acc = "", 0, 0
    skip = False
    for i, s in enumerate(ts):
        try:
            v, n = parse(e, s)
        except (Ill, RecursionError):
            skip = True
            break
        steps += n
        if v is not None:
            acc += 1
            o += f"|{i}={v}"
    return None if skip else (o.replace("\n", "\\n"), steps, acc)


def run_family(rc, fam, st):
    """-> None or (unit, what)"""
    name, bounds, pats, opts = fam
    t0 = time.time()
    with ProcessPoolExecutor(build.JOBS) as ex:
        exp = [x for c in ex.map(expect, chunks(pats, 64)) for x in c]
    shared = pats and pats[0][1] is not None and all(ts is pats[0][1] for _, ts in pats)
    todo = []
    for i, ((e, texts), x) in enumerate(zip(pats, exp)):
        if x is None:
            st["skipped"] += 1
            continue
        todo.append((i, e, "T" if shared and len(x[1]) == len(texts) else x[1]))
    head = [] if not shared else ["const T: &[&str] = &[" + ", ".join(rstr(s) for s in pats[0][1]) + "];\n"]

    def source(items):
        ps, lines = program([(-1, h) for h in head] + [(i, fn(i, e, ts, opts)) for i, e, ts in items], opts.get("limit", LIMIT) + opts.get("head", "") + HEAD)
        ps.append("fn main() { rt::main(&[" + ", ".join(f"({i}, f{i} as fn(u32))" for i, _, _ in items) + "]); }\n")
        return "".join(ps), lines

    def shard(items):
        text, lines = source(items)
        out = rc.path(".bin")
        ok, errs, raw = rc.compile(text, False, out, opts.get("edition", "2021"))
        if not ok:
            bad = sorted({lines[l] for l, _ in errs if l in lines and lines[l] >= 0})
            return ("compile", bad or None, errs[:1], items)
        r = build.subprocess.run(["timeout", "300", out], stdout=build.subprocess.PIPE, stderr=build.subprocess.DEVNULL, text=True, errors="replace")
        got = {}
        for l in r.stdout.splitlines():
            i, _, rest = l.partition("|")
            got[int(i)] = "|" + rest if rest else ""
        bad = None
        for i, e, ts in items:
            if got.get(i) != exp[i][0]:
                bad = i
                break
        res = None
        if bad is not None:
            if bad not in got:      # the program died there: does it alone?
                r2 = build.subprocess.run(["timeout", "60", out, str(bad)], stdout=build.subprocess.PIPE, stderr=build.subprocess.DEVNULL, text=True, errors="replace")
                if r2.returncode != 0:
                    res = ("died", bad, r2.returncode)
                else:
                    res = ("odd", bad, r.returncode)
            else:
                res = ("differs", bad, got[bad])
        os.remove(out)
        return res

    size = max(20, min(250, -(-len(todo) // build.JOBS)))
    results = pool(shard, chunks(todo, size))
    by_id = {i: (e, ts) for i, e, ts in todo}
    for r in results:
        if r is None:
            continue
        if r[0] == "compile":
            cand = r[1] or [i for i, _, _ in r[3]]
            for i in cand:      # alone
                e, ts = by_id[i]
                text, _ = source([(i, e, ts)])
                ok, errs, raw = rc.compile(text, False, rc.path(".bin"), opts.get("edition", "2021"))
                if not ok:
                    msg = errs[0][1] if errs else raw[-400:]
                    return i, f"{name}: parser!({src(e)}) is well formed but does not compile (or not with output type {rust(parser_ty(e))}): {msg}"
            raise Broken(f"{name}: a program does not compile, but no pattern alone fails: {r[2]}")
        if r[0] == "died":
            return r[1], f"{name}: parser!({src(by_id[r[1]][0])}) ended the program or did not return (status {r[2]})"
        if r[0] == "odd":
            raise Broken(f"{name}: program ended with {r[2]}, but pattern {r[1]} alone does not")
        i = r[1]
        e = by_id[i][0]
        ts = exp[i][1]
        return i, f"{name}: parser!({src(e)})" + lets_note(e) + first_diff(ts, exp[i][0], r[2])
    for i, e, ts in todo:
        x = exp[i]
        st["patterns"] += 1
        st["states"] += len(x[1])
        st["transitions"] += x[2]
        st["accepted"] += x[3]
        st["rejected"] += len(x[1]) - x[3]
    if todo:
        for i, e, ts in (todo[len(todo) // 3], todo[-1]):
            ts = exp[i][1]
            acc = [a.split("=", 1) for a in exp[i][0].split("|")[1:]]
            st["samples"].append(f"{name}: parser!({src(e)}) on {len(ts)} texts accepts " + "; ".join(f"{ts[int(k)]!r} -> {v}" for k, v in acc[:3]))
    st["parts"].append(f"{name} [{bounds}]: {len(todo)} patterns, {sum(len(exp[i][1]) for i, _, _ in todo)} parses")
    print(f"gen: part {st['parts'][-1]}, {time.time() - t0:.1f}s", file=sys.stderr)


def lets_note(e):
    v = need_vars(e, [])
    return "" if not v else " with " + ", ".join(f"{n} = {src(b) if n.startswith('text') else 'parser!(' + src(b) + ')'}" for n, b in v)


def table(o):
    return {int(k): v for k, v in (a.split("=", 1) for a in o.split("|")[1:])} if o else {}


def first_diff(ts, want, got):
    try:
        w, g = table(want), table(got)
    except ValueError:
        return f": expected {want!r}, got {got!r}"
    for i, s in enumerate(ts):
        if w.get(i) != g.get(i):
            return f" on {s!r}: expected {w.get(i, 'a parse error')}, got {g.get(i, 'a parse error')}"
    return f": expected {want!r}, got {got!r}"


def evidence(f, pid, tier, st, t0, viol, extra=None):
    cov = {"states": st["states"], "transitions": st["transitions"], "traces_validated_against_impl": st["patterns"],
           "accepted": st["accepted"], "rejected": st["rejected"], "cases_beyond_model_step_cap": st["skipped"],
           "samples": st["samples"][:24] or ["(none)"], "parts": st["parts"], "exhaustive": st["skipped"] == 0 and not viol}
    cov.update(extra or {})
    with open(f, "w") as h:
        json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
                   "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}, h, indent=1, ensure_ascii=False)
        h.write("\n")


def check(pid, tier, ev, env, target):
    """-> None or (part, unit, what). Raises Broken when there is no answer."""
    t0 = time.time()
    st = {"patterns": 0, "states": 0, "transitions": 0, "accepted": 0, "rejected": 0, "skipped": 0, "samples": [], "parts": []}
    rc = Rustc(env, target)
    viol = None
    extra = {}
    try:
        if pid == "P20":
            viol = malformed.check(rc, tier, st, extra)
        else:
            for n, fam in enumerate(enums.p18(tier) if pid == "P18" else enums.p19(tier)):
                bad = run_family(rc, fam, st)
                if bad:
                    viol = (n, bad[0], bad[1])
                    break
    finally:
        rc.close()
    evidence(ev, pid, tier, st, t0, viol, extra)
    return viol
