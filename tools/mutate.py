#!/usr/bin/env python3
"""mutate.py [--files a,b] [--only N..M] OUT.jsonl
Small textual changes to every line of /repo/src (outside tests and comments),
one at a time, in scratch copies under /tmp/mut: those that compile and pass the
repository's tests are run against the checks until one catches them. What is
left are changes without effect, or gaps."""
import json, os, random, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tryseed as T
T.W = "/tmp/mut"
T.REPO, T.VERIF = T.W + "/repo", T.W + "/verif"
SUBS = [
    (r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r"&&", "||"), (r"\|\|(?! )", "&&"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ 1\b", ""), (r" \+ 1\b", " + 2"), (r" - 1\b", ""), (r" - 2\b", " - 1"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "3"),
    (r"is_ok\(\)", "is_err()"), (r"is_err\(\)", "is_ok()"), (r"starts_with", "ends_with"), (r"ends_with", "starts_with"), (r"\.find\(", ".rfind("), (r"\.rfind\(", ".find("), (r"\.last\(\)", ".first()"), (r"last_mut", "first_mut"),
    (r"\.is_pattern_next\(\)", ".is_pattern_next() == false"), (r"\bstart\b", "0"), (r"\bstart\b", "(start + 1)"), (r"\bend\b", "(end + 1)"), (r"start \+ ", ""), (r" \+ offset", ""), (r"\* ?2", "* 3"), (r"% 2", "% 3"), (r"/ 2", "/ 3"),
    (r"\?;", ";"), (r"^(\s*)[a-z_.]+(\(.*\))?(\.[a-z_]+\(.*\))*;$", r"\1;"), (r"\breturn Ok\(\(\)\);", ";"), (r"return Err\(Reported\);", ";"), (r"Left", "Right"), (r"Right", "Left"), (r"Some\(max\)", "Some(_max)"),
    (r"\[0-9\]\+", "[0-9]*"), (r"\[0-9\]\*", "[0-9]+"), (r"\[\+-\]\?", "-?"), (r"\[\+-\]\?", "[+-]*"), (r"0-9", "1-9"), (r"A-F", "A-E"), (r"a-f", "a-z"), (r"\(\?i\)", ""), (r"\\A", ""), (r"\[01\]", "[0-9]"), (r"\\\.", "."), (r"infinity\|inf", "inf|infinity"), (r"nan\|", ""),
    (r"uint_regex", "int_regex"), (r"int_bin_regex", "int_regex"), (r"int_hex_regex", "int_bin_regex"), (r"from_str_radix\(s, 2\)", "from_str_radix(s, 10)"), (r"from_str_radix\(s, 16\)", "from_str_radix(s, 10)"),
    (r"is_alphabetic", "is_alphanumeric"), (r"is_alphanumeric", "is_alphabetic"), (r"is_uppercase", "is_ascii_uppercase"), (r"is_lowercase", "is_ascii_lowercase"), (r"is_ascii_digit", "is_numeric"), (r"chars\(\)", "chars().rev()"), (r"len_utf8\(\)", "len_utf8().min(1)"), (r"chars\(\)\.count\(\)", "len()"),
    (r"\bNone\b", "Some(1)"), (r"\bNone\b", "Some(5)"), (r"\.collect\(\)", ".rev().collect()"), (r"\.into_iter\(\)", ".into_iter().skip(1)"), (r"\+", "*"), (r"context\.report\((.*)\)\)", r"{ let _ = \1; Reported })"), (r"\\n\\n", r"\\n"), (r"'\\n'", r"'\\r'"), (r"source\.len\(\)", "(source.len() - 1)"), (r"source\.len\(\)", "start"),
    (r"min\(", "max("), (r"\binner_end\b", "outer_end"), (r"Mode::Advance\b", "Mode::YieldThenBacktrack"), (r"Mode::BacktrackTopIter\b", "Mode::Exhausted"), (r"Mode::YieldThenBacktrack\b", "Mode::BacktrackTopIter"), (r"Mode::Exhausted\b", "Mode::YieldThenBacktrack"),
    (r"self\.location\b", "(self.location + 1)"), (r"self\.tail_iter", "self.head_iter"), (r"self\.head_iter", "self.tail_iter"), (r"head, tail", "tail, head"), (r"iter\.convert\(\)", "{ let _ = iter.convert(); iter.convert() }"), (r"\bplus\(", "star("), (r"\bstar\(", "plus("), (r"single_value\(", "("), (r"\bopt\(\$top\)", "star($top)"),
    (r"\$crate::macros::alt\(\$out, (.*)\) \]$", r"$crate::macros::alt(\1, $out) ]"), (r"sequence\(\$head, \$out\)", "sequence($out, $head)"), (r"pair\(\$head, \$out\)", "pair($out, $head)"), (r"\(\$head, \$out\)", "($out, $head)"), (r"\[ \$label , ", "[ _ , "), (r"\[ _ , ", "[ "), (r"\$\( ?\$tail ?\)\*", ""), (r"\$\( ?\$tail:tt ?\)\*", ""), (r"\$\( ?\$seq ?\)\*", ""), (r"compile_error!?\(", "stringify!("),
]
FIRST = {"macros.rs": "P19 P18 P20 P22", "lines.rs": "P07 P08 P05 P01", "repeat.rs": "P15 P01 P05 P03", "primitive.rs": "P10 P11", "chars.rs": "P12 P13", "regex.rs": "P10 P05", "error.rs": "P06 P05", "context.rs": "P05 P16 P06", "rule_set.rs": "P16 P01", "collections.rs": "P21", "string.rs": "P14", "util.rs": "P23", "exact.rs": "P13", "types.rs": "P18", "map.rs": "P09", "dynamic.rs": "P16", "traits.rs": "P01 P05", "either.rs": "P02 P05 P03", "sequence.rs": "P02 P05 P03", "empty.rs": "P01", "lib.rs": ""}

# whatever the file
REST = "P01 P05 P04 P25 P24 P17".split()


def sites(repo):
    for root, _, fs in sorted(os.walk(repo + "/src")):
        for f in sorted(fs):
            p = os.path.join(root, f)
            if f == "testing.rs" or not f.endswith(".rs"):
                continue
            ls = open(p).read().split("\n")
            for i, l in enumerate(ls):
                if "#[cfg(test)]" in l:
                    break
                if re.match(r"\s*//", l) or not l.strip() or re.match(r"\s*(use|pub use|mod|pub mod|#)", l):
                    continue
                seen = set()
                code = l
                for a, b in SUBS:
                    for m in re.finditer(a, code):
                        n = code[:m.start()] + m.expand(b) + code[m.end():] if "\\" in b else code[:m.start()] + b + code[m.end():]
                        if n != l and n not in seen:
                            seen.add(n)
                            yield p, i, l, n
                # a whole arm or statement gone
                if f == "macros.rs" and re.match(r"    \(@", l):
                    j = i
                    while not re.match(r"    \};", ls[j]):
                        j += 1
                    yield p, (i, j), l + " ...", None


def main():
    a = sys.argv[1:]
    files = None
    lo, hi = 0, 10 ** 9
    while a[0].startswith("--"):
        if a[0] == "--files":
            files = a[1].split(",")
        if a[0] == "--only":
            lo, hi = map(int, a[1].split(".."))
        a = a[2:]
    out = open(a[0], "a")
    T.prepare()
    done = {json.loads(l)["key"] for l in open(a[0])}
    todo = [x for x in sites(T.REPO) if files is None or os.path.basename(x[0]) in files]
    print(len(todo), "changes", flush=True)
    random.Random(1).shuffle(todo)
    for k, (p, i, old, new) in enumerate(todo):
        key = f"{os.path.relpath(p, T.REPO)}:{i}:{new}"
        if key in done or not lo <= k < hi:
            continue
        if new is not None and re.match(r'\s*(:?:?core::(compile_error|concat)!\()?\(?"', old) and re.sub(r'"[^"]*"', "", old) == re.sub(r'"[^"]*"', "", new) and p.endswith("macros.rs"):
            continue        # the text of a compiler message
        if "assert" in old or "internal error" in old:
            continue        # checks of the code's own
        ls = open(p).read().split("\n")
        keep = "\n".join(ls)
        if new is None:
            del ls[i[0]:i[1] + 1]
        else:
            ls[i] = new
        open(p, "w").write("\n".join(ls))
        r = {"key": key, "old": old, "new": new}
        t0 = time.time()
        rc, o = T.sh("cargo build --offline --lib 2>&1", T.REPO, 120)
        if rc:
            r["result"] = "does not compile"
        else:
            rc, o = T.sh("timeout -k 1 60 cargo test --lib --tests --offline -- --test-threads 8 2>&1 && timeout -k 1 100 cargo test --doc --offline 2>&1", T.REPO, 200)
            if rc:
                r["result"] = "tests fail"
            else:
                r["result"] = "NOT CAUGHT"
                f = FIRST.get(os.path.basename(p), "").split()
                for c in f + [x for x in REST if x not in f]:
                    rc, o = T.in_ns(f"./check {c} --tier quick")
                    if rc == 1 and "VIOLATION" in o:
                        r["result"] = "caught by " + c
                        break
                    if rc not in (0, 1):
                        r.setdefault("errors", []).append(f"{c}: rc {rc} {o[-300:]}")
                        if "does not build" in o:
                            break
        r["time"] = round(time.time() - t0)
        open(p, "w").write(keep)
        out.write(json.dumps(r) + "\n")
        out.flush()
        if "compile" not in r["result"] and "tests" not in r["result"]:
            print(k, key, "|", old.strip(), "|", r["result"], r["time"], flush=True)
    print("done", flush=True)


main()
