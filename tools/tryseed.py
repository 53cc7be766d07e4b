#!/usr/bin/env python3
"""tryseed.py [--checks own|all|none|P01,P02] <seed>...
Confirms seeded bugs in scratch copies of /repo and /verif under /tmp/seedtry
(bind-mounted over the real ones in a private mount namespace):
the patch applies and builds, the repository's stable tests pass, demo.sh exits
0 without it and non-zero with it; then runs the checks against it."""
import json, os, re, shutil, subprocess, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedtry"
REPO, VERIF = W + "/repo", W + "/verif"
ALL = [f"P{i:02}" for i in range(1, 26)]


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never")
    e.update(env or {})
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=e)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return 124, "timeout"


def prepare():
    os.makedirs(W, exist_ok=True)
    for a, b, ex in (("/repo/", REPO, ["--exclude=/target"]), (H + "/", VERIF, ["--exclude=/seeded", "--exclude=/evidence", "--exclude=/.git", "--exclude=/target"])):
        subprocess.run(["rsync", "-a", "--delete", *ex, a, b], check=True) if shutil.which("rsync") else copy(a, b, ex)
    if not os.path.exists(VERIF + "/target"):
        subprocess.run(["cp", "-a", H + "/target", VERIF + "/target"], check=True)


def copy(a, b, ex):
    skip = {e.split("/")[-1] for e in ex}
    os.makedirs(b, exist_ok=True)
    for n in os.listdir(b):
        if n not in ("target",):
            subprocess.run(["rm", "-rf", os.path.join(b, n)])
    for n in os.listdir(a):
        if n not in skip:
            subprocess.run(["cp", "-a", os.path.join(a, n), b], check=True)


def tests():
    rc, out = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", REPO)
    bad = re.findall(r"^test (.*) \.\.\. FAILED", out, re.M)
    n = sum(int(x) for x in re.findall(r"(\d+) passed", out))
    return rc == 0 and n >= 107, f"rc {rc}, {n} passed, failed {bad[:4]}" + ("" if n else out[-1500:])


def in_ns(cmd, timeout=900):
    s = f"mount --bind {REPO} /repo && mount --bind {VERIF} /verif && cd /verif && {cmd}"
    return sh("unshare -Urm bash -c '" + s + "'", timeout=timeout)


def note(s, p):
    """Remember which checks caught which bug (for tools/seedtable.py)."""
    f = H + "/tools/caught.json"
    c = json.load(open(f))
    have = c[s].split(" ") if s in c else []
    c[s] = " ".join(sorted(set(have + [p])))
    json.dump(c, open(f, "w"), indent=0, sort_keys=True)


def main():
    a = sys.argv[1:]
    checks = "own"
    if a and a[0] == "--checks":
        checks, a = a[1], a[2:]
    if not a:
        a = sorted(os.listdir(H + "/seeded"))
    prepare()
    res = []
    for s in a:
        d = os.path.join(H, "seeded", s)
        meta = json.load(open(d + "/meta.json"))
        line = [s, meta["property"]]
        sh("git checkout -q -- .", REPO)
        demo = W + "/demo"
        subprocess.run(["rm", "-rf", demo])
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        rc0, o0 = sh(f"bash {demo}/demo.sh", REPO, 300)
        rc, o = sh(f"git apply {d}/patch.diff", REPO)
        if rc:
            print(s, "DOES NOT APPLY", o)
            continue
        sh("find src -name '*.rs' -newer Cargo.toml | xargs touch", REPO)
        ok, what = tests()
        rc1, o1 = sh(f"bash {demo}/demo.sh", REPO, 300)
        line.append("tests ok" if ok else "TESTS FAIL " + what)
        line.append(f"demo {rc0}/{rc1}" + ("" if rc0 == 0 and rc1 != 0 else " DEMO BAD " + (o0 if rc0 else o1)[-700:]))
        if ok and rc0 == 0 and rc1 != 0 or "--force" in a:
            which = [meta["property"]] if checks == "own" else ALL if checks == "all" else [] if checks == "none" else checks.split(",")
            for p in which:
                t0 = time.time()
                rc, out = in_ns(f"./check {p} --tier quick")
                v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
                t = f"{time.time() - t0:.0f}s"
                if rc == 1 and v:
                    line.append(f"{p} CAUGHT {t}")
                    note(s, p)
                elif rc == 0:
                    line.append(f"{p} quiet {t}" if p != meta["property"] else f"{p} MISSED {t}")
                else:
                    line.append(f"{p} ERROR rc {rc} {t}: {out[-500:]}")
        sh("git checkout -q -- .", REPO)
        sh("find src -name '*.rs' | xargs touch", REPO)
        print(" | ".join(line), flush=True)


if __name__ == "__main__":
    main()
