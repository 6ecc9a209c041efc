#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [--replay FILE] [--tier quick|thorough] [--seed N] [--only SUB].

Builds the property's program against /repo's working tree, runs it, writes evidence/ID.json.
Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2 or 3: no answer (build failure, time)."""
import argparse, hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(HERE, "harness")
REPO = "/repo"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR"):
    ENV.pop(k, None)


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in sorted(files):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def build(bin, profile, feature=None):
    """Builds one program; the library is rebuilt whenever its sources differ from the last build's."""
    target = os.path.join(H, "target" + ("-" + feature if feature else ""))
    base = ["--manifest-path", os.path.join(H, "Cargo.toml"), "--offline", "--profile", profile, "--target-dir", target]
    stamp = os.path.join(target, "stamp-" + profile)
    want = tree_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != want:
        subprocess.run(["cargo", "clean"] + base + ["-p", "mixed-num"], cwd=H, env=ENV, capture_output=True)
        if os.path.exists(stamp):
            os.remove(stamp)
    r = subprocess.run(["cargo", "build"] + base + ["--bin", bin] + (["--features", feature] if feature else []), cwd=H, env=ENV, capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-6000:])
        print("INCONCLUSIVE: the check does not build", flush=True)
        sys.exit(2)
    os.makedirs(target, exist_ok=True)
    open(stamp, "w").write(want)
    return os.path.join(target, profile if profile != "dev" else "debug", bin)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    t0 = time.time()
    bin = a.id.lower()
    known = [k["id"] for k in json.load(open(os.path.join(HERE, "known-findings.json")))["findings"] if k["property"] == a.id]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replays = os.path.join(HERE, "replays")
    profiles = ["checked"] if a.tier == "quick" else ["checked", "release"]
    if a.replay:
        profiles = [json.load(open(a.replay)).get("build", "checked")]
    parts, code = [], 0
    build_s = 0.0
    for profile in profiles:
        t1 = time.time()
        extra = []
        if a.id == "C32":
            with ThreadPoolExecutor(2) as pool:
                exe, other = pool.map(lambda f: build(bin, profile, f), [None, "std"])
            extra = ["--other", other]
        else:
            exe = build(bin, profile)
        build_s += time.time() - t1
        out = os.path.join(HERE, "evidence", f".{a.id}.{profile}.json")
        if os.path.exists(out):
            os.remove(out)
        cmd = [exe, "--build", profile, "--tier", a.tier, "--seed", str(a.seed), "--out", out, "--replays", replays] + extra
        for k in known:
            cmd += ["--known", k]
        if a.replay:
            cmd += ["--replay", os.path.abspath(a.replay)]
        if a.only:
            cmd += ["--only", a.only]
        r = subprocess.run(cmd, cwd=HERE, env=ENV, stdout=subprocess.PIPE, text=True)
        # A finding is announced once, not once per build.
        lines = [l for l in r.stdout.splitlines() if not (l.startswith("KNOWN-FINDING") and parts)]
        print("\n".join(lines), flush=True)
        if os.path.exists(out):
            parts.append(json.load(open(out)))
            os.remove(out)
        if r.returncode == 1 and "VIOLATION property=" in r.stdout:
            code = 1
            break
        if r.returncode:
            print(f"INCONCLUSIVE: {bin} ended with {r.returncode}")
            sys.exit(3)
    if a.replay:
        sys.exit(code)
    cov = dict(
        evaluations=sum(p["evaluations"] for p in parts),
        distinct_nontrivial=max([p["distinct_nontrivial"] for p in parts], default=0),
        rule=parts[0]["rule"] if parts else "",
        samples=parts[0]["samples"] if parts else [],
        builds=parts,
        build_s=round(build_s, 1),
    )
    if parts:
        cov["rule"] = "Cases: proptest generators seeded by VERIF_SEED and enumerations, per scalar type and form (sub-check). Non-trivial: " + cov["rule"]
    ev = dict(property=a.id, tier=a.tier, seed=a.seed, level="exploration", coverage=cov,
              assumptions=parts[0]["assumptions"] if parts else [], wall_s=round(time.time() - t0, 2),
              violations=sum(p["violations"] for p in parts) or code)
    json.dump(ev, open(os.path.join(HERE, "evidence", a.id + ".json"), "w"), indent=1)
    sys.exit(code)


main()
