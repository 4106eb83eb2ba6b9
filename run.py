#!/usr/bin/env python3
"""Runs the check of one property: builds what it needs from /repo's working tree, runs the check binaries,
writes evidence/<property>.json and, on a violation, a replay file.

  run.py PROPERTY [quick|thorough]     exit 0 held, 1 violated, 2 could not be decided
  run.py --replay FILE                 runs one recorded case again
  run.py --build                       builds everything (setup)
"""
import hashlib
import json
import os
import resource
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPO = "/repo"
TARGET = os.path.join(HARNESS, "target")

# property -> binaries that decide it: (package, profile)
FSM, FSM_ND = ("fsm", "dev"), ("fsm", "nodebug")
RUNS = {
    **{f"P{i:02}": [FSM] for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 18, 30, 41)},
    "P15": [("handles", "dev"), FSM],
    **{f"P{i}": [("streamsim", "dev")] for i in (19, 20, 21, 22, 33, 38)},
    **{p: [("proxysim", "dev")] for p in ("P23", "P24", "P25", "P34", "P37")},
    "P35": [FSM, ("streamsim", "dev")],
    **{p: [FSM, ("streamsim", "dev"), ("proxysim", "dev")] for p in ("P36", "P39", "P40")},
    "P26": [("config", "dev")],
    "P27": [("config", "dev")],
    "P28": [("config", "dev")],
    "P17": [("fsm", "nodebug"), ("streamsim", "nodebug"), ("proxysim", "nodebug")],
    "P31": [("identities", "dev"), ("proxysim", "dev")],
    "P29": [("tags", "dev"), ("tags", "nodebug")],
    "P32": [("handles", "dev"), ("handles-sched", "dev"), FSM],
}
# What is said of debug builds holds in release builds too, where some code is left out: a part of the cases.
PART, ADDED = 0.3, set()
for p, v in RUNS.items():
    # (not P39, which compares times)
    if p != "P39" and all(profile == "dev" for _, profile in v):
        v += [(package, "nodebug") for package, _ in v if package in ("fsm", "streamsim", "proxysim")]
        ADDED.add(p)
# Variants that need the source in a form it may lose without any change in behaviour: left out if they do not build.
OPTIONAL = {"handles-sched", "identities"}


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUST")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    return e


def repo_hash():
    h = hashlib.sha256()
    for top in ("src", "proxy/src", "tag-generator/src"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    return h.hexdigest()


def profile_dir(profile):
    return os.path.join(TARGET, "debug" if profile == "dev" else profile)


# Packages compiled from /repo's files, by cargo's package name.
FROM_REPO = ("imap-next", "tag-generator", "handles", "handles-sched", "config", "proxysim", "proxylib", "identities")


def forget_stale(profile):
    """cargo decides by modification times; a tree that was copied may have older ones. Where the contents of
    /repo are not those of the last build, what was built from them is forgotten."""
    d = profile_dir(profile)
    stamp = os.path.join(d, "repo-hash")
    now = repo_hash()
    try:
        with open(stamp) as f:
            if f.read() == now:
                return
    except OSError:
        pass
    fp = os.path.join(d, ".fingerprint")
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if n.rsplit("-", 1)[0] in FROM_REPO:
                shutil.rmtree(os.path.join(fp, n))
    os.makedirs(d, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(now)


def build(package, profile):
    forget_stale(profile)
    # Every member of the workspace must have its sources, whichever is built.
    subprocess.run([sys.executable, os.path.join(HARNESS, "proxysim", "prepare.py")], check=True)
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--profile", profile, "-p", package]
    r = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


def binary(package, profile):
    return os.path.join(profile_dir(profile), package)


def known_findings(prop):
    """Lines `finding: property=<id> section=<section> match=<text in the message> what=<what fails>`."""
    out = []
    try:
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for line in f:
                if line.startswith(f"finding: property={prop} "):
                    fields = line.strip().split(" what=", 1)
                    out.append((fields[0].split(" match=", 1)[1] if " match=" in fields[0] else None, fields[1]))
    except OSError:
        pass
    return out


def replay_path(prop, text):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{hashlib.sha256(text.encode()).hexdigest()[:12]}.json")
    with open(p, "w") as f:
        f.write(text)
    return p


def limit_cpu():
    resource.setrlimit(resource.RLIMIT_CPU, (40, 60))


def stuck_cases(prop, exe, state):
    """The cases under way when the binary died or made no progress, each run alone. A case of a few milliseconds
    that uses 40 s of processor time, or kills the process, twice, is a violation."""
    try:
        with open(state) as f:
            lines = f.read().split("\n")
    except (OSError, UnicodeDecodeError):
        return None
    for line in lines:
        parts = line.replace("\0", " ").split()
        if len(parts) != 2:
            continue
        ends = []
        for _ in range(2):
            try:
                r = subprocess.run([exe, prop, "--section", parts[0], "--case-seed", parts[1]], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300, preexec_fn=limit_cpu)
                ends.append((r.returncode, r.stdout[-1500:]))
            except subprocess.TimeoutExpired:
                ends.append((None, ""))
            if ends[-1][0] in (0, None):
                break
        if len(ends) == 2 and all(e[0] not in (0, None) for e in ends):
            code, out = ends[0]
            what = out if code == 1 else "the case does not end" if code in (-24, -9) else f"the case ends the process with {code}: {out}"
            return {"property": prop, "section": parts[0], "case_seed": int(parts[1]), "tape": [], "message": what, "case": ""}
    return None


def tail(text, n=40):
    return "\n".join(text.splitlines()[-n:])


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "state"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "sections": []}, "violations": 0, "wall_s": 0}
    cov = ev["coverage"]
    rules, found, undecided = [], None, None
    for package, profile in RUNS[prop]:
        name = package if profile == "dev" else f"{package} without debug assertions"
        ok, out = build(package, profile)
        if not ok:
            if package in OPTIONAL:
                print(f"note: {package} does not build with this source, left out")
                cov["sections"].append({"section": name, "left_out": "does not build with this source"})
                continue
            print(tail(out))
            undecided = f"{package} does not build"
            break
        added = prop in ADDED and profile == "nodebug"
        exe = binary(package, profile)
        res, state = (os.path.join(HERE, "state", f"{prop}-{package}-{profile}-{os.getpid()}.{x}") for x in ("json", "cases"))
        for attempt in (1, 2):
            for p in (res, state):
                if os.path.exists(p):
                    os.unlink(p)
            r = subprocess.run([exe, prop, "--tier", tier, "--seed", str(seed + 1_000_000 * added), "--scale", str(PART if added else 1), "--out", res, "--state", state], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode in (0, 1) and os.path.exists(res):
                break
            found = stuck_cases(prop, exe, state)
            if found:
                break
            print(f"{exe} ended with {r.returncode} and no single case explains it\n{tail(r.stdout)}")
        if found:
            for p in (res, state):
                if os.path.exists(p):
                    os.unlink(p)
            found.update(package=package, profile=profile)
            break
        if not os.path.exists(res):
            undecided = f"{exe} ended with {r.returncode}"
            break
        with open(res) as f:
            data = json.load(f)
        for p in (res, state):
            if os.path.exists(p):
                os.unlink(p)
        cov["evaluations"] += data["evaluations"]
        cov["distinct_nontrivial"] += data["distinct_nontrivial"]
        for s in data["sections"]:
            s["section"] = f"{name}: {s['section']}"
            cov["sections"].append(s)
            rules.append(f"{s['section']}: non-trivial is {s['rule']}")
        cov["samples"] += data["samples"][:6]
        if data["violation"]:
            found = data["violation"]
            found.update(package=package, profile=profile)
            print(tail(r.stdout, 80))
            break
    cov["rule"] = "Each case is generated from the seed alone. " + "; ".join(rules)
    known = known_findings(prop)
    listed = [k for k in known if found and k[0] and k[0] in found["message"]]
    ev["violations"] = 1 if found and not listed else 0
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for _, what in known:
        print(f"KNOWN-FINDING: property={prop} {what}")
    if found and not listed:
        print(found["message"])
        print(f"VIOLATION property={prop} replay={replay_path(prop, json.dumps(found, indent=1))}")
        return 1
    if undecided:
        print(f"undecided: {undecided}")
        return 2
    print(f"{prop} held: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct and non-trivial, {ev['wall_s']} s")
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    ok, out = build(d["package"], d["profile"])
    if not ok:
        print(tail(out))
        return 2
    return subprocess.run([binary(d["package"], d["profile"]), "--replay", path], env=env()).returncode


def main():
    a = sys.argv[1:]
    if a[:1] == ["--build"]:
        for package, profile in sorted({r for v in RUNS.values() for r in v}):
            ok, out = build(package, profile)
            print(f"{package} {profile}: {'built' if ok else 'failed'}")
            if not ok and package not in OPTIONAL:
                print(out)
                return 2
        return 0
    if a[:1] == ["--replay"]:
        return replay(a[1])
    return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))


sys.exit(main())
