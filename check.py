#!/usr/bin/env python3
"""Decides one property: builds its monitor from /repo's working tree, runs it
in several builds, merges what they observed into evidence/<id>.json.

usage: check.py ID [--tier quick|thorough] [--build-only] [--replay FILE]
exit 0: held on everything explored; 1: violated; 2: inconclusive / error of the check.
"""
import argparse, hashlib, json, os, re, resource, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent
HARNESS = VERIF / "harness"
TARGET = HARNESS / "target"
REPO = Path("/repo")
HOST = "x86_64-unknown-linux-gnu"
T0 = time.time()

# variant -> (toolchain args, cargo args, extra RUSTFLAGS, output dir, env)
VARIANTS = {
    "checked": ([], [], "", "debug", {}),
    "release": ([], ["--release"], "", "release", {}),
    "asan": (["+nightly"], ["--release", "--target", HOST], "-Zsanitizer=address", f"{HOST}/release",
             {"ASAN_OPTIONS": "detect_leaks=1:halt_on_error=1:abort_on_error=0:exitcode=99"}),
    "tsan": (["+nightly"], ["--release", "-Zbuild-std", "--target", HOST], "-Zsanitizer=thread", f"{HOST}/release",
             {"TSAN_OPTIONS": "halt_on_error=1:exitcode=99"}),
    "miri": (["+nightly"], [], "", None, {"MIRIFLAGS": "-Zmiri-disable-isolation"}),
}
# property -> {tier: [(variant, scale percent or None, seed offset)]}
DEFAULT = {
    "quick": [("checked", None, 0), ("release", None, 1000)],
    "thorough": [("checked", None, 0), ("release", None, 1000)],
}
PLANS = {
    "C25": {"quick": [("checked", None, 0), ("asan", 40, 1000), ("miri", 0.05, 3000)],
            "thorough": [("checked", None, 0), ("release", None, 2000), ("asan", None, 1000), ("miri", 0.01, 3000)]},
    "C26": {"quick": [("checked", None, 0), ("release", None, 1000), ("tsan", 10, 2000)],
            "thorough": [("checked", None, 0), ("release", None, 1000), ("tsan", 20, 2000)]},
}
MIRI_PROCESSES = 6
ASSUMPTIONS = [
    "observed executions only: inputs outside the generated workload are not covered",
    "the model oracles of the harness (own modular, free-ring, term-hash and double-double arithmetic) are trusted",
    "rustc, the standard library and rand 0.8 are trusted",
]


def say(*a):
    print(*a, flush=True)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in (REPO / "src", HARNESS / "src"):
        files += [p for p in base.rglob("*") if p.is_file()]
    files += [p for p in (REPO / "Cargo.toml", REPO / "build.rs", HARNESS / "Cargo.toml", HARNESS / "Cargo.lock") if p.exists()]
    for p in sorted(files):
        h.update(str(p).encode() + b"\0" + p.read_bytes() + b"\0")
    return h.hexdigest()


def target_dir(variant):
    # sanitizer builds use other flags and a directory of their own
    return TARGET if variant in ("checked", "release") else HARNESS / f"target-{variant}"


def freshen(variant):
    """cargo compares time stamps; a copied tree may carry old ones, so that a
    changed source could look unchanged. Forget the fingerprints whenever the
    contents differ from those of the last build."""
    d = target_dir(variant)
    stamp = d / f"stamp-{variant}"
    want = tree_hash()
    if stamp.exists() and stamp.read_text() == want:
        return stamp, want
    if d.exists():
        for fp in d.glob("**/.fingerprint/*"):
            if fp.name.startswith(("magnesia-", "harness-")) and fp.is_dir():
                for f in fp.iterdir():
                    f.unlink()
                fp.rmdir()
    return stamp, want


def cargo_env(flags, extra):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("CARGO_BUILD", "CARGO_PROFILE", "CARGO_ENCODED", "RUSTC_")) or k in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
            del env[k]
    env["CARGO_NET_OFFLINE"] = "true"
    if flags:
        env["RUSTFLAGS"] = flags
    env.update(extra)
    return env


def build(variant, bins, limit):
    tool, args, flags, _, extra = VARIANTS[variant]
    stamp, want = freshen(variant)
    sel = sum([["--bin", b] for b in bins], []) if bins else ["--bins"]
    if variant == "miri":
        return True  # built by the run
    cmd = ["cargo", *tool, "build", "--offline", "--locked", "--target-dir", str(target_dir(variant)), *args, *sel]
    if "-Zbuild-std" in args:
        cmd.remove("--locked")
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=HARNESS, env=cargo_env(flags, extra), capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        say(f"INCONCLUSIVE: building {variant} took over {limit:.0f} s")
        return False
    if p.returncode != 0:
        sys.stdout.write(p.stderr[-4000:])
        say(f"INCONCLUSIVE: the {variant} build of the monitor failed")
        return False
    stamp.parent.mkdir(parents=True, exist_ok=True)
    stamp.write_text(want)
    say(f"built {variant} in {time.time() - t:.1f} s")
    return True


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))


def run(prop, variant, seed, tier, budget, scale, replay, limit, tag=""):
    """-> (fragment or None, list of violation texts, inconclusive reason or None)"""
    tool, args, flags, out, extra = VARIANTS[variant]
    work = HARNESS / "target" / "out"
    work.mkdir(parents=True, exist_ok=True)
    frag = work / f"{prop}-{variant}{tag}.json"
    for p in (frag, Path(str(frag) + ".distinct")):
        if p.exists():
            p.unlink()
    env = cargo_env(flags, extra)
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_BUDGET_S=f"{budget:.0f}", VERIF_OUT=str(frag),
               VERIF_KNOWN=str(VERIF / "known_findings.txt"), VERIF_VARIANT=variant)
    for k in ("VERIF_SCALE", "VERIF_REPLAY"):
        env.pop(k, None)
    if scale is not None:
        env["VERIF_SCALE"] = str(scale)
    if replay:
        env["VERIF_REPLAY"] = replay
    name = prop.lower()
    if variant == "miri":
        cmd = ["cargo", *tool, "miri", "run", "--offline", "--target-dir", str(target_dir(variant)), "--bin", name]
    else:
        cmd = [str(target_dir(variant) / out / name)]
    pre = limit_memory if variant in ("checked", "release") else None
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=HARNESS, env=env, capture_output=True, text=True, errors="replace", timeout=limit, preexec_fn=pre)
    except subprocess.TimeoutExpired:
        return None, [], f"{variant}: no verdict within {limit:.0f} s"
    say(f"ran {variant} (seed {seed}) in {time.time() - t:.1f} s: exit {p.returncode}")
    for line in p.stdout.splitlines():
        if line.startswith(("violated", "INCONCLUSIVE", "KNOWN-FINDING")):
            if not (line.startswith("KNOWN-FINDING") and line in SEEN):
                say(line[:2000])
            SEEN.add(line)
    d = None
    if frag.exists():
        try:
            d = json.loads(frag.read_text())
        except ValueError:
            return None, [], f"{variant}: unreadable fragment"
    if p.returncode == 0 and d is not None:
        return d, [], None
    if p.returncode == 1 and d is not None and d["violations"]:
        return d, [f"[{variant} seed={seed} stage={v['stage']} case={v['idx']}] {v['msg']}" for v in d["violations"]], None
    text = p.stderr
    if variant in ("asan", "tsan", "miri"):
        m = re.search(r"(ERROR: (Address|Leak)Sanitizer.*|WARNING: ThreadSanitizer.*|error: Undefined Behavior.*|error: memory leaked.*)", text)
        if m and "failed to" not in m.group(1):
            k = text.find(m.group(1))
            return d, [f"[{variant} seed={seed}] sanitizer report: {text[k:k + 3000]}"], None
    if p.returncode in (-signal.SIGSEGV, -signal.SIGILL, -signal.SIGBUS, -signal.SIGTRAP, -signal.SIGFPE) and variant in ("checked", "release"):
        # the harness has no unsafe code on these paths that could do this by itself
        return d, [f"[{variant} seed={seed}] killed by signal {-p.returncode} ({signal.Signals(-p.returncode).name}): {text[-600:]}"], "CONFIRM"
    if p.returncode == -signal.SIGABRT and variant in ("checked", "release") and re.search(
            r"double free|free\(\)|malloc|corrupted|munmap_chunk|invalid pointer|unsafe precondition|panic in a destructor|cannot unwind|non-unwinding panic", text):
        return d, [f"[{variant} seed={seed}] aborted: {text[-600:]}"], "CONFIRM"
    if p.returncode in (-signal.SIGABRT, -signal.SIGSEGV) and variant in ("checked", "release") and (
            "has overflowed its stack" in text or re.search(r"memory allocation of \d+ bytes failed", text)):
        # unbounded recursion or growth (the workers have 256 MB of stack each,
        # the process 14 GB of address space; the workloads need under 1 GB)
        return d, [f"[{variant} seed={seed}] crash: {text[-600:]}"], "CONFIRM"
    tail = (p.stdout[-600:] + text[-1500:]).strip()
    return d, [], f"{variant}: exit {p.returncode}: {tail}"


SEEN = set()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    prop = a.id
    plan = PLANS.get(prop, DEFAULT)[tier]
    if a.replay:
        r = json.loads(Path(a.replay).read_text())
        if r.get("variant") not in VARIANTS:
            say("no single case to replay")
            return 2
        if not build(r["variant"], [prop.lower()], 600):
            return 2
        where = f"{r['stage']}:{r['case']}" if r.get("stage") else None
        _, v, inc = run(prop, r["variant"], r["seed"], r["tier"], 600, r.get("scale"), where, 800)
        return 1 if v else 2 if inc and inc != "CONFIRM" else 0

    # in the quick tier the slow interpreter (Miri) and ThreadSanitizer (which
    # rebuilds the standard library) are additions: what they did not do for
    # lack of time or of a tool is recorded, the other builds decide
    frags, violations, inconclusive, skipped = [], [], [], []
    total = 850 if tier == "quick" else 3000
    for k, (variant, scale, off) in enumerate(plan):
        left = total - (time.time() - T0)
        if left < 30:
            inconclusive.append(f"{variant}: no time left")
            continue
        if not build(variant, [prop.lower()], left):
            (skipped if tier == "quick" and variant in ("tsan", "miri") else inconclusive).append(f"{variant}: not built")
            continue
        left = total - (time.time() - T0)
        budget = 250 if tier == "quick" else 420
        budget = min(budget, max(5, left / (len(plan) - k) - 30))
        if variant == "miri":
            # an interpreter: one process per core, each with a seed of its own
            parts = range(MIRI_PROCESSES)
            with ThreadPoolExecutor(len(parts)) as pool:
                done = list(pool.map(lambda i: run(prop, variant, seed + off + i, tier, budget, scale, None,
                                                   max(30, min(left, budget * 3 + 60)), f"-{i}"), parts))
            for i, (d, v, inc) in enumerate(done):
                if inc:
                    (skipped if tier == "quick" else inconclusive).append(inc)
                if d:
                    d["variant"], d["tag"] = variant, f"-{i}"
                    frags.append(d)
                violations += [(variant, seed + off + i, scale, x) for x in v]
            if violations:
                break
            continue
        d, v, inc = run(prop, variant, seed + off, tier, budget, scale, None, max(30, min(left, budget * 3 + 60)))
        if inc == "CONFIRM":
            d2, v2, inc2 = run(prop, variant, seed + off, tier, budget, scale, None, max(30, min(left, budget * 3 + 60)))
            if not v2:
                inconclusive.append(f"{variant}: crashed once, not confirmed")
                v = []
        elif inc:
            inconclusive.append(inc)
        if d:
            d["variant"] = variant
            frags.append(d)
        violations += [(variant, seed + off, scale, x) for x in v]
        if violations:
            break

    # ---- evidence, measured on this run
    distinct = set()
    for d in frags:
        f = HARNESS / "target" / "out" / f"{prop}-{d['variant']}{d.get('tag', '')}.json.distinct"
        if f.exists():
            b = f.read_bytes()
            distinct.update(struct.unpack(f"<{len(b) // 8}Q", b))
            f.unlink()
    cov = {
        "evaluations": sum(d["evals"] for d in frags),
        "distinct_nontrivial": len(distinct),
        "rule": frags[0]["rule"] if frags else "",
        "samples": [s for d in frags[:1] for s in d["samples"]][:40],
        "builds": {f"{d['variant']} (seed {d['seed']})": {
            "evaluations": d["evals"], "distinct_nontrivial": d["distinct"], "wall_s": d["wall_s"],
            "stopped_by_time_budget": d["capped"], "observed": d["counters"]} for d in frags},
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - T0, 3), "violations": len(violations)}
    if inconclusive:
        ev["inconclusive"] = inconclusive
    if skipped:
        ev["skipped"] = skipped
        for x in skipped:
            say(f"skipped: {x[:500]}")
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")

    if violations:
        (VERIF / "replays").mkdir(exist_ok=True)
        variant, s, scale, text = violations[0]
        m = re.match(r"\[\S+ seed=\d+ stage=(.*?) case=(\d+)\]", text)
        path = VERIF / "replays" / f"{prop}.json"
        path.write_text(json.dumps({
            "property": prop, "variant": variant, "seed": s, "tier": tier, "scale": scale,
            "stage": m.group(1) if m else None, "case": int(m.group(2)) if m else None,
            "message": text, "all": [x[3] for x in violations],
            "how": f"python3 check.py {prop} --replay {path}"}, indent=1) + "\n")
        say(f"VIOLATION property={prop} replay={path}")
        return 1
    if inconclusive:
        for x in inconclusive:
            say(f"INCONCLUSIVE: {x}")
        return 2
    say(f"held: {prop} on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct and non-trivial) in {ev['wall_s']:.1f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
