#!/usr/bin/env python3
"""Decides one property by seeded deterministic simulation.

  check.py <property> [--tier quick|thorough] [--seed N]     search
  check.py --replay FILE                                     re-execute one replay file

Exit 0: the property held on everything explored. Exit 1: a line
"VIOLATION property=<id> replay=<path>" was printed; the replay reproduces exactly.
Any other exit: the check itself failed."""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build, catalog  # noqa: E402

REPLAYS = os.path.join(VERIF, "replays")


def known_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=/(.*)/ :: (.*)", ln.strip())
            if m:
                out.append(dict(prop=m[1], cls=m[2], rx=re.compile(m[3]), text=m[4], seen=0))
    return out


def parse_replay(path):
    r = dict(ops=[], decs=0, bt=[])
    for ln in open(path):
        k, _, v = ln.rstrip("\n").partition(" ")
        if k == "op":
            r["ops"].append(v)
        elif k == "dec":
            r["decs"] += 1
        elif k == "#" and v.startswith("bt "):
            r["bt"].append(v[3:])
        elif k in ("prop", "scenario", "seed", "class", "hash", "msg"):
            r[k] = v
    return r


def symbolise(exe, addrs):
    if not addrs:
        return []
    try:
        o = subprocess.run(["addr2line", "-Cfpe", exe] + addrs[:24], capture_output=True, text=True, timeout=60).stdout
        return [l for l in o.splitlines() if l and not l.startswith("??")]
    except Exception:
        return []


def replay(path):
    r = parse_replay(path)
    p = catalog.PROPS[r["prop"]]
    exe = build.build(p["group"], quiet=True)
    rc = subprocess.run([exe, "--replay", os.path.abspath(path), "-v"], cwd=build.OUT).returncode
    return rc


def env_for():
    e = dict(os.environ)
    e.pop("LD_PRELOAD", None)
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    return e


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    secs = None
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seed":
            seed = int(a[i + 1])
        elif a[i] == "--time":
            secs = float(a[i + 1])
        i += 2
    p = catalog.PROPS[prop]
    t0 = time.time()
    try:
        exe = build.build(p["group"])
    except RuntimeError as e:
        print(f"ERROR: cannot build the simulation of {prop}:\n{e}", file=sys.stderr)
        sys.exit(2)
    tb = time.time() - t0
    if secs is None:
        secs = p.get("quick_s", 45) if tier == "quick" else p.get("thorough_s", 600)
    os.makedirs(REPLAYS, exist_ok=True)
    for f in os.listdir(REPLAYS):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(REPLAYS, f))
    stats = os.path.join(build.OUT, f"stats-{prop}.json")
    if os.path.exists(stats):
        os.unlink(stats)
    finds = [f for f in known_findings() if f["prop"] == prop]
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--runs", "100000000", "--time", str(secs), "--workers",
           str(p.get("workers", 8)), "--out", stats, "--replay-dir", REPLAYS]
    if finds:
        cmd += ["--keep-going", "--max-viol", "40"]
    cap = secs + 400
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, timeout=cap, env=env_for(), errors="replace",
                           cwd=build.OUT)
    except subprocess.TimeoutExpired:
        print("ERROR: the simulation driver did not finish", file=sys.stderr)
        sys.exit(2)
    if not os.path.exists(stats):
        print(f"ERROR: the simulation driver failed (exit {r.returncode})\n{r.stdout[-2000:]}", file=sys.stderr)
        sys.exit(2)
    st = json.load(open(stats))
    cands = re.findall(r"^CANDIDATE (\S+)", r.stdout, re.M)
    viol, unrepro = [], 0
    for c in cands:
        # fresh process; must give the same violation class and the same event hash
        rr = subprocess.run([exe, "--replay", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                            env=env_for(), errors="replace", cwd=build.OUT)
        if rr.returncode != 1:
            unrepro += 1
            print(f"note: {c} did not reproduce in a fresh process (exit {rr.returncode}); not reported", file=sys.stderr)
            continue
        info = parse_replay(c)
        where = symbolise(exe, info["bt"])
        text = info.get("msg", "") + " | " + " | ".join(where)
        hit = None
        for f in finds:
            if f["cls"] == info.get("class") and f["rx"].search(text):
                hit = f
        if hit:
            hit["seen"] += 1
            continue
        with open(c, "a") as fh:
            for w in where:
                fh.write("# at " + w + "\n")
        viol.append((c, info, where))
    for f in finds:
        print(f"KNOWN-FINDING: property={prop} {f['text']}")
    wall = time.time() - t0
    cnt = st.get("counters", {})
    faults = {k: dict(fired=v[0], runs=v[1]) for k, v in cnt.items() if k.startswith("fault.")}
    probes = {k: dict(hits=v[0], runs=v[1]) for k, v in cnt.items() if not k.startswith("fault.")}
    rate = st["runs"] / max(st["wall_s"], 1e-3) * 3600
    ev = dict(
        property=prop, tier=tier, seed=seed, level=p.get("level", "exploration"), wall_s=round(wall, 2),
        violations=len(viol),
        coverage=dict(
            evaluations=st["runs"], distinct_nontrivial=st["distinct_schedules"],
            rule="one evaluation = one simulated run of a randomly generated workload under one seeded schedule and "
                 "fault sequence; counted as distinct and non-trivial when its sequence of (thread switch, fault) "
                 "decisions over the run differs from every other run's and contains at least one pre-emption or "
                 "fault" + ("; " + p["rule"] if p.get("rule") else ""),
            samples=st.get("samples", []),
            runs_per_hour=int(rate), seeds_per_hour=int(rate), simulated_seconds=st["sim_seconds"],
            scheduler_steps=st["steps"], thread_switches=st["switches"], threads_created=st["threads"],
            operations=st["ops"], decisions_recorded=st["decisions"], fault_free_runs=st["faultfree_runs"],
            runs_with_faults=st["runs_with_faults"], distinct_histories=st["distinct_histories"],
            determinism_rechecks=st["determinism_checked"], determinism_mismatches=st["determinism_mismatch"],
            nonreproducible_candidates=unrepro + st["nonreproducible"], runs_killed=st["killed"],
            faults_injected=faults, probes=probes, scenarios=st["scenarios"],
            components_real=p["real"], components_stub=p["stub"], build_s=round(tb, 1)),
        assumptions=p.get("assumptions", []) + catalog.COMMON_ASSUMPTIONS)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{prop}: {st['runs']} runs, {st['distinct_schedules']} distinct schedules, {st['steps']} steps, "
          f"{len(viol)} violation(s), build {tb:.0f}s, total {wall:.0f}s")
    for c, info, where in viol:
        print(f"VIOLATION property={prop} replay={c}")
        print(f"  {info.get('class')}: {info.get('msg')}")
        print(f"  scenario {info.get('scenario')} seed {info.get('seed')}: {len(info['ops'])} operations, {info['decs']} decisions")
        for w in where[:8]:
            print(f"    at {w}")
    if viol:
        sys.exit(1)
    if st["runs"] == 0:
        print("ERROR: no run was executed", file=sys.stderr)
        sys.exit(2)
    if st["determinism_mismatch"] > 0:
        print("note: some runs were not reproducible; see the evidence file", file=sys.stderr)
    sys.exit(0)


if __name__ == "__main__":
    main()
