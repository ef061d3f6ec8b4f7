#!/usr/bin/env python3
"""Runs the check of one property: builds its monitors from the working tree of /repo, runs the workloads,
judges what the monitors reported, writes /verif/evidence/<id>.json.

  run.py ID [--tier quick|thorough]      exit 0: held on everything explored, 1: VIOLATION, 2: no answer (build or tool error)
  run.py --replay FILE                   re-runs one recorded failing case with all output visible
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS, HARNESS  # noqa: E402

INC = ["-I", f"{VERIF}/stub", "-I", f"{VERIF}/harness", "-I", f"{REPO}/src/include", "-I", f"{REPO}/src/pdaaal-bin"]
BASE = ["-std=gnu++20", "-w", "-g1", "-fno-omit-frame-pointer", "-include", "functional"]
FLAVOUR = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
    "tsan": ["-O1", "-fsanitize=thread", "-DVERIF_NO_ASAN_DEFAULTS"],
    "plain": ["-O1", "-DVERIF_NO_ASAN_DEFAULTS"],
}
ABSL = ["-labsl_hash", "-labsl_city", "-labsl_low_level_hash", "-labsl_raw_hash_set"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(harnesses, work):
    """Compile every needed harness (and the library sources it links) from the current tree, in parallel."""
    objs, links = {}, {}
    for h in harnesses:
        spec = HARNESS[h]
        fl = spec.get("flavour", "asan")
        cxx = spec.get("cxx", "g++")
        srcs = [s if s.startswith("/") else f"{VERIF}/harness/{s}" for s in spec["src"]]
        srcs += [f"{REPO}/src/include/pdaaal/{s}" for s in spec.get("lib", ["internal/PDA.cpp", "internal/Reducer.cpp"])]
        srcs += [f"{REPO}/src/pdaaal-bin/{s}" for s in spec.get("bin", [])]
        flags = BASE + FLAVOUR[fl] + spec.get("flags", []) + INC
        mine = []
        for s in srcs:
            key = (cxx, s, tuple(flags))
            if key not in objs:
                objs[key] = os.path.join(work, f"o{len(objs)}.o")
            mine.append(objs[key])
        links[h] = [cxx] + FLAVOUR[fl] + mine + ["-o", os.path.join(work, h)] + ABSL + spec.get("libs", []) + ["-lpthread"]

    def comp(item):
        (cxx, s, flags), o = item
        return s, sh([cxx, *flags, "-c", s, "-o", o])
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        # biggest first
        for s, r in ex.map(comp, sorted(objs.items(), key=lambda i: -os.path.getsize(i[0][1]) if os.path.exists(i[0][1]) else 0)):
            if r.returncode:
                print(f"BUILD-ERROR compiling {s}\n" + r.stdout[:6000])
                return False
        for h, r in zip(links, ex.map(lambda c: sh(c), links.values())):
            if r.returncode:
                print(f"BUILD-ERROR linking {h}\n" + r.stdout[:6000])
                return False
    return True


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)).get("findings", []) if f.get("property") == pid and f.get("status") == "known"]


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    t0 = time.time()
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev_dir, "replay"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        return check(pid, spec, tier, seed, t0, ev_dir, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(pid, spec, tier, seed, t0, ev_dir, work):
    jobs = spec["jobs"]
    if not build(sorted({j["harness"] for j in jobs}), work):
        print(f"NO-ANSWER property={pid}: the monitors could not be built from this tree")
        return 2
    build_s = time.time() - t0
    cases = fails = inconclusive = distinct = 0
    stats, samples, failures = {}, [], []
    for j in jobs:
        n = j["cases"] if tier == "quick" else j["cases"] * j.get("thorough", 40)
        cmd = [os.path.join(work, j["harness"]), "--seed", str(seed), "--cases", str(n), "--jobs", str(os.environ.get("VERIF_JOBS", "8")), "--timeout", str(j.get("timeout", 30))]
        if j.get("families"):
            cmd += ["--family", ",".join(j["families"])]
        if j.get("batch"):
            cmd += ["--batch", str(j["batch"])]
        env = dict(os.environ, VERIF_DIR=VERIF, VERIF_WORK=work, VERIF_REPO=REPO)
        env.pop("ASAN_OPTIONS", None)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env)
        done = False
        jf = 0
        for line in r.stdout.split("\n"):
            p = line.split("\t")
            if p[0] == "CASE-FAIL" and len(p) >= 6:
                kinds = j.get("kinds")
                if kinds and not any(re.match(k, p[4]) for k in kinds):
                    stats["other_property_failures"] = stats.get("other_property_failures", 0) + 1
                    continue
                failures.append(dict(harness=j["harness"], family=p[1], seed=int(p[2]), index=int(p[3]), kind=p[4], detail="\t".join(p[5:])))
                jf += 1
            elif p[0] == "INCONCLUSIVE":
                inconclusive += 1
                print(line)
            elif p[0] == "STAT":
                stats[p[1]] = stats.get(p[1], 0) + int(p[2])
            elif p[0] == "DISTINCTCOUNT":
                distinct += int(p[1])
            elif p[0] == "SAMPLE":
                samples.append(p[1])
            elif p[0] == "DONE":
                cases += int(p[1])
                done = True
        if not done:
            print(r.stdout[-2000:], r.stderr[-4000:])
            print(f"NO-ANSWER property={pid}: {j['harness']} ended with {r.returncode} before reporting")
            return 2
    known = known_findings(pid)
    new, listed = [], {}
    for f in failures:
        hit = next((k for k in known if re.search(k["match"], f["kind"] + " " + f["detail"])), None)
        if hit:
            listed[hit["id"]] = hit
        else:
            new.append(f)
    for k in listed.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    missing = [k for k in spec.get("require", []) if stats.get(k, 0) == 0]
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=cases, distinct_nontrivial=distinct, rule=spec["rule"], samples=[s[:1500] for s in samples[:12]],
                            monitor_events=stats, inconclusive=inconclusive, build_s=round(build_s, 1)),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(new))
    json.dump(ev, open(os.path.join(ev_dir, f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: {cases} cases, {distinct} distinct non-trivial, {inconclusive} inconclusive, events: " + ", ".join(f"{k}={v}" for k, v in sorted(stats.items())))
    if new:
        seen = set()
        for f in new:
            key = (f["harness"], f["family"], f["kind"])
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(ev_dir, "replay", f"{pid}-{f['family']}-{f['seed']}-{f['index']}.json")
            json.dump(f, open(path, "w"), indent=1)
            print(f"  {f['family']}#{f['index']} [{f['kind']}] {f['detail'][:1500]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if cases == 0 or missing:
        print(f"NO-ANSWER property={pid}: the monitors observed nothing for {missing or 'any case'}")
        return 2
    return 0


def replay(path):
    f = json.load(open(path))
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        if not build([f["harness"]], work):
            return 2
        env = dict(os.environ, VERIF_DIR=VERIF, VERIF_WORK=work, VERIF_REPO=REPO)
        return subprocess.call([os.path.join(work, f["harness"]), "--seed", str(f["seed"]), "--family", f["family"], "--only", str(f["index"])], env=env)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
