#!/usr/bin/env python3
"""run.py <property> : rebuild what the check needs from /repo's working tree, explore, write evidence.
   run.py <property> --replay FILE : replay one recorded decision vector."""
import json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS

VERIF = B.VERIF


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    stages = CHECKS[prop]["stages"]
    rep = os.path.join(B.ROOT, "replays")
    os.makedirs(rep, exist_ok=True)
    ev_dir = os.path.join(VERIF, "evidence") if B.REPO == "/repo" else os.path.join(B.ROOT, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    env = dict(os.environ, GLIBC_TUNABLES="glibc.malloc.tcache_count=0:glibc.malloc.perturb=128", OMP_NUM_THREADS="1", LC_ALL="C")
    env.pop("CROCODDYL_PROFILER", None)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": True,
           "stages": {}}
    vio = 0
    rc = 0
    build_s = 0.0
    want = None  # the stage a recorded decision vector belongs to
    if "--replay" in sys.argv:
        for l in open(sys.argv[sys.argv.index("--replay") + 1]):
            if l.startswith("stage "):
                want = int(l.split()[1])
                break
    if "--stage" in sys.argv:
        want = int(sys.argv[sys.argv.index("--stage") + 1])
    for i, st in enumerate(stages):
        if want is not None and want != i:
            continue
        tb = time.time()
        exe = B.build(st["variant"], st["harness"], also=[x["harness"] for x in stages if x["variant"] == st["variant"]])
        build_s += time.time() - tb
        out = os.path.join(rep, "%s-%d-stats.json" % (prop, i))
        try:
            os.remove(out)
        except OSError:
            pass
        cmd = [exe, "--prop", prop, "--out", out, "--known", os.path.join(VERIF, "known_findings.txt"),
               "--replay-dir", rep, "--jobs", os.environ.get("VERIF_JOBS", "8"),
               "--deadline", str(st.get("deadline", {}).get(tier, 420 if tier == "quick" else 6000)),
               "--exec-limit", str(st.get("exec_limit", 60)), "--stage", str(i)]
        if tier == "thorough":
            cmd.append("--thorough")
        only = st.get("only", "")
        if "--only" in sys.argv:
            w = sys.argv[sys.argv.index("--only") + 1]
            if only and w not in only.split(","):
                continue
            only = w
        if only:
            cmd += ["--only", only]
        if st.get("keys"):
            cmd += ["--keys", st["keys"]]
        if "--replay" in sys.argv:
            cmd += ["--replay", sys.argv[sys.argv.index("--replay") + 1]]
            r = subprocess.run(cmd, env=env)
            rc = max(rc, r.returncode)
            continue
        e2 = dict(env, **st.get("env", {}))
        r = subprocess.run(cmd, env=e2)
        s = {}
        try:
            s = json.load(open(out))
            os.remove(out)
        except Exception:
            pass
        if s:
            cov["states"] += s["states"]
            cov["transitions"] += s["transitions"]
            cov["traces_validated_against_impl"] += s["executions"]
            cov["exhaustive"] = cov["exhaustive"] and s["exhaustive"]
            cov["samples"] += s["samples"]
            name = "%d:%s/%s" % (i, st["variant"], st["harness"])
            cov["stages"][name] = {k: s[k] for k in ("sections", "outcomes", "budgets", "max_depth", "choices", "pruned",
                                                     "replayed_twice", "known", "explore_s", "exhaustive")}
        else:
            cov["exhaustive"] = False
        if r.returncode == 4 and "--only" in sys.argv:
            continue
        if r.returncode == 1:
            vio += 1
            rc = 1
            break
        if r.returncode:
            rc = r.returncode if r.returncode > 0 else 9
            break
    if "--replay" in sys.argv:
        return rc
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": CHECKS[prop].get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": vio}
    cov["build_s"] = round(build_s, 2)
    cov["bound"] = CHECKS[prop].get("bound", "")
    cov["rule"] = ("states = distinct fingerprints of observed library states; transitions = operations executed on the "
                   "real code; traces = complete decision sequences executed on the real code and judged by the oracle")
    json.dump(ev, open(os.path.join(ev_dir, prop + ".json"), "w"), indent=1)
    return rc


if __name__ == "__main__":
    sys.exit(main())
