#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property; see DESIGN.md."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build, config


def known_for(prop):
    """known: property=<id> key=<scenario/key> # text   (fixed: lines suppress nothing)"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(.*?)(?:  # (.*))?$", l.rstrip("\n"))
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3) or ""
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    filt = sys.argv[3] if len(sys.argv) > 3 else ""
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    known = known_for(prop)
    conf = config.PROPS[prop]
    replay_dir = os.path.join(VERIF, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    results, violations = [], []
    try:
        kf = os.path.join(tmp, "known")
        with open(kf, "w", encoding="utf-8") as f:
            f.write("\n".join(known) + "\n")
        for unit in conf["harness"]:
            hc = config.HARNESS.get(unit, {})
            budget = conf.get("budget", {}).get(tier, 600 if tier == "quick" else 3000)
            out = os.path.join(tmp, unit + ".json")
            if hc.get("python"):
                cmd = [sys.executable, os.path.join(VERIF, "harness", hc["python"])]
            else:
                cmd = [build.build_harness(unit, hc.get("extra_src", ()), hc.get("ldflags", ()))]
            cmd += ["--tier", tier, "--out", out, "--scratch", os.path.join(tmp, "s-" + unit), "--replay-dir", replay_dir,
                    "--property", prop, "--known", kf, "--budget", str(budget)]
            if filt:
                cmd += ["--filter", filt]
            env = dict(os.environ, G_SLICE="always-malloc", LC_ALL="C.UTF-8", G_DEBUG="")
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode != 0 or not os.path.exists(out):
                print("ERROR: harness %s ended with %d\n%s" % (unit, r.returncode, r.stdout[-3000:]))
                return 2
            res = json.load(open(out))
            res["unit"] = unit
            if res["internal"]:
                print("ERROR: harness %s: %s" % (unit, res["internal"]))
                return 2
            results.append(res)
            violations += res["violations"]
    except build.BuildError as e:
        print("ERROR: build failed\n" + str(e))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    sc = [s for r in results for s in r["scenarios"]]
    tot = lambda k: sum(s[k] for s in sc)
    samples = [s for r in results for s in r.get("samples", [])][:24]
    unknown = [v for v in violations if not v["known"]]
    hit = sorted({v["key"] for v in violations if v["known"]})
    capped = [s["name"] for s in sc if s["capped"]] if not unknown else []
    level = conf["level"]
    cov = {
        "evaluations": tot("executions"),
        "distinct_nontrivial": tot("distinct_outcomes"),
        "rule": conf["rule"],
        "samples": samples,
        "exhaustive": not capped and not unknown and not any(r["saturated"] for r in results),
        "bounds": conf.get("bounds", {}).get(tier, conf.get("bounds", "")) if isinstance(conf.get("bounds", ""), dict) else conf["bounds"],
        "scenarios": {s["name"]: {k: v for k, v in s.items() if k != "name"} for s in sc},
        "operations_executed_on_real_code": tot("steps"),
    }
    if level == "model_checking":
        cov.update(states=max(tot("states"), tot("distinct_outcomes")), transitions=tot("transitions"),
                   traces_validated_against_impl=tot("validated"))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": conf.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(unknown), "known_findings_seen": hit}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s [%s]: %d executions, %d choice edges, %d distinct outcomes, %d states, %d validated, %.1fs" % (
        prop, tier, tot("executions"), tot("transitions"), tot("distinct_outcomes"), tot("states"), tot("validated"), time.time() - t0))
    for s in sc:
        print("  %-34s exec=%-9d outcomes=%-8d states=%-7d depth=%-4d %s" % (
            s["name"], s["executions"], s["distinct_outcomes"], s["states"], s["max_depth"], "CAPPED" if s["capped"] else ""))
    for k in hit:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known.get(k, "")))
    # vacuity guard: a scenario that executed nothing is an error of the check
    empty = [s["name"] for s in sc if s["executions"] == 0]
    if unknown:
        for v in unknown[:25 if os.environ.get("VERIF_NOSTOP") else 8]:
            print("  violation %s\n    %s\n    case: %s" % (v["key"][:300], v["message"][:600], v["case"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, unknown[0]["replay"]))
        return 1
    if empty:
        print("ERROR: nothing explored in %s" % empty)
        return 2
    if capped:
        print("note: capped (budget reached) in %s" % capped)
    return 0


if __name__ == "__main__":
    sys.exit(main())
