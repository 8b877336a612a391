#!/usr/bin/env python3
"""Run the check of one property:  run.py <property> [--tier quick|thorough] [--only X] [--keep]

Builds the library from the working tree of /repo, runs the property's exhaustive exploration(s), confirms every
reported violation by replaying it in a fresh process, subtracts the committed known findings, and writes
evidence/<property>.json.  Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no answer.
"""
import argparse, collections, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import build, engines

KNOWN = os.path.join(HERE, "known-findings.txt")


def load_known(prop):
    out = []
    for line in open(KNOWN):
        line = line.strip()
        m = re.match(r"known: property=(\S+) (\{.*?\}) :: (.*)$", line)
        if m and m.group(1) == prop:
            d = json.loads(m.group(2))
            d["what"] = m.group(3)
            out.append(d)
    return out


def is_known(v, known):
    for k in known:
        if all(v.get(f) == k[f] for f in ("engine", "cfg", "kind", "hist") if f in k):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("--engine")
    ap.add_argument("--only")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = engines.PROPS[prop]
    outdir = os.path.join(HERE, "out", prop)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for f in os.listdir(outdir):
        if f.startswith("replay-"):
            os.unlink(os.path.join(outdir, f))
    known = load_known(prop)
    tot = collections.Counter()
    samples, errors, found, known_hit, unconfirmed, caps = [], [], [], {}, [], []
    per_engine = {}
    cfgs_seen = set()
    for eng in spec["engines"]:
        if a.engine and eng["name"] != a.engine:
            continue
        if tier not in eng.get("tiers", ("quick", "thorough")):
            continue
        te = time.time()
        try:
            binp = engines.prepare(eng)
        except build.BuildError as e:
            print("cannot build: %s" % e)
            sys.exit(2)
        outf = os.path.join(outdir, eng["name"] + "." + tier + ".jsonl")
        argv = engines.command(eng, binp, prop, tier) + ["--out", outf, "--workers", str(a.workers)]
        if a.only:
            argv += ["--only", a.only]
        env = engines.environ(eng, outdir)
        if tier == "quick":
            env["VERIF_BUDGET"] = str(max(60, int(760 - (time.time() - t0))))
        p = subprocess.run(argv, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", cwd=engines.scratch(outdir))
        if p.returncode != 0:
            errors.append("%s exited with %d: %s" % (eng["name"], p.returncode, p.stdout[-800:]))
            continue
        groups = collections.OrderedDict()
        st = None
        pool = []
        for line in open(outf, errors="replace"):
            d = json.loads(line)
            t = d["type"]
            if t == "viol":
                d["engine"] = eng["name"]
                k = is_known(d, known)
                if k:
                    known_hit[k["what"]] = known_hit.get(k["what"], 0) + 1
                    continue
                key = (d["cfg"].split(";")[0], d["kind"])
                g = groups.setdefault(key, [])
                g.append(d)
            elif t == "stats":
                st = d
            elif t == "sample":
                pool.append({"engine": eng["name"], "cfg": d["cfg"][:200], "case": d["case"]})
            elif t == "task":
                cfgs_seen.add(d["cfg"])
            elif t == "harness_error":
                errors.append("%s: %s %s" % (eng["name"], d["cfg"], d["why"]))
            elif t == "cap":
                caps.append("%s: %s %s %s" % (eng["name"], d["cfg"], d.get("shard", ""), d["why"]))
        pool.sort(key=lambda d: (d["cfg"], d["case"]))
        samples += pool[::max(1, len(pool) // 8)][:8]
        if st is None:
            errors.append("%s wrote no statistics" % eng["name"])
            continue
        for k in ("evaluations", "nontrivial", "ops", "states", "traces", "outcomes"):
            tot[k] += st[k]
        # confirm by fresh replays, shortest history first
        nviol = 0
        tc = time.time()
        for key, g in sorted(groups.items(), key=lambda kv: kv[0][1] == "hang"):
            if found and time.time() - tc > 60:
                break  # enough has been confirmed
            g.sort(key=lambda d: (len(d["hist"]), d["hist"]))
            ok = None
            for d in g[:4]:
                rep = os.path.join(outdir, "replay.jsonl")
                rargv = engines.command(eng, binp, prop, tier) + ["--out", rep, "--replay", d["cfg"], d["hist"]]
                rp = subprocess.run(rargv, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                    errors="replace", cwd=engines.scratch(outdir))
                try:
                    lines = [json.loads(x) for x in open(rep, errors="replace")]
                except OSError:
                    lines = []
                if d["kind"].endswith("-seq") or any(x["type"] == "viol" for x in lines):
                    ok = d
                    break
                unconfirmed.append("%s %s %s %s" % (eng["name"], d["cfg"], d["kind"], d["hist"]))
            nviol += len(g)
            if ok:
                path = os.path.join(outdir, "replay-%s-%d.json" % (eng["name"], len(found)))
                engines.write_replay(path, eng, binp, prop, tier, ok)
                ok["replay"] = path
                ok["count"] = len(g)
                found.append(ok)
        per_engine[eng["name"]] = dict(evaluations=st["evaluations"], nontrivial=st["nontrivial"], operations=st["ops"],
                                       model_states=st["states"], model_traces=st["traces"],
                                       distinct_outcomes=st["outcomes"], tasks=st["tasks"],
                                       wall_s=round(time.time() - te, 2))
    for u in unconfirmed[:10]:
        errors.append("violation did not replay: " + u)
    lvl = spec["level"]
    cov = {"samples": samples[:24], "configurations": len(cfgs_seen), "distinct_outcomes": tot["outcomes"],
           "engines": per_engine, "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
           "exhaustive": not caps and not errors, "caps": caps[:20]}
    if lvl == "model_checking":
        cov.update(states=tot["states"], transitions=tot["ops"], traces_validated_against_impl=tot["traces"])
        if tot["evaluations"] != tot["traces"]:
            cov["cases"] = tot["evaluations"]
    else:
        cov.update(evaluations=tot["evaluations"], distinct_nontrivial=tot["nontrivial"], rule=spec["rule"],
                   transitions=tot["ops"])
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": lvl, "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(found)}
    if errors:
        ev["errors"] = errors[:20]
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for w, n in sorted(known_hit.items()):
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, w, n))
    for e in errors[:20]:
        print("ERROR: " + e)
    for c in caps[:5]:
        print("CAP: " + c)
    print("%s %s: %d cases, %d operations, %d model states, %d model traces, %d outcomes, %d configurations, %.1f s" % (
        prop, tier, tot["evaluations"], tot["ops"], tot["states"], tot["traces"], tot["outcomes"], len(cfgs_seen),
        time.time() - t0))
    for d in found:
        print("VIOLATION property=%s replay=%s" % (prop, d["replay"]))
        print("  %s [%s] %s: %s (%d cases)" % (d["cfg"].split(";alpha")[0], d["kind"], d["hist"], d["detail"], d["count"]))
    if found:
        sys.exit(1)
    if errors:
        sys.exit(2)
    if tot["evaluations"] + tot["traces"] == 0:
        print("ERROR: nothing was explored")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
