"""python -m mc.run ID: runs one check and writes its evidence."""

import argparse
import collections
import importlib
import json
import os
import random
import shutil
import sys
import time

from . import core


def known_findings(pid):
    path = os.path.join(core.VERIF, "known_findings.json")
    with open(path) as f:
        return {e["signature"]: e for e in json.load(f)["findings"] if e["property"] == pid}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("--only", help="substring of the shards to run (development)")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = core.make_scratch()
    rc = 2
    try:
        for k in ("MPLCONFIGDIR", "XDG_CACHE_HOME", "POCL_CACHE_DIR"):
            os.environ[k] = os.path.join(scratch, k.lower())
            os.makedirs(os.environ[k])
            os.chmod(os.environ[k], 0o777)
        os.environ["TMPDIR"] = scratch
        os.chdir(scratch)
        rc = run(a, pid, tier, seed, scratch, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def run(a, pid, tier, seed, scratch, t0):
    import logging

    logging.disable(logging.CRITICAL)
    import_error = None
    try:
        module = importlib.import_module("mc.checks." + pid.lower())
    except Exception as e:
        if core.from_repo(e):
            import_error = e
        else:
            raise
    known = known_findings(pid)
    total = {"counts": collections.Counter(), "keys": set(), "samples": [], "outcomes": collections.Counter(), "fails": {}}
    errors = []

    if import_error is not None:
        total["fails"]["import"] = {"sig": "import", "case": {}, "msg": core.short_tb(import_error)}
        left, shards = 0, []
        level = "exploration"

        class module:
            RULE = ""
            LEVEL = level

    elif a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        case = rep["case"]
        shards = [{"replay": case}]

        class M:
            pass

        m = M()
        m.run_shard = lambda shard, ctx: (
            module.run_shard(case["shard"], ctx) if "shard" in case else module.replay(case, ctx)
        )
        if hasattr(module, "worker_init"):
            m.worker_init = module.worker_init
        pool = core.Pool(m, tier, scratch, 1)
        left = 0
    else:
        shards = list(module.shards(tier))
        if a.only:
            shards = [s for s in shards if a.only in json.dumps(s, default=str)]
        random.Random(seed).shuffle(shards)
        prio = getattr(module, "shard_priority", None)
        if prio:
            shards.sort(key=prio)
        pool = core.Pool(module, tier, scratch, a.j)
        left = None

    def on_result(shard, res, err):
        total["counts"].update(res["counts"])
        total["keys"] |= res["keys"]
        total["samples"] += res["samples"]
        total["outcomes"].update(res["outcomes"])
        for f in res["fails"]:
            if f["sig"] not in total["fails"]:
                total["fails"][f["sig"]] = f
        if err:
            errors.append(err)

    def new_fails():
        return [f for s, f in total["fails"].items() if s not in known]

    if import_error is None:
        budget = 780 if tier == "quick" else 6 * 3600
        left = pool.run(
            shards,
            on_result,
            deadline=t0 + budget,
            stop=lambda: bool(errors) or (bool(new_fails()) and not a.all),
        )

    viol = new_fails()
    out = sys.stdout
    if errors and not viol:
        out.write("ERROR in the check of %s\n%s\n" % (pid, errors[0]))
        return 2
    repdir = os.path.join(core.VERIF, "evidence", "replays")
    os.makedirs(repdir, exist_ok=True)
    viol.sort(key=lambda f: (len(json.dumps(f["case"], default=str)), f["sig"]))
    for f in viol[: 3 if not a.all else 200]:
        path = os.path.join(repdir, "%s-%016x.json" % (pid, core.h64(f["sig"])))
        with open(path, "w") as fh:
            json.dump({"property": pid, **f}, fh, indent=1, default=str)
        out.write("  %s\n    %s\n" % (f["sig"], f["msg"].strip().replace("\n", "\n    ")))
        out.write("VIOLATION property=%s replay=%s\n" % (pid, path))
    seen_known = [s for s in total["fails"] if s in known]
    for s in sorted(seen_known):
        out.write("KNOWN-FINDING: property=%s %s\n" % (pid, known[s]["what"]))
    if a.replay:
        return 1 if viol else 0

    # Evidence
    level = module.LEVEL
    c = total["counts"]
    cov = {"exhaustive": left == 0 and not viol and not a.only}
    random.Random(seed).shuffle(total["samples"])
    samples = total["samples"][:6]
    if level == "model_checking":
        cov.update(
            states=len(total["keys"]),
            transitions=c.pop("transitions", 0),
            traces_validated_against_impl=c.pop("traces", 0),
            samples=samples,
        )
        if c.get("evaluations"):
            cov["evaluations"] = c.pop("evaluations")
    else:
        cov.update(
            evaluations=c.pop("evaluations", 0),
            distinct_nontrivial=len(total["keys"]),
            rule=module.RULE,
            samples=samples,
        )
    for k, v in c.items():
        cov.setdefault(k, v)
    cov["shards"] = len(shards)
    cov["shards_not_run"] = left
    cov["bounds"] = getattr(module, "BOUNDS", {}).get(tier, "") if isinstance(getattr(module, "BOUNDS", None), dict) else ""
    cov["distinct_outcomes"] = len(total["outcomes"])
    cov["outcomes"] = dict(total["outcomes"].most_common(25))
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
        "known_findings_seen": len(seen_known),
    }
    path = os.path.join(core.VERIF, "evidence", pid + ".json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, path)
    out.write(
        "%s %s: %s, %d shards, %.1f s\n"
        % (
            pid,
            tier,
            ", ".join("%s=%s" % (k, v) for k, v in cov.items() if isinstance(v, int) and not isinstance(v, bool)),
            len(shards),
            time.time() - t0,
        )
    )
    if left:
        out.write("CAPPED: %d shards were not run within the time budget\n" % left)
    if viol:
        return 1
    if sum(total["counts"].values()) == 0 and cov.get("evaluations", 0) == 0 and cov.get("transitions", 0) == 0:
        out.write("ERROR: nothing was explored\n")
        return 2
    return 0


if __name__ == "__main__":
    main()
