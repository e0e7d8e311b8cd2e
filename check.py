#!/usr/bin/env python3
"""Decides one property of ulule/loukoum.

    check.py <ID> [quick|thorough]     exit 0: held, 1: VIOLATION, 2: no answer
    check.py --replay <FILE>           judges one recorded program again

The programs are executed on the code of /repo by the Go harness and judged by
TLC against the TLA+ specification in spec/ (see DESIGN.md).
"""
import json, os, shutil, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from checks import CHECKS, TRACES  # noqa: E402
from models import MODELS  # noqa: E402
from engine import REPLAYS, NoAnswer, Run, Violation, brief  # noqa: E402


# ----------------------------------------------------------------- verdict
def report(run, v):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s.json" % run.prop)
    with open(path, "w") as f:
        json.dump({"property": run.prop, "what": v.what, "how": v.how, "scenario": v.scenario}, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print("property %s does not hold: %s" % (run.prop, v.what))
    print("  " + brief(v.scenario)[:3000])
    if v.how:
        print("  " + json.dumps(v.how, ensure_ascii=False)[:1500])
    print("VIOLATION property=%s replay=%s" % (run.prop, path))


def main(argv):
    if argv and argv[0] == "--replay":
        return again(argv[1])
    if argv and argv[0] == "--models":
        return models(argv[1:])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[prop]
    run = Run(prop, tier, seed)
    start = time.time()
    try:
        try:
            c["run"](run, tier)
            run.evidence(c["level"], time.time() - start, c["bounds"], "held")
            print("property %s held on %d programs (%d events) and %d states" % (prop, run.traces, run.events, run.states))
            return 0
        except Violation as v:
            report(run, v)
            run.evidence(c["level"], time.time() - start, c["bounds"], "violated: " + v.what)
            return 1
        except NoAnswer as e:
            print("no answer: %s" % e)
            return 2
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)


def models(argv):
    """Runs the models of a property only (or those whose name holds a text)."""
    run = Run(argv[0], "quick", 1)
    tier = argv[2] if len(argv) > 2 else "quick"
    code = 0
    try:
        bin = run.build(race=argv[0] == "C06")
        run.focus = TRACES.get(argv[0], ("ok,q,args",))[0]
        for m in MODELS.get(argv[0], []):
            if len(argv) < 2 or argv[1] in m["name"]:
                start = time.time()
                try:
                    run.model(bin, m, tier)
                except Violation as v:
                    report(run, v)
                    code = 1
                except NoAnswer as e:
                    print("no answer: %s" % e)
                    code = code or 2
                    continue
                print("%s  %.1f s" % (run.notes[-1] if run.notes else m["name"], time.time() - start), flush=True)
        return code
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)


def again(path):
    """Executes the program of a replay file on the current tree and judges it."""
    doc = json.load(open(path))
    run = Run(doc["property"], "replay", 1)
    try:
        bin = run.build()
        src, out = os.path.join(run.dir, "in.ndjson"), os.path.join(run.dir, "out.ndjson")
        with open(src, "w") as f:
            f.write(json.dumps(doc["scenario"]) + "\n")
        try:
            run.harness(bin, "replay", "-profile", doc["how"].get("profile", doc["property"]), "-in", src, "-out", out)
            run.validate(out, doc["how"].get("focus", "ok,q,args"), doc["how"], 1)
            print("the program is accepted")
            return 0
        except Violation as v:
            report(run, v)
            return 1
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
