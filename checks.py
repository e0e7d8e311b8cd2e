"""What each check runs: profiles of programs, aspects compared, models."""
import json, os, re

from engine import Violation
from models import MODELS

# property: (aspects compared, programs in the quick tier, in the thorough tier)
TRACES = {
    "C01": ("count,args", 12000, 150000),
    "C02": ("twin", 12000, 150000),
    "C03": ("agree", 12000, 150000),
    "C04": ("stable,same", 8000, 100000),
    "C05": ("stable,linear,kept", 8000, 100000),
    "C07": ("ok,q", 12000, 150000),
    "C08": ("ok,q", 12000, 150000),
    "C09": ("ok,q", 12000, 150000),
    "C10": ("ok,q", 12000, 150000),
    "C11": ("ok,q", 12000, 150000),
    "C12": ("ok,q,args", 12000, 150000),
    "C13": ("ok,q,args", 12000, 150000),
    "C14": ("ok,q", 12000, 150000),
    "C15": ("ok", 16000, 200000),
    "C16": ("ok", 12000, 150000),
    "C17": ("ok,q,args", 12000, 150000),
    "C18": ("ok,q,args", 12000, 150000),
    "C19": ("ok,q", 12000, 150000),
    "C20": ("ok,q,args", 16000, 150000),
    "C21": ("ok,q,args", 12000, 150000),
    "C22": ("s", 12000, 150000),
    "C23": ("ok,q,args", 12000, 150000),
    "C24": ("ok,q", 12000, 150000),
    "C25": ("ok,q,args", 12000, 150000),
    "C26": ("ok,q,args", 12000, 150000),
    "C27": ("ok,q,args", 12000, 150000),
}
CHUNK = 4000


def traces(prop):
    focus, quick, thorough = TRACES[prop]

    def run(r, tier):
        bin = r.build()
        r.focus = focus
        if prop in ("C04", "C05"):
            r.memory("OneThread", 3 if tier == "quick" else 4)
        r.pool(lambda m: r.model(bin, m, tier), MODELS.get(prop, []))
        r.record(bin, prop, quick if tier == "quick" else thorough, CHUNK, focus)

    return run



def concurrent(r, tier):
    """Goroutines share builders under the race detector; what each of them
    obtained must be what the specification (and the builder built alone) gives."""
    bin = r.build(race=True)
    r.memory(*(("TwoThreads", 3) if tier == "quick" else ("ThreeThreads", 2)))
    r.pool(lambda m: r.model(bin, m, tier), MODELS["C06"])
    total, chunk = (RACES[0], 150) if tier == "quick" else (RACES[1], 500)

    def job(k):
        seed = r.seed * 1000 + k
        path = os.path.join(r.dir, "race-%d.ndjson" % seed)
        log = os.path.join(r.dir, "race-%d" % seed)
        p = r.harness(bin, "race", "-n", chunk, "-seed", seed, "-out", path, env={"GORACE": "halt_on_error=0 exitcode=66"})
        how = {"profile": "C06", "seed": seed, "n": chunk}
        if p.returncode == 66 or "WARNING: DATA RACE" in p.stderr:
            raise Violation("data race between goroutines sharing builders", {"ev": []}, dict(how, race=p.stderr[:6000]))
        if k == 0:
            r.sample(path)
        r.validate(path, "stable,linear", how)
        os.remove(path)

    r.pool(job, list(range(total // chunk)))


def known(prop):
    """Entries of known_findings.txt for a property: id -> text."""
    found = {}
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"KNOWN-FINDING: property=(\S+) \[(\S+)\] (.*)", line)
            if m and m[1] == prop:
                found[m[2]] = m[3]
    return found


def comment_in_subquery(r):
    """The comment of a builder used as a subquery ends up inside the text."""
    col = lambda n: {"k": "val", "t": "string", "v": n}
    ident = lambda n: {"k": "ident", "v": n}
    inner = [{"op": "new", "kind": "select", "args": [col("a")]}, {"op": "call", "h": 1, "m": "From", "args": [col("t")]},
             {"op": "call", "h": 2, "m": "Comment", "args": [col("c")]}]
    sub = {"k": "b", "h": 3}
    where = lambda c: inner + [{"op": "new", "kind": "select", "args": [col("b")]}, {"op": "call", "h": 4, "m": "Where", "args": [c]},
                               {"op": "render", "h": 5, "ord": 0}]
    probes = {
        "comment-in-IN": (where({"k": "in", "m": "In", "x": ident("x"), "a": [sub]}),
                          'SELECT "b" WHERE ("x" IN (SELECT "a" FROM "t"; -- c))'),
        "comment-in-EXISTS": (where({"k": "ex", "m": "Exists", "e": sub}),
                              'SELECT "b" WHERE (EXISTS (SELECT "a" FROM "t"; -- c))'),
        "comment-in-comparison": (where({"k": "cmp", "m": "Equal", "x": ident("x"), "a": [sub]}),
                                  'SELECT "b" WHERE ("x" = (SELECT "a" FROM "t"; -- c))'),
        "comment-in-WITH": (inner + [{"op": "new", "kind": "select", "args": [col("b")]},
                                     {"op": "call", "h": 4, "m": "With", "args": [{"k": "with", "n": "w", "e": sub}]},
                                     {"op": "render", "h": 5, "ord": 0}],
                            'WITH w AS (SELECT "a" FROM "t"; -- c) SELECT "b"'),
    }
    listed = known("C21")
    bin = r.build()
    src, out = os.path.join(r.dir, "known.ndjson"), os.path.join(r.dir, "known.out")
    names = list(probes)
    with open(src, "w") as f:
        for n in names:
            f.write(json.dumps({"ev": probes[n][0]}) + "\n")
    r.harness(bin, "replay", "-profile", "C21", "-in", src, "-out", out)
    for n, line in zip(names, open(out)):
        s = json.loads(line)
        last = s["ev"][-1]
        text = last["q"]
        if not last["ok"] or "-- c" not in text or re.search(r"; -- c$", text):
            continue  # refused, dropped, or at the very end: nothing is swallowed
        if n in listed and text == probes[n][1]:
            print("KNOWN-FINDING: property=C21 [%s] %s" % (n, listed[n]))
        else:
            raise Violation("a comment is written before the end of the statement", s, {"profile": "C21", "focus": "ok,q"})


def with_known_comment(r, tier):
    comment_in_subquery(r)
    traces("C21")(r, tier)


TECHNIQUE = ("TLA+ specification checked with TLC: programs enumerated by TLC are executed on the real code, and executions recorded from the "
             "real code are validated against the specification")
NOTE = ("TLC visits every program of the models within the bounds, checks the invariants of the property on them, and the harness executes each of "
        "them on /repo, comparing the results the specification gives; random (seeded) programs are executed on /repo too and every call and "
        "rendering is judged by TLC as a transition of the specification. Exhaustive within the menus and lengths of the models only; beyond, as "
        "good as the random programs. Trusts TLC, the specification and the Go harness that builds the arguments.")
SHARED = ("TLC checks every schedule of memory accesses of the model (Memory.tla); programs for several goroutines enumerated by TLC, and random "
          "ones, are executed on /repo under the Go race detector and their results compared with the specification. The schedules of the real "
          "code are those that happened: the detector finds unsynchronised accesses that were executed, whatever their order.")


def bounds(prop):
    def span(m):
        return "%s (%s)" % (m["name"], "%d steps" % m["ops"] if m["ops"] == m["deep"] else "%d steps, thorough: %d" % (m["ops"], m["deep"]))

    quick, thorough = TRACES[prop][1:] if prop in TRACES else RACES
    return "models: %s; random programs: %d, thorough: %d" % (", ".join(span(m) for m in MODELS.get(prop, [])) or "none", quick, thorough)


RACES = (1200, 20000)
CHECKS = {p: {"run": traces(p), "level": "model_checking", "bounds": bounds(p), "technique": TECHNIQUE, "note": NOTE} for p in TRACES}
CHECKS["C06"] = {"run": concurrent, "level": "model_checking", "bounds": bounds("C06"), "technique": TECHNIQUE + "; Go race detector", "note": SHARED}
CHECKS["C21"]["run"] = with_known_comment
