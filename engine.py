"""Runs the Go harness on /repo and TLC on spec/, and compares the two."""
import concurrent.futures, json, os, re, shutil, subprocess, tempfile, threading

HERE = os.path.dirname(os.path.abspath(__file__))
CORES = os.cpu_count() or 4
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(EVIDENCE, "replay")
EVENT = re.compile(r'"op":"(?:new|call|render|is|stmt|parts|join|lex)"')
GO = {"GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOWORK": "off", "CGO_ENABLED": "0"}


class NoAnswer(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, scenario, how=None):
        super().__init__(what)
        self.what, self.scenario, self.how = what, scenario, how or {}


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = tempfile.mkdtemp(prefix="loukoum-%s-" % prop)
        self.states = self.transitions = self.traces = self.events = self.lost = 0
        self.notes, self.samples, self.stats = [], [], {}
        self.procs = self.replayed = 0
        self.focus = "ok,q,args"
        self.lock = threading.Lock()

    # ------------------------------------------------------------ harness
    def build(self, race=False):
        src = os.path.join(self.dir, "harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(HERE, "harness"), src)
        out = os.path.join(self.dir, "harness.race" if race else "harness.bin")
        env = dict(os.environ, **GO)
        cmd = ["go", "build", "-o", out]
        if race:
            env["CGO_ENABLED"] = "1"
            cmd.append("-race")
        p = subprocess.run(cmd + ["."], cwd=src, env=env, capture_output=True, text=True)
        if p.returncode != 0:
            raise NoAnswer("the harness does not build against /repo:\n" + p.stdout + p.stderr)
        return out

    def harness(self, bin, *args, env=None, timeout=800):
        hang = os.path.join(self.dir, "hang-%d" % abs(hash(args)))
        cmd = [bin] + [str(a) for a in args]
        if args[0] in ("gen", "extremes", "again", "replay", "expect"):
            cmd += ["-hang", hang]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired:
            raise NoAnswer("the harness timed out: " + " ".join(cmd))
        if p.returncode == 3 and os.path.exists(hang):
            raise Violation("the code does not terminate", json.load(open(hang)), {"command": cmd})
        if p.returncode not in (0, 66) and not (p.returncode == 4 and args[0] in ("expect", "share")):
            if re.search(r"^(fatal error:|runtime: goroutine stack exceeds)", p.stderr, re.M):
                raise Violation("the process was ended by the Go runtime", {"ev": []},
                                {"command": cmd, "stderr": p.stderr[:4000]})
            raise NoAnswer("the harness failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stderr[-4000:]))
        return p

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, env, workers=2, heap="3g", cfg=None, timeout=850, extra=()):
        """Runs TLC on a copy of the specification and returns its output."""
        with self.lock:
            self.procs += 1
        d = tempfile.mkdtemp(dir=self.dir, prefix="tlc-")
        for f in os.listdir(os.path.join(HERE, "spec")):
            shutil.copy(os.path.join(HERE, "spec", f), d)
        cmd = ["java", "-Xmx" + heap, "-Xss256m", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-XX:+UseParallelGC",
               "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"), *extra,
               "-config", cfg or module + ".cfg", module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, env=dict(os.environ, **env), capture_output=True, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise NoAnswer("TLC timed out on " + module)
        out = p.stdout + p.stderr
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        shutil.rmtree(d, ignore_errors=True)
        return p.returncode, gen, distinct, out

    def validate(self, path, focus, how, workers=2):
        """Trace validation: every event of every scenario of the file must be a
        transition of the specification."""
        scenarios = events = 0
        with open(path, encoding="utf-8") as f:
            for line in f:
                scenarios += 1
                events += len(EVENT.findall(line))
        if scenarios == 0:
            return
        rc, gen, distinct, out = self.tlc("Trace", {"TRACE": path, "FOCUS": focus}, workers)
        if "Invariant Explained is violated" in out:
            last = out[out.index("Invariant Explained is violated"):]
            sc = int(re.findall(r"^/\\ sc = (\d+)", last, re.M)[-1])
            at = int(re.findall(r"^/\\ l = (\d+)", last, re.M)[-1]) - 1
            why = re.findall(r'^/\\ bad = "(.*)"', last, re.M)[-1]
            with open(path, encoding="utf-8") as f:
                for i, line in enumerate(f, 1):
                    if i == sc:
                        break
            s = json.loads(line)
            raise Violation(why, s, dict(how, focus=focus, event=at))
        if rc != 0 or distinct != scenarios + events:
            raise NoAnswer("TLC did not accept the traces (%d states for %d scenarios and %d events):\n%s" % (distinct, scenarios, events, out[-3000:]))
        with self.lock:
            self.states += distinct
            self.transitions += distinct - scenarios
            self.traces += scenarios
            self.events += events
            self.lost += out.count('"LOST"')

    # ------------------------------------------------- model, then the code
    def model(self, bin, m, tier, workers=2):
        """Lets TLC visit every program of a model, checking its invariants, and
        executes each of them on the real code: the specification gave the
        results to expect."""
        name, depth = m["module"], m["ops"] if tier == "quick" else m.get("deep", m["ops"])
        m = dict(m, consts={k: v[tier != "quick"] if isinstance(v, tuple) else v for k, v in m.get("consts", {}).items()})
        programs = {"Starts": "NoStarts", "Calls": "MCCalls", "Prefix_": "NoPrefix", "MaxNew": 1, "Branching": 0}
        consts = dict({} if m.get("texts") else programs, MaxOps=depth, **m.get("consts", {}))
        lines = ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE", "ALIAS Shown", "INVARIANT " + " ".join(m["inv"] + [m.get("export", "Export")])]
        if m.get("props"):
            lines.append("PROPERTY " + " ".join(m["props"]))
        lines.append("CONSTANTS")
        for k, v in consts.items():
            lines.append("  %s %s %s" % (k, "=" if re.match(r"^(\d+|TRUE|FALSE)$", str(v)) else "<-", v))
        label = m["name"]
        with tempfile.TemporaryDirectory(dir=self.dir) as d:
            out = os.path.join(d, "programs.ndjson")
            cfg = os.path.join(d, "model.cfg")
            with open(cfg, "w") as f:
                f.write("\n".join(lines) + "\n")
            workers = m.get("workers", workers)
            while True:
                open(out, "w").close()
                rc, gen, distinct, log = self.tlc(name, {"OUT": out}, workers, m.get("heap", "6g"), cfg)
                if "No error has been found" not in log:
                    at = log.find("Error:")
                    raise NoAnswer("the model %s does not satisfy its own invariants:\n%s" % (label, log[max(at, 0):][:6000]))
                # TLC's workers may mix the lines that they do not write at once.
                if workers == 1 or max(map(len, open(out, "rb")), default=0) < 8000:
                    break
                workers = 1
            n = self.share(bin, out, label) if m.get("share") else self.expect(bin, out, m.get("focus") or self.focus, label)
            if n == 0 or m.get("export", "Export") == "Export" and n < distinct - 1:
                raise NoAnswer("%d programs of the model %s were executed, of %d" % (n, label, distinct - 1))
        with self.lock:
            self.states += distinct
            self.transitions += gen
            self.replayed += n
            self.notes.append("model %s: %d programs of up to %d steps, all executed on the code; invariants %s"
                              % (label, n, depth, ", ".join(m["inv"] + m.get("props", []))))

    def expect(self, bin, path, focus, label):
        res = path + ".violation"
        p = self.harness(bin, "expect", "-profile", self.prop, "-focus", focus, "-in", path, "-out", res)
        if p.returncode == 4:
            doc = json.load(open(res))
            raise Violation(doc.pop("why"), doc, {"profile": self.prop, "focus": focus, "model": label})
        done = json.loads(p.stdout.strip().splitlines()[-1])
        with self.lock:
            self.lost += done["lost"]
        return done["done"]

    def share(self, bin, path, label, times=3):
        """Programs for several goroutines, under the race detector."""
        lines = open(path, encoding="utf-8").readlines()
        step = max(1, -(-len(lines) // CORES))

        def job(k):
            src, res = "%s.%d" % (path, k), "%s.%d.violation" % (path, k)
            with open(src, "w", encoding="utf-8") as f:
                f.writelines(lines[k:k + step])
            p = self.harness(bin, "share", "-n", times, "-in", src, "-out", res, env={"GORACE": "halt_on_error=1 exitcode=66"})
            how = {"profile": self.prop, "focus": "ok,q,args", "model": label}
            if p.returncode == 4:
                doc = json.load(open(res))
                raise Violation(doc.pop("why"), doc, how)
            if p.returncode == 66 or "WARNING: DATA RACE" in p.stderr:
                at = int(p.stdout.split()[-1])
                raise Violation("data race between goroutines sharing builders", json.loads(json.loads(lines[k + at])), dict(how, race=p.stderr[:6000]))
            return len(p.stdout.split())

        return sum(self.pool(job, range(0, len(lines), step)))

    def memory(self, threads, ops):
        """The model of memory: no error for the discipline of the code, one for each of those that look alike."""
        for derive, show in (("copy", "read"), ("append", "read"), ("copy", "sort")):
            cfg = os.path.join(self.dir, "memory-%s-%s.cfg" % (derive, show))
            with open(cfg, "w") as f:
                f.write('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT NoRace Alone Unchanged\nCONSTANTS\n  Threads <- %s\n  MaxOps = %d\n'
                        '  Derive = "%s"\n  Show = "%s"\n' % (threads, ops, derive, show))
            rc, gen, distinct, log = self.tlc("Memory", {}, 4, "6g", cfg)
            if ("No error has been found" in log) != (derive == "copy" and show == "read") or not re.search("No error has|is violated", log):
                raise NoAnswer("unexpected result of the model of memory (%s, %s):\n%s" % (derive, show, log[-3000:]))
            with self.lock:
                self.states += distinct
                self.transitions += gen
                self.notes.append("model of memory, %s of %d operations, derivations %s, rendering %s: %d states, %s"
                                  % (threads, ops, derive, show, distinct, "no error" if "No error has" in log else "an invariant fails, as it must"))

    def record(self, bin, profile, n, chunk, focus, offset=0):
        """Generates, executes and validates n programs."""
        jobs = [(self.seed * 1000 + offset, 0)] if offset == 0 else []
        k = 0
        while n > 0:
            jobs.append((self.seed * 1000 + offset + k, min(n, chunk)))
            n -= chunk
            k += 1

        def job(j):
            seed, size = j
            if size == 0:
                path = os.path.join(self.dir, "x-%s.ndjson" % profile)
                self.harness(bin, "extremes", "-profile", profile, "-seed", seed, "-out", path)
                self.validate(path, focus, {"profile": profile, "seed": seed, "extremes": True})
                os.remove(path)
                return
            path = os.path.join(self.dir, "t-%s-%d.ndjson" % (profile, seed))
            how = {"profile": profile, "seed": seed}
            self.harness(bin, "gen", "-profile", profile, "-n", size, "-seed", seed, "-out", path)
            if profile == "C04":
                self.harness(bin, "again", "-profile", profile, "-in", path, "-out", path)
            if seed == self.seed * 1000 + offset:
                self.sample(path)
            self.validate(path, focus, how)
            os.remove(path)

        self.pool(job, jobs)

    def pool(self, f, jobs):
        with concurrent.futures.ThreadPoolExecutor(max(1, CORES // 2)) as ex:
            fs = [ex.submit(f, j) for j in jobs]
            try:
                for r in concurrent.futures.as_completed(fs):
                    r.result()
                return [r.result() for r in fs]
            except Exception:
                for r in fs:
                    r.cancel()
                raise

    def sample(self, path, k=4):
        """Keeps a few of the programs for the evidence, and counts what was used."""
        calls = {}
        with open(path, encoding="utf-8") as f:
            for i, line in enumerate(f):
                s = json.loads(line)
                if i in (3, 57, 201, 777)[:k]:
                    self.samples.append(brief(s)[:900])
                for e in s["ev"]:
                    key = e["op"] + ":" + (e.get("m") or e.get("kind") or "")
                    if e["op"] in ("new", "call"):
                        key += ":ok" if e["ok"] else ":panic"
                    elif e["op"] in ("render", "stmt", "join", "parts"):
                        key += "ok" if e["ok"] else "panic"
                    calls[key] = calls.get(key, 0) + 1
        for key, v in calls.items():
            self.stats[key] = self.stats.get(key, 0) + v

    # ------------------------------------------------------------ evidence
    def evidence(self, level, wall, bounds, verdict):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {
            "states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces + self.replayed,
            "recorded_traces_validated": self.traces, "model_programs_executed": self.replayed,
            "scenarios_left_uncompared": self.lost, "tlc_runs": self.procs,
            "samples": self.samples[:8] or ["(none)"], "operations_in_first_chunk": self.stats, "notes": self.notes, "bounds": bounds, "verdict": verdict,
        }
        doc = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "wall_s": round(wall, 1), "coverage": cov}
        tmp = os.path.join(self.dir, "evidence.json")
        with open(tmp, "w") as f:
            json.dump(doc, f, indent=1, ensure_ascii=False)
        shutil.copy(tmp, os.path.join(EVIDENCE, self.prop + ".json"))


# ---------------------------------------------------------------- display
def term(t):
    if isinstance(t, list):
        return ", ".join(term(x) for x in t)
    if not isinstance(t, dict):
        return json.dumps(t, ensure_ascii=False)
    k = t.get("k", "")
    if k == "val":
        return json.dumps(t["v"], ensure_ascii=False) if t["t"] == "string" else "%s(%s)" % (t["t"], t["v"])
    if k in ("b", "bs"):
        return "b%d" % t["h"] + (".Statement()" if k == "bs" else "")
    if k in ("cmp", "in", "btw"):
        return "%s.%s(%s)" % (term(t["x"]), t["m"], term(t["a"]))
    if k == "log":
        return "(%s %s %s)" % (term(t["l"]), t["op"], term(t["r"]))
    if k in ("ident", "raw", "identraw"):
        return "%s(%s)" % (k, json.dumps(t["v"], ensure_ascii=False))
    return k + "(" + ", ".join("%s: %s" % (a, term(b)) for a, b in t.items() if a not in ("k", "w", "p", "way", "id") and b != "" and b is not False) + ")"


def brief(s):
    out, h = [], 1
    for e in s.get("ev", []):
        op = e["op"]
        if op in ("new", "call"):
            name = e["kind"] if op == "new" else "b%d.%s" % (e["h"], e["m"])
            if e.get("ok"):
                out.append("b%d := %s(%s)" % (h, name, term(e["args"])))
                h += 1
            else:
                out.append("panic: %s(%s)" % (name, term(e["args"])))
        elif op == "render":
            out.append("b%d renders %s" % (e["h"], json.dumps(e.get("s") or e.get("q") or "panic", ensure_ascii=False)))
        elif op == "parts":
            out.append("parts %s write %s" % (term(e["parts"]), json.dumps(e.get("s") or e.get("q") or "panic", ensure_ascii=False)))
        elif op in ("join", "lex"):
            out.append("%s(%s)" % (op, json.dumps(e["str"], ensure_ascii=False)))
        else:
            out.append("%s(b%s)" % (op, e.get("h", "")))
    return "; ".join(out)


