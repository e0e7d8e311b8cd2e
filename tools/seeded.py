#!/usr/bin/env python3
"""Runs the checks against the changes of seeded/ and writes the table of
DESIGN.md (rows of the given ids only, all by default).

Every change is applied to a copy of /repo, and the quick check of its property
runs from a copy of /verif: once entirely, once with the models only."""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(id):
    meta = json.load(open(os.path.join(HERE, "seeded", id, "meta.json")))
    prop = meta["property"]
    d = tempfile.mkdtemp(prefix="seeded-")
    try:
        shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git"))
        os.mkdir(d + "/verif")
        for f in glob.glob(HERE + "/*.py") + [HERE + "/known_findings.txt"]:
            shutil.copy(f, d + "/verif")
        for f in ("harness", "spec"):
            shutil.copytree(os.path.join(HERE, f), d + "/verif/" + f)
        subprocess.run(["patch", "-s", "-p1", "-i", os.path.join(HERE, "seeded", id, "patch.diff")], cwd=d + "/repo", check=True)
        mod = open(d + "/verif/harness/go.mod").read()
        open(d + "/verif/harness/go.mod", "w").write(mod.replace("=> /repo", "=> " + d + "/repo"))
        res = []
        for args in ([prop, "quick"], ["--models", prop]):
            p = subprocess.run(["python3", "check.py"] + args, cwd=d + "/verif", capture_output=True, text=True)
            hit = p.returncode == 1 and re.search("^VIOLATION property=%s " % prop, p.stdout, re.M)
            res.append("yes" if hit else "no" if p.returncode == 0 else "rc %d" % p.returncode)
            if args[0] == prop and not hit:
                sys.stderr.write(p.stdout[-300:] + p.stderr[-1500:])
        return "| %s | %s | %s | %s | %s | %s |" % (id, prop, meta["what_it_breaks"], meta["needs"], res[0], res[1])
    finally:
        shutil.rmtree(d)


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    path = os.path.join(HERE, "DESIGN.md")
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for row in ex.map(one, ids):
            print(row, flush=True)
            doc = open(path).read()
            head, body = doc.split("<!-- seeded -->\n")
            rows = {r.split("|")[1].strip(): r for r in body.splitlines() if r.startswith("| C")}
            rows[row.split("|")[1].strip()] = row
            rows = {i: r for i, r in rows.items() if os.path.isdir(os.path.join(HERE, "seeded", i))}
            body = "| change | property | what it breaks | what it needs | check | models |\n|---|---|---|---|---|---|\n"
            body += "".join(rows[i] + "\n" for i in sorted(rows))
            open(path, "w").write(head + "<!-- seeded -->\n" + body)


if __name__ == "__main__":
    main()
