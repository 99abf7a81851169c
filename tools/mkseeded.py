#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for every planted bug from the edits and demonstrations listed here.

The edits are applied to a scratch copy of /repo's HEAD; nothing here touches /repo.
Usage: mkseeded.py [ID...]
"""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "seeded")
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


exec(open(os.path.join(HERE, "bugs.py")).read())


def main():
    want = set(sys.argv[1:])
    scratch = tempfile.mkdtemp(prefix="seed-")
    subprocess.run(["git", "clone", "-q", "/repo", scratch + "/repo"], check=True)
    repo = scratch + "/repo"
    for b in BUGS:
        if want and b["id"] not in want:
            continue
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo, check=True)
        ok = True
        for file, old, new in b["edits"]:
            p = os.path.join(repo, file)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit matches", s.count(old), "times in", file, repr(old[:60]))
                ok = False
                continue
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True, check=True).stdout
        d = os.path.join(OUT, b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        for f in ("demo.sh", "Cargo.toml", "client.rs"):
            shutil.copy(os.path.join(HERE, "seed", f), d)
        body = b["demo"].strip("\n")
        open(os.path.join(d, "main.rs"), "w").write("#[macro_use]\nmod client;\nuse client::*;\n\n" + body + "\n")
    shutil.rmtree(scratch)


main()
