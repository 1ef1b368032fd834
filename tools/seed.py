"""Builds and tries planted bugs from definitions in a directory.

usage: seed.py DIR [ID...]   each DIR/ID.py defines PROP, FILE, EDITS
[(old, new), ...], NEEDS, WHAT and DEMO (python source; it must exit non-zero
or raise with the bug). A bug is kept in /verif/seeded/ID, if the patch
applies, the stable tests pass with it, and the demonstration passes without
and fails with it. /repo is put back after each.
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO_SH = """#!/bin/sh
# run in the repository: 0 = works, otherwise broken
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec timeout 250 \\
    /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          **kw)


def reset():
    sh("git -C /repo checkout -- .")


def build(src, bid, check=True):
    d = {}
    exec(compile(open(src).read(), src, "exec"), d)
    files = d["FILE"] if isinstance(d["FILE"], list) else [d["FILE"]]
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    try:
        for old, new in d["EDITS"]:
            hits = [f for f in files
                    if open(os.path.join(REPO, "sudokutools", f)).read()
                    .count(old) == 1]
            if len(hits) != 1:
                return "edit does not apply: %r" % old
            p = os.path.join(REPO, "sudokutools", hits[0])
            t = open(p).read().replace(old, new)
            open(p, "w").write(t)
        patch = sh("git -C /repo diff").stdout
        out = os.path.join(HERE, "seeded", bid)
        os.makedirs(out, exist_ok=True)
        for name, text in (("patch.diff", patch), ("demo.sh", DEMO_SH),
                           ("demo.py", d["DEMO"].lstrip()),
                           ("meta.json", json.dumps({
                               "property": d["PROP"], "needs": d["NEEDS"],
                               "what_it_breaks": d["WHAT"]}, indent=1)
                            + "\n")):
            with open(os.path.join(out, name), "w") as f:
                f.write(text)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        r = sh("bash /opt/vp/test.sh /tmp/seed.json")
        res = r.stdout.strip().split("\n")[-1]
        drop = []
        if " 0 failed" not in res:
            drop.append("tests: " + res)
        with_bug = sh("sh %s/demo.sh" % out, cwd=REPO)
        if with_bug.returncode == 0:
            drop.append("demo passes with the bug")
        caught = "-"
        if check and not drop:
            c = sh("VERIF_SEED=1 %s/check %s quick" % (HERE, d["PROP"]),
                   cwd=HERE)
            caught = {0: "MISSED", 1: "caught"}.get(
                c.returncode, "exit %d" % c.returncode)
    finally:
        reset()
    clean = sh("sh %s/demo.sh" % out, cwd=REPO)
    if clean.returncode != 0:
        drop.append("demo fails without the bug: "
                    + clean.stderr.strip()[-300:])
    if drop:
        sh("rm -r %s" % out)
        return "DROPPED " + "; ".join(drop)
    return "%s %s" % (d["PROP"], caught)


if __name__ == "__main__":
    src = sys.argv[1]
    ids = sys.argv[2:] or sorted(x[:-3] for x in os.listdir(src)
                                 if x.endswith(".py"))
    for bid in ids:
        print(bid, build(os.path.join(src, bid + ".py"), bid), flush=True)
