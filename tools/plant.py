#!/usr/bin/env python3
"""plant.py DEFS.py [id...]: turns bug definitions into /verif/seeded/<id>/ after
confirming them in a scratch copy of /repo: builds, passes the stable tests,
demonstration fails with the change and passes without it, changes only original lines.

A definition: BUGS[id] = dict(property=, file=, edits=[(old, new), ...], needs=, breaks=, demo=python text)
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
BASE = "8b7bd40"
PY = "/opt/venv/bin/python"
HEAD = '''import os, sys, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
HERE = os.path.dirname(os.path.abspath(__file__))


'''


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", **env},
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)


def original_lines(repo, path, diff):
    """Does the diff remove or follow only lines of the base commit?"""
    blame = sh(f"git blame -s --abbrev=7 HEAD -- {path}", repo).stdout.split("\n")
    n, removed, ours = 0, 0, 0
    for l in diff.split("\n"):
        if l.startswith("@@"):
            n = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("---") or l.startswith("+++"):
            pass
        elif l.startswith("-"):
            removed += 1
            ours += not blame[n - 1].lstrip("^").startswith(BASE)
            n += 1
        elif l.startswith(" "):
            n += 1
    return removed, ours


def stable(repo):
    r = sh(f"{PY} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors 2>&1 | tail -3", repo,
           PYTHONPATH=f"{repo}/src", OMP_NUM_THREADS="1")
    return r.stdout


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for bid, b in ns["BUGS"].items():
        if want and bid not in want:
            continue
        tmp = pathlib.Path(tempfile.mkdtemp(prefix="qvplant"))
        repo = tmp / "repo"
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("testbench", "__pycache__"))
        try:
            files = b["file"] if isinstance(b["file"], list) else [b["file"]]
            for i, e in enumerate(b["edits"]):
                f = e[2] if len(e) > 2 else files[0]
                s = (repo / f).read_text()
                assert s.count(e[0]) == 1, (bid, i, s.count(e[0]))
                (repo / f).write_text(s.replace(e[0], e[1]))
            diff = sh("git diff -- src experimental.py main.py", repo).stdout
            removed = ours = 0
            for f in files:
                r, o = original_lines(repo, f, sh(f"git diff -- {f}", repo).stdout)
                removed, ours = removed + r, ours + o
            d = tmp / "demo"
            d.mkdir()
            (d / "demo.py").write_text(HEAD + b["demo"].lstrip("\n"))
            (d / "demo.sh").write_text(f'#!/bin/bash\nexec {PY} "$(dirname "$0")/demo.py"\n')
            for x in b.get("with", []):
                (shutil.copytree if os.path.isdir(x) else shutil.copy)(x, d / os.path.basename(x))
            (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"],
                                                     "what_it_breaks": b["breaks"]}, indent=1) + "\n")
            (d / "patch.diff").write_text(diff)
            bad = sh(f"bash {d}/demo.sh", repo)
            good = sh(f"bash {d}/demo.sh", "/repo")
            tests = stable(repo)
            works = bad.returncode != 0 and good.returncode == 0 and "15 passed" in tests
            ok = works and ours == 0
            print(f"{bid}: {'kept' if ok else 'NOT KEPT'}  removed {removed} lines ({ours} not original); demo {good.returncode}/"
                  f"{bad.returncode}; {tests.strip().splitlines()[-1]}", flush=True)
            if works and not ok:  # on lines of ours: not to be counted, but hunted all the same
                out = pathlib.Path("/tmp/pl/extra") / bid
                shutil.rmtree(out, ignore_errors=True)
                shutil.copytree(d, out)
            if not ok:
                print(good.stdout[-600:], bad.stdout[-600:])
                continue
            print("   ", bad.stdout.strip().splitlines()[-1][:150])
            out = ROOT / "seeded" / bid
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(d, out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
