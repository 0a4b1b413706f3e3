#!/usr/bin/env python3
"""hunt.py [id...]: run the check of each planted bug's property (or of every
property with --all) against a scratch copy of /repo with the bug; prints what is caught."""
import json, os, pathlib, shutil, subprocess, sys, tempfile, time

ROOT = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
every = "--all" in sys.argv
where = pathlib.Path("/tmp/pl/extra") if "--extra" in sys.argv else ROOT / "seeded"
ids = args or sorted(p.name for p in where.iterdir())
for bid in ids:
    tmp = tempfile.mkdtemp(prefix="qvhunt")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("testbench", "__pycache__"))
        subprocess.run(["git", "apply", str(where / bid / "patch.diff")], cwd=repo, check=True)
        prop = json.load(open(where / bid / "meta.json"))["property"]
        out = []
        for p in ([json.loads(l)["id"] for l in open(ROOT / "properties.jsonl")] if every else [prop]):
            t = time.time()
            r = subprocess.run([PY, "harness/check.py", p], cwd=ROOT, env={**os.environ, "QV_REPO": repo},
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            hit = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
            out.append(f"{p}{'+' if hit else '-' if r.returncode == 0 else '?'}")
            if p == prop:
                n = [l for l in r.stdout.split("\n") if l.startswith(p + ":")]
                msg = [l for l in r.stdout.split("\n") if l.startswith("  ")]
                print(f"{bid}: {'caught' if hit else 'MISSED' if r.returncode == 0 else 'ERROR'} {time.time() - t:.0f} s "
                      f"{(n or [''])[0][:90]} | {(msg or [r.stdout[-300:] if not hit else ''])[0].strip()[:160]}", flush=True)
        if every:
            print("   ", " ".join(out), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
