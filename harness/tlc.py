"""Running TLC on the modules of /verif/spec and collecting what they print."""
import json
import os
import re
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CLASSES = os.path.join(ROOT, "build", "classes")


class MachineryError(Exception):
    pass


class SpecViolation(Exception):
    """TLC found a state that breaks an invariant; .text says which."""

    def __init__(self, name, text):
        super().__init__(name)
        self.name = name
        self.text = text


def compile_overrides():
    src = os.path.join(SPEC, "Cyclo.java")
    out = os.path.join(CLASSES, "Cyclo.class")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return
    os.makedirs(CLASSES, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.dirname(CLASSES))
    try:
        subprocess.run(["javac", "-cp", JARS, "-d", tmp, src], check=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        for f in os.listdir(tmp):
            os.replace(os.path.join(tmp, f), os.path.join(CLASSES, f))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(module, config=None, env=None, workers=8, timeout=800, args=(), heap="12g"):
    """Run TLC; returns {lines: [decoded QV records], states, distinct, depth}."""
    compile_overrides()
    config = config or module + ".cfg"
    meta = tempfile.mkdtemp(prefix="qvtlc")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-cp", CLASSES + ":" + JARS,
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", config, *args, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC ran out of time on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    lines, other = [], []
    for line in p.stdout.split("\n"):
        if line.startswith('"QV '):
            lines.append(json.loads(json.loads(line)[3:]))
        elif not line.startswith(("Parsing", "Semantic", "Linting", "Loading", "Computed")):
            other.append(line)
    text = "\n".join(other)
    if "No error has been found" not in text:
        m = re.search(r"Invariant (\w+) is violated", text)
        if m:
            raise SpecViolation(m.group(1), text)
        raise MachineryError(f"TLC failed on {module}:\n{text[-6000:]}")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    d = re.search(r"depth of the complete state graph search is (\d+)", text)
    return {"lines": lines, "states": int(m.group(2)), "transitions": int(m.group(1)),
            "depth": int(d.group(1)) if d else 0, "text": text}


def check_actions(text):
    return re.findall(r"<(\w+) line.*?>: (\d+):(\d+)", text)
