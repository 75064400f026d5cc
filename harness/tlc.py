"""Run TLC and read back what it prints.  Standard library only."""
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
_TAG = re.compile(r'^"(VERDICT|SCRIPT|INFO) (.*)"$')


class TlcResult:
    def __init__(self, rc, out):
        self.rc = rc
        self.out = out
        self.lines = {"VERDICT": [], "SCRIPT": [], "INFO": []}
        for line in out.splitlines():
            m = _TAG.match(line.strip())
            if m:
                # TLC prints the string with its inner quotes escaped
                self.lines[m.group(1)].append(json.loads(json.loads('"' + m.group(2) + '"')))
        gen = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(gen[-1][0]) if gen else 0
        self.distinct = int(gen[-1][1]) if gen else 0
        self.finished = "Model checking completed. No error has been found." in out
        m = re.search(r"(?:Invariant|Action property|Temporal properties?|property) (\w+)?[^\n]*(?:is|were) violated", out)
        self.violated = (
            (m.group(1) or "temporal") if m
            else ("deadlock" if "Deadlock reached" in out else None)
        )

    def error_text(self):
        keep = [l for l in self.out.splitlines() if l.startswith("Error") or "rror" in l]
        return " | ".join(keep[:6]) or self.out[-600:]


def run(module, cfg=None, env=None, workers=1, timeout=600, heap="3g", args=()):
    """module and cfg are names in spec/ (without suffix)."""
    cfg = cfg or module
    meta = tempfile.mkdtemp(prefix="tlcmeta.")
    e = dict(os.environ)
    e.update(env or {})
    # the heap is bounded so that several checkers can run side by side
    cmd = [
        "java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m",
        "-Djava.io.tmpdir=" + meta,
        "-cp", classpath(), "tlc2.TLC",
        "-config", os.path.join(SPEC, cfg + ".cfg"),
        "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-deadlock",
        *args, os.path.join(SPEC, module + ".tla"),
    ]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True,
                           errors="replace")
        return TlcResult(p.returncode, p.stdout)
    except subprocess.TimeoutExpired as x:
        out = x.stdout or b""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        return TlcResult(-1, out + "\nError: TLC timed out")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def classpath():
    base = "/opt/veriftools/tla"
    jars = [os.path.join(base, j) for j in sorted(os.listdir(base)) if j.endswith(".jar")]
    jars.sort(key=lambda j: 0 if "tla2tools" in j else 1)
    return ":".join(jars)
