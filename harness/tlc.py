"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile

import paths

JAR = "/opt/veriftools/tla/tla2tools.jar"


def classpath():
    d = os.path.dirname(JAR)
    jars = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar")]
    return ":".join([JAR] + [j for j in jars if j != JAR])


def run(module, cfg=None, env=None, args=(), workers=8, timeout=600, heap="4g", cwd=None):
    """Returns (returncode, output)."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dtlc2.TLC.stopAfter=%d" % timeout, "-cp", classpath(), "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or module + ".cfg"]
        cmd += list(args) + [module]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=cwd or paths.SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 60)
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def printed_json(out):
    """JSON values printed with PrintT(ToJson(..)) (TLC prints a quoted TLA+ string)."""
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"') and ("{" in line or "[" in line):
            try:
                yield json.loads(json.loads(line))
            except ValueError:
                pass


def stats(out):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if m:
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))
    m = re.findall(r"([\d,]+) states generated", out)
    if m:
        return int(m[-1].replace(",", "")), 0
    return 0, 0
