"""Running TLC and reading its verdicts."""
import os, re, subprocess, tempfile, shutil, json
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar"
class TLCError(Exception): pass

def _cmd():
    with open(shutil.which("tlc")) as f: return f.read()

def run(module, cfg=None, env=None, workers=1, timeout=800, args=(), heap="3g"):
    """Returns dict(ok, states, distinct, depth, out, at=[json lines printed by the spec])."""
    d = tempfile.mkdtemp(prefix="tlc_")
    try:
        e = dict(os.environ); e.update({k: str(v) for k, v in (env or {}).items()})
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss256m -XX:+UseParallelGC -Djava.io.tmpdir=%s" % (heap, d) + (" -XX:TieredStopAtLevel=1" if workers == 1 else "")
        cmd = ["tlc", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(args) + [os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise TLCError("TLC timed out on %s" % module)
        out = p.stdout
        k = out.find("The behavior up to this point is")
        if k >= 0 and len(out) - k > 20000: out = out[:k + 10000] + "\n...\n" + out[-10000:]
        r = {"rc": p.returncode, "out": out, "at": []}
        for line in out.split("\n"):
            if line.startswith('"@@'):
                r["at"].append(json.loads(json.loads(line)[2:]))
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m: r["states"] = int(m.group(1).replace(",", "")); r["distinct"] = int(m.group(2).replace(",", ""))
        m = re.search(r"The number of states generated: ([\d,]+)", out)
        if m and "states" not in r: r["states"] = r["distinct"] = int(m.group(1).replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        r["depth"] = int(m.group(1)) if m else None
        r["ok"] = p.returncode == 0 and not re.search(r"^Error:", out, re.M)
        # per-action coverage (with -coverage): "<Action line ..>: distinct:total"
        r["actions"] = {a: (int(x), int(y)) for a, x, y in re.findall(r"<(\w+) line[^>]*>: (\d+):(\d+)", out)}
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)

def check(module, **kw):
    """A run that has to succeed: anything else is an error of the machinery, not of the code."""
    r = run(module, **kw)
    if not r["ok"]:
        raise TLCError("TLC failed on %s (rc %s)\n%s\n...\n%s" % (module, r["rc"], "\n".join(re.findall(r"^(?:Error:|The exception|TLC threw|:|Attempted|Overflow|The first|The second).*(?:\n.+)?", r["out"], re.M))[:2000], r["out"][-1200:]))
    return r
