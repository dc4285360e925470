"""Running TLC."""
import os, re, shutil, subprocess, time

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def run(verif, module, work, cfg=None, env=None, timeout=600, simulate=None, workers=8):
    """simulate: (behaviours, depth, seed)"""
    t0 = time.time()
    meta = os.path.join(work, "tlc-" + module)
    tmp = os.path.join(work, "tmp")
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", "-Xss64m", "-Xmx8g", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Dstderr.encoding=UTF-8",
           "-Djava.io.tmpdir=" + tmp,
           "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg or module + ".cfg"]
    if simulate:
        num, depth, seed = simulate
        cmd[cmd.index("-workers") + 1] = "1"
        cmd += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
    cmd.append(module + ".tla")
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.run(cmd, cwd=os.path.join(verif, "spec"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        log, rc = p.stdout.decode("utf-8", "replace"), p.returncode
    except subprocess.TimeoutExpired as x:
        log, rc = (x.stdout or b"").decode("utf-8", "replace") + "\nError: timed out", -1
    shutil.rmtree(meta, ignore_errors=True)
    printed = {}
    for line in log.split("\n"):
        m = re.match(r'"([A-Z]+) (.*)"$', line)
        if m:
            printed.setdefault(m.group(1), []).append(unquote(m.group(2)))
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", log)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (None, None)
    if simulate and not m:
        m = re.findall(r"states generated: ([\d,]+)|([\d,]+) states generated", log)
        gen = dist = int(next(x for x in m[-1] if x).replace(",", "")) if m else 0
    err = rc != 0 or "\nError:" in log or (not simulate and dist is None)
    text = log[log.find("\nError:"):] if "\nError:" in log else log[-1500:]
    log = "\n".join(l for l in log.split("\n") if not re.match(r"(Parsing file|Semantic processing|Linting|Computed )", l))
    return dict(error=err, errortext=text, log=log, printed=printed, generated=gen, distinct=dist, wall=time.time() - t0, rc=rc)


def unquote(s):
    """TLC prints strings with escapes."""
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            out.append({"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(s[i + 1], s[i + 1]))
            i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)
