#!/usr/bin/env python3
"""specmut.py [COUNT [SEED [EVENTS [MODULE...]]]]: does the code refute a wrong specification?

The converse of planting bugs: changes one operator of the specification (a comparison, a bound, a
connective, a set operation, ...), and validates the recorded traces of all properties against the
changed specification. A change that no trace refutes (and that is not equivalent) is behaviour the
specification states but no workload exercises - a bug of the same kind in the code would go unseen.
What no trace refutes is also put to the models and laws.
Nothing here is part of a check; it measures the workloads and the models."""
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import tlc, plan

JUDGED = ["Trees", "TreeOps", "Text", "Encoding", "Bracket", "Negra", "SpanFeat", "Pipeline", "Judge"]
RULES = [
    (r" \+ 1\b", [""]), (r" - 1\b", [""]), (r" <= ", [" < "]), (r" >= ", [" > "]), (r" < ", [" <= "]), (r" > ", [" >= "]),
    (r" = ", [" # "]), (r" # ", [" = "]), (r"(?<=\S) /\\ ", [" \\/ "]), (r"(?<=\S) \\/ ", [" /\\ "]),
    (r" \\in (?=[A-Z(])", [" \\notin "]), (r" \\notin ", [" \\in "]), (r"\bMin\(", ["Max("]), (r"\bMax\(", ["Min("]),
    (r"~ ?(?=[A-Z(])", [""]), (r" \\union ", [" \\cap "]), (r" \\cap ", [" \\union "]), (r" \\ (?=[A-Z{(])", [" \\cap "]),
    (r"\\A ", ["\\E "]), (r"\\E ", ["\\A "]), (r" \\subseteq ", [" \\supseteq "]), (r"\bTRUE\b", ["FALSE"]), (r"\bFALSE\b", ["TRUE"]),
    (r"\b1\b", ["2"]), (r"\b0\b", ["1"]), (r"\bIF ", ["IF ~ "]), (r" \\o ", [" \\o <<>> \\o "]),
]

def code_lines(text):
    """(offset, line) of lines that are not comments, with the comments blanked"""
    out, depth, i = list(text), 0, 0
    while i < len(text):
        if text.startswith("(*", i): depth += 1; out[i] = out[i + 1] = " "; i += 2; continue
        if text.startswith("*)", i) and depth: depth -= 1; out[i] = out[i + 1] = " "; i += 2; continue
        if depth and text[i] != "\n": out[i] = " "
        elif text.startswith("\\*", i):
            while i < len(text) and text[i] != "\n": out[i] = " "; i += 1
            continue
        elif text[i] == '"':
            j = i + 1
            while text[j] != '"': j += 2 if text[j] == "\\" else 1
            for k in range(i + 1, j): out[k] = "_"
            i = j
        i += 1
    return "".join(out)

def sites(module):
    text = open(os.path.join(VERIF, "spec", module + ".tla")).read()
    code = code_lines(text)
    ops = [(m.start(), m.group(1)) for m in re.finditer(r"(?m)^(?:RECURSIVE +)?(\w+)(?:\([^=\n]*\))? *==", code)]
    start = code.find("EXTENDS")
    for rx, news in RULES:
        if news == [" \\o <<>> \\o "]: continue
        for m in re.finditer(rx, code):
            if m.start() < start: continue
            op = ([o for at, o in ops if at <= m.start()] or ["?"])[-1]
            line = code.count("\n", 0, m.start()) + 1
            if "RECURSIVE" in text.split("\n")[line - 1]: continue
            if re.match(r" = ", m.group(0)) and text[m.start() - 1] == "=": continue
            for new in news:
                yield dict(module=module, op=op, line=line, old=m.group(0), new=new,
                           text=text[:m.start()] + new + text[m.end():],
                           show=text.split("\n")[line - 1].strip())

def main():
    count = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    events = int(sys.argv[3]) if len(sys.argv) > 3 else 1500
    modules = sys.argv[4:] or JUDGED
    par = int(os.environ.get("PAR", "8"))
    rng = random.Random(seed)
    work = tempfile.mkdtemp(prefix="mut_")
    env = dict(os.environ, LJ_CLI=os.path.join(VERIF, "build/cli/debug/lumberjack-conversion"), LJ_SCRATCH=os.path.join(work, "cli"))
    os.makedirs(env["LJ_SCRATCH"])
    shutil.copy(os.path.join(VERIF, "harness/target/debug/harness"), os.path.join(work, "harness"))
    props = ["C%02d" % i for i in range(1, 26)]
    def record(p):
        log = os.path.join(work, p + ".ndjson")
        subprocess.run([os.path.join(work, "harness"), "run", p, str(seed + 10), str(events if p != "C20" else events // 3), "120", log],
                       env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    with concurrent.futures.ThreadPoolExecutor(par) as ex: list(ex.map(record, props))
    todo = [s for m in modules for s in sites(m)]
    total = len(todo)
    rng.shuffle(todo)
    todo = todo[:count]
    print("%d places, %d tried" % (total, len(todo)), flush=True)
    killer = {}
    def attempt(job):
        n, s = job
        root = os.path.join(work, "m%d" % n)
        shutil.copytree(os.path.join(VERIF, "spec"), os.path.join(root, "spec"))
        open(os.path.join(root, "spec", s["module"] + ".tla"), "w").write(s["text"])
        likely = killer.get((s["module"], s["op"]), []) + killer.get(s["module"], [])
        order = sorted(props, key=lambda p: likely.index(p) if p in likely else 99)
        by = None
        for p in order:
            r = tlc.run(root, "Trace", os.path.join(root, "w"), env={"PROP": p, "TRACE": os.path.join(work, p + ".ndjson")}, workers=1, timeout=300)
            if "arse Error" in r["log"] or "emantic error" in r["log"] or "Parsing or semantic" in r["log"] or "Could not parse" in r["log"]:
                by = "-"; break
            if r["error"] or r["printed"].get("REJECT"):
                by = p
                for k in ((s["module"], s["op"]), s["module"]): killer.setdefault(k, []).insert(0, p)
                break
        if by is None:
            for name, m in plan.MODELS.items():
                r = tlc.run(root, m["module"], os.path.join(root, "w"), cfg=m["quick"], env=m["env"], workers=1, timeout=400)
                if r["error"]: by = name; break
        shutil.rmtree(root)
        return s, by
    tally = {}
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        for s, by in ex.map(attempt, enumerate(todo)):
            kind = "trace" if by and re.match(r"C\d\d$", by) else "invalid" if by == "-" else "model" if by else "nobody"
            tally[kind] = tally.get(kind, 0) + 1
            if kind in ("nobody", "model"):
                print("%-7s %s.%s:%d  %r -> %r   %s%s" % (kind, s["module"], s["op"], s["line"], s["old"], s["new"], s["show"][:110],
                                                          "   [%s]" % by if by else ""), flush=True)
    print(tally)
    shutil.rmtree(work)

if __name__ == "__main__":
    main()
