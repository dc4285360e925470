#!/usr/bin/env python3
"""codemut.py [COUNT [SEED [EVENTS [FILE...]]]]: does the specification refute wrong code?

Planted bugs by the dozen: changes one place in a copy of /repo's sources (a comparison, a bound, a
connective, a method, a direction, a deleted statement, ...), keeps the changes that compile and
pass the repository's tests, runs the workloads of the properties on them and validates what was recorded.
Prints the changes that nothing refutes; each is either equivalent or a hole.
Nothing here is part of a check; it measures workloads and specification.
Works in copies only: WORK (default /tmp/codemut) holds one copy of /repo and of the harness per worker."""
import concurrent.futures, json, os, queue, random, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import tlc

SRC = "lumberjack/src/"
FILES = {SRC + "tree.rs": "01 02 03 04 05 23 19 25 13 12 06", SRC + "tree_modification.rs": "07 10 11 12 06 13 04 25",
         SRC + "span.rs": "21 02 06 12", SRC + "features.rs": "22 13 18 24", SRC + "edge.rs": "24 19 05 16",
         SRC + "node.rs": "24 19 02 04 13", SRC + "util.rs": "24 10 11 13 23", SRC + "io/encode.rs": "08 09 18 20",
         SRC + "io/negra.rs": "16 17 25 20", SRC + "io/ptb.rs": "14 15 25 20", SRC + "io/conllx.rs": "18 20 09",
         SRC + "io/mod.rs": "18 20 14 15", "lumberjack-utils/src/bin/lumberjack-conversion.rs": "20 25"}
RULES = [
    (r" == ", [" != "]), (r" != ", [" == "]), (r" <= ", [" < "]), (r" >= ", [" > "]), (r" < ", [" <= "]), (r" > ", [" >= "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", [""]), (r" \+= ", [" -= "]), (r" -= ", [" += "]),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
    (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\bif !", ["if "]), (r"\bif (?=[a-z])(?!let\b)", ["if !"]), (r"\(!", ["("]), (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]),
    (r"\.rev\(\)", [""]), (r"Direction::Incoming", ["Direction::Outgoing"]), (r"Direction::Outgoing", ["Direction::Incoming"]),
    (r"\.source\(\)", [".target()"]), (r"\.target\(\)", [".source()"]), (r"push_front", ["push_back"]), (r"push_back", ["push_front"]),
    (r"\.start\b(?!\()", [".end"]), (r"\.end\b(?!\()", [".start"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\b0\b", ["1"]), (r"\b1\b", ["2", "0"]), (r"\b2\b", ["1", "3"]), (r"Ordering::Greater", ["Ordering::Less"]), (r"Ordering::Less", ["Ordering::Greater"]),
    (r"splitn\(2", ["splitn(3"]), (r"starts_with\(", ["ends_with("]), (r"ends_with\(", ["starts_with("]), (r"\.trim\(\)", ["", ".trim_end()"]),
    (r'"([^"\n]{2,})"', [r'"\1x"']), (r"'([^\\'])'", ["'@'"]), (r"\bSome\((\w+)\)(?=[;,)])", ["None"]), (r"\.unwrap_or\(true\)", [".unwrap_or(false)"]),
    (r"\.skip\(1\)", [""]), (r"\.filter\(move \|[^\n]*\)\n", ["\n"]), (r"\.filter\(\|[^\n]*\)\n", ["\n"]), (r"\.or_insert\(", [".or_insert(1 + "]),
    (r"covers_span", ["contains_start"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"insert_unary_above", ["insert_unary_abovex"]),
    (r"\bOk\(\(\)\)", ["Err(format_err!(\"x\"))"]),
    (r"(?m)^ +(?!let |return |use |type |pub |impl |break|continue|\.|\})[a-z][^\n{}]*;\n", ["\n"]),
    (r"(?m)^ +return [^\n]*;\n", ["\n"]),
]

def code(text):
    """the text with comments and the tests blanked"""
    at = text.find("#[cfg(test)]")
    out = text[:at] if at >= 0 else text
    out = re.sub(r"(?m)//.*$", lambda m: " " * len(m.group(0)), out)
    return re.sub(r"(?m)^ *use [^;]*;|^#\[[^\n]*\]|^extern[^\n]*|format_err!\([^;]*?\)(?=[;,)}\n])|assert!\([^;]*;|\.(expect|help|about|long)\(\"[^\"]*\"\)", lambda m: re.sub(r"[^\n]", " ", m.group(0)), out)

def sites(name):
    text = open(os.path.join("/repo", name)).read()
    src = code(text)
    for rx, news in RULES:
        for m in re.finditer(rx, src):
            for new in news:
                new = m.expand(new) if "\\" in new else new
                line = text.count("\n", 0, m.start()) + 1
                yield dict(file=name, line=line, old=m.group(0).strip(), new=new.strip(), show=text.split("\n")[line - 1].strip(),
                           text=text[:m.start()] + new + text[m.end():])

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings")

def sh(cmd, cwd, env=None, timeout=300):
    try:
        return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout).returncode
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-f", os.path.join(cwd, "")])
        return 99

def main():
    count = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    events = int(sys.argv[3]) if len(sys.argv) > 3 else 2500
    files = sys.argv[4:] or list(FILES)
    par = int(os.environ.get("PAR", "4"))
    work = os.environ.get("WORK", "/tmp/codemut")
    rng = random.Random(seed)
    every = ["C%02d" % i for i in range(1, 26)]
    free = queue.Queue()
    for i in range(par):
        root = os.path.join(work, "w%d" % i)
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        shutil.copytree("/repo", os.path.join(root, "repo"), ignore=shutil.ignore_patterns(".git", "target"))
        shutil.copytree(os.path.join(VERIF, "harness"), os.path.join(root, "harness"), ignore=shutil.ignore_patterns("target"))
        shutil.copytree(os.path.join(VERIF, "spec"), os.path.join(root, "spec"))
        toml = os.path.join(root, "harness", "Cargo.toml")
        text = open(toml).read().replace('"/repo/lumberjack"', '"%s/repo/lumberjack"' % root)
        open(toml, "w").write(text)
        os.makedirs(os.path.join(root, "cli"))
        free.put(root)
    todo = [s for f in files for s in sites(f)]
    total = len(todo)
    rng.shuffle(todo)
    todo = todo[:count]
    print("%d places, %d tried" % (total, len(todo)), flush=True)
    def attempt(s):
        root = free.get()
        path = os.path.join(root, "repo", s["file"])
        good = open(os.path.join("/repo", s["file"])).read()
        try:
            open(path, "w").write(s["text"])
            if sh(["cargo", "build", "--offline", "-q"], os.path.join(root, "repo")): return s, "invalid"
            if sh(["timeout", "100", "cargo", "test", "--workspace", "--offline", "-q"], os.path.join(root, "repo")): return s, "tests"
            ci = "timeout 20 target/debug/lumberjack-conversion --input_file lumberjack/testdata/test.negra --input_format negra --output_format tueba --projectivize | diff -q lumberjack/testdata/test.ptb -"
            if sh(["bash", "-c", ci], os.path.join(root, "repo")): return s, "tests"
            if sh(["cargo", "build", "--offline", "-q"], os.path.join(root, "harness")): return s, "invalid"
            env = dict(LJ_CLI=os.path.join(root, "repo/target/debug/lumberjack-conversion"), LJ_SCRATCH=os.path.join(root, "cli"))
            first = ["C" + x for x in FILES[s["file"]].split()]
            for p in first + [p for p in every if p not in first]:
                log = os.path.join(root, "t.ndjson")
                n = events if p != "C20" else events // 3
                r = sh([os.path.join(root, "harness/target/debug/harness"), "run", p, str(seed + 10), str(n), "60", log], root, env, 200)
                if r: return s, p + "!"
                r = tlc.run(root, "Trace", os.path.join(root, "t"), env={"PROP": p, "TRACE": log}, workers=2, timeout=300)
                cases = None
                for x in r["printed"].get("REJECT", []):
                    c, k, fault = json.loads(x)
                    cases = cases or {q["id"]: q for q in map(json.loads, open(log))}
                    op = cases[c]["evs"][k - 1]["op"] if k else "start"
                    if op != "deep": return s, p  # a known finding
                if r["error"]: return s, p + "?"
            return s, "nobody"
        finally:
            open(path, "w").write(good)
            free.put(root)
    tally = {}
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        for f in concurrent.futures.as_completed([ex.submit(attempt, s) for s in todo]):
            s, by = f.result()
            kind = by if by in ("invalid", "tests", "nobody") else "caught"
            tally[kind] = tally.get(kind, 0) + 1
            if kind not in ("invalid", "tests"):
                print("%-7s %s:%d  %r -> %r   %s" % (by, os.path.basename(s["file"]), s["line"], s["old"][:60], s["new"][:40], s["show"][:90]), flush=True)
    print(tally)
    shutil.rmtree(work)

if __name__ == "__main__":
    main()
