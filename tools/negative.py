#!/usr/bin/env python3
"""negative.py PROP|all [EVENTS [SEED]]: does trace validation reject wrong observations?

Runs the harness as the check of PROP does (all: as each check does), changes one value in what was
logged for an event (a node, an edge, a span, a returned value, the outcome), and lets the judge of
PROP (all: of every property) look at the event. Prints, for each operation and kind of place, how
many of the changed events were rejected (all: by at least one property).
Nothing here is part of a check; it measures the judge."""
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import tlc

def leaves(x, path=()):
    yield path, x
    if isinstance(x, dict):
        for k in x: yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x): yield from leaves(v, path + (i,))

def put(x, path, v):
    for p in path[:-1]: x = x[p]
    x[path[-1]] = v

def change(v, rng):
    """another value of the same kind, or None"""
    if isinstance(v, bool): return not v
    if isinstance(v, int): return v + 1 if v == 0 or rng.random() < .5 else v - 1
    if isinstance(v, str):
        if v in ("T", "N"): return "N" if v == "T" else "T"
        if v in ("ok", "err"): return "err" if v == "ok" else "ok"
        return v + "X"
    if isinstance(v, list) and v: 
        i = rng.randrange(len(v))
        return v[:i] + v[i + 1:]
    return None

def shape(path):
    out = []
    for i, p in enumerate(path):
        if isinstance(p, int) and i and path[i - 1] in ("N", "E"): out.append("*")
        elif isinstance(p, int) and i > 1 and path[i - 2] in ("N", "E"): out.append(str(p))
        elif isinstance(p, int): out.append("*")
        else: out.append(p)
    return ".".join(out)

NODE = ["id", "kind", "label", "features", "start", "end", "skips", "form", "lemma"]
EDGE = ["id", "from", "to", "primary", "label"]

def corrupt(c, rng, cases, what):
    for e in c["evs"]:
        if e["op"] == "deep": continue
        base = c["pre"] if e["b"] == 0 else c["evs"][e["b"] - 1]["post"]
        ev = json.loads(json.dumps(dict(e, b=0)))
        places = [(p, v) for p, v in leaves({k: ev[k] for k in ("out", "ret", "post")}) if p and p != ("post",)
                  and not (len(p) == 3 and p[1] in ("N", "E")) and change(v, rng) is not None
                  and not (p[:2] == ("post", "N") and len(p) > 3 and p[3] > 6 and ev["post"]["N"][p[2]][1] == "N")]
        # the same weight for the outcome, the result and the state
        top = rng.choice(sorted(set(p[0] for p, _ in places)))
        p, v = rng.choice([x for x in places if x[0][0] == top])
        put(ev, p, change(v, rng))
        if ev["post"] == e["post"] and ev["ret"] == e["ret"] and ev["out"] == e["out"]: continue
        cases.append({"id": len(cases), "pre": base, "evs": [ev]})
        what.append((e["op"], shape(p)))

def judge(prop, cases, work):
    """the ids of the cases that the judge of PROP rejects"""
    os.makedirs(work)
    rejected, left = set(), cases
    for attempt in range(100):
        path = os.path.join(work, "neg.ndjson")
        open(path, "w").write("".join(json.dumps(c) + "\n" for c in left))
        r = tlc.run(VERIF, "Trace", work, env={"PROP": prop, "TRACE": path})
        rejected |= {json.loads(x)[0] for x in r["printed"].get("REJECT", [])}
        if not r["error"]: return rejected, attempt
        m = re.search(r"/\\ c = (\d+)\s*\n/\\ l = (\d+)", r["log"])
        if not m: print(r["log"][-1500:]); break
        at = int(m.group(1)) - 1
        rejected.add(left[at]["id"])          # cannot be evaluated: a check counts this as rejected, too
        left = left[at + 1:]
    return rejected, attempt

def main():
    prop = sys.argv[1]
    events = int(sys.argv[2]) if len(sys.argv) > 2 else 2000
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 7
    rng = random.Random(seed)
    work = tempfile.mkdtemp(prefix="neg_")
    env = dict(os.environ, LJ_CLI=os.path.join(VERIF, "build/cli/debug/lumberjack-conversion"), LJ_SCRATCH=os.path.join(work, "cli"))
    os.makedirs(env["LJ_SCRATCH"])
    log = os.path.join(work, "log.ndjson")
    props = ["C%02d" % i for i in range(1, 26)] if prop == "all" else [prop]
    cases, what = [], []
    for q in props:
        subprocess.run([os.path.join(VERIF, "harness/target/debug/harness"), "run", q, str(seed), str(events), "120", log],
                       env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for line in open(log): corrupt(json.loads(line), rng, cases, what)
    rejected = set()
    aside = 0
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for r, n in ex.map(lambda q: judge(q, cases, os.path.join(work, q)), props):
            rejected |= r; aside += n
    table = {}
    for c, (op, sh) in zip(cases, what):
        parts = sh.split(".")
        if len(parts) >= 4 and parts[1] in "NE":
            names = NODE if parts[1] == "N" else EDGE
            parts[3] = names[int(parts[3])] if parts[3].isdigit() else parts[3]
        t = table.setdefault((op, ".".join(parts)), [0, 0, []])
        t[1] += 1
        if c["id"] in rejected: t[0] += 1
        else: t[2].append(c["id"])
    tot = [sum(t[0] for t in table.values()), sum(t[1] for t in table.values())]
    print("%s: %d of %d changed events rejected (set aside %d)" % (prop, tot[0], tot[1], aside))
    for k in sorted(table):
        if table[k][0] < table[k][1]: print("  %-12s %-28s %d/%d" % (k[0], k[1], table[k][0], table[k][1]), table[k][2][:3])
    if os.environ.get("KEEP"):
        open(os.environ["KEEP"], "w").write("".join(json.dumps(c) + "\n" for c in cases))
    shutil.rmtree(work)

if __name__ == "__main__":
    main()
