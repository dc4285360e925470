"""What each check does."""

MODELS = {}


def model(name, module, quick, thorough=None, timeout=800, env=None):
    MODELS[name] = dict(module=module, quick=quick + ".cfg", thorough=(thorough or quick) + ".cfg", timeout=timeout, env=env or {})


model("machine: token, structural, secondary-edge and rejected edits", "Lumberjack", "LjEdit", "LjAll")
model("machine: edits over four tokens", "Lumberjack", "LjEdit4")
model("machine: bulk operations", "Lumberjack", "LjBulk", "LjBulk4")
model("machine: bulk operations and secondary edges", "Lumberjack", "LjBulkSec")
model("machine: unary chains", "Lumberjack", "LjChain")
model("machine: projectivisation", "Lumberjack", "LjEdit4", "LjProj5")
model("cached spans and counters", "Caches", "Caches", "CachesT")
model("projectivisation step by step", "Projecting", "Projecting", "ProjectingT")
model("decoding token by token", "DecodeM", "DecodeM", "DecodeMT")
model("content of nodes", "ContentM", "ContentM", "ContentMT")
model("conversion step by step", "PipeM", "PipeM", "PipeMT")
for n, thorough in [("02", 1), ("06", 1), ("07", 1), ("08", 1), ("09", 1), ("10", 1), ("11", 1), ("12", 1), ("13", 1), ("14", 1),
                    ("15", 1), ("16", 1), ("17", 1), ("17b", 1), ("18", 1), ("19", 1), ("21", 1), ("22", 0), ("23", 1), ("25", 1)]:
    model("laws " + n, "Laws", "L" + n, "L" + n + ("T" if thorough else ""))

PLAN = {}


def prop(name, models, hist=None, events=40000, trees=(4, 3), batches=40, seconds=600, note=None):
    p = dict(models=models,
             trees=dict(quick=trees, thorough=(4, 4)) if trees else None,
             events=dict(quick=events, thorough=events), batches=dict(quick=1, thorough=batches),
             seconds=dict(quick=90, thorough=seconds))
    if hist:
        p["histories"] = dict(quick=(hist, 150, 14), thorough=(hist, 1500, 24))
    if note:
        p["note"] = note
    PLAN[name] = p


EDIT = "machine: token, structural, secondary-edge and rejected edits"
prop("C01", [EDIT, "machine: bulk operations"], hist="all")
prop("C02", ["cached spans and counters", "laws 02"], hist="all")
prop("C03", [EDIT], hist="edit")
prop("C04", [EDIT, "machine: edits over four tokens"], hist="edit")
prop("C05", [EDIT, "machine: edits over four tokens"], hist="edit")
prop("C06", ["projectivisation step by step", "laws 06", "machine: projectivisation"])
prop("C07", ["laws 07", "machine: unary chains"])
prop("C08", ["laws 08"])
prop("C09", ["decoding token by token", "laws 09"])
prop("C10", ["laws 10", "machine: bulk operations"])
prop("C11", ["laws 11", "machine: bulk operations"])
prop("C12", ["laws 12", "machine: bulk operations and secondary edges"])
prop("C13", ["laws 13"])
prop("C14", ["laws 14"])
prop("C15", ["laws 15"])
prop("C16", ["laws 16"])
prop("C17", ["laws 17", "laws 17b"])
prop("C18", ["laws 18"])
prop("C19", ["laws 19"])
prop("C20", ["conversion step by step"], events=8000)
prop("C21", ["laws 21"])
prop("C22", ["laws 22"])
prop("C23", ["laws 23"])
prop("C24", ["content of nodes"])
prop("C25", ["laws 25"], events=15000, batches=20)
