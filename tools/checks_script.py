"""C26: the entry point of build scripts."""
import json
import os
import shutil

import core
import schema
from checks_gen import upper
from schema import enum, field, message, mfield, proto, struct

NAMES = ["a", "B", "mixedCase", "caf\u00e9", "x1", "snake_case", "da-sh", "UPPER", "umbrella", "\u00dfz", "a_b", "ab"]


def definition(p):
    """A protocol with the given numbers of parts which needs the structures of others."""
    structs = [struct("S%d" % k, [field("x", "unsigned", 8 * k + 8)]) for k in range(p["structs"] - 1)]
    if p["structs"]:
        structs.append(struct("T%d" % p["id"], [field("f%d" % k, "struct", ref="T%d" % i) for k, i in enumerate(p["ids"])] +
                              [field("y", "unsigned", 8)]))
    return proto(p["name"], "", [(n, "T%d" % i) for n, i in zip(p["needs"], p["ids"])],
                 [enum("E%d" % k, [("A", k)]) for k in range(p["enums"])], structs, [],
                 [message("M%d" % k, [mfield("t", "string")]) for k in range(p["messages"])])


def rand_script(rng):
    names = rng.sample(NAMES, rng.randint(1, 4))
    protos = []
    for k, n in enumerate(names):
        needs = [j for j in range(len(names)) if j != k and rng.random() < (0.3 if j < k else 0.05)]
        protos.append({"name": n, "upper": upper(n), "id": k, "needs": [names[j] for j in needs], "ids": needs, "structs": rng.randint(1, 2),
                       "enums": rng.choice([0, 0, 1, 2]), "messages": rng.choice([0, 1, 2]), "unions": 0})
    calls = []
    if rng.random() < 0.5:      # all of them in order
        first = rng.randint(0, len(names))
        calls = [{"do": "import", "good": True, "p": p} for p in protos[:first]] + \
            [{"do": "load", "good": True, "p": p} for p in protos[rng.choice([0, first]):]]
    for _ in range(rng.randint(0, 5) if not calls else rng.choice([0, 0, 1, 2])):
        calls.insert(rng.randint(0, len(calls)), {"do": rng.choice(["load", "import"]), "good": rng.random() < 0.75, "p": rng.choice(protos)})
    r = rng.random()
    out = "dir" if r < 0.85 else rng.choice(["unset", "file"])
    taken = []
    if out == "dir" and rng.random() < 0.25:
        n = rng.choice(names)
        taken = [[n] if rng.random() < 0.3 else [n, rng.choice(["umbrella.rs", "structures.rs", "enums.rs", "messages.rs", "messages_write.rs",
                                                                "messages_from_slice.rs", "messages_offsets.rs", "unions.rs"])]]
    opts = {o: rng.random() < 0.6 for o in ("reads", "writes", "messages", "structs", "enums", "unions") if rng.random() < 0.4}
    return {"calls": calls, "strict": rng.random() < 0.6, "refuse": rng.random() < 0.08, "opts": opts, "out": out, "taken": taken}


def run_scripts(rep, scripts, what):
    work = os.path.join(rep.work, what)
    os.makedirs(os.path.join(work, "defs"))
    texts = {}
    bad = [os.path.join(work, "defs", n) for n in ("missing", "malformed", "folder")]
    with open(bad[1], "w") as f:
        f.write("{name: 'x', structs: [}")
    os.mkdir(bad[2])

    def file(p):
        text = schema.to_text(definition(dict(p, ids=p.get("ids", [1] * len(p["needs"])))))
        if text not in texts:
            texts[text] = os.path.join(work, "defs", "%d.json5" % len(texts))
            with open(texts[text], "w") as f:
                f.write(text)
        return texts[text]
    entries = []
    for k, s in enumerate(scripts):
        calls = [{"do": c["do"], "file": file(c["p"]) if c["good"] else bad[(k + j) % 3]} for j, c in enumerate(s["calls"])]
        entries.append(dict(s, calls=calls, scratch=os.path.join(work, "run", str(k))))
    from checks_api import run_driver
    results = run_driver("build", entries, work)
    traces = []
    for k, (s, (res, lost)) in enumerate(zip(scripts, results)):
        if res is None:
            rep.violation("lost", "a build script ended the process around it: %s" % lost, {"script": s})
            res = {"ok": False, "out": [], "files": [], "strays": [], "log": []}
        lines = []
        for l in res["out"]:
            # everything a build script prints counts
            name, _, path = l.partition("=")[2].partition("=")
            known = l.startswith(("cargo::rustc-env=BP3D_PROTOC_", "cargo:rustc-env=BP3D_PROTOC_"))
            rel = os.path.relpath(os.path.normpath(path), os.path.join(work, "run", str(k), "out")) if known else l
            lines.append({"name": name[len("BP3D_PROTOC_"):] if known else "", "file": rel.split(os.sep)})
        traces.append(dict(s, seen={"ok": res["ok"], "lines": lines, "files": [f.split("/") for f in res["files"]], "strays": res["strays"],
                                    "log": res["log"]}))
    path = os.path.join(work, "traces.json")
    with open(path, "w") as f:
        json.dump({"traces": traces}, f)
    r = core.tlc("TraceScript", work, variables={"TRACES": path})
    if not r.ok or r.distinct < 2 * len(traces):
        raise core.ToolError("TraceScript: %d states\n%s" % (r.distinct, r.error()))
    rep.add_tlc(r, what + ": TraceScript", len(traces))
    rep.evaluations += len(traces)
    rep.note(what + ": scripts which succeed", sum(t["seen"]["ok"] for t in traces))
    if len(rep.samples) < 4:
        t = rep.rng.choice(traces)
        rep.samples.append({"calls": [[c["do"], c["good"], c["p"]["name"]] for c in t["calls"]], "out": t["out"], "seen": t["seen"]})
    for x in r.rejects:
        t = traces[x["id"] - 1]
        rep.violation(x["asp"], "%s of a build script: %s" % (x["asp"], json.dumps(t["seen"])),
                      {"script": t, "specified": x["want"], "definitions": [schema.to_definition(definition(
                          dict(c["p"], ids=c["p"].get("ids", [1] * len(c["p"]["needs"]))))) for c in t["calls"]]})
    shutil.rmtree(os.path.join(work, "run"), ignore_errors=True)


def c26(rep):
    deep = rep.tier == "thorough"
    work = os.path.join(rep.work, "model")
    os.makedirs(work)
    r = core.tlc("MCScript", work, variables={"DEEP": "1" if deep else "0"})
    if not r.ok:
        raise core.ToolError("MCScript: " + r.error())
    rep.add_tlc(r, "model: MCScript")
    run_scripts(rep, r.exports, "enumerated")
    run_scripts(rep, [rand_script(rep.rng) for _ in range(10000 if deep else 1200)], "random")


CHECKS = {"C26": c26}
