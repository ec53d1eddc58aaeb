"""C23, C24: the parts of the compiler's API which take implementations of the user."""
import json
import os
import re
import shutil

import core
import rustgen
import schema
from schema import enum, field, message, proto, struct


def run_driver(mode, script, work):
    """Runs the entries of a script, in parallel; [(result, how it was lost)]."""
    out = [None] * len(script)
    shares = [list(range(k, len(script), core.CPUS)) for k in range(core.CPUS)]

    def run(k):
        if not shares[k]:
            return
        path = os.path.join(work, "script-%d.json" % k)
        with open(path, "w") as f:
            json.dump([script[i] for i in shares[k]], f)
        res, lost = core.run_script([core.driver_path(), mode, path], len(shares[k]))
        for j, i in enumerate(shares[k]):
            out[i] = (res[j], lost.get(j))
    core.parallel(run, range(core.CPUS))
    return out


def judge(rep, module, what, work, traces, events, describe, ascii=False):
    """ascii: other characters are spelled out, as TLC loses them in states which it writes to disk."""
    path = os.path.join(work, "traces.json")
    text = json.dumps({"traces": traces})
    with open(path, "w") as f:
        f.write(text.replace("\\u", "\\\\u") if ascii else text)
    r = core.tlc(module, work, variables={"TRACES": path})
    want = sum(1 + len(t[events]) for t in traces)
    if not r.ok or r.distinct != want:
        raise core.ToolError("%s: %d states for %d\n%s" % (module, r.distinct, want, r.error()))
    rep.add_tlc(r, "%s: %s" % (what, module), len(traces))
    rep.evaluations += want - len(traces)
    for x in r.rejects:
        t = traces[x["id"] - 1]
        rep.violation(x["asp"], "%s of step %d: %s" % (x["asp"], x["i"], json.dumps(t[events][x["i"] - 1])),
                      dict(describe(x["id"] - 1), reject=x))


# ---------------------------------------------------------------------------------------------
# C23: generators of the user

TYPES = ["Message", "MessageReading", "MessageWriting", "Structure", "Enum", "Union"]
OPTIONS = ["reads", "writes", "messages", "structs", "enums", "unions"]
COMPONENTS = ["a", "b", "Sub", "x.rs", "long name.txt", "umbrella.rs", "é", "deep", "a.b.c", "mod.rs"]


def rand_gen(rng, name, umb):
    files = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9])):
        path = [rng.choice(COMPONENTS) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
        data = rng.choice(["", "\n", "z", "xy", "\n\n", "0123456789" * 30, "éa", "line\nline\n", "ab%d" % rng.randrange(50)])
        files.append({"ty": rng.choice(TYPES), "name": path, "data": data})
    return {"name": name, "fail": rng.random() < 0.04, "files": files,
            "umb": "fail" if umb != "default" and rng.random() < 0.04 else umb}


def rand_emission(rng):
    names = rng.sample(["p", "q", "Proto", "some_name", "r2"], rng.randint(1, 4))
    runs = []
    for _ in range(rng.randint(1, 4)):
        plain = rng.random() < 0.3
        now = rng.sample(names, rng.randint(1, len(names)))
        if rng.random() < 0.1:
            now.append(rng.choice(now))
        runs.append({"gens": [rand_gen(rng, n, "default" if plain else rng.choice(["list", "list", "list", "empty", "blank", "two"])) for n in now],
                     "opts": {o: rng.random() < 0.7 for o in OPTIONS if rng.random() < 0.6}})
    return runs


def folder(rng, work, k):
    """An output directory, under one of its names."""
    out = os.path.join(work, "out", str(k))
    how = rng.choice(["", "", "link", "linked", "far", "relative", "dot", "end", "odd"])
    if how == "link":
        os.makedirs(out)
        os.symlink(out, out + ".link")
        return out + ".link"
    if how == "linked":
        os.makedirs(out + ".real")
        os.symlink(os.path.basename(out) + ".real", out)
        return os.path.join(out, "below")
    return {"far": os.path.join(work, "out", "far", "..", str(k)), "relative": os.path.relpath(out),
            "dot": os.path.join(".", os.path.relpath(out)), "end": out + "/", "odd": out + ' a"b\\c {é}'}.get(how, out)


def run_emissions(rep, histories, what, odd=False):
    work = os.path.join(rep.work, what)
    os.makedirs(os.path.join(work, "defs"))
    files = {}
    os.makedirs(os.path.join(work, "out", "far"))
    for n in sorted({g["name"] for h in histories for r in h for g in r["gens"]}):
        files[n] = os.path.join(work, "defs", "%d.json5" % len(files))
        with open(files[n], "w") as f:
            f.write(schema.to_text(proto(n, "little", structs=[struct("S", [field("a", "unsigned", 8)])])))
    script = [{"out": folder(rep.rng, work, k) if odd else os.path.join(work, "out", str(k)),
               "runs": [dict(r, loads=[files[g["name"]] for g in r["gens"]]) for r in h]} for k, h in enumerate(histories)]
    results = run_driver("emit", script, work)
    traces = []
    for h, (res, lost) in zip(histories, results):
        runs = []
        for k, r in enumerate(h):
            o = res[k] if res is not None else {"res": lost, "kind": "", "asked": [], "paths": [], "files": []}
            runs.append(dict(o, gens=r["gens"], opts=r["opts"]))
            if o["res"] != "ok":
                break
        traces.append({"runs": runs})
    if len(rep.samples) < 4:
        t = rep.rng.choice(traces)["runs"][-1]
        rep.samples.append({"opts": t["opts"], "result": t["res"], "files": ["/".join(f["name"]) for f in t["files"]]})
    judge(rep, "TraceEmit", what, work, traces, "runs", lambda k: {"runs": histories[k], "observed": results[k]})
    shutil.rmtree(work)


def c23(rep):
    rng = rep.rng
    deep = rep.tier == "thorough"
    work = os.path.join(rep.work, "model")
    os.makedirs(work)
    r = core.tlc("MCEmit", work, variables={"DEEP": "1" if deep else "0"})
    if not r.ok:
        raise core.ToolError("MCEmit: " + r.error())
    rep.add_tlc(r, "model: MCEmit")
    longest = [e for e in r.exports if len(e) == 2]
    todo = [e for e in r.exports if len(e) == 1]
    todo += rng.sample(longest, min(len(longest), 60000 if deep else 6000))
    run_emissions(rep, [[{"gens": [x["gen"]], "opts": x["opts"] or {}} for x in e] for e in todo], "enumerated")
    run_emissions(rep, [rand_emission(rng) for _ in range(20000 if deep else 3000)], "random", odd=True)


# ---------------------------------------------------------------------------------------------
# C17: the import solver which comes with the compiler

def solver_paths(rep):
    rng = rep.rng
    deep = rep.tier == "thorough"
    work = os.path.join(rep.work, "paths")
    os.makedirs(work)
    r = core.tlc("MCPaths", work, variables={"DEEP": "1" if deep else "0"})
    if not r.ok:
        raise core.ToolError("MCPaths: " + r.error())
    rep.add_tlc(r, "model: MCPaths")
    names, bases = ["p", "P", "pq", "p_q", "é", "p::q", "p q"], ["", "a", "a::b", "crate::a::", "::a", "é", " a ", "p", "::"]
    longest = max(len(e) for e in r.exports)
    histories = [(e, "::") for e in r.exports if len(e) < longest]
    histories += [(e, rng.choice(["::", ".", "/"])) for e in rng.sample([e for e in r.exports if len(e) == longest], 1500)]
    for _ in range(3000 if deep else 500):
        histories.append(([{"n": rng.choice(names), "b": rng.choice(bases), "id": rng.randint(1, 3)} for _ in range(rng.randint(1, 8))],
                          rng.choice(["::", ".", "/", "", "::p::", "é"])))
    files = {}
    for n in sorted({x["n"] for h, _ in histories for x in h}):
        for k in (1, 2, 3):
            files[n, k] = os.path.join(work, "%d.json5" % len(files))
            with open(files[n, k], "w") as f:
                f.write(schema.to_text(proto(n, "little", structs=[struct("S%d" % j, [field("a", "unsigned", 8)]) for j in range(k)])))
    script = []
    for h, sep in histories:
        asked = list(dict.fromkeys([x["n"] for x in h] + ["p", "other", ""]))
        ask = [{"op": "proto", "n": n} for n in asked] + [{"op": "path", "n": n, "ty": "S0"} for n in asked]
        todo = []
        for x in h:
            todo.append({"op": "register", "n": x["n"], "base": x["b"], "id": x["id"], "file": files[x["n"], x["id"]]})
            todo += rng.sample(ask, 1)
        script.append({"sep": sep, "default": rng.random() < 0.3, "ops": todo + ask})
    results = run_driver("paths", script, work)
    traces = []
    for s, (res, lost) in zip(script, results):
        if res is None:
            rep.violation("panic", "the import solver was lost: %s" % lost, s)
            continue
        traces.append({"sep": s["sep"], "ops": res})
    judge(rep, "TracePaths", "paths", work, traces, "ops", lambda k: {"trace": traces[k]}, ascii=True)
    shutil.rmtree(work)


# ---------------------------------------------------------------------------------------------
# C24: import solvers of the user

def holder(name, imports, own, size):
    """As in MCSolver: uses what it imports, and has a structure of its own."""
    fields = [field("x%d" % k, "struct", ref=t) for k, (_, t) in enumerate(imports)]
    return proto(name, "little", imports=imports,
                 structs=[struct(own, [field("f%d" % k, "unsigned", 8) for k in range(size)]),
                          struct("H", fields + [field("y", "unsigned", 8)])])


def rand_session(rng):
    names = ["a", "b", "cc", "Dd"][:rng.randint(1, 4)]
    protos = []
    count = rng.randint(1, 9)
    for k in range(count):
        name = rng.choice(names)
        imports = []
        for n in rng.sample(names, rng.randint(0, len(names))):
            if n != name and rng.random() < 0.8:
                imports.append((n, "S" + n if rng.random() < 0.97 else "S" + name + "x"))
        if rng.random() < 0.6:      # mostly what is known by then
            imports = [i for i in imports if any(p["name"] == i[0] for p in protos)]
        protos.append(holder(name, imports, "S" + name, rng.randint(1, 9)))
    n = rng.randint(1, min(2, count))
    if len({p["name"] for p in protos[-n:]}) < n:      # they go to the same files
        n = 1
    hide = [rng.choice(names)] if rng.random() < 0.15 else []
    nopath = [{"p": x, "t": "S" + x} for x in names if rng.random() < 0.06]
    for k in range(count - n):
        r = rng.random()
        if r < 0.06:      # declares nothing
            protos[k] = proto(protos[k]["name"], "little")
        elif r < 0.12:    # declares something else only
            protos[k] = proto(protos[k]["name"], "little", enums=[enum("S" + protos[k]["name"], [("A", 1)])] if r < 0.09 else [],
                              messages=[message("Mm", [])] if r > 0.08 else [])
    return {"imports": protos[:-n], "bases": [rng.choice(["crate::no", "x", "", "a::b::c", "some path"]) for _ in protos[:-n]],
            "loads": protos[-n:], "hide": hide, "nopath": nopath}


def used_registrations(sessions, results, work, compiled):
    """Compiles what was generated for some sessions and lets the programs tell which type each field really has.
    Returns {session: [[registration of each import] of each loaded protocol]}, failures"""
    src = []
    main = []
    for k in compiled:
        s = sessions[k]
        mods, vias = [], []
        for j, p in enumerate(s["imports"], 1):
            mods.append("pub mod reg%d { include!(%s); }" % (j, json.dumps(results[k]["parts"][j - 1])))
            vias.append("pub mod via%d { pub use super::reg%d::%s::*; }" % (j, j, p["name"]))
        for j, path in enumerate(results[k]["paths"]):
            mods.append("pub mod load%d { include!(%s); }" % (j, json.dumps(path)))
        src.append("pub mod s%d { %s }" % (k, " ".join(mods + vias)))
        for l, p in enumerate(s["loads"]):
            for i in range(len(p["imports"])):
                main.append('println!("{} {} {} {}", %d, %d, %d, name(&s%d::load%d::%s::H::new(&[0u8; 200][..]).get_x%d()));'
                            % (k, l, i, k, l, p["name"], i))
    path = os.path.join(work, "used.rs")
    with open(path, "w") as f:
        f.write("#![allow(warnings)]\nfn name<T>(_: &T) -> &'static str { std::any::type_name::<T>() }\n%s\nfn main() {\n%s\n}\n"
                % ("\n".join(src), "\n".join(main)))
    r = rustgen.rustc(path, os.path.join(work, "used"))
    if r.returncode != 0:
        return {}, r.stdout
    lines, end = core.run_lines([os.path.join(work, "used")], 60)
    used = {k: [[0] * len(p["imports"]) for p in sessions[k]["loads"]] for k in compiled}
    for l in lines:
        k, p, i, name = l.split(" ", 3)
        m = re.search(r"::s%s::reg(\d+)::\w+::(\w+)" % k, name)
        if m and m.group(2) == sessions[int(k)]["loads"][int(p)]["imports"][int(i)]["t"]:
            used[int(k)][int(p)][int(i)] = int(m.group(1))
    return used, None if end == "ok" else end


def run_sessions(rep, sessions, what, programs):
    work = os.path.join(rep.work, what)
    os.makedirs(os.path.join(work, "defs"))
    texts = {}

    def file(p):
        text = schema.to_text(p)
        if text not in texts:
            texts[text] = os.path.join(work, "defs", "%d.json5" % len(texts))
            with open(texts[text], "w") as f:
                f.write(text)
        return texts[text]

    def entry(k, s, name, imports, loads):
        return {"files": [[file(p), b] for p, b in zip(imports, s["bases"])], "load": [file(p) for p in loads],
                "hide": s["hide"], "nopath": s["nopath"], "root": "crate::s%d" % k, "out": os.path.join(work, "out", str(k), name)}
    results = run_driver("solver", [entry(k, s, "loads", s["imports"], s["loads"]) for k, s in enumerate(sessions)], work)
    traces = []
    for s, (res, lost) in zip(sessions, results):
        res = res or {"res": lost, "kind": "", "paths": [], "regs": []}
        traces.append(dict(s, **res, used=[]))
    # the code of the imported protocols is generated one by one
    good = [k for k, t in enumerate(traces) if t["res"] == "ok" and any(p["imports"] for p in t["loads"])]
    good = rep.rng.sample(good, min(len(good), programs))
    parts = [(k, j) for k in good for j in range(len(sessions[k]["imports"]))]
    out = run_driver("solver", [entry(k, sessions[k], "reg%d" % j, sessions[k]["imports"][:j], [sessions[k]["imports"][j]])
                                for k, j in parts], work)
    for t in traces:
        t["parts"] = []
    for (k, j), (res, lost) in zip(parts, out):
        traces[k]["parts"].append(res["paths"][0] if res and res["paths"] else "")
    good = [k for k in good if all(traces[k]["parts"])]
    used, why = used_registrations(sessions, traces, work, good)
    if why:
        # which ones?
        for k in good:
            u, w = used_registrations(sessions, traces, work, [k])
            used.update(u)
            if w:
                rep.violation("used", "what was generated for a session does not compile: " + w[:300],
                              {"session": sessions[k], "output": w})
                if len(rep.violations) > 3:
                    break
    for k, u in used.items():
        traces[k]["used"] = u
    rep.note(what + ": programs", len(used))
    path = os.path.join(work, "traces.json")
    with open(path, "w") as f:
        json.dump({"traces": traces}, f)
    r = core.tlc("TraceSolver", work, variables={"TRACES": path})
    if not r.ok or r.distinct < 2 * len(traces):
        raise core.ToolError("TraceSolver: %d states\n%s" % (r.distinct, r.error()))
    rep.add_tlc(r, what + ": TraceSolver", len(traces))
    rep.evaluations += len(traces)
    if len(rep.samples) < 4:
        t = rep.rng.choice(traces)
        rep.samples.append({"protocols": [p["name"] for p in t["imports"] + t["loads"]], "hide": t["hide"], "result": t["res"],
                            "registered": t["regs"], "used": t["used"]})
    for x in r.rejects:
        t = traces[x["id"] - 1]
        rep.violation(x["asp"], "%s: specified %s, observed %s %s, registered %s, used %s" % (
            x["asp"], x["why"] or "ok", t["res"], t["kind"], t["regs"], t["used"]),
            {"definitions": [schema.to_definition(p) for p in t["imports"] + t["loads"]], "trace": t, "reject": x})
    shutil.rmtree(work)


def c24(rep):
    rng = rep.rng
    deep = rep.tier == "thorough"
    work = os.path.join(rep.work, "model")
    os.makedirs(work)
    r = core.tlc("MCSolver", work, variables={"DEEP": "1" if deep else "0"})
    if not r.ok:
        raise core.ToolError("MCSolver: " + r.error())
    rep.add_tlc(r, "model: MCSolver")
    ex = r.exports if len(r.exports) < 12000 else rng.sample(r.exports, 12000)
    for e in ex:
        for p in e["imports"] + e["loads"]:
            for f in p["structs"][1]["fields"]:
                f["name"] = "x0" if f["name"] == "x" else f["name"]
    run_sessions(rep, ex, "enumerated", 400 if deep else 150)
    run_sessions(rep, [rand_session(rng) for _ in range(8000 if deep else 1500)], "random", 400 if deep else 150)


CHECKS = {"C23": c23, "C24": c24}
