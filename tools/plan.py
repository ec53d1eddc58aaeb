"""Cases: definitions, what the real compiler does with them and what the specification says."""
import json
import os

import core
import schema


class Case:
    """alias: some imports use another path of the same module. must: written to be accepted."""

    def __init__(self, protos, sessions=None, opts=None, tag=None, alias=False, must=False):
        self.alias, self.must = alias, must
        self.protos = protos
        # by default every protocol is compiled on its own, importing all previous ones
        self.sessions = sessions or [(list(range(i)), [i]) for i in range(len(protos))]
        self.opts = opts if opts is not None else {"reads": True, "writes": True}
        self.tag = tag
        self.folder = "out"  # the output directory, below that of the case
        self.id = None
        self.res = []      # observed, per session
        self.plan = []     # specified, per session
        self.objs = {}     # all definitions by global name, if everything was accepted
        self.order = []

    @property
    def accepted(self):
        return all(r["res"] == "ok" for r in self.res) and all(p["ok"] for p in self.plan)

    @property
    def foreign(self):
        return any(p["foreign"] for p in self.plan)


def compile_cases(cases, work):
    """Compiles all cases with the real compiler. Fills in Case.res."""
    script = []
    for n, c in enumerate(cases):
        c.id = n
        c.dir = os.path.join(work, "case", str(n))
        os.makedirs(c.dir, exist_ok=True)
        files = []
        for k, p in enumerate(c.protos):
            path = os.path.join(c.dir, "%d.json5" % k)
            with open(path, "w") as f:
                f.write(schema.to_text(p))
            files.append(path)
        out = os.path.join(c.dir, c.folder)
        script.append({"sessions": [
            {"imports": [[files[i], "crate::case_%d::%s%s" % (n, "al::" if (i + k) % 2 and c.alias else "", c.protos[i]["name"])]
                         for i in imports],
             "loads": [files[i] for i in loads], "opts": c.opts, "out": out}
            for k, (imports, loads) in enumerate(c.sessions)]})
    # several processes, every one with its share of the cases
    shares = [list(range(k, len(cases), core.CPUS)) for k in range(core.CPUS)]

    def run(k):
        if not shares[k]:
            return
        path = os.path.join(work, "compile-%d.json" % k)
        with open(path, "w") as f:
            json.dump([script[i] for i in shares[k]], f)
        results, lost = core.run_script([core.driver_path(), "compile", path], len(shares[k]))
        for j, i in enumerate(shares[k]):
            cases[i].res = results[j] if results[j] is not None else \
                [{"res": "panic", "stage": "?", "text": lost[j]} for _ in cases[i].sessions]

    core.parallel(run, range(core.CPUS))


def plan_cases(cases, work):
    """Compiles all cases with the specification. Fills in Case.plan and Case.objs; returns the run."""
    entries, index = [], []
    for c in cases:
        for k, (imports, loads) in enumerate(c.sessions):
            out = os.path.join(c.dir, "plan-%d.json" % k)
            entries.append({"id": len(index), "imports": [c.protos[i] for i in imports],
                            "loads": [c.protos[i] for i in loads], "res": c.res[k]["res"],
                            "undef": c.res[k].get("undef", False), "out": out})
            index.append((c, k, out))
    path = os.path.join(work, "plan.json")
    with open(path, "w") as f:
        json.dump(entries, f)
    r = core.tlc("Plan", work, variables={"CASES": path})
    if not r.ok:
        raise core.ToolError("Plan: " + r.error())
    for c in cases:
        c.plan = [None] * len(c.sessions)
    for c, k, out in index:
        with open(out) as f:
            c.plan[k] = json.load(f)
    for c in cases:
        if all(p["ok"] for p in c.plan):
            for p in c.plan:
                for e in p["objs"]:
                    c.objs[e["key"]] = e["o"]
                    c.order.append(e["key"])
    for x in r.rejects:
        c, k, _ = index[x["id"]]
        x["case"], x["session"] = c, k
        x["text"] = c.res[k].get("text", "")
    return r
