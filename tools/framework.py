"""What all checks have in common: running the pipeline and reporting."""
import json
import os
import random
import shutil
import sys
import time
import traceback

import core
import plan
import rustgen
import schema

KNOWN = os.path.join(core.VERIF, "known-findings.json")


class Report:
    """Result of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.states = self.transitions = self.traces = 0
        self.evaluations = 0
        self.parts = {}
        self.samples = []
        self.violations = []
        self.known = {}
        self.work = os.path.join(core.BUILD, "work", "%s-%s" % (prop, tier))
        self.replays = os.path.join(core.VERIF, "evidence", "replay", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.work)
        with open(KNOWN) as f:
            self.findings = [k for k in json.load(f)["findings"] if k["property"] == prop]
        self.rng = random.Random("%s %d" % (prop, seed))

    def add_tlc(self, r, what, traces=0):
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += traces
        p = self.parts.setdefault(what, {"states": 0, "transitions": 0, "traces": 0, "wall_s": 0})
        p["states"] += r.distinct
        p["transitions"] += r.generated
        p["traces"] += traces
        p["wall_s"] = round(p["wall_s"] + r.wall, 1)

    def note(self, what, n=1):
        self.parts[what] = self.parts.get(what, 0) + n

    def violation(self, asp, text, detail, known_key=None):
        """known_key: identifies a specific input; a listed finding with that key is reported as such."""
        for k in self.findings:
            if known_key is not None and k["key"] == known_key:
                if k["key"] not in self.known:
                    self.known[k["key"]] = k["what"]
                return
        if len(self.violations) < 20:
            os.makedirs(self.replays, exist_ok=True)
            path = os.path.join(self.replays, "%d.json" % len(self.violations))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "aspect": asp, "what": text, "seed": self.seed,
                           "tier": self.tier, "detail": detail}, f, indent=1, default=str)
        else:
            path = os.path.join(self.replays, "19.json")
        self.violations.append((asp, text, path))

    def finish(self, level="model_checking"):
        coverage = {"states": self.states, "transitions": self.transitions,
                    "traces_validated_against_impl": self.traces, "evaluations": self.evaluations,
                    "samples": self.samples[:4] or ["none"], "parts": self.parts}
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
                       "coverage": coverage, "wall_s": round(time.time() - self.start, 1),
                       "violations": len(self.violations),
                       "assumptions": ["TLC and the Rust toolchain are correct",
                                       "the drivers record what the generated code does"]}, f, indent=1)
        for text in self.known.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        shown = set()
        for asp, text, path in self.violations:
            if asp in shown and len(shown) > 3:
                continue
            shown.add(asp)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  [%s] %s" % (asp, text[:600]))
        if not self.violations:
            shutil.rmtree(self.work, ignore_errors=True)
        print("%s %s: %s; %d states, %d traces, %.0f s" % (
            self.prop, self.tier, "%d violations" % len(self.violations) if self.violations else "held",
            self.states, self.traces, time.time() - self.start))
        return 1 if self.violations else 0


def definitions(case):
    return [schema.to_definition(p) for p in case.protos]


class Pipeline:
    """Cases through the real compiler, the specification of the compiler and rustc."""

    def __init__(self, rep, cases, name="main", verdicts=None, compiles=True, want="smul", drivers=True,
                 kinds=False):
        """verdicts: which disagreements about acceptance count: a function (reject) -> bool.
        kinds: whether undefined references have to be reported as such."""
        self.rep, self.cases = rep, cases
        self.work = os.path.join(rep.work, name)
        self.name = name
        os.makedirs(self.work)
        plan.compile_cases(cases, self.work)
        r = plan.plan_cases(cases, self.work)
        rep.add_tlc(r, name + ": compiler sessions", sum(len(c.sessions) for c in cases))
        if os.environ.get("VERIF_STRICT"):
            for c in cases:
                if not c.accepted:
                    print("NOT ACCEPTED", "(must)" if c.must else "", name, [x["why"] for x in c.plan], [x.get("text") for x in c.res])
        rep.note(name + ": accepted sessions", sum(p["ok"] for c in cases for p in c.plan))
        for x in r.rejects:
            if verdicts and (x["asp"] != "kind" or kinds) and verdicts(x):
                c = x["case"]
                rep.violation("verdict", "the compiler answers %s where the specification says %s (%s) %s" % (
                    x["got"], x["want"], x["why"], x["text"]),
                    {"protocols": definitions(c), "session": c.sessions[x["session"]], "observed": c.res[x["session"]]},
                    c.tag)
        self.shards = []
        self.usable = [c for c in cases if c.accepted]
        if drivers and self.usable:
            self.shards, failures = rustgen.compile_shards(self.usable, self.work, want)
            for f in failures:
                if compiles:
                    rep.violation("compile", "generated code does not compile: " + f.text,
                                  {"protocols": definitions(f.case), "error": f.text}, f.case.tag)
            bad = {f.case.id for f in failures}
            self.usable = [c for c in self.usable if c.id not in bad]

    def run(self, module, traces, aspects, describe=None, timeout=20, known=None, batch=4000, tlc_timeout=800):
        """Runs traces and checks them with a trace specification. A reject counts if its aspect is one
        of the given ones."""
        rep = self.rep
        ids = {c.id for c in self.usable}
        traces = [t for t in traces if t["case"].id in ids]
        if not traces:
            if rep.violations:
                return
            raise core.ToolError("%s: nothing to run" % self.name)
        events, lost = rustgen.run_shards(self.shards, traces, self.work, timeout)
        for i, reason in lost.items():
            t = traces[i]
            rep.violation("lost", "the process running generated code ended: %s" % reason,
                          {"protocols": definitions(t["case"]), "trace": {k: v for k, v in t.items() if k != "case"}},
                          t["case"].tag)
        good = [i for i in range(len(traces)) if events[i] is not None]
        for lo in range(0, len(good), batch):
            self.check(module, [(traces[i], events[i]) for i in good[lo:lo + batch]], aspects, known, tlc_timeout)

    def check(self, module, pairs, aspects, known, tlc_timeout):
        rep = self.rep
        plans, index = [], {}
        out = []
        for t, ev in pairs:
            c = t["case"]
            if c.id not in index:
                plans.append(c.objs)
                index[c.id] = len(plans)
            e = {"plan": index[c.id], "key": t["key"], "kind": t["kind"], "events": ev}
            e.update({k: t[k] for k in ("msg", "field", "budget") if k in t})
            out.append(e)
        path = os.path.join(self.work, "traces.json")
        with open(path, "w") as f:
            json.dump({"plans": plans, "aspects": sorted(aspects), "traces": out}, f)
        r = core.tlc(module, self.work, variables={"TRACES": path}, timeout=tlc_timeout)
        if not r.ok:
            raise core.ToolError("%s: %s" % (module, r.error()))
        want = sum(len(ev) + 1 for _, ev in pairs)
        if r.distinct != want:
            raise core.ToolError("%s: %d states for %d events" % (module, r.distinct, want))
        rep.add_tlc(r, "%s: %s" % (self.name, module), len(pairs))
        rep.evaluations += want - len(pairs)
        if len(rep.samples) < 4:
            t, ev = pairs[rep.rng.randrange(len(pairs))]
            e = ev[rep.rng.randrange(len(ev))] if ev else None
            rep.samples.append({"key": t["key"], "kind": t["kind"], "event": short_event(e)})
        for x in r.rejects:
            t, ev = pairs[x["id"] - 1]
            key = known(t, x) if known else None
            rep.violation(x["asp"], "%s of %s: event %d: %s" % (
                x["asp"], t["key"], x["i"], json.dumps(short_event(x.get("ev")))),
                {"protocols": definitions(t["case"]), "key": t["key"], "kind": t["kind"], "reject": x,
                 "script": {k: v for k, v in t.items() if k != "case"}, "events": ev[:x["i"]][-3:]}, key)


def short_event(e, limit=700):
    s = json.dumps(e)
    return e if len(s) <= limit else s[:limit] + "..."


def main(checks):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--build", action="store_true", help="only build")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rep = None
    try:
        core.build()
        if args.build:
            sys.exit(0)
        rep = Report(args.property, args.tier, seed)
        checks[args.property](rep)
        sys.exit(rep.finish())
    except core.ToolError as e:
        print("ERROR: %s" % e)
    except Exception:
        traceback.print_exc()
    # what was found before stays found
    sys.exit(rep.finish() if rep and rep.violations else 2)
