"""Checks of what surrounds the compiler: C20 (generation of files) and C22 (templates)."""
import copy
import json
import os
import re
import shutil

import core
import plan
import schema
import values
from schema import case, enum, field, mfield, message, proto, struct, union, view

# ---------------------------------------------------------------------------------------------
# C22

NAMES = ["a", "b", "v", "name", "x.y", "n_1", "\u00e9", "a b"]
FRAGS = ["a", "b", "main", "a.b", "x y", "\u00fc", ""]
FUNS = ["upper", "lower", "capitalize", "twice", "gone", "none", "", "upper:lower"]
SHOWN = ["", "a", "Abc", "xYz", "hello world", "{", "}}", "{v}", "line\nline", "\u00e9t\u00c9", "\u65e5\u672c", "1x", "\U0001F600z",
         "\u00ff\u00df"[:0] + "\u00d8\u00f8", "#fragment pop"]


def enc(s):
    return list(s.encode())


def rand_line(rng):
    r = rng.random()
    if r < 0.2:
        return b"#fragment push " + rng.choice(FRAGS).encode()
    if r < 0.35:
        return b"#fragment pop" + rng.choice([b"", b"", b" ", b" x"])
    if r < 0.4:
        return rng.choice([b"", b"", b"\r", b"#fragment", b"#fragment  push a", b" #fragment push a", b"#Fragment pop",
                           b"#fragment push", b"# comment"])
    out = b""
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
        r = rng.random()
        if r < 0.35:
            out += rng.choice(["text", " ", "\u00e9", "x:y", "\u65e5", ";", "a.b", "\t", "let v = ", "()"]).encode()
        elif r < 0.5:
            out += rng.choice([b"{{", b"}}", b"{{", b"}}", b"{{}}", b"{{{{", b"}}}}"])
        elif r < 0.92:
            name = rng.choice(NAMES + ["v"] * 5)
            out += ("{%s}" % name if rng.random() < 0.5 else "{%s:%s}" % (name, rng.choice(FUNS[:5] * 4 + FUNS))).encode()
        elif r < 0.96:
            out += bytes(rng.choice(values.BAD)) if rng.random() < 0.5 else b"\xff"
        else:
            out += rng.choice([b"{", b"}", b"{}", b"{a{b}", b"{a"])
    return out


def rand_template(rng):
    lines = []
    if rng.random() < 0.9:
        lines.append(b"#fragment push " + rng.choice(FRAGS[:3]).encode())
    for _ in range(rng.choice([1, 2, 3, 4, 6, 9, 14])):
        lines.append(rand_line(rng))
    if rng.random() < 0.8:
        depth = 0
        for l in lines:
            if l.startswith(b"#fragment push "):
                depth += 1
            elif l.startswith(b"#fragment pop"):
                depth = max(0, depth - 1)
        lines += [b"#fragment pop"] * depth
    if rng.random() < 0.15:
        lines = [l + b"\r" for l in lines]
    text = b"\n".join(lines) + rng.choice([b"", b"\n"])
    return list(text)


BLANKS = ["", " ", "  ", "    ", "\t", "\t\t\t\t", "        ", " \t ", "\u00a0", "\u2003", "\x0b", "\x0c"]
VARS = ["a", "b", "v", "name", "x.y", "n_1"]


def good_template(rng):
    """A template which compiles: (text, paths of its fragments)."""
    lines, paths = [], []

    def content():
        if rng.random() < 0.15:
            return rng.choice(BLANKS)
        out = rng.choice(BLANKS) if rng.random() < 0.2 else ""
        for _ in range(rng.choice([1, 1, 2, 3, 5, 9])):
            out += rng.choice(["text", " ", "x:y", "{{", "}}", "\u00e9", "\u65e5\u672c", ";", "#", "\\", "\"", "{%s}" % rng.choice(VARS),
                               "{%s}" % rng.choice(VARS), "{%s:%s}" % (rng.choice(VARS), rng.choice(FUNS[:3]))])
        return out + (rng.choice(BLANKS) if rng.random() < 0.2 else "")

    def block(path, depth):
        if len(lines) > 25:
            return
        names = rng.sample(["a", "b", "main", "inner", "x y", "\u00fc"], rng.randint(1, 2 if depth else 4))
        for n in names:
            here = path + [n if rng.random() < 0.9 or not path else path[-1]]
            lines.append("#fragment push " + here[-1])
            for _ in range(rng.choice([0, 1, 2, 3, 5])):
                lines.append(content())
            if rng.random() < (0.7 if depth < 6 else 0):
                block(here, depth + 1)
            for _ in range(rng.choice([0, 0, 1, 2])):
                lines.append(content())
            lines.append("#fragment pop" + rng.choice(["", "", " ", " end"]))
            paths.append(".".join(here))
        if len(lines) > 25:
            return
    block([], 0)
    end = rng.choice(["\n", "\n", "\r\n"])
    return enc(end.join(lines) + rng.choice(["", end])), paths


def rand_ops(rng, paths=None):
    """Uses of a template. Variables of the template are set before the first scope is made."""
    todo = []

    def op(name, s=0, key="", shown="", path="", frags=(), d=None):
        o = {"op": name, "s": s, "key": enc(key), "shown": enc(shown), "path": enc(path), "frags": [enc(f) for f in frags]}
        if d is not None:
            o["d"] = d
            o["shown"] = enc(str(d))
        todo.append(o)

    def var(s):
        if rng.random() < 0.2:
            op("var", s, rng.choice(NAMES), d=rng.choice([0, 1, -1, 42, 2 ** 31, -2 ** 40]))
        else:
            op("var", s, rng.choice(VARS if paths else NAMES[:4] + NAMES), rng.choice(SHOWN if rng.random() < 0.8 else [""]))

    def render(s, name="render"):
        path = rng.choice(["", "", "", "a", "b", "main", "a.b", "nope"])
        if paths and rng.random() < 0.9:
            full = rng.choice(paths)
            path, _, last = full.rpartition(".")
            frags = [last]
            while path and rng.random() < 0.3:
                path, _, front = path.rpartition(".")
                frags = [front + "." + frags[0]]
            frags += [p[len(path) + 1 if path else 0:] for p in rng.sample(paths, min(len(paths), rng.choice([0, 0, 1])))
                      if not path or p.startswith(path + ".")]
            return op(name, s, rng.choice(VARS) if name == "tovar" else "", path=path, frags=frags)
        frags = [rng.choice(FRAGS[:3] * 3 + FRAGS + ["a.a", "main.a", "nope"]) for _ in range(rng.choice([1, 1, 1, 2, 3, 0]))]
        op(name, s, rng.choice(NAMES) if name == "tovar" else "", path=path, frags=frags)
    for n in NAMES if rng.random() < (0.9 if paths else 0.6) else []:
        op("var", 0, n, rng.choice(SHOWN))
    for _ in range(rng.randint(0, 5)):
        var(0) if rng.random() < 0.4 else render(0)
    scopes = 0
    for _ in range(rng.randint(0, 14)):
        r = rng.random()
        if scopes == 0 or r < 0.12:
            op("scope")
            scopes += 1
        elif r < 0.2:
            op("clone", rng.randint(1, scopes))
            scopes += 1
        elif r < 0.4:
            var(rng.randint(1, scopes))
        elif r < 0.55:
            render(rng.randint(1, scopes), "tovar")
        else:
            render(rng.choice([0] + list(range(1, scopes + 1)) * 2))
    return todo


def run_templates(rep, entries, what):
    work = os.path.join(rep.work, what)
    os.makedirs(work)
    shares = [list(range(k, len(entries), core.CPUS)) for k in range(core.CPUS)]
    observed = [None] * len(entries)

    def run(k):
        if not shares[k]:
            return
        path = os.path.join(work, "script-%d.json" % k)
        with open(path, "w") as f:
            json.dump([entries[i] for i in shares[k]], f)
        res, lost = core.run_script([core.driver_path(), "template", path], len(shares[k]))
        for j, i in enumerate(shares[k]):
            observed[i] = res[j] if res[j] is not None else {"panic": True, "res": [], "text": lost[j]}
    core.parallel(run, range(core.CPUS))
    path = os.path.join(work, "traces.json")
    with open(path, "w") as f:
        json.dump({"traces": [dict(e, panic=o["panic"], res=o["res"]) for e, o in zip(entries, observed)]}, f)
    r = core.tlc("TraceTemplate", work, variables={"TRACES": path})
    want = sum(2 + len(e["ops"]) for e in entries)
    if not r.ok or r.distinct != want:
        raise core.ToolError("TraceTemplate: %d states for %d\n%s" % (r.distinct, want, r.error()))
    rep.add_tlc(r, what + ": TraceTemplate", len(entries))
    rep.evaluations += want - len(entries)
    if len(rep.samples) < 4:
        e = rep.rng.choice(entries)
        rep.samples.append({"text": bytes(e["text"]).decode("utf-8", "replace")[:300], "ops": len(e["ops"])})
    for x in r.rejects:
        e, o = entries[x["id"] - 1], observed[x["id"] - 1]
        got = o["res"][x["i"]] if x["i"] < len(o["res"]) else {"panic": o.get("text")}
        op = e["ops"][x["i"] - 1] if x["i"] else {"op": "compile"}
        rep.violation("template", "%s answers %s where the specification says %s, text %r" % (
            short_op(op), readable(got), readable(x["want"]), bytes(e["text"])),
            {"text": bytes(e["text"]).decode("utf-8", "replace"), "entry": e, "observed": o, "reject": x})


def readable(r):
    return {k: bytes(v).decode("utf-8", "replace") if isinstance(v, list) else v for k, v in r.items()}


def short_op(op):
    return json.dumps({k: (bytes(v).decode("utf-8", "replace") if k in ("key", "shown", "path") else
                           [bytes(x).decode("utf-8", "replace") for x in v] if k == "frags" else v) for k, v in op.items()})


def c22(rep):
    rng = rep.rng
    deep = rep.tier == "thorough"
    # all small templates
    work = os.path.join(rep.work, "model")
    os.makedirs(work)
    r = core.tlc("MCTemplate", work, variables={"MAXLINES": "4" if deep else "3"})
    if not r.ok:
        raise core.ToolError("MCTemplate: " + r.error())
    rep.add_tlc(r, "model: MCTemplate")
    for lo in range(0, len(r.exports), 8000):
        run_templates(rep, r.exports[lo:lo + 8000], "enumerated-%d" % lo)
    # all uses of one template
    r = core.tlc("MCUse", work, variables={"MAXOPS": "5" if deep else "4"})
    if not r.ok:
        raise core.ToolError("MCUse: " + r.error())
    rep.add_tlc(r, "model: MCUse")
    for lo in range(0, len(r.exports), 8000):
        run_templates(rep, r.exports[lo:lo + 8000], "uses-%d" % lo)
    for k in range(6 if deep else 1):
        run_templates(rep, [{"text": rand_template(rng), "map": rng.choice(["default", "default", "both", "custom", "empty", "replaced", "restored"]),
                             "ops": rand_ops(rng)} for _ in range(4000 if deep else 2500)], "random-%d" % k)
        good = []
        for _ in range(4000 if deep else 800):
            text, paths = good_template(rng)
            good.append({"text": text, "map": rng.choice(["default", "default", "default", "replaced", "restored"]), "ops": rand_ops(rng, paths)})
        run_templates(rep, good, "wellformed-%d" % k)


# ---------------------------------------------------------------------------------------------
# C20 and the part of C19 about what a failure leaves behind

OPTIONS = ["reads", "writes", "messages", "structs", "enums", "unions"]


class History:
    """Runs of the generator over some protocols into the same directory."""

    def __init__(self, protos, runs):
        """runs: [(imports, loads, options, build script, number of the directory)]"""
        self.protos, self.runs = protos, [r if len(r) == 5 else r + (0,) for r in runs]


def upper(s):
    return "".join(c.upper() if c.isascii() else c for c in s)


def run_histories(rep, histories, what):
    work = os.path.join(rep.work, what)
    # what the specification of the compiler says about every run
    cases = [plan.Case(h.protos, sessions=[(r[0], r[1]) for r in h.runs]) for h in histories]
    script = []
    for n, (c, h) in enumerate(zip(cases, histories)):
        c.id = n
        c.dir = os.path.join(work, "case", str(n))
        os.makedirs(c.dir)
        files = []
        for k, p in enumerate(h.protos):
            path = os.path.join(c.dir, "%d.json5" % k)
            with open(path, "w") as f:
                f.write(schema.to_text(p))
            files.append(path)
        script.append({"sessions": [
            {"imports": [[files[i], "crate::%s" % h.protos[i]["name"]] for i in imports], "loads": [files[i] for i in loads],
             "opts": opts, "build": build, "out": os.path.join(c.dir, "out%d" % d)} for imports, loads, opts, build, d in h.runs]})
    shares = [list(range(k, len(cases), core.CPUS)) for k in range(core.CPUS)]

    def run(k):
        if not shares[k]:
            return
        path = os.path.join(work, "script-%d.json" % k)
        with open(path, "w") as f:
            json.dump([script[i] for i in shares[k]], f)
        res, lost = core.run_script([core.driver_path(), "gen", path], len(shares[k]))
        for j, i in enumerate(shares[k]):
            cases[i].res = res[j] if res[j] is not None else \
                [{"res": "panic", "text": lost[j], "files": []} for _ in cases[i].sessions]
    core.parallel(run, range(core.CPUS))
    rep.add_tlc(plan.plan_cases(cases, work), what + ": compiler sessions")
    traces = []
    for c, h in zip(cases, histories):
        rel = lambda p: os.path.relpath(os.path.normpath(p), out).split(os.sep)
        runs = []
        for (imports, loads, opts, build, d), res, pl in zip(h.runs, c.res, c.plan):
            out = os.path.join(c.dir, "out%d" % d)
            files = []
            for f in res["files"]:
                text = f.get("text", "")
                mods = re.findall(r"\bmod\s+(\w+)\s*\{", text)
                inc = [json.loads('"%s"' % x) for x in re.findall(r'include!\(\s*"((?:[^"\\\\]|\\\\.)*)"\s*\)', text)]
                files.append({"name": f["file"].split("/"), "id": f["id"], "mod": mods[0] if len(mods) == 1 else "",
                              "inc": [rel(x) for x in inc]})
            named = [{"name": p["name"], "file": rel(p["path"])} for p in res.get("protos", [])]
            ps = [{"name": p["name"], "upper": upper(p["name"]), "id": i, "messages": len(p["messages"]),
                   "structs": len(p["structs"]), "enums": len(p["enums"]), "unions": len(p["unions"])}
                  for i, p in ((i, h.protos[i]) for i in loads)]
            runs.append({"ps": ps, "opts": opts, "ok": pl["ok"], "res": res["res"], "build": build, "dir": d,
                         "protos": [] if build else named, "env": named if build else [], "files": files})
        traces.append({"runs": runs})
    path = os.path.join(work, "traces.json")
    with open(path, "w") as f:
        json.dump({"traces": traces}, f)
    r = core.tlc("TraceGen", work, variables={"TRACES": path})
    want = sum(1 + len(t["runs"]) for t in traces)
    # several runs may lead to equal states only if they are the same step of the same trace
    if not r.ok or r.distinct != want:
        raise core.ToolError("TraceGen: %d states for %d\n%s" % (r.distinct, want, r.error()))
    rep.add_tlc(r, what + ": TraceGen", len(traces))
    rep.evaluations += want - len(traces)
    if len(rep.samples) < 4:
        t = rep.rng.choice(traces)
        rep.samples.append({"opts": [x["opts"] for x in t["runs"]], "files": ["/".join(f["name"]) for f in t["runs"][-1]["files"]]})
    for x in r.rejects:
        h, t, c = histories[x["id"] - 1], traces[x["id"] - 1], cases[x["id"] - 1]
        run_ = t["runs"][x["i"] - 1]
        rep.violation(x["asp"], "%s of run %d: %s" % (x["asp"], x["i"], json.dumps(run_)),
                      {"protocols": [schema.to_definition(p) for p in h.protos], "runs": h.runs, "reject": x,
                       "observed": c.res[x["i"] - 1]})
    shutil.rmtree(os.path.join(work, "case"))


def everything(name, rng, n=1):
    """A protocol with something of every kind."""
    return proto(name, rng.choice(schema.ENDIANS), enums=[enum("E", [("A", 0), ("B", n)])],
                 structs=[struct("S", [field("k", "unsigned", 4), field("x", "unsigned", 4 + 8 * n, v=view("enum", ref="E"))])],
                 unions=[union("U", "S.k", [case("A", "0", "S"), case("B", str(n))])],
                 messages=[message("M", [mfield("s", "item", "S"), mfield("u", "union", "U", on="s"), mfield("t", "string")])])


def parts_of(name, rng, kinds):
    """A protocol with some of the parts only."""
    p = proto(name, rng.choice(schema.ENDIANS))
    if "enums" in kinds:
        p["enums"] = [enum("E%d" % i, [("A", i)]) for i in range(rng.choice([1, 2]))]
    if "structs" in kinds or "unions" in kinds:
        p["structs"] = [struct("S%d" % i, [field("a", "unsigned", 5), field("b", "signed", 3)]) for i in range(rng.choice([1, 3]))]
    if "unions" in kinds:
        p["unions"] = [union("U", "S0.a", [case("X", "3")])]
    if "messages" in kinds:
        p["messages"] = [message("M%d" % i, [mfield("t", "string")]) for i in range(rng.choice([1, 2]))]
    return p


def faulty(name, rng):
    """A protocol which can't be compiled."""
    good = everything(name, rng)
    return rng.choice([
        dict(good, structs=good["structs"] + [struct("Bad", [field("x", "unsigned", rng.choice([0, 65, 1000]))])]),
        dict(good, messages=good["messages"] + [message("Bad", [mfield("x", "item", "Nope")])]),
        dict(good, enums=good["enums"] + [enum("Bad", [])]),
        dict(good, imports=[{"p": "nope", "t": "X"}]),
        dict(good, unions=good["unions"] + [union("Bad", "S.k", [case("A", "99")])])])


def rand_opts(rng):
    return {o: rng.random() < 0.5 for o in OPTIONS if rng.random() < 0.6}


def versions(rng, n):
    """Definitions change between the runs: what is generated over the output of an earlier version is what is
    generated into another directory."""
    out = []
    for _ in range(n):
        name = rng.choice(["alpha", "Beta_2"])
        protos = [everything(name, rng, k) for k in rng.sample(range(1, 10), rng.randint(2, 3))]
        if rng.random() < 0.5:
            protos = [protos[0]]
            for _ in range(rng.randint(1, 2)):
                p = copy.deepcopy(protos[0])
                what = rng.choice(["width", "names", "case", "fewer", "endian"])
                if what == "width":
                    p["structs"][0]["fields"][0]["bits"] = rng.choice([3, 5, 6])
                elif what == "names":
                    p["structs"][0]["fields"][1]["name"] = rng.choice(["y", "z"])
                    p["messages"][0]["fields"][2]["name"] = "v"
                elif what == "case":
                    p["unions"][0]["cases"][1] = case("B", rng.choice(["11", "12"]))
                elif what == "fewer":
                    p[rng.choice(["messages", "unions"])].pop()
                    p["messages"] = []
                else:
                    p["endian"] = rng.choice(schema.ENDIANS)
                protos.append(p)
        k = len(protos)
        first = [([], [j], {"reads": True, "writes": True}, False, 1 + j) for j in range(k)]
        rng.shuffle(first)
        out.append(History(protos, first + [([], [rng.randrange(k)], {"reads": True, "writes": True} if rng.random() < 0.7
                                             else rand_opts(rng), False, 0) for _ in range(rng.randint(2, 4))]))
    return out


def failing_histories(rng, n):
    """Runs some of which fail."""
    out = []
    names = ["alpha", "Beta_2", "gamma", "x"]
    for _ in range(n):
        protos = [everything(names[k], rng, rng.randint(1, 9)) if rng.random() < 0.6 else faulty(names[k], rng)
                  for k in range(rng.randint(1, 4))]
        runs = []
        for _ in range(rng.randint(2, 4)):
            loads = rng.sample(range(len(protos)), rng.randint(1, len(protos)))
            imports = [i for i in range(len(protos)) if i not in loads and rng.random() < 0.3]
            runs.append((imports, loads, rand_opts(rng), rng.random() < 0.1))
        out.append(History(protos, runs))
    return out


def c20(rep):
    rng = rep.rng
    deep = rep.tier == "thorough"
    work = os.path.join(rep.work, "model")
    os.makedirs(work)
    r = core.tlc("MCGen", work, variables={"MAXRUNS": "2"})
    if not r.ok:
        raise core.ToolError("MCGen: " + r.error())
    rep.add_tlc(r, "model: MCGen")
    # every history of options the model knows
    pair = [everything("x", rng), parts_of("y", rng, {"structs"})]
    todo = r.exports if deep else rng.sample(r.exports, 1500)
    run_histories(rep, [History(pair, [([], [0, 1], opts, False) for opts in e]) for e in todo], "enumerated")
    hs = []
    kinds = ["enums", "structs", "unions", "messages"]
    for n in range(16):
        for _ in range(12 if deep else 2):
            p = parts_of("part%d" % n, rng, {k for i, k in enumerate(kinds) if n >> i & 1})
            hs.append(History([p], [([], [0], rand_opts(rng), rng.random() < 0.2) for _ in range(rng.randint(1, 4))]))
    for _ in range(600 if deep else 100):
        protos = schema.rand_protos(rng, count=rng.randint(1, 4))
        k = len(protos)
        runs = []
        for _ in range(rng.randint(1, 4)):
            # a protocol is always generated with the same imports
            first = rng.randrange(k)
            runs.append((list(range(first)), [first], rand_opts(rng), rng.random() < 0.1))
        hs.append(History(protos, runs))
    hs += failing_histories(rng, 800 if deep else 120)
    hs += versions(rng, 400 if deep else 60)
    run_histories(rep, hs, "random")


CHECKS = {"C20": c20, "C22": c22}
