"""C25: what definition files mean."""
import copy
import json
import os
import re
import shutil
import string
from fractions import Fraction

import core
import schema
from checks_api import run_driver

# ---------------------------------------------------------------------------------------------
# Trees, the nodes of module Reading


def text_node(s):
    return {"k": "str", "s": s}


def int_node(v):
    return {"k": "int", "neg": v < 0, "d": [int(c) for c in str(abs(v))], "num": canonical(v)}


def float_node(v):
    """v: a float or the text of a number."""
    if isinstance(v, str) and v.strip("+-") in ("NaN", "Infinity"):
        return {"k": "float", "whole": False, "num": v}
    n = canonical(v)
    return {"k": "float", "whole": "/" not in n, "num": n}


def canonical(v):
    return str(Fraction(v))


def tree(x):
    if isinstance(x, dict):
        return {"k": "obj", "o": [{"key": k, "v": tree(v)} for k, v in x.items()]}
    if isinstance(x, list):
        return {"k": "arr", "a": [tree(v) for v in x]}
    if isinstance(x, str):
        return text_node(x)
    if isinstance(x, bool):
        return {"k": "bool", "b": x}
    if isinstance(x, int):
        return int_node(x)
    if isinstance(x, float):
        return float_node(x)
    return {"k": "null"}


def tokens(n, rng=None, trail=0.0):
    out = []

    def walk(n):
        if n["k"] not in ("obj", "arr"):
            out.append(n)
            return
        kids = n["o"] if n["k"] == "obj" else n["a"]
        out.append({"k": "{" if n["k"] == "obj" else "["})
        for j, c in enumerate(kids):
            if j:
                out.append({"k": ","})
            if n["k"] == "obj":
                plain = rng and rng.random() < 0.6 and re.fullmatch("[A-Za-z_$][A-Za-z0-9_$]*", c["key"])
                out.append({"k": "name" if plain else "str", "s": c["key"]})
                out.append({"k": ":"})
                walk(c["v"])
            else:
                walk(c)
        if kids and rng and rng.random() < trail:
            out.append({"k": ","})
        out.append({"k": "}" if n["k"] == "obj" else "]"})
    walk(n)
    return out


# ---------------------------------------------------------------------------------------------
# Notation

SPACES = [" ", " ", "\n", "\t", "  ", "\r\n", "\u00a0", "\ufeff", "\u2028", "\v", "\f", "// a comment: {'x'} \"\n", "/* one */", "/** two\n * } ] ,\n **/",
          "//\n", "/**/", "\u3000", "/* text\n // more */", "/*\n// nested\n*/", "// ' /*\n", "/* \" // */", "\r"]


def string_text(s, rng):
    q = rng.choice("'\"")
    out = q
    for c in s:
        r = rng.random()
        if c == q or c == "\\":
            out += "\\" + c
        elif ord(c) < 32:
            out += {"\n": "\\n", "\t": "\\t"}.get(c, "\\x%02x" % ord(c))
        elif r < 0.04 and ord(c) < 256:
            out += "\\x%02x" % ord(c)
        elif r < 0.08 and ord(c) < 0x10000:
            out += ("\\u%04x" if r < 0.06 else "\\u%04X") % ord(c)
        elif r < 0.09:
            out += "\\\n" + c
        else:
            out += c
    return out + q


def int_text(n, rng):
    v = int("".join(map(str, n["d"])))
    if n["neg"]:
        return "-%d" % v
    r = rng.random()
    if r < 0.25 and v < 2 ** 32:
        return rng.choice(["0x%x", "0X%X", "0x%08X", "0x0%x"]) % v
    return "+%d" % v if r < 0.35 else str(v)


def float_text(n, rng):
    if n["num"].strip("+-") in ("NaN", "Infinity"):
        return n["num"]
    v = Fraction(n["num"])
    t = None
    # the exact decimal digits, as long as they are not too many
    e = 0
    while v.denominator != 1 and e < 40:
        v, e = v * 10, e + 1
    if v.denominator != 1 or abs(v) >= 10 ** 40:
        return repr(float(Fraction(n["num"])))
    sign = "-" if v < 0 else rng.choice(["", "", "+"])
    digits = str(abs(int(v)))
    point = len(digits) - e
    shift = rng.choice([0, 0, 0, 1, 2, -1, -3])
    point -= shift
    if point <= 0:
        digits = "0" * (1 - point) + digits
        point = 1
    if point > len(digits):
        digits += "0" * (point - len(digits))
    whole, frac = digits[:point], digits[point:] + rng.choice(["", "", "0"])
    if len(whole) > 1:
        whole = whole.lstrip("0") or "0"
    t = whole + "." + frac
    if whole == "0" and frac and rng.random() < 0.3:
        t = "." + frac
    if shift or rng.random() < 0.1:
        t += rng.choice("eE") + (rng.choice(["", "+"]) if shift >= 0 else "") + str(shift)
    return sign + t


def token_text(t, rng):
    k = t["k"]
    if k == "str":
        return string_text(t["s"], rng) if rng else json.dumps(t["s"])
    if k == "name":
        return t["s"]
    if k == "int":
        return int_text(t, rng) if rng else ("-" if t["neg"] else "") + "".join(map(str, t["d"]))
    if k == "float":
        if not rng:
            v = t["num"]
            return v if v.strip("+-") in ("NaN", "Infinity") else "%s.0" % v if "/" not in v and "." not in v else repr(float(Fraction(v)))
        return float_text(t, rng)
    if k == "bool":
        return "true" if t["b"] else "false"
    return k


def render(ts, rng=None):
    """The text of a sequence of tokens; without rng the usual notation."""
    out = ""
    for t in ts:
        text = token_text(t, rng)
        gap = ""
        if rng:
            while rng.random() < 0.3:
                gap += rng.choice(SPACES)
        wordy = lambda c: c.isalnum() or c in "_$.+-"
        if out and not gap and wordy(out[-1]) and wordy(text[0]):
            gap = " "
        out += gap + text + ("" if rng else "\n" if t["k"] == "," else "")
    if rng:
        while rng.random() < 0.3:
            out += rng.choice(SPACES)
        if rng.random() < 0.1:
            out += "// the end"
    return out


# ---------------------------------------------------------------------------------------------
# Changes

OPTIONAL = {"endianness": "little", "imports": [], "structs": [], "messages": [], "enums": [], "unions": []}


def walk(n, f, path=()):
    f(n, path)
    for j, c in enumerate(n.get("o", ())):
        walk(c["v"], f, path + (c["key"],))
    for j, c in enumerate(n.get("a", ())):
        walk(c, f, path + (j,))


def same_meaning(rng, n):
    """Another tree which means the same."""
    n = copy.deepcopy(n)
    keys = {c["key"] for c in n["o"]}
    for k, v in OPTIONAL.items():
        if k not in keys and rng.random() < 0.4:
            n["o"].append({"key": k, "v": tree(v if rng.random() < 0.5 else None)})
    objs = []
    walk(n, lambda x, path: objs.append((x, path)) if x["k"] == "obj" else None)
    for x, path in objs:
        keys = {c["key"] for c in x["o"]}
        if len(path) >= 2 and path[-2] == "fields":
            for k, v in (("view", None), ("array_len", None)) if "structs" in path else (("optional", False),):
                if k not in keys and rng.random() < 0.3:
                    x["o"].append({"key": k, "v": tree(v if rng.random() < 0.5 else None)})
        if len(path) >= 2 and path[-2] == "cases" and "item_type" not in keys and rng.random() < 0.4:
            x["o"].append({"key": "item_type", "v": tree(None)})
        if path and path[-1] == "info" and "messages" in path and "max_len" not in keys and rng.random() < 0.4 and \
                any(c["key"] == "type" and c["v"].get("s") == "string" for c in x["o"]):
            x["o"].append({"key": "max_len", "v": tree(None)})
        if rng.random() < 0.5:
            rng.shuffle(x["o"])
        for c in x["o"]:
            # a whole number where any number would do
            v = c["v"]
            if c["key"] in ("min", "max", "multiplier") and v["k"] in ("int", "float") and v["num"].lstrip("-").isdigit() \
                    and abs(int(v["num"])) < 2 ** 53:
                c["v"] = int_node(int(v["num"])) if rng.random() < 0.5 and v["num"] != "0" else float_node(v["num"])
    return n


ODD = ["x", "// x", "/* x", "a\n// b\nc", "little", "big", "Big", "signed", "unsigned", "payload", "float-range", "floatRange", "item", 0, 1, 8, 2 ** 31, 2 ** 53 + 1, 2 ** 63 - 1,
       2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 80, -1, -8, -2 ** 40, 0.5, 2.7, 8.0, 1e300, -3.25, True, False, None, [], {}, ["a"], [1], {"type": "x"},
       {"type": "signed"}, {"little": None}]


def altered(rng, n):
    """A tree with something which may not belong there."""
    n = copy.deepcopy(n)
    for _ in range(rng.choice([1, 1, 1, 2])):
        slots = []

        def see(x, path):
            slots.extend((x, c) for c in x.get("o", ()))
            slots.extend((x, j) for j in range(len(x.get("a", ()))))
        walk(n, see)
        x, c = rng.choice(slots)
        new = tree(rng.choice(ODD))
        if rng.random() < 0.1:
            new = float_node(rng.choice(["NaN", "Infinity", "-Infinity"]))
        if isinstance(c, int):
            if rng.random() < 0.2:
                del x["a"][c]
            else:
                x["a"][c] = new
        elif rng.random() < 0.3:
            x["o"].remove(c)
        elif rng.random() < 0.1:
            c["key"] += "x"
        else:
            v = c["v"]
            if v["k"] == "int" and rng.random() < 0.5:
                d = int("".join(map(str, v["d"])))
                new = rng.choice([int_node(-d - 1), float_node(Fraction(2 * d + 1, 2)), float_node(Fraction(d)), int_node(2 ** 64 + d), text_node(str(d))])
            c["v"] = new
        if n["k"] != "obj" or not n["o"]:
            break
    return n


def damaged(rng, ts):
    """Tokens which may not be a document any more."""
    ts = list(ts)
    for _ in range(rng.choice([1, 1, 2])):
        j = rng.randrange(len(ts))
        r = rng.random()
        if r < 0.25:
            ts = ts[:j]
        elif r < 0.5:
            del ts[j]
        elif r < 0.75:
            ts.insert(j, rng.choice([{"k": c} for c in "{}[]:,"] + [text_node("x"), int_node(1), {"k": "name", "s": "little"}]))
        elif r < 0.85:
            ts.append(rng.choice([{"k": c} for c in "{}[]:,"] + [text_node("x"), int_node(1)]))
        elif ts[j]["k"] == "str":
            ts[j] = {"k": "name", "s": "abc"}
        else:
            ts[j] = {"k": rng.choice("{}[]:,")}
        if not ts:
            break
    return ts


# ---------------------------------------------------------------------------------------------

class Files:
    """Files on disk, with the tokens in them."""

    def __init__(self, work):
        self.dir = os.path.join(work, "defs")
        os.makedirs(self.dir)
        self.list, self.paths, self.known = [], [], {}

    def text(self, ts, text):
        key = text
        if key not in self.known:
            path = os.path.join(self.dir, "%d.json5" % len(self.list))
            with open(path, "w", newline="") as f:
                f.write(text)
            self.known[key] = self.add("text", ts, path)
        return self.known[key]

    def add(self, kind, ts, path):
        self.list.append({"kind": kind, "ts": ts})
        self.paths.append(path)
        return len(self.list)

    def unreadable(self, kind):
        path = os.path.join(self.dir, "%s%d" % (kind, len(self.list)))
        if kind == "directory":
            os.makedirs(path)
        elif kind == "binary":
            with open(path, "wb") as f:
                f.write(b"{name: 'p'} // \xff\xfe\n")
        elif kind == "below":
            with open(path, "wb") as f:
                f.write(b"{name: 'p'}")
            path += "/x.json5"
        return self.add(kind, [], path)


def run_histories(rep, files, histories, what):
    """histories: [(ops [(op, file, base)], number of the history to compare with)]. Some of them have the files at one
    or two paths, the content of which changes between requests."""
    work = os.path.join(rep.work, what)
    os.makedirs(work, exist_ok=True)
    def slot(k):
        return os.path.join(work, "slots", str(k), rep.rng.choice(["a.json5", "a.json5", "b.json5"])) if k % 3 == 1 else None
    script = [{"ops": [[op, files.paths[f - 1], b, slot(k)] for op, f, b in ops], "out": os.path.join(work, "out", "%06d" % k),
               "opts": {"reads": True, "writes": True}} for k, (ops, _) in enumerate(histories)]
    results = run_driver("loader", script, work)
    for d in ("out", "slots"):
        shutil.rmtree(os.path.join(work, d), ignore_errors=True)
    traces = []
    for (ops, first), (res, lost) in zip(histories, results):
        res = res or {"answers": [lost] * len(ops), "final": lost}
        traces.append({"ops": [{"op": o, "file": f, "base": b, "res": a} for (o, f, b), a in zip(ops, res["answers"])],
                       "first": first + 1, "final": res["final"]})
    path = os.path.join(work, "traces.json")
    with open(path, "w") as f:
        json.dump({"files": files.list, "traces": traces}, f)
    r = core.tlc("TraceReading", work, variables={"TRACES": path})
    want = sum(2 + len(t["ops"]) for t in traces)
    if not r.ok or r.distinct != want:
        raise core.ToolError("TraceReading: %d states for %d\n%s" % (r.distinct, want, r.error()))
    rep.add_tlc(r, what + ": TraceReading", len(traces))
    rep.evaluations += want - len(traces)
    for a in ("ok", "model", "io"):
        rep.note("%s: %s" % (what, a), sum(o["res"] == a for t in traces for o in t["ops"]))
    rep.note(what + ": generated", sum(t["final"].startswith("ok ") and not t["final"].startswith("ok 0 ") for t in traces))
    if len(rep.samples) < 4:
        t = rep.rng.choice(traces)
        rep.samples.append({"requests": [{"op": o["op"], "answer": o["res"], "text": content(files.paths[o["file"] - 1])[:300]} for o in t["ops"]],
                            "final": t["final"]})
    for x in r.rejects:
        t = traces[x["id"] - 1]
        if x["asp"] == "answer":
            op = t["ops"][x["i"] - 1]
            text = "%s of a file: specified %s, observed %s" % (op["op"], x["want"], op["res"])
        else:
            text = "equal definitions end differently: %s and %s" % (x["want"], t["final"])
        rep.violation(x["asp"], text, {"reject": x, "trace": t, "first": traces[t["first"] - 1],
                                       "files": [content(files.paths[o["file"] - 1]) for o in t["ops"]],
                                       "first files": [content(files.paths[o["file"] - 1]) for o in traces[t["first"] - 1]["ops"]]})
    shutil.rmtree(work, ignore_errors=True)


def content(path):
    try:
        with open(path, "rb") as f:
            return f.read().decode("utf-8", "replace")
    except OSError as e:
        return str(e)


def model(rep, module):
    work = os.path.join(rep.work, module)
    os.makedirs(work)
    r = core.tlc(module, work, variables={"DEEP": "1" if rep.tier == "thorough" else "0"})
    if not r.ok:
        raise core.ToolError("%s: %s" % (module, r.error()))
    rep.add_tlc(r, "model: " + module)
    return r.exports


def enumerated(rep):
    rng = rep.rng
    files = Files(os.path.join(rep.work, "documents"))
    base = schema.proto("b", "little", structs=[schema.struct("I", [schema.field("u", "unsigned", 8)])])
    b = files.text(tokens(tree(schema.to_definition(base))), schema.to_text(base))
    histories = []
    docs = model(rep, "MCReading")
    if len(docs) > 40000:
        docs = rng.sample(docs, 40000)
    for d in docs:
        ts = d["tokens"]
        for t in ts:
            if t["k"] == "int":
                t["num"] = canonical(int("".join(map(str, t["d"]))) * (-1 if t["neg"] else 1))
            elif t["k"] == "float":
                t["num"] = canonical(t["num"])
        f = files.text(ts, render(ts))
        r = rng.random()
        histories.append(([("import", b, "crate"), ("load" if r < 0.8 else "import", f, "crate")], len(histories)))
        if r < 0.5:
            g = files.text(ts, render(ts, rng))
            histories.append((histories[-1][0][:1] + [(histories[-1][0][1][0], g, "crate")], len(histories) - 1))
    run_histories(rep, files, histories, "documents")


def loaders(rep):
    rng = rep.rng
    files = Files(os.path.join(rep.work, "loaders"))
    base = schema.proto("b", "big", structs=[schema.struct("I", [schema.field("u", "unsigned", 16)])])
    user = schema.proto("u", "", imports=[("b", "I")], structs=[schema.struct("S", [schema.field("i", "struct", ref="I")])])
    ids = [files.text(tokens(tree(schema.to_definition(p))), schema.to_text(p)) for p in (base, user)]
    bad = schema.to_definition(user)
    del bad["structs"][0]["name"]
    ids.append(files.text(tokens(tree(bad)), render(tokens(tree(bad)))))
    cut = tokens(tree(schema.to_definition(base)))[:-1]
    ids.append(files.text(cut, render(cut)))
    ids += [files.unreadable("binary"), files.unreadable("missing")]
    good = {ids[0], ids[1]}
    by = {}
    histories = []
    ex = model(rep, "MCLoader")
    ex.sort(key=lambda e: len(e["ops"]))
    for e in ex:
        ops = [(o["op"], ids[o["file"] - 1], o["base"]) for o in e["ops"]]
        # the history which holds the same and has nothing which fails came first
        kept = tuple([o for o in ops if o[1] in good])
        by.setdefault(kept, len(histories))
        histories.append((ops, by[kept]))
    run_histories(rep, files, histories, "loaders")


def rand_histories(rep, n, what):
    rng = rep.rng
    files = Files(os.path.join(rep.work, what))
    junk = [files.unreadable(k) for k in ("missing", "directory", "binary", "below")]
    histories = []
    for _ in range(n):
        protos = schema.rand_protos(rng)
        if rng.random() < 0.3:
            # variants which no float can tell apart
            e = schema.enum("Wide", [("A", 2 ** 53 + 1), ("B", 2 ** 53), ("C", 2 ** 62 + 3), ("D", 0)])
            protos[-1]["enums"].append(e)
            protos[-1]["structs"].append(schema.struct("WideS", [schema.field("e", "unsigned", 64, v=schema.view("enum", ref="Wide"))]))
        trees = [tree(schema.to_definition(p)) for p in protos]
        kinds = [("import", "crate::x")] * (len(protos) - 1) + [("load", "")]
        if rng.random() < 0.3:
            kinds = [("import", "crate::x")] * len(protos)
        plain = [files.text(tokens(t), render(tokens(t))) for t in trees]
        first = len(histories)
        histories.append(([(k, f, b) for (k, b), f in zip(kinds, plain)], first))
        big = rng.random() < 0.04
        for _ in range(3):
            # other notations, and requests which fail in between
            ops = []
            for (k, b), t in zip(kinds, trees):
                u = same_meaning(rng, t)
                ts = tokens(u, rng, 0.4)
                if rng.random() < 0.25:
                    ops.append((rng.choice(["load", "import"]), rng.choice(junk), "crate"))
                if rng.random() < 0.3:
                    cut = damaged(rng, ts)
                    ops.append((rng.choice(["load", "import"]), files.text(cut, render(cut, rng)), "crate::y"))
                text = render(ts, rng)
                if big:
                    # files of more than 64 KiB and 1 MiB
                    j = rng.choice([0, len(text)])
                    text = text[:j] + "\n/* %s */ " % (rng.choice("ab \n") * rng.choice([70000, 70000, 1100000])) + text[j:]
                ops.append((k, files.text(ts, text), b))
            histories.append((ops, first))
        for _ in range(3):
            ops = list(histories[first][0])
            j = rng.randrange(len(ops))
            ts = tokens(altered(rng, trees[j]), rng, 0.1)
            if rng.random() < 0.2:
                ts = damaged(rng, ts)
            ops[j] = (ops[j][0], files.text(ts, render(ts, rng if rng.random() < 0.5 else None)), ops[j][2])
            histories.append((ops, first))
    run_histories(rep, files, histories, what)


def c25(rep):
    deep = rep.tier == "thorough"
    enumerated(rep)
    loaders(rep)
    for k in range(10 if deep else 1):
        rand_histories(rep, 250, "random%d" % k)


CHECKS = {"C25": c25}
