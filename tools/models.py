"""Exhaustive exploration of small definitions with the modules MCStruct and MCWire, and replay of what they
explored into the real code."""
import itertools
import json
import os

import core
import ops
from framework import Pipeline
from plan import Case
from schema import enum, field, mfield, message, proto, struct, union, unword, view


def explore(rep, module, name, model):
    """Model checks; returns what was exported."""
    work = os.path.join(rep.work, "%s-%s" % (module, name))
    os.makedirs(work)
    path = os.path.join(work, "model.json")
    with open(path, "w") as f:
        json.dump(model, f)
    r = core.tlc(module, work, variables={"MODEL": path}, mem="10g")
    if not r.ok:
        raise core.ToolError("%s: %s" % (module, r.error()))
    rep.add_tlc(r, "model: %s %s" % (module, name))
    return r.exports


def named(alts, seq):
    return [dict(alts[a - 1], name="f%d" % (k + 1)) for k, a in enumerate(seq)]


def grouped(rng, model, seqs, make, per=20):
    """Cases which contain the definitions make(name, fields) of all of seqs; returns [(case, key, seq)]."""
    out, cases = [], []
    seqs = list(seqs)
    rng.shuffle(seqs)
    for lo in range(0, len(seqs), per):
        part = seqs[lo:lo + per]
        defs = [make("X%d" % k, named(model["alts"], s)) for k, s in enumerate(part)]
        kind = "messages" if model["kind"] == "message" else "structs"
        p = proto("p", model["endian"], imports=[(x["p"], x["t"]) for x in model["imports"]], **{kind: defs})
        c = Case(model["base"] + [p], must=True)
        cases.append(c)
        out += [(c, "p.X%d" % k, s) for k, s in enumerate(part)]
    return cases, out


# ---------------------------------------------------------------------------------------------
# Structures

def struct_model(alts, depth, endian):
    b = proto("b", "little", enums=[enum("E", [("A", 0), ("B", 5), ("C", 2)]), enum("F", [("Z", 7)])],
              structs=[struct("I", [field("u", "unsigned", 4), field("w", "signed", 9)]),
                       struct("J", [field("u", "unsigned", 8), field("w", "signed", 16)])])
    return {"kind": "struct", "alts": alts, "depth": depth, "endian": endian, "base": [b],
            "imports": [{"p": "b", "t": x} for x in "EFIJ"]}


STRUCT_MENUS = {
    "C01": [field("x", "unsigned", b) for b in (1, 3, 8, 12, 33)] + [field("x", "signed", b) for b in (5, 16, 31)] +
           [field("x", "boolean", 2)],
    "C02": [field("x", "unsigned", b) for b in (3, 8, 12, 17)] + [field("x", "signed", 9), field("x", "boolean", 1),
            field("x", "struct", ref="I"), field("x", "unsigned", 16, length=2)],
    "C03": [field("x", "unsigned", b) for b in (4, 12, 16, 24)] + [field("x", "signed", b) for b in (3, 16)] +
           [field("x", "struct", ref="J"), field("x", "float", 32), field("x", "unsigned", 24, length=2)],
    "C04": [field("x", "unsigned", b, v=view("enum", ref=e)) for b, e in ((3, "E"), (4, "F"), (8, "E"), (12, "E"), (64, "F"))] +
           [field("x", "unsigned", 5), field("x", "boolean", 1), field("x", "unsigned", 2, v=view("enum", ref="E"))],
    "C06": [field("x", t, b, length=k) for t, b, k in (("unsigned", 8, 3), ("unsigned", 16, 2), ("signed", 16, 2), ("boolean", 8, 2),
            ("float", 32, 2), ("unsigned", 40, 2))] + [field("x", "unsigned", 4), field("x", "signed", 8)],
}


def struct_values(bits):
    top = 2 ** bits - 1
    return sorted({0, 1, top, top >> 1, 0xdef09abc78123456 & top}) + [2 ** 64 - 1]


def structs(rep, aspects, depth=None):
    rng = rep.rng
    deep = rep.tier == "thorough"
    for endian in ("little", "big"):
        model = struct_model(STRUCT_MENUS[rep.prop], depth or (4 if deep else 3), endian)
        ex = explore(rep, "MCStruct", endian, dict(model, depth=min(model["depth"], 3)))
        good = [e["seq"] for e in ex if e["ok"]]
        bad = [e["seq"] for e in ex if not e["ok"]]
        if not deep:
            good = [s for s in good if len(s) < 3] + rng.sample([s for s in good if len(s) == 3], min(160, len([s for s in good if len(s) == 3])))
            bad = rng.sample(bad, min(len(bad), 60))
        cases, where = grouped(rng, model, good, struct)
        for s in bad:
            cases.append(Case(model["base"] + [proto("p", endian, imports=[("b", x) for x in "EFIJ"],
                                                     structs=[struct("X", named(model["alts"], s))])]))
        p = Pipeline(rep, cases, "small-" + endian, want="s", verdicts=(lambda x: True) if rep.prop in ("C02", "C03", "C04") else None)
        traces = []
        for c, key, _ in where:
            if not c.accepted:
                continue
            todo = []
            for i, f in enumerate(ops.leaves(c.objs, key), 1):
                if f["kind"] == "array":
                    for v in struct_values(f["item"]):
                        todo.append(ops.op("aset", i, v & (2 ** f["ty"]["w"] - 1), rng.choice([0, f["n"] - 1, f["n"] // 2])))
                    todo += [ops.op("aiter", i), ops.op("aget", i, 0, f["n"] - 1), ops.op("aget", i, 0, f["n"])]
                else:
                    todo += [ops.op("setraw", i, v & (2 ** f["raw"] - 1)) for v in struct_values(f["bits"])]
                    if f["view"]["t"] == "enum":
                        n = len(c.objs[f["view"]["ref"]]["variants"])
                        todo += [ops.op("set", i, k) for k in range(1, n + 1)]
                        todo += [ops.op("setraw", i, unword(x["v"])) for x in c.objs[f["view"]["ref"]]["variants"]]
                    elif f["ty"]["c"] in "ui":
                        todo += [ops.op("set", i, v & (2 ** f["ty"]["w"] - 1)) for v in struct_values(f["bits"])]
            rng.shuffle(todo)
            if not deep:
                todo = todo[:24]
            traces.append({"kind": "s", "case": c, "key": key, "ops": todo, "init": ops.rand_bytes(rng, c.objs[key]["bytes"])})
        p.run("TraceStruct", traces, aspects)


# ---------------------------------------------------------------------------------------------
# Messages

BASE_IMPORTS = ["P", "S", "Txt", "Rest"]


def message_model(alts, depth, endian, full=1, fed=0, feed=(0, 1, 65), length=0, texts=((), (65,), (195, 169), (66, 0))):
    b = proto("b", "big", structs=[struct("P", [field("v", "unsigned", 16)]),
                                   struct("S", [field("k", "unsigned", 2), field("x", "signed", 6), field("y", "unsigned", 3)]),
                                   struct("D", [field("a", "unsigned", 4), field("s", "struct", ref="S")])
                                   ][:2],
              messages=[message("Txt", [mfield("t", "string"), mfield("o", "item", "P", opt=True)]),
                        message("Rest", [mfield("p", "payload")])])
    b2 = proto("c", "little", imports=[("b", x) for x in BASE_IMPORTS],
               unions=[union("U", "S.k", [case_("A", "0", "S"), case_("B", "1", "Txt"), case_("C", "3")]),
                       union("V", "P.v", [case_("Only", "513", "Txt")]),
                       union("W_", "S.x", [case_("Neg", "-32", "P"), case_("Zero", "0"), case_("Top", "31", "Rest")])])
    return {"kind": "message", "alts": alts, "depth": depth, "full": full, "fed": fed, "bytes": list(feed), "len": length,
            "texts": [list(x) for x in texts], "endian": endian, "base": [b, b2],
            "imports": [{"p": "b", "t": x} for x in BASE_IMPORTS] + [{"p": "c", "t": x} for x in ("U", "V", "W_")]}


def case_(name, c, ref=""):
    return {"name": name, "c": c, "cc": [ord(x) for x in c], "ref": ref}


def menu(kinds, opts=(False, True), unions=("U",), on="f1"):
    alts = [mfield("x", t, r, max=m, opt=o) for t, r, m in kinds for o in opts]
    return alts + [mfield("x", "union", u, on=on) for u in unions]


ITEM = [("item", "P", None), ("item", "S", None), ("item", "Txt", None)]
TEXT = [("string", "", None), ("string", "", 10)]
LISTS = [("list", "S", 300), ("list", "Txt", 10)]
REST = [("payload", "", None)]


def message_models(prop, deep):
    """Parameters of the exploration for a property."""
    m = message_model
    general = menu(ITEM + TEXT + LISTS + REST)
    if prop == "C08":
        return [m(general, 2, "little", 0, 2, (0, 1, 2, 65, 200), 4 if deep else 3)]
    if prop == "C12":
        return [m(menu([("item", "P", None)] + [(t, r, x) for x in (3, 300, 70000, 2 ** 33) for t, r in
                                                (("string", ""), ("list", "P"), ("list", "Txt"))], opts=(False,), unions=()),
                  3 if deep else 2, "big", 1, 1, (0, 1, 2, 255), 4)]
    if prop == "C13":
        return [m(menu([("item", "P", None), ("list", "P", 10), ("list", "S", 300), ("list", "Txt", 10), ("list", "Txt", 300)], unions=()),
                  2, "big", 1, 1, (0, 1, 2), 5 if deep else 4)]
    if prop == "C14":
        return [m(menu([("item", "P", None), ("item", "S", None), ("string", "", None)], opts=(False,), unions=("U", "V", "W_")),
                  4 if deep else 3, "big", 2, 2, (0, 1, 2, 3, 0x80), 4 if deep else 3)]
    if prop == "C15":
        return [m(menu(ITEM + TEXT + LISTS + REST, opts=(True,), unions=()) + [mfield("x", "string", "")], 3 if deep else 2, "little", 2, 2,
                  (0, 1, 2, 0x80), 4)]
    if prop == "C16":
        return [m(menu(TEXT + [("item", "P", None)], unions=()), 2, "little", 2, 1, (0, 2, 65, 0xC3, 0xA9, 0xED, 0xF0), 4 if deep else 3,
                  ((), (65,), (195, 169), (66, 0), (237, 159, 191), (244, 143, 191, 191), (0,)))]
    out = [m(general, 2, {"C07": "big", "C09": "little", "C10": "little", "C11": "big"}[prop], 2, 1 if prop == "C09" else 0,
             (0, 1, 65, 200), 3)]
    if deep:
        out += [m(menu([("item", "S", None), ("item", "Txt", None), ("string", "", None), ("list", "Txt", 10), ("string", "", 10)]), 3, e, 1, 0)
                for e in ("little", "big")]
    return out


def messages(rep, aspects, prefixes=0, longer=0):
    rng = rep.rng
    deep = rep.tier == "thorough"
    for n, model in enumerate(message_models(rep.prop, deep)):
        ex = explore(rep, "MCWire", str(n), model)
        good = [tuple(e["seq"]) for e in ex if e["mode"] == "def" and e["ok"]]
        values = {}
        for e in ex:
            if e["mode"] == "value":
                values.setdefault(tuple(e["seq"]), []).append(e["v"])
        limit = 100000 if deep else 260
        if len(good) > limit:
            good = [s for s in good if len(s) < model["depth"]] + rng.sample([s for s in good if len(s) == model["depth"]], limit)
        cases, where = grouped(rng, model, good, message, per=25)
        p = Pipeline(rep, cases, "small-%d" % n, want="m")
        traces = []
        for c, key, s in where:
            if not c.accepted or c.foreign:
                continue
            vs = values.get(s, [])
            if not deep and len(vs) > 10:
                vs = rng.sample(vs, 10)
            todo = [{"op": "round", "v": v, "prefixes": prefixes, "longer": longer, "damaged": 0, "seed": rng.getrandbits(32)} for v in vs]
            if len(s) <= model["fed"]:
                fed = [list(b) for k in range(model["len"] + 1) for b in itertools.product(model["bytes"], repeat=k)]
                if not deep and len(fed) > 40 and len(s) > 1:
                    fed = rng.sample(fed, 16)
                elif len(fed) > 400:
                    fed = rng.sample(fed, 400)
                todo += [{"op": "dec", "b": b} for b in fed]
            traces.append({"kind": "m", "case": c, "key": key, "ops": todo})
        p.run("TraceWire", traces, aspects)
