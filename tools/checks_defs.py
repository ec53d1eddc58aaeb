"""Checks of the compiler: C17, C18, C19 and C21."""
import copy
import json
import os
import random
import re

import core
import ops
import plan
import schema
import values
from checks_gen import failing_histories, run_histories
from checks_struct import struct_traces
from checks_wire import kinds_cases, large_cases, list_traces, message_traces, union_cases, union_traces, usable
from framework import Pipeline
from plan import Case
from schema import case, enum, field, mfield, message, proto, struct, union, view


def thorough(rep):
    return rep.tier == "thorough"


# ---------------------------------------------------------------------------------------------
# Changes to definitions. The specification decides whether the result is acceptable.

def refs_of(p):
    return [x["name"] for k in ("enums", "structs", "unions", "messages") for x in p[k]] + [i["t"] for i in p["imports"]]


def mutate(rng, protos, count=1, extreme=False):
    """The definitions with some things changed."""
    protos = copy.deepcopy(protos)
    for _ in range(count):
        for _ in range(10):
            if mutate_one(rng, protos, extreme):
                break
    return protos


def mutate_one(rng, protos, extreme):
    p = rng.choice(protos)
    pool = ["nothing"] + [x["name"] for q in protos for k in ("enums", "structs", "unions", "messages") for x in q[k]]
    near = refs_of(p) or pool
    name = lambda: rng.choice(near) if rng.random() < 0.7 else rng.choice(pool)
    kind = rng.choice(["enums", "structs", "structs", "structs", "unions", "unions", "messages", "messages", "messages", "imports"])
    if not p[kind]:
        return False
    if kind == "imports":
        r = rng.random()
        i = rng.choice(p["imports"])
        if r < 0.4:
            p["imports"].remove(i)
        elif r < 0.7:
            i["t"] = "Gone" if rng.random() < 0.5 else i["t"] + "x"
        else:
            i["p"] = rng.choice([q["name"] for q in protos] + ["nowhere"])
        return True
    d = rng.choice(p[kind])
    if kind == "enums":
        r = rng.random()
        if r < 0.2 or not d["variants"]:
            d["variants"] = []
        elif r < 0.5 and len(d["variants"]) > 1:
            a, b = rng.sample(d["variants"], 2)
            a["v"] = list(b["v"])
        else:
            v = rng.choice([rng.getrandbits(rng.choice([1, 4, 8, 16, 33, 63, 64])), 2 ** 63, 2 ** 63 - 1])
            rng.choice(d["variants"])["v"] = schema.word(v)
        return True
    # the order of declarations
    if rng.random() < 0.1 and len(p[kind]) > 1:
        rng.shuffle(p[kind])
        return True
    if kind == "structs":
        fields = d["fields"]
        if not fields or rng.random() < 0.05:
            d["fields"] = [] if fields else [field("nf", "unsigned", 8)]
            return True
        f = rng.choice(fields)
        r = rng.random()
        if r < 0.2:
            f["bits"] = rng.choice([0, 1, 2, 7, 8, 9, 12, 16, 24, 31, 32, 33, 40, 63, 64, 65, 128, f["bits"] + 1, max(f["bits"] - 1, 0)])
            if extreme:
                f["bits"] = rng.choice([f["bits"], 2 ** 16, 2 ** 32, 2 ** 53, 2 ** 63, 255, 256, 1000])
        elif r < 0.35:
            f["t"] = rng.choice(["signed", "unsigned", "float", "boolean", "struct"])
            if f["t"] == "struct" and not f["ref"]:
                f["ref"] = name()
            if f["t"] != "struct":
                f["ref"] = ""
                f["bits"] = f["bits"] or rng.choice([8, 32, 5])
        elif r < 0.5:
            f["len"] = rng.choice([[], [0], [1], [2], [3], [8], [100]])
            if extreme:
                f["len"] = [rng.choice([0, 1, 2, 1000])]
        elif r < 0.65:
            f["view"] = rng.choice([schema.NO_VIEW, view("enum", ref=name()), schema.rand_view(rng, 8), schema.rand_view(rng, 8),
                                    view("range", a=3, b=3), view("mult", a=0)])
            f["view"] = dict(f["view"])
        elif r < 0.75:
            if f["t"] == "struct":
                f["ref"] = name()
            elif f["view"]["t"] == "enum":
                f["view"]["ref"] = name()
            else:
                return False
        elif r < 0.85:
            fields.remove(f)
        elif r < 0.93:
            rng.shuffle(fields)
        else:
            fields.insert(rng.randint(0, len(fields)), field("nf%d" % rng.getrandbits(30), rng.choice(["unsigned", "signed", "boolean"]),
                                                             rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 13])))
        return True
    if kind == "unions":
        r = rng.random()
        cs = d["cases"]
        if r < 0.1:
            d["cases"] = []
        elif r < 0.3 and cs:
            c = rng.choice(cs)
            t = rng.choice(["0", "-1", "1", "255", "256", "-128", "-129", "128", "18446744073709551615", "18446744073709551616",
                            "9223372036854775807", "9223372036854775808", "-9223372036854775808", "x", "", "+1", "1.0", " 1", "V0",
                            "0x1", "true", "01", "1e0", "--1", "+", "-", "-0", rng.choice(cs)["c"]])
            c["c"], c["cc"] = t, [ord(x) for x in t]
        elif r < 0.5 and cs:
            rng.choice(cs)["ref"] = name()
        elif r < 0.6 and cs:
            cs.remove(rng.choice(cs))
        elif r < 0.7:
            d["disc"] = d["disc"][:-1] or [name()]
        elif r < 0.8:
            d["disc"] = d["disc"] + [rng.choice(["f1", "x", "", "f2"])]
        elif r < 0.9:
            d["disc"] = [name()] + d["disc"][1:]
        else:
            d["disc"] = d["disc"][:-1] + [rng.choice(["f1", "f2", "f3", "f4", "nope", ""])]
        return True
    fields = d["fields"]
    if not fields:
        d["fields"] = [mfield("nf", rng.choice(["payload", "string"]))]
        return True
    f = rng.choice(fields)
    r = rng.random()
    if r < 0.1:
        f["opt"] = not f["opt"]
    elif r < 0.3:
        fields.insert(rng.randint(0, len(fields)),
                      rng.choice([mfield("nf%d" % rng.getrandbits(30), "payload"), mfield("nf%d" % rng.getrandbits(30), "string"),
                                  mfield("nf%d" % rng.getrandbits(30), "list", ref=name(), max=rng.choice(schema.MAXIMA)),
                                  mfield("nf%d" % rng.getrandbits(30), "item", ref=name()),
                                  mfield("nf%d" % rng.getrandbits(30), "item", ref=name(), opt=True)]))
    elif r < 0.45:
        rng.shuffle(fields)
    elif r < 0.6:
        fields.remove(f)
    elif r < 0.75:
        if f["t"] not in ("item", "list", "union"):
            return False
        f["ref"] = name()
    elif r < 0.85:
        if f["t"] != "union":
            return False
        f["on"] = rng.choice([x["name"] for x in fields] + ["nope"])
    else:
        f["t"] = rng.choice(["item", "list", "union", "string", "payload"])
        f["max"], f["on"] = [], ""
        if f["t"] in ("item", "list", "union"):
            f["ref"] = f["ref"] or name()
            f["on"] = rng.choice([x["name"] for x in fields]) if f["t"] == "union" else ""
        else:
            f["ref"] = ""
        if f["t"] == "list" or (f["t"] == "string" and rng.random() < 0.5):
            f["max"] = [schema.word(rng.choice(schema.MAXIMA))]
    return True


def reserved(protos):
    """Definitions which are out of scope: two definitions or fields of the same name."""
    for p in protos:
        names = refs_of(p)
        if len(set(names)) != len(names):
            return True
        for k in ("structs", "messages"):
            for d in p[k]:
                fs = [f["name"] for f in d["fields"]]
                if len(set(fs)) != len(fs) or (k == "messages" and any(f["t"] == "list" and f["name"] == "offsets" for f in d["fields"])):
                    return True
    return False


def mutants(rng, n, count=(1, 2), extreme=False, **kw):
    out = []
    while len(out) < n:
        protos = schema.rand_protos(rng, **kw)
        for _ in range(4):
            m = mutate(rng, protos, rng.randint(*count), extreme)
            if not reserved(m):
                out.append(Case(m))
    return out[:n]


# ---------------------------------------------------------------------------------------------
# C17

def sites(where):
    """Definitions with a reference of every kind; where: kind of type -> its name."""
    plain = [field("k", "unsigned", 3), field("x", "unsigned", 5)]
    own = lambda: struct("Own", [dict(f) for f in plain])
    yield "nested", dict(structs=[struct("R", [field("a", "unsigned", 8), field("b", "struct", ref=where("structs"))])])
    yield "view", dict(structs=[struct("R", [field("a", "unsigned", 8, v=view("enum", ref=where("enums")))])])
    yield "root", dict(unions=[union("R", where("structs") + ".k", [case("A", "1")])])
    yield "case struct", dict(structs=[own()], unions=[union("R", "Own.k", [case("A", "1", where("structs"))])])
    yield "case message", dict(structs=[own()], unions=[union("R", "Own.k", [case("A", "1", where("messages"))])])
    yield "item struct", dict(messages=[message("R", [mfield("a", "string"), mfield("b", "item", where("structs"))])])
    yield "item message", dict(messages=[message("R", [mfield("b", "item", where("messages")), mfield("c", "string", opt=True)])])
    yield "optional struct", dict(messages=[message("R", [mfield("b", "item", where("structs"), opt=True)])])
    yield "array", dict(messages=[message("R", [mfield("b", "list", where("structs"), max=10)])])
    yield "list", dict(messages=[message("R", [mfield("b", "list", where("messages"), max=1000)])])
    # the root of the union has to be visible too
    yield "union", dict(messages=[message("R", [mfield("d", "item", "D"), mfield("b", "union", where("unions"), on="d")])])


def targets():
    """One definition of every kind, with everything it is made of; T is the one which is referred to."""
    d = struct("D", [field("k", "unsigned", 4), field("y", "signed", 12)])
    return {
        "enums": dict(enums=[enum("Tgt", [("A", 1), ("B", 3)])]),
        "structs": dict(structs=[struct("Tgt", [field("k", "unsigned", 2), field("x", "signed", 6), field("z", "unsigned", 16)])]),
        "messages": dict(messages=[message("Tgt", [mfield("s", "string"), mfield("t", "string", max=10)])]),
        "unions": dict(structs=[d], unions=[union("Tgt", "D.k", [case("A", "1"), case("B", "2", "D")])]),
    }


def vary(d, kind):
    """Changes a target."""
    if kind == "enums":
        d["variants"] = enum("x", [("B", 2), ("A", 1), ("C", 6)])["variants"]
    elif kind == "structs":
        d["fields"] = [field("x", "signed", 6), field("k", "unsigned", 3), field("y", "unsigned", 15)]
    else:
        d["fields"] = [mfield("t", "string", max=1000), mfield("u", "string", opt=True)]


def registered_again(rng):
    """Protocols of the same name which are registered one after the other: the latest counts."""
    cases = []
    for kind in ("enums", "structs", "messages"):
        with_ = proto("b")
        with_.update(copy.deepcopy(targets()[kind]))
        without = proto("b", structs=[struct("Other", [field("x", "unsigned", 8)])])
        for t, protos in (("Tgt", [with_, without]), ("Tgt", [without, with_]), ("Other", [with_, without]), ("Other", [without, with_])):
            p = proto("p", imports=[("b", t)], structs=[struct("L", [field("a", "unsigned", 3)])])
            cases.append(Case(protos + [p], sessions=[([0, 1], [2])]))
            cases.append(Case(protos + [p], sessions=[([0, 1, 0], [2])]))
        # a type which fits or doesn't, depending on which one is used
        for first, second in ((8, 5), (5, 8)):
            a, b = [proto("b", structs=[struct("Tgt", [field("k", "unsigned", n)])]) for n in (first, second)]
            us = [union("U", "Tgt.k", [case("A", "200")])]
            cases.append(Case([a, b, proto("p", imports=[("b", "Tgt")], unions=us)], sessions=[([0, 1], [2])]))
    return cases


def merged(first, second, name, endian):
    p = proto(name, endian)
    for k in ("enums", "structs", "unions", "messages"):
        p[k] = copy.deepcopy(first.get(k, [])) + copy.deepcopy(second.get(k, []))
    return p


def reference_cases(rng):
    cases = []
    for other in ("enums", "structs", "unions", "messages"):
        used = set()

        def where(kind):
            used.add(kind)
            return "Tgt"
        for site, d in list(sites(where)):
            t = targets()[other]
            for e in ("little", "big"):
                base = proto("b", rng.choice(schema.ENDIANS))
                base.update(copy.deepcopy(t))
                needs = [("b", "D")] if other == "unions" else []
                # a root structure for the union site which isn't the union's own
                extra = dict(structs=[struct("D", [field("k", "unsigned", 4)])]) if site == "union" and other != "unions" else {}
                # earlier and later in the same protocol
                cases.append(Case([merged(merged(t, extra, "p", e), d, "p", e)]))
                cases.append(Case([merged(merged(d, extra, "p", e), t, "p", e)]))
                # imported, through one or two protocols
                p = merged(extra, d, "p", e)
                p["imports"] = [{"p": a, "t": b} for a, b in [("b", "Tgt")] + needs]
                cases.append(Case([base, p]))
                cases.append(Case([base, p], alias=True))
                mid = proto("m", rng.choice(schema.ENDIANS), imports=[("b", "Tgt")] + needs)
                p2 = dict(copy.deepcopy(p), imports=[{"p": "m", "t": b} for b in ["Tgt"] + [x[1] for x in needs]])
                cases.append(Case([base, mid, p2]))
                cases.append(Case([base, mid, p2], alias=True))
                # registered too late, never, or loaded only
                cases.append(Case([base, p], sessions=[([], [0]), ([], [1])]))
                cases.append(Case([base, p], sessions=[([1, 0], [])]))
                cases.append(Case([base, p], sessions=[([], [0, 1])]))
                cases.append(Case([base, mid, p2], sessions=[([0], [0]), ([0], [1]), ([0, 1], [2])]))
                cases.append(Case([base, mid, p2], sessions=[([1], [2])]))
                # not imported
                cases.append(Case([base, dict(copy.deepcopy(p), imports=[{"p": a, "t": b} for a, b in needs])]))
                # imports of what isn't there
                cases.append(Case([base, dict(copy.deepcopy(p), imports=p["imports"] + [{"p": "b", "t": "U"}])]))
                cases.append(Case([base, dict(copy.deepcopy(p), imports=[{"p": "q", "t": "Tgt"}])]))
                # two types of the same name: the one imported last counts
                if other != "unions":
                    two = dict(copy.deepcopy(base), name="b2", endian=rng.choice(schema.ENDIANS))
                    vary(two[other][0], other)
                    for order in (["b", "b2"], ["b2", "b"], ["b", "b2", "b"]):
                        cases.append(Case([base, two, dict(copy.deepcopy(p), imports=[{"p": x, "t": "Tgt"} for x in order])]))
    # undefined altogether
    for site, d in list(sites(lambda kind: "Tgt")):
        p = merged(dict(structs=[struct("D", [field("k", "unsigned", 4)])]) if site == "union" else {}, d, "p", "")
        cases.append(Case([p]))
    return cases


def reexport(rng, protos):
    """Some imports go through a protocol which imports the same type."""
    for k, p in enumerate(protos):
        for i in p["imports"]:
            via = [q["name"] for q in protos[:k] if any(j == i for j in q["imports"])]
            if via and rng.random() < 0.5:
                i["p"] = rng.choice(via)
    return protos


def same_names(rng):
    """Several protocols which have different types of the same names, and one which uses some of them."""
    protos = []
    for k in range(rng.choice([2, 3])):
        q = schema.rand_protos(rng, count=1, messages=(1, 2), unions=(0, 1))[0]
        q["name"] = "b%d" % k
        protos.append(q)
    for k in range(rng.choice([1, 2])):
        names, imports = {}, []
        todo = [(q["name"], kind, x) for q in protos[:] for kind in ("enums", "structs", "unions", "messages") for x in q[kind]
                if q["name"].startswith("b")]
        rng.shuffle(todo)
        scope = schema.Scope()
        for pn, kind, x in todo[:rng.randint(2, 8)]:
            if x["name"] not in names:
                names[x["name"]] = pn
                imports.append((pn, x["name"]))
        structs = [n for n in names if n.startswith("S")]
        messages = [n for n in names if n.startswith("M")]
        enums = [n for n in names if n.startswith("E")]
        ss = [struct("X%d" % i, [field("a", "unsigned", 8), field("b", "struct", ref=n), field("p", "unsigned", 64)])
              for i, n in enumerate(structs)]
        # nothing after a structure may share its last byte
        for s, n in zip(ss, structs):
            s["fields"] = [s["fields"][0], s["fields"][1]]
        ss += [struct("Y%d" % i, [field("e", "unsigned", 63, v=view("enum", ref=n))]) for i, n in enumerate(enums)]
        ss.append(struct("Disc", [field("k", "unsigned", 3), field("r", "unsigned", 5)]))
        us = [union("Pick", "Disc.k", [case("C%d" % i, str(i), n) for i, n in enumerate((structs + messages)[:6])] + [case("None", "7")])]
        ms = [message("Z", [mfield("s%d" % i, "item", n, opt=rng.random() < 0.3) for i, n in enumerate(structs + [s["name"] for s in ss])]
                      + [mfield("a%d" % i, "list", n, max=10) for i, n in enumerate(structs)])]
        ms += [message("N%d" % i, [mfield("m", "item", n)]) for i, n in enumerate(messages)]
        ms.append(message("V", [mfield("d", "item", "Disc"), mfield("u", "union", "Pick", on="d")]))
        protos.append(proto("c%d" % k, rng.choice(schema.ENDIANS), imports, [], ss, us, ms))
    return protos


def both_ways(rng):
    """The same definitions in one protocol and spread over several."""
    e = rng.choice(schema.ENDIANS)
    spread = schema.rand_protos(rng, count=rng.choice([2, 3]), messages=(1, 3))
    for p in spread:
        p["endian"] = e
    one = proto("all", e)
    for k in ("enums", "structs", "unions", "messages"):
        for p in spread:
            one[k] += copy.deepcopy(p[k])
    return [spread, [one]]


def all_traces(rng, p, k=1, structs=1):
    good = usable(p)
    out = message_traces(rng, good, rounds=3 * k, damaged=1, decs=k) + union_traces(rng, good, count=5 * k)
    return struct_traces(rng, p.usable, reps=structs * k, per_leaf=2), out


def c17(rep):
    rng = rep.rng
    k = 6 if thorough(rep) else 1
    cases = reference_cases(rng)
    p = Pipeline(rep, cases, "references", verdicts=lambda x: True, kinds=True)
    s, m = all_traces(rng, p)
    p.run("TraceStruct", s, {"layout", "rt", "typed", "enumtyped", "enumrt", "panic", "sizes"})
    p.run("TraceWire", m, {"bytes", "round", "value", "panic", "refuse"})
    cases = [Case(reexport(rng, schema.rand_protos(rng, count=rng.choice([2, 3, 3, 4, 5]))), alias=rng.random() < 0.5)
             for _ in range(35 * k)]
    cases += [Case(same_names(rng), alias=rng.random() < 0.3) for _ in range(25 * k)]
    cases += [Case(x) for _ in range(8 * k) for x in both_ways(rng)]
    p = Pipeline(rep, cases, "random", verdicts=lambda x: True)
    s, m = all_traces(rng, p)
    p.run("TraceStruct", s, {"layout", "rt", "typed", "enumtyped", "enumrt", "panic", "sizes"})
    p.run("TraceWire", m, {"bytes", "round", "value", "panic", "refuse"})
    # references which may be wrong
    cases = []
    for _ in range(150 * k):
        protos = schema.rand_protos(rng, count=rng.choice([2, 3, 4]))
        m = copy.deepcopy(protos)
        wrong_reference(rng, m)
        if not reserved(m):
            cases.append(Case(m))
    cases += registered_again(rng) + resembling_references(rng, 300 * k)
    Pipeline(rep, cases, "wrong", verdicts=lambda x: True, kinds=True, drivers=False)
    from checks_api import solver_paths
    solver_paths(rep)


def places_of(protos):
    """The places which name something else."""
    places = []
    for p in protos:
        places += [(p, i, "t") for i in p["imports"]] + [(p, i, "p") for i in p["imports"]]
        for s in p["structs"]:
            places += [(p, f, "ref") for f in s["fields"] if f["ref"]]
            places += [(p, f["view"], "ref") for f in s["fields"] if f["view"]["ref"]]
        for u in p["unions"]:
            places += [(p, u["disc"], k) for k in range(len(u["disc"]))] + [(p, c, "ref") for c in u["cases"] if c["ref"]]
            places += [(p, c, "c") for c in u["cases"]]
        for m in p["messages"]:
            places += [(p, f, "ref") for f in m["fields"] if f["ref"]] + [(p, f, "on") for f in m["fields"] if f["on"]]
    return places


def resembling(name):
    """Names which are almost the same."""
    out = [name.lower(), name.upper(), name.swapcase(), name.capitalize(), name + "_", "_" + name, name[:-1], name[1:], name + name,
           " " + name, name + " ", name + "." + name, "x::" + name, ""]
    return [v for v in dict.fromkeys(out) if v != name]


def change(p, d, k, v):
    d[k] = v
    if k == "c":
        d["cc"] = [ord(x) for x in v]
    if k == "t":
        # two imports of the same name are out of scope
        p["imports"] = [i for n, i in enumerate(p["imports"]) if all(i["t"] != j["t"] for j in p["imports"][:n])]


def resembling_references(rng, n):
    """Every reference of some definitions, replaced by names which resemble it; the fields unions depend on under every name."""
    cases, always = [], []
    while len(cases) < n:
        protos = schema.rand_protos(rng, count=2, unions=(1, 2), messages=(2, 3), kinds=["union", "struct", "msg", "array", "list"])
        if not any(f["on"] for p in protos for m in p["messages"] for f in m["fields"]):
            continue
        count = len(places_of(protos))
        for j in range(count):
            d, k = places_of(protos)[j][1:]
            if k == "c" and rng.random() < 0.8:
                continue
            names = resembling(d[k])
            every = k == "on" and len(always) < 24
            for v in names if every else rng.sample(names, min(len(names), 5)):
                m = copy.deepcopy(protos)
                change(*places_of(m)[j], v)
                (always if every else cases).append(Case(m))
    return always + rng.sample(cases, n - len(always))


def wrong_reference(rng, protos):
    """Changes one reference to any other name."""
    places = [v for v in places_of(protos) if v[2] != "c"]
    if not places:
        return
    p, d, k = rng.choice(places)
    every = [x["name"] for q in protos for kind in ("enums", "structs", "unions", "messages") for x in q[kind]]
    change(p, d, k, rng.choice([q["name"] for q in protos] + ["none"]) if k == "p" else
           rng.choice(every + refs_of(p) + ["Nope"] + resembling(d[k])))


# ---------------------------------------------------------------------------------------------
# C18

def base_protos():
    """What the enumerated definitions refer to."""
    b = proto("b0", "little", enums=[enum("E", [("V0", 0), ("V5", 5)])],
              structs=[struct("S", [field("k", "unsigned", 2), field("x", "unsigned", 6)]),
                       struct("P", [field("v", "unsigned", 16)]),
                       struct("Empty", []),
                       struct("Part", [field("a", "unsigned", 3)])],
              messages=[message("Fix", [mfield("s", "item", "S")]),
                        message("Text", [mfield("t", "string")]),
                        message("Rest", [mfield("p", "payload")]),
                        message("Many", [mfield("l", "list", "Text", max=10)])])
    u = proto("b1", "little", imports=[("b0", x) for x in ("E", "S", "P", "Empty", "Part", "Fix", "Text", "Rest", "Many")],
              unions=[union("Uf", "S.k", [case("A", "0", "Fix"), case("B", "1")]),
                      union("Ut", "S.k", [case("A", "0", "Text")]),
                      union("Ur", "S.k", [case("A", "0", "Rest"), case("B", "3", "S")])])
    return b, u


def alternatives():
    """Fields the enumerated definitions are made of."""
    structs = [field("f", t, n, length=k) for t in ("unsigned", "signed") for n in (3, 5, 8, 12) for k in (None, 2)]
    structs += [field("f", "unsigned", 0), field("f", "unsigned", 65), field("f", "unsigned", 8, length=0), field("f", "float", 16),
                field("f", "float", 32), field("f", "boolean", 1), field("f", "unsigned", 16, length=1),
                field("f", "unsigned", 3, v=view("enum", ref="E")), field("f", "unsigned", 2, v=view("enum", ref="E")),
                field("f", "signed", 8, v=view("enum", ref="E")), field("f", "unsigned", 8, v=view("enum", ref="S")),
                field("f", "float", 12, v=view("range", a=0, b=1)), field("f", "float", 8, v=view("mult", a=3, k=1)),
                field("f", "unsigned", 8, v=view("mult", a=3, k=1)), field("f", "float", 8, length=2, v=view("range", a=0, b=1)),
                field("f", "struct", ref="S"), field("f", "struct", ref="Part"), field("f", "struct", ref="Empty"),
                field("f", "struct", ref="E"), field("f", "struct", ref="S", length=2)]
    messages = []
    for o in (False, True):
        messages += [mfield("f", "item", "S", opt=o), mfield("f", "item", "Empty", opt=o), mfield("f", "item", "Text", opt=o),
                     mfield("f", "item", "Rest", opt=o), mfield("f", "item", "Many", opt=o), mfield("f", "string", opt=o),
                     mfield("f", "list", "S", max=3, opt=o), mfield("f", "list", "Text", max=300, opt=o), mfield("f", "payload", opt=o)]
    messages += [mfield("f", "item", "P"), mfield("f", "item", "Fix"), mfield("f", "item", "Nope"), mfield("f", "list", "Rest", max=3),
                 mfield("f", "list", "Many", max=3), mfield("f", "list", "Empty", max=3), mfield("f", "string", max=70000),
                 mfield("f", "union", "Uf", on="f1"), mfield("f", "union", "Ut", on="f1"), mfield("f", "union", "Ur", on="f1"),
                 mfield("f", "union", "Ur", on="f2"), mfield("f", "union", "S", on="f1")]
    return structs, messages


def renamed(f, k):
    return dict(copy.deepcopy(f), name="f%d" % k)


def enumerated(rep, what, depth):
    """All definitions made of up to depth of the alternatives, by the model checker, into the real compiler."""
    b, u = base_protos()
    structs, messages = alternatives()
    alts = structs if what == "struct" else messages
    work = os.path.join(rep.work, "enum-" + what)
    os.makedirs(work)
    path = os.path.join(work, "model.json")
    with open(path, "w") as f:
        json.dump({"base": [b, u], "what": what, "alts": alts, "depth": depth,
                   "imports": [{"p": "b1", "t": x} for x in ("E", "S", "P", "Empty", "Part", "Fix", "Text", "Rest", "Many", "Uf", "Ut", "Ur")]}, f)
    r = core.tlc("MCCompiler", work, variables={"MODEL": path})
    if not r.ok:
        raise core.ToolError("MCCompiler: " + r.error())
    rep.add_tlc(r, "model: MCCompiler " + what)
    b_file, u_file = os.path.join(work, "b0.json5"), os.path.join(work, "b1.json5")
    for f, x in ((b_file, b), (u_file, u)):
        with open(f, "w") as o:
            o.write(schema.to_text(x))
    sessions = []
    os.makedirs(os.path.join(work, "d"))
    protos = []
    for n, e in enumerate(r.exports):
        fs = [renamed(alts[i - 1], k) for k, i in enumerate(e["seq"], 1)]
        p = proto("p", "little", imports=[("b1", x) for x in ("E", "S", "P", "Empty", "Part", "Fix", "Text", "Rest", "Many", "Uf", "Ut", "Ur")])
        p["structs" if what == "struct" else "messages"] = [{"name": "X", "fields": fs}]
        protos.append(p)
        file = os.path.join(work, "d", "%d.json5" % n)
        with open(file, "w") as o:
            json.dump(schema.to_definition(p), o)
        sessions.append({"sessions": [{"imports": [[b_file, "crate::b0"], [u_file, "crate::b1"]], "loads": [file],
                                       "opts": {"reads": True, "writes": True}, "out": os.path.join(work, "out")}]})
    got = compile_scripts(sessions, work)
    rep.traces += len(got)
    rep.evaluations += len(got)
    for e, g, p in zip(r.exports, got, protos):
        want = "ok" if e["ok"] else "err"
        if g[0]["res"] != want:
            rep.violation("verdict", "the compiler answers %s where the specification says %s (%s) %s" % (
                g[0]["res"], want, e["why"], g[0].get("text", "")), {"protocols": [schema.to_definition(x) for x in (b, u, p)],
                                                                     "observed": g[0]})
    rep.note("model: MCCompiler %s: definitions compiled" % what, len(got))


def compile_scripts(script, work):
    """Results of scripts of the compile driver."""
    shares = [list(range(k, len(script), core.CPUS)) for k in range(core.CPUS)]
    out = [None] * len(script)

    def run(k):
        if shares[k]:
            path = os.path.join(work, "script-%d.json" % k)
            with open(path, "w") as f:
                json.dump([dict(script[i], sessions=[dict(s, out=s["out"] + "-%d" % k) for s in script[i]["sessions"]])
                           for i in shares[k]], f)
            res, lost = core.run_script([core.driver_path(), "compile", path], len(shares[k]))
            for j, i in enumerate(shares[k]):
                out[i] = res[j] if res[j] is not None else [{"res": "panic", "text": lost[j]} for _ in script[i]["sessions"]]
    core.parallel(run, range(core.CPUS))
    return out


def rule_cases(rng):
    """The limits of every rule."""
    s = struct("S", [field("k", "unsigned", 2), field("x", "signed", 6), field("b", "boolean", 1), field("f", "float", 7, v=view("range", b=1)),
                     field("g", "float", 32), field("a", "unsigned", 8, length=2), field("e", "unsigned", 8, v=view("enum", ref="E")),
                     field("n", "struct", ref="N")])
    n = struct("N", [field("i", "signed", 64), field("u", "unsigned", 64), field("m", "struct", ref="O")])
    o = struct("O", [field("w", "unsigned", 1), field("z", "signed", 1)])
    flat = struct("Flat", [field("v", "unsigned", 8)])
    e = enum("E", [("A", 1), ("B", 200), ("1", 3)])
    cases = []
    structs = [o, n, s, flat]
    texts = ["0", "1", "2", "3", "4", "-1", "-0", "+0", "31", "32", "-32", "-33", "A", "B", "C", "", "1 ", "200", "255", "256",
             "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615",
             "18446744073709551616", "true", "false", "0.0", "0b1", "\u0661"]
    paths = ["S.k", "S.x", "S.b", "S.f", "S.g", "S.a", "S.e", "S.n", "S.n.i", "S.n.u", "S.n.m", "S.n.m.w", "S.n.m.z", "S", "", "S.",
             ".k", "S.k.k", "S..k", "S.n.i.x", "S.q", "S.n.q", "Q.k", "s.k", "E", "E.A", "Flat.v", "S.n.m.w."]
    for path in paths:
        for t in texts if path in ("S.k", "S.x", "S.b", "S.e", "S.n.i", "S.n.u", "S.n.m.z", "Flat.v") else ["0", "A"]:
            cases.append(Case([proto("p", "", [], [e], structs, [union("U", path, [case("X", t)])])]))
    for a, b in (("1", "1"), ("1", "+1"), ("1", "01"), ("0", "-0"), ("0", "1"), ("-1", "1"), ("-1", "-1"), ("63", "-1")):
        for path in ("S.k", "S.x", "S.n.i"):
            cases.append(Case([proto("p", "", [], [e], structs, [union("U", path, [case("X", a), case("Y", b, "O")])])]))
    # fields unions depend on
    u = union("U", "S.k", [case("X", "1", "O"), case("Y", "2")])
    uf = union("F", "Flat.v", [case("X", "1")])
    other = struct("Other", s["fields"])
    for on, ref, extra in (("a", "U", []), ("b", "U", []), ("c", "U", []), ("d", "U", []), ("e", "U", []), ("f", "U", []), ("z", "U", []), ("u", "U", []),
                           ("a", "S", []), ("f", "F", []), ("a", "F", []), ("g", "U", []), ("t", "U", [])):
        fields = [mfield("a", "item", "S"), mfield("b", "item", "S", opt=True), mfield("c", "item", "Other"), mfield("d", "list", "S", max=3),
                  mfield("e", "item", "O"), mfield("f", "item", "Flat"), mfield("t", "string")]
        for at in (7, 0, 1):
            fs = list(fields)
            fs.insert(at, mfield("u", "union", ref, on=on))
            cases.append(Case([proto("p", "", [], [e], structs + [other], [u, uf], [message("M", fs + extra)])]))
    # structures of the same name
    far = proto("b", "", [], [e], structs, [u, uf])
    twin = proto("c", "", [], [e], structs)
    for imports, local in (([("b", "U"), ("b", "F")], structs), ([("b", "U"), ("b", "F"), ("b", "S"), ("b", "Flat")], [o]),
                           ([("b", "U"), ("b", "F"), ("c", "S"), ("c", "Flat")], [o]), ([("c", "S"), ("c", "Flat"), ("b", "U"), ("b", "F")], [o]),
                           ([("b", "U"), ("b", "F"), ("c", "S")], [o, flat]), ([("c", "S"), ("b", "F"), ("b", "Flat"), ("b", "U")], [o])):
        for ref, item in (("U", "S"), ("F", "Flat"), ("F", "S"), ("U", "Flat")):
            enums = [e] if local == structs else []
            cases.append(Case([far, twin, proto("p", "", imports, enums, local, [], [message("M", [
                mfield("d", "item", item), mfield("u", "union", ref, on="d")])])]))
    # what follows payloads and lists
    base = [message("Text", [mfield("t", "string")]), message("Fix", [mfield("s", "item", "S")]), message("Rest", [mfield("p", "payload")]),
            message("Deep", [mfield("f", "item", "Fix"), mfield("r", "item", "Rest")]), message("Many", [mfield("l", "list", "Text", max=10)]),
            message("DeepMany", [mfield("m", "item", "Many")])]
    b = proto("b", "", [], [e], structs, [], base)
    names = ["E", "S", "O", "Flat"] + [m["name"] for m in base]
    us = [union("U%s" % m, "S.k", [case("A", "0", m), case("B", "1")]) for m in ("Text", "Fix", "Rest", "Deep", "Many", "DeepMany")]
    firsts = [mfield("x", "payload"), mfield("x", "payload", opt=True), mfield("x", "item", "Rest"), mfield("x", "item", "Rest", opt=True),
              mfield("x", "item", "Deep"), mfield("x", "list", "Text", max=3), mfield("x", "list", "Fix", max=3), mfield("x", "list", "S", max=3),
              mfield("x", "item", "Many"), mfield("x", "item", "DeepMany"), mfield("x", "item", "Many", opt=True), mfield("x", "string"),
              mfield("x", "list", "Rest", max=3), mfield("x", "list", "Deep", max=3), mfield("x", "list", "Many", max=3),
              mfield("x", "list", "DeepMany", max=3)]
    firsts += [mfield("x", "union", x["name"], on="d") for x in us]
    seconds = [None] + [dict(f, name="y") for f in firsts] + [mfield("y", "item", "S"), mfield("y", "item", "Flat"), mfield("y", "item", "Fix"),
                                                              mfield("y", "item", "Text"), mfield("y", "string", max=3)]
    for f in firsts:
        for g in seconds:
            fs = [mfield("d", "item", "S"), f] + ([g] if g else [])
            cases.append(Case([b, proto("p", "", [("b", x) for x in names], [], [], us, [message("M", fs)])]))
    # widths and lengths
    for t in ("unsigned", "signed", "float", "boolean"):
        for w in (0, 1, 8, 31, 32, 33, 63, 64, 65, 66, 128, 1000):
            for k in (None, 0, 1, 2):
                for v in (schema.NO_VIEW, view("range", b=1), view("mult", a=1), view("enum", ref="E"), view("range", a=1, b=1), view("mult")):
                    if v["t"] != "none" and rng.random() < 0.5:
                        continue
                    cases.append(Case([proto("p", "", [], [e], [struct("S", [field("x", t, w, length=k, v=dict(v))])])]))
    for vs in ([], [("A", 0)], [("A", 2 ** 63)], [("A", 1), ("B", 1)], [("A", 2), ("B", 1)]):
        cases.append(Case([proto("p", "", [], [enum("E", vs)])]))
    for k in (None, 0, 1, 2):
        for v in (schema.NO_VIEW, view("range", b=1), view("enum", ref="E")):
            cases.append(Case([proto("p", "", [], [e], [o, struct("X", [field("x", "struct", ref="O", length=k, v=dict(v))])])]))
    return cases


def c18(rep):
    rng = rep.rng
    k = 8 if thorough(rep) else 1
    enumerated(rep, "struct", 3 if thorough(rep) else 2)
    enumerated(rep, "message", 3)
    yes = lambda x: True
    Pipeline(rep, rule_cases(rng), "rules", verdicts=yes, drivers=False)
    cases = mutants(rng, 1200 * k, count=(1, 2), wild=0.05, unions=(0, 3))
    cases += [Case(schema.rand_protos(rng, wild=0.35, unions=(1, 3))) for _ in range(250 * k)]
    cases += [Case(mutate(rng, c.protos, 1)) for c in union_cases(rng) for _ in range(6 * k)]
    cases += resembling_references(rng, 200 * k)
    cases = [c for c in cases if not reserved(c.protos)]
    Pipeline(rep, cases, "changed", verdicts=yes, drivers=False)


# ---------------------------------------------------------------------------------------------
# C19

ODD = [0, 1, -1, 7, 8, 64, 65, 255, 256, 65535, 65536, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 1e300,
       -2 ** 63, 0.5, -0.0, "1", "", None, True, [], {}]
WORDS = ["", ".", "..", "a.b", "\u00e9", "\u0130x", "\u1e9e", "fn", "x y", "\n", "\u0000", "\U0001F600", "{}", "{x}", "Self", "a" * 300, "1", "-1",
         "S", "S.", ".S", "S.k", "unsigned", "\ufb01x", "\u01c6"]


def odd_document(rng, p):
    """A definition with arbitrary things in some places."""
    d = schema.to_definition(p)
    places = []

    def walk(x):
        if isinstance(x, dict):
            for k in x:
                places.append((x, k))
                walk(x[k])
        elif isinstance(x, list):
            for k in range(len(x)):
                places.append((x, k))
                walk(x[k])
    for _ in range(rng.choice([1, 1, 2, 4])):
        places.clear()
        walk(d)
        x, k = rng.choice(places)
        r = rng.random()
        if isinstance(x[k], bool) or (isinstance(x[k], (int, float)) and r < 0.8):
            x[k] = rng.choice(ODD)
        elif isinstance(x[k], str) and r < 0.8:
            x[k] = rng.choice(WORDS)
        elif r < 0.3:
            x[k] = rng.choice(ODD)
        elif r < 0.4 and isinstance(x, dict):
            del x[k]
        elif r < 0.6 and isinstance(x[k], list):
            x[k] = x[k] * 2 if rng.random() < 0.5 else []
        elif r < 0.8 and isinstance(x, list):
            del x[k]
        elif isinstance(x, dict):
            x[k + rng.choice(["x", " ", "_"])] = x[k]
    if d.get("name", "").startswith("/"):
        d["name"] = "p0"
    return d


def number_text(v):
    return json.dumps(v)


def odd_texts(rng, protos, n):
    """Files which may not be definitions at all."""
    out = ["", " ", "{", "}", "[]", "null", "1", "\"x\"", "{}", "{name:'a'}", "{name:1}", "// c\n{name:'a',}", "{name:'a',structs:[,]}",
           "{name:'a',endianness:'middle'}", "{name:'a',endianness:'Big'}", "{name: 'a', structs: {}}", "[" * 100, "{name:'a',x:" * 30,
           "{name:'\\ud800'}", "{name:'a', enums:[{name:'E',variants:{A:1,A:1}}]}", "{name:'a', enums:[{name:'E',variants:{A:-1}}]}",
           "{name:'a', enums:[{name:'E',variants:{A:NaN}}]}", "{name:'a', enums:[{name:'E',variants:{A:Infinity}}]}",
           "{name:'a', structs:[{name:'S',fields:[{name:'x',info:{type:'unsigned'}}]}]}",
           "{name:'a', structs:[{name:'S',fields:[{name:'x',info:{type:'unsigned',bits:0x10}}]}]}",
           "{name:'a', structs:[{name:'S',fields:[{name:'x',info:{type:'float',bits:32},view:{type:'float-range',min:NaN,max:1}}]}]}",
           "{name:'a', structs:[{name:'S',fields:[{name:'x',info:{type:'float',bits:32},view:{type:'float-range',min:-Infinity,max:Infinity}}]}]}",
           "{name:'a', structs:[{name:'S',fields:[{name:'x',info:{type:'float',bits:32},view:{type:'float-multiplier',multiplier:1e-320}}]}]}",
           "{name:'a', structs:[{name:'S',fields:[{name:'x',info:{type:'float',bits:64},view:{type:'float-multiplier',multiplier:1e-320}}]}]}",
           "\ufeff{name:'a'}"]
    out = [x.encode("utf-8", "surrogatepass") for x in out] + [b"\xff\xfe", b"{name:'\xff'}", b"\x00"]
    while len(out) < n:
        r = rng.random()
        text = bytearray(json.dumps(odd_document(rng, rng.choice(protos))).encode())
        if r < 0.35:
            for _ in range(rng.choice([1, 2, 5])):
                k = rng.randrange(len(text))
                c = rng.random()
                if c < 0.4:
                    del text[k]
                elif c < 0.7:
                    text[k] = rng.choice(b"{}[]\",:'/0-9a\\n\xff")
                else:
                    text[k:k] = rng.choice([b"{", b"[", b"\"", b"//", b"/*", b"null", b"-", b"e9", b"\\u0000"])
                if not text:
                    break
        out.append(bytes(text))
    return out


def big_definitions(rng):
    """Definitions of unusual size."""
    chain = [struct("S0", [field("a", "unsigned", 8)])] + [struct("S%d" % i, [field("b", "struct", ref="S%d" % (i - 1)), field("c", "unsigned", 8)])
                                                          for i in range(1, 60)]
    wide = struct("W", [field("f%d" % i, "unsigned", rng.choice([8, 16, 3, 5])) for i in range(600)])
    msgs = [message("M0", [mfield("a", "string")])] + [message("M%d" % i, [mfield("b", "item", "M%d" % (i - 1)), mfield("c", "string", opt=True)])
                                                      for i in range(1, 40)]
    return [proto("p", "", [], [], chain), proto("p", "", [], [], [wide]), proto("p", "", [], [], [], [], msgs),
            proto("p", "", [], [enum("E", [("V%d" % i, i) for i in range(2000)])], [struct("S", [field("e", "unsigned", 16, v=view("enum", ref="E"))])]),
            proto("p", "", [], [], [struct("S", [field("k", "unsigned", 16)] + [field("x", "unsigned", 8)])],
                  [union("U", "S.k", [case("C%d" % i, str(i)) for i in range(500)])]),
            proto("p", "", [], [], [struct("S", [field("a", "unsigned", 64, length=2 ** 20)])]),
            proto("p", "", [], [], [struct("S", [field("a", "unsigned", 64, length=2 ** 50)])]),
            proto("p", "", [], [], [struct("S", [field("a", "unsigned", 64, length=2 ** 58)])]),
            proto("p", "", [], [], [struct("S", [field("a", "unsigned", 8, length=2 ** 60), field("b", "unsigned", 8, length=2 ** 60)])]),
            proto("p", "", [], [], [struct("S", [field("a%d" % i, "unsigned", 64, length=2 ** 57) for i in range(3)]),
                                    struct("Tgt", [field("a%d" % i, "struct", ref="S") for i in range(3)])]),
            proto("p", "", [], [], [struct("S", [])], [], [message("M", [])])]


def check_raw(rep, texts, what):
    """Everything ends with code or with an error."""
    work = os.path.join(rep.work, what)
    os.makedirs(work)
    b, u = base_protos()
    files = []
    for n, t in enumerate(texts):
        path = os.path.join(work, "%d.json5" % n)
        with open(path, "wb") as f:
            f.write(t)
        files.append(path)
    names = {}
    for x in (b, u):
        names[x["name"]] = os.path.join(work, x["name"] + ".json5")
        with open(names[x["name"]], "w") as f:
            f.write(schema.to_text(x))
    script = []
    for n, f in enumerate(files):
        # below a directory of its own, so that odd names of protocols stay inside
        out = os.path.join(work, "o", "a", "b", "c", "out%d" % n)
        s = [([[f, "crate::x"]], [f])] if n % 3 == 0 else [([[names["b0"], "crate::b0"]], [f])] if n % 3 == 1 else [([], [f])]
        script.append({"sessions": [{"imports": i, "loads": l, "opts": {"reads": True, "writes": True}, "out": out} for i, l in s]})
    got = compile_scripts(script, work)
    path = os.path.join(work, "traces.json")
    stages = {"load": "load", "compile": "compile", "generate": "generate"}
    with open(path, "w") as f:
        json.dump([{"id": n, "res": g[0]["res"], "stage": stages.get(g[0].get("stage", ""), "")} for n, g in enumerate(got)], f)
    r = core.tlc("TraceRaw", work, variables={"TRACES": path})
    if not r.ok:
        raise core.ToolError("TraceRaw: " + r.error())
    rep.add_tlc(r, what + ": TraceRaw", len(got))
    rep.evaluations += len(got)
    for kind in ("ok", "err"):
        rep.note("%s: %s" % (what, kind), sum(g[0]["res"] == kind for g in got))
    for x in r.rejects:
        t, g = texts[x["id"]], got[x["id"]][0]
        rep.violation("panic", "%s ends with %s (%s): %s" % (g.get("stage"), g["res"], g.get("text"), t[:300]),
                      {"text": t.decode("utf-8", "replace"), "observed": g})


def c19(rep):
    rng = rep.rng
    k = 8 if thorough(rep) else 1
    protos = []
    for _ in range(40 * k):
        protos += schema.rand_protos(rng, unions=(0, 2))
    protos += list(base_protos()) * 10
    check_raw(rep, odd_texts(rng, protos, 3000 * k), "texts")
    check_raw(rep, [schema.to_text(p).encode() for p in big_definitions(rng)], "big")
    cases = mutants(rng, 700 * k, count=(1, 4), extreme=True, unions=(0, 3)) + rule_cases(rng)
    Pipeline(rep, cases, "changed", verdicts=lambda x: x["asp"] == "panic", drivers=False)
    run_histories(rep, failing_histories(rng, 120 * k), "failing")


# ---------------------------------------------------------------------------------------------
# C21

def permuted(rng, protos):
    """The same definitions in another order which respects their references."""
    out = copy.deepcopy(protos)
    for p in out:
        rng.shuffle(p["enums"])
        rng.shuffle(p["unions"])
        rng.shuffle(p["imports"])
        for kind in ("structs", "messages"):
            todo, done = list(p[kind]), []
            own = {x["name"] for x in todo}
            while todo:
                placed = {x["name"] for x in done}
                free = [x for x in todo if all(f["ref"] not in own or f["ref"] in placed for f in x["fields"])]
                x = rng.choice(free or todo)
                todo.remove(x)
                done.append(x)
            p[kind] = done
    return out


def borrow_cases(rng):
    """Messages with a single content each, at every place of other messages: some borrow from their input, some do not."""
    cases = []
    for e in ("little", "big"):
        structs = [struct("Num", [field("v", "unsigned", 16)]), struct("Key", [field("k", "unsigned", 3), field("w", "unsigned", 5)])]
        only = [message("None0", []), message("Number", [mfield("n", "item", "Num")]), message("Numbers", [mfield("n", "item", "Num", opt=True)]),
                message("Text", [mfield("t", "string")]), message("Sized", [mfield("t", "string", max=300)]), message("Struct", [mfield("s", "item", "Key")]),
                message("Rest", [mfield("p", "payload")]), message("Array", [mfield("a", "list", "Key", max=255)]),
                message("NumArray", [mfield("a", "list", "Num", max=255)])]
        only += [message("ListOf" + m["name"], [mfield("l", "list", m["name"], max=255)]) for m in only if m["name"] not in ("Rest", "None0")]
        nested = [message("In" + m["name"], [mfield("m", "item", m["name"])]) for m in only]
        nested += [message("Opt" + m["name"], [mfield("m", "item", m["name"], opt=True)]) for m in only]
        nested += [message("Twice" + m["name"], [mfield("l", "list", m["name"], max=255)]) for m in only if m["name"].startswith("ListOf")]
        unions, chosen = [], []
        for m in only:
            unions.append(union("U" + m["name"], "Key.k", [case("A", "1", m["name"]), case("B", "2")]))
            chosen.append(message("Chosen" + m["name"], [mfield("d", "item", "Key"), mfield("u", "union", "U" + m["name"], on="d")]))
        cases.append(Case([proto("b", e, structs=structs, messages=only),
                           proto("p", e, imports=[("b", x["name"]) for x in structs + only if not x["name"].startswith("ListOfX")],
                                 unions=unions, messages=nested + chosen)]))
        cases.append(Case([proto("p", e, structs=structs, messages=only + nested + chosen, unions=unions)]))
    return cases


def c21(rep):
    rng = rep.rng
    k = 6 if thorough(rep) else 1
    cases = []
    for _ in range(45 * k):
        cases.append(Case(schema.rand_protos(rng, unions=(0, 3), messages=(1, 5), structs=(1, 5), opt=0.4)))
    for _ in range(12 * k):
        protos = schema.rand_protos(rng, unions=(0, 2), messages=(2, 5))
        cases += [Case(protos), Case(permuted(rng, protos))]
    cases += kinds_cases(rng) + union_cases(rng) + large_cases(rng) + borrow_cases(rng)
    # whatever is still acceptable after a change
    cases += mutants(rng, 60 * k, count=(1, 3), unions=(0, 2))
    for c in rng.sample(cases, len(cases) // 8):
        c.folder = rng.choice(['o"ut', "o\\ut", "o ut", "oüt", "o{}ut", "o'ut", "o\tut", "\\u{41}"])
    p = Pipeline(rep, cases, want="sm", verdicts=lambda x: x["asp"] == "panic")
    s, m = all_traces(rng, p)
    p.run("TraceStruct", s, {"layout", "rt", "typed", "enumtyped", "enumrt", "floatrt", "floattyped", "array", "panic", "sizes"})
    p.run("TraceWire", m + list_traces(rng, usable(p), count=3),
          {"bytes", "round", "value", "panic", "refuse", "osame", "items", "is", "setdisc"})
    # parts of what can be generated
    for name, opts in (("reading", {"reads": True}), ("writing", {"writes": True}), ("types", {}),
                       ("structures", {"messages": False, "unions": False}), ("enums", {"messages": False, "unions": False, "structs": False})):
        cases = []
        for _ in range(10 * k):
            cases.append(Case(schema.rand_protos(rng, unions=(0, 0) if name != "structures" else (0, 2)), opts=opts))
        Pipeline(rep, cases, name, want="s" if name in ("structures",) else "")


CHECKS = {"C17": c17, "C18": c18, "C19": c19, "C21": c21}
