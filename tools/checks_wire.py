"""Checks of messages: C07 to C16."""
import json

import models
import ops
import schema
import values
from framework import Pipeline
from plan import Case
from schema import case, enum, field, mfield, message, proto, struct, union, view

ENDLESS = 2 ** 30


def thorough(rep):
    return rep.tier == "thorough"


def usable(p):
    """Cases whose messages are all decodable (see the known finding about messages of other sessions)."""
    return [c for c in p.usable if not c.foreign]


def message_keys(c):
    return [k for k in c.order if c.objs[k]["k"] == "message"]


def message_traces(rng, cases, rounds=4, prefixes=0, longer=0, damaged=0, decs=0, chaos=0.12, stream=0, choose=None,
                   noise=0, **kw):
    out = []
    for c in cases:
        vals = values.Values(rng, c.objs, **kw)
        enc = values.Encoder(rng, c.objs, chaos)
        for key in message_keys(c):
            if choose and not choose(c, key):
                continue
            todo = []
            for _ in range(rounds):
                todo.append({"op": "round", "v": vals.message(key), "prefixes": prefixes, "longer": longer,
                             "damaged": damaged, "seed": rng.getrandbits(32)})
            for _ in range(decs):
                todo.append({"op": "dec", "b": enc.message(key, vals.message(key))[:400]})
            for _ in range(noise):
                n = rng.choice([0, 1, 2, 3, 5, 9, 17, 40])
                r = rng.random()
                b = [rng.choice([0, 0, 1, 1, 2, 255, 65]) if r < 0.5 else rng.randrange(256) for _ in range(n)]
                todo.append({"op": "dec", "b": b})
            for _ in range(stream):
                todo.append({"op": "stream", "vs": [vals.message(key) for _ in range(rng.randint(1, 4))]})
            out.append({"kind": "m", "case": c, "key": key, "ops": todo})
    return out


def union_traces(rng, cases, count=8, **kw):
    out = []
    for c in cases:
        vals = values.Values(rng, c.objs, **kw)
        enc = values.Encoder(rng, c.objs, 0.1)
        for key in c.order:
            u = c.objs[key]
            if u["k"] != "union":
                continue
            todo = []
            leaf = u["leaf"]
            for k, cs in enumerate(u["cases"], 1):
                for _ in range(max(1, count // len(u["cases"]))):
                    v = vals.union(u, 1, k)
                    root = ops.rand_bytes(rng, c.objs[u["root"]]["bytes"])
                    r = rng.random()
                    if r < 0.4:
                        values.write_bits(root, leaf["off"], leaf["bits"], leaf["endian"], schema.unword(cs["v"]))
                    elif r < 0.6:
                        other = rng.choice(u["cases"])
                        values.write_bits(root, leaf["off"], leaf["bits"], leaf["endian"], schema.unword(other["v"]))
                    todo.append({"op": "uenc", "v": v, "root": root})
                    root = list(root)
                    if rng.random() < 0.7:
                        values.write_bits(root, leaf["off"], leaf["bits"], leaf["endian"], schema.unword(cs["v"]))
                    b = enc.item(cs["ref"], v["v"][0]) if cs["ref"] else []
                    b += [rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 3]))]
                    todo.append({"op": "udec", "root": root, "b": b[:300]})
            out.append({"kind": "u", "case": c, "key": key, "ops": todo})
    return out


def list_traces(rng, cases, count=10, reps=1, full=0.15, **kw):
    """full: probability of storage which fails."""
    out = []
    for c in cases:
        vals = values.Values(rng, c.objs, **kw)
        for key in message_keys(c):
            for f in c.objs[key]["fields"]:
                if f["kind"] not in ("array", "list"):
                    continue
                ref = f["ref"]
                for _ in range(reps):
                    todo = []
                    many = f["w"] == 8 and vals.small(ref) and rng.random() < 0.15
                    if many:
                        todo.append({"op": "lwrites", "v": [vals.item(ref, 2) for _ in range(254)]})
                    for _ in range(3 if many else count):
                        r = rng.random()
                        idx = rng.choice([0, 0, 1, 2, 3, 5, 8, 100])
                        if f["kind"] == "list" or r < 0.4:
                            if rng.random() < 0.75:
                                todo.append({"op": "lwrite", "v": vals.item(ref, 1)})
                            else:
                                todo.append({"op": "lwrites", "v": [vals.item(ref, 1) for _ in range(rng.randint(0, 3))]})
                        elif r < 0.55:
                            todo.append({"op": "lget", "idx": idx})
                        elif r < 0.75:
                            todo.append({"op": "lset", "idx": idx, "v": ops.short(rng.getrandbits(64))})
                        elif r < 0.85:
                            todo.append({"op": "lfill", "v": ops.short(rng.getrandbits(64))})
                        else:
                            n = rng.randint(0, 4)
                            size = max(0, n * c.objs[ref]["bytes"] + rng.choice([0, 0, 0, 1, -1]))
                            todo.append({"op": "lparts", "idx": n, "v": ops.rand_bytes(rng, size)})
                    for o in todo:
                        o.setdefault("idx", 0)
                        o.setdefault("v", [])
                    budget = rng.randint(0, 60) if rng.random() < full else ENDLESS
                    out.append({"kind": "l", "case": c, "key": "%s.%s" % (key, f["name"]), "msg": key, "field": f["name"],
                                "budget": budget, "ops": todo})
    return out


def random_messages(rng, n, **kw):
    kw.setdefault("messages", (2, 4))
    return [Case(schema.rand_protos(rng, **kw)) for _ in range(n)]


def kinds_cases(rng):
    """Every kind of message field on its own, followed and preceded by others, optional or not."""
    cases = []
    for e in ("little", "big", ""):
        for o in (False, True):
            for o2 in (False, True):
                plain = struct("P", [field("v", "unsigned", rng.choice([8, 16, 32, 64]))])
                scalars = [struct("P%s%d" % (t[0], b), [field("v", t, b)]) for t, b in
                           [(t, b) for t in ("unsigned", "signed") for b in (8, 16, 32, 64)] + [("float", 32), ("float", 64), ("boolean", 8)]]
                s = struct("S", [field("k", "unsigned", 2), field("x", "signed", 6), field("y", "unsigned", 8)])
                body = message("Body", [mfield("s", "item", "S", opt=o2), mfield("t", "string", opt=o)])
                rest = message("Rest", [mfield("p", "payload", opt=o2)])
                void = message("Void", [])
                one = message("One", [mfield("v", "item", "P")])
                u = union("U", "S.k", [case("A", "0", "S"), case("B", "1", "Body"), case("C", "2"), case("D", "3", "Void")])
                ur = union("R", "S.k", [case("A", "0", "Rest"), case("B", "3")])
                cases.append(Case([
                    proto("b0", e, structs=[plain, s], messages=[body, rest, void, one]),
                    proto("p0", e, imports=[("b0", x) for x in ("P", "S", "Body", "Rest", "Void", "One")], structs=scalars, unions=[u, ur], messages=[
                        message("Numbers", [mfield("f%d" % i, "item", x["name"], opt=(o, o2)[i % 2])
                                            for i, x in enumerate(scalars)]),
                        message("Scalars", [mfield("a", "item", "P", opt=o), mfield("b", "item", "P", opt=o2)]),
                        message("Structs", [mfield("a", "item", "S", opt=o), mfield("b", "item", "S", opt=o2)]),
                        message("Texts", [mfield("a", "string", opt=o), mfield("b", "string", max=rng.choice([10, 255]), opt=o2),
                                          mfield("c", "string", max=rng.choice([256, 70000, 2 ** 32]), opt=o)]),
                        message("Nested", [mfield("a", "item", "Body", opt=o), mfield("b", "item", "Body", opt=o2)]),
                        message("Arrays", [mfield("a", "list", "S", max=rng.choice(schema.MAXIMA), opt=o),
                                           mfield("b", "list", "P", max=rng.choice([255, 256]), opt=o2)]),
                        message("Lists", [mfield("a", "item", "P", opt=o2),
                                          mfield("l", "list", "Body", max=rng.choice(schema.MAXIMA), opt=o)]),
                        message("ListThen", [mfield("l", "list", "Body", max=rng.choice([255, 256]), opt=o),
                                             mfield("z", "item", "S", opt=o2)]),
                        message("Payload", [mfield("a", "string", opt=o2), mfield("p", "payload", opt=o)]),
                        message("Voids", [mfield("a", "item", "Void", opt=o), mfield("b", "item", "Void", opt=o2), mfield("z", "item", "P", opt=o)]),
                        message("ListVoid", [mfield("l", "list", "One", max=rng.choice([255, 256]), opt=o2), mfield("z", "item", "Void")]),
                        message("TextVoid", [mfield("t", "string", max=rng.choice([None, 255, 256]), opt=o2), mfield("z", "item", "Void")]),
                        message("ArrayVoid", [mfield("l", "list", "P", max=rng.choice([255, 256]), opt=o2), mfield("z", "item", "Void"), mfield("y", "item", "Void", opt=o)]),
                        message("Rests", [mfield("a", "string", opt=o), mfield("r", "item", "Rest", opt=o2)]),
                        message("Choice", [mfield("d", "item", "S"), mfield("u", "union", "U", on="d"),
                                           mfield("z", "item", "P", opt=o)]),
                        message("ChoiceRest", [mfield("d", "item", "S"), mfield("t", "string", opt=o),
                                               mfield("u", "union", "R", on="d")]),
                    ])]))
    return cases


def deep_cases(rng, n):
    """Few definitions which are nested deeply."""
    return [Case(schema.rand_protos(rng, count=rng.choice([2, 3, 4]), structs=(1, 2), messages=(2, 4), size=(1, 3),
                                    kinds=["msg", "msg", "list", "list", "union", "struct", "nstr"])) for _ in range(n)]


def many_cases(rng):
    """Lists and texts which are longer than small counters can tell."""
    cases = []
    for e in ("little", "big"):
        cases.append(Case([proto("p0", e, structs=[struct("Byte", [field("x", "unsigned", 8)]), struct("Bits", [field("x", "unsigned", 5)])],
                                 messages=[
            message("One", [mfield("n", "item", "Bits")]),
            message("Inner", [mfield("l", "list", "One", max=1000)]),
            message("Outer", [mfield("l", "list", "Inner", max=70000), mfield("z", "item", "Bits")]),
            message("Both", [mfield("a", "list", "Bits", max=1000), mfield("l", "list", "Inner", max=255), mfield("z", "item", "Bits")]),
            message("Arrays", [mfield("l", "list", "Both", max=10)]),
            message("Texts", [mfield("t", "string", max=70000), mfield("n", "string"), mfield("z", "item", "Bits")]),
            message("Either", [mfield("t", "item", "Texts", opt=True), mfield("p", "payload")])])], tag="many"))
    return cases


def many_traces(rng, cases):
    out = []
    for c in cases:
        n1 = lambda: rng.choice([256, 257, 260, 300])
        item = lambda: [[rng.randrange(32)]]
        vals = {
            "Inner": [[[item() for _ in range(n1())]]],
            "Outer": [[[[[item() for _ in range(k)]] for k in (0, n1(), 1)], [3]], [[[[item() for _ in range(n1())]]], [3]],
                   [[[[]] for _ in range(n1())], [1]]],
            "Both": [[[[7]] * n1(), [[[item() for _ in range(n1())]]], [1]]],
            "Arrays": [[[[[[5]] * n1(), [[[item()]]], [2]], [[], [], [3]]]]],
            "Texts": [[[65] * n, [66] * k, [9]] for n, k in ((256, 255), (300, 256), (3, 1000), (32768, 0), (66000, 1), (1, 66000))],
            "Either": [[[[[65] * 300, [66] * 256, [3]]], [1] * 300], [[], [7] * 66000]],
        }
        for key in message_keys(c):
            for v in vals.get(key.split(".")[-1], []):
                ops_ = [{"op": "round", "v": v, "prefixes": 1, "longer": 1, "damaged": 0, "seed": 1}]
                if len(json.dumps(v)) < 20000:
                    ops_.append({"op": "stream", "vs": [v, v]})
                out.append({"kind": "m", "case": c, "key": key, "ops": ops_})
    return out


def standard(rep, n, **kw):
    rng = rep.rng
    k = 5 if thorough(rep) else 1
    cases = kinds_cases(rng) + random_messages(rng, n * k, **kw) + deep_cases(rng, n * k // 4)
    return Pipeline(rep, cases, want="m"), k


def c07(rep):
    p, k = standard(rep, 50)
    rng = rep.rng
    p.run("TraceWire", message_traces(rng, usable(p), rounds=8 * k, damaged=1, nul=0.02, mismatch=0.02) +
          union_traces(rng, usable(p), count=6 * k),
          {"refuse", "bytes", "again", "round", "value", "reenc", "panic"})
    m = Pipeline(rep, many_cases(rng), "many", want="m")
    m.run("TraceWire", many_traces(rng, usable(m)), {"refuse", "bytes", "again", "round", "value", "reenc", "panic"})
    # known finding: sizes of messages with lists which other runs have compiled
    cases = []
    for e in ("little", "big"):
        b = proto("b0", e, messages=[message("Text", [mfield("t", "string")]), message("Many", [mfield("l", "list", "Text", max=10)])])
        q = proto("p0", e, imports=[("b0", "Many")], structs=[struct("Z", [field("z", "unsigned", 3)])],
                  messages=[message("Then", [mfield("m", "item", "Many"), mfield("z", "item", "Z")]),
                                                               message("Lists", [mfield("l", "list", "Many", max=10)])])
        cases.append(Case([b, q], tag="lists in messages of other protocols"))
    p = Pipeline(rep, cases, "other-protocols", want="m")
    p.run("TraceWire", message_traces(rng, p.usable, rounds=8 * k, choose=lambda c, key: key.startswith("p0")),
          {"refuse", "bytes", "again", "round", "value", "reenc", "panic"}, known=lambda t, x: t["case"].tag)
    # small messages with small values and short inputs
    models.messages(rep, {"refuse", "bytes", "again", "round", "value", "reenc", "panic"})


def lengths(rep, aspects, k):
    """Inputs with lengths beyond all inputs, among them those whose size in bytes wraps around to little."""
    rng = rep.rng
    cases = []
    for e in ("little", "big"):
        for m in (255, 65535, 2 ** 32 - 1, 2 ** 40):
            for inner in ([mfield("a", "string")], [mfield("a", "string", opt=True)], [mfield("a", "item", "S", opt=True)]):
                size = rng.choice([2, 3, 4, 5, 8])
                cases.append(Case([proto("p0", e, structs=[struct("S", [field("a", "unsigned", 8), field("b", "unsigned", 4)]),
                                                           struct("R", [field("a", "unsigned", 8, length=size)])],
                                         messages=[message("I", inner),
                                                   message("L", [mfield("l", "list", "I", max=m)]),
                                                   message("Outer", [mfield("l", "list", "L", max=m), mfield("z", "item", "S")]),
                                                   message("A", [mfield("l", "list", "S", max=m), mfield("t", "string", max=m)]),
                                                   message("B", [mfield("l", "list", "R", max=m), mfield("z", "item", "S", opt=True)])])]))
    p = Pipeline(rep, cases, "lengths", want="m")
    traces = []
    for c in usable(p):
        order = "big" if c.protos[0]["endian"] == "big" else "little"
        for key in message_keys(c):
            todo = []
            first = c.objs[key]["fields"][0]
            w = first["w"] // 8
            size = c.objs[first["ref"]]["bytes"] if first["kind"] == "array" else 1
            ns = [(2 ** (8 * w - 1), order), (2 ** (8 * w) - 1, order)]
            for _ in range(4 * k):
                ns.append((rng.choice([2 ** (8 * w) - 1, 2 ** (8 * w - 1), 2 ** (8 * w) - rng.randint(1, 9), 5]),
                           rng.choice(["little", "big"])))
            for wrap in (32, 64):
                if size > 1 and wrap <= 8 * w:
                    ns += [(-(-j * 2 ** wrap // size) + d, order) for j, d in ((1, 0), (rng.randint(1, size - 1), 0), (1, 1))]
            for n, o in ns:
                b = list(min(n, 2 ** (8 * w) - 1).to_bytes(w, o)) if w else []
                todo.append({"op": "dec", "b": b + [rng.choice([0, 0, 1, 255]) for _ in range(rng.randint(0, 24))]})
            traces.append({"kind": "m", "case": c, "key": key, "ops": todo})
    p.run("TraceWire", traces, aspects)


def c08(rep):
    p, k = standard(rep, 40)
    rng = rep.rng
    p.run("TraceWire", message_traces(rng, usable(p), rounds=2 * k, prefixes=4, damaged=10, decs=8 * k, noise=6 * k) +
          union_traces(rng, usable(p), count=6 * k), {"panic", "total", "inside", "dsize"})
    # what takes most: items which cost nothing, and lengths beyond every input
    lengths(rep, {"panic", "total", "inside", "dsize"}, k)
    # small messages with small values and short inputs
    models.messages(rep, {"panic", "total", "inside", "dsize"})


def c09(rep):
    p, k = standard(rep, 40)
    rng = rep.rng
    p.run("TraceWire", message_traces(rng, usable(p), rounds=3 * k, prefixes=24 * k, longer=3, nul=0, mismatch=0),
          {"prefix", "longer", "trunc", "panic"})
    lengths(rep, {"trunc", "panic"}, k)
    # small messages with small values and short inputs
    models.messages(rep, {"prefix", "longer", "trunc", "panic"}, prefixes=3, longer=2)


def c10(rep):
    p, k = standard(rep, 45)
    rng = rep.rng
    traces = message_traces(rng, usable(p), rounds=6 * k, damaged=1, stream=4 * k, nul=0.02, mismatch=0.02)
    p.run("TraceWire", traces, {"size", "dsize", "stream", "panic"})
    m = Pipeline(rep, many_cases(rng), "many", want="m")
    m.run("TraceWire", many_traces(rng, usable(m)), {"size", "dsize", "stream", "panic"})
    from checks_struct import random_structs, layout_cases
    cases = random_structs(rng, 30 * k) + layout_cases(rng, lambda name, w: field(name, "unsigned", w))
    p = Pipeline(rep, cases, "structures", want="s")
    p.run("TraceStruct", [ops.consts_trace(rng, c, key) for c in p.usable for key in c.order
                          if c.objs[key]["k"] == "struct"], {"sizes"})
    # small messages with small values and short inputs
    models.messages(rep, {"size", "dsize", "stream", "panic"})


def c11(rep):
    p, k = standard(rep, 45)
    rng = rep.rng
    p.run("TraceWire", message_traces(rng, usable(p), rounds=5 * k, prefixes=3, damaged=3, decs=2 * k),
          {"osame", "offs", "tiles", "panic"})
    m = Pipeline(rep, many_cases(rng), "many", want="m")
    m.run("TraceWire", many_traces(rng, usable(m)), {"osame", "offs", "tiles", "panic"})
    # small messages with small values and short inputs
    models.messages(rep, {"osame", "offs", "tiles", "panic"})


def prefix_cases(rng):
    cases = []
    for e in ("little", "big", ""):
        for m in schema.MAXIMA + [2, 127, 128, 257, 32767, 65534, 65537, 2 ** 24, 2 ** 31, 2 ** 32 - 2, 2 ** 32 + 1, 2 ** 53]:
            cases.append(Case([proto("p0", e, structs=[struct("B", [field("x", "unsigned", 8), field("y", "unsigned", 1)]),
                                                        struct("N", [field("x", "unsigned", 5)])],
                                     messages=[
                message("I", [mfield("n", "item", "N")]),
                message("T", [mfield("t", "string", max=m), mfield("n", "item", "N")]),
                message("A", [mfield("a", "list", "N", max=m), mfield("n", "item", "B")]),
                message("L", [mfield("l", "list", "I", max=m), mfield("n", "item", "B")]),
                message("O", [mfield("t", "string", max=m, opt=True), mfield("l", "list", "I", max=m, opt=True)])])]))
    return cases


def c12(rep):
    rng = rep.rng
    k = 4 if thorough(rep) else 1
    p = Pipeline(rep, prefix_cases(rng), want="m")
    aspects = {"bytes", "refuse", "round", "items", "value", "panic"}
    p.run("TraceWire", message_traces(rng, usable(p), rounds=4 * k, decs=2 * k, chaos=0.3), aspects)
    # lengths around what a prefix can tell
    def narrow(c, key, w):
        return any(f["w"] == w for f in c.objs[key]["fields"])
    some = [c for c in usable(p) if any(narrow(c, key, 8) for key in message_keys(c))]
    p.run("TraceWire", message_traces(rng, rng.sample(some, min(len(some), 9 * k)), rounds=5, long=0.7, items=2,
                                      choose=lambda c, key: narrow(c, key, 8)), aspects)
    some = [c for c in usable(p) if any(narrow(c, key, 16) for key in message_keys(c))]
    traces = []
    for c in rng.sample(some, min(len(some), 2 * k)):
        key = [x for x in message_keys(c) if x.endswith(".T")][0]
        for n in (65535, 65536):
            v = [[65] * n, [3]]
            traces.append({"kind": "m", "case": c, "key": key, "ops": [
                {"op": "round", "v": v, "prefixes": 0, "longer": 0, "damaged": 0, "seed": 1}]})
    p.run("TraceWire", traces, aspects)
    p = Pipeline(rep, random_messages(rng, 25 * k, kinds=["vstr", "array", "list", "struct", "msg"]), "random", want="m")
    p.run("TraceWire", message_traces(rng, usable(p), rounds=5 * k, long=0.05) +
          list_traces(rng, usable(p), count=6, reps=k), aspects)
    lengths(rep, {"trunc", "value", "panic"}, k)
    # small messages with small values and short inputs
    models.messages(rep, aspects)


def c13(rep):
    rng = rep.rng
    k = 5 if thorough(rep) else 1
    cases = kinds_cases(rng) + random_messages(rng, 50 * k, kinds=["array", "list", "list", "struct", "nstr", "vstr", "msg", "union"])
    p = Pipeline(rep, cases, want="m")
    p.run("TraceWire", list_traces(rng, usable(p), reps=2 * k, nul=0.1, mismatch=0.1) +
          message_traces(rng, usable(p), rounds=3 * k, damaged=2, decs=3 * k, chaos=0.2,
                         choose=lambda c, key: any(f["kind"] in ("array", "list") for f in c.objs[key]["fields"])),
          {"items", "refuse", "utf8", "disc", "trunc", "value", "round", "osame", "panic", "arraypanic", "parts"})
    # more items than 16 bits can count
    m = Pipeline(rep, many_cases(rng), "many", want="ml")
    traces = []
    for c in usable(m):
        for key, name, item, ns in (("p0.Outer", "l", [[]], (65535, 2)), ("p0.Both", "a", [9], (255, 65536, 1)), ("p0.Arrays", "l", [[], [], [3]], (300,)),
                                    ("p0.Inner", "l", [[4]], (1000, 65000))):
            traces.append({"kind": "l", "case": c, "key": "%s.%s" % (key, name), "msg": key, "field": name, "budget": ENDLESS,
                           "ops": [{"op": "lmany", "idx": n, "v": item} for n in ns]})
    m.run("TraceWire", traces, {"items", "refuse", "panic"})
    # small messages with small values and short inputs
    models.messages(rep, {"refuse", "utf8", "disc", "trunc", "value", "round", "osame", "panic"})


def similar(rng, s):
    """Renames the fields of a structure to names which resemble each other."""
    base = rng.choice(["k", "key", "mode", "a1"])
    pool = [base, base + "_", "_" + base, base + base, base + "1", base + "_1", base[:1] + "_" + base[1:], "x" + base, base + "x", base + "__"]
    pool = list(dict.fromkeys(pool))
    rng.shuffle(pool)
    for f, n in zip(s["fields"], pool):
        f["name"] = n


def union_cases(rng):
    """Unions of every kind of discriminant."""
    cases = []
    for e in ("little", "big", ""):
        for _ in range(6):
            fields, paths, off = [], [], 0
            enums = [schema.rand_enum(rng, "E%d" % i) for i in range(2)]
            inner = schema.rand_struct(rng, "In", schema.Scope(), size=(2, 4), kinds=["u", "i", "b"], arrays=0, nested=0)
            scope = schema.Scope()
            scope.structs["In"] = inner
            for en in enums:
                scope.enums[en["name"]] = en
            root = schema.rand_struct(rng, "Root", scope, size=(3, 6), kinds=["u", "u", "i", "b", "enum", "enum"], arrays=0.1,
                                      nested=0.3)
            scope.structs["Root"] = root
            # names which resemble each other
            for st in (root, inner):
                similar(rng, st)
            if schema.flattened(root):
                continue
            unions, messages = [], []
            body = message("Body", [mfield("t", "string"), mfield("s", "item", "In", opt=True)])
            b = proto("b0", e, structs=[inner], messages=[body])
            for path, f in schema.discriminants(root, scope)[:5]:
                n = f["bits"]
                if f["view"]["t"] == "enum":
                    vs = [v["k"] for v in [x for x in enums if x["name"] == f["view"]["ref"]][0]["variants"]]
                else:
                    lo, hi = (-(2 ** (n - 1)), 2 ** (n - 1) - 1) if f["t"] == "signed" else (0, 2 ** n - 1)
                    vs = [str(v) for v in sorted({lo, hi, 0, max(lo, -1), min(hi, 1), rng.randint(lo, hi)})]
                rng.shuffle(vs)
                cs = [case("K%d" % i, v, rng.choice(["", "In", "Body", "Root"])) for i, v in enumerate(vs[:5])]
                u = union("U%d" % len(unions), ".".join(("Root",) + path), cs)
                unions.append(u)
                messages.append(message("M%d" % len(messages), [mfield("d", "item", "Root"), mfield("n", "string", opt=True),
                                                                mfield("u", "union", u["name"], on="d"), mfield("z", "item", "In")]))
            cases.append(Case([b, proto("p0", e, imports=[("b0", "In"), ("b0", "Body")], enums=enums, structs=[root],
                                        unions=unions, messages=messages)]))
    return cases


def resembling_cases(rng):
    """Discriminants in structures whose field names differ by little, at every place of the path."""
    cases = []
    base = rng.choice(["key", "mode", "a1"])
    others = [base + "_", "_" + base, base + "1", base + base, base.capitalize(), base.upper(), base[:-1], base + "__", base[::-1].lstrip("1")]
    def build(a, b, to):
        """to: the fields which unions refer to."""
        inner = struct("In", [field(a, "unsigned", 3), field(b, "unsigned", 5)])
        root = struct("Root", [field("z", "unsigned", 8), field(a, "struct", ref="In"), field(b, "struct", ref="In")])
        flat = struct("Flat", [field(a, "signed", 3), field(b, "signed", 5), field("y", "unsigned", 8)])
        unions = [union("R%d%d" % (i, j), "Root.%s.%s" % (x, y), [case("One", "1", "Flat"), case("Two", "2")])
                  for i, x in enumerate(to) for j, y in enumerate(to)]
        unions += [union("F%d" % i, "Flat.%s" % x, [case("One", "1", "Flat"), case("Two", "-2")]) for i, x in enumerate(to)]
        messages = [message("M", [mfield(b, "item", "Root"), mfield(a, "item", "Root")] +
                            [mfield("u%d" % i, "union", u["name"], on=rng.choice(to)) for i, u in enumerate(unions[:len(to) ** 2])]),
                    message("N", [mfield(a, "item", "Flat"), mfield(b, "item", "Flat")] +
                            [mfield("u%d" % i, "union", "F%d" % (i % len(to)), on=x) for i, x in enumerate(to * 2)])]
        cases.append(Case([proto("p0", rng.choice(["little", "big"]), structs=[inner, root, flat], unions=unions,
                                 messages=messages)], must=True))
    for other in others:
        for a, b in ((other, base), (base, other)):
            # one at a time, since a compiler which confuses them may find only some of them
            build(a, b, [a])
            build(a, b, [b])
            if rng.random() < 0.3:
                build(a, b, [a, b])
    return cases


def large_cases(rng):
    """Definitions with many members."""
    cases = []
    for e in ("little", "big"):
        many = enum("Many", [("V%d" % i, i * 3) for i in rng.sample(range(200), 80)])
        fields = []
        for i in range(12):
            for n in rng.choice([[3, 5], [7, 1], [8], [12, 4], [16], [31, 1], [10, 6], [11, 5], [4, 4], [24], [1, 1, 6], [64]]):
                v = view("enum", ref="Many") if n in (10, 11, 12, 16) and rng.random() < 0.6 else None
                fields.append(field("camelField%d" % len(fields), "unsigned" if v else rng.choice(["unsigned", "signed"]), n, v=v))
        wide = struct("Wide", fields)
        root = struct("Root", [field("theKind", "unsigned", 7), field("pad", "unsigned", 9)])
        last = union("StructLast", "Root.theKind", [case("C%d" % i, str(i * 2)) for i in range(25)] + [case("Last", "99", "Wide")])
        first = union("StructFirst", "Root.theKind", [case("First", "0", "Wide")] + [case("C%d" % i, str(i * 2 + 3)) for i in range(25)])
        alone = union("OneStruct", "Root.theKind", [case("Only", "5", "Root")])
        empty = union("NoContent", "Root.theKind", [case("A", "1"), case("B", "2")])
        texts = message("Texts", [mfield("longText%d" % i, "string", opt=i % 3 == 0, **({"max": rng.choice([3, 255, 70000])} if i % 2 else {}))
                                  for i in range(24)])
        lists = message("Lists", [mfield("someRoots%d" % i, "list", ref="Root", max=rng.choice([255, 65535]), opt=i % 4 == 0)
                                  for i in range(9)] + [mfield("innerLists", "list", ref="Texts", max=255)])
        unions = message("Unions", [mfield("theRoot", "item", "Root"), mfield("aLast", "union", "StructLast", on="theRoot"),
                                    mfield("aFirst", "union", "StructFirst", on="theRoot", opt=True),
                                    mfield("Plain", "union", "NoContent", on="theRoot"),
                                    mfield("anOnly", "union", "OneStruct", on="theRoot")])
        some = message("Some", [mfield("r%d" % i, "item", "Root") for i in range(3)] +
                       [mfield("u%d" % i, "union", rng.choice(["StructLast", "StructFirst"]), on="r%d" % (i % 3)) for i in range(4)])
        cases.append(Case([proto("p0", e, enums=[many], structs=[wide, root], unions=[last, first, alone, empty],
                                 messages=[texts, lists, unions, some])], must=True))
    return cases


def c14(rep):
    rng = rep.rng
    k = 5 if thorough(rep) else 1
    cases = [c for _ in range(k) for c in union_cases(rng)] + kinds_cases(rng) + large_cases(rng) + resembling_cases(rng) + \
        random_messages(rng, 40 * k, unions=(1, 3), kinds=["union", "union", "struct", "nstr", "msg"])
    p = Pipeline(rep, cases, want="m")
    p.run("TraceWire", union_traces(rng, usable(p), count=12 * k, nul=0, mismatch=0.1) +
          message_traces(rng, usable(p), rounds=5 * k, decs=2 * k, damaged=1, mismatch=0.3,
                         choose=lambda c, key: any(f["kind"] == "union" for f in c.objs[key]["fields"])),
          {"is", "setdisc", "disc", "bytes", "value", "round", "dsize", "panic", "refuse"})
    # small messages with small values and short inputs
    models.messages(rep, {"is", "setdisc", "disc", "bytes", "value", "round", "dsize", "panic", "refuse"})


def c15(rep):
    rng = rep.rng
    k = 5 if thorough(rep) else 1
    cases = kinds_cases(rng) + kinds_cases(rng) + random_messages(rng, 45 * k, opt=0.7, unions=(0, 1))
    p = Pipeline(rep, cases, want="m")
    p.run("TraceWire", message_traces(rng, usable(p), rounds=6 * k, prefixes=2, damaged=2, decs=5 * k, chaos=0.25,
                                      choose=lambda c, key: any(f["opt"] for f in c.objs[key]["fields"])),
          {"bytes", "value", "round", "dsize", "trunc", "panic", "refuse", "osame", "offs"})
    # small messages with small values and short inputs
    models.messages(rep, {"bytes", "value", "round", "dsize", "trunc", "panic", "refuse", "osame", "offs"}, prefixes=1)


def c16(rep):
    rng = rep.rng
    k = 5 if thorough(rep) else 1
    cases = random_messages(rng, 25 * k, kinds=["nstr", "vstr", "vstr", "struct", "msg", "list"])
    for e in ("little", "big"):
        cases.append(Case([proto("p0", e, messages=[
            message("Z", [mfield("t", "string"), mfield("u", "string")]),
            message("ZO", [mfield("t", "string", opt=True), mfield("u", "string")])] + [
            message("V%d" % w, [mfield("t", "string", max=2 ** w - 1), mfield("u", "string")]) for w in (8, 16, 32, 63)])], must=True))
    p = Pipeline(rep, cases, want="m")
    has = lambda c, key: any(f["kind"] in ("nstr", "vstr") for f in c.objs[key]["fields"])
    traces = message_traces(rng, usable(p), rounds=5 * k, decs=8 * k, chaos=0.3, nul=0.15, damaged=1, choose=has)
    # well-formed and other text by itself
    texts = [list(x) for x in values.BAD]
    for c in range(0x00, 0x100):
        texts += [[c], [c, 0x80], [c, 0xBF], [c, 0x80, 0x80], [c, 0x9F, 0xBF], [c, 0xA0, 0x80], [c, 0x8F, 0x80, 0x80],
                  [c, 0x90, 0x80, 0x80], [c, 0xBF, 0xBF, 0xBF], [65, c], [c, 65]]
    for _ in range(300 * k):
        b = values.rand_text(rng, 4)
        for _ in range(rng.choice([0, 1, 1, 2])):
            if b:
                at = rng.randrange(len(b))
                r = rng.random()
                if r < 0.4:
                    del b[at]
                elif r < 0.8:
                    b[at] = rng.choice([0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4,
                                        0xF5, 0xFF, b[at] ^ (1 << rng.randrange(8))])
                else:
                    b.insert(at, rng.choice([0x80, 0xBF, 0xE2, 0]))
        texts.append(b)
    c = [x for x in usable(p) if x.protos[0]["messages"] and x.protos[0]["messages"][0]["name"] == "Z"
         and len(x.protos) == 1 and len(x.protos[0]["messages"]) == 6]
    for c in c:
        for key in message_keys(c):
            todo = []
            for t in texts if key.endswith(".Z") or key.endswith(".V8") else rng.sample(texts, 150):
                f = c.objs[key]["fields"][0]
                flag = [1] if f["opt"] else []
                if f["kind"] == "nstr":
                    todo.append({"op": "dec", "b": flag + t + rng.choice([[0, 0], [0, 65, 0], [0], []])})
                else:
                    n = list(len(t).to_bytes(f["w"] // 8, f["endian"]))
                    todo.append({"op": "dec", "b": flag + n + t + rng.choice([[0], [65, 0]])})
            for lo in range(0, len(todo), 100):
                traces.append({"kind": "m", "case": c, "key": key, "ops": todo[lo:lo + 100]})
    p.run("TraceWire", traces, {"utf8", "refuse", "trunc", "value", "round", "bytes", "panic"})
    # small messages with small values and short inputs
    models.messages(rep, {"utf8", "refuse", "trunc", "value", "round", "bytes", "panic"})


CHECKS = {"C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15,
          "C16": c16}
