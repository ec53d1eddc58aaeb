"""Checks of structures: C01 to C06."""
import models
import ops
import schema
from framework import Pipeline
from plan import Case
from schema import enum, field, message, mfield, proto, struct, view


def accepted_layouts():
    """All bit offsets and widths of scalars which the compiler accepts."""
    return [(o, n) for n in range(1, 65) for o in range(8) if o + n <= 8 * ((n + 7) // 8)]


def packed(rng, layouts, make, name, per=16):
    """Structures which contain a field made by make(name, width) at every layout."""
    layouts = list(layouts)
    rng.shuffle(layouts)
    out = []
    for lo in range(0, len(layouts), per):
        fields, off = [], 0

        def pad(n):
            nonlocal off
            if n:
                fields.append(field("p%d" % len(fields), rng.choice(["unsigned", "signed", "boolean"]), n))
                off += n
        for o, n in layouts[lo:lo + per]:
            if off % 8 > o:
                pad(8 - off % 8)
            pad(o - off % 8)
            fields.append(make("x%d" % len(fields), n))
            off += n
        if rng.random() < 0.5 and off % 8 == 0:
            # trailing partial bytes
            fields.append(field("p%d" % len(fields), "unsigned", rng.randint(1, 7)))
        out.append(struct("%s%d" % (name, len(out)), fields))
    return out


def layout_cases(rng, make, endians=("little", "big"), name="S", per=16, enums=(), group=2):
    cases = []
    for e in endians:
        ss = packed(rng, accepted_layouts(), make, name, per)
        for lo in range(0, len(ss), group):
            cases.append(Case([proto("p0", e, enums=enums, structs=ss[lo:lo + group])]))
    return cases


def random_structs(rng, n, **kw):
    """Chains of protocols with nested structures, arrays and all kinds of scalars."""
    return [Case(schema.rand_protos(rng, messages=(0, 0), unions=(0, 0), **kw)) for _ in range(n)]


def struct_traces(rng, cases, reps=1, **kw):
    out = []
    for c in cases:
        for key in c.order if c.tag != "far" else []:
            if c.objs[key]["k"] == "struct" and ops.leaves(c.objs, key):
                for _ in range(reps):
                    out.append(ops.struct_trace(rng, c, key, **kw))
    return out


def thorough(rep):
    return rep.tier == "thorough"


def c01(rep):
    rng = rep.rng
    kinds = ["unsigned", "signed", "boolean"]
    state = {"k": 0}

    def make(name, n):
        state["k"] += 1
        return field(name, kinds[state["k"] % 3], n)
    cases = []
    for _ in range(3):
        state["k"] += 1
        cases += layout_cases(rng, make)
    # every kind at every layout
    if thorough(rep):
        for k in kinds:
            cases += layout_cases(rng, lambda name, n, k=k: field(name, k, n))
    cases += random_structs(rng, 400 if thorough(rep) else 40) + far_cases(rng, 0)
    p = Pipeline(rep, cases, want="s")
    p.run("TraceStruct", struct_traces(rng, p.usable, reps=6 if thorough(rep) else 1,
                                       per_leaf=8 if thorough(rep) else 4, arrays=False) + far_traces(rng, p.usable, arrays=False),
          {"rt", "typed", "panic"})
    # all small structures
    models.structs(rep, {"rt", "typed", "panic"})


def layout_verdict(x):
    """Whether a structure can be laid out."""
    return True


def c02(rep):
    rng = rep.rng
    n = 6 if thorough(rep) else 1
    kinds = ["unsigned", "signed", "boolean"]
    cases = []
    for _ in range(n):
        cases += layout_cases(rng, lambda name, w: field(name, rng.choice(kinds), w))
    cases += random_structs(rng, 60 * n)
    # structures which may not be accepted
    cases += boundary_structs(rng, every=1)
    cases += random_structs(rng, 150 * n, wild=0.4, count=1)
    p = Pipeline(rep, cases + far_cases(rng, 1), want="s", verdicts=layout_verdict)
    p.run("TraceStruct", struct_traces(rng, p.usable, reps=n, per_leaf=4) + far_traces(rng, p.usable),
          {"frame", "floatframe", "enumframe", "arrayframe", "array", "guard", "panic", "arraypanic"})
    # all small structures
    models.structs(rep, {"frame", "floatframe", "enumframe", "arrayframe", "array", "guard", "panic", "arraypanic"})


def boundary_structs(rng, every=1):
    """Single fields at every bit offset and width, whether or not that is possible."""
    cases = []
    combos = [(o, n) for o in range(8) for n in list(range(0, 67)) + [128]]
    rng.shuffle(combos)
    for o, n in combos[::every]:
        fields = ([field("a", "unsigned", o)] if o else []) + [field("b", "unsigned", n), field("c", "unsigned", 8)]
        cases.append(Case([proto("p0", rng.choice(["little", "big"]), structs=[struct("S", fields)])]))
    for o in range(8):
        for t in ("unsigned", "signed", "float", "boolean"):
            for n, k in ((8, 2), (16, 3), (12, 2), (4, 4), (7, 8), (32, 2), (64, 3), (8, 1), (8, 0)):
                fields = ([field("a", "unsigned", o)] if o else []) + [field("b", t, n, length=k),
                                                                       field("c", "unsigned", 8)]
                cases.append(Case([proto("p0", rng.choice(["little", "big"]), structs=[struct("S", fields)])]))
        inner = struct("I", [field("x", "unsigned", 3), field("y", "unsigned", rng.choice([5, 13]))])
        fields = ([field("a", "unsigned", o)] if o else []) + [field("b", "struct", ref="I"), field("c", "unsigned", 4)]
        cases.append(Case([proto("p0", rng.choice(["little", "big"]), structs=[inner, struct("S", fields)])]))
    return cases


def far_cases(rng, every):
    """Structures with fields which start behind 4 KiB and 64 KiB."""
    cases = []
    for i, (e, n) in enumerate((("little", 513), ("big", 513), ("little", 8193), ("big", 8193))):
        if i % 2 != every % 2 and n > 1000:
            continue
        fields = [field("a", "unsigned", 3), field("b", "signed", 5), field("bulk", "unsigned", 64, length=n)]
        for j, (t, b) in enumerate((("unsigned", 12), ("boolean", 1), ("signed", 3), ("unsigned", 8), ("signed", 16), ("unsigned", 24),
                                    ("unsigned", 32), ("signed", 37), ("boolean", 3), ("float", 32), ("unsigned", 40), ("float", 64),
                                    ("unsigned", 48), ("signed", 56), ("unsigned", 64))):
            fields.append(field("x%d" % j, t, b))
        for j, (t, b) in enumerate((("unsigned", 8), ("signed", 16), ("unsigned", 24), ("float", 32), ("unsigned", 56), ("boolean", 8))):
            fields.append(field("y%d" % j, t, b, length=3))
        fields += [field("i", "struct", ref="I"), field("z", "unsigned", 8)]
        inner = struct("I", [field("u", "unsigned", 4), field("v", "unsigned", 9), field("w", "signed", 3), field("k", "unsigned", 16, length=2)])
        cases.append(Case([proto("p0", e, structs=[inner, struct("S", fields)])], tag="far"))
    return cases


def far_traces(rng, cases, scalars=True, arrays=True):
    out = []
    for c in cases:
        if c.tag == "far":
            t = ops.struct_trace(rng, c, "p0.S", per_leaf=1, scalars=scalars, arrays=arrays,
                                 choose=lambda f: not (f["kind"] == "array" and f["n"] > 500))
            out.append(t)
    return out


def c03(rep):
    rng = rep.rng
    n = 6 if thorough(rep) else 1
    kinds = ["unsigned", "unsigned", "signed", "boolean"]
    cases = []
    for _ in range(2 * n):
        cases += layout_cases(rng, lambda name, w: field(name, rng.choice(kinds), w), endians=("little", "big"))
    cases += layout_cases(rng, lambda name, w: field(name, rng.choice(kinds), w), endians=("",))
    cases += layout_cases(rng, lambda name, w: field(name, "float", w, v=schema.rand_view(rng, w)), group=3)
    for e in ("little", "big", ""):
        for b in (32, 64):
            cases.append(Case([proto("p0", e, structs=[struct("S", [field("a", "float", b), field("b", "signed", b)])])]))
        for t, b in [("unsigned", w) for w in (8, 16, 24, 32, 40, 48, 56, 64)] + [("signed", w) for w in (8, 16, 32, 64)] \
                + [("float", 32), ("float", 64), ("boolean", 8)]:
            cases.append(Case([proto("p0", e, structs=[struct("S", [
                field("a", "unsigned", 8), field("x", t, b, length=rng.randint(2, 6)), field("z", "unsigned", 8)])])]))
    cases += random_structs(rng, 60 * n) + far_cases(rng, 0)
    p = Pipeline(rep, cases, want="s")
    traces = struct_traces(rng, p.usable, reps=n, per_leaf=3) + far_traces(rng, p.usable)
    traces += [ops.consts_trace(rng, c, key) for c in p.usable if c.tag != "far" for key in c.order if c.objs[key]["k"] == "struct"]
    p.run("TraceStruct", traces, {"layout", "store", "arraystore", "sizes"})
    # the same on the wire: scalars, structures, length prefixes and discriminants of messages
    from checks_wire import kinds_cases, message_traces, union_cases, usable
    cases = kinds_cases(rng) + [Case(schema.rand_protos(rng, messages=(2, 4))) for _ in range(20 * n)]
    for e in ("little", "big", ""):
        ss = [struct("N%d" % i, [field("v", t, b)]) for i, (t, b) in enumerate(
            [("unsigned", b) for b in (8, 16, 32, 64, 24, 12)] + [("signed", b) for b in (8, 16, 32, 64)] + [("float", 32), ("float", 64), ("boolean", 8)])]
        cases.append(Case([proto("p0", e, structs=ss, messages=[message("M", [mfield("f%d" % i, "item", s["name"]) for i, s in enumerate(ss)])] + [
            message("L%d" % i, [mfield("t", "string", max=m), mfield("a", "list", "N1", max=m)]) for i, m in enumerate(schema.MAXIMA)])]))
        # structures with a single field, which take part in messages as a scalar or as a structure
        single = [(t, b) for t in ("unsigned", "signed", "boolean") for b in range(1, 65)]
        ss = [struct("O%d" % i, [field("v", t, b)]) for i, (t, b) in enumerate(single)]
        ss += [struct("A%d" % i, [field("v", t, b, length=2)]) for i, (t, b) in enumerate(
            [("unsigned", 8), ("unsigned", 32), ("signed", 16), ("float", 32), ("boolean", 8)])]
        ss += [struct("V%d" % b, [field("v", "float", b, v=schema.rand_view(rng, b))]) for b in (7, 8, 16, 24, 32, 40, 64)]
        ss += [struct("E%d" % b, [field("v", "unsigned", b, v=view("enum", ref="E"))]) for b in (3, 8, 16, 24, 32, 64)]
        ss += [struct("I%d" % i, [field("v", "struct", ref="O%d" % i)]) for i in (7, 15, 23, 31, 71, 79, 95, 103)]
        for lo in range(0, len(ss), 40):
            use = ss[lo:lo + 40]
            need = [x for x in ss if x["name"] in [f["ref"] for y in use for f in y["fields"]] and x not in use]
            cases.append(Case([proto("p0", e, enums=[enum("E", [("A", 1), ("B", 5)])], structs=need + use,
                                     messages=[message("M", [mfield("f%d" % i, "item", x["name"]) for i, x in enumerate(use)]),
                                               message("Q", [mfield("f%d" % i, "item", x["name"], opt=True)
                                                             for i, x in enumerate(rng.sample(use, 8))])])]))
    p = Pipeline(rep, cases, "messages", want="m")
    p.run("TraceWire", message_traces(rng, usable(p), rounds=3 * n, nul=0, mismatch=0), {"bytes", "round", "value"})
    # all small structures
    models.structs(rep, {"layout", "store", "arraystore", "sizes"})


def c04(rep):
    rng = rep.rng
    n = 8 if thorough(rep) else 1
    cases = []
    for _ in range(n):
        for e in ("little", "big", ""):
            for k in range(10):
                enums = [schema.rand_enum(rng, "E%d" % i) for i in range(6)]
                if k == 0:
                    enums = [enum("E%d" % i, [("V%d" % j, v) for j, v in enumerate(vs)]) for i, vs in enumerate(
                        [[0, 5], [1, 2, 3], [0, 1, 3], [2 ** 63 - 1], [7, 6, 5, 4], [0, 255]])]

                def make(name, w):
                    fits = [x for x in enums if schema.enum_bits(x) <= w]
                    if not fits:
                        return field(name, "unsigned", w)
                    return field(name, "unsigned", w, v=view("enum", ref=rng.choice(fits)["name"]))
                ss = packed(rng, rng.sample(accepted_layouts(), 48), make, "S")
                cases.append(Case([proto("p0", e, enums=enums, structs=ss)]))
    accepted = list(cases)
    # fields at the limit of what their variants need
    for w in range(1, 65):
        for top in sorted({2 ** (w - 1) - 1, 2 ** (w - 1), 2 ** w - 2, 2 ** w - 1, 2 ** w, 2 ** w + 1, 2 ** (w + 1) - 1}):
            for extra in ([0], []):
                if top > 2 ** 64 - 1:
                    continue
                e = enum("E", [("V%d" % i, v) for i, v in enumerate(sorted(set(extra + [top])))])
                cases.append(Case([proto("p0", rng.choice(["little", "big"]), enums=[e],
                                         structs=[struct("S", [field("x", "unsigned", w, v=view("enum", ref="E"))])])]))
    for vs in ([], [("A", 1), ("B", 1)], [("A", 2 ** 63)], [("A", 2 ** 64 - 1)], [("A", 2 ** 63 - 1)]):
        cases.append(Case([proto("p0", "", enums=[enum("E", vs)],
                                 structs=[struct("S", [field("x", "unsigned", 64, v=view("enum", ref="E"))])])]))
    for t in ("signed", "float", "boolean"):
        cases.append(Case([proto("p0", "", enums=[enum("E", [("A", 1)])],
                                 structs=[struct("S", [field("x", t, 32, v=view("enum", ref="E"))])])]))
    p = Pipeline(rep, cases, want="s", verdicts=lambda x: True)
    choose = lambda f: f["kind"] == "fixed" and f["view"]["t"] == "enum"
    traces = struct_traces(rng, p.usable, reps=2 * n, per_leaf=8, choose=choose)
    # all raw values of narrow fields
    for c in p.usable:
        for key in c.order:
            if c.objs[key]["k"] == "struct":
                todo = [ops.op("setraw", i, v) for i, f in enumerate(ops.leaves(c.objs, key), 1)
                        if choose(f) and f["bits"] <= 4 for v in range(2 ** f["bits"])]
                traces.append({"kind": "s", "case": c, "key": key, "ops": todo,
                               "init": ops.rand_bytes(rng, c.objs[key]["bytes"])})
    p.run("TraceStruct", traces, {"enumrt", "enumtyped", "enumframe", "panic", "rt"})
    # all small structures
    models.structs(rep, {"enumrt", "enumtyped", "enumframe", "panic", "rt"})


def c05(rep):
    rng = rep.rng
    n = 8 if thorough(rep) else 1
    cases = []
    for _ in range(n):
        cases += layout_cases(rng, lambda name, w: field(name, "float", w, v=schema.rand_view(rng, w)), group=3)
        cases += layout_cases(rng, lambda name, w: field(name, "float", w, v=schema.rand_view(rng, w)),
                              endians=("",), group=3)
    for a, b, k in ((0, 1, 0), (-1, 1, 0), (0, 100, 0), (100, 0, 0), (-180, 180, 0), (0, 1, 100), (5, 6, -60),
                    (1000, 1001, 0), (-3, -2, 1), (0, -255, 0), (1, 256, 8),
                    # which single precision cannot express
                    (2 ** 30 + 1, 2 ** 30 + 5, 10), (-2 ** 29 - 1, 2 ** 29 + 1, 0), (2 ** 30 - 1, 3, 30)):
        for e in ("little", "big"):
            ws = [1, 2, 3, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64]
            fields, off = [], 0
            for w in ws:
                if off % 8 + w > 8 * ((w + 7) // 8):
                    fields.append(field("p%d" % w, "unsigned", 8 - off % 8))
                    off += 8 - off % 8
                fields.append(field("x%d" % w, "float", w, v=view("range", a=a, b=b, k=k)))
                off += w
            cases.append(Case([proto("p0", e, structs=[struct("S", fields)])]))
            fields = [f if f["view"]["t"] == "none" else dict(f, view=view("mult", a=b or 1, k=k)) for f in fields]
            cases.append(Case([proto("p0", e, structs=[struct("S", fields)])]))
    # views which cannot work
    for w in (1, 8, 16, 32, 48, 64):
        for v in (view("range", a=3, b=3), view("mult", a=0), view("range", a=0, b=0), view("range", a=0, b=1, k=30),
                  view("mult", a=1, k=200), view("mult", a=1, k=-100), view("range", a=-1, b=1, k=-120)):
            for t in ("float", "unsigned", "signed", "boolean"):
                cases.append(Case([proto("p0", "", structs=[struct("S", [field("x", t, w, v=v)])])]))
    p = Pipeline(rep, cases, want="s", verdicts=lambda x: True)
    # coefficients which single precision can only express with less precision are not of interest
    choose = lambda f: f["kind"] == "fixed" and f["view"]["t"] in ("range", "mult") and (
        abs(f["view"]["k"]) < 60 or f["ty"]["w"] == 64)
    traces = struct_traces(rng, p.usable, reps=n, per_leaf=6, choose=choose)
    for c in p.usable:
        for key in c.order:
            if c.objs[key]["k"] == "struct":
                todo = []
                for i, f in enumerate(ops.leaves(c.objs, key), 1):
                    if choose(f):
                        top = 2 ** f["bits"] - 1
                        for raw in (0, top):
                            todo.append(ops.op("setraw", i, raw))
                            todo.append(ops.op("set", i, ops.float_bits(ops.view_value(f, raw), f["ty"]["w"])))
                        for x in (-1, top + 1, top * 2, -top):
                            todo.append(ops.op("set", i, ops.float_bits(ops.view_value(f, x), f["ty"]["w"])))
                traces.append({"kind": "s", "case": c, "key": key, "ops": todo,
                               "init": ops.rand_bytes(rng, c.objs[key]["bytes"])})
    p.run("TraceStruct", traces, {"floatrt", "floattyped", "floatframe", "panic", "rt"})


def c06(rep):
    rng = rep.rng
    n = 8 if thorough(rep) else 1
    cases = []
    kinds = [("unsigned", b) for b in (8, 8, 16, 24, 32, 40, 48, 56, 64)] + [("signed", b) for b in (8, 16, 32, 64)] + \
        [("float", 32), ("float", 64), ("boolean", 8)]
    for e in ("little", "big", ""):
        for _ in range(2 * n):
            for length in (2, 3, 5, 8, 17):
                fields, rest = [], list(kinds)
                rng.shuffle(rest)
                for t, b in rest[:8]:
                    if rng.random() < 0.3:
                        w = rng.randint(1, 7)
                        fields += [field("q%d" % len(fields), "unsigned", w), field("q%d_" % len(fields), "signed", 8 - w)]
                    fields.append(field("x%d" % len(fields), t, b, length=length if rng.random() < 0.7 else rng.randint(2, 9)))
                inner = struct("I", fields)
                outer = struct("O", [field("a", "unsigned", 8), field("b", "struct", ref="I"),
                                     field("c", "unsigned", 8, length=4), field("d", "struct", ref="I")])
                cases.append(Case([proto("p0", e, structs=[inner, outer])]))
    for bits in (8, 16, 32, 64):
        cases.append(Case([proto("p0", "big", structs=[struct("S", [field("x", "unsigned", bits, length=k) for k in (1,)])])]))
    # long arrays: positions beyond 128, 256 and 512 bytes
    for e in ("little", "big"):
        for t, b in kinds[1:]:
            cases.append(Case([proto("p0", e, structs=[struct("S", [
                field("a", "unsigned", 8), field("x", t, b, length=rng.choice([257, 260, 300]) if b < 32 else rng.choice([129, 140])),
                field("z", "unsigned", 8)])], messages=[])], tag="long"))
    # ... and beyond 65536 items
    for e, t, b in (("little", "unsigned", 8), ("big", "unsigned", 16), ("little", "boolean", 8), ("big", "signed", 8)):
        cases.append(Case([proto("p0", e, structs=[struct("S", [
            field("a", "unsigned", 8), field("x", t, b, length=65536 + rng.randint(2, 40)), field("z", "unsigned", 8)])])], tag="longest"))
    # known finding: signed items of other widths
    for bits in (24, 40, 48, 56):
        for e in ("little", "big"):
            c = Case([proto("p0", e, structs=[struct("S", [field("x", "signed", bits, length=3), field("y", "unsigned", 8)])])])
            c.tag = "signed arrays of other widths"
            cases.append(c)
    p = Pipeline(rep, cases, want="s")
    choose = lambda f: f["kind"] == "array"
    traces = struct_traces(rng, [c for c in p.usable if c.tag != "longest"], reps=2 * n, per_leaf=6, choose=choose)
    traces += struct_traces(rng, [c for c in p.usable if c.tag not in ("long", "longest")], per_leaf=1)
    for c in p.usable:
        if c.tag == "longest":
            t = ops.struct_trace(rng, c, "p0.S", choose=lambda f: False)
            f = c.objs["p0.S"]["fields"][1]
            t["ops"] = [ops.op(o, 2, rng.getrandbits(f["item"]) & (2 ** f["ty"]["w"] - 1) if o == "aset" else 0, i) for o, i in (
                ("aset", 65535), ("aset", 65536), ("aget", 65535), ("aget", 65536), ("aset", f["n"] - 1), ("aget", f["n"] - 1), ("aget", f["n"]))]
            traces.append(t)
    for t in traces:
        if t["case"].tag == "long":
            # every power of two, and the end
            f = t["case"].objs[t["key"]]["fields"][1]
            for i in sorted({j for k in (32, 64, 128, 256) for j in (k - 1, k, k + 1)} | {f["n"] - 1, f["n"]}):
                if i <= f["n"]:
                    t["ops"].append(ops.op(rng.choice(["aset", "aget"]), 2, rng.getrandbits(f["item"]) & (2 ** f["ty"]["w"] - 1), i))

    def known(t, x):
        f = (ops.leaves(t["case"].objs, t["key"]) + [None])[x["ev"]["leaf"] - 1]
        if f and f["kind"] == "array" and f["ty"]["c"] == "i" and f["item"] not in (8, 16, 32, 64) and x["asp"] in ("array", "layout"):
            return "signed arrays of other widths"
        return None
    p.run("TraceStruct", traces, {"array", "arrayframe", "arraypanic", "arraystore", "guard"}, known=known)
    # all small structures
    models.structs(rep, {"array", "arrayframe", "arraypanic", "arraystore", "guard"})


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06}
