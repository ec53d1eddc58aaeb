"""Protocol definitions: canonical form (read by the TLA+ specification), definition files (read by
the compiler) and random generators."""
import json
import random
from fractions import Fraction


def word(v):
    return list((v & (2 ** 64 - 1)).to_bytes(8, "little"))


def unword(b):
    return int.from_bytes(bytes(b), "little")


NO_VIEW = {"t": "none", "ref": "", "a": 0, "b": 0, "k": 0}


def view(t, ref="", a=0, b=0, k=0):
    return {"t": t, "ref": ref, "a": a, "b": b, "k": k}


def field(name, t, bits=0, ref="", length=None, v=None):
    return {"name": name, "t": t, "bits": bits, "ref": ref, "len": [] if length is None else [length],
            "view": v or dict(NO_VIEW)}


def struct(name, fields):
    return {"name": name, "fields": fields}


def enum(name, variants):
    return {"name": name, "variants": [{"k": k, "v": word(v)} for k, v in variants]}


def case(name, c, ref=""):
    return {"name": name, "c": c, "cc": [ord(x) for x in c], "ref": ref}


def union(name, disc, cases):
    return {"name": name, "disc": disc.split("."), "cases": cases}


def mfield(name, t, ref="", max=None, on="", opt=False):
    return {"name": name, "t": t, "ref": ref, "max": [] if max is None else [word(max)], "on": on, "opt": opt}


def message(name, fields):
    return {"name": name, "fields": fields}


def proto(name, endian="", imports=(), enums=(), structs=(), unions=(), messages=()):
    return {"name": name, "endian": endian, "imports": [{"p": p, "t": t} for p, t in imports],
            "enums": list(enums), "structs": list(structs), "unions": list(unions), "messages": list(messages)}


# ---------------------------------------------------------------------------------------------
# Definition files

def number(n, k):
    """n / 2^k as a literal which denotes exactly that number."""
    v = Fraction(n) / (Fraction(2) ** k)
    f = float(v)
    assert Fraction(f) == v, (n, k)
    return f


def to_definition(p):
    def conv_field(f):
        info = {"type": f["t"]}
        if f["t"] == "struct":
            info["item_type"] = f["ref"]
        else:
            info["bits"] = f["bits"]
        r = {"name": f["name"], "info": info}
        v = f["view"]
        if v["t"] == "enum":
            r["view"] = {"type": "enum", "name": v["ref"]}
        elif v["t"] == "range":
            r["view"] = {"type": "float-range", "min": number(v["a"], v["k"]), "max": number(v["b"], v["k"])}
        elif v["t"] == "mult":
            r["view"] = {"type": "float-multiplier", "multiplier": number(v["a"], v["k"])}
        if f["len"]:
            r["array_len"] = f["len"][0]
        return r

    def conv_mfield(f):
        info = {"type": f["t"]}
        if f["t"] in ("item", "list", "union"):
            info["item_type"] = f["ref"]
        if f["t"] == "union":
            info["on"] = f["on"]
        if f["max"]:
            info["max_len"] = unword(f["max"][0])
        r = {"name": f["name"], "info": info}
        if f["opt"]:
            r["optional"] = True
        return r

    def conv_case(c):
        r = {"name": c["name"], "case": c["c"]}
        if c["ref"]:
            r["item_type"] = c["ref"]
        return r

    d = {"name": p["name"]}
    if p["endian"]:
        d["endianness"] = p["endian"]
    if p["imports"]:
        d["imports"] = [{"protocol": i["p"], "type": i["t"]} for i in p["imports"]]
    if p["enums"]:
        d["enums"] = [{"name": e["name"], "variants": {v["k"]: unword(v["v"]) for v in e["variants"]}}
                      for e in p["enums"]]
    if p["structs"]:
        d["structs"] = [{"name": s["name"], "fields": [conv_field(f) for f in s["fields"]]} for s in p["structs"]]
    if p["unions"]:
        d["unions"] = [{"name": u["name"], "discriminant": ".".join(u["disc"]),
                        "cases": [conv_case(c) for c in u["cases"]]} for u in p["unions"]]
    if p["messages"]:
        d["messages"] = [{"name": m["name"], "fields": [conv_mfield(f) for f in m["fields"]]}
                         for m in p["messages"]]
    return d


def to_text(p):
    return json.dumps(to_definition(p), indent=1)


# ---------------------------------------------------------------------------------------------
# Random definitions. They aim at valid definitions, but nothing depends on that: the specification
# decides about every one of them.

ENDIANS = ["little", "big", ""]

# Field names which generated code could trip over, all of them valid identifiers.
NASTY = ["slice", "byte_offset", "offsets", "data", "input", "out", "msg", "value", "name", "size", "len",
         "raw_value", "discriminant", "Upper", "camelCase", "x_y_z", "_u", "v9", "T", "B", "W", "ok", "err",
         "item", "bits", "result", "a_msg", "index", "camelCaseName", "aB", "someURLs", "two__parts", "PascalCase"]


class Names:
    def __init__(self, rng, nasty=0.1):
        self.rng, self.nasty, self.used, self.n = rng, nasty, set(), 0

    def field(self):
        if self.rng.random() < self.nasty:
            n = self.rng.choice(NASTY)
            # the accessors of value and raw_value have the same names
            twin = {"value": "raw_value", "raw_value": "value"}.get(n)
            if n.lower() not in self.used and twin not in self.used:
                self.used.add(n.lower())
                return n
        self.n += 1
        return "f%d" % self.n

    def type(self, prefix):
        self.n += 1
        if self.rng.random() < 0.2:
            return self.rng.choice(["%s%d", "%sCamelCase%d", "%s_snake_%d", "HTTP%s%d", "lower%s%d", "%s_A_b%d_"]) % (prefix, self.n)
        return "%s%d" % (prefix, self.n)


def rand_width(rng):
    r = rng.random()
    if r < 0.25:
        return rng.choice([8, 16, 32, 64])
    if r < 0.35:
        return rng.choice([24, 40, 48, 56])
    if r < 0.7:
        return rng.randint(1, 16)
    return rng.randint(1, 64)


def fit_width(rng, off):
    """A width which can be accessed at bit offset off."""
    b = off % 8
    while True:
        n = rand_width(rng)
        if b + n <= 8 * ((n + 7) // 8):
            return n


def rand_view(rng, bits, extreme=False):
    k = rng.randint(-6, 10)
    if rng.random() < 0.5:
        a, b = rng.randint(-2000, 2000), rng.randint(-2000, 2000)
        if rng.random() < 0.3:
            a = 0
        if a == b:
            b += 1
        return view("range", a=a, b=b, k=k)
    a = rng.choice([-1, 1]) * rng.randint(1, 2000)
    return view("mult", a=a, b=0, k=k)


class Scope:
    """What a protocol under construction may refer to."""

    def __init__(self):
        self.enums, self.structs, self.unions, self.messages = {}, {}, {}, {}


def rand_enum(rng, name, bits=None):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    top = 2 ** (bits if bits else rng.choice([1, 2, 3, 3, 4, 8, 12, 16, 32, 62])) - 1
    values = set()
    for _ in range(n):
        values.add(min(top, rng.choice([rng.randint(0, min(top, 7)), rng.randint(0, top), top])))
    values = sorted(values)
    rng.shuffle(values)
    return enum(name, [("V%d" % i, v) for i, v in enumerate(values)])


def enum_bits(e):
    return max(max(unword(v["v"]).bit_length() for v in e["variants"]), 1)


def rand_scalar(rng, name, off, scope, kinds=None):
    kind = rng.choice(kinds or ["u", "u", "i", "i", "b", "f", "enum", "range", "mult"])
    n = fit_width(rng, off)
    if kind == "u":
        return field(name, "unsigned", n)
    if kind == "i":
        return field(name, "signed", n)
    if kind == "b":
        return field(name, "boolean", n if rng.random() < 0.5 else 1)
    if kind == "f":
        return field(name, "float", rng.choice([32, 64])) if off % 8 == 0 else field(name, "unsigned", n)
    if kind == "enum":
        fits = [e for e in scope.enums.values() if enum_bits(e) <= n]
        if fits:
            return field(name, "unsigned", n, v=view("enum", ref=rng.choice(fits)["name"]))
        return field(name, "unsigned", n)
    v = rand_view(rng, n)
    if kind == "range":
        v = dict(v, t="range") if v["a"] != v["b"] else v
    return field(name, "float", n, v=v)


def struct_bits(s, scope):
    t = 0
    for f in s["fields"]:
        if f["t"] == "struct":
            t += struct_bits(scope.structs[f["ref"]], scope)
        else:
            t += f["bits"] * (f["len"][0] if f["len"] else 1)
    return t


def rand_array(rng, name):
    t = rng.choice(["unsigned", "unsigned", "signed", "float", "boolean"])
    if t == "unsigned":
        bits = rng.choice([8, 8, 16, 24, 32, 40, 48, 56, 64])
    elif t == "signed":
        bits = rng.choice([8, 16, 32, 64])
    elif t == "float":
        bits = rng.choice([32, 64])
    else:
        bits = 8
    return field(name, t, bits, length=rng.choice([2, 2, 3, 4, 5, 7]))


def rand_struct(rng, name, scope, size=(1, 8), kinds=None, arrays=0.12, nested=0.12, wild=0.0):
    names = Names(rng)
    fields, off = [], 0
    for _ in range(rng.randint(*size)):
        r = rng.random()
        want_aligned = r < arrays + nested
        if off % 8 and want_aligned and rng.random() > wild:
            pad = 8 - off % 8
            fields.append(field(names.field(), rng.choice(["unsigned", "signed", "boolean"]), pad))
            off += pad
        if r < arrays:
            f = rand_array(rng, names.field())
        elif r < arrays + nested and scope.structs:
            f = field(names.field(), "struct", ref=rng.choice(list(scope.structs)))
        else:
            f = rand_scalar(rng, names.field(), off if rng.random() >= wild else 0, scope, kinds)
        fields.append(f)
        off = struct_bits(struct(name, fields), scope)
    return struct(name, fields)


def discriminants(s, scope, path=()):
    """Paths to scalars of a structure which a union can depend on."""
    out = []
    for f in s["fields"]:
        if f["t"] == "struct":
            out += discriminants(scope.structs[f["ref"]], scope, path + (f["name"],))
        elif not f["len"] and f["t"] != "float":
            out.append((path + (f["name"],), f))
    return out


def flattened(s):
    if len(s["fields"]) != 1:
        return False
    f = s["fields"][0]
    return f["t"] != "struct" and not f["len"] and f["view"]["t"] == "none" and f["bits"] in (8, 16, 32, 64) \
        and (f["t"] != "boolean" or f["bits"] == 8)


def rand_union(rng, name, scope):
    roots = [s for s in scope.structs.values() if discriminants(s, scope) and not flattened(s)]
    if not roots:
        return None
    root = rng.choice(roots)
    path, f = rng.choice(discriminants(root, scope))
    n = f["bits"]
    if f["view"]["t"] == "enum":
        values = [v["k"] for v in scope.enums[f["view"]["ref"]]["variants"]]
        rng.shuffle(values)
        values = values[:rng.randint(1, len(values))]
    else:
        lo, hi = (-(2 ** (n - 1)), 2 ** (n - 1) - 1) if f["t"] == "signed" else (0, 2 ** n - 1)
        pool = {rng.randint(lo, hi), lo, hi, 0, min(hi, 1), rng.randint(lo, hi), max(lo, -1), min(hi, 2)}
        pool = [v for v in pool]
        rng.shuffle(pool)
        values = [str(v) for v in pool[:rng.randint(1, 5)]]
    refs = list(scope.structs) + 2 * list(scope.messages)
    cases = [case("C%d" % i, v, rng.choice(refs) if refs and rng.random() < 0.75 else "")
             for i, v in enumerate(values)]
    return union(name, ".".join((root["name"],) + path), cases)


MAXIMA = [0, 1, 10, 254, 255, 256, 1000, 65535, 65536, 100000, 2 ** 32 - 1, 2 ** 32, 2 ** 40]


class MsgInfo:
    def __init__(self, m, scope):
        self.m = m
        self.dyn = self.elem = self.payload = False
        self.lists = False
        for f in m["fields"]:
            if f["t"] == "list":
                self.dyn = True
                if f["ref"] in scope.messages:
                    self.elem = self.lists = True
            elif f["t"] == "string":
                self.dyn = True
            elif f["t"] == "payload":
                self.dyn = self.elem = self.payload = True
            else:
                refs = [f["ref"]] if f["t"] == "item" else \
                    [c["ref"] for c in scope.unions[f["ref"]]["cases"] if c["ref"]]
                for r in refs:
                    if r in scope.messages and r not in scope.structs:
                        i = scope.messages[r]
                        self.dyn |= i.dyn
                        self.elem |= i.elem
                        self.payload |= i.payload
                        self.lists |= i.lists
        # content for certain
        self.sure = any(f["t"] in ("list", "string") or f["opt"] or
                        (f["t"] == "item" and f["ref"] in scope.structs and
                         struct_bits(scope.structs[f["ref"]], scope) > 0) or
                        (f["t"] == "item" and f["ref"] in scope.messages and scope.messages[f["ref"]].sure)
                        for f in m["fields"])


def rand_message(rng, name, scope, size=(1, 6), kinds=None, opt=0.3, wild=0.0, foreign=()):
    """foreign: messages which may not be put in lists or in front of other fields."""
    names = Names(rng)
    fields = []
    elem = False
    count = rng.randint(*size)
    while len(fields) < count:
        last = len(fields) == count - 1
        kind = rng.choice(kinds or ["struct", "struct", "scalar", "msg", "nstr", "vstr", "array", "list", "union",
                                    "union", "payload"])
        o = rng.random() < opt
        n = names.field()
        free = rng.random() < wild
        if kind in ("struct", "scalar"):
            pool = [s for s in scope.structs if flattened(scope.structs[s]) == (kind == "scalar")] \
                or list(scope.structs)
            if not pool:
                kind = "nstr"
            else:
                fields.append(mfield(n, "item", ref=rng.choice(pool), opt=o))
                continue
        if kind == "msg":
            pool = [m for m, i in scope.messages.items()
                    if free or (not (elem and (i.dyn or i.elem)) and not (i.payload and not last)
                                and not (m in foreign and i.lists and not last))]
            if not pool:
                kind = "nstr"
            else:
                m = rng.choice(pool)
                fields.append(mfield(n, "item", ref=m, opt=o))
                elem |= scope.messages[m].elem
                continue
        if kind == "union":
            done = False
            unions = list(scope.unions.values())
            rng.shuffle(unions)
            for u in unions:
                infos = [scope.messages[c["ref"]] for c in u["cases"] if c["ref"] in scope.messages]
                if not free and (elem and any(i.dyn or i.elem for i in infos)
                                 or not last and any(i.payload for i in infos)
                                 or not last and any(c["ref"] in foreign and scope.messages[c["ref"]].lists
                                                     for c in u["cases"] if c["ref"] in scope.messages)):
                    continue
                on = [f for f in fields if f["t"] == "item" and f["ref"] == u["disc"][0] and not f["opt"]]
                if not on:
                    on = [mfield(names.field(), "item", ref=u["disc"][0])]
                    if on[0]["ref"] not in scope.structs:
                        continue
                    fields.append(on[0])
                    count = max(count, len(fields) + 1)
                    if len(fields) + 1 < count and any(i.payload for i in infos):
                        count = len(fields) + 1
                fields.append(mfield(n, "union", ref=u["name"], on=rng.choice(on)["name"],
                                     opt=o and rng.random() < 0.1))
                elem |= any(i.elem for i in infos)
                done = True
                break
            if done:
                continue
            kind = "nstr"
        if kind == "payload":
            if (last and not elem) or free:
                fields.append(mfield(n, "payload", opt=o))
                elem = True
                continue
            kind = "vstr"
        if elem and not free:
            pool = list(scope.structs)
            if not pool:
                break
            fields.append(mfield(n, "item", ref=rng.choice(pool), opt=o))
            continue
        if kind == "list":
            pool = [m for m, i in scope.messages.items() if free or (not i.payload and i.sure and
                                                                     not (m in foreign and i.lists))]
            if pool:
                fields.append(mfield(n, "list", ref=rng.choice(pool), max=rng.choice(MAXIMA), opt=o))
                elem = True
                continue
            kind = "array"
        if kind == "array":
            pool = [s for s in scope.structs if free or struct_bits(scope.structs[s], scope) > 0]
            if pool:
                fields.append(mfield(n, "list", ref=rng.choice(pool), max=rng.choice(MAXIMA), opt=o))
                continue
            kind = "vstr"
        if kind == "vstr":
            fields.append(mfield(n, "string", max=rng.choice(MAXIMA), opt=o))
        else:
            fields.append(mfield(n, "string", opt=o))
    for f in fields:
        # the type of the list would be called like the one of the offsets
        if f["t"] == "list" and f["name"] == "offsets":
            f["name"] = "offsets_"
    return message(name, fields)


def rand_protos(rng, count=None, structs=(1, 4), messages=(1, 3), kinds=None, opt=0.3, wild=0.0, size=(1, 6),
                struct_opts=None, unions=(0, 2)):
    """A chain of protocols, every one of which may import from the ones before."""
    count = count or rng.choice([1, 1, 2, 2, 3])
    protos, known = [], []
    top = Names(rng, 0)
    for i in range(count):
        scope = Scope()
        imports, foreign = [], set()
        pool = [k for k in known]
        rng.shuffle(pool)
        def take(entry):
            p, kind, n, obj, needs = entry
            if any(t == n for _, t in imports):
                return
            # definitions are only usable together with what they are made of
            for e in needs:
                take(e)
            if any(t == n for _, t in imports):
                return
            imports.append((p, n))
            getattr(scope, kind)[n] = obj
            if kind == "messages":
                foreign.add(n)
        for e in pool[:rng.randint(1, 6)] if pool else []:
            take(e)
        name = rng.choice(["_p%d", "P%d", "p%d_", "longer_protocol_name_%d", "camelCase%d", "p_%d__x"] if rng.random() < 0.25 else ["p%d"]) % i
        enums, sts, uns, msgs = [], [], [], []
        def entry(kind, n, obj, refs):
            """Everything another protocol needs to know to use this definition."""
            needs = []
            for r in refs:
                needs += [k for k in known if k[2] == r] or [k for k in local if k[2] == r]
            e = (name, kind, n, obj, needs)
            local.append(e)
        local = []
        for _ in range(rng.randint(0, 2)):
            e = rand_enum(rng, top.type("E"))
            enums.append(e)
            scope.enums[e["name"]] = e
            entry("enums", e["name"], e, [])
        for _ in range(rng.randint(*structs)):
            s = rand_struct(rng, top.type("S"), scope, wild=wild, **(struct_opts or {"size": (1, 5)}))
            sts.append(s)
            scope.structs[s["name"]] = s
            entry("structs", s["name"], s, [f["ref"] for f in s["fields"] if f["ref"]] +
                  [f["view"]["ref"] for f in s["fields"] if f["view"]["ref"]])
        for _ in range(rng.randint(*unions)):
            u = rand_union(rng, top.type("U"), scope)
            if u:
                uns.append(u)
                scope.unions[u["name"]] = u
                entry("unions", u["name"], u, [u["disc"][0]] + [c["ref"] for c in u["cases"] if c["ref"]])
        for _ in range(rng.randint(*messages)):
            m = rand_message(rng, top.type("M"), scope, kinds=kinds, opt=opt, wild=wild, size=size,
                             foreign=foreign)
            msgs.append(m)
            scope.messages[m["name"]] = MsgInfo(m, scope)
            entry("messages", m["name"], scope.messages[m["name"]], [f["ref"] for f in m["fields"] if f["ref"]])
        known += local
        protos.append(proto(name, rng.choice(ENDIANS), imports, enums, sts, uns, msgs))
    return protos
