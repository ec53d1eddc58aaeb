"""Generates the operations of traces from what was compiled. None of this decides anything: the
specification judges whatever the real code answers."""
import struct as pack

from schema import unword


def short(v):
    b = (v & (2 ** 64 - 1)).to_bytes(8, "little")
    return list(b.rstrip(b"\0"))


def word(v):
    return list((v & (2 ** 64 - 1)).to_bytes(8, "little"))


def rand_bytes(rng, n):
    r = rng.random()
    if r < 0.15:
        return [0] * n
    if r < 0.3:
        return [255] * n
    if r < 0.4:
        return [rng.choice([0x55, 0xAA])] * n
    return [rng.randrange(256) for _ in range(n)]


def rand_raw(rng, bits, wide=True):
    """A raw value; sometimes wider than the field."""
    top = 2 ** bits - 1
    r = rng.random()
    if r < 0.15:
        return 0
    if r < 0.3:
        return top
    if r < 0.4:
        return 1 << (bits - 1)
    if r < 0.5:
        return (1 << (bits - 1)) - 1
    if r < 0.6:
        return 1 << rng.randrange(bits)
    if r < 0.7 and wide:
        return rng.getrandbits(64)
    if r < 0.75 and wide:
        return 2 ** 64 - 1
    return rng.randint(0, top)


def float_bits(x, w):
    try:
        return unword(pack.pack("<f" if w == 32 else "<d", x))
    except OverflowError:
        return unword(pack.pack("<f" if w == 32 else "<d", float("inf") if x > 0 else float("-inf")))


def view_value(f, raw):
    """Roughly what a float view shows for a raw value."""
    v = f["view"]
    scale = 2.0 ** -v["k"]
    if v["t"] == "range":
        return (v["a"] + raw * (v["b"] - v["a"]) / (2 ** f["bits"] - 1)) * scale
    return raw * v["a"] * scale


def rand_float(rng, f):
    w = f["ty"]["w"]
    if f["view"]["t"] == "none":
        r = rng.random()
        if r < 0.3:
            return rng.getrandbits(w)
        if r < 0.6:
            return float_bits(rng.choice([0.0, -0.0, 1.0, -1.5, float("inf"), float("-inf"), 1e-45, 3.4e38]), w)
        if r < 0.75:
            return float_bits(rng.uniform(-1000, 1000), w)
        # payloads of NaN are bits, too
        exp = (0xFF << 23) if w == 32 else (0x7FF << 52)
        return exp | rng.getrandbits(w) | 1
    top = 2 ** f["bits"] - 1
    r = rng.random()
    if r < 0.25:
        return float_bits(view_value(f, rand_raw(rng, f["bits"], False)), w)
    if r < 0.45:
        return float_bits(view_value(f, rng.choice([0, top])), w)
    if r < 0.6:
        return float_bits(view_value(f, rng.uniform(0, top)), w)
    if r < 0.7:
        return float_bits(view_value(f, rng.uniform(-top - 2, 2 * top + 2)), w)
    if r < 0.78:
        return float_bits(view_value(f, rng.choice([-1, top + 1, -0.5, top + 0.5, 0.5, top - 0.5])), w)
    if r < 0.84:
        return float_bits(rng.choice([float("inf"), float("-inf"), float("nan")]), w)
    if r < 0.9:
        return rng.getrandbits(w)
    return float_bits(rng.choice([0.0, -0.0, 1e30, -1e30, 1e-30, 1e300, -1e300]), w)


def leaves(objs, key):
    out = []
    for f in objs[key]["fields"]:
        if f["kind"] == "struct":
            out += leaves(objs, f["ref"])
        else:
            out.append(f)
    return out


def op(name, leaf=0, arg=0, idx=0):
    return {"op": name, "leaf": leaf, "idx": idx, "arg": short(arg)}


def scalar_ops(rng, objs, i, f, count, raw=True, typed=True):
    """Random operations on a scalar leaf."""
    out = []
    for _ in range(count):
        kinds = []
        if raw:
            kinds.append("raw")
        if typed:
            kinds.append("typed")
        if rng.random() < 0.08:
            out.append(op("get", i))
            continue
        if rng.choice(kinds) == "raw":
            v = rand_raw(rng, f["bits"])
            if f["view"]["t"] == "enum" and rng.random() < 0.7:
                vs = [unword(x["v"]) for x in objs[f["view"]["ref"]]["variants"]]
                v = rng.choice(vs) + rng.choice([0, 0, 1, -1])
            out.append(op("setraw", i, v & (2 ** f["raw"] - 1)))
        elif f["view"]["t"] == "enum":
            out.append(op("set", i, rng.randint(1, len(objs[f["view"]["ref"]]["variants"]))))
        elif f["ty"]["c"] == "f":
            out.append(op("set", i, rand_float(rng, f)))
        elif f["ty"]["c"] == "b":
            out.append(op("set", i, rng.randint(0, 1)))
        else:
            v = rand_raw(rng, f["bits"])
            if f["ty"]["c"] == "i" and rng.random() < 0.5:
                v = -v
            out.append(op("set", i, v & (2 ** f["ty"]["w"] - 1)))
    return out


def array_ops(rng, i, f, count):
    out = []
    n = f["n"]
    edges = [0, n - 1]
    for _ in range(count):
        r = rng.random()
        idx = rng.choice(edges + [rng.randrange(n)])
        if r < 0.08:
            idx = rng.choice([n, n + 1, n + 7, 10 * n])
        v = rand_raw(rng, f["item"]) & (2 ** f["ty"]["w"] - 1)
        if f["ty"]["c"] == "f":
            v = rng.getrandbits(f["ty"]["w"])
        if r < 0.5:
            out.append(op("aset", i, v, idx))
        elif r < 0.65:
            out.append(op("aget", i, 0, idx))
        elif r < 0.7:
            out.append(op("alen", i))
        elif r < 0.82:
            out.append(op("aiter", i))
        elif f["ty"]["c"] == "u" and f["item"] == 8:
            out.append(op("abytes", i) if r < 0.9 else op("abyteset", i, v, idx))
        else:
            out.append(op("aset", i, v, idx))
    return out


def struct_trace(rng, case, key, per_leaf=3, scalars=True, arrays=True, shuffle=True, choose=None, **kw):
    objs = case.objs
    ops = []
    for i, f in enumerate(leaves(objs, key), 1):
        if choose and not choose(f):
            continue
        if f["kind"] == "array":
            if arrays:
                ops += array_ops(rng, i, f, per_leaf * 2)
        elif scalars:
            ops += scalar_ops(rng, objs, i, f, per_leaf, **kw)
    if shuffle:
        rng.shuffle(ops)
    return {"kind": "s", "case": case, "key": key, "init": rand_bytes(rng, objs[key]["bytes"]), "ops": ops}


def consts_trace(rng, case, key):
    return {"kind": "c", "case": case, "key": key, "init": rand_bytes(rng, case.objs[key]["bytes"])}
