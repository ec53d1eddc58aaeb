"""Values and encodings to try. None of this decides anything: the specification judges whatever the
real code makes of them."""
from ops import short, word, rand_bytes, rand_raw
from schema import unword


def write_bits(buf, off, n, endian, v):
    for k in range(n):
        p = off + (k if endian == "little" else n - 1 - k)
        s = p % 8 if endian == "little" else 7 - p % 8
        buf[p // 8] = buf[p // 8] & ~(1 << s) | ((v >> k & 1) << s)


TEXTS = ["", "a", "abc", "\u00e9", "\u20ac", "\U0001f600", "x" * 31, "h\u00e9llo \u4e16\u754c", "\x7f", "\u0080", "\u07ff",
         "\u0800", "\ud7ff", "\ue000", "\uffff", "\U00010000", "\U0010ffff", " \n\t", "\x01", "\ufeff", "\ufeffx", "x\ufeff",
         "\u202e", "a\u0301", "\r\n"]

# not well-formed: lone continuation, overlong, surrogate, too large, cut off
BAD = [[0x80], [0xBF], [0xC0, 0x80], [0xC1, 0xBF], [0xE0, 0x80, 0x80], [0xE0, 0x9F, 0xBF], [0xED, 0xA0, 0x80],
       [0xED, 0xBF, 0xBF], [0xF0, 0x80, 0x80, 0x80], [0xF0, 0x8F, 0xBF, 0xBF], [0xF4, 0x90, 0x80, 0x80], [0xF5, 0x80, 0x80, 0x80],
       [0xFF], [0xFE], [0xC3], [0xE2, 0x82], [0xF0, 0x9F, 0x98], [0xC3, 0x28], [0xE2, 0x28, 0xA1], [0xE2, 0x82, 0x28],
       [0xF0, 0x28, 0x8C, 0xBC], [0xF0, 0x9F, 0x28, 0x80], [0xF8, 0x88, 0x80, 0x80, 0x80]]


def rand_text(rng, longest=8):
    if rng.random() < 0.5:
        return list(rng.choice(TEXTS).encode())
    return list("".join(chr(rng.choice([rng.randint(1, 127), rng.randint(128, 0x7FF), rng.randint(0x800, 0xD7FF),
                                        rng.randint(0xE000, 0xFFFF), rng.randint(0x10000, 0x10FFFF)]))
                        for _ in range(rng.randint(0, longest))).encode())


class Values:
    def __init__(self, rng, objs, nul=0.03, mismatch=0.05, long=0.0, items=3):
        """nul: probability of a zero inside a string, mismatch: of a discriminant of another case,
        long: of content which is longer than its prefix can tell."""
        self.rng, self.objs, self.nul, self.mismatch, self.long, self.items = rng, objs, nul, mismatch, long, items

    def string(self, f):
        rng = self.rng
        if f["kind"] == "vstr" and rng.random() < self.long and f["w"] <= 16:
            top = 2 ** f["w"]
            n = rng.choice([top - 2, top - 1, top, top + 1])
            return [rng.choice([65, 66, 67])] * n
        v = rand_text(rng)
        if rng.random() < self.nul:
            v.insert(rng.randint(0, len(v)), 0)
            # the zero may have ended up inside a character
            try:
                bytes(v).decode()
            except UnicodeDecodeError:
                v = [65, 0, 66]
        return v

    def item(self, ref, depth):
        if self.objs[ref]["k"] == "struct":
            return rand_bytes(self.rng, self.objs[ref]["bytes"])
        return self.message(ref, depth + 1)

    def count(self, f, depth):
        rng = self.rng
        if f["w"] == 8 and rng.random() < self.long and self.small(f["ref"]):
            return rng.choice([254, 255, 256, 257])
        return rng.randint(0, self.items if depth < 3 else 1)

    def small(self, ref):
        o = self.objs[ref]
        if o["k"] == "struct":
            return o["bytes"] <= 4
        return len(o["fields"]) <= 2 and all(f["kind"] in ("fixed", "struct", "nstr", "vstr") for f in o["fields"])

    def base(self, f, depth):
        k = f["kind"]
        if k == "fixed":
            if f["ty"]["c"] == "b":
                return short(self.rng.randint(0, 1))
            return short(rand_raw(self.rng, f["ty"]["w"], False))
        if k in ("struct", "msg"):
            return self.item(f["ref"], depth)
        if k in ("nstr", "vstr"):
            return self.string(f)
        if k == "payload":
            return rand_bytes(self.rng, self.rng.randint(0, 6))
        if k in ("array", "list"):
            n = self.count(f, depth)
            return [self.item(f["ref"], depth) for _ in range(n)]
        u = self.objs[f["ref"]]
        return self.union(u, depth)

    def union(self, u, depth=0, c=None):
        c = c or self.rng.randint(1, len(u["cases"]))
        ref = u["cases"][c - 1]["ref"]
        return {"c": c, "v": [self.item(ref, depth)] if ref else []}

    def message(self, key, depth=0):
        m = self.objs[key]
        out = []
        for f in m["fields"]:
            if f["opt"] and self.rng.random() < 0.4:
                out.append([])
            else:
                v = self.base(f, depth)
                out.append([v] if f["opt"] else v)
        # discriminants which belong to the cases; unions which share one have to agree
        done = {}
        for i, f in enumerate(m["fields"]):
            if f["kind"] != "union":
                continue
            u = self.objs[f["ref"]]
            on = f["on"] - 1
            leaf = u["leaf"]
            at = (on, leaf["off"], leaf["bits"])
            if at in done:
                for c, k in enumerate(u["cases"], 1):
                    if unword(k["v"]) == done[at] and self.rng.random() >= self.mismatch:
                        out[i] = self.union(u, depth, c)
                continue
            if self.rng.random() < self.mismatch:
                continue
            v = unword(u["cases"][out[i]["c"] - 1]["v"])
            done[at] = v
            write_bits(out[on], leaf["off"], leaf["bits"], leaf["endian"], v)
        return out


class Encoder:
    """Encodings, possibly damaged in ways that matter: flags, lengths, text, discriminants."""

    def __init__(self, rng, objs, chaos=0.1):
        self.rng, self.objs, self.chaos = rng, objs, chaos

    def hit(self):
        return self.rng.random() < self.chaos

    def number(self, v, w, endian):
        b = (v & (2 ** w - 1)).to_bytes(w // 8, "little")
        return list(b if endian == "little" else b[::-1])

    def length(self, n, f):
        if self.hit():
            n = self.rng.choice([n + 1, n - 1, 0, 2 ** f["w"] - 1, 2 ** (f["w"] - 1), n + 2 ** (f["w"] // 2), n + 3])
        return self.number(n, f["w"], f["endian"])

    def item(self, ref, v):
        return list(v) if self.objs[ref]["k"] == "struct" else self.message(ref, v)

    def text(self, v):
        if self.hit():
            bad = self.rng.choice(BAD)
            at = self.rng.randint(0, len(v))
            return v[:at] + bad + v[at:]
        return v

    def base(self, f, v):
        k = f["kind"]
        if k == "fixed":
            if f["ty"]["c"] == "b" and self.hit():
                return [self.rng.choice([2, 255, 128])]
            return self.number(unword(v), f["ty"]["w"], f["endian"])
        if k in ("struct", "msg"):
            return self.item(f["ref"], v)
        if k == "nstr":
            return self.text(v) + ([] if self.hit() else [0])
        if k == "vstr":
            v = self.text(v)
            return self.length(len(v), f) + v
        if k == "payload":
            return v
        if k in ("array", "list"):
            return self.length(len(v), f) + [b for x in v for b in self.item(f["ref"], x)]
        ref = self.objs[f["ref"]]["cases"][v["c"] - 1]["ref"]
        return self.item(ref, v["v"][0]) if ref else []

    def message(self, key, v):
        out = []
        for f, x in zip(self.objs[key]["fields"], v):
            if f["opt"]:
                out += [0] if x == [] else [self.rng.choice([2, 128, 255, 3]) if self.hit() else 1]
                if x == []:
                    continue
                x = x[0]
            out += self.base(f, x)
        return out
