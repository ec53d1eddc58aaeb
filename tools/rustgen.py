"""Generates the drivers which run scripts on the code generated for the cases, and compiles them."""
import json
import os
import re
import subprocess
import time

import core


def capitalize(s):
    return s[:1].upper() + s[1:]


class Gen:
    """Driver code of one case."""

    def __init__(self, case):
        self.case = case
        self.objs = case.objs
        self.mod = "crate::case_%d" % case.id
        self.arms = []
        self.code = []

    def path(self, key):
        o = self.objs[key]
        return "%s::%s::%s" % (self.mod, o["proto"], o["name"])

    def ty(self, key):
        """The type of a message or union."""
        return self.path(key) + ("<'static>" if self.objs[key]["lt"] else "")

    def sty(self, key):
        return self.path(key) + "<&'static [u8]>"

    # -- structures

    def leaves(self, key, path=()):
        out = []
        for f in self.objs[key]["fields"]:
            if f["kind"] == "struct":
                out += self.leaves(f["ref"], path + (f["name"],))
            else:
                out.append((path, f))
        return out

    def struct(self, key):
        o = self.objs[key]
        p = self.path(key)
        snap, typed, set_raw, set_, array = [], [], [], [], []
        for i, (path, f) in enumerate(self.leaves(key), 1):
            get = "s" + "".join(".get_%s()" % x for x in path)
            mut = "s" + "".join(".get_%s_mut()" % x for x in path)
            n = f["name"]
            if f["kind"] == "array":
                snap.append("match %s.get_%s() { a => out.push(rt::Value::Array((0..%d).map(|i| "
                            "rt::put(a.get_raw(i))).collect())) }" % (get, n, f["n"]))
                array.append('(%d, "get") => { let s = %s::new(&*b); let v = rt::put(%s.get_%s().get_raw(i)); v }'
                             % (i, p, get, n))
                array.append('(%d, "len") => { let s = %s::new(&*b); let v = %s.get_%s().len(); rt::json!([v]) }'
                             % (i, p, get, n))
                array.append('(%d, "iter") => { let s = %s::new(&*b); let v = match %s.get_%s() { a => '
                             'a.iter_raw().take(1000).map(rt::put).collect::<Vec<_>>() }; v.into() }' % (i, p, get, n))
                array.append('(%d, "set") => { let mut s = %s::new(b); %s.get_%s_mut().set_raw(i, rt::Raw::of(v)); '
                             'rt::json!([]) }' % (i, p, mut, n))
                if f["ty"]["c"] == "u" and f["item"] == 8:
                    array.append('(%d, "bytes") => { let s = %s::new(&*b); let v = AsRef::<[u8]>::as_ref('
                                 '&%s.get_%s()).to_vec(); v.into() }' % (i, p, get, n))
                    array.append('(%d, "byteset") => { let mut s = %s::new(b); AsMut::<[u8]>::as_mut('
                                 '&mut %s.get_%s_mut())[i] = v as u8; rt::json!([]) }' % (i, p, mut, n))
                continue
            snap.append("out.push(rt::put(%s.get_raw_%s()));" % (get, n))
            set_raw.append("%d => { %s.set_raw_%s(rt::Raw::of(v)); }" % (i, mut, n))
            if f["view"]["t"] == "enum":
                e = self.path(f["view"]["ref"])
                variants = [v["k"] for v in self.objs[f["view"]["ref"]]["variants"]]
                typed.append("%d => match %s.get_%s() { None => rt::json!([]), %s }" % (
                    i, get, n, " ".join("Some(%s::%s) => rt::json!([%d])," % (e, k, j)
                                        for j, k in enumerate(variants, 1))))
                set_.append("%d => { %s.set_%s(match v { %s _ => panic!() }); }" % (
                    i, mut, n, " ".join("%d => %s::%s," % (j, e, k) for j, k in enumerate(variants, 1))))
            else:
                c = {"u": "u", "i": "i", "f": "f", "b": "bool"}[f["ty"]["c"]]
                t = c if c == "bool" else c + str(f["ty"]["w"])
                typed.append("%d => { let v: %s = %s.get_%s(); rt::put(v) }" % (i, t, get, n))
                set_.append("%d => { %s.set_%s(<%s as rt::Raw>::of(v)); }" % (i, mut, n, t))
        d = "S_%s_%s" % (o["proto"], o["name"])
        self.code.append("""
pub struct %(d)s;
impl rt::S for %(d)s {
    const CONST: usize = %(const)s;
    const FIXED: usize = <%(p)s<&'static [u8]> as rt::bp3d_proto::util::FixedSize>::SIZE;
    fn snap(b: &[u8], out: &mut Vec<rt::Value>) { let s = %(p)s::new(b); %(snap)s let _ = (&s, out); }
    fn typed(b: &[u8], leaf: usize) -> rt::Value { let s = %(p)s::new(b); let _ = &s; match leaf { %(typed)s _ => rt::json!([]) } }
    fn set_raw(b: &mut [u8], leaf: usize, v: u64) { let mut s = %(p)s::new(b); let _ = (&mut s, v); match leaf { %(set_raw)s _ => () } }
    fn set(b: &mut [u8], leaf: usize, v: u64) { let mut s = %(p)s::new(b); let _ = (&mut s, v); match leaf { %(set)s _ => () } }
    fn array(b: &mut [u8], leaf: usize, op: &str, i: usize, v: u64) -> rt::Value { let _ = (&b, i, v); match (leaf, op) { %(array)s _ => rt::json!([]) } }
    fn stack() -> Vec<u8> { let s = %(p)s::new_on_stack(); let mut out = Vec::new(); rt::write(&s.to_ref(), &mut out).unwrap(); out }
    fn write(b: &'static [u8]) -> Result<Vec<u8>, rt::Error> { let mut out = Vec::new(); rt::write(&%(p)s::new(b), &mut out)?; Ok(out) }
    fn read(b: &'static [u8]) -> Result<(usize, Vec<u8>), rt::Error> {
        let m = <%(p)s<&'static [u8]> as rt::FromSlice>::from_slice(b)?;
        let size = m.size();
        let mut out = Vec::new();
        rt::write(&m.into_inner(), &mut out)?;
        Ok((size, out))
    }
}""" % {"d": d, "p": p, "const": "%s::%s::SIZE_%s" % (self.mod, o["proto"], o["name"].upper()),
        "snap": " ".join(snap), "typed": ", ".join(typed + [""]).lstrip(", "), "set_raw": ", ".join(set_raw + [""]).lstrip(", "),
        "set": ", ".join(set_ + [""]).lstrip(", "), "array": ", ".join(array + [""]).lstrip(", ")})
        self.arm("s", key, "rt::run_struct::<%s::drv::%s>(t)" % (self.mod, d))
        self.arm("c", key, "rt::run_consts::<%s::drv::%s>(t)" % (self.mod, d))

    def arm(self, kind, key, call):
        self.arms.append('"%s:%d:%s" => %s,' % (kind, self.case.id, key, call))

    # -- messages

    def build_item(self, ref, e):
        if self.objs[ref]["k"] == "struct":
            return "%s::new(rt::bytes(%s))" % (self.path(ref), e)
        return "<%s as rt::M>::build(%s)?" % (self.ty(ref), e)

    def wrapper(self, key, f):
        o = self.objs[key]
        return "%s::%s::%s%s" % (self.mod, o["proto"], o["name"], capitalize(f["name"]))

    def build(self, key, f, e):
        k = f["kind"]
        if k == "fixed":
            return "rt::get(%s)" % e
        if k in ("struct", "msg"):
            return self.build_item(f["ref"], e)
        if k in ("nstr", "vstr"):
            return "rt::text(%s)" % e
        if k == "payload":
            return "rt::bytes(%s)" % e
        if k == "union":
            return "<%s as rt::U>::build(%s)?" % (self.ty(f["ref"]), e)
        item = self.build_item(f["ref"], "i")
        if k == "array":
            return "{ let mut l = %s::new(Vec::new()); for i in %s.as_array().unwrap() { l.write_item(&%s)?; } " \
                   "rt::keep(l).to_ref() }" % (self.wrapper(key, f), e, item)
        return "{ let mut l = %s::<Vec<u8>>::new(Vec::new()); for i in %s.as_array().unwrap() { l.write_item(&%s)?; } " \
               "rt::keep(l).to_ref::<%s>() }" % (self.wrapper(key, f), e, item, self.ty(f["ref"]))

    def dump_item(self, ref, e):
        """e is a reference."""
        if self.objs[ref]["k"] == "struct":
            return "rt::struct_bytes(%s)" % e
        return "rt::M::dump(%s, with, input)" % e

    def dump(self, f, e):
        k = f["kind"]
        if k == "fixed":
            return "rt::put(*%s)" % e
        if k in ("struct", "msg"):
            return self.dump_item(f["ref"], e)
        if k in ("nstr", "vstr"):
            return "rt::part(%s.as_bytes(), input)" % e
        if k == "payload":
            return "rt::part(%s, input)" % e
        if k == "union":
            return "rt::U::dump(%s, with, input)" % e
        if k == "array":
            return "rt::dump_array(%s.len(), rt::keep(*%s).iter::<%s>())" % (e, e, self.sty(f["ref"]))
        return "rt::dump_list(%s.len(), rt::keep(*%s), with, input)" % (e, e)

    def message(self, key):
        o = self.objs[key]
        p = self.path(key)
        t = self.ty(key)
        build, dump, offs = [], [], []
        for i, f in enumerate(o["fields"]):
            n = f["name"]
            if f["opt"]:
                build.append("%s: match v[%d].as_array().unwrap().first() { None => None, Some(v) => Some(%s) }"
                             % (n, i, self.build(key, f, "v")))
                dump.append("match &self.%s { None => rt::json!([]), Some(v) => rt::json!([%s]) }"
                            % (n, self.dump(f, "v")))
            else:
                build.append("%s: %s" % (n, self.build(key, f, "(&v[%d])" % i)))
                dump.append(self.dump(f, "(&self.%s)" % n))
            if f["kind"] == "msg":
                m = "<%s as rt::M>::offs" % self.ty(f["ref"])
                sub = "match &o.%s_offsets { None => rt::json!([]), Some(o) => rt::json!([%s(o)]) }" % (n, m) \
                    if f["opt"] else "rt::json!([%s(&o.%s_offsets)])" % (m, n)
            else:
                sub = "rt::json!([])"
            offs.append("rt::range(&o.%s, %s)" % (n, sub))
        self.code.append("""
impl rt::M for %(t)s {
    type O = %(p)sOffsets;
    fn build(v: &rt::Value) -> Result<Self, rt::Error> { let _ = v; Ok(Self { %(build)s }) }
    fn dump(&self, with: bool, input: &[u8]) -> rt::Value { let _ = (with, input); rt::Value::Array(vec![%(dump)s]) }
    fn offs(o: &Self::O) -> rt::Value { let _ = o; rt::Value::Array(vec![%(offs)s]) }
}""" % {"t": t, "p": p, "build": ", ".join(build), "dump": ", ".join(dump), "offs": ", ".join(offs)})
        self.arm("m", key, "rt::run_message::<%s>(t)" % t)
        for f in o["fields"]:
            if f["kind"] in ("array", "list"):
                self.list(key, f)

    def union(self, key):
        o = self.objs[key]
        t = self.ty(key)
        build, dump, is_ = [], [], []
        for i, c in enumerate(o["cases"], 1):
            if c["ref"]:
                build.append("%d => Self::%s(%s)" % (i, c["name"], self.build_item(c["ref"], "(&v[\"v\"][0])")))
                dump.append("Self::%s(v) => rt::json!({ \"c\": %d, \"v\": [%s] })" % (c["name"], i, self.dump_item(c["ref"], "v")))
                is_.append("if self.as_%s().is_some() { r.push(%d); }" % (c["name"].lower(), i))
            else:
                build.append("%d => Self::%s" % (i, c["name"]))
                dump.append("Self::%s => rt::json!({ \"c\": %d, \"v\": [] })" % (c["name"], i))
                is_.append("if self.is_%s() { r.push(%d); }" % (c["name"].lower(), i))
        self.code.append("""
impl rt::U for %(t)s {
    fn build(v: &rt::Value) -> Result<Self, rt::Error> { Ok(match v["c"].as_u64().unwrap() { %(build)s, _ => panic!() }) }
    fn dump(&self, with: bool, input: &[u8]) -> rt::Value { let _ = (with, input); match self { %(dump)s } }
    fn is(&self) -> Vec<usize> { let mut r = Vec::new(); %(is)s r }
    fn set_discriminant(&self, root: &mut [u8]) { Self::set_discriminant(self, &mut %(r)s::new(root)) }
    fn write(&self, root: &'static [u8], out: &mut Vec<u8>) -> Result<(), rt::Error> { Self::write_to(self, &%(r)s::new(root), out) }
    fn read(b: &'static [u8], root: &'static [u8]) -> Result<(usize, Self), rt::Error> { Self::from_slice(b, &%(r)s::new(root)).map(|m| (m.size(), m.into_inner())) }
}""" % {"t": t, "build": ", ".join(build), "dump": ", ".join(dump), "is": " ".join(is_), "r": self.path(o["root"])})
        self.arm("u", key, "rt::run_union::<%s>(t)" % t)

    def list(self, key, f):
        d = "L_%s_%s" % (key.replace(".", "_"), f["name"])
        w = self.wrapper(key, f)
        ref = f["ref"]
        array = f["kind"] == "array"
        lt = "'static, " if array or self.objs[ref]["lt"] else ""
        item = self.build_item(ref, "v")
        if array:
            path, leaf = self.leaves(ref)[0]
            mut = "".join(".get_%s_mut()" % x for x in path)
            poke = mut + (".get_%s_mut().set_raw(0, rt::Raw::of(v));" % leaf["name"] if leaf["kind"] == "array"
                          else ".set_raw_%s(rt::Raw::of(v));" % leaf["name"])
            dump = "rt::dump_array(self.0.len(), self.0.iter())"
            encode = "rt::write(&self.0.to_ref(), out)"
            ops = """match op {
            "get" => rt::struct_bytes(&self.0.get(i)),
            "set" => { let mut s = self.0.get_mut(i); let _ = &mut s; s%s rt::json!([]) },
            "fill" => { for mut s in self.0.iter_mut() { let _ = &mut s; s%s } rt::json!([]) },
            _ => rt::json!([])
        }""" % (poke, poke)
            parts = "match %s::from_parts(b, n) { None => rt::json!([]), Some(l) => rt::json!([rt::dump_array(l.len(), l.iter())]) }" % w
        else:
            t = self.ty(ref)
            # items are only looked at while the list is borrowed
            dump = "{ let l: &'static %s<%s&'static [u8]> = rt::keep(unsafe { std::mem::transmute(self.0.to_ref::<%s>()) }); " \
                   "rt::dump_list(l.len(), l, true, &rt::ANY) }" % (w, lt, t)
            encode = "rt::write(&self.0.to_ref::<%s>(), out)" % t
            ops = "{ let _ = (op, i, v); rt::json!([]) }"
            parts = "{ let _ = (b, n); rt::json!([]) }"
        self.code.append("""
pub struct %(d)s(%(w)s<%(lt)srt::Flaky>);
impl rt::L for %(d)s {
    fn new(b: rt::Flaky) -> Self { Self(%(w)s::new(b)) }
    fn write(&mut self, v: &rt::Value) -> Result<Result<(), rt::Error>, rt::Error> { let v = %(item)s; Ok(self.0.write_item(&v)) }
    fn writes(&mut self, vs: &[rt::Value]) -> Result<Result<(), rt::Error>, rt::Error> { let mut items = Vec::new(); for v in vs { items.push(%(item)s); } Ok(self.0.write_items(&items)) }
    fn len(&self) -> usize { self.0.len() }
    fn encode(&self, out: &mut Vec<u8>) -> Result<(), rt::Error> { %(encode)s }
    fn dump(&self) -> rt::Value { %(dump)s }
    fn array(&mut self, op: &str, i: usize, v: u64) -> rt::Value { %(ops)s }
    fn parts(b: Vec<u8>, n: usize) -> rt::Value { %(parts)s }
}""" % {"d": d, "w": w, "lt": lt, "item": item, "encode": encode, "dump": dump, "ops": ops, "parts": parts})
        self.arm("l", "%s.%s" % (key, f["name"]), "rt::run_list::<%s::drv::%s>(t)" % (self.mod, d))

    def all(self, want="smul"):
        for key in self.case.order:
            k = self.objs[key]["k"]
            if k == "struct" and "s" in want:
                self.struct(key)
            elif k == "message" and "m" in want:
                self.message(key)
            elif k == "union" and "m" in want:
                self.union(key)
        return self


HEAD = """#![allow(warnings)]
"""


def write_shard(path, cases, want):
    parts = [HEAD]
    arms = []
    for c in cases:
        g = Gen(c).all(want)
        drv = os.path.join(c.dir, "drv.rs")
        with open(drv, "w") as f:
            f.write("\n".join(g.code) + "\n")
        mods = "\n".join("include!(%s);" % json.dumps("%s/%s/%s/umbrella.rs" % (c.dir, c.folder, p["name"]), ensure_ascii=False)
                         for p in c.protos)
        if c.alias:
            mods += "\npub mod al { pub use super::{%s}; }" % ", ".join(p["name"] for p in c.protos)
        parts.append("pub mod case_%d {\n%s\npub mod drv { include!(\"%s\"); }\n}\n" % (c.id, mods, drv))
        arms += g.arms
    parts.append("fn main() {\n    rt::main(|t| match t[\"fn\"].as_str().unwrap() {\n        %s\n        v => panic!(\"{v}\")\n    })\n}\n"
                 % "\n        ".join(arms))
    with open(path, "w") as f:
        f.write("\n".join(parts))


def libraries():
    """Linker arguments for the libraries built by cargo."""
    return ["--extern", "rt=" + core.ARTIFACTS["rt"], "--extern", "bp3d_proto=" + core.ARTIFACTS["bp3d_proto"],
            "-L", "dependency=" + os.path.join(core.TARGET, "debug", "deps")]


def rustc(src, out, timeout=600):
    argv = ["rustc", "--edition", "2021", "--crate-type", "bin", "-C", "debuginfo=0", "-C", "opt-level=0",
            "-C", "debug-assertions=on", "-C", "overflow-checks=on", "--error-format=short", "-A", "warnings",
            "-o", out, src] + libraries()
    return subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


class Failure:
    def __init__(self, case, text):
        self.case, self.text = case, text


def compile_shards(cases, work, want="smul", shards=None):
    """Compiles the drivers of all cases. Returns (list of (program, cases), failures)."""
    shards = shards or core.CPUS
    groups = [cases[k::shards] for k in range(shards)]
    groups = [g for g in groups if g]
    failures = []

    def run(k):
        group = groups[k]
        src = os.path.join(work, "shard_%d.rs" % k)
        out = os.path.join(work, "shard_%d" % k)
        while group:
            write_shard(src, group, want)
            r = rustc(src, out)
            if r.returncode == 0:
                return out, group
            bad = {}
            for line in r.stdout.split("\n"):
                m = re.search(r"/case/(\d+)/(.*?): (error.*)", line)
                if m:
                    bad.setdefault(int(m.group(1)), line[line.index("/case/"):])
            if not bad:
                if len(group) == 1:
                    bad = {group[0].id: r.stdout[-1000:]}
                else:
                    # not attributed by the compiler
                    for c in group:
                        write_shard(src, [c], want)
                        r1 = rustc(src, out)
                        if r1.returncode != 0:
                            bad[c.id] = r1.stdout[-1000:]
                    if not bad:
                        raise core.ToolError("driver does not compile:\n" + r.stdout[-3000:])
            failures.extend(Failure(c, bad[c.id]) for c in group if c.id in bad)
            group = [c for c in group if c.id not in bad]
        return None, []
    result = [r for r in core.parallel(run, range(len(groups))) if r[0]]
    return result, failures


def run_shards(shards, traces, work, timeout=20):
    """Runs traces ({case, fn, ...}); returns their events, and what was lost with its reason."""
    where = {}
    for k, (_, group) in enumerate(shards):
        for c in group:
            where[c.id] = k
    per = [[] for _ in shards]
    for i, t in enumerate(traces):
        if t["case"].id in where:
            per[where[t["case"].id]].append(i)
    events = [None] * len(traces)
    lost = {}

    def run(k):
        idx = per[k]
        if not idx:
            return
        path = os.path.join(work, "script-%d.json" % k)
        with open(path, "w") as f:
            json.dump([dict({a: b for a, b in traces[i].items() if a != "case"},
                            fn="%s:%d:%s" % (traces[i]["kind"], traces[i]["case"].id, traces[i]["key"]))
                       for i in idx], f)
        res, gone = core.run_script([shards[k][0], path], len(idx), timeout)
        for j, i in enumerate(idx):
            events[i] = res[j]
            if j in gone:
                lost[i] = gone[j]
    core.parallel(run, range(len(shards)))
    return events, lost
