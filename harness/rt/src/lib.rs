//! Support code of the generated drivers: runs scripts of operations on generated code and records
//! what it observes, one line of JSON per trace.

pub use bp3d_proto;
pub use serde_json::{self, json, Value};

use std::io::Write;
use std::sync::atomic::{AtomicBool, Ordering};
use std::panic::{catch_unwind, AssertUnwindSafe};
pub use bp3d_proto::message::{Error, FromSlice, FieldOffset, FromSliceWithOffsets, WriteTo};
use bp3d_proto::message::util::List;

// ------------------------------------------------------------------------------------------------
// Scalars: zero extended raw bits.

pub trait Raw: Sized {
    fn raw(self) -> u64;
    fn of(v: u64) -> Self;
}

macro_rules! raw_int {
    ($($t: ty, $u: ty;)*) => {
        $(impl Raw for $t {
            fn raw(self) -> u64 { self as $u as u64 }
            fn of(v: u64) -> Self { v as $u as $t }
        })*
    };
}

raw_int!(u8, u8; u16, u16; u32, u32; u64, u64; i8, u8; i16, u16; i32, u32; i64, u64;);

impl Raw for bool {
    fn raw(self) -> u64 { self as u64 }
    fn of(v: u64) -> Self { v != 0 }
}

impl Raw for f32 {
    fn raw(self) -> u64 { self.to_bits() as u64 }
    fn of(v: u64) -> Self { f32::from_bits(v as u32) }
}

impl Raw for f64 {
    fn raw(self) -> u64 { self.to_bits() }
    fn of(v: u64) -> Self { f64::from_bits(v) }
}

/// A word without its most significant zero bytes.
pub fn word(v: u64) -> Value {
    let b = v.to_le_bytes();
    let n = 8 - v.leading_zeros() as usize / 8;
    b[..n].to_vec().into()
}

pub fn word8(v: u64) -> Value {
    v.to_le_bytes().to_vec().into()
}

pub fn put<T: Raw>(v: T) -> Value {
    word8(v.raw())
}

pub fn put_short<T: Raw>(v: T) -> Value {
    word(v.raw())
}

pub fn unword(v: &Value) -> u64 {
    let mut b = [0; 8];
    for (i, v) in v.as_array().unwrap().iter().enumerate() {
        b[i] = v.as_u64().unwrap() as u8;
    }
    u64::from_le_bytes(b)
}

pub fn get<T: Raw>(v: &Value) -> T {
    T::of(unword(v))
}

pub fn vec(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u8).collect()
}

pub fn bytes(v: &Value) -> &'static [u8] {
    leak(vec(v))
}

pub fn leak(v: Vec<u8>) -> &'static [u8] {
    Box::leak(v.into_boxed_slice())
}

pub fn text(v: &Value) -> &'static str {
    std::str::from_utf8(bytes(v)).unwrap()
}

pub fn keep<T>(v: T) -> &'static T {
    Box::leak(Box::new(v))
}

pub fn keep_mut<T>(v: T) -> &'static mut T {
    Box::leak(Box::new(v))
}

pub fn err(e: &Error) -> Value {
    let (e, d) = match e {
        Error::Truncated => ("trunc", 0),
        Error::InvalidUtf8 => ("utf8", 0),
        Error::Io(_) => ("io", 0),
        Error::InvalidUnionDiscriminant(v) => ("disc", *v as u64)
    };
    json!({ "e": e, "d": word8(d) })
}

pub fn no_err() -> Value {
    json!({ "e": "none", "d": word8(0) })
}

fn panicked() -> Value {
    json!({ "e": "panic", "d": word8(0) })
}

fn caught<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

// ------------------------------------------------------------------------------------------------
// Structures

pub trait S {
    const CONST: usize;
    const FIXED: usize;
    fn snap(b: &[u8], out: &mut Vec<Value>);
    fn typed(b: &[u8], leaf: usize) -> Value;
    fn set_raw(b: &mut [u8], leaf: usize, v: u64);
    fn set(b: &mut [u8], leaf: usize, v: u64);
    /// Operations on arrays: get, set, len, iter, bytes, byteset.
    fn array(b: &mut [u8], leaf: usize, op: &str, i: usize, v: u64) -> Value;
    fn stack() -> Vec<u8>;
    fn write(b: &'static [u8]) -> Result<Vec<u8>, Error>;
    fn read(b: &'static [u8]) -> Result<(usize, Vec<u8>), Error>;
}

const GUARD: usize = 8;

/// A structure in the middle of a buffer, and everything that happens to it.
pub fn run_struct<T: S>(t: &Value) -> Vec<Value> {
    let size = T::CONST;
    let mut events = Vec::new();
    let mut full = vec![0xA5; GUARD];
    full.extend(vec(&t["init"]));
    full.resize(2 * GUARD + size, 0x5A);
    let mut first = vec![json!({ "op": "init", "leaf": 0, "idx": 0, "arg": [], "res": "ok", "val": [] })];
    let mut before = full.clone();
    let mut seen: Vec<Value> = Vec::new();
    for op in first.drain(..).chain(t["ops"].as_array().unwrap().iter().cloned()) {
        let name = op["op"].as_str().unwrap();
        let leaf = op["leaf"].as_u64().unwrap() as usize;
        let idx = op["idx"].as_u64().unwrap() as usize;
        let arg = unword(&op["arg"]);
        let b = &mut full[GUARD..GUARD + size];
        let mut val = json!([]);
        let done = caught(|| match name {
            "init" => (),
            "setraw" => T::set_raw(b, leaf, arg),
            "set" => T::set(b, leaf, arg),
            "get" => (),
            _ => val = T::array(b, leaf, &name[1..], idx, arg)
        });
        let mut res = if done.is_some() { "ok" } else { "panic" };
        let mut raws = Vec::new();
        let mut typed = json!([]);
        let view = &full[GUARD..GUARD + size];
        let observed = caught(|| {
            T::snap(view, &mut raws);
            if matches!(name, "set" | "setraw" | "get") {
                typed = T::typed(view, leaf);
            }
        });
        // only what changed is recorded
        let mut ch = Vec::new();
        let mut by = Vec::new();
        if observed.is_none() || (name != "init" && raws.len() != seen.len()) {
            res = "lost";
        } else if name != "init" {
            ch = (0..raws.len()).filter(|i| raws[*i] != seen[*i]).map(|i| json!([i + 1, raws[i]])).collect();
            by = (0..full.len()).filter(|i| full[*i] != before[*i]).map(|i| json!([i + 1, full[i]])).collect();
        }
        let mut event = json!({ "op": name, "leaf": leaf, "idx": idx, "arg": op["arg"], "res": res, "val": val,
            "typed": typed, "ch": ch, "by": by });
        if name == "init" {
            event["buf"] = full.clone().into();
            event["raws"] = raws.clone().into();
        }
        before = full.clone();
        seen = raws;
        events.push(event);
    }
    events
}

/// Sizes, and copying in and out of messages.
pub fn run_consts<T: S>(t: &Value) -> Vec<Value> {
    let init = vec(&t["init"]);
    let size = init.len();
    let mut longer = init.clone();
    longer.extend([1, 2, 3]);
    let longer = leak(longer);
    let exact = leak(init);
    let run = caught(|| {
        let write = T::write(longer);
        let read = T::read(longer);
        let read_exact = T::read(exact);
        let short: Vec<Value> = (0..size).map(|n| match T::read(&exact[..n]) {
            Ok((size, b)) => json!({ "e": no_err(), "size": size, "b": b }),
            Err(e) => json!({ "e": err(&e), "size": 0, "b": [] })
        }).collect();
        let dec = |v: Result<(usize, Vec<u8>), Error>| match v {
            Ok((size, b)) => json!({ "e": no_err(), "size": size, "b": b }),
            Err(e) => json!({ "e": err(&e), "size": 0, "b": [] })
        };
        json!({ "op": "consts", "res": "ok", "const": T::CONST, "fixed": T::FIXED, "stack": T::stack(),
            "write": write.map_err(|_| ()).unwrap_or_default(), "read": dec(read), "exact": dec(read_exact),
            "short": short, "b": longer })
    });
    vec![run.unwrap_or_else(|| json!({ "op": "consts", "res": "panic" }))]
}

// ------------------------------------------------------------------------------------------------
// Messages

pub trait M: Sized + Copy + 'static {
    type O;
    fn build(v: &Value) -> Result<Self, Error>;
    /// with: iterate lists with offsets.
    fn dump(&self, with: bool, input: &[u8]) -> Value;
    fn offs(o: &Self::O) -> Value;
}

/// The range of a field, without an end if its size tells another one.
pub fn range(o: &FieldOffset, sub: Value) -> Value {
    match o.end.checked_sub(o.start) == Some(o.size()) {
        true => json!([o.start, o.end, sub]),
        false => json!([o.start, -1, sub])
    }
}

/// Stands for an unknown input.
pub static ANY: [u8; 1] = [0];

pub fn inside(part: &[u8], input: &[u8]) -> bool {
    let (a, b) = (part.as_ptr() as usize, input.as_ptr() as usize);
    part.is_empty() || b == ANY.as_ptr() as usize || (a >= b && a + part.len() <= b + input.len())
}

/// Whether something was seen which isn't part of the input, or which didn't end.
static OUTSIDE: AtomicBool = AtomicBool::new(false);
static RUNAWAY: AtomicBool = AtomicBool::new(false);

/// A part of the input, marked if it isn't one.
pub fn part(v: &[u8], input: &[u8]) -> Value {
    match inside(v, input) {
        true => v.to_vec().into(),
        false => {
            OUTSIDE.store(true, Ordering::Relaxed);
            json!([-1])
        }
    }
}

pub fn write<T: WriteTo<Input = T>>(v: &T, out: &mut Vec<u8>) -> Result<(), Error> {
    T::write_to(v, out)
}

pub fn struct_bytes<T: WriteTo<Input = T>>(v: &T) -> Value {
    let mut out = Vec::new();
    match T::write_to(v, &mut out) {
        Ok(()) => out.into(),
        Err(_) => json!([-2])
    }
}

const MANY: usize = 100000;

pub fn dump_array<T: WriteTo<Input = T>>(n: usize, it: impl Iterator<Item = T>) -> Value {
    let items: Vec<Value> = it.take(MANY).map(|v| struct_bytes(&v)).collect();
    json!({ "n": word8(n as u64), "items": items })
}

/// Iterates to the end or the first error, which must both be final.
fn iterate<T>(mut it: impl Iterator<Item = Result<T, Error>>, mut f: impl FnMut(T)) -> (Value, usize) {
    let mut e = no_err();
    let mut more = 0;
    let mut count = 0;
    while let Some(v) = it.next() {
        match v {
            Ok(v) => f(v),
            Err(v) => {
                e = err(&v);
                break;
            }
        }
        count += 1;
        if count > MANY {
            RUNAWAY.store(true, Ordering::Relaxed);
            return (json!({ "e": "runaway", "d": word8(0) }), 0);
        }
    }
    for _ in 0..3 {
        if it.next().is_some() {
            more += 1;
        }
    }
    (e, more)
}

/// with: iterate with offsets.
pub fn dump_list<B: AsRef<[u8]>, T, Item: Msg>(n: usize, l: &'static List<B, T, Item>, with: bool, input: &[u8]) -> Value {
    let mut items = Vec::new();
    let mut offs = Vec::new();
    let (e, more) = if with {
        iterate(l.iter_offsets(), |(v, o)| {
            items.push(v.dump(with, input));
            offs.push(Item::offs(&o));
        })
    } else {
        iterate(l.iter(), |v| items.push(v.dump(with, input)))
    };
    json!({ "n": word8(n as u64), "items": items, "offs": offs, "e": e, "more": more })
}

pub trait Msg: M + WriteTo<Input = Self> + FromSlice<'static, Output = Self>
    + FromSliceWithOffsets<'static, Output = Self, Offsets = <Self as M>::O> {}

impl<T> Msg for T where T: M + WriteTo<Input = T> + FromSlice<'static, Output = T>
    + FromSliceWithOffsets<'static, Output = T, Offsets = <T as M>::O> {}

fn encode<T: Msg>(v: &T) -> (Value, Vec<u8>) {
    let mut out = Vec::new();
    match caught(|| T::write_to(v, &mut out)) {
        None => (panicked(), Vec::new()),
        Some(Ok(())) => (no_err(), out),
        Some(Err(e)) => (err(&e), Vec::new())
    }
}

fn encode_event<T: Msg>(v: &Value) -> (Value, Option<Vec<u8>>) {
    let mut event = json!({ "op": "enc", "v": v, "mk": no_err(), "e": no_err(), "b": [], "again": true, "slow": true, "fails": [],
        "size": 0, "se": no_err() });
    let value = match caught(|| T::build(v)) {
        None => {
            event["mk"] = panicked();
            return (event, None);
        },
        Some(Err(e)) => {
            event["mk"] = err(&e);
            return (event, None);
        },
        Some(Ok(v)) => v
    };
    let (e, b) = encode(&value);
    match caught(|| bp3d_proto::message::util::size_of(&value)) {
        None => event["se"] = panicked(),
        Some(Err(e)) => event["se"] = err(&e),
        Some(Ok(v)) => event["size"] = v.into()
    }
    // Encoding depends on nothing but the value.
    let mut again = vec![0xEE; 5];
    let fine = caught(|| T::write_to(&value, &mut again).is_ok()).unwrap_or_default();
    event["again"] = (!fine || again[5..] == b).into();
    let ok = e["e"] == "none";
    // Neither on how much the output takes at a time. Outputs may also fail.
    if ok {
        let mut slow = Sipping { data: Vec::new(), budget: usize::MAX, calls: b.len() };
        let fine = caught(|| T::write_to(&value, &mut slow).is_ok()).unwrap_or_default();
        event["slow"] = (fine && slow.data == b).into();
        let mut fails = Vec::new();
        for budget in [0, b.len() / 3, b.len().saturating_sub(1)] {
            if budget < b.len() {
                let mut out = Sipping { data: Vec::new(), budget, calls: budget };
                let e = match caught(|| T::write_to(&value, &mut out)) {
                    None => panicked(),
                    Some(Ok(())) => no_err(),
                    Some(Err(e)) => err(&e)
                };
                fails.push(json!({ "e": e, "n": out.data.len(), "start": b.starts_with(&out.data) }));
            }
        }
        event["fails"] = fails.into();
    }
    event["e"] = e;
    event["b"] = b.clone().into();
    (event, if ok { Some(b) } else { None })
}

fn decode_event<T: Msg>(b: Vec<u8>, tag: &str, of: usize) -> Value {
    let b = leak(b);
    OUTSIDE.store(false, Ordering::Relaxed);
    RUNAWAY.store(false, Ordering::Relaxed);
    let mut event = json!({ "op": "dec", "tag": tag, "of": of, "b": b, "e": no_err(), "size": 0, "v": [], "again": [],
        "oe": no_err(), "osize": 0, "ov": [], "offs": [], "re": no_err(), "rsize": 0 });
    match caught(|| T::from_slice(b).map(|v| (v.size(), v.into_inner()))) {
        None => event["e"] = panicked(),
        Some(Err(e)) => event["e"] = err(&e),
        Some(Ok((size, v))) => {
            event["size"] = size.into();
            match caught(|| v.dump(false, b)) {
                None => event["e"] = panicked(),
                Some(v) => event["v"] = v
            }
            let (e, again) = encode(&v);
            event["again"] = again.into();
            event["re"] = e;
            event["rsize"] = caught(|| bp3d_proto::message::util::size_of(&v).unwrap_or(usize::MAX >> 40)).into();
        }
    }
    match caught(|| T::from_slice_with_offsets(b).map(|v| (v.size(), v.into_inner()))) {
        None => event["oe"] = panicked(),
        Some(Err(e)) => event["oe"] = err(&e),
        Some(Ok((size, (v, o)))) => {
            event["osize"] = size.into();
            match caught(|| (v.dump(true, b), T::offs(&o))) {
                None => event["oe"] = panicked(),
                Some((v, o)) => {
                    event["ov"] = v;
                    event["offs"] = o;
                }
            }
        }
    }
    event["outside"] = OUTSIDE.load(Ordering::Relaxed).into();
    event["runaway"] = RUNAWAY.load(Ordering::Relaxed).into();
    event
}

/// SplitMix64
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }

    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

fn mutate(b: &[u8], rng: &mut Rng) -> Vec<u8> {
    let mut b = b.to_vec();
    for _ in 0..1 + rng.below(3) {
        let at = rng.below(b.len() + 1);
        match rng.below(7) {
            0 if at < b.len() => b[at] ^= 1 << rng.below(8),
            1 if at < b.len() => b[at] = [0, 1, 2, 127, 128, 254, 255][rng.below(7)],
            2 if at < b.len() => {
                b.remove(at);
            },
            3 => b.insert(at, rng.next() as u8),
            4 if at < b.len() => {
                let n = (1 + rng.below(8)).min(b.len() - at);
                let v = [0, 255, rng.next() as u8][rng.below(3)];
                b[at..at + n].fill(v);
            },
            5 => b.truncate(at),
            _ => {
                let n = rng.below(4);
                b.extend((0..n).map(|_| rng.next() as u8));
            }
        }
    }
    b
}

/// Takes few bytes at a time, is interrupted now and then, and fails behind a given number of bytes.
struct Sipping {
    data: Vec<u8>,
    budget: usize,
    calls: usize
}

impl Write for Sipping {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls % 4 == 3 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "later"));
        }
        let n = b.len().min(1 + self.calls % 3).min(self.budget - self.data.len());
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A message, and everything that happens to values of it.
pub fn run_message<T: Msg>(t: &Value) -> Vec<Value> {
    let mut events = Vec::new();
    for op in t["ops"].as_array().unwrap() {
        match op["op"].as_str().unwrap() {
            // encode, decode, and as asked: decode every prefix, longer inputs and damaged inputs
            "round" => {
                let (e, b) = encode_event::<T>(&op["v"]);
                events.push(e);
                let of = events.len();
                let Some(b) = b else { continue };
                events.push(decode_event::<T>(b.clone(), "round", of));
                let max = op["prefixes"].as_u64().unwrap() as usize;
                if b.len() <= max {
                    (0..b.len()).for_each(|n| events.push(decode_event::<T>(b[..n].to_vec(), "prefix", of)));
                } else {
                    let mut rng = Rng(op["seed"].as_u64().unwrap());
                    (0..max).for_each(|k| {
                        let n = if k < 4 { k } else if k < 8 { b.len() - k + 3 } else { rng.below(b.len()) };
                        events.push(decode_event::<T>(b[..n].to_vec(), "prefix", of));
                    });
                }
                let mut rng = Rng(op["seed"].as_u64().unwrap() + 1);
                for k in 0..op["longer"].as_u64().unwrap() {
                    let mut b = b.clone();
                    let n = 1 + rng.below(9);
                    b.extend((0..n).map(|_| match k % 3 { 0 => 0, 1 => 255, _ => rng.next() as u8 }));
                    events.push(decode_event::<T>(b, "longer", of));
                }
                for _ in 0..op["damaged"].as_u64().unwrap() {
                    events.push(decode_event::<T>(mutate(&b, &mut rng), "damaged", of));
                }
            },
            "dec" => events.push(decode_event::<T>(vec(&op["b"]), "bytes", 0)),
            // several messages in the same stream
            "stream" => {
                let mut b = Vec::new();
                let mut fine = true;
                for v in op["vs"].as_array().unwrap() {
                    fine &= caught(|| T::build(v).and_then(|v| T::write_to(&v, &mut b))
                        .map(|_| true).unwrap_or(false)).unwrap_or(false);
                }
                let b = leak(b);
                let mut at = 0;
                let mut got = Vec::new();
                while fine && at < b.len() && got.len() < 100 {
                    match caught(|| T::from_slice(&b[at..]).map(|v| (v.size(), v.into_inner().dump(false, b)))) {
                        None => got.push(json!({ "e": panicked(), "size": 0, "v": [] })),
                        Some(Err(e)) => got.push(json!({ "e": err(&e), "size": 0, "v": [] })),
                        Some(Ok((size, v))) => {
                            got.push(json!({ "e": no_err(), "size": size, "v": v }));
                            if size > 0 {
                                at += size;
                                continue;
                            }
                        }
                    }
                    break;
                }
                events.push(json!({ "op": "stream", "vs": op["vs"], "fine": fine, "b": b, "got": got }));
            },
            // values whose content is too large to be written down: only lengths are recorded
            op => panic!("{op}")
        }
    }
    events
}

// ------------------------------------------------------------------------------------------------
// Unions

pub trait U: Sized + Copy + 'static {
    fn build(v: &Value) -> Result<Self, Error>;
    fn dump(&self, with: bool, input: &[u8]) -> Value;
    /// The cases for which the accessor answers.
    fn is(&self) -> Vec<usize>;
    fn set_discriminant(&self, root: &mut [u8]);
    fn write(&self, root: &'static [u8], out: &mut Vec<u8>) -> Result<(), Error>;
    fn read(b: &'static [u8], root: &'static [u8]) -> Result<(usize, Self), Error>;
}

pub fn run_union<T: U>(t: &Value) -> Vec<Value> {
    let mut events = Vec::new();
    for op in t["ops"].as_array().unwrap() {
        let root = bytes(&op["root"]);
        match op["op"].as_str().unwrap() {
            "uenc" => {
                let mut event = json!({ "op": "uenc", "v": op["v"], "root": root, "mk": no_err(), "is": [],
                    "set": [], "e": no_err(), "b": [], "e2": no_err(), "b2": [] });
                match caught(|| T::build(&op["v"])) {
                    None => event["mk"] = panicked(),
                    Some(Err(e)) => event["mk"] = err(&e),
                    Some(Ok(v)) => {
                        event["is"] = v.is().into();
                        let mut set = root.to_vec();
                        caught(|| v.set_discriminant(&mut set));
                        event["set"] = set.clone().into();
                        for (root, e, b) in [(root, "e", "b"), (leak(set), "e2", "b2")] {
                            let mut out = Vec::new();
                            match caught(|| v.write(root, &mut out)) {
                                None => event[e] = panicked(),
                                Some(Err(v)) => event[e] = err(&v),
                                Some(Ok(())) => event[b] = out.into()
                            }
                        }
                    }
                }
                events.push(event);
            },
            "udec" => {
                let b = bytes(&op["b"]);
                let mut event = json!({ "op": "udec", "root": root, "b": b, "e": no_err(), "size": 0, "v": [],
                    "is": [] });
                match caught(|| T::read(b, root)) {
                    None => event["e"] = panicked(),
                    Some(Err(e)) => event["e"] = err(&e),
                    Some(Ok((size, v))) => {
                        event["size"] = size.into();
                        event["is"] = v.is().into();
                        match caught(|| v.dump(false, b)) {
                            None => event["e"] = panicked(),
                            Some(v) => event["v"] = v
                        }
                    }
                }
                events.push(event);
            },
            op => panic!("{op}")
        }
    }
    events
}

// ------------------------------------------------------------------------------------------------
// Lists and arrays under construction

/// Whether storage failed.
static FULL: AtomicBool = AtomicBool::new(false);

/// Fails to write more than a given number of bytes.
pub struct Flaky {
    pub data: Vec<u8>,
    pub budget: usize
}

impl Write for Flaky {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.budget);
        if n == 0 && !b.is_empty() {
            FULL.store(true, Ordering::Relaxed);
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        self.budget -= n;
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl AsRef<[u8]> for Flaky {
    fn as_ref(&self) -> &[u8] {
        &self.data
    }
}

impl AsMut<[u8]> for Flaky {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.data
    }
}

/// A list or the wrapper of an array.
pub trait L: Sized {
    fn new(b: Flaky) -> Self;
    /// Ok(Err) if an item could not be built.
    fn write(&mut self, v: &Value) -> Result<Result<(), Error>, Error>;
    fn writes(&mut self, vs: &[Value]) -> Result<Result<(), Error>, Error>;
    fn len(&self) -> usize;
    fn encode(&self, out: &mut Vec<u8>) -> Result<(), Error>;
    fn dump(&self) -> Value;
    /// Arrays: get, set all bits of an item, iterate, change all items while iterating, from_parts.
    fn array(&mut self, op: &str, i: usize, v: u64) -> Value;
    fn parts(b: Vec<u8>, n: usize) -> Value;
}

pub fn run_list<T: L>(t: &Value) -> Vec<Value> {
    let mut events = Vec::new();
    let budget = t["budget"].as_u64().unwrap() as usize;
    let mut l = T::new(Flaky { data: Vec::new(), budget });
    for op in t["ops"].as_array().unwrap() {
        let name = op["op"].as_str().unwrap();
        let idx = op["idx"].as_u64().unwrap_or_default() as usize;
        let mut event = json!({ "op": name, "v": op["v"], "idx": idx, "res": "ok", "mk": no_err(), "e": no_err(),
            "val": [] });
        let run = caught(|| match name {
            "lwrite" | "lwrites" => {
                let r = match name {
                    "lwrite" => l.write(&op["v"]),
                    _ => l.writes(op["v"].as_array().unwrap())
                };
                match r {
                    Err(e) => event["mk"] = err(&e),
                    Ok(Err(e)) => event["e"] = err(&e),
                    Ok(Ok(())) => ()
                }
            },
            // one item, many times
            "lmany" => {
                for _ in 0..idx {
                    match l.write(&op["v"]) {
                        Err(e) => event["mk"] = err(&e),
                        Ok(Err(e)) => event["e"] = err(&e),
                        Ok(Ok(())) => continue
                    }
                    break;
                }
            },
            "lparts" => event["val"] = T::parts(vec(&op["v"]), idx),
            "lnop" => (),
            _ => event["val"] = l.array(&name[1..], idx, unword(&op["v"]))
        });
        if run.is_none() {
            event["res"] = "panic".into();
        }
        // storage which failed half way holds a part of an item
        let torn = FULL.swap(false, Ordering::Relaxed);
        event["torn"] = torn.into();
        let seen = caught(|| {
            if torn {
                return (l.len(), no_err(), Vec::new(), json!([]));
            }
            let mut out = Vec::new();
            let e = match l.encode(&mut out) {
                Ok(()) => no_err(),
                Err(e) => {
                    out.clear();
                    err(&e)
                }
            };
            let shown = if name == "lmany" { json!([]) } else { l.dump() };
            (l.len(), e, out, shown)
        });
        match seen {
            None => {
                event["res"] = "lost".into();
                events.push(event);
                break;
            },
            Some((n, e, b, v)) => {
                event["n"] = word8(n as u64);
                event["we"] = e;
                event["b"] = b.into();
                event["shown"] = v;
            }
        }
        events.push(event);
        if torn {
            break;
        }
    }
    events
}

// ------------------------------------------------------------------------------------------------

/// Runs all traces of a script with the given dispatcher, starting behind the ones to skip.
pub fn main(dispatch: impl Fn(&Value) -> Vec<Value>) {
    std::panic::set_hook(Box::new(|_| ()));
    let args: Vec<String> = std::env::args().collect();
    let script: Vec<Value> = serde_json::from_slice(&std::fs::read(&args[1]).unwrap()).unwrap();
    let skip: usize = args.get(2).map(|v| v.parse().unwrap()).unwrap_or(0);
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for (i, t) in script.iter().enumerate().skip(skip) {
        let events = dispatch(t);
        writeln!(out, "{}", json!({ "i": i, "res": events })).unwrap();
        out.flush().unwrap();
    }
}
