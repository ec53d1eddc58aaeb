//! Runs generators which produce what a script says.

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use bp3d_protoc::compiler::Protocol;
use bp3d_protoc::gen::{File, FileType, Generator};
use bp3d_protoc::util::SimpleImportSolver;
use bp3d_protoc::Loader;
use serde_json::{json, Value};

#[derive(Default)]
struct State {
    gens: Vec<Value>,
    next: usize,
    asked: Vec<Value>,
    out: String
}

thread_local! {
    static STATE: RefCell<State> = RefCell::new(State::default());
}

#[derive(Debug)]
struct Refused;

impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("refused")
    }
}

impl std::error::Error for Refused {}

fn file_type(name: &str) -> FileType {
    match name {
        "Message" => FileType::Message,
        "MessageReading" => FileType::MessageReading,
        "MessageWriting" => FileType::MessageWriting,
        "Structure" => FileType::Structure,
        "Enum" => FileType::Enum,
        _ => FileType::Union
    }
}

fn files(proto: Protocol) -> Result<Vec<File>, Refused> {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        let k = s.next;
        s.next += 1;
        // a generator which is called for something else is noticed
        let gen = s.gens.get(k).cloned().filter(|g| g["name"].as_str() == Some(&*proto.name)).ok_or(Refused)?;
        if gen["fail"].as_bool().unwrap() {
            return Err(Refused);
        }
        Ok(gen["files"].as_array().unwrap().iter().map(|f| {
            let name: Vec<&str> = f["name"].as_array().unwrap().iter().map(|v| v.as_str().unwrap()).collect();
            File::new(file_type(f["ty"].as_str().unwrap()), name.join("/"), f["data"].as_str().unwrap())
        }).collect())
    })
}

fn parts(path: &Path, out: &str) -> Vec<String> {
    path.strip_prefix(out).unwrap_or(path).components().map(|v| v.as_os_str().to_string_lossy().into_owned()).collect()
}

/// The text of umbrellas, as in the specification.
fn text(name: &str, inc: &[Vec<String>]) -> String {
    let all: Vec<String> = inc.iter().map(|p| format!("<<{}>>", p.iter().map(|c| format!("{:?}", c)).collect::<Vec<_>>().join(", "))).collect();
    if all.is_empty() { format!("{}<<>>", name) } else { format!("{}<<{}>>", name, all.join(", ")) }
}

struct Plain;

impl Generator for Plain {
    type Error = Refused;

    fn generate(proto: Protocol) -> Result<Vec<File>, Refused> {
        files(proto)
    }
}

struct Full;

impl Generator for Full {
    type Error = Refused;

    fn generate(proto: Protocol) -> Result<Vec<File>, Refused> {
        files(proto)
    }

    fn generate_umbrella<'a>(name: &str, files: impl Iterator<Item = &'a Path>) -> Result<String, Refused> {
        STATE.with(|s| {
            let mut s = s.borrow_mut();
            let inc: Vec<Vec<String>> = files.map(|v| parts(v, &s.out)).collect();
            s.asked.push(json!({ "name": name, "inc": inc }));
            match s.next.checked_sub(1).and_then(|k| s.gens.get(k)).and_then(|g| g["umb"].as_str()) {
                Some("empty") => Ok(String::new()),
                Some("blank") => Ok(" \n\n".into()),
                Some("two") => Ok("//".into()),
                Some("list") => Ok(text(name, &inc)),
                _ => Err(Refused)
            }
        })
    }
}

fn listing(dir: &Path, out: &str, files: &mut Vec<Value>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for path in rd.map(|v| v.unwrap().path()) {
        if path.is_dir() {
            listing(&path, out, files);
        } else {
            files.push(json!({ "name": parts(&path, out), "data": String::from_utf8_lossy(&std::fs::read(&path).unwrap()) }));
        }
    }
}

pub fn run(entry: &Value) -> Vec<Value> {
    entry["runs"].as_array().unwrap().iter().map(|r| {
        let out = entry["out"].as_str().unwrap();
        std::fs::create_dir_all(out).unwrap();
        let gens = r["gens"].as_array().unwrap().clone();
        let plain = gens.iter().any(|g| g["umb"] == "default");
        STATE.with(|s| *s.borrow_mut() = State { gens, out: out.into(), ..State::default() });
        let res = catch_unwind(AssertUnwindSafe(|| -> Result<Vec<Value>, bp3d_protoc::Error> {
            let mut loader = Loader::new();
            for v in r["loads"].as_array().unwrap() {
                loader.load(v.as_str().unwrap())?;
            }
            let protoc = super::configure(loader.compile(SimpleImportSolver::default())?, &r["opts"]);
            let protos = if plain { protoc.generate::<Plain>(out)? } else { protoc.generate::<Full>(out)? };
            Ok(protos.into_iter().map(|v| json!({ "name": v.name, "path": parts(&v.path, out) })).collect())
        }));
        let mut files = Vec::new();
        listing(Path::new(out), out, &mut files);
        let asked = STATE.with(|s| std::mem::take(&mut s.borrow_mut().asked));
        let (res, kind, paths) = match res {
            Ok(Ok(v)) => ("ok", "", v),
            Ok(Err(e)) => ("err", super::err_kind(&e).0, Vec::new()),
            Err(_) => ("panic", "", Vec::new())
        };
        json!({ "res": res, "kind": kind, "paths": paths, "asked": asked, "files": files })
    }).collect()
}
