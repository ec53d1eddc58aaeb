//! Histories of a loader, which goes on after requests which failed.

use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use bp3d_protoc::gen::GeneratorRust;
use bp3d_protoc::util::SimpleImportSolver;
use bp3d_protoc::{Error, Loader};
use serde_json::{json, Value};

fn collect(dir: &Path, root: &str, out: &mut Vec<(String, String)>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for path in rd.map(|v| v.unwrap().path()) {
        if path.is_dir() {
            collect(&path, root, out);
        } else {
            let text = String::from_utf8_lossy(&std::fs::read(&path).unwrap()).replace(root, "<out>");
            out.push((path.to_str().unwrap().replace(root, "<out>"), text));
        }
    }
}

/// Puts a copy of what is at a path, if anything, to another one.
fn put(from: &Path, to: &Path) {
    if to.is_dir() {
        std::fs::remove_dir(to).unwrap();
    } else if to.exists() {
        std::fs::remove_file(to).unwrap();
    }
    if from.is_dir() {
        std::fs::create_dir(to).unwrap();
    } else if from.exists() {
        std::fs::copy(from, to).unwrap();
    }
}

/// What is generated in the end, or the kind of the error.
fn finish(loader: Loader, entry: &Value) -> String {
    let out = entry["out"].as_str().unwrap();
    std::fs::create_dir_all(out).unwrap();
    let protoc = match loader.compile(SimpleImportSolver::default()) {
        Ok(v) => crate::configure(v, &entry["opts"]),
        Err(e) => return format!("compile {}", crate::err_kind(&e).0)
    };
    let protos = match protoc.generate::<GeneratorRust>(out) {
        Ok(v) => v,
        Err(e) => return format!("generate {}", crate::err_kind(&e).0)
    };
    let mut files = Vec::new();
    collect(Path::new(out), out, &mut files);
    files.sort();
    let mut hasher = DefaultHasher::new();
    files.hash(&mut hasher);
    let protos: Vec<String> = protos.iter().map(|v| format!("{}={}", v.name, v.path.display()).replace(out, "<out>")).collect();
    format!("ok {} {:x} {}", files.len(), hasher.finish(), protos.join(" "))
}

pub fn run(entry: &Value) -> Value {
    let mut loader = Loader::new();
    let mut answers = Vec::new();
    let mut texts = Vec::new();
    for op in entry["ops"].as_array().unwrap() {
        let mut path = op[1].as_str().unwrap();
        // The same path again, with other content.
        if let Some(slot) = op[3].as_str() {
            std::fs::create_dir_all(Path::new(slot).parent().unwrap()).unwrap();
            put(Path::new(path), Path::new(slot));
            path = slot;
        }
        let res = catch_unwind(AssertUnwindSafe(|| match op[0].as_str().unwrap() {
            "load" => loader.load(path),
            _ => loader.import(path, op[2].as_str().unwrap())
        }));
        answers.push(match res {
            Ok(Ok(())) => "ok",
            Ok(Err(Error::Io(_))) => "io",
            Ok(Err(Error::Model(e))) => {
                texts.push(e.to_string());
                "model"
            },
            Ok(Err(_)) => "other",
            Err(_) => "panic"
        });
    }
    let last = catch_unwind(AssertUnwindSafe(|| finish(loader, entry))).unwrap_or_else(|_| "panic".into());
    json!({ "answers": answers, "final": last, "texts": texts })
}
