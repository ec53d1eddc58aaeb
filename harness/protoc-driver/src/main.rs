//! Drives the public API of bp3d-protoc (Loader, Protoc, Template) from scripts and records what
//! it does. One line of JSON per script entry on stdout, flushed before the next entry starts.

mod build;
mod emit;
mod loader;
mod paths;
mod solver;
mod template;

use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use bp3d_protoc::gen::GeneratorRust;
use bp3d_protoc::util::SimpleImportSolver;
use bp3d_protoc::{Loader, Protoc};
use serde_json::{json, Value};

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|v| v.to_string()))
        .unwrap_or_else(|| "?".into())
}

fn flag(opts: &Value, name: &str, default: bool) -> bool {
    opts.get(name).and_then(Value::as_bool).unwrap_or(default)
}

/// Only the options which a script names are set, the others keep the default of the product.
fn configure(mut protoc: Protoc, opts: &Value) -> Protoc {
    if opts.get("reads").is_some() {
        protoc = protoc.set_reads_messages(flag(opts, "reads", false));
    }
    if opts.get("writes").is_some() {
        protoc = protoc.set_writes_messages(flag(opts, "writes", false));
    }
    if opts.get("enums").is_some() {
        protoc = protoc.set_use_enums(flag(opts, "enums", true));
    }
    if opts.get("structs").is_some() {
        protoc = protoc.set_use_structs(flag(opts, "structs", true));
    }
    if opts.get("messages").is_some() {
        protoc = protoc.set_use_messages(flag(opts, "messages", true));
    }
    if opts.get("unions").is_some() {
        protoc = protoc.set_use_unions(flag(opts, "unions", true));
    }
    protoc
}

fn err_kind(e: &bp3d_protoc::Error) -> (&'static str, String) {
    use bp3d_protoc::Error::*;
    match e {
        Io(e) => ("io", e.to_string()),
        Model(e) => ("model", e.to_string()),
        Compiler(e) => ("compiler", e.to_string()),
        Generator(e) => ("generator", e.to_string())
    }
}

fn session(s: &Value) -> Value {
    let out = s["out"].as_str().unwrap();
    std::fs::create_dir_all(out).unwrap();
    let stage = std::cell::Cell::new("load");
    let run = || -> Result<Vec<Value>, bp3d_protoc::Error> {
        let mut loader = Loader::new();
        for v in s["imports"].as_array().unwrap() {
            loader.import(v[0].as_str().unwrap(), v[1].as_str().unwrap())?;
        }
        for v in s["loads"].as_array().unwrap() {
            loader.load(v.as_str().unwrap())?;
        }
        stage.set("compile");
        let protoc = loader.compile(SimpleImportSolver::default())?;
        stage.set("generate");
        let protoc = configure(protoc, &s["opts"]);
        let protos = protoc.generate::<GeneratorRust>(out)?;
        Ok(protos.into_iter().map(|v| json!({ "name": v.name, "path": v.path.to_str() })).collect())
    };
    match catch_unwind(AssertUnwindSafe(run)) {
        Ok(Ok(v)) => json!({ "res": "ok", "protos": v }),
        Ok(Err(e)) => {
            let (kind, text) = err_kind(&e);
            let undef = matches!(e, bp3d_protoc::Error::Compiler(bp3d_protoc::compiler::Error::UndefinedReference(_)));
            json!({ "res": "err", "stage": stage.get(), "kind": kind, "text": text, "undef": undef })
        },
        Err(e) => json!({ "res": "panic", "stage": stage.get(), "text": panic_text(e) })
    }
}

/// Same as session, by means of the entry point of build scripts, which is run in a process of its own.
fn build_script(s: &Value) -> Value {
    let out = s["out"].as_str().unwrap();
    std::fs::create_dir_all(out).unwrap();
    let res = std::process::Command::new(std::env::current_exe().unwrap()).arg("script").arg(s.to_string())
        .env("OUT_DIR", out).output().unwrap();
    let vars: Vec<Value> = String::from_utf8_lossy(&res.stdout).lines()
        .filter_map(|l| l.strip_prefix("cargo::rustc-env=BP3D_PROTOC_").or(l.strip_prefix("cargo:rustc-env=BP3D_PROTOC_")))
        .filter_map(|l| l.split_once('=')).map(|(name, path)| json!({ "name": name, "path": path })).collect();
    match res.status.code() {
        Some(0) => json!({ "res": "ok", "protos": vars }),
        _ => json!({ "res": "err", "stage": "script", "kind": "panic", "text": "", "undef": false })
    }
}

fn run_script(s: &Value) {
    bp3d_protoc::generate_rust(|loader| {
        for v in s["imports"].as_array().unwrap() {
            loader.import(v[0].as_str().unwrap(), v[1].as_str().unwrap())?;
        }
        for v in s["loads"].as_array().unwrap() {
            loader.load(v.as_str().unwrap())?;
        }
        Ok(())
    }, |protoc| configure(protoc, &s["opts"]));
}

/// All files below a directory with the identity of their content.
fn listing(dir: &Path, root: &Path, ids: &mut BTreeMap<Vec<u8>, usize>, out: &mut Vec<Value>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut entries: Vec<_> = rd.map(|v| v.unwrap().path()).collect();
    entries.sort();
    for path in entries {
        if path.is_dir() {
            listing(&path, root, ids, out);
        } else {
            let data = std::fs::read(&path).unwrap();
            let text = String::from_utf8_lossy(&data).into_owned();
            let len = data.len();
            let next = ids.len() + 1;
            let id = *ids.entry(data).or_insert(next);
            let name = path.strip_prefix(root).unwrap().to_str().unwrap().to_string();
            let mut item = json!({ "file": name, "id": id, "len": len });
            if name.ends_with("umbrella.rs") {
                item["text"] = text.into();
            }
            out.push(item);
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "script" {
        return run_script(&serde_json::from_str(&args[2]).unwrap());
    }
    if args[1] == "built" {
        return build::script(&serde_json::from_str(&args[2]).unwrap());
    }
    let script: Vec<Value> = serde_json::from_slice(&std::fs::read(&args[2]).unwrap()).unwrap();
    let skip: usize = args.get(3).map(|v| v.parse().unwrap()).unwrap_or(0);
    let out = std::io::stdout();
    let mut ids = BTreeMap::new();
    for (i, entry) in script.iter().enumerate().skip(skip) {
        let res = match &*args[1] {
            "compile" => Value::Array(entry["sessions"].as_array().unwrap().iter().map(session).collect()),
            // Same as compile, followed by a listing of the output directory after every session.
            "gen" => Value::Array(entry["sessions"].as_array().unwrap().iter().map(|s| {
                let mut res = if flag(s, "build", false) { build_script(s) } else { session(s) };
                let mut files = Vec::new();
                let out = Path::new(s["out"].as_str().unwrap());
                listing(out, out, &mut ids, &mut files);
                res["files"] = files.into();
                res
            }).collect()),
            "build" => build::run(entry),
            "emit" => Value::Array(emit::run(entry)),
            "paths" => paths::run(entry),
            "solver" => solver::run(entry),
            "loader" => loader::run(entry),
            "template" => match catch_unwind(AssertUnwindSafe(|| template::run(entry))) {
                Ok(v) => json!({ "panic": false, "res": v }),
                Err(e) => json!({ "panic": true, "res": [], "text": panic_text(e) })
            },
            _ => panic!("unknown mode")
        };
        let mut out = out.lock();
        writeln!(out, "{}", json!({ "i": i, "res": res })).unwrap();
        out.flush().unwrap();
    }
}
