//! Runs the entry point of build scripts in processes of their own.

use std::io::Write;
use std::path::Path;
use std::process::Command;
use bp3d_protoc::{Error, Loader};
use serde_json::{json, Value};

/// Everything below a directory, without what the script put there.
fn listing(dir: &Path, rel: &str, taken: &[String], out: &mut Vec<String>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut entries: Vec<_> = rd.map(|v| v.unwrap()).collect();
    entries.sort_by_key(|v| v.file_name());
    for e in entries {
        let name = format!("{}{}", rel, e.file_name().to_string_lossy());
        if taken.contains(&name) {
            continue;
        }
        match e.path().is_dir() {
            true => listing(&e.path(), &format!("{}/", name), taken, out),
            false => out.push(name)
        }
    }
}

/// scratch is a fresh directory: OUT_DIR is scratch/out, the process runs in scratch/here.
pub fn run(s: &Value) -> Value {
    let scratch = Path::new(s["scratch"].as_str().unwrap());
    let (here, out, log) = (scratch.join("here"), scratch.join("out"), scratch.join("log"));
    std::fs::create_dir_all(&here).unwrap();
    match s["out"].as_str().unwrap() {
        "file" => std::fs::write(&out, "").unwrap(),
        _ => std::fs::create_dir(&out).unwrap()
    }
    let mut taken = Vec::new();
    for v in s["taken"].as_array().unwrap() {
        let v: Vec<&str> = v.as_array().unwrap().iter().map(|v| v.as_str().unwrap()).collect();
        taken.push(v.join("/"));
        match v.len() {
            1 => std::fs::write(out.join(v[0]), "").unwrap(),
            _ => std::fs::create_dir_all(out.join(v[0]).join(v[1])).unwrap()
        }
    }
    std::fs::write(&log, "").unwrap();
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("built").arg(s.to_string()).current_dir(&here);
    match s["out"].as_str().unwrap() {
        "unset" => cmd.env_remove("OUT_DIR"),
        _ => cmd.env("OUT_DIR", &out)
    };
    let res = cmd.output().unwrap();
    let (mut files, mut strays) = (Vec::new(), Vec::new());
    listing(&out, "", &taken, &mut files);
    listing(scratch, "", &["out".into(), "log".into()], &mut strays);
    let lines = String::from_utf8_lossy(&res.stdout).into_owned();
    json!({ "ok": res.status.success(), "out": lines.lines().collect::<Vec<_>>(), "files": files, "strays": strays,
        "log": std::fs::read_to_string(&log).unwrap().lines().collect::<Vec<_>>() })
}

/// The build script itself.
pub fn script(s: &Value) {
    let path = Path::new(s["scratch"].as_str().unwrap()).join("log");
    let log = |text: &str| writeln!(std::fs::OpenOptions::new().append(true).open(&path).unwrap(), "{}", text).unwrap();
    bp3d_protoc::generate_rust(|loader: &mut Loader| {
        for v in s["calls"].as_array().unwrap() {
            let name = v["do"].as_str().unwrap();
            let file = v["file"].as_str().unwrap();
            let res = match name {
                "load" => loader.load(file),
                _ => loader.import(file, "crate")
            };
            match res {
                Ok(()) => log(name),
                Err(e) => {
                    log(&format!("{} failed", name));
                    if s["strict"].as_bool().unwrap() {
                        return Err(e);
                    }
                }
            }
        }
        match s["refuse"].as_bool().unwrap() {
            true => Err(Error::Generator("refused".into())),
            false => Ok(())
        }
    }, |protoc| {
        log("configure");
        super::configure(protoc, &s["opts"])
    });
}
