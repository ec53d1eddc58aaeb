//! Compiles with an import solver which follows a script and records what it is told.

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use bp3d_protoc::compiler::util::ImportResolver;
use bp3d_protoc::compiler::Protocol;
use bp3d_protoc::gen::GeneratorRust;
use bp3d_protoc::{ImportSolver, Loader};
use serde_json::{json, Value};

struct Solver {
    script: Value,
    regs: Rc<RefCell<Vec<Value>>>,
    known: Vec<Protocol>
}

impl ImportSolver for Solver {
    fn register(&mut self, base_import_path: String, protocol: Protocol) {
        self.regs.borrow_mut().push(json!({ "base": base_import_path, "name": protocol.name.clone() }));
        self.known.push(protocol);
    }
}

impl Solver {
    fn latest(&self, name: &str) -> Option<usize> {
        self.known.iter().rposition(|v| v.name == name)
    }
}

impl ImportResolver for Solver {
    fn get_protocol_by_name(&self, name: &str) -> Option<&Protocol> {
        match self.script["hide"].as_array().unwrap().iter().any(|v| v == name) {
            true => None,
            false => self.latest(name).map(|k| &self.known[k])
        }
    }

    /// Types are reached through the number of the registration, whatever path it was made with.
    fn get_full_type_path(&self, protocol: &str, type_name: &str) -> Option<String> {
        if self.script["nopath"].as_array().unwrap().iter().any(|v| v["p"] == protocol && v["t"] == type_name) {
            return None;
        }
        self.latest(protocol).map(|k| format!("{}::via{}::{}", self.script["root"].as_str().unwrap(), k + 1, type_name))
    }
}

pub fn run(s: &Value) -> Value {
    let regs = Rc::new(RefCell::new(Vec::new()));
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<Vec<Value>, bp3d_protoc::Error> {
        let mut loader = Loader::new();
        for v in s["files"].as_array().unwrap() {
            loader.import(v[0].as_str().unwrap(), v[1].as_str().unwrap())?;
        }
        for v in s["load"].as_array().unwrap() {
            loader.load(v.as_str().unwrap())?;
        }
        let protoc = loader.compile(Solver { script: s.clone(), regs: regs.clone(), known: Vec::new() })?;
        let out = s["out"].as_str().unwrap();
        std::fs::create_dir_all(out).unwrap();
        let protos = protoc.set_reads_messages(true).set_writes_messages(true).generate::<GeneratorRust>(out)?;
        Ok(protos.into_iter().map(|v| json!(v.path.to_str())).collect())
    }));
    let (res, kind, paths) = match res {
        Ok(Ok(v)) => ("ok", "", v),
        Ok(Err(bp3d_protoc::Error::Compiler(e))) => ("err", match e {
            bp3d_protoc::compiler::Error::UndefinedReference(_) => "undefined",
            bp3d_protoc::compiler::Error::SolverError => "solver",
            _ => "other"
        }, Vec::new()),
        Ok(Err(_)) => ("err", "none", Vec::new()),
        Err(_) => ("panic", "", Vec::new())
    };
    let regs = std::mem::take(&mut *regs.borrow_mut());
    json!({ "res": res, "kind": kind, "paths": paths, "regs": regs })
}
