//! Uses SimpleImportSolver directly.

use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use bp3d_protoc::compiler::util::ImportResolver;
use bp3d_protoc::compiler::Protocol;
use bp3d_protoc::util::SimpleImportSolver;
use bp3d_protoc::{ImportSolver, Loader};
use serde_json::{json, Value};

/// Keeps what it is told, to get hold of compiled protocols.
struct Keep(Rc<RefCell<Vec<Protocol>>>);

impl ImportSolver for Keep {
    fn register(&mut self, _: String, protocol: Protocol) {
        self.0.borrow_mut().push(protocol);
    }
}

impl ImportResolver for Keep {
    fn get_protocol_by_name(&self, _: &str) -> Option<&Protocol> {
        None
    }

    fn get_full_type_path(&self, _: &str, _: &str) -> Option<String> {
        None
    }
}

thread_local! {
    static COMPILED: RefCell<HashMap<String, Protocol>> = RefCell::new(HashMap::new());
}

fn compiled(file: &str) -> Protocol {
    COMPILED.with(|c| c.borrow_mut().entry(file.into()).or_insert_with(|| {
        let kept = Rc::new(RefCell::new(Vec::new()));
        let mut loader = Loader::new();
        loader.import(file, "x").unwrap();
        loader.compile(Keep(kept.clone())).ok().unwrap();
        let proto = kept.borrow_mut().pop().unwrap();
        proto
    }).clone())
}

pub fn run(s: &Value) -> Value {
    catch_unwind(AssertUnwindSafe(|| {
        let mut solver = match s["sep"].as_str().unwrap() {
            "::" if s["default"].as_bool().unwrap() => SimpleImportSolver::default(),
            sep => SimpleImportSolver::new(sep)
        };
        s["ops"].as_array().unwrap().iter().map(|op| {
            let mut op = op.clone();
            let name = op["n"].as_str().unwrap();
            op["seen"] = match op["op"].as_str().unwrap() {
                "register" => {
                    let proto = compiled(op["file"].as_str().unwrap());
                    solver.register(op["base"].as_str().unwrap().into(), proto);
                    json!(0)
                },
                "proto" => json!(solver.get_protocol_by_name(name).map(|v| v.structs.len()).unwrap_or(0)),
                _ => json!(solver.get_full_type_path(name, op["ty"].as_str().unwrap()).into_iter().collect::<Vec<_>>())
            };
            op
        }).collect()
    })).unwrap_or_else(|_| Value::Null)
}
