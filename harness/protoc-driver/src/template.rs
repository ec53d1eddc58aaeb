//! Runs scripts on the template engine.
//!
//! An entry is { text: [byte], ops: [op] }; scopes are created by index, scope 0 is the template.

use std::borrow::Cow;
use bp3d_protoc::gen::template::{Error, FunctionMap, Scope, Template};
use serde_json::{json, Value};

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u8).collect()
}

fn text(v: &Value) -> String {
    String::from_utf8(bytes(v)).unwrap()
}

fn error(e: Error) -> Value {
    let (kind, arg) = match e {
        Error::InvalidUTF8 => ("utf8", String::new()),
        Error::InvalidPop => ("pop", String::new()),
        Error::NoFragment => ("nofragment", String::new()),
        Error::FragmentNotFound(v) => ("fragment", v),
        Error::VariableNotFound(v) => ("variable", v),
        Error::FunctionNotFound(v) => ("function", v)
    };
    json!({ "res": "err", "kind": kind, "arg": arg.into_bytes() })
}

fn result(res: Result<String, Error>) -> Value {
    match res {
        Ok(v) => json!({ "res": "ok", "kind": "", "arg": v.into_bytes() }),
        Err(e) => error(e)
    }
}

fn ok() -> Value {
    json!({ "res": "ok", "kind": "", "arg": [] })
}

fn twice(v: &str) -> Cow<'_, str> {
    (v.to_string() + v).into()
}

fn gone(_: &str) -> Cow<'_, str> {
    "".into()
}

fn functions(map: &str) -> FunctionMap<'static> {
    let mut res = FunctionMap::new();
    if map == "both" {
        res.add_defaults();
    }
    if map == "both" || map == "custom" {
        res.add("twice", twice).add("gone", gone);
    }
    if map == "replaced" {
        res.add_defaults();
        res.add("lower", gone).add("twice", gone).add("lower", twice).add("twice", twice);
    }
    if map == "restored" {
        res.add("upper", gone).add("twice", gone);
        res.add_defaults();
    }
    res
}

pub fn run(entry: &Value) -> Value {
    // The strings outlive every scope and template of the entry.
    let leak = |v: &Value| -> &'static str { Box::leak(text(v).into_boxed_str()) };
    let data: &'static [u8] = Box::leak(bytes(&entry["text"]).into_boxed_slice());
    let mut results = Vec::new();
    let compiled = match entry["map"].as_str().unwrap() {
        "default" => Template::compile(data),
        map => Template::compile_with_function_map(data, functions(map))
    };
    let mut template = match compiled {
        Ok(v) => {
            results.push(ok());
            v
        },
        Err(e) => {
            results.push(error(e));
            return results.into();
        }
    };
    let ops = entry["ops"].as_array().unwrap();
    // Variables of the template are set before its first scope is created.
    let first_scope = ops.iter().position(|v| v["op"] == "scope" || v["op"] == "clone").unwrap_or(ops.len());
    let names = |op: &Value| -> (String, Vec<String>) {
        (text(&op["path"]), op["frags"].as_array().unwrap().iter().map(text).collect())
    };
    for op in &ops[..first_scope] {
        results.push(match op["op"].as_str().unwrap() {
            "var" => {
                match op["d"].as_i64() {
                    Some(d) => template.var_d(leak(&op["key"]), d),
                    None => template.var(leak(&op["key"]), leak(&op["shown"]))
                };
                ok()
            },
            "render" => {
                let (path, frags) = names(op);
                result(template.render(&path, &frags.iter().map(|v| &**v).collect::<Vec<_>>()))
            },
            _ => panic!("op")
        });
    }
    let template = template;
    let mut scopes: Vec<Scope> = Vec::new();
    for op in &ops[first_scope..] {
        let s = op["s"].as_u64().unwrap() as usize;
        results.push(match op["op"].as_str().unwrap() {
            "scope" => {
                scopes.push(template.scope());
                ok()
            },
            "clone" => {
                let scope = scopes[s - 1].clone();
                scopes.push(scope);
                ok()
            },
            "var" => {
                match op["d"].as_i64() {
                    Some(d) => scopes[s - 1].var_d(leak(&op["key"]), d),
                    None => scopes[s - 1].var(leak(&op["key"]), leak(&op["shown"]))
                };
                ok()
            },
            "render" => {
                let (path, frags) = names(op);
                let frags = frags.iter().map(|v| &**v).collect::<Vec<_>>();
                match s {
                    0 => result(template.render(&path, &frags)),
                    _ => result(scopes[s - 1].render(&path, &frags))
                }
            },
            "tovar" => {
                let (path, frags) = names(op);
                let frags = frags.iter().map(|v| &**v).collect::<Vec<_>>();
                match scopes[s - 1].render_to_var(&path, &frags, leak(&op["key"])) {
                    Ok(_) => ok(),
                    Err(e) => error(e)
                }
            },
            _ => panic!("op")
        });
    }
    results.into()
}
