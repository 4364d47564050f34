//! Compile a program with the real compiler, run it on inputs with the real interpreter, and
//! record what can be observed.
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::io;
use std::path::PathBuf;
use typed_arena::Arena;
use zokrates_abi::{parse_strict_json, Decode, Encode, Value, Values};
use zokrates_ast::ir::{self, LinComb, Prog, QuadComb, Statement, Witness};
use zokrates_ast::typed::abi::Abi;
use zokrates_common::{CompileConfig, Resolver};
use zokrates_core::compile::{compile, CompileErrors};
use zokrates_field::Field;
use zokrates_interpreter::Interpreter;

/// Resolves imports from a map: `./x` relative to the importing file's directory, anything else as is.
pub struct MapResolver {
    pub mods: HashMap<String, String>,
}

fn normalize(p: &std::path::Path) -> String {
    let mut out: Vec<String> = vec![];
    for c in p.components() {
        match c {
            std::path::Component::ParentDir => {
                out.pop();
            }
            std::path::Component::CurDir => {}
            c => out.push(c.as_os_str().to_string_lossy().to_string()),
        }
    }
    out.join("/")
}

impl Resolver<io::Error> for MapResolver {
    fn resolve(&self, cur: PathBuf, imp: PathBuf) -> Result<(String, PathBuf), io::Error> {
        let i = imp.to_string_lossy().to_string();
        let base = if i.starts_with('.') {
            cur.parent().map(|p| p.to_path_buf()).unwrap_or_default()
        } else {
            PathBuf::new()
        };
        let full = normalize(&base.join(&imp));
        match self.mods.get(&full) {
            Some(s) => Ok((s.clone(), PathBuf::from(full))),
            None if !i.starts_with('.') => {
                let root = std::env::var("ZOKRATES_STDLIB").unwrap_or_else(|_| "/repo/zokrates_stdlib/stdlib".into());
                let mut p = PathBuf::from(root).join(&imp);
                p.set_extension("zok");
                std::fs::read_to_string(&p).map(|s| (s, p))
            }
            None => Err(io::Error::new(io::ErrorKind::NotFound, format!("no module {}", full))),
        }
    }
}

/// A resolver which also serves relative imports made from within the standard library
pub struct Chain {
    pub map: MapResolver,
    /// the modules are files, resolved by the file system resolver only
    pub files: bool,
}
impl Resolver<io::Error> for Chain {
    fn resolve(&self, cur: PathBuf, imp: PathBuf) -> Result<(String, PathBuf), io::Error> {
        if self.files || cur.is_absolute() {
            return zokrates_fs_resolver::FileSystemResolver::with_stdlib_root("/repo/zokrates_stdlib/stdlib")
                .resolve(cur, imp);
        }
        self.map.resolve(cur, imp)
    }
}

pub fn lin_j<T: Field>(l: &LinComb<T>) -> J {
    J::Array(l.value.iter().map(|(v, c)| json!([v.id, c.to_dec_string()])).collect())
}
pub fn quad_j<T: Field>(q: &QuadComb<T>) -> J {
    json!([lin_j(&q.left), lin_j(&q.right)])
}
pub fn stmt_j<T: Field>(s: &Statement<T>, out: &mut Vec<J>) {
    match s {
        Statement::Block(b) => b.inner.iter().for_each(|s| stmt_j(s, out)),
        Statement::Constraint(c) => out.push(json!({"t": "c", "l": lin_j(&c.quad.left), "r": lin_j(&c.quad.right), "o": lin_j(&c.lin)})),
        Statement::Directive(d) => out.push(json!({"t": "d", "s": d.solver.to_string(),
            "i": d.inputs.iter().map(quad_j).collect::<Vec<_>>(),
            "o": d.outputs.iter().map(|v| v.id).collect::<Vec<_>>()})),
        Statement::Log(l) => out.push(json!({"t": "l", "e": l.expressions.iter().flat_map(|(_, e)| e.iter().map(lin_j)).collect::<Vec<_>>()})),
    }
}
pub fn ir_j<T: Field>(p: &Prog<T>) -> J {
    let mut st = vec![];
    p.statements.iter().for_each(|s| stmt_j(s, &mut st));
    json!({"args": p.arguments.iter().map(|a| json!([a.id.id, a.private])).collect::<Vec<_>>(),
           "rc": p.return_count, "st": st})
}
pub fn wit_j<T: Field>(w: &Witness<T>) -> J {
    J::Array(w.0.iter().map(|(k, v)| json!([k.id, v.to_dec_string()])).collect())
}

fn inputs_of(j: &J) -> Vec<J> {
    j.as_array().cloned().unwrap_or_default()
}

pub fn execute<T: Field>(prog: &Prog<T>, abi: &Abi, run: &J, want_wit: bool, oor: bool) -> J {
    // ABI-encoded inputs, or raw field elements
    let enc: Vec<T> = if let Some(raw) = run.get("raw") {
        raw.as_array().unwrap().iter().map(|v| T::try_from_dec_str(v.as_str().unwrap()).unwrap()).collect()
    } else {
        match parse_strict_json::<T>(inputs_of(run), abi.signature().inputs) {
            Ok(v) => v.encode(),
            Err(e) => return json!({"ok": false, "stage": "inputs", "err": e.to_string()}),
        }
    };
    let encs: Vec<String> = enc.iter().map(|x| x.to_dec_string()).collect();
    let mut log: Vec<u8> = vec![];
    let interpreter = if oor { Interpreter::try_out_of_range() } else { Interpreter::default() };
    match interpreter.execute_with_log_stream(&enc, prog.statements.iter(), &prog.arguments, &prog.solvers, &mut log) {
        Ok(w) => {
            let rv = w.return_values();
            let raw: Vec<String> = rv.iter().map(|x| x.to_dec_string()).collect();
            let log = String::from_utf8_lossy(&log).to_string();
            let mut r = json!({"ok": true, "enc": encs, "raw": raw, "log": log});
            if want_wit {
                r["wit"] = wit_j(&w);
                r["pub"] = json!(prog.public_inputs_values(&w).iter().map(|x| x.to_dec_string()).collect::<Vec<_>>());
            }
            let decoded = crate::guard(|| Values(vec![Value::decode(rv, abi.output.clone())]).into_serde_json());
            match decoded {
                Ok(d) => r["out"] = d[0].clone(),
                Err(p) => r["decode_panic"] = json!(p),
            }
            r
        }
        Err(e) => json!({"ok": false, "stage": "exec", "enc": encs, "err": e.to_string(), "log": String::from_utf8_lossy(&log)}),
    }
}

pub fn errs(e: CompileErrors) -> J {
    J::Array(e.0.iter().map(|e| json!(format!("{}: {}", e.file().display(), e.value()))).collect())
}

pub fn mods_of(job: &J) -> HashMap<String, String> {
    job.get("mods")
        .and_then(|m| m.as_object())
        .map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect())
        .unwrap_or_default()
}

pub fn has(job: &J, w: &str) -> bool {
    job.get("want").and_then(|a| a.as_array()).map(|a| a.iter().any(|x| x == w)).unwrap_or(false)
}

pub fn run<T: Field>(job: &J) -> J {
    let src = job["src"].as_str().unwrap().to_string();
    let dir = job.get("dir").and_then(|d| d.as_str()).map(PathBuf::from);
    let resolver = Chain { map: MapResolver { mods: mods_of(job) }, files: dir.is_some() };
    let config = CompileConfig::default().debug(job.get("debug").and_then(|d| d.as_bool()).unwrap_or(false));
    let main = job.get("main").and_then(|m| m.as_str()).unwrap_or("main").to_string();
    // modules as files: the program's own directory is removed afterwards
    let main = match &dir {
        Some(d) => {
            for (k, v) in &resolver.map.mods {
                let p = d.join(k);
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(p, v).unwrap();
            }
            let p = d.join(&main);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(&p, &src).unwrap();
            p.to_string_lossy().to_string()
        }
        None => main,
    };
    let arena = Arena::new();
    let compiled = crate::guard(|| {
        compile::<T, io::Error>(src.clone(), main.clone().into(), Some(&resolver), config, &arena).map(|a| a.collect())
    });
    let artifacts = match compiled {
        Err(p) => {
            dir.as_ref().map(std::fs::remove_dir_all);
            return json!({"compile": "panic", "err": p});
        }
        Ok(Err(e)) => {
            dir.as_ref().map(std::fs::remove_dir_all);
            return json!({"compile": "error", "err": errs(e)});
        }
        Ok(Ok(a)) => a,
    };
    let (prog, abi) = artifacts.into_inner();
    let mut res = json!({"compile": "ok", "abi": serde_json::to_value(&abi).unwrap(), "nc": prog.constraint_count()});
    if has(job, "ir") {
        res["ir"] = ir_j(&prog);
    }
    if has(job, "iraw") {
        // the same program before the constraint optimiser
        let arena2 = Arena::new();
        let raw = crate::guard(|| {
            zokrates_core::verif::check_with_arena::<T, io::Error>(src.clone(), main.clone().into(), Some(&resolver), &config, &arena2)
                .map(|(zir, _)| ir::from_flat::from_flat(zokrates_codegen::from_program_and_config(zir)).clean().collect())
                .map_err(|_| ())
        });
        if let Ok(Ok(p)) = raw {
            res["iraw"] = ir_j(&p);
        }
    }
    if let Some(d) = &dir {
        let _ = std::fs::remove_dir_all(d);
    }
    let oor = job.get("oor").and_then(|d| d.as_bool()).unwrap_or(false);
    let mut runs = vec![];
    if let Some(rs) = job.get("runs").and_then(|r| r.as_array()) {
        for r in rs {
            runs.push(match crate::guard(|| execute(&prog, &abi, r, has(job, "wit"), oor)) {
                Ok(j) => j,
                Err(p) => json!({"ok": false, "stage": "panic", "err": p}),
            });
        }
    }
    res["runs"] = J::Array(runs);
    res
}
