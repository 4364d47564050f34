//! zkf JOBS OUT [THREADS]: saves and reads programs with the real code.
#[allow(dead_code)]
#[path = "../../src/prog.rs"]
mod prog;
#[allow(dead_code)]
#[path = "../../src/opt.rs"]
mod opt;
#[allow(dead_code)]
#[path = "../../src/jobs.rs"]
mod jobs;
mod file;
mod export;

use jobs::guard;
use serde_json::{json, Value as J};
use typed_arena::Arena;
use zokrates_ast::ir::Prog;
use zokrates_common::CompileConfig;
use zokrates_core::compile::compile;
use zokrates_field::*;

fn kind<T: Field>(job: &J, prog: Prog<T>) -> J {
    match job["kind"].as_str().unwrap() {
        "file" => file::save(job, prog),
        _ => export::run(job, prog),
    }
}
/// a program given as constraints, over any curve
fn of_ir<T: Field>(job: &J) -> J {
    kind(job, opt::program::<T>(&job["ir"]))
}
/// a compiled program; the compiler is instantiated for one curve only
fn of_src(job: &J) -> J {
    let resolver = prog::Chain { map: prog::MapResolver { mods: prog::mods_of(job) }, files: false };
    let config = CompileConfig::default().debug(job["debug"].as_bool().unwrap_or(false));
    let src = job["src"].as_str().unwrap().to_string();
    let main = job["main"].as_str().unwrap_or("main").to_string();
    let arena = Arena::new();
    let prog = match guard(|| compile::<Bn128Field, std::io::Error>(src, main.into(), Some(&resolver), config, &arena).map(|a| a.collect())) {
        Ok(Ok(a)) => a.into_inner().0,
        e => return json!({"compile": "failed", "err": format!("{:?}", e.map(|r| r.err().map(|e| prog::errs(e))))}),
    };
    kind(job, prog)
}

fn dispatch(job: &J) -> J {
    match job["f"].as_str().unwrap_or("bn128") {
        _ if job.get("ir").is_none() => of_src(job),
        "bn128" => of_ir::<Bn128Field>(job),
        "bls12_381" => of_ir::<Bls12_381Field>(job),
        "bls12_377" => of_ir::<Bls12_377Field>(job),
        "bw6_761" => of_ir::<Bw6_761Field>(job),
        "pallas" => of_ir::<PallasField>(job),
        "vesta" => of_ir::<VestaField>(job),
        f => json!({"error": format!("unknown curve {}", f)}),
    }
}

fn main() {
    jobs::main(dispatch)
}
