//! zkh JOBS OUT [THREADS]: runs the jobs (one JSON object per line) against the real code.
mod fld;
mod fp;
mod jobs;
mod opt;
mod prog;

use jobs::guard;
use serde_json::{json, Value as J};
use zokrates_field::Bn128Field;

/// A job which is generic in the field
pub trait Job {
    fn run<T: zokrates_field::Field>(self) -> J;
}
pub fn with_field<W: Job>(f: &str, w: W) -> J {
    use zokrates_field::*;
    match f {
        "bn128" => w.run::<Bn128Field>(),
        "bls12_381" => w.run::<Bls12_381Field>(),
        "bls12_377" => w.run::<Bls12_377Field>(),
        "bw6_761" => w.run::<Bw6_761Field>(),
        "pallas" => w.run::<PallasField>(),
        "vesta" => w.run::<VestaField>(),
        _ => {
            fp::set_modulus(f.strip_prefix("fp:").unwrap().parse().unwrap());
            w.run::<fp::Fp>()
        }
    }
}
struct FieldJob<'a>(&'a J);
impl<'a> Job for FieldJob<'a> {
    fn run<T: zokrates_field::Field>(self) -> J {
        fld::run::<T>(self.0)
    }
}

fn dispatch(job: &J) -> J {
    let f = job.get("f").and_then(|x| x.as_str()).unwrap_or("bn128");
    match job["kind"].as_str().unwrap_or("prog") {
        "prog" => {
            if let Some(p) = f.strip_prefix("fp:") {
                fp::set_modulus(p.parse().unwrap());
                prog::run::<fp::Fp>(job)
            } else {
                prog::run::<Bn128Field>(job)
            }
        }
        "opt" => {
            fp::set_modulus(f.strip_prefix("fp:").unwrap().parse().unwrap());
            opt::run::<fp::Fp>(job)
        }
        "field" => with_field(f, FieldJob(job)),
        k => json!({"error": format!("unknown job kind {}", k)}),
    }
}

fn main() {
    jobs::main(dispatch)
}
