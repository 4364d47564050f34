//! Constraint systems and witnesses in the formats of other tools.
use crate::prog::{ir_j, wit_j};
use serde_json::{json, Value as J};
use zokrates_ast::ir::smtlib2::SMTLib2Display;
use zokrates_ast::ir::{Prog, Witness};
use zokrates_circom::{write_r1cs, write_witness};
use zokrates_field::Field;
use zokrates_interpreter::Interpreter;

pub fn run<T: Field>(job: &J, p: Prog<T>) -> J {
    if p.clone().serialize(&mut std::io::Cursor::new(vec![])).is_err() {
        return json!({"saved": false});
    }
    let mut runs = vec![];
    for r in job["runs"].as_array().unwrap() {
        let enc: Vec<T> = r.as_array().unwrap().iter().map(|v| T::try_from_dec_str(v.as_str().unwrap()).unwrap()).collect();
        let w = Interpreter::default().execute_with_log_stream(&enc, p.statements.iter(), &p.arguments, &p.solvers, &mut vec![]);
        if let Ok(w) = w {
            let (mut wtns, mut native, mut text) = (vec![], vec![], vec![]);
            w.write(&mut native).unwrap();
            w.write_json(&mut text).unwrap();
            let back = Witness::<T>::read(native.as_slice()).map(|b| wit_j(&b)).unwrap_or(J::Null);
            let wit = wit_j(&w);
            write_witness(&mut wtns, w, p.public_inputs()).unwrap();
            runs.push(json!({"wit": wit, "wtns": wtns, "native": native, "back": back, "json": serde_json::from_slice::<J>(&text).unwrap()}));
        }
    }
    let smt = SMTLib2Display(&p).to_string();
    let prog = ir_j(&p);
    let mut r1cs = vec![];
    write_r1cs(&mut r1cs, p).unwrap();
    json!({"saved": true, "prog": prog, "r1cs": r1cs, "smt": smt, "runs": runs})
}
