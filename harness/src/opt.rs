//! Constraint programs given directly (JSON): through the real optimiser, and executed.
use crate::prog::ir_j;
use serde_json::{json, Value as J};
use zokrates_ast::common::{FormatString, RuntimeError};
use zokrates_ast::ir::{LinComb, Parameter, Prog, QuadComb, Solver, Statement, Variable};
use zokrates_ast::typed::ConcreteType;
use zokrates_field::Field;
use zokrates_interpreter::Interpreter;

fn var(id: i64) -> Variable {
    match id {
        0 => Variable::one(),
        i if i < 0 => Variable::public((-i - 1) as usize),
        i => Variable::new((i - 1) as usize),
    }
}
pub fn lin<T: Field>(j: &J) -> LinComb<T> {
    LinComb::new(j.as_array().unwrap().iter().map(|t| {
        (var(t[0].as_i64().unwrap()), T::try_from_dec_str(t[1].as_str().unwrap()).unwrap())
    }).collect())
}
fn quad<T: Field>(l: &J, r: &J) -> QuadComb<T> {
    QuadComb::new(lin(l), lin(r))
}
fn solver<T>(s: &str) -> Solver<'static, T> {
    match s {
        "ConditionEq" => Solver::ConditionEq,
        "Div" => Solver::Div,
        "Xor" => Solver::Xor,
        "Or" => Solver::Or,
        "EuclideanDiv" => Solver::EuclideanDiv,
        "ShaCh" => Solver::ShaCh,
        "ShaAndXorAndXorAnd" => Solver::ShaAndXorAndXorAnd,
        b => Solver::bits(b.strip_prefix("Bits(").and_then(|b| b.strip_suffix(')')).unwrap().parse().unwrap()),
    }
}
fn statement<T: Field>(j: &J) -> Statement<'static, T> {
    match j["t"].as_str().unwrap() {
        "c" => Statement::constraint(quad(&j["l"], &j["r"]), lin::<T>(&j["o"]), Some(RuntimeError::Inverse)),
        "d" => Statement::directive(
            j["o"].as_array().unwrap().iter().map(|v| var(v.as_i64().unwrap())).collect(),
            solver(j["s"].as_str().unwrap()),
            j["i"].as_array().unwrap().iter().map(|q| quad(&q[0], &q[1])).collect(),
        ),
        "l" => {
            let e: Vec<_> = j["e"].as_array().unwrap().iter().map(|e| (ConcreteType::FieldElement, vec![lin(e)])).collect();
            Statement::log(FormatString { parts: std::iter::repeat(",".to_string()).take(e.len() + 1).collect() }, e)
        }
        _ => Statement::block(j["b"].as_array().unwrap().iter().map(statement).collect()),
    }
}
pub fn program<T: Field>(j: &J) -> Prog<'static, T> {
    Prog {
        module_map: Default::default(),
        arguments: j["args"].as_array().unwrap().iter().map(|a| {
            let v = var(a[0].as_i64().unwrap());
            if a[1].as_bool().unwrap() { Parameter::private(v) } else { Parameter::public(v) }
        }).collect(),
        return_count: j["rc"].as_u64().unwrap() as usize,
        statements: j["st"].as_array().unwrap().iter().map(statement).collect(),
        solvers: vec![],
    }
}

pub fn run<T: Field>(job: &J) -> J {
    let p = program::<T>(&job["ir"]);
    let o = match crate::guard(|| zokrates_core::verif::optimize(p).collect()) {
        Ok(o) => o,
        Err(e) => return json!({"opt": "panic", "err": e}),
    };
    let mut runs = vec![];
    for r in job["runs"].as_array().unwrap() {
        let enc: Vec<T> = r.as_array().unwrap().iter().map(|v| T::try_from_dec_str(v.as_str().unwrap()).unwrap()).collect();
        let mut log: Vec<u8> = vec![];
        let x = crate::guard(|| {
            Interpreter::default().execute_with_log_stream(&enc, o.statements.iter(), &o.arguments, &o.solvers, &mut log)
                .map(|w| w.return_values().iter().map(|x| x.to_dec_string()).collect::<Vec<_>>())
                .map_err(|e| e.to_string())
        });
        runs.push(match x {
            Ok(Ok(out)) => json!({"st": "ok", "out": out, "log": String::from_utf8_lossy(&log)}),
            Ok(Err(e)) => json!({"st": "fail", "err": e}),
            Err(e) => json!({"st": "panic", "err": e}),
        });
    }
    json!({"opt": "ok", "ir": ir_j(&o), "runs": runs})
}
