//! The binary format: everything written while a program is saved, and what reading gives at every point.
use crate::prog::lin_j;
use serde_json::{json, Value as J};
use std::io::{self, Cursor, Seek, SeekFrom, Write};
use zokrates_ast::ir::{ProgEnum, Prog, Solver, Statement};
use zokrates_field::Field;
use zokrates_interpreter::Interpreter;

/// A file which remembers what is done to it
#[derive(Default)]
struct Recorder {
    file: Cursor<Vec<u8>>,
    ops: Vec<(u64, Vec<u8>)>,
}
impl Write for Recorder {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let at = self.file.position();
        match self.ops.last_mut() {
            Some((o, v)) if *o + v.len() as u64 == at => v.extend_from_slice(b),
            _ => self.ops.push((at, b.to_vec())),
        }
        self.file.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Recorder {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.file.seek(p)
    }
}

fn cbor<S: serde::Serialize>(s: &S) -> J {
    J::Array(serde_cbor::to_vec(s).unwrap().into_iter().map(|b| b.into()).collect())
}
/// references to solvers are looked up in the table
fn statement<T: Field>(s: &Statement<T>, table: &[Solver<T>]) -> J {
    let c = cbor(s);
    match s {
        Statement::Block(b) => json!({"t": "b", "b": b.inner.iter().map(|s| statement(s, table)).collect::<Vec<_>>()}),
        Statement::Constraint(s) => json!({"t": "c", "l": lin_j(&s.quad.left), "r": lin_j(&s.quad.right), "o": lin_j(&s.lin), "cbor": c}),
        Statement::Directive(d) => json!({"t": "d", "o": d.outputs.iter().map(|v| v.id).collect::<Vec<_>>(),
            "i": d.inputs.iter().map(|q| json!([lin_j(&q.left), lin_j(&q.right)])).collect::<Vec<_>>(),
            "z": matches!(d.solver, Solver::Zir(_) | Solver::Ref(_)), "g": [d.solver.get_signature().0, d.solver.get_signature().1],
            "solver": match &d.solver { Solver::Ref(r) => table.get(r.index).map(cbor).unwrap_or(J::Null), s => cbor(s) }}),
        Statement::Log(l) => json!({"t": "l", "e": l.expressions.iter().map(|(_, e)| e.iter().map(lin_j).collect::<Vec<_>>()).collect::<Vec<_>>(), "cbor": c}),
    }
}
fn dump<T: Field>(p: &Prog<T>) -> J {
    json!({"args": p.arguments.iter().map(|a| json!([a.id.id, a.private])).collect::<Vec<_>>(), "rc": p.return_count,
           "st": p.statements.iter().map(|s| statement(s, &p.solvers)).collect::<Vec<_>>(),
           "argsc": cbor(&p.arguments), "modules": cbor(&p.module_map)})
}
fn execute<T: Field>(p: &Prog<T>, job: &J) -> J {
    let mut out = vec![];
    for r in job["runs"].as_array().unwrap() {
        let enc: Vec<T> = r.as_array().unwrap().iter().map(|v| T::try_from_dec_str(v.as_str().unwrap()).unwrap()).collect();
        let mut log: Vec<u8> = vec![];
        let x = crate::guard(|| {
            Interpreter::default().execute_with_log_stream(&enc, p.statements.iter(), &p.arguments, &p.solvers, &mut log)
                .map(|w| w.0.iter().map(|(v, x)| format!("{}={}", v, x.to_dec_string())).collect::<Vec<_>>().join(" "))
                .map_err(|e| e.to_string())
        });
        out.push(format!("{:?} {}", x, String::from_utf8_lossy(&log)));
    }
    json!(out)
}
/// what a reader gets: the program and its behaviour, or nothing
fn read(bytes: Vec<u8>, job: &J) -> Option<J> {
    crate::guard(|| {
        let p = ProgEnum::deserialize(Cursor::new(bytes)).ok()?;
        let curve = p.curve();
        let (d, r) = match p.collect() {
            ProgEnum::Bls12_381Program(p) => (dump(&p), execute(&p, job)),
            ProgEnum::Bn128Program(p) => (dump(&p), execute(&p, job)),
            ProgEnum::Bls12_377Program(p) => (dump(&p), execute(&p, job)),
            ProgEnum::Bw6_761Program(p) => (dump(&p), execute(&p, job)),
            ProgEnum::PallasProgram(p) => (dump(&p), execute(&p, job)),
            ProgEnum::VestaProgram(p) => (dump(&p), execute(&p, job)),
        };
        Some(json!({"curve": curve, "prog": d, "runs": r}))
    })
    .ok()
    .flatten()
}

pub fn save<T: Field>(job: &J, prog: Prog<T>) -> J {
    let mem = json!({"prog": dump(&prog), "runs": execute(&prog, job), "curve": T::name()});
    let mut rec = Recorder::default();
    let saved = crate::guard(|| prog.serialize(&mut rec).map_err(|e| e.to_string()));
    let saved = match saved {
        Ok(Ok(n)) => json!({"ok": n}),
        Ok(Err(e)) => json!({"err": e}),
        Err(e) => return json!({"compile": "ok", "saved": {"panic": e}}),
    };
    let file = rec.file.into_inner();
    // what a reader gets of the files: after each prefix of the writes, and the changed ones
    let mut seen: Vec<Option<J>> = vec![];
    let mut of = |b: Vec<u8>| {
        let x = read(b, job);
        match seen.iter().position(|y| *y == x) {
            Some(i) => i,
            None => {
                seen.push(x);
                seen.len() - 1
            }
        }
    };
    let whole = of(file.clone());
    let mut crashes = vec![];
    let mut disk: Vec<u8> = vec![];
    let picks: Vec<f64> = job["picks"].as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect();
    for (k, (at, bytes)) in rec.ops.iter().enumerate() {
        let at = *at as usize;
        let mut points: Vec<usize> = if bytes.len() < 300 { (0..=bytes.len()).collect() } else {
            picks.iter().map(|f| (*f * bytes.len() as f64) as usize).chain([bytes.len()]).collect()
        };
        points.sort();
        points.dedup();
        for j in &points {
            let mut d = disk.clone();
            d.resize(d.len().max(at + j), 0);
            d[at..at + j].copy_from_slice(&bytes[..*j]);
            crashes.push(json!([k, j, of(d)]));
        }
        disk.resize(disk.len().max(at + bytes.len()), 0);
        disk[at..at + bytes.len()].copy_from_slice(bytes);
    }
    let mut cuts = vec![];
    for f in &picks {
        let n = (*f * file.len() as f64) as usize;
        cuts.push(json!([n, of(file[..n].to_vec())]));
    }
    cuts.push(json!([file.len() - 1, of(file[..file.len() - 1].to_vec())]));
    let mut flips = vec![];
    // magic, version, curve
    for i in 0..12 {
        let mut d = file.clone();
        d[i] ^= 1 << (i % 8);
        flips.push(json!([i, of(d)]));
    }
    // statements which are not statements
    let mut torn = vec![];
    let word = |at: usize| u64::from_le_bytes(file[at..at + 8].try_into().unwrap()) as usize;
    let (from, len) = (word(44), word(52));
    if let Some(section) = file.get(from..from + len) {
        let mut it = serde_cbor::Deserializer::from_slice(section).into_iter::<serde_cbor::Value>();
        let mut starts = vec![0];
        while let Some(Ok(_)) = it.next() {
            starts.push(it.byte_offset());
        }
        starts.pop();
        for f in &picks {
            if starts.is_empty() {
                break;
            }
            let at = from + starts[(*f * starts.len() as f64) as usize];
            let mut d = file.clone();
            d[at] = 0xff;
            torn.push(json!([at, of(d)]));
        }
    }
    let mut longer = file.clone();
    longer.extend_from_slice(&[0xa0, 0x80, 7]);
    let longer = of(longer);
    json!({"compile": "ok", "saved": saved, "mem": mem, "ops": rec.ops, "whole": whole, "crashes": crashes, "cuts": cuts, "flips": flips, "torn": torn,
           "longer": longer, "seen": seen})
}
