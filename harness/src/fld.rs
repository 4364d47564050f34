//! Registers of field elements: a trace of operations of the real `Field` implementations.
use num_bigint::BigUint;
use serde_json::{json, Value as J};
use zokrates_field::Field;

fn s(j: &J) -> &str {
    j.as_str().unwrap()
}
fn bytes(j: &J) -> Vec<u8> {
    j.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()
}

/// One operation: a register or nothing is written with the returned element, `seen` is what else can be observed
fn step<T: Field>(reg: &[T], st: &[J]) -> (Option<T>, J) {
    let r = |i: usize| reg[st[i].as_u64().unwrap() as usize];
    let some = |x: T| (Some(x), json!("ok"));
    let opt = |x: Option<T>| (x, json!(if x.is_some() { "ok" } else { "none" }));
    match s(&st[0]) {
        "add" => some(r(1) + r(2)),
        "addr" => some(r(1) + &r(2)),
        "sub" => some(r(1) - r(2)),
        "subr" => some(r(1) - &r(2)),
        "mul" => some(r(1) * r(2)),
        "mulr" => some(r(1) * &r(2)),
        "div" => opt(crate::guard(|| r(1) / r(2)).ok()),
        "divr" => opt(crate::guard(|| r(1) / &r(2)).ok()),
        "cdiv" => opt(r(1).checked_div(&r(2))),
        "inv" => opt(r(1).inverse_mul()),
        "pow" => some(r(1).pow(s(&st[2]).parse::<usize>().unwrap())),
        "cadd" => opt(r(1).checked_add(&r(2))),
        "cmul" => opt(r(1).checked_mul(&r(2))),
        "cmp" => (None, json!([r(1) < r(2), r(1) == r(2), r(1).cmp(&r(2)) as i8])),
        "bits" => (None, json!([r(1).bits(), r(1).to_bits_be().iter().map(|b| *b as u8).collect::<Vec<_>>()])),
        "bytes" => (None, json!(r(1).to_byte_vector())),
        "frombytes" => opt(crate::guard(|| T::from_byte_vector(bytes(&st[1]))).ok()),
        "rw" => {
            let mut b = vec![];
            r(1).write(&mut b).unwrap();
            opt(T::read(&b[..]).ok())
        }
        "ser" => (None, json!(serde_cbor::to_vec(&r(1)).unwrap())),
        "de" => opt(serde_cbor::from_slice::<T>(&bytes(&st[1])).ok()),
        "dec" => (None, json!([r(1).to_dec_string(), format!("{}", r(1)), format!("{:?}", r(1))])),
        "cdec" => (None, json!(r(1).to_compact_dec_string())),
        "big" => (None, json!(r(1).to_biguint().to_string())),
        "parse" => opt(T::try_from_dec_str(s(&st[1])).ok()),
        "parser" => opt(T::try_from_str(s(&st[1]), st[2].as_u64().unwrap() as u32).ok()),
        "frombig" => opt(T::try_from(BigUint::parse_bytes(s(&st[1]).as_bytes(), 10).unwrap()).ok()),
        "from" => some(match s(&st[1]) {
            "u8" => T::from(s(&st[2]).parse::<u8>().unwrap()),
            "u16" => T::from(s(&st[2]).parse::<u16>().unwrap()),
            "u32" => T::from(s(&st[2]).parse::<u32>().unwrap()),
            "u64" => T::from(s(&st[2]).parse::<u64>().unwrap()),
            "u128" => T::from(s(&st[2]).parse::<u128>().unwrap()),
            "usize" => T::from(s(&st[2]).parse::<usize>().unwrap()),
            "bool" => T::from(s(&st[2]) == "1"),
            _ => T::from(s(&st[2]).parse::<i32>().unwrap()),
        }),
        "min" => some(T::min_value()),
        "max" => some(T::max_value()),
        "maxu" => some(T::max_unique_value()),
        "zero" => some(T::zero()),
        "one" => some(T::one()),
        "isz" => (None, json!([r(1).is_zero(), T::get_required_bits()])),
        o => panic!("{}", o),
    }
}

pub fn run<T: Field>(job: &J) -> J {
    let mut reg: Vec<T> = job["init"].as_array().unwrap().iter().map(|x| T::try_from_dec_str(s(x)).unwrap()).collect();
    let mut out = vec![];
    for st in job["steps"].as_array().unwrap() {
        let st = st.as_array().unwrap();
        let to = st.last().unwrap().as_u64().unwrap() as usize;
        out.push(match crate::guard(|| step(&reg, st)) {
            Ok((v, seen)) => {
                let mut x = json!({"seen": seen});
                if let Some(v) = v {
                    x["v"] = json!(v.to_biguint().to_string());
                    reg[to] = v;
                }
                x
            }
            Err(e) => json!({"seen": "panic", "err": e}),
        });
    }
    json!({"out": out, "name": T::name(), "id": T::id()})
}
