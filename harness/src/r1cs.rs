//! The constraint system the range circuit generates: its matrices, and its verdict on given values.
use crate::engines::*;
use crate::session::{run, Out};
use ark_ec::pairing::Pairing;
use ark_ff::{BigInteger, Field, PrimeField, Zero};
use ark_relations::r1cs::{ConstraintMatrices, ConstraintSynthesizer, ConstraintSystem, ConstraintSystemRef, OptimizationGoal, SynthesisMode};
use dist_saver::circuit::BitsizeCheckCircuit;
use serde_json::{json, Value};

fn from_be<F: PrimeField>(v: &Value) -> F {
    match v {
        Value::Array(a) => F::from_be_bytes_mod_order(&a.iter().map(|x| x.as_u64().unwrap() as u8).collect::<Vec<_>>()),
        x => crate::session::int_to_scalar(x.as_i64().unwrap()),
    }
}

fn synth<F: PrimeField>(c: BitsizeCheckCircuit<F>, mode: SynthesisMode) -> Out<ConstraintSystemRef<F>> {
    run(|| {
        let cs = ConstraintSystem::new_ref();
        cs.set_optimization_goal(OptimizationGoal::Constraints);
        cs.set_mode(mode);
        c.generate_constraints(cs.clone())?;
        cs.finalize();
        Ok(cs)
    })
}

/// coefficient as [s, e] with value s * 2^e, s an odd (or zero) signed integer; [0, -1] when s would be large
fn coef<F: PrimeField>(x: &F, q: i64) -> Value {
    if q > 0 {
        return json!([x.into_bigint().as_ref()[0], 0]);
    }
    if x.is_zero() {
        return json!([0, 0]);
    }
    for sign in [1i64, -1] {
        let y = if sign > 0 { *x } else { -*x };
        let mut v = y.into_bigint();
        let mut e = 0;
        while v.is_even() {
            v.div2();
            e += 1;
        }
        if v.num_bits() <= 15 {
            return json!([sign * v.as_ref()[0] as i64, e]);
        }
    }
    json!([0, -1])
}

fn rows<F: PrimeField>(m: &[Vec<(F, usize)>], q: i64) -> Vec<Value> {
    m.iter()
        .map(|r| Value::Array(r.iter().map(|(c, i)| { let v = coef(c, q); json!([i, v[0], v[1]]) }).collect()))
        .collect()
}

fn eval<F: PrimeField>(r: &[(F, usize)], z: &[F]) -> F {
    r.iter().map(|(c, i)| *c * z[*i]).sum()
}
fn sat<F: PrimeField>(m: &ConstraintMatrices<F>, z: &[F]) -> bool {
    m.a.iter().zip(&m.b).zip(&m.c).all(|((a, b), c)| eval(a, z) * eval(b, z) == eval(c, z))
}

/// columns that carry the values when they are not public: those that agree with them whatever they are
fn value_columns<F: PrimeField>(b: u8, nv: Option<u8>, n: usize) -> Vec<usize> {
    let mut cols: Vec<Option<Vec<usize>>> = vec![None; n];
    let mut x: u64 = 0x9e3779b97f4a7c15;
    for _ in 0..24 {
        let vals: Vec<F> = (0..n).map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            F::from(x)
        }).collect();
        if let Out::Ok(c) = synth(BitsizeCheckCircuit::new(b, nv, Some(vals.clone()), false), SynthesisMode::Prove { construct_matrices: true }) {
            let c = c.borrow().unwrap();
            let base = c.instance_assignment.len();
            for (j, v) in vals.iter().enumerate() {
                let hit = c.witness_assignment.iter().enumerate().filter(|(_, w)| *w == v).map(|(k, _)| base + k);
                cols[j] = Some(match cols[j].take() {
                    None => hit.collect(),
                    Some(old) => { let h: Vec<usize> = hit.collect(); old.into_iter().filter(|k| h.contains(k)).collect() }
                });
            }
        }
    }
    cols.into_iter().filter_map(|c| c.and_then(|c| c.first().cloned())).collect()
}

fn item<E: Eng>(plan: &Value, it: &Value) -> Value {
    type F<E> = <E as Pairing>::ScalarField;
    let q = E::Q;
    let b = it["b"].as_u64().unwrap() as u8;
    let nv = it["nv"].as_u64().map(|x| x as u8);
    let public = it["public"].as_bool().unwrap_or(true);
    let mut ev = json!({"pid": plan["id"], "engine": E::NAME, "q": q, "b": b, "nv": it["nv"].as_i64().unwrap_or(-1), "public": public});
    let o = ev.as_object_mut().unwrap();
    macro_rules! fail {
        ($o:expr) => {{
            o.insert("res".into(), json!($o.tag().0));
            o.insert("why".into(), json!($o.tag().1));
            return ev;
        }};
    }
    match it["op"].as_str().unwrap() {
        "mat" => {
            o.insert("ev".into(), json!("R1cs"));
            let cs = match synth(BitsizeCheckCircuit::<F<E>>::new(b, nv, None, public), SynthesisMode::Setup) {
                Out::Ok(c) => c,
                x => fail!(x),
            };
            let m = cs.to_matrices().unwrap();
            o.insert("res".into(), json!("ok"));
            o.insert("ninst".into(), json!(m.num_instance_variables));
            o.insert("nwit".into(), json!(m.num_witness_variables));
            let cons: Vec<Value> = rows(&m.a, q).into_iter().zip(rows(&m.b, q)).zip(rows(&m.c, q))
                .map(|((a, b), c)| json!({"a": a, "b": b, "c": c})).collect();
            o.insert("cons".into(), Value::Array(cons));
            // does the structure depend on the values?
            let n = m.num_instance_variables.max(1) - 1;
            let n = if public { n } else { nv.map(|x| x as usize).unwrap_or_else(|| dist_saver::utils::chunks_count::<F<E>>(b) as usize) };
            let mut same = true;
            for v in [F::<E>::zero(), F::<E>::from(1u64), -F::<E>::from(1u64)] {
                match synth(BitsizeCheckCircuit::<F<E>>::new(b, nv, Some(vec![v; n]), public), SynthesisMode::Prove { construct_matrices: true }) {
                    Out::Ok(c) => {
                        let p = c.to_matrices().unwrap();
                        same &= p.a == m.a && p.b == m.b && p.c == m.c
                            && p.num_instance_variables == m.num_instance_variables
                            && p.num_witness_variables == m.num_witness_variables;
                    }
                    _ => same = false,
                }
            }
            o.insert("same".into(), json!(same));
            o.insert("vcols".into(), json!(if public { (1..=n).collect() } else { value_columns::<F<E>>(b, nv, n) }));
        }
        _ => {
            o.insert("ev".into(), json!("Probe"));
            let vals: Vec<F<E>> = it["vals"].as_array().unwrap().iter().map(from_be).collect();
            let bytes: Vec<Vec<u8>> = vals.iter().map(|v| v.into_bigint().to_bytes_be()).collect();
            o.insert("vals".into(), json!(bytes));
            let cs = match synth(BitsizeCheckCircuit::new(b, nv, Some(vals.clone()), public), SynthesisMode::Prove { construct_matrices: true }) {
                Out::Ok(c) => c,
                x => fail!(x),
            };
            let ok = match run(|| Ok(cs.is_satisfied()?)) {
                Out::Ok(x) => x,
                x => fail!(x),
            };
            o.insert("res".into(), json!("ok"));
            o.insert("sat".into(), json!(ok));
            let cs = cs.borrow().unwrap();
            let (ia, wa) = (cs.instance_assignment.clone(), cs.witness_assignment.clone());
            let n = vals.len();
            let order = if public {
                ia.len() == n + 1 && ia[0] == F::<E>::ONE && ia[1..] == vals[..]
            } else {
                ia.len() == 1
            };
            o.insert("order".into(), json!(order));
            // a prover who changes one value of the witness
            let mut cheats = 0;
            if it["flip"].as_bool().unwrap_or(false) {
                let m = cs.to_matrices().unwrap();
                let z: Vec<F<E>> = ia.iter().chain(wa.iter()).cloned().collect();
                let own = if public { vec![] } else { value_columns::<F<E>>(b, nv, n) };
                for k in (ia.len()..z.len()).filter(|k| !own.contains(k)) {
                    for d in [F::<E>::ONE - z[k], F::<E>::zero(), F::<E>::ONE, z[k] + F::<E>::ONE] {
                        let mut y = z.clone();
                        y[k] = d;
                        if d != z[k] && sat(&m, &y) {
                            cheats += 1;
                        }
                    }
                }
            }
            o.insert("cheats".into(), json!(cheats));
        }
    }
    ev
}

pub fn r1cs(plan: &Value) -> Vec<Value> {
    let f = |it: &Value| match plan["engine"].as_str().unwrap() {
        "q13" => item::<q13::Toy13>(plan, it),
        "q257" => item::<q257::Toy257>(plan, it),
        "q40961" => item::<q40961::Toy40961>(plan, it),
        _ => item::<Bls12_381>(plan, it),
    };
    plan["items"].as_array().unwrap().iter().map(f).collect()
}
