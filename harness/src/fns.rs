//! Functions outside protocol sessions: chunking, chunked commitments, generators, window tables.
//! One event per call; every event carries the id of its plan.
use crate::engines::*;
use crate::session::*;
use crate::wire;
use ark_ec::{pairing::Pairing, AffineRepr, CurveGroup, Group};
use ark_ff::{BigInteger, Field, PrimeField, Zero};
use ark_serialize::CanonicalSerialize;
use ark_std::rand::{rngs::StdRng, RngCore, SeedableRng};
use ark_std::UniformRand;
use digest::Digest;
use dist_saver::{
    commitment::ChunkedCommitment,
    setup::{ChunkedCommitmentGens, EncryptionGens},
    utils,
};
use serde_json::{json, Map, Value};

type Fr = <Bls12_381 as Pairing>::ScalarField;
type Fq = <Bls12_381 as Pairing>::BaseField;
type G1 = <Bls12_381 as Pairing>::G1Affine;
type G2 = <Bls12_381 as Pairing>::G2Affine;

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn done<T>(o: Out<T>, ev: &mut Map<String, Value>) -> Option<T> {
    let (t, w) = o.tag();
    ev.insert("res".into(), json!(t));
    if t != "ok" {
        ev.insert("why".into(), json!(w));
    }
    match o {
        Out::Ok(v) => Some(v),
        _ => None,
    }
}
fn base(p: &Value, ev: &str) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert("ev".into(), json!(ev));
    m.insert("pid".into(), p["id"].clone());
    m
}
fn hex<T: CanonicalSerialize>(t: &T) -> String {
    ser(t).iter().map(|b| format!("{:02x}", b)).collect()
}

// ------------------------------------------------------------------------------------------------------------
fn chunk_item<F: PrimeField>(p: &Value, it: &Value) -> Value {
    let b = it["b"].as_u64().unwrap() as u8;
    let mut ev = base(p, "");
    ev.insert("b".into(), json!(b));
    ev.insert("field".into(), it["field"].clone());
    match s(it, "op") {
        "count" => {
            ev.insert("ev".into(), json!("Count"));
            let r = done(run0(|| utils::chunks_count::<F>(b)), &mut ev);
            ev.insert("n".into(), json!(r.unwrap_or(0)));
        }
        "dec" => {
            ev.insert("ev".into(), json!("Dec"));
            let x = bytes(&it["x"]);
            ev.insert("x".into(), json!(x));
            let f = F::from_be_bytes_mod_order(&x);
            let r = done(run(|| utils::decompose(&f, b)), &mut ev).unwrap_or_default();
            // composing what decomposition returned
            let mut back = Map::new();
            let y = done(run(|| utils::compose::<F>(&r, b)), &mut back);
            ev.insert("back".into(), json!(y == Some(f)));
            ev.insert("c".into(), json!(r));
            ev.insert("n".into(), json!(if b == 0 { 0 } else { utils::chunks_count::<F>(b) }));
        }
        "comp" => {
            ev.insert("ev".into(), json!("Comp"));
            let c: Vec<u16> = it["c"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
            ev.insert("c".into(), json!(c));
            let r = done(run(|| utils::compose::<F>(&c, b)), &mut ev);
            ev.insert("x".into(), json!(r.map(|f| f.into_bigint().to_bytes_be()).unwrap_or_default()));
        }
        o => panic!("plan: chunk item {}", o),
    }
    Value::Object(ev)
}

pub fn chunks(p: &Value) -> Vec<Value> {
    p["items"]
        .as_array()
        .unwrap()
        .iter()
        .map(|it| if it["field"] == "fq" { chunk_item::<Fq>(p, it) } else { chunk_item::<Fr>(p, it) })
        .collect()
}

// ------------------------------------------------------------------------------------------------------------
/// exponent of a toy element, -1 if unreadable
fn comm_g<E: Eng, G: AffineRepr<ScalarField = E::ScalarField>>(p: &Value, dl: impl Fn(&G) -> Value) -> Vec<Value> {
    let mut out = vec![];
    let mut rng = StdRng::seed_from_u64(p["seed"].as_u64().unwrap());
    let gens = match p["gens"].as_str().unwrap_or("rng") {
        "label" => ChunkedCommitmentGens::<G>::new::<blake2::Blake2b512>(&p["seed"].as_u64().unwrap().to_le_bytes()),
        "same" => {
            let g = G::Group::rand(&mut rng).into_affine();
            ChunkedCommitmentGens { G: g, H: g }
        }
        _ => ChunkedCommitmentGens::<G>::new_using_rng(&mut rng),
    };
    for it in p["items"].as_array().unwrap() {
        let b = it["b"].as_u64().unwrap() as u8;
        let mut ev = base(p, "");
        ev.insert("b".into(), json!(b));
        ev.insert("engine".into(), p["engine"].clone());
        let radix = G::ScalarField::from(2u64).pow([b as u64]);
        // residuals of a commitment key: radix steps, the last multiple of G, H
        let resid = |ck: &[G]| -> Value {
            let n = ck.len();
            let mut v = vec![];
            for i in 0..n.saturating_sub(2) {
                v.push(dl(&(ck[i].into_group() - ck[i + 1].into_group() * radix).into_affine()));
            }
            if n >= 2 {
                v.push(dl(&(ck[n - 2].into_group() - gens.G.into_group()).into_affine()));
                v.push(dl(&(ck[n - 1].into_group() - gens.H.into_group()).into_affine()));
            }
            Value::Array(v)
        };
        match s(it, "op") {
            "ck" => {
                ev.insert("ev".into(), json!("CommKey"));
                let r = done(run0(|| ChunkedCommitment::commitment_key(&gens, b)), &mut ev).unwrap_or_default();
                ev.insert("len".into(), json!(r.len()));
                ev.insert("resid".into(), resid(&r));
                ev.insert("G".into(), dl(&gens.G));
                ev.insert("H".into(), dl(&gens.H));
                ev.insert("ck".into(), Value::Array(r.iter().map(|x| dl(x)).collect()));
            }
            "commit" => {
                ev.insert("ev".into(), json!("Commit"));
                let m = G::ScalarField::from_be_bytes_mod_order(&bytes(&it["msg"]));
                let bl = G::ScalarField::from_be_bytes_mod_order(&bytes(&it["bl"]));
                ev.insert("msg".into(), it["msg"].clone());
                ev.insert("bl".into(), it["bl"].clone());
                let want = gens.G.into_group() * m + gens.H.into_group() * bl;
                let r = done(run(|| ChunkedCommitment::new(&m, &bl, b, &gens)), &mut ev);
                let ck = run0(|| ChunkedCommitment::commitment_key(&gens, b));
                let ck = match ck {
                    Out::Ok(v) => v,
                    _ => vec![],
                };
                match &r {
                    Some(c) => {
                        ev.insert("diff".into(), dl(&(c.0.into_group() - want).into_affine()));
                        ev.insert("same".into(), json!(c.1 == ck));
                    }
                    None => {
                        ev.insert("diff".into(), json!(-1));
                        ev.insert("same".into(), json!(false));
                    }
                }
                // with the key given, and with keys that do not fit
                let mut g = Map::new();
                let v = done(run(|| ChunkedCommitment::get_commitment_given_commitment_key(&m, &bl, b, &ck)), &mut g);
                g.insert("diff".into(), v.map(|v| dl(&(v.into_group() - want).into_affine())).unwrap_or(json!(-1)));
                ev.insert("given".into(), Value::Object(g));
                let mut bad = vec![];
                if !ck.is_empty() {
                    let l = ck.len();
                    let mut ks = vec![ck[..l - 1].to_vec(), ck[1..].to_vec(), vec![], [&ck[..], &ck[l - 1..]].concat(), [&ck[..1], &ck[..]].concat(), ck[..1].to_vec()];
                    ks.push([&ck[..], &ck[..]].concat());
                    for k in ks {
                        let mut g = Map::new();
                        done(run(|| ChunkedCommitment::get_commitment_given_commitment_key(&m, &bl, b, &k)), &mut g);
                        g.insert("len".into(), json!(k.len()));
                        bad.push(Value::Object(g));
                    }
                }
                ev.insert("misfit".into(), Value::Array(bad));
            }
            o => panic!("plan: comm item {}", o),
        }
        out.push(Value::Object(ev));
    }
    out
}

pub fn comm(p: &Value) -> Vec<Value> {
    fn toy<E: Eng>(p: &Value) -> Vec<Value> {
        comm_g::<E, E::G1Affine>(p, |x| json!(E::dlog1(x).unwrap_or(-1)))
    }
    match s(p, "engine") {
        "q13" => toy::<q13::Toy13>(p),
        "q257" => toy::<q257::Toy257>(p),
        "q40961" => toy::<q40961::Toy40961>(p),
        // only whether an element is the identity is read
        "bls" => {
            if p["group"] == "g2" {
                comm_g::<Bls12_381, G2>(p, |x| json!(if x.is_zero() { 0 } else { 1 }))
            } else {
                comm_g::<Bls12_381, G1>(p, |x| json!(if x.is_zero() { 0 } else { 1 }))
            }
        }
        e => panic!("plan: engine {}", e),
    }
}

// ------------------------------------------------------------------------------------------------------------
/// Generators from labels.
fn gens_d<D: Digest>(p: &Value, dig: &str, out: &mut Vec<Value>) {
    for (k, lab) in p["labels"].as_array().unwrap().iter().enumerate() {
        let l = bytes(lab);
        for kind in ["enc", "comm1", "comm2", "field"] {
            let mut ev = base(p, "Gens");
            ev.insert("label".into(), lab.clone());
            ev.insert("digest".into(), json!(dig));
            ev.insert("kind".into(), json!(kind));
            macro_rules! pt {
                ($x:expr) => {
                    $x.is_on_curve() && $x.is_in_correct_subgroup_assuming_on_curve() && !$x.is_zero()
                };
            }
            let r = match kind {
                "enc" => done(run0(|| EncryptionGens::<Bls12_381>::new::<D>(&l)), &mut ev)
                    .map(|g| (hex(&g.G), hex(&g.H), pt!(g.G) && pt!(g.H))),
                "comm1" => done(run0(|| ChunkedCommitmentGens::<G1>::new::<D>(&l)), &mut ev)
                    .map(|g| (hex(&g.G), hex(&g.H), pt!(g.G) && pt!(g.H))),
                "comm2" => done(run0(|| ChunkedCommitmentGens::<G2>::new::<D>(&l)), &mut ev)
                    .map(|g| (hex(&g.G), hex(&g.H), pt!(g.G) && pt!(g.H))),
                _ => done(run0(|| utils::field_elem_from_try_and_incr::<Fr, D>(&l)), &mut ev)
                    .map(|f| (hex(&f), "-".to_string(), !f.is_zero())),
            };
            let (g, h, ok) = r.unwrap_or_default();
            ev.insert("G".into(), json!(g));
            ev.insert("H".into(), json!(h));
            ev.insert("ok".into(), json!(ok));
            ev.insert("i".into(), json!(k));
            out.push(Value::Object(ev));
        }
    }
}
pub fn gens(p: &Value) -> Vec<Value> {
    let mut out = vec![];
    for d in p["digests"].as_array().unwrap() {
        match d.as_str().unwrap() {
            "blake2b" => gens_d::<blake2::Blake2b512>(p, "blake2b", &mut out),
            "blake2s" => gens_d::<blake2::Blake2s256>(p, "blake2s", &mut out),
            o => panic!("plan: digest {}", o),
        }
    }
    // freshly drawn generators
    for k in 0..p["fresh"].as_u64().unwrap_or(0) {
        let mut rng = StdRng::seed_from_u64(p["seed"].as_u64().unwrap() + k);
        macro_rules! go {
            ($kind:expr, $t:ty) => {{
                let mut ev = base(p, "GensRng");
                ev.insert("kind".into(), json!($kind));
                let mut r2 = rng.clone();
                let x = run0(|| <$t>::new_using_rng(&mut rng));
                let moved = {
                    let mut a = rng.clone();
                    let mut b = r2.clone();
                    a.next_u64() != b.next_u64()
                };
                let y = run0(|| <$t>::new_using_rng(&mut r2));
                if let (Some(x), Out::Ok(y)) = (done(x, &mut ev), y) {
                    ev.insert("G".into(), json!(hex(&x.G)));
                    ev.insert("H".into(), json!(hex(&x.H)));
                    ev.insert("same".into(), json!(x == y));
                    ev.insert("moved".into(), json!(moved));
                    ev.insert(
                        "ok".into(),
                        json!(x.G.is_on_curve()
                            && x.G.is_in_correct_subgroup_assuming_on_curve()
                            && !x.G.is_zero()
                            && x.H.is_on_curve()
                            && x.H.is_in_correct_subgroup_assuming_on_curve()
                            && !x.H.is_zero()),
                    );
                } else {
                    for k in ["G", "H"] {
                        ev.insert(k.into(), json!(""));
                    }
                    for k in ["same", "moved", "ok"] {
                        ev.insert(k.into(), json!(false));
                    }
                }
                out.push(Value::Object(ev));
            }};
        }
        for _ in 0..2 {
            go!("enc", EncryptionGens<Bls12_381>);
            go!("comm1", ChunkedCommitmentGens<G1>);
            go!("comm2", ChunkedCommitmentGens<G2>);
        }
    }
    out
}

// ------------------------------------------------------------------------------------------------------------
/// Window tables: multiples of one element, in toy engines (exponents readable), and their export/import;
/// also commitments and generators as exchanged artefacts.
fn window_g<E: Eng>(p: &Value) -> Vec<Value> {
    let mut out = vec![];
    let mut rng = StdRng::seed_from_u64(p["seed"].as_u64().unwrap());
    let dl = |x: &E::G1| json!(E::dlog1(&x.into_affine()).unwrap_or(-1));
    for it in p["items"].as_array().unwrap() {
        let base_e = it["g"].as_i64().unwrap();
        let g = E::G1Affine::generator().into_group() * int_to_scalar::<E::ScalarField>(base_e);
        let es: Vec<i64> = it["es"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
        let fs: Vec<E::ScalarField> = es.iter().map(|x| int_to_scalar(*x)).collect();
        let num = it["num"].as_u64().unwrap() as usize;
        let mut ev = base(p, "Window");
        ev.insert("engine".into(), p["engine"].clone());
        ev.insert("g".into(), dl(&g));
        ev.insert("es".into(), json!(es));
        let t = done(run0(|| utils::WindowTable::<E::G1>::new(num, g)), &mut ev);
        let arr = |v: Option<Vec<E::G1>>| Value::Array(v.unwrap_or_default().iter().map(|x| dl(x)).collect());
        if let Some(t) = t {
            let ok = |o: Out<Vec<E::G1>>| match o {
                Out::Ok(v) => Some(v),
                _ => None,
            };
            ev.insert("one".into(), arr(ok(run0(|| fs.iter().map(|f| t.multiply(f)).collect()))));
            ev.insert("many".into(), arr(ok(run0(|| t.multiply_many(&fs)))));
            ev.insert("func".into(), arr(ok(run0(|| utils::multiply_field_elems_with_same_group_elem(g, &fs)))));
            let mut wires = vec![];
            for enc in ["c", "u", "json", "bin"] {
                let mut w = Map::new();
                if let Some(u) = wire::roundtrip(&t, enc, &mut w) {
                    w.insert("many".into(), arr(ok(run0(|| u.multiply_many(&fs)))));
                } else {
                    w.insert("many".into(), json!([]));
                }
                w.insert("dam".into(), Value::Array(wire::damaged::<E, _>(&t, enc, (vec![], vec![], vec![]), 0)));
                wires.push(Value::Object(w));
            }
            ev.insert("wires".into(), Value::Array(wires));
        }
        let _ = rng.next_u32();
        out.push(Value::Object(ev));
    }
    out
}

pub fn window(p: &Value) -> Vec<Value> {
    match s(p, "engine") {
        "q13" => window_g::<q13::Toy13>(p),
        "q257" => window_g::<q257::Toy257>(p),
        "q40961" => window_g::<q40961::Toy40961>(p),
        "bls" => window_g::<Bls12_381>(p),
        e => panic!("plan: engine {}", e),
    }
}

/// Exchange of the artefacts around commitments (production curve).
pub fn cwire(p: &Value) -> Vec<Value> {
    let mut out = vec![];
    let mut rng = StdRng::seed_from_u64(p["seed"].as_u64().unwrap());
    let gens = ChunkedCommitmentGens::<G1>::new_using_rng(&mut rng);
    let gens2 = ChunkedCommitmentGens::<G2>::new_using_rng(&mut rng);
    let b = p["b"].as_u64().unwrap() as u8;
    let m = Fr::rand(&mut rng);
    let bl = Fr::rand(&mut rng);
    let c = ChunkedCommitment::new(&m, &bl, b, &gens);
    let zero = ChunkedCommitment::new(&Fr::zero(), &Fr::zero(), b, &gens);
    for enc in ["c", "u", "json", "bin"] {
        macro_rules! go {
            ($x:expr, $s1:expr, $s2:expr) => {{
                let mut ev = base(p, "Wire");
                let x = $x;
                wire::roundtrip(&x, enc, &mut ev);
                ev.insert("enc".into(), json!(enc));
                ev.insert("dam".into(), Value::Array(wire::damaged::<Bls12_381, _>(&x, enc, ($s1, $s2, vec![]), 3)));
                out.push(Value::Object(ev));
            }};
        }
        go!(gens.clone(), vec![gens.G, gens.H], vec![]);
        go!(gens2.clone(), vec![], vec![gens2.G, gens2.H]);
        for c in [&c, &zero].iter() {
            match c {
                Ok(c) => {
                    let mut v = vec![c.0];
                    v.extend(&c.1);
                    go!((*c).clone(), v, vec![])
                }
                Err(_) => out.push(json!({"ev": "Stuck", "pid": p["id"], "why": "commitment"})),
            }
        }
    }
    out
}
