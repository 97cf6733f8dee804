//! Calls with arguments of arbitrary lengths.
use crate::engines::*;
use crate::session::*;
use ark_ec::{pairing::Pairing, AffineRepr, CurveGroup};
use ark_ff::{Field, UniformRand, Zero};
use ark_std::rand::{rngs::StdRng, SeedableRng};
use dist_saver::{
    encryption::{Ciphertext, Encryption},
    keygen::*,
    saver_groth16,
    setup::EncryptionGens,
    utils::chunks_count,
};
use serde_json::{json, Map, Value};

fn u(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap() as usize
}
fn us(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()
}

struct Sh<E: Pairing> {
    rng: StdRng,
    gens: EncryptionGens<E>,
    d: E::G1Affine,
    c: E::G1Affine,
    /// pools of non-zero elements, long enough for every request
    p1: Vec<E::G1Affine>,
    p2: Vec<E::G2Affine>,
    f: Vec<E::ScalarField>,
}
impl<E: Pairing> Sh<E> {
    fn new(seed: u64, pool: usize) -> Self {
        let mut rng = StdRng::seed_from_u64(seed);
        let mut sc = || loop {
            let x = E::ScalarField::rand(&mut rng);
            if !x.is_zero() {
                return x;
            }
        };
        let f: Vec<E::ScalarField> = (0..pool).map(|_| sc()).collect();
        let p1: Vec<E::G1Affine> = (0..pool).map(|_| (E::G1Affine::generator() * sc()).into_affine()).collect();
        let p2: Vec<E::G2Affine> = (0..pool).map(|_| (E::G2Affine::generator() * sc()).into_affine()).collect();
        let gens = EncryptionGens { G: p1[0], H: p2[0] };
        Sh { gens, d: p1[1 % pool], c: p1[2 % pool], p1, p2, f, rng }
    }
    fn g1(&self, n: usize) -> Vec<E::G1Affine> {
        (0..n).map(|i| self.p1[i % self.p1.len()]).collect()
    }
    fn g1b(&self, n: usize) -> Vec<E::G1Affine> {
        (0..n).map(|i| self.p1[(i + 3) % self.p1.len()]).collect()
    }
    fn g2(&self, n: usize) -> Vec<E::G2Affine> {
        (0..n).map(|i| self.p2[i % self.p2.len()]).collect()
    }
    fn sc(&self, n: usize) -> Vec<E::ScalarField> {
        (0..n).map(|i| self.f[i % self.f.len()]).collect()
    }
    fn ek(&self, x: usize, y: usize, z: usize) -> EncryptionKey<E> {
        EncryptionKey { X_0: self.d, X: self.g1(x), Y: self.g1b(y), Z: self.g2(z), P_1: self.p1[0], P_2: self.p1[1 % self.p1.len()] }
    }
    fn pek(&self, v: &[usize]) -> FEncryptionKeyPartial<E> {
        FEncryptionKeyPartial { X_0: self.d, X: self.g1(v[0]), Y: self.g1b(v[1]), Z: self.g2(v[2]), P_2: self.p1[0] }
    }
    fn dk(&self, v1: usize, v2: usize) -> DecryptionKey<E> {
        DecryptionKey { V_0: self.p2[0], V_1: self.g2(v1), V_2: self.g2(v2) }
    }
    /// chunks 1, 2, 3, 1, ... of generators g
    fn chunks(&self, n: usize) -> Vec<E::G1Affine> {
        self.g1b(n).iter().enumerate().map(|(i, g)| (*g * E::ScalarField::from((i % 3 + 1) as u64)).into_affine()).collect()
    }
    fn ct(&self, n: usize) -> Ciphertext<E> {
        Ciphertext { X_r: self.p1[0], enc_chunks: self.g1(n), commitment: self.d }
    }

    fn item(&mut self, it: &Value, b: u8, pvk: &Option<saver_groth16::PreparedVerifyingKey<E>>) -> Map<String, Value> {
        let mut ev = Map::new();
        let n = chunks_count::<E::ScalarField>(b) as usize;
        // alternate between the plain and the prepared form of keys
        let prep = it.to_string().len() % 2 == 1;
        let mut put = |o: Out<Vec<usize>>| {
            ev.insert("res".into(), json!(o.tag().0));
            if let Out::Ok(v) = o {
                ev.insert("out".into(), json!(v));
            } else {
                ev.insert("out".into(), json!([]));
            }
        };
        match s(it, "op") {
            "ekcount" => {
                let ek = self.ek(u(it, "x"), u(it, "y"), u(it, "z"));
                let a = run(|| ek.supported_chunks_count());
                let pk = PreparedEncryptionKey::from(ek.clone());
                let c = run(|| pk.supported_chunks_count());
                let v = (run(|| ek.validate()).tag().0, run(|| pk.validate()).tag().0);
                // the four must agree
                if a.tag().0 != c.tag().0 || v.0 != a.tag().0 || v.1 != a.tag().0 {
                    put(Out::Panic("disagree".into()));
                    ev.insert("res".into(), json!("differ"));
                } else {
                    put(match a {
                        Out::Ok(x) => Out::Ok(vec![x as usize]),
                        Out::Err(e) => Out::Err(e),
                        Out::Panic(e) => Out::Panic(e),
                    });
                }
            }
            "dkcount" => {
                let dk = self.dk(u(it, "v1"), u(it, "v2"));
                let a = run(|| dk.supported_chunks_count());
                let pk = PreparedDecryptionKey::from(dk.clone());
                let c = run(|| pk.supported_chunks_count());
                let v = (run(|| dk.validate()).tag().0, run(|| pk.validate()).tag().0);
                if a.tag().0 != c.tag().0 || v.0 != a.tag().0 || v.1 != a.tag().0 {
                    put(Out::Panic("disagree".into()));
                    ev.insert("res".into(), json!("differ"));
                } else {
                    put(match a {
                        Out::Ok(x) => Out::Ok(vec![x as usize]),
                        Out::Err(e) => Out::Err(e),
                        Out::Panic(e) => Out::Panic(e),
                    });
                }
            }
            "keygen" => {
                let g = self.g1b(u(it, "g"));
                let (gens, d, c) = (self.gens.clone(), self.d, self.c);
                let mut r2 = self.rng.clone();
                let rng = &mut self.rng;
                let mut same = true;
                let exact: Vec<_> = g.iter().take(n).cloned().collect();
                put(run(|| {
                    let (sk, ek, dk) = keygen(rng, b, &gens, &g, &d, &c)?;
                    let (sk2, ek2, dk2) = keygen(&mut r2, b, &gens, &exact, &d, &c)?;
                    same = sk.0 == sk2.0 && ek == ek2 && dk == dk2;
                    Ok(vec![ek.X.len(), ek.Y.len(), ek.Z.len(), dk.V_1.len(), dk.V_2.len()])
                }));
                ev.insert("same".into(), json!(same));
            }
            "partial" => {
                let g = self.g1b(u(it, "g"));
                let (gens, d, c) = (self.gens.clone(), self.d, self.c);
                let mut r2 = self.rng.clone();
                let rng = &mut self.rng;
                let mut same = true;
                let exact: Vec<_> = g.iter().take(n).cloned().collect();
                put(run(|| {
                    let (sk, ek) = FkeygenPartial(rng, b, &gens, &g, &d, &c)?;
                    let (sk2, ek2) = FkeygenPartial(&mut r2, b, &gens, &exact, &d, &c)?;
                    same = sk.s == sk2.s && sk.t == sk2.t && ek == ek2;
                    Ok(vec![ek.X.len(), ek.Y.len(), ek.Z.len(), sk.s.len(), sk.t.len()])
                }));
                ev.insert("same".into(), json!(same));
            }
            "pow" => {
                let dk = self.dk(u(it, "v1"), u(it, "v2"));
                let g = self.g1b(u(it, "g"));
                let o = if prep {
                    let p = PreparedDecryptionKey::from(dk);
                    run(|| Ok(p.pairing_powers(4, &g)?.iter().map(|r| r.len()).collect()))
                } else {
                    run(|| Ok(dk.pairing_powers(4, &g)?.iter().map(|r| r.len()).collect()))
                };
                put(o);
            }
            "combine" => {
                let ks: Vec<_> = it["ks"].as_array().unwrap().iter().map(|k| self.pek(&us(k))).collect();
                let c = self.c;
                put(run0(|| {
                    let k = combineEKs(&c, &ks);
                    vec![k.X.len(), k.Y.len(), k.Z.len()]
                }));
            }
            "p1" => {
                let x = u(it, "x");
                let k = self.pek(&[x, x, x + 1]);
                let t = self.sc(u(it, "t"));
                let sk = SecretKeyST { s: self.sc(x), t };
                put(run0(|| {
                    genP1share(&k, &sk);
                    vec![]
                }));
            }
            "p1c" => {
                let ps: Vec<P1share<E>> = (0..u(it, "k")).map(|i| P1share { P_1: self.p1[i % self.p1.len()] }).collect();
                put(run0(|| {
                    combineP1share(&ps);
                    vec![]
                }));
            }
            "enc" => {
                let ek = self.ek(u(it, "x"), u(it, "y"), u(it, "z"));
                let g = self.g1b(u(it, "g"));
                let m: Vec<u16> = (0..u(it, "m")).map(|i| (i % 3) as u16).collect();
                let exact: Vec<_> = g.iter().take(m.len()).cloned().collect();
                let mut r2 = self.rng.clone();
                let rng = &mut self.rng;
                let mut same = true;
                put(run(|| {
                    let (v, r) = Encryption::encrypt_decomposed_message(rng, m.clone(), &ek, &g)?;
                    let (v2, r3) = Encryption::encrypt_decomposed_message(&mut r2, m.clone(), &ek, &exact)?;
                    same = v == v2 && r == r3;
                    Ok(vec![v.len()])
                }));
                ev.insert("same".into(), json!(same));
            }
            "dec" => {
                let dk = self.dk(u(it, "v1"), u(it, "v2"));
                let g = self.g1b(u(it, "g"));
                let c = self.chunks(u(it, "c"));
                let pw = u(it, "pw");
                let c0 = E::G1Affine::zero();
                let sk = SecretKey(self.f[0]);
                let tab = if pw > 0 { self.dk(pw, pw).pairing_powers(4, &self.g1b(pw)).ok() } else { Some(vec![]) };
                let want: Vec<u16> = (0..c.len()).map(|i| (i % 3 + 1) as u16).collect();
                let mut same = true;
                put(run(|| {
                    let t = tab.as_deref();
                    let (m, _) = if prep {
                        Encryption::decrypt_to_chunks_given_pairing_powers(&c0, &c, &sk, PreparedDecryptionKey::from(dk), &g, 4, t)?
                    } else {
                        Encryption::decrypt_to_chunks_given_pairing_powers(&c0, &c, &sk, dk, &g, 4, t)?
                    };
                    same = m == want;
                    Ok(vec![m.len()])
                }));
                ev.insert("same".into(), json!(same));
            }
            "decd" => {
                let g = self.g1b(u(it, "g"));
                let c = self.chunks(u(it, "c"));
                let want: Vec<u16> = (0..c.len()).map(|i| (i % 3 + 1) as u16).collect();
                let sk = SecretKey(self.f[0]);
                let mut same = true;
                put(run(|| {
                    let m = Encryption::<E>::decrypt_to_chunks_after_re_encryption(&E::G1Affine::zero(), &c, &sk, &g, 4)?;
                    same = m == want;
                    Ok(vec![m.len()])
                }));
                ev.insert("same".into(), json!(same));
            }
            "verc" => {
                let ek = self.ek(u(it, "x"), u(it, "y"), u(it, "z"));
                let c = self.ct(u(it, "c"));
                let gens = self.gens.clone();
                put(run(|| {
                    if prep {
                        c.verify_commitment(PreparedEncryptionKey::from(ek), gens)?;
                    } else {
                        Encryption::verify_ciphertext_commitment(&c.X_r, &c.enc_chunks, &c.commitment, ek, gens)?;
                    }
                    Ok(vec![])
                }));
            }
            "batch" => {
                let ek = self.ek(u(it, "x"), u(it, "y"), u(it, "z"));
                let cs: Vec<_> = us(&it["cs"]).into_iter().map(|k| self.ct(k)).collect();
                let coef = self.sc(u(it, "coef"));
                let gens = self.gens.clone();
                put(run(|| {
                    if prep {
                        Encryption::verify_commitments_in_batch(&cs, &coef, PreparedEncryptionKey::from(ek), gens)?;
                    } else {
                        Encryption::verify_commitments_in_batch(&cs, &coef, ek, gens)?;
                    }
                    Ok(vec![])
                }));
            }
            "calcd" => {
                let c = self.ct(u(it, "c"));
                match pvk {
                    Some(p) => {
                        let mut p = p.clone();
                        p.vk.gamma_abc_g1 = self.g1(u(it, "vk"));
                        put(run(|| saver_groth16::calculate_d(&p, &c).map(|_| vec![])));
                    }
                    None => {
                        ev.insert("res".into(), json!("skip"));
                        ev.insert("out".into(), json!([]));
                    }
                }
            }
            "share" => {
                let c = self.g1(u(it, "c"));
                let sk = SecretKeyST { s: self.sc(u(it, "s")), t: self.sc(u(it, "s") + 1) };
                let (gens, pk) = (self.gens.clone(), FEncryptionKeyDest { pk: self.p1[0] });
                let c0 = self.p1[1 % self.p1.len()];
                let rng = &mut self.rng;
                put(run(|| Encryption::re_encrypt_share(rng, &gens, &c0, &c, &pk, &sk).map(|(w, _)| vec![w.len()])));
            }
            "cshare" => {
                let (a, b) = (self.g1(u(it, "a")), self.g1b(u(it, "b")));
                let x = self.p1[0];
                put(run(|| Encryption::<E>::combine_re_encrypt_share(&x, &x, &a, &b).map(|(w, _)| vec![w.len()])));
            }
            "apply" => {
                let (c, w) = (self.g1(u(it, "c")), self.g1b(u(it, "w")));
                let (gens, x) = (self.gens.clone(), self.p1[0]);
                put(run(|| Encryption::combine_ct_with_w(&gens, &c, &x, &w).map(|v| vec![v.len()])));
            }
            "add" => {
                let (a, b) = (self.g1(u(it, "a")), self.g1b(u(it, "b")));
                put(run(|| Encryption::<E>::add_cts(&a, &b).map(|v| vec![v.len()])));
            }
            o => panic!("plan: shape op {}", o),
        }
        ev.entry("same").or_insert(json!(true));
        ev.insert("n".into(), json!(n));
        ev.insert("it".into(), it.clone());
        ev
    }
}

fn go<E: Eng>(p: &Value) -> Vec<Value> {
    let b = p["b"].as_u64().unwrap() as u8;
    let mut sh = Sh::<E>::new(p["seed"].as_u64().unwrap(), 24);
    let g = sh.gens.clone();
    // some verification key to borrow
    let mut pvk = None;
    for _ in 0..40 {
        let c = dist_saver::circuit::BitsizeCheckCircuit::new(8, Some(1), None, true);
        if let Out::Ok(k) = run(|| saver_groth16::generate_srs::<E, _, _>(c, &g, &mut sh.rng)) {
            pvk = Some(saver_groth16::prepare_verifying_key::<E>(&k.pk.vk));
            break;
        }
    }
    p["items"]
        .as_array()
        .unwrap()
        .iter()
        .map(|it| {
            let mut ev = sh.item(it, b, &pvk);
            ev.insert("ev".into(), json!("Shape"));
            ev.insert("pid".into(), p["id"].clone());
            Value::Object(ev)
        })
        .collect()
}

pub fn shape(p: &Value) -> Vec<Value> {
    match s(p, "engine") {
        "q13" => go::<q13::Toy13>(p),
        "q257" => go::<q257::Toy257>(p),
        "q40961" => go::<q40961::Toy40961>(p),
        "bls" => go::<Bls12_381>(p),
        e => panic!("plan: engine {}", e),
    }
}
