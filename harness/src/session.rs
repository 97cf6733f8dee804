//! Interpreter of protocol sessions: runs the steps of a plan on the real library with engine `E`
//! and records one event per step, with the abstract value (exponents) of everything that was produced.
use crate::engines::Eng;
use ark_ec::{pairing::PairingOutput, AffineRepr, CurveGroup};
use ark_ff::{Field, PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_std::rand::{rngs::StdRng, CryptoRng, RngCore, SeedableRng};
use dist_saver::{
    circuit::BitsizeCheckCircuit,
    encryption::{Ciphertext, Encryption},
    error::SaverError,
    keygen::*,
    saver_groth16::{self, PreparedVerifyingKey, Proof, ProvingKey},
    setup::{setup_for_groth16, EncryptionGens, PreparedEncryptionGens},
    utils::chunks_count,
};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What an operation did: a value, an error value, or a panic.
pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Out<T> {
    pub fn tag(&self) -> (&'static str, String) {
        match self {
            Out::Ok(_) => ("ok", String::new()),
            Out::Err(e) => ("err", e.clone()),
            Out::Panic(e) => ("panic", e.clone()),
        }
    }
}
pub fn run<T>(f: impl FnOnce() -> Result<T, SaverError>) -> Out<T> {
    crate::watch::begin();
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::watch::end();
    match r {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(format!("{:?}", e).chars().take(120).collect()),
        Err(p) => {
            let s = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Out::Panic(s.chars().take(120).collect())
        }
    }
}
pub fn run0<T>(f: impl FnOnce() -> T) -> Out<T> {
    run(|| Ok(f()))
}

/// Random generator handed to the code under test. In small mode (production curve only) every field
/// element drawn with the library's usual sampling is small, so that exponents stay readable; any other
/// use of the generator still receives valid, advancing randomness.
#[derive(Clone)]
pub struct HRng {
    inner: StdRng,
    small: Option<u64>,
    buf: Vec<u64>,
}
impl HRng {
    pub fn new(seed: u64, small: Option<u64>) -> Self {
        HRng { inner: StdRng::seed_from_u64(seed), small, buf: vec![] }
    }
}
impl RngCore for HRng {
    fn next_u32(&mut self) -> u32 {
        if self.small.is_none() {
            return self.inner.next_u32();
        }
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        match self.small {
            None => self.inner.next_u64(),
            Some(k) => {
                if self.buf.is_empty() {
                    let v = 1 + self.inner.next_u64() % k;
                    let f = ark_bls12_381::Fr::from(v);
                    self.buf = f.0 .0.iter().rev().cloned().collect();
                }
                self.buf.pop().unwrap()
            }
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        if self.small.is_none() {
            return self.inner.fill_bytes(dest);
        }
        for c in dest.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for HRng {}

pub struct Auth<E: Eng> {
    pub sk: SecretKey<E::ScalarField>,
    pub dk: DecryptionKey<E>,
}
#[derive(Clone)]
pub struct Ct<E: Eng> {
    pub c: Ciphertext<E>,
    pub m: Vec<u16>,
    pub r: E::ScalarField,
}
impl<E: Eng> Ct<E> {
    pub fn vec(&self) -> Vec<E::G1Affine> {
        let mut v = vec![self.c.X_r];
        v.extend_from_slice(&self.c.enc_chunks);
        v.push(self.c.commitment);
        v
    }
    fn of(v: &[E::G1Affine], m: Vec<u16>, r: E::ScalarField) -> Self {
        let n = v.len();
        Ct { c: Ciphertext { X_r: v[0], enc_chunks: v[1..n - 1].to_vec(), commitment: v[n - 1] }, m, r }
    }
}

pub struct Sess<E: Eng> {
    pub n: usize,
    pub b: u8,
    pub exact: bool,
    pub rng: HRng,
    pub hr: StdRng,
    pub sh: StdRng,
    pub gens: EncryptionGens<E>,
    pub delta: E::G1Affine,
    pub gamma: E::G1Affine,
    pub g: Vec<E::G1Affine>,
    pub srs: Vec<ProvingKey<E>>,
    pub pvk: Vec<PreparedVerifyingKey<E>>,
    pub auth: HashMap<String, Auth<E>>,
    pub ek: HashMap<String, EncryptionKey<E>>,
    pub party: HashMap<String, (SecretKeyST<E>, FEncryptionKeyPartial<E>)>,
    pub cek: HashMap<String, FEncryptionKeyPartial<E>>,
    pub p1: HashMap<String, P1share<E>>,
    pub dest: HashMap<String, (SecretKey<E::ScalarField>, FEncryptionKeyDest<E>)>,
    pub ct: HashMap<String, Ct<E>>,
    pub share: HashMap<String, (Vec<E::G1Affine>, E::G1Affine)>,
    pub rct: HashMap<String, Vec<E::G1Affine>>,
    pub proof: HashMap<String, Proof<E>>,
    pub ids: HashMap<Vec<u8>, i64>,
    pub powers: HashMap<(String, u8), Vec<Vec<PairingOutput<E>>>>,
    pub lost: bool,
}

/// logged for an element whose exponent is outside the readable range (the specification's values are inside)
pub const UNREADABLE: i64 = -2000000000;

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("plan: field {} missing in {}", k, v))
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
pub fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.serialize_compressed(&mut v).unwrap();
    v
}
pub fn int_to_scalar<F: PrimeField>(i: i64) -> F {
    if i < 0 {
        -F::from((-i) as u64)
    } else {
        F::from(i as u64)
    }
}
pub fn neg<G: AffineRepr>(p: &G) -> G {
    (-p.into_group()).into_affine()
}
pub fn mulg<G: AffineRepr>(p: &G, s: &G::ScalarField) -> G {
    p.mul_bigint(s.into_bigint()).into_affine()
}

impl<E: Eng> Sess<E> {
    // ---- projection to abstract values -------------------------------------------------------
    /// opaque sessions: a random number standing for an unreadable secret in the specification's own model
    pub fn shadow(&mut self) -> Value {
        json!(1 + (self.sh.next_u64() % (1 << 30)))
    }
    pub fn shadows(&mut self, n: usize) -> Value {
        Value::Array((0..n).map(|_| self.shadow()).collect())
    }
    pub fn d1(&mut self, p: &E::G1Affine) -> Value {
        if !self.exact {
            return self.shadow();
        }
        json!(E::dlog1(p).unwrap_or(UNREADABLE))
    }
    pub fn d2(&mut self, p: &E::G2Affine) -> Value {
        if !self.exact {
            return self.shadow();
        }
        json!(E::dlog2(p).unwrap_or(UNREADABLE))
    }
    pub fn d1s(&mut self, p: &[E::G1Affine]) -> Value {
        Value::Array(p.iter().map(|x| self.d1(x)).collect())
    }
    pub fn d2s(&mut self, p: &[E::G2Affine]) -> Value {
        Value::Array(p.iter().map(|x| self.d2(x)).collect())
    }
    pub fn sc(&mut self, x: &E::ScalarField) -> Value {
        if !self.exact {
            return self.shadow();
        }
        match E::scalar_int(x) {
            Some(i) => json!(i),
            None => {
                self.lost = true;
                json!(0)
            }
        }
    }
    pub fn scs(&mut self, x: &[E::ScalarField]) -> Value {
        Value::Array(x.iter().map(|x| self.sc(x)).collect())
    }
    /// identity of a value within the session (0 is reserved for the zero / identity element)
    pub fn id<T: CanonicalSerialize + Zero>(&mut self, p: &T) -> Value {
        if p.is_zero() {
            return json!(0);
        }
        self.idb(ser(p))
    }
    pub fn idb(&mut self, b: Vec<u8>) -> Value {
        let n = self.ids.len() as i64 + 1;
        json!(*self.ids.entry(b).or_insert(n))
    }
    pub fn id1(&mut self, p: &E::G1Affine) -> Value {
        if p.is_zero() {
            return json!(0);
        }
        self.idb(ser(p))
    }
    pub fn id1s(&mut self, p: &[E::G1Affine]) -> Value {
        Value::Array(p.iter().map(|x| self.id1(x)).collect())
    }
    pub fn id2(&mut self, p: &E::G2Affine) -> Value {
        if p.is_zero() {
            return json!(0);
        }
        self.idb(ser(p))
    }

    fn ek_val(&mut self, k: &EncryptionKey<E>) -> Value {
        json!({"X0": self.d1(&k.X_0), "X": self.d1s(&k.X), "Y": self.d1s(&k.Y), "Z": self.d2s(&k.Z),
               "P1": self.d1(&k.P_1), "P2": self.d1(&k.P_2)})
    }
    fn pek_val(&mut self, k: &FEncryptionKeyPartial<E>) -> Value {
        json!({"X0": self.d1(&k.X_0), "X": self.d1s(&k.X), "Y": self.d1s(&k.Y), "Z": self.d2s(&k.Z),
               "P2": self.d1(&k.P_2)})
    }
    fn dk_val(&mut self, k: &DecryptionKey<E>) -> Value {
        json!({"V0": self.d2(&k.V_0), "V1": self.d2s(&k.V_1), "V2": self.d2s(&k.V_2)})
    }
    fn ct_val(&mut self, c: &Ciphertext<E>) -> Value {
        json!({"c0": self.d1(&c.X_r), "c": self.d1s(&c.enc_chunks), "psi": self.d1(&c.commitment)})
    }
    fn proof_val(&mut self, p: &Proof<E>) -> Value {
        json!({"a": self.d1(&p.a), "b": self.d2(&p.b), "c": self.d1(&p.c)})
    }
    fn srs_val(&mut self, k: &ProvingKey<E>) -> Value {
        let vk = k.pk.vk.clone();
        json!({"alpha": self.d1(&vk.alpha_g1), "beta": self.d2(&vk.beta_g2), "gamma": self.d2(&vk.gamma_g2),
               "delta": self.d2(&vk.delta_g2), "g0": self.d1(&vk.gamma_abc_g1[0]),
               "g": self.d1s(&vk.gamma_abc_g1[1..]), "D": self.d1(&k.pk.delta_g1), "C": self.d1(&k.gamma_g1)})
    }
    /// do the two G1/G2 pairs have equal pairings (observable relation, any engine)
    fn pair_eq(a: &E::G1Affine, b: &E::G2Affine, c: &E::G1Affine, d: &E::G2Affine) -> bool {
        E::pairing(*a, *b) == E::pairing(*c, *d)
    }

    // ---- session set-up ------------------------------------------------------------------------
    pub fn new(plan: &Value, exact: bool) -> (Self, Vec<Value>) {
        let seed = plan["seed"].as_u64().unwrap_or(0);
        let b = plan["b"].as_u64().unwrap_or(4) as u8;
        let small = if plan["mode"] == "small" && exact { Some(plan["k"].as_u64().unwrap_or(3)) } else { None };
        let mut hr = StdRng::seed_from_u64(seed ^ 0x5eed);
        let rng = HRng::new(seed, small);
        let n = chunks_count::<E::ScalarField>(b) as usize;
        let extra = plan["extra_g"].as_u64().unwrap_or(0) as usize;
        // generators and scalars chosen by the harness: non-zero, small in small mode
        let mut pick = |hi: i64| -> E::ScalarField {
            loop {
                let x = if small.is_some() {
                    int_to_scalar::<E::ScalarField>(1 + (hr.next_u64() % hi as u64) as i64)
                } else {
                    E::ScalarField::rand(&mut hr)
                };
                if !x.is_zero() {
                    return x;
                }
            }
        };
        let gs = pick(2);
        let hs = pick(3);
        let gens = EncryptionGens::<E> { G: mulg(&E::base1(), &gs), H: mulg(&E::base2(), &hs) };
        let delta = mulg(&gens.G, &pick(2));
        let gamma = mulg(&gens.G, &-pick(2));
        let g: Vec<_> = (0..n + extra).map(|_| mulg(&E::base1(), &pick(3))).collect();
        let mut me = Sess {
            n, b, exact, rng, hr, sh: StdRng::seed_from_u64(seed ^ 0x5bad0), gens, delta, gamma, g,
            srs: vec![], pvk: vec![], auth: HashMap::new(), ek: HashMap::new(), party: HashMap::new(),
            cek: HashMap::new(), p1: HashMap::new(), dest: HashMap::new(), ct: HashMap::new(),
            share: HashMap::new(), rct: HashMap::new(), proof: HashMap::new(), ids: HashMap::new(),
            powers: HashMap::new(), lost: false,
        };
        let mut evs = vec![];
        let q = E::Q;
        let head = json!({"ev": "Session", "id": plan["id"], "engine": E::NAME, "exact": exact, "q": q, "b": b,
                          "ids": plan["ids"].as_bool().unwrap_or(false)});
        let mut head = head.as_object().unwrap().clone();
        let mut pre: Option<(Map<String, Value>, String)> = None;
        let nsrs = plan["nsrs"].as_u64().unwrap_or(0) as usize;
        // over the small groups a zero trapdoor or an evaluation point inside the domain is not negligible: another try
        let tries = if E::Q > 0 { 40 } else { 1 };
        let good = |k: &ProvingKey<E>| {
            !k.gamma_g1.is_zero()
                && !k.pk.delta_g1.is_zero()
                && !k.pk.vk.alpha_g1.is_zero()
                && !k.pk.vk.beta_g2.is_zero()
                && !k.pk.vk.gamma_g2.is_zero()
                && !k.pk.vk.delta_g2.is_zero()
        };
        for i in 0..nsrs {
            let gens = me.gens.clone();
            for t in 1..=tries {
                if i == 0 && plan["setup"].as_bool().unwrap_or(false) {
                    // the whole set-up in one call; the authority is named A0
                    match run(|| setup_for_groth16::<E, _>(&mut me.rng, b, &gens)) {
                        Out::Ok((pk, sk, ek, dk)) => {
                            if t < tries && !good(&pk) {
                                continue;
                            }
                            me.srs.push(pk);
                            me.ek.insert("A0".into(), ek);
                            me.auth.insert("A0".into(), Auth { sk, dk });
                            let mut ev = Map::new();
                            ev.insert("ev".into(), json!("Auth"));
                            ev.insert("out".into(), json!("A0"));
                            pre = Some((ev, "A0".into()));
                        }
                        _ if t < tries => continue,
                        o => {
                            head.insert("setup".into(), json!(o.tag().0));
                            head.insert("why".into(), json!(o.tag().1));
                        }
                    }
                } else {
                    let circuit = BitsizeCheckCircuit::new(b, None, None, true);
                    match run(|| saver_groth16::generate_srs::<E, _, _>(circuit, &gens, &mut me.rng)) {
                        Out::Ok(pk) => {
                            if t < tries && !good(&pk) {
                                continue;
                            }
                            me.srs.push(pk)
                        }
                        _ if t < tries => continue,
                        o => {
                            head.insert("setup".into(), json!(o.tag().0));
                            head.insert("why".into(), json!(o.tag().1));
                        }
                    }
                }
                break;
            }
        }
        if nsrs > 0 && !me.srs.is_empty() {
            me.g = saver_groth16::get_gs_for_encryption(&me.srs[0].pk.vk).to_vec();
            me.delta = me.srs[0].pk.delta_g1;
            me.gamma = me.srs[0].gamma_g1;
            me.pvk = me.srs.iter().map(|k| saver_groth16::prepare_verifying_key::<E>(&k.pk.vk)).collect();
        }
        let g = me.g.clone();
        let (gg, hh, dd, cc) = (me.gens.G, me.gens.H, me.delta, me.gamma);
        head.insert("n".into(), json!(n));
        head.insert("ng".into(), json!(g.len()));
        let par = json!({"G": me.d1(&gg), "H": me.d2(&hh), "D": me.d1(&dd), "C": me.d1(&cc), "g": me.d1s(&g)});
        head.insert("par".into(), par);
        let srs = me.srs.clone();
        let mut sv = vec![];
        for k in &srs {
            let mut v = me.srs_val(k);
            let vk = &k.pk.vk;
            // relations of the trapdoor that hold on any engine
            let o = v.as_object_mut().unwrap();
            o.insert("okC".into(), json!(Self::pair_eq(&neg(&k.gamma_g1), &me.gens.H, &me.gens.G, &vk.gamma_g2)));
            o.insert("okD".into(), json!(Self::pair_eq(&k.pk.delta_g1, &me.gens.H, &me.gens.G, &vk.delta_g2)));
            o.insert("okB".into(), json!(Self::pair_eq(&k.pk.beta_g1, &me.gens.H, &me.gens.G, &vk.beta_g2)));
            o.insert("ng".into(), json!(vk.gamma_abc_g1.len() - 1));
            o.insert("gs".into(), json!(saver_groth16::get_gs_for_encryption(vk) == &vk.gamma_abc_g1[1..]));
            o.insert("nz".into(), json!(!k.gamma_g1.is_zero() && !k.pk.delta_g1.is_zero()
                && !vk.alpha_g1.is_zero() && !vk.beta_g2.is_zero()));
            sv.push(v);
        }
        head.insert("srs".into(), Value::Array(sv));
        evs.push(Value::Object(head));
        if let Some((mut ev, name)) = pre {
            me.auth_fields(&mut ev, &name);
            ev.insert("res".into(), json!("ok"));
            ev.insert("via".into(), json!("setup"));
            evs.push(Value::Object(ev));
        }
        (me, evs)
    }

    fn auth_fields(&mut self, ev: &mut Map<String, Value>, name: &str) {
        let ek = self.ek[name].clone();
        let dk = self.auth[name].dk.clone();
        let sk = self.auth[name].sk.clone();
        let v = self.ek_val(&ek);
        ev.insert("ek".into(), v);
        let v = self.dk_val(&dk);
        ev.insert("dk".into(), v);
        let v = self.sc(&sk.0);
        ev.insert("sk".into(), v);
        if !self.exact {
            let n = ek.X.len();
            let v = json!({"s": self.shadows(n), "t": self.shadows(n + 1), "v": self.shadows(n)});
            ev.insert("sec".into(), v);
        }
        ev.insert("count".into(), json!([
            ek.supported_chunks_count().map(|x| x as i64).unwrap_or(-1),
            dk.supported_chunks_count().map(|x| x as i64).unwrap_or(-1)]));
        let pe = PreparedEncryptionKey::from(ek.clone());
        let pd = PreparedDecryptionKey::from(dk.clone());
        // prepared forms carry the same key
        ev.insert("prep".into(), json!(
            pe.X_0 == ek.X_0 && pe.X == ek.X && pe.Y == ek.Y && pe.P_1 == ek.P_1 && pe.P_2 == ek.P_2
            && pe.Z.len() == ek.Z.len() && pd.V_1.len() == dk.V_1.len() && pd.V_2.len() == dk.V_2.len()
            && pe.supported_chunks_count().ok() == ek.supported_chunks_count().ok()
            && pd.supported_chunks_count().ok() == dk.supported_chunks_count().ok()
            && ek.commitment_key() == pe.commitment_key()));
        let ck = ek.commitment_key();
        let v = self.d1s(&ck);
        ev.insert("ck".into(), v);
        let ids = json!([self.idb(ser(&sk.0))]);
        let mut ids = ids.as_array().unwrap().clone();
        for x in ek.X.clone().iter().chain([ek.P_1, ek.P_2].iter()) {
            ids.push(self.id1(x));
        }
        for z in ek.Z.clone().iter().chain(dk.V_1.iter()).chain(dk.V_2.iter()).chain([dk.V_0].iter()) {
            ids.push(self.id2(z));
        }
        ev.insert("ids".into(), Value::Array(ids));
    }

    fn ct_event(&mut self, ev: &mut Map<String, Value>, out: &str, c: Ct<E>) {
        let v = self.ct_val(&c.c);
        ev.insert("val".into(), v);
        let all = c.vec();
        let ids = self.id1s(&all);
        ev.insert("ids".into(), ids);
        self.ct.insert(out.to_string(), c);
    }

    // ---- one step --------------------------------------------------------------------------------
    pub fn step(&mut self, st: &Value) -> Option<Value> {
        let op = s(st, "op").to_string();
        let mut ev = st.as_object().unwrap().clone();
        ev.remove("op");
        let b = self.b;
        macro_rules! need {
            ($map:ident, $k:expr) => {
                match self.$map.get(s(st, $k)) {
                    Some(x) => x.clone(),
                    None => return None,
                }
            };
        }
        macro_rules! done {
            ($name:expr, $o:expr, $f:expr) => {{
                ev.insert("ev".into(), json!($name));
                let (t, w) = $o.tag();
                ev.insert("res".into(), json!(t));
                if t != "ok" {
                    ev.insert("why".into(), json!(w));
                }
                if let Out::Ok(v) = $o {
                    $f(self, &mut ev, v);
                }
                return Some(Value::Object(ev));
            }};
        }
        type M = Map<String, Value>;
        match op.as_str() {
            "auth" => {
                let (gens, g, d, c) = (self.gens.clone(), self.g.clone(), self.delta, self.gamma);
                let rng = &mut self.rng;
                let o = run(|| keygen::<_, E>(rng, b, &gens, &g, &d, &c));
                done!("Auth", o, |me: &mut Self, ev: &mut M, (sk, ek, dk)| {
                    let out = s(st, "out");
                    me.ek.insert(out.into(), ek);
                    me.auth.insert(out.into(), Auth { sk, dk });
                    me.auth_fields(ev, out);
                })
            }
            "party" => {
                let (gens, g, d, c) = (self.gens.clone(), self.g.clone(), self.delta, self.gamma);
                let rng = &mut self.rng;
                let o = run(|| FkeygenPartial::<_, E>(rng, b, &gens, &g, &d, &c));
                done!("Party", o, |me: &mut Self, ev: &mut M, (sk, pek): (SecretKeyST<E>, FEncryptionKeyPartial<E>)| {
                    let v = json!({"s": me.scs(&sk.s), "t": me.scs(&sk.t)});
                    ev.insert("sk".into(), v);
                    let v = me.pek_val(&pek);
                    ev.insert("pek".into(), v);
                    let mut ids = vec![];
                    for x in sk.s.iter().chain(sk.t.iter()) {
                        ids.push(me.idb(ser(x)));
                    }
                    ev.insert("nz".into(), json!(!sk.s.iter().chain(sk.t.iter()).any(|x| x.is_zero())));
                    ev.insert("ids".into(), Value::Array(ids));
                    me.party.insert(s(st, "out").into(), (sk, pek));
                })
            }
            "comb" => {
                let mut eks = vec![];
                for p in strs(&st["of"]) {
                    eks.push(self.party.get(&p)?.1.clone());
                }
                let c = self.gamma;
                let o = run0(|| combineEKs::<E>(&c, &eks));
                done!("Comb", o, |me: &mut Self, ev: &mut M, k: FEncryptionKeyPartial<E>| {
                    let v = me.pek_val(&k);
                    ev.insert("val".into(), v);
                    let id = me.idb(ser(&k));
                    ev.insert("id".into(), id);
                    me.cek.insert(s(st, "out").into(), k);
                })
            }
            "p1" => {
                let k = need!(cek, "cek");
                let p = need!(party, "party");
                let o = run0(|| genP1share::<E>(&k, &p.0));
                done!("P1", o, |me: &mut Self, ev: &mut M, x: P1share<E>| {
                    let v = me.d1(&x.P_1);
                    ev.insert("val".into(), v);
                    me.p1.insert(s(st, "out").into(), x);
                })
            }
            "p1c" => {
                let mut xs = vec![];
                for p in strs(&st["of"]) {
                    xs.push(self.p1.get(&p)?.clone());
                }
                let o = run0(|| combineP1share::<E>(&xs));
                done!("P1c", o, |me: &mut Self, ev: &mut M, x: P1share<E>| {
                    let v = me.d1(&x.P_1);
                    ev.insert("val".into(), v);
                    me.p1.insert(s(st, "out").into(), x);
                })
            }
            "final" => {
                let k = need!(cek, "cek");
                let p = need!(p1, "p1");
                let o = run0(|| keygenFinal::<E>(&k, &p));
                done!("Final", o, |me: &mut Self, ev: &mut M, ek: EncryptionKey<E>| {
                    let v = me.ek_val(&ek);
                    ev.insert("val".into(), v);
                    let id = me.idb(ser(&ek));
                    ev.insert("id".into(), id);
                    ev.insert("count".into(), json!(ek.supported_chunks_count().map(|x| x as i64).unwrap_or(-1)));
                    let ck = ek.commitment_key();
                    let v = me.d1s(&ck);
                    ev.insert("ck".into(), v);
                    me.ek.insert(s(st, "out").into(), ek);
                })
            }
            "dest" => {
                let gens = self.gens.clone();
                let rng = &mut self.rng;
                let o = run(|| Fkeygen_dest::<_, E>(rng, &gens));
                done!("Dest", o, |me: &mut Self, ev: &mut M, (sk, ek): (SecretKey<E::ScalarField>, FEncryptionKeyDest<E>)| {
                    let v = me.sc(&sk.0);
                    ev.insert("sk".into(), v);
                    let v = me.d1(&ek.pk);
                    ev.insert("pk".into(), v);
                    let id = me.idb(ser(&sk.0));
                    ev.insert("ids".into(), json!([id]));
                    ev.insert("nz".into(), json!(!sk.0.is_zero()));
                    ev.insert("okpk".into(), json!(mulg(&me.gens.G, &sk.0) == ek.pk));
                    me.dest.insert(s(st, "out").into(), (sk, ek));
                })
            }
            "enc" => self.enc(st, ev),
            "add" => {
                let (x, y) = (need!(ct, "a"), need!(ct, "b"));
                let (vx, vy) = (x.vec(), y.vec());
                let o = run(|| Encryption::<E>::add_cts(&vx, &vy));
                done!("Add", o, |me: &mut Self, ev: &mut M, v: Vec<E::G1Affine>| {
                    ev.insert("len".into(), json!(v.len()));
                    if v.len() >= 2 {
                        let m = x.m.iter().zip(y.m.iter()).map(|(a, b)| a.wrapping_add(*b)).collect();
                        me.ct_event(ev, s(st, "out"), Ct::of(&v, m, x.r + y.r));
                    }
                })
            }
            "share" => {
                let ct = need!(ct, "ct");
                let d = need!(dest, "dest");
                let p = need!(party, "party");
                let gens = self.gens.clone();
                let rng = &mut self.rng;
                let o = run(|| Encryption::re_encrypt_share(rng, &gens, &ct.c.X_r, &ct.c.enc_chunks, &d.1, &p.0));
                done!("Share", o, |me: &mut Self, ev: &mut M, (w, gr): (Vec<E::G1Affine>, E::G1Affine)| {
                    let v = json!({"w": me.d1s(&w), "gr": me.d1(&gr)});
                    ev.insert("val".into(), v);
                    ev.insert("len".into(), json!(w.len()));
                    let rho = me.shadow();
                    ev.insert("rho".into(), rho);
                    let id = me.id1(&gr);
                    let ids = me.id1s(&w);
                    ev.insert("grid".into(), id);
                    ev.insert("ids".into(), ids);
                    me.share.insert(s(st, "out").into(), (w, gr));
                })
            }
            "cshare" => {
                let (x, y) = (need!(share, "a"), need!(share, "b"));
                let o = run(|| Encryption::<E>::combine_re_encrypt_share(&x.1, &y.1, &x.0, &y.0));
                done!("CShare", o, |me: &mut Self, ev: &mut M, (w, gr): (Vec<E::G1Affine>, E::G1Affine)| {
                    let v = json!({"w": me.d1s(&w), "gr": me.d1(&gr)});
                    ev.insert("val".into(), v);
                    ev.insert("len".into(), json!(w.len()));
                    me.share.insert(s(st, "out").into(), (w, gr));
                })
            }
            "apply" => {
                let ct = need!(ct, "ct");
                let sh = need!(share, "share");
                let gens = self.gens.clone();
                let o = run(|| Encryption::combine_ct_with_w(&gens, &ct.c.enc_chunks, &sh.1, &sh.0));
                done!("Apply", o, |me: &mut Self, ev: &mut M, v: Vec<E::G1Affine>| {
                    ev.insert("len".into(), json!(v.len()));
                    if v.is_empty() {
                        return;
                    }
                    let x = json!({"c0": me.d1(&v[0]), "c": me.d1s(&v[1..])});
                    ev.insert("val".into(), x);
                    let ids = me.id1s(&v);
                    ev.insert("ids".into(), ids);
                    me.rct.insert(s(st, "out").into(), v);
                })
            }
            "decd" => {
                let r = need!(rct, "ct");
                let d = need!(dest, "dest");
                let bits = st["bits"].as_u64().unwrap() as u8;
                let g = self.g.clone();
                let o = run(|| Encryption::<E>::decrypt_to_chunks_after_re_encryption(&r[0], &r[1..], &d.0, &g, bits));
                done!("DecD", o, |_: &mut Self, ev: &mut M, v: Vec<u16>| {
                    ev.insert("val".into(), json!(v));
                })
            }
            "dec" => self.dec(st, ev),
            "verc" => {
                let ct = need!(ct, "ct");
                let ek = need!(ek, "ek");
                let gens = self.gens.clone();
                let via = st["via"].as_str().unwrap_or("free");
                let o = run(|| {
                    let c = &ct.c;
                    match via {
                        "free" => Encryption::verify_ciphertext_commitment(&c.X_r, &c.enc_chunks, &c.commitment, ek, gens),
                        "prep" => Encryption::verify_ciphertext_commitment(&c.X_r, &c.enc_chunks, &c.commitment,
                            PreparedEncryptionKey::from(ek), PreparedEncryptionGens::from(gens)),
                        "method" => c.verify_commitment(ek, gens),
                        _ => c.verify_commitment(PreparedEncryptionKey::from(ek), PreparedEncryptionGens::from(gens)),
                    }
                });
                done!("VerC", o, |_: &mut Self, _: &mut M, _: ()| {})
            }
            "batch" => {
                let mut cts = vec![];
                for c in strs(&st["cts"]) {
                    cts.push(self.ct.get(&c)?.c.clone());
                }
                let ek = need!(ek, "ek");
                let gens = self.gens.clone();
                let prep = st["via"].as_str() == Some("prep");
                let coef: Vec<E::ScalarField> = if let Some(a) = st["coef"].as_array() {
                    a.iter().map(|x| int_to_scalar(x.as_i64().unwrap())).collect()
                } else {
                    let mut v = vec![];
                    while v.len() < cts.len() {
                        let x: E::ScalarField = if E::Q == 0 && self.exact {
                            int_to_scalar(1 + (self.hr.next_u64() % 50) as i64)
                        } else {
                            E::ScalarField::rand(&mut self.hr)
                        };
                        if !x.is_zero() {
                            v.push(x);
                        }
                    }
                    v
                };
                let given = st["coef"].is_array();
                ev.insert("generic".into(), json!(!given));
                if !given {
                    let v = self.scs(&coef);
                    ev.insert("coef".into(), v);
                }
                let o = run(|| {
                    if prep {
                        Encryption::verify_commitments_in_batch(&cts, &coef,
                            PreparedEncryptionKey::from(ek), PreparedEncryptionGens::from(gens))
                    } else {
                        Encryption::verify_commitments_in_batch(&cts, &coef, ek, gens)
                    }
                });
                done!("Batch", o, |_: &mut Self, _: &mut M, _: ()| {})
            }
            "prove" => {
                let ct = need!(ct, "ct");
                let ek = need!(ek, "ek");
                let i = st["srs"].as_u64().unwrap_or(0) as usize;
                ev.insert("srs".into(), json!(i));
                let pk = self.srs.get(i)?.clone();
                let m: Vec<u16> = match st["m"].as_array() {
                    Some(a) => a.iter().map(|x| x.as_u64().unwrap() as u16).collect(),
                    None => ct.m.clone(),
                };
                ev.insert("m".into(), json!(m));
                let vals = m.iter().map(|x| E::ScalarField::from(*x as u64)).collect::<Vec<_>>();
                let rng = &mut self.rng;
                let o = run(|| {
                    let circuit = BitsizeCheckCircuit::new(b, None, Some(vals), true);
                    saver_groth16::create_proof(circuit, &ct.r, &pk, &ek, rng)
                });
                done!("Prove", o, |me: &mut Self, ev: &mut M, p: Proof<E>| me.proof_event(ev, s(st, "out"), p))
            }
            "verp" => {
                let ct = need!(ct, "ct");
                let p = need!(proof, "proof");
                let i = st["srs"].as_u64().unwrap_or(0) as usize;
                ev.insert("srs".into(), json!(i));
                let pvk = self.pvk.get(i)?.clone();
                let via = st["via"].as_str().unwrap_or("proof").to_string();
                ev.insert("via".into(), json!(via));
                let gens = self.gens.clone();
                let ek = if via != "proof" { Some(need!(ek, "ek")) } else { None };
                let o = run(|| match via.as_str() {
                    "proof" => saver_groth16::verify_proof(&pvk, &p, &ct.c),
                    "both" => ct.c.verify_commitment_and_proof(&p, &pvk, ek.unwrap(), gens),
                    _ => ct.c.verify_commitment_and_proof(&p, &pvk,
                        PreparedEncryptionKey::from(ek.unwrap()), PreparedEncryptionGens::from(gens)),
                });
                done!("VerP", o, |_: &mut Self, _: &mut M, _: ()| {})
            }
            "tamper" => self.tamper(st, ev),
            "tproof" => self.tproof(st, ev),
            "craft" => {
                // a ciphertext made by a dishonest party: consistent under the key, with a chosen chunk
                // scalar (possibly far out of range); k.X*r + g*x, commitment to match
                let ek = need!(ek, "ek");
                let xs: Vec<i64> = st["x"].as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect();
                let r = loop {
                    let r = if E::Q == 0 && self.exact { E::ScalarField::from(1 + self.hr.next_u64() % 3) } else { E::ScalarField::rand(&mut self.hr) };
                    if !r.is_zero() { break r; }
                };
                let mut v = vec![mulg(&ek.X_0, &r)];
                let mut psi = ek.P_1.mul_bigint(r.into_bigint());
                for i in 0..ek.X.len() {
                    let x: E::ScalarField = int_to_scalar(xs[i]);
                    v.push((ek.X[i].mul_bigint(r.into_bigint()) + self.g[i].mul_bigint(x.into_bigint())).into_affine());
                    psi += ek.Y[i].mul_bigint(x.into_bigint());
                }
                v.push(psi.into_affine());
                ev.insert("ev".into(), json!("Craft"));
                ev.insert("res".into(), json!("ok"));
                let rr = self.sc(&r);
                ev.insert("r".into(), rr);
                self.ct_event(&mut ev, s(st, "out"), Ct::of(&v, xs.iter().map(|x| *x as u16).collect(), r));
                Some(Value::Object(ev))
            }
            "wire" => crate::wire::wire_step(self, st, ev),
            "rel" => crate::rel::rel_step(self, st, ev),
            "prel" => {
                // were the two masks of these two proofs of one statement the same scalar?
                let (x, y) = (need!(proof, "a"), need!(proof, "b"));
                let da = (x.a.into_group() - y.a.into_group()).into_affine();
                let db = (x.b.into_group() - y.b.into_group()).into_affine();
                ev.insert("ev".into(), json!("PRel"));
                let rel = Self::pair_eq(&da, &self.gens.H, &self.gens.G, &db)
                    || Self::pair_eq(&da, &self.gens.H, &neg(&self.gens.G), &db);
                ev.insert("rel".into(), json!(rel));
                Some(Value::Object(ev))
            }
            "det" => self.det(st, ev),
            _ => panic!("plan: unknown op {}", op),
        }
    }

    fn proof_event(&mut self, ev: &mut Map<String, Value>, out: &str, p: Proof<E>) {
        let v = self.proof_val(&p);
        ev.insert("val".into(), v);
        let ids = json!([self.id1(&p.a), self.id2(&p.b), self.id1(&p.c)]);
        ev.insert("ids".into(), ids);
        self.proof.insert(out.into(), p);
    }

    fn enc(&mut self, st: &Value, mut ev: Map<String, Value>) -> Option<Value> {
        let b = self.b;
        let ek = self.ek.get(s(st, "ek"))?.clone();
        let g = self.g.clone();
        let via = st["via"].as_str().unwrap_or("chunks").to_string();
        ev.insert("via".into(), json!(via));
        let rng = &mut self.rng;
        ev.insert("ev".into(), json!("Enc"));
        let mut proof = None;
        let o: Out<(Ciphertext<E>, E::ScalarField, Vec<u16>)> = if via == "chunks" {
            let m: Vec<u16> = st["m"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
            let mm = m.clone();
            match run(|| Encryption::encrypt_decomposed_message(rng, m, &ek, &g)) {
                Out::Ok((v, r)) => {
                    ev.insert("len".into(), json!(v.len()));
                    if v.len() < 2 {
                        Out::Err("short ciphertext".into())
                    } else {
                        Out::Ok((Ct::<E>::of(&v, vec![], r).c, r, mm))
                    }
                }
                Out::Err(e) => Out::Err(e),
                Out::Panic(e) => Out::Panic(e),
            }
        } else {
            let bytes: Vec<u8> = st["msg"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
            let f = E::ScalarField::from_be_bytes_mod_order(&bytes);
            let srs = self.srs.get(0).cloned();
            let pp = &mut proof;
            run(|| {
                let (c, r) = match via.as_str() {
                    "msg" => Encryption::encrypt(rng, &f, &ek, &g, b)?,
                    "vk" => Encryption::encrypt_given_snark_vk(rng, &f, &ek, &srs.unwrap().pk.vk, b)?,
                    "proof" => {
                        let (c, r, p) = Encryption::encrypt_with_proof(rng, &f, &ek, &srs.unwrap(), b)?;
                        *pp = Some(p);
                        (c, r)
                    }
                    _ => panic!("plan: via"),
                };
                // the chunk list is the specification's business; keep the canonical bytes
                Ok((c, r, vec![]))
            })
        };
        let (t, w) = o.tag();
        ev.insert("res".into(), json!(t));
        if t != "ok" {
            ev.insert("why".into(), json!(w));
        }
        if let Out::Ok((c, r, mut m)) = o {
            let v = self.sc(&r);
            ev.insert("r".into(), v);
            let id = self.id(&r);
            ev.insert("rid".into(), id);
            // does the returned randomness open the ciphertext? (observable on any engine)
            ev.insert("opens".into(), json!(mulg(&ek.X_0, &r) == c.X_r));
            ev.insert("nc".into(), json!(c.enc_chunks.len()));
            if via != "chunks" {
                // chunks as bytes are derived in the specification; here only for re-proving
                let bytes: Vec<u8> = st["msg"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                m = match b {
                    4 => bytes.iter().flat_map(|x| [(x >> 4) as u16, (x & 15) as u16]).collect(),
                    8 => bytes.iter().map(|x| *x as u16).collect(),
                    _ => bytes.chunks(2).map(|x| (x[0] as u16) * 256 + x[1] as u16).collect(),
                };
            }
            self.ct_event(&mut ev, s(st, "out"), Ct { c, m, r });
            if let Some(p) = proof {
                let mut pe = Map::new();
                self.proof_event(&mut pe, s(st, "pout"), p);
                ev.insert("pval".into(), pe["val"].clone());
                ev.insert("pids".into(), pe["ids"].clone());
            }
        }
        Some(Value::Object(ev))
    }

    fn dec(&mut self, st: &Value, mut ev: Map<String, Value>) -> Option<Value> {
        let ct = self.ct.get(s(st, "ct"))?.c.clone();
        let skn = s(st, "sk");
        let dkn = s(st, "dk");
        let sk = self.auth.get(skn)?.sk.clone();
        let dk = self.auth.get(dkn)?.dk.clone();
        let bits = st["bits"].as_u64().unwrap() as u8;
        let via = st["via"].as_str().unwrap_or("chunks").to_string();
        ev.insert("via".into(), json!(via));
        let g = self.g.clone();
        let vk = self.srs.get(0).map(|k| k.pk.vk.clone());
        let needvk = via.contains("vk");
        if needvk && vk.is_none() {
            return None;
        }
        ev.insert("ev".into(), json!("Dec"));
        let mut powers: Vec<Vec<PairingOutput<E>>> = vec![];
        if via.contains("pow") {
            let bits = st["pbits"].as_u64().unwrap_or(bits as u64) as u8;
            ev.insert("pbits".into(), json!(bits));
            let key = (dkn.to_string(), bits);
            let o = if let Some(p) = self.powers.get(&key) {
                Out::Ok(p.clone())
            } else {
                let d = dk.clone();
                let g2 = g.clone();
                match (via.len() % 3, vk.clone()) {
                    (0, Some(vk)) => run(|| d.pairing_powers_given_groth16_vk(bits, &vk)),
                    (1, Some(vk)) => run(|| PreparedDecryptionKey::from(d).pairing_powers_given_groth16_vk(bits, &vk)),
                    (2, _) => run(|| PreparedDecryptionKey::from(d).pairing_powers(bits, &g2)),
                    _ => run(|| d.pairing_powers(bits, &g2)),
                }
            };
            match o {
                Out::Ok(p) => {
                    if self.exact && E::Q > 0 && bits <= 8 {
                        let v: Vec<Vec<i64>> = p.iter().map(|r| r.iter().map(|x| E::dlogt(x).unwrap_or(-1)).collect()).collect();
                        ev.insert("pow".into(), json!(v));
                    }
                    ev.insert("powlen".into(), json!(p.iter().map(|r| r.len()).collect::<Vec<_>>()));
                    // powers are consecutive multiples of the first entry
                    let step_ok = p.iter().all(|r| r.windows(2).all(|w| w[1] == w[0] + r[0]));
                    ev.insert("powstep".into(), json!(step_ok));
                    powers = p.clone();
                    self.powers.insert(key, p);
                }
                o => {
                    ev.insert("res".into(), json!(o.tag().0));
                    ev.insert("why".into(), json!(format!("pairing_powers: {}", o.tag().1)));
                    return Some(Value::Object(ev));
                }
            }
        }
        let (c0, c) = (ct.X_r, ct.enc_chunks.clone());
        let pd = || PreparedDecryptionKey::from(dk.clone());
        enum R<F, G> {
            Chunks(Vec<u16>, G),
            Msg(F, G),
        }
        let o = run(|| {
            Ok(match via.as_str() {
                "chunks" => { let (m, nu) = Encryption::decrypt_to_chunks(&c0, &c, &sk, dk.clone(), &g, bits)?; R::Chunks(m, nu) }
                "chunks-prep" => { let (m, nu) = Encryption::decrypt_to_chunks(&c0, &c, &sk, pd(), &g, bits)?; R::Chunks(m, nu) }
                "chunks-pow" => { let (m, nu) = Encryption::decrypt_to_chunks_given_pairing_powers(&c0, &c, &sk, dk.clone(), &g, bits, Some(&powers))?; R::Chunks(m, nu) }
                "chunks-pow-prep" => { let (m, nu) = Encryption::decrypt_to_chunks_given_pairing_powers(&c0, &c, &sk, pd(), &g, bits, Some(&powers))?; R::Chunks(m, nu) }
                "msg" => { let (m, nu) = Encryption::decrypt(&c0, &c, &sk, dk.clone(), &g, bits)?; R::Msg(m, nu) }
                "msg-pow" => { let (m, nu) = Encryption::decrypt_given_pairing_powers(&c0, &c, &sk, pd(), &g, bits, &powers)?; R::Msg(m, nu) }
                "msg-vk" => { let (m, nu) = Encryption::decrypt_given_groth16_vk(&c0, &c, &sk, pd(), vk.as_ref().unwrap(), bits)?; R::Msg(m, nu) }
                "msg-vk-pow" => { let (m, nu) = Encryption::decrypt_given_groth16_vk_and_pairing_powers(&c0, &c, &sk, dk.clone(), vk.as_ref().unwrap(), bits, &powers)?; R::Msg(m, nu) }
                "ct" => { let (m, nu) = ct.decrypt(&sk, dk.clone(), &g, bits)?; R::Msg(m, nu) }
                "ct-pow" => { let (m, nu) = ct.decrypt_given_pairing_powers(&sk, pd(), &g, bits, &powers)?; R::Msg(m, nu) }
                "ct-vk" => { let (m, nu) = ct.decrypt_given_groth16_vk(&sk, dk.clone(), vk.as_ref().unwrap(), bits)?; R::Msg(m, nu) }
                "ct-vk-pow" => { let (m, nu) = ct.decrypt_given_groth16_vk_and_pairing_powers(&sk, pd(), vk.as_ref().unwrap(), bits, &powers)?; R::Msg(m, nu) }
                _ => panic!("plan: via {}", via),
            })
        });
        let (t, w) = o.tag();
        ev.insert("res".into(), json!(t));
        if t != "ok" {
            ev.insert("why".into(), json!(w));
        }
        if let Out::Ok(r) = o {
            let nu = match r {
                R::Chunks(m, nu) => {
                    ev.insert("val".into(), json!(m));
                    nu
                }
                R::Msg(f, nu) => {
                    use ark_ff::BigInteger;
                    ev.insert("bytes".into(), json!(f.into_bigint().to_bytes_be()));
                    nu
                }
            };
            let v = self.d1(&nu);
            ev.insert("nu".into(), v);
            ev.insert("nuok".into(), json!(mulg(&c0, &sk.0) == nu));
        }
        Some(Value::Object(ev))
    }

    /// the same operation twice from the same state of the caller's generator
    fn det(&mut self, st: &Value, mut ev: Map<String, Value>) -> Option<Value> {
        let what = s(st, "what").to_string();
        let b = self.b;
        let mut outs = vec![];
        let mut moved = true;
        for _ in 0..2 {
            let mut rng = self.rng.clone();
            let before = rng.clone().next_u64();
            let rng = &mut rng;
            let (gens, g, d, c) = (self.gens.clone(), self.g.clone(), self.delta, self.gamma);
            let o: Out<Vec<u8>> = match what.as_str() {
                "auth" => run(|| keygen::<_, E>(rng, b, &gens, &g, &d, &c).map(|x| [ser(&x.0), ser(&x.1), ser(&x.2)].concat())),
                "party" => run(|| FkeygenPartial::<_, E>(rng, b, &gens, &g, &d, &c).map(|x| [ser(&x.0), ser(&x.1)].concat())),
                "dest" => run(|| Fkeygen_dest::<_, E>(rng, &gens).map(|x| [ser(&x.0), ser(&x.1)].concat())),
                "enc" => {
                    let ek = self.ek.get(s(st, "ek"))?.clone();
                    let m = vec![1u16; self.n];
                    run(|| Encryption::encrypt_decomposed_message(rng, m, &ek, &g).map(|x| [ser(&x.0), ser(&x.1)].concat()))
                }
                "share" => {
                    let ct = self.ct.get(s(st, "ct"))?.c.clone();
                    let dst = self.dest.get(s(st, "dest"))?.1.clone();
                    let p = self.party.get(s(st, "party"))?.0.clone();
                    run(|| Encryption::re_encrypt_share(rng, &gens, &ct.X_r, &ct.enc_chunks, &dst, &p).map(|x| [ser(&x.0), ser(&x.1)].concat()))
                }
                "prove" => {
                    let ek = self.ek.get(s(st, "ek"))?.clone();
                    let pk = self.srs.get(0)?.clone();
                    let vals = vec![E::ScalarField::from(1u64); self.n];
                    let r = E::ScalarField::from(7u64);
                    run(|| saver_groth16::create_proof(BitsizeCheckCircuit::new(b, None, Some(vals), true), &r, &pk, &ek, rng).map(|x| ser(&x)))
                }
                "srs" => {
                    run(|| saver_groth16::generate_srs::<E, _, _>(BitsizeCheckCircuit::new(b, None, None, true), &gens, rng).map(|x| ser(&x)))
                }
                "gens" => run(|| Ok(ser(&EncryptionGens::<E>::new_using_rng(rng)))),
                _ => panic!("plan: det {}", what),
            };
            moved &= rng.clone().next_u64() != before;
            match o {
                Out::Ok(v) => outs.push(v),
                o => outs.push(o.tag().1.into_bytes()),
            }
        }
        ev.insert("ev".into(), json!("Det"));
        ev.insert("same".into(), json!(outs[0] == outs[1]));
        ev.insert("moved".into(), json!(moved));
        Some(Value::Object(ev))
    }

    fn tamper(&mut self, st: &Value, mut ev: Map<String, Value>) -> Option<Value> {
        let src = self.ct.get(s(st, "ct"))?.clone();
        let mut v = src.vec();
        let before = v.clone();
        let k = s(st, "k").to_string();
        let n = v.len();
        let at = |f: &str| st[f].as_u64().map(|x| (x as usize).min(n - 1));
        let d: E::ScalarField = int_to_scalar(st["d"].as_i64().unwrap_or(1));
        let dp = mulg(&E::base1(), &d);
        match k.as_str() {
            "add" => { let i = at("i").unwrap(); v[i] = (v[i] + dp).into_affine(); }
            "shift" => {
                let (i, j) = (at("i").unwrap(), at("j").unwrap());
                v[i] = (v[i] + dp).into_affine();
                v[j] = (v[j].into_group() - dp).into_affine();
            }
            "swap" => { let (i, j) = (at("i").unwrap(), at("j").unwrap()); v.swap(i, j); }
            "neg" => { let i = at("i").unwrap(); v[i] = neg(&v[i]); }
            "zero" => { let i = at("i").unwrap(); v[i] = E::G1Affine::zero(); }
            "double" => { let i = at("i").unwrap(); v[i] = (v[i] + v[i]).into_affine(); }
            "from" => { let i = at("i").unwrap(); let o = self.ct.get(s(st, "other"))?.vec(); if i < o.len() { v[i] = o[i]; } }
            "setm" => {
                // homomorphic change of chunk i: still consistent, but not what was proved
                let i = at("i").unwrap().max(1).min(n - 2);
                let ek = self.ek.get(s(st, "ek"))?.clone();
                v[i] = (v[i] + mulg(&self.g[i - 1], &d)).into_affine();
                v[n - 1] = (v[n - 1] + mulg(&ek.Y[i - 1], &d)).into_affine();
            }
            "rerand" => {
                // re-randomisation by another r: still consistent, but not what was proved
                let ek = self.ek.get(s(st, "ek"))?.clone();
                v[0] = (v[0] + mulg(&ek.X_0, &d)).into_affine();
                for i in 1..n - 1 { v[i] = (v[i] + mulg(&ek.X[i - 1], &d)).into_affine(); }
                v[n - 1] = (v[n - 1] + mulg(&ek.P_1, &d)).into_affine();
            }
            "pop" => { v.remove(n - 2); }
            "push" => { v.insert(n - 1, dp); }
            "pushzero" => { v.insert(n - 1, E::G1Affine::zero()); }
            "rot" => { v[1..n - 1].rotate_left(1); }
            _ => panic!("plan: tamper {}", k),
        }
        ev.insert("ev".into(), json!("Tamper"));
        ev.insert("res".into(), json!("ok"));
        ev.insert("changed".into(), json!(v != before));
        ev.insert("nc".into(), json!(v.len() - 2));
        self.ct_event(&mut ev, s(st, "out"), Ct::of(&v, src.m.clone(), src.r));
        Some(Value::Object(ev))
    }

    fn tproof(&mut self, st: &Value, mut ev: Map<String, Value>) -> Option<Value> {
        let p0 = self.proof.get(s(st, "proof"))?.clone();
        let mut p = p0.clone();
        let d: E::ScalarField = int_to_scalar(st["d"].as_i64().unwrap_or(1));
        match s(st, "k") {
            "a+" => p.a = (p.a + mulg(&E::base1(), &d)).into_affine(),
            "b+" => p.b = (p.b + mulg(&E::base2(), &d)).into_affine(),
            "c+" => p.c = (p.c + mulg(&E::base1(), &d)).into_affine(),
            "a-" => p.a = neg(&p.a),
            "b-" => p.b = neg(&p.b),
            "c-" => p.c = neg(&p.c),
            "a0" => p.a = E::G1Affine::zero(),
            "b0" => p.b = E::G2Affine::zero(),
            "c0" => p.c = E::G1Affine::zero(),
            "ab-" => { p.a = neg(&p.a); p.b = neg(&p.b) }      // still a valid proof: e(-a,-b) = e(a,b)
            "ac" => std::mem::swap(&mut p.a, &mut p.c),
            "afrom" => p.a = self.proof.get(s(st, "other"))?.a,
            "bfrom" => p.b = self.proof.get(s(st, "other"))?.b,
            "cfrom" => p.c = self.proof.get(s(st, "other"))?.c,
            "noP2" => {
                // the plain Groth16 proof without the encryption randomness
                let ek = self.ek.get(s(st, "ek"))?.clone();
                let ct = self.ct.get(s(st, "ct"))?.clone();
                p.c = (p.c.into_group() - mulg(&ek.P_2, &ct.r)).into_affine();
            }
            k => panic!("plan: tproof {}", k),
        }
        ev.insert("ev".into(), json!("TProof"));
        ev.insert("res".into(), json!("ok"));
        ev.insert("changed".into(), json!(p != p0));
        self.proof_event(&mut ev, s(st, "out"), p);
        Some(Value::Object(ev))
    }
}

/// Run one session plan; returns its events.
pub fn run_session<E: Eng>(plan: &Value) -> Vec<Value> {
    let want = plan["exact"].as_bool().unwrap_or(true);
    for exact in if want { vec![true, false] } else { vec![false] } {
        let (mut me, mut evs) = Sess::<E>::new(plan, exact);
        for st in plan["steps"].as_array().unwrap() {
            crate::watch::context(|| format!("{}", st));
            if let Some(e) = me.step(st) {
                evs.push(e);
            }
            if me.lost {
                break;
            }
        }
        if !me.lost {
            return evs;
        }
        // an exponent could not be read: replay the same plan without abstract values
    }
    unreachable!()
}
#[allow(dead_code)]
fn _unused<E: Eng>() {
    let _ = E::ScalarField::ONE;
    let _: fn(&[u8]) -> _ = |b| <E::G1Affine as CanonicalDeserialize>::deserialize_compressed(b).is_ok();
}
