//! Export and import of every exchanged artefact.
use crate::engines::Eng;
use crate::session::*;
use ark_ff::{BigInteger, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use dist_saver::{encryption::Ciphertext, keygen::*, saver_groth16::ProvingKey, setup::*};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value};

/// The three encodings.
pub fn export<T: CanonicalSerialize + Serialize>(x: &T, enc: &str) -> Vec<u8> {
    let mut v = vec![];
    match enc {
        "c" => x.serialize_compressed(&mut v).expect("export"),
        "u" => x.serialize_uncompressed(&mut v).expect("export"),
        "json" => v = serde_json::to_vec(x).expect("export"),
        "bin" => v = bincode::serialize(x).expect("export"),
        _ => panic!("plan: enc"),
    }
    v
}
pub fn import<T: CanonicalDeserialize + DeserializeOwned>(b: &[u8], enc: &str) -> Result<T, dist_saver::error::SaverError> {
    use dist_saver::error::SaverError::InvalidDecomposition as E;
    match enc {
        "c" => T::deserialize_compressed(b).map_err(|_| E),
        "u" => T::deserialize_uncompressed(b).map_err(|_| E),
        "bin" => bincode::deserialize(b).map_err(|_| E),
        _ => serde_json::from_slice(b).map_err(|_| E),
    }
}

/// All element encodings (compressed) inside an artefact, G1 then G2.
pub trait Slots<E: Eng> {
    fn g1(&self) -> Vec<E::G1Affine>;
    fn g2(&self) -> Vec<E::G2Affine> {
        vec![]
    }
    fn sc(&self) -> Vec<E::ScalarField> {
        vec![]
    }
}
impl<E: Eng> Slots<E> for EncryptionKey<E> {
    fn g1(&self) -> Vec<E::G1Affine> {
        let mut v = vec![self.X_0];
        v.extend(&self.X);
        v.extend(&self.Y);
        v.push(self.P_1);
        v.push(self.P_2);
        v
    }
    fn g2(&self) -> Vec<E::G2Affine> {
        self.Z.clone()
    }
}
impl<E: Eng> Slots<E> for FEncryptionKeyPartial<E> {
    fn g1(&self) -> Vec<E::G1Affine> {
        let mut v = vec![self.X_0];
        v.extend(&self.X);
        v.extend(&self.Y);
        v.push(self.P_2);
        v
    }
    fn g2(&self) -> Vec<E::G2Affine> {
        self.Z.clone()
    }
}
impl<E: Eng> Slots<E> for P1share<E> {
    fn g1(&self) -> Vec<E::G1Affine> {
        vec![self.P_1]
    }
}
impl<E: Eng> Slots<E> for FEncryptionKeyDest<E> {
    fn g1(&self) -> Vec<E::G1Affine> {
        vec![self.pk]
    }
}
impl<E: Eng> Slots<E> for DecryptionKey<E> {
    fn g1(&self) -> Vec<E::G1Affine> {
        vec![]
    }
    fn g2(&self) -> Vec<E::G2Affine> {
        let mut v = vec![self.V_0];
        v.extend(&self.V_1);
        v.extend(&self.V_2);
        v
    }
}
impl<E: Eng> Slots<E> for Ciphertext<E> {
    fn g1(&self) -> Vec<E::G1Affine> {
        let mut v = vec![self.X_r];
        v.extend(&self.enc_chunks);
        v.push(self.commitment);
        v
    }
}
impl<E: Eng> Slots<E> for EncryptionGens<E> {
    fn g1(&self) -> Vec<E::G1Affine> {
        vec![self.G]
    }
    fn g2(&self) -> Vec<E::G2Affine> {
        vec![self.H]
    }
}
impl<E: Eng> Slots<E> for ProvingKey<E> {
    fn g1(&self) -> Vec<E::G1Affine> {
        vec![self.pk.vk.alpha_g1, self.pk.beta_g1, self.pk.delta_g1, self.gamma_g1]
    }
    fn g2(&self) -> Vec<E::G2Affine> {
        vec![self.pk.vk.beta_g2, self.pk.vk.gamma_g2, self.pk.vk.delta_g2]
    }
}
impl<E: Eng> Slots<E> for SecretKeyST<E> {
    fn g1(&self) -> Vec<E::G1Affine> {
        vec![]
    }
    fn sc(&self) -> Vec<E::ScalarField> {
        self.s.iter().chain(&self.t).copied().collect()
    }
}
impl<E: Eng> Slots<E> for SecretKey<E::ScalarField> {
    fn g1(&self) -> Vec<E::G1Affine> {
        vec![]
    }
    fn sc(&self) -> Vec<E::ScalarField> {
        vec![self.0]
    }
}
fn seru<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_uncompressed(&mut v).unwrap();
    v
}

/// Replace the `nth` occurrence of `old` by `new`.
fn splice(b: &[u8], old: &[u8], new: &[u8], nth: usize) -> Option<Vec<u8>> {
    let mut seen = 0;
    let mut i = 0;
    while i + old.len() <= b.len() {
        if &b[i..i + old.len()] == old {
            if seen == nth {
                let mut v = b[..i].to_vec();
                v.extend_from_slice(new);
                v.extend_from_slice(&b[i + old.len()..]);
                return Some(v);
            }
            seen += 1;
            i += old.len();
        } else {
            i += 1;
        }
    }
    None
}
fn jbytes(b: &[u8]) -> Vec<u8> {
    let s: Vec<String> = b.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(",")).into_bytes()
}

/// Round trip of `x`; returns (result, equal, re-exported bytes equal) and the imported value.
pub fn roundtrip<T>(x: &T, enc: &str, ev: &mut Map<String, Value>) -> Option<T>
where
    T: CanonicalSerialize + CanonicalDeserialize + Serialize + DeserializeOwned + PartialEq,
{
    let o = run(|| {
        let b = export(x, enc);
        let y: T = import(&b, enc)?;
        let b2 = export(&y, enc);
        // the announced size is the real one
        let sz = match enc {
            "c" => x.compressed_size() == b.len(),
            "u" => x.uncompressed_size() == b.len(),
            _ => true,
        };
        Ok((y, b == b2 && sz))
    });
    ev.insert("res".into(), json!(o.tag().0));
    if o.tag().0 != "ok" {
        ev.insert("why".into(), json!(o.tag().1));
    }
    match o {
        Out::Ok((y, same)) => {
            ev.insert("eq".into(), json!(*x == y));
            ev.insert("same".into(), json!(same));
            Some(y)
        }
        _ => {
            ev.insert("eq".into(), json!(false));
            ev.insert("same".into(), json!(false));
            None
        }
    }
}

/// Imports of damaged encodings: (kind of damage, outcome) for a set of damages.
pub fn damaged<E: Eng, T>(x: &T, enc: &str, slots: (Vec<E::G1Affine>, Vec<E::G2Affine>, Vec<E::ScalarField>), maxslots: usize) -> Vec<Value>
where
    T: CanonicalSerialize + CanonicalDeserialize + Serialize + DeserializeOwned,
{
    let b = export(x, enc);
    let mut out = vec![];
    let mut go = |how: String, bytes: Vec<u8>| {
        let o = run(|| import::<T>(&bytes, enc).map(|_| ()));
        out.push(json!({"how": how, "res": o.tag().0}));
    };
    // truncations
    let l = b.len();
    let mut cuts = vec![0, 1, 7, 8, 9, l / 2, l - 1];
    cuts.extend((1..8).map(|i| l * i / 8));
    cuts.sort();
    cuts.dedup();
    for c in cuts {
        if c < l {
            go(format!("trunc{}", c), b[..c].to_vec());
        }
    }
    let pick = |n: usize| -> Vec<usize> {
        if n <= maxslots {
            (0..n).collect()
        } else {
            let mut v: Vec<usize> = (0..maxslots - 1).map(|k| k * n / maxslots).collect();
            v.push(n - 1);
            v
        }
    };
    let mut repl = |tag: String, old: Vec<u8>, new: Vec<u8>, nth: usize| {
        let (o, n) = if enc == "json" { (jbytes(&old), jbytes(&new)) } else { (old, new) };
        let bytes = match splice(&b, &o, &n, nth) {
            Some(v) => v,
            None if enc == "json" || enc == "bin" => return, // nested bytes (proving key): covered by the other forms
            None => panic!("element not found in the encoding"),
        };
        let o = run(|| import::<T>(&bytes, enc).map(|_| ()));
        out.push(json!({"how": tag, "res": o.tag().0}));
    };
    for (i, p) in slots.0.iter().enumerate().filter(|(i, _)| pick(slots.0.len()).contains(i)) {
        let old = if enc == "u" { seru(p) } else { ser(p) };
        let nth = slots.0[..i].iter().filter(|q| *q == p).count();
        for (name, bad, badu) in E::bad_g1() {
            let bad = if enc == "u" { badu } else { bad };
            repl(format!("g1-{}-{}", i, name), old.clone(), bad, nth);
        }
    }
    for (i, p) in slots.1.iter().enumerate().filter(|(i, _)| pick(slots.1.len()).contains(i)) {
        let old = if enc == "u" { seru(p) } else { ser(p) };
        let nth = slots.1[..i].iter().filter(|q| *q == p).count();
        for (name, bad, badu) in E::bad_g2() {
            let bad = if enc == "u" { badu } else { bad };
            repl(format!("g2-{}-{}", i, name), old.clone(), bad, nth);
        }
    }
    // scalars that are not reduced
    for (i, x) in slots.2.iter().enumerate().filter(|(i, _)| pick(slots.2.len()).contains(i)) {
        let old = ser(x);
        let nth = slots.2[..i].iter().filter(|q| *q == x).count();
        let mut m = <E::ScalarField as PrimeField>::MODULUS.to_bytes_le();
        m.truncate(old.len());
        for (name, bad) in [("modulus", m), ("ones", vec![255; old.len()])] {
            repl(format!("scalar-{}-{}", i, name), old.clone(), bad, nth);
        }
    }
    // an element of the outer encoding cut short
    if enc == "json" || enc == "bin" {
        let mut all: Vec<(Vec<u8>, usize)> = vec![];
        let mut put = |e: Vec<u8>| {
            let nth = all.iter().filter(|x| x.0 == e).count();
            all.push((e, nth));
        };
        slots.0.iter().for_each(|p| put(ser(p)));
        slots.1.iter().for_each(|p| put(ser(p)));
        slots.2.iter().for_each(|p| put(ser(p)));
        let form = |e: &[u8]| if enc == "json" { jbytes(e) } else { [&(e.len() as u64).to_le_bytes(), e].concat() };
        for i in pick(all.len()) {
            let (e, nth) = &all[i];
            let mut cuts = vec![0, e.len() / 2, e.len() - 1];
            cuts.dedup();
            for c in cuts {
                if let Some(bytes) = splice(&b, &form(e), &form(&e[..c]), *nth) {
                    let o = run(|| import::<T>(&bytes, enc).map(|_| ()));
                    out.push(json!({"how": format!("element{}-cut{}", i, c), "res": o.tag().0}));
                }
            }
        }
    }
    out
}

/// `{"op":"wire","kind":..,"name":..,"enc":..[,"damage":true]}`: the artefact is exported, imported, and the
/// imported object is the one used from then on.
pub fn wire_step<E: Eng>(me: &mut Sess<E>, st: &Value, mut ev: Map<String, Value>) -> Option<Value> {
    let enc = s(st, "enc").to_string();
    let name = s(st, "name").to_string();
    let dmg = st["damage"].as_bool().unwrap_or(false);
    let maxs = st["slots"].as_u64().unwrap_or(6) as usize;
    ev.insert("ev".into(), json!("Wire"));
    ev.insert("dam".into(), json!([]));
    macro_rules! go {
        ($x:expr, $slots:expr, $put:expr) => {{
            let x = $x;
            if dmg {
                let d = damaged::<E, _>(&x, &enc, $slots, maxs);
                ev.insert("dam".into(), Value::Array(d));
            }
            if let Some(y) = roundtrip(&x, &enc, &mut ev) {
                $put(me, y);
            }
        }};
    }
    macro_rules! sl {
        ($x:expr) => {
            (Slots::<E>::g1($x), Slots::<E>::g2($x), Slots::<E>::sc($x))
        };
    }
    match s(st, "kind") {
        "gens" => {
            let x = me.gens.clone();
            let p = PreparedEncryptionGens::<E>::from(x.clone());
            let mut sub = Map::new();
            let o = run(|| {
                let b = export(&p, &enc);
                let y: PreparedEncryptionGens<E> = import(&b, &enc)?;
                Ok(export(&y, &enc) == b)
            });
            sub.insert("res".into(), json!(o.tag().0));
            sub.insert("eq".into(), json!(matches!(o, Out::Ok(true))));
            let sl = sl!(&x);
            go!(x, sl, |me: &mut Sess<E>, y| me.gens = y);
            if sub["res"] != "ok" || sub["eq"] != true {
                ev.insert("res".into(), sub["res"].clone());
                ev.insert("eq".into(), sub["eq"].clone());
            }
        }
        "ek" => {
            let x = me.ek.get(&name)?.clone();
            let sl = sl!(&x);
            go!(x, sl, |me: &mut Sess<E>, y| { me.ek.insert(name.clone(), y); })
        }
        "dk" => {
            let x = me.auth.get(&name)?.dk.clone();
            let sl = sl!(&x);
            go!(x, sl, |me: &mut Sess<E>, y| { me.auth.get_mut(&name).unwrap().dk = y; })
        }
        "sk" => {
            let x = me.auth.get(&name)?.sk.clone();
            let sl = sl!(&x);
            go!(x, sl, |me: &mut Sess<E>, y| { me.auth.get_mut(&name).unwrap().sk = y; })
        }
        "party" => {
            let x = me.party.get(&name)?.0.clone();
            let sl = sl!(&x);
            go!(x, sl, |me: &mut Sess<E>, y| { me.party.get_mut(&name).unwrap().0 = y; })
        }
        "pek" => {
            let x = me.party.get(&name)?.1.clone();
            let sl = sl!(&x);
            go!(x, sl, |me: &mut Sess<E>, y| { me.party.get_mut(&name).unwrap().1 = y; })
        }
        "cek" => {
            let x = me.cek.get(&name)?.clone();
            let sl = sl!(&x);
            go!(x, sl, |me: &mut Sess<E>, y| { me.cek.insert(name.clone(), y); })
        }
        "p1" => {
            let x = me.p1.get(&name)?.clone();
            let sl = sl!(&x);
            go!(x, sl, |me: &mut Sess<E>, y| { me.p1.insert(name.clone(), y); })
        }
        "destpk" => {
            let x = me.dest.get(&name)?.1.clone();
            let sl = sl!(&x);
            go!(x, sl, |me: &mut Sess<E>, y| { me.dest.get_mut(&name).unwrap().1 = y; })
        }
        "destsk" => {
            let x = me.dest.get(&name)?.0.clone();
            let sl = sl!(&x);
            go!(x, sl, |me: &mut Sess<E>, y| { me.dest.get_mut(&name).unwrap().0 = y; })
        }
        "ct" => {
            let x = me.ct.get(&name)?.c.clone();
            let sl = sl!(&x);
            go!(x, sl, |me: &mut Sess<E>, y| { me.ct.get_mut(&name).unwrap().c = y; })
        }
        "srs" => {
            let i: usize = name.parse().unwrap();
            let x = me.srs.get(i)?.clone();
            let sl = sl!(&x);
            go!(x, sl, |me: &mut Sess<E>, y: ProvingKey<E>| {
                me.pvk[i] = dist_saver::saver_groth16::prepare_verifying_key::<E>(&y.pk.vk);
                me.srs[i] = y;
                if i == 0 {
                    me.g = dist_saver::saver_groth16::get_gs_for_encryption(&me.srs[0].pk.vk).to_vec();
                }
            })
        }
        k => panic!("plan: wire kind {}", k),
    }
    Some(Value::Object(ev))
}
