//! Relations an outsider can see: equalities between combinations, with small public coefficients, of the
//! published group elements of a session.
use crate::engines::Eng;
use crate::session::*;
use ark_ec::{pairing::{Pairing, PairingOutput}, AffineRepr, CurveGroup};
use ark_ff::PrimeField;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet};

/// a published element: kind, name, index, and the position of the chunk it carries (0 = none)
pub type El = (&'static str, String, usize);

pub fn rel_step<E: Eng>(me: &mut Sess<E>, st: &Value, mut ev: Map<String, Value>) -> Option<Value> {
    let pos: Vec<usize> = st["pos"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).filter(|i| *i <= me.n).collect();
    let kmax = st["k"].as_u64().unwrap_or(2);
    let mut els: Vec<(El, E::G1Affine, usize)> = vec![];
    {
        let mut put = |k: &'static str, n: &str, i: usize, p: E::G1Affine, chunk: usize| els.push(((k, n.to_string(), i), p, chunk));
        let skip: HashSet<String> = st["skip"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
        fn sorted<'a, T>(m: &'a HashMap<String, T>, skip: &HashSet<String>) -> Vec<(&'a String, &'a T)> {
            let mut v: Vec<_> = m.iter().filter(|x| !skip.contains(x.0)).collect();
            v.sort_by(|a, b| a.0.cmp(b.0));
            v
        }
        put("G", "", 0, me.gens.G, 0);
        put("D", "", 0, me.delta, 0);
        put("C", "", 0, me.gamma, 0);
        for &i in &pos {
            put("g", "", i, me.g[i - 1], 0);
        }
        for (n, c) in sorted(&me.ct, &skip) {
            put("ct", n, 0, c.c.X_r, 0);
            for &i in pos.iter().filter(|i| **i <= c.c.enc_chunks.len()) {
                put("ct", n, i, c.c.enc_chunks[i - 1], i);
            }
            put("ct", n, me.n + 1, c.c.commitment, 0);
        }
        for (n, (w, gr)) in sorted(&me.share, &skip) {
            put("share", n, 0, *gr, 0);
            for &i in pos.iter().filter(|i| **i <= w.len()) {
                put("share", n, i, w[i - 1], i);
            }
        }
        for (n, r) in sorted(&me.rct, &skip) {
            for &i in [0].iter().chain(pos.iter()).filter(|i| **i < r.len()) {
                put("rct", n, i, r[i], i);
            }
        }
        for (n, k) in sorted(&me.ek, &skip) {
            // columns 0 X_0, i X_i, n+i Y_i, 2n+1 P_1, 2n+2 P_2
            put("ek", n, 0, k.X_0, 0);
            for &i in &pos {
                put("ek", n, i, k.X[i - 1], 0);
                put("ek", n, me.n + i, k.Y[i - 1], 0);
            }
            put("ek", n, 2 * me.n + 1, k.P_1, 0);
            put("ek", n, 2 * me.n + 2, k.P_2, 0);
        }
        for (n, k) in sorted(&me.party, &skip) {
            for &i in &pos {
                put("pek", n, i, k.1.X[i - 1], 0);
                put("pek", n, me.n + i, k.1.Y[i - 1], 0);
            }
            put("pek", n, 2 * me.n + 2, k.1.P_2, 0);
        }
        for (n, p) in sorted(&me.p1, &skip) {
            put("p1", n, 0, p.P_1, 0);
        }
        for (n, d) in sorted(&me.dest, &skip) {
            put("dest", n, 0, d.1.pk, 0);
        }
    }
    if st["pairing"].as_bool().unwrap_or(false) {
        return Some(pairings(me, st, ev, &els, &pos, kmax));
    }
    // one element, possibly minus a guessed chunk value: a term; published elements that are the identity are relations
    // of their own
    type T = BTreeMap<usize, i64>; // element index -> coefficient
    let gpos: HashMap<usize, usize> = els.iter().enumerate().filter(|(_, e)| e.0 .0 == "g").map(|(k, e)| (e.0 .2, k)).collect();
    let mut terms: Vec<(T, E::G1)> = vec![];
    for (k, (_, p, chunk)) in els.iter().enumerate() {
        for a in 0..=(if *chunk > 0 { kmax } else { 0 }) {
            let mut t = T::new();
            t.insert(k, 1);
            let mut v = p.into_group();
            if a > 0 {
                t.insert(gpos[chunk], -(a as i64));
                v -= E::G1Affine::mul_bigint(&me.g[chunk - 1], E::ScalarField::from(a).into_bigint());
            }
            terms.push((t, v));
        }
    }
    let add = |x: &T, y: &T, s: i64| -> T {
        let mut r = x.clone();
        for (k, c) in y {
            *r.entry(*k).or_insert(0) += s * c;
        }
        r.retain(|_, c| *c != 0);
        r
    };
    // sums and differences of up to two terms, by value
    let mut pool: Vec<(T, E::G1)> = vec![(T::new(), E::G1::default())];
    let pairs = st["pairs"].as_bool().unwrap_or(true);
    for i in 0..terms.len() {
        pool.push(terms[i].clone());
        if pairs {
            for j in 0..i {
                pool.push((add(&terms[i].0, &terms[j].0, -1), terms[i].1 - terms[j].1));
                pool.push((add(&terms[i].0, &terms[j].0, 1), terms[i].1 + terms[j].1));
            }
            pool.push((add(&terms[i].0, &terms[i].0, 1), terms[i].1 + terms[i].1));
        }
    }
    let vals = E::G1::normalize_batch(&pool.iter().map(|x| x.1).collect::<Vec<_>>());
    // classes of equal value up to sign
    let mut classes: HashMap<Vec<u8>, Vec<(usize, i64)>> = HashMap::new();
    for (k, v) in vals.iter().enumerate() {
        let (a, b) = (ser(v), ser(&neg(v)));
        let s = if a <= b { 1 } else { -1 };
        classes.entry(if a <= b { a } else { b }).or_default().push((k, s));
    }
    let mut found: HashSet<Vec<(usize, i64)>> = HashSet::new();
    let mut put = |t: T| {
        if t.is_empty() || t.len() > 8 {
            return;
        }
        let s = if *t.values().next().unwrap() < 0 { -1 } else { 1 };
        found.insert(t.into_iter().map(|(k, c)| (k, s * c)).collect());
    };
    for c in classes.values() {
        let (k0, s0) = c[0];
        if vals[k0].is_zero() {
            for (k, _) in c {
                put(pool[*k].0.clone());
            }
            continue;
        }
        for (k, s) in &c[1..] {
            put(add(&pool[k0].0, &pool[*k].0, -(s0 * s)));
        }
    }
    let mut rels: Vec<_> = found.into_iter().collect();
    // fewest elements first; a relation whose elements all belong to a shorter one adds little
    rels.sort_by_key(|r| (r.len(), r.clone()));
    let max = st["max"].as_u64().unwrap_or(4000) as usize;
    ev.insert("ev".into(), json!("Rel"));
    ev.insert("res".into(), json!("ok"));
    ev.insert("elements".into(), json!(els.len()));
    ev.insert("candidates".into(), json!(pool.len()));
    ev.insert("found".into(), json!(rels.len()));
    ev.insert("rels".into(), Value::Array(rels.iter().take(max).map(|r| {
        Value::Array(r.iter().map(|(k, c)| json!([els[*k].0 .0, els[*k].0 .1, els[*k].0 .2, c])).collect())
    }).collect()));
    Some(Value::Object(ev))
}

/// The same with pairings: products of up to three pairings of a published element (possibly minus a guessed chunk
/// value) of the first group with one of the second group.
fn pairings<E: Eng>(me: &Sess<E>, st: &Value, mut ev: Map<String, Value>, els: &[(El, E::G1Affine, usize)], pos: &[usize], kmax: u64) -> Value {
    use rayon::prelude::*;
    let mut g2: Vec<(El, E::G2Affine)> = vec![(("H", String::new(), 0), me.gens.H)];
    fn sorted<'a, T>(m: &'a HashMap<String, T>) -> Vec<(&'a String, &'a T)> {
        let mut v: Vec<_> = m.iter().collect();
        v.sort_by(|a, b| a.0.cmp(b.0));
        v
    }
    let zero_and = |n: usize| [0].iter().chain(pos.iter()).copied().filter(move |i| *i < n).collect::<Vec<_>>();
    for (n, k) in sorted(&me.ek) {
        for i in zero_and(k.Z.len()) {
            g2.push((("ekZ", n.clone(), i), k.Z[i]));
        }
    }
    for (n, k) in sorted(&me.party) {
        for i in zero_and(k.1.Z.len()) {
            g2.push((("pekZ", n.clone(), i), k.1.Z[i]));
        }
    }
    for (n, a) in sorted(&me.auth) {
        let k = &a.dk;
        g2.push((("dk", n.clone(), 0), k.V_0));
        for &i in pos {
            g2.push((("dk", n.clone(), i), k.V_1[i - 1]));
            g2.push((("dk", n.clone(), me.n + i), k.V_2[i - 1]));
        }
    }
    // pairs of elements; the guess is a multiple of the pairing of the generator with the same second element
    type T = BTreeMap<(usize, usize), i64>;
    let gpos: HashMap<usize, usize> = els.iter().enumerate().filter(|(_, e)| e.0 .0 == "g").map(|(k, e)| (e.0 .2, k)).collect();
    let cells: Vec<(usize, usize)> = (0..els.len()).flat_map(|a| (0..g2.len()).map(move |b| (a, b))).collect();
    let val: HashMap<(usize, usize), PairingOutput<E>> =
        cells.par_iter().map(|(a, b)| ((*a, *b), <E as Pairing>::pairing(els[*a].1, g2[*b].1))).collect();
    let mut terms: Vec<(T, PairingOutput<E>)> = vec![];
    for &(a, b) in &cells {
        let chunk = els[a].2;
        for k in 0..=(if chunk > 0 { kmax } else { 0 }) {
            let mut t = T::from([((a, b), 1)]);
            let mut v = val[&(a, b)];
            if k > 0 {
                t.insert((gpos[&chunk], b), -(k as i64));
                for _ in 0..k {
                    v -= val[&(gpos[&chunk], b)];
                }
            }
            terms.push((t, v));
        }
    }
    let key = |v: &PairingOutput<E>| {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        v.0.hash(&mut h);
        h.finish()
    };
    // single terms by value, with their sign
    let mut one: HashMap<u64, Vec<(usize, i64)>> = HashMap::new();
    for (k, (_, v)) in terms.iter().enumerate() {
        one.entry(key(v)).or_default().push((k, 1));
        one.entry(key(&-*v)).or_default().push((k, -1));
    }
    let zero = key(&PairingOutput::<E>::default());
    // x = 0, x = +-y, x +- y = +-z
    let hits: Vec<Vec<(usize, i64)>> = (0..terms.len())
        .into_par_iter()
        .flat_map_iter(|i| {
            let mut r: Vec<Vec<(usize, i64)>> = vec![];
            let x = terms[i].1;
            if key(&x) == zero {
                r.push(vec![(i, 1)]);
            }
            for (j, s) in &one[&key(&x)] {
                if *j < i {
                    r.push(vec![(i, 1), (*j, -s)]);
                }
            }
            for j in 0..=i {
                for s in [1, -1] {
                    if j == i && s < 0 {
                        continue;
                    }
                    let y = if s > 0 { x + terms[j].1 } else { x - terms[j].1 };
                    if let Some(z) = one.get(&key(&y)) {
                        for (k, t) in z {
                            if *k <= j {
                                r.push(vec![(i, 1), (j, s), (*k, -t)]);
                            }
                        }
                    }
                }
            }
            r
        })
        .collect();
    let mut found: HashSet<Vec<((usize, usize), i64)>> = HashSet::new();
    for h in hits {
        let mut t = T::new();
        for (k, s) in h {
            for (c, x) in &terms[k].0 {
                *t.entry(*c).or_insert(0) += s * x;
            }
        }
        t.retain(|_, c| *c != 0);
        // one element of the second group: a relation of the first group, examined there
        if t.is_empty() || t.keys().all(|c| c.1 == t.keys().next().unwrap().1) {
            continue;
        }
        // relations of the second group, once
        if t.keys().all(|c| c.0 == t.keys().next().unwrap().0) && t.keys().next().unwrap().0 != 0 {
            continue;
        }
        let s = if *t.values().next().unwrap() < 0 { -1 } else { 1 };
        found.insert(t.into_iter().map(|(k, c)| (k, s * c)).collect());
    }
    let mut rels: Vec<_> = found.into_iter().collect();
    rels.sort_by_key(|r| (r.len(), r.clone()));
    let max = st["max"].as_u64().unwrap_or(6000) as usize;
    ev.insert("ev".into(), json!("Rel"));
    ev.insert("res".into(), json!("ok"));
    ev.insert("elements".into(), json!(cells.len()));
    ev.insert("candidates".into(), json!(terms.len() * terms.len()));
    ev.insert("found".into(), json!(rels.len()));
    ev.insert("rels".into(), Value::Array(rels.iter().take(max).map(|r| {
        Value::Array(r.iter().map(|((a, b), c)| {
            let (x, y) = (&els[*a].0, &g2[*b].0);
            json!([x.0, x.1, x.2, c, y.0, y.1, y.2])
        }).collect())
    }).collect()));
    Value::Object(ev)
}
