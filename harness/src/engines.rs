//! Pairing engines on which the code under test is run.
//!
//! `Toy*`: genuine short Weierstrass curves of small prime order q (13, 257, 40961) over small base
//! fields, with a genuine target group of order q inside F_{P^2}.  The pairing is evaluated as
//! e(aG, bH) = g_T^{ab} from discrete-logarithm tables, so the maps are bilinear and non-degenerate and,
//! because the groups are small, every group element the code produces can be projected to its exponent:
//! the abstract state of the TLA+ specification.
//!
//! `Bls12_381`: the production curve.  Exponents are recovered when the scalars are small ("small" mode).
use ark_ec::{
    pairing::{MillerLoopOutput, Pairing, PairingOutput},
    short_weierstrass::{Affine, Projective, SWCurveConfig},
    AffineRepr, CurveConfig, CurveGroup, Group,
};
use ark_ff::{Field, Fp64, MontBackend, MontConfig, MontFp, One, PrimeField, Zero};
use ark_serialize::*;
use std::collections::HashMap;
use std::fmt::Debug;
use std::sync::OnceLock;

/// Engine with a projection of group elements to exponents.
pub trait Eng: Pairing {
    const NAME: &'static str;
    /// group order if it is a toy engine, 0 for the production curve (exponents are plain integers)
    const Q: i64;
    fn dlog1(p: &Self::G1Affine) -> Option<i64>;
    fn dlog2(p: &Self::G2Affine) -> Option<i64>;
    fn dlogt(p: &PairingOutput<Self>) -> Option<i64>;
    fn scalar_int(s: &Self::ScalarField) -> Option<i64>;
    fn base1() -> Self::G1Affine;
    fn base2() -> Self::G2Affine;
    /// encodings that must not import (compressed form of points outside the group, off the curve ...)
    fn bad_g1() -> Vec<(String, Vec<u8>, Vec<u8>)> {
        vec![]
    }
    fn bad_g2() -> Vec<(String, Vec<u8>, Vec<u8>)> {
        vec![]
    }
}

/// A prepared point is the point itself.
pub struct Prep<C: SWCurveConfig>(pub Affine<C>);
impl<C: SWCurveConfig> Clone for Prep<C> {
    fn clone(&self) -> Self {
        Prep(self.0)
    }
}
impl<C: SWCurveConfig> Debug for Prep<C> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Prep({:?})", self.0)
    }
}
impl<C: SWCurveConfig> PartialEq for Prep<C> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<C: SWCurveConfig> Eq for Prep<C> {}
impl<C: SWCurveConfig> Default for Prep<C> {
    fn default() -> Self {
        Prep(Affine::<C>::generator())
    }
}
impl<C: SWCurveConfig> From<Affine<C>> for Prep<C> {
    fn from(a: Affine<C>) -> Self {
        Prep(a)
    }
}
impl<'a, C: SWCurveConfig> From<&'a Affine<C>> for Prep<C> {
    fn from(a: &'a Affine<C>) -> Self {
        Prep(*a)
    }
}
impl<C: SWCurveConfig> From<Projective<C>> for Prep<C> {
    fn from(a: Projective<C>) -> Self {
        Prep(a.into_affine())
    }
}
impl<'a, C: SWCurveConfig> From<&'a Projective<C>> for Prep<C> {
    fn from(a: &'a Projective<C>) -> Self {
        Prep(a.into_affine())
    }
}
impl<C: SWCurveConfig> Valid for Prep<C> {
    fn check(&self) -> Result<(), SerializationError> {
        self.0.check()
    }
}
impl<C: SWCurveConfig> CanonicalSerialize for Prep<C> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> {
        self.0.serialize_with_mode(w, c)
    }
    fn serialized_size(&self, c: Compress) -> usize {
        self.0.serialized_size(c)
    }
}
impl<C: SWCurveConfig> CanonicalDeserialize for Prep<C> {
    fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        Ok(Prep(Affine::<C>::deserialize_with_mode(r, c, v)?))
    }
}

type Tab = HashMap<Vec<u8>, i64>;
fn key<T: CanonicalSerialize>(p: &T) -> Vec<u8> {
    let mut v = Vec::new();
    p.serialize_uncompressed(&mut v).unwrap();
    v
}
fn build<G: AffineRepr>(q: i64) -> Tab {
    let g = G::generator();
    let mut cur = G::Group::zero();
    let mut t = HashMap::new();
    for i in 0..q {
        t.insert(key(&cur.into_affine()), i);
        cur += g;
    }
    assert!(cur.is_zero(), "generator does not have order q");
    assert_eq!(t.len() as i64, q);
    t
}

macro_rules! toy {
    ($m:ident, $Eng:ident, $name:literal, $q:literal, $qs:literal, $qg:literal,
     $p1:literal, $p1g:literal, $a1:literal, $b1:literal, $x1:literal, $y1:literal,
     $p2:literal, $p2g:literal, $a2:literal, $b2:literal, $x2:literal, $y2:literal,
     $pt:literal, $ptg:literal, $ptn:literal) => {
        pub mod $m {
            use super::*;
            #[derive(MontConfig)]
            #[modulus = $qs]
            #[generator = $qg]
            pub struct FrConfig;
            pub type Fr = Fp64<MontBackend<FrConfig, 1>>;
            #[derive(MontConfig)]
            #[modulus = $p1]
            #[generator = $p1g]
            pub struct F1Config;
            pub type F1 = Fp64<MontBackend<F1Config, 1>>;
            #[derive(MontConfig)]
            #[modulus = $p2]
            #[generator = $p2g]
            pub struct F2Config;
            pub type F2 = Fp64<MontBackend<F2Config, 1>>;
            #[derive(MontConfig)]
            #[modulus = $pt]
            #[generator = $ptg]
            pub struct FtConfig;
            pub type Ft = Fp64<MontBackend<FtConfig, 1>>;
            pub struct Ft2Config;
            impl ark_ff::Fp2Config for Ft2Config {
                type Fp = Ft;
                const NONRESIDUE: Ft = MontFp!("-1");
                const FROBENIUS_COEFF_FP2_C1: &'static [Ft] = &[Ft::ONE, MontFp!("-1")];
            }
            pub type Ft2 = ark_ff::Fp2<Ft2Config>;

            #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
            pub struct C1;
            impl CurveConfig for C1 {
                type BaseField = F1;
                type ScalarField = Fr;
                const COFACTOR: &'static [u64] = &[1];
                const COFACTOR_INV: Fr = Fr::ONE;
            }
            impl SWCurveConfig for C1 {
                const COEFF_A: F1 = MontFp!($a1);
                const COEFF_B: F1 = MontFp!($b1);
                const GENERATOR: Affine<C1> = Affine::new_unchecked(MontFp!($x1), MontFp!($y1));
            }
            #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
            pub struct C2;
            impl CurveConfig for C2 {
                type BaseField = F2;
                type ScalarField = Fr;
                const COFACTOR: &'static [u64] = &[1];
                const COFACTOR_INV: Fr = Fr::ONE;
            }
            impl SWCurveConfig for C2 {
                const COEFF_A: F2 = MontFp!($a2);
                const COEFF_B: F2 = MontFp!($b2);
                const GENERATOR: Affine<C2> = Affine::new_unchecked(MontFp!($x2), MontFp!($y2));
            }

            struct Tabs {
                t1: Tab,
                t2: Tab,
                tt: Tab,
                gt: Ft2,
            }
            fn tabs() -> &'static Tabs {
                static T: OnceLock<Tabs> = OnceLock::new();
                T.get_or_init(|| {
                    let pt: u64 = $ptn;
                    let q: u64 = $q;
                    let mut i = 2u64;
                    let gt = loop {
                        let z = Ft2::new(Ft::from(i), Ft::one());
                        let w = z.pow([pt - 1]).pow([(pt + 1) / q]);
                        if !w.is_one() {
                            break w;
                        }
                        i += 1;
                    };
                    assert!(gt.pow([q]).is_one());
                    let mut tt = HashMap::new();
                    let mut cur = Ft2::one();
                    for i in 0..$q {
                        tt.insert(key(&cur), i as i64);
                        cur *= gt;
                    }
                    Tabs {
                        t1: build::<Affine<C1>>($q),
                        t2: build::<Affine<C2>>($q),
                        tt,
                        gt,
                    }
                })
            }

            #[derive(Clone, Copy, Debug, PartialEq, Eq)]
            pub struct $Eng;
            impl Pairing for $Eng {
                type BaseField = F1;
                type ScalarField = Fr;
                type G1 = Projective<C1>;
                type G1Affine = Affine<C1>;
                type G1Prepared = Prep<C1>;
                type G2 = Projective<C2>;
                type G2Affine = Affine<C2>;
                type G2Prepared = Prep<C2>;
                type TargetField = Ft2;
                fn multi_miller_loop(
                    a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>,
                    b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>,
                ) -> MillerLoopOutput<Self> {
                    let a: Vec<Self::G1Prepared> = a.into_iter().map(|x| x.into()).collect();
                    let b: Vec<Self::G2Prepared> = b.into_iter().map(|x| x.into()).collect();
                    // the production engine zips with zip_eq
                    assert_eq!(a.len(), b.len(), "pairing of vectors of different length");
                    let q: i64 = $q;
                    let mut e = 0i64;
                    for (x, y) in a.iter().zip(b.iter()) {
                        e = (e + tabs().t1[&key(&x.0)] * tabs().t2[&key(&y.0)]) % q;
                    }
                    MillerLoopOutput(tabs().gt.pow([e as u64]))
                }
                fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
                    Some(PairingOutput(m.0))
                }
            }
            impl Eng for $Eng {
                const NAME: &'static str = $name;
                const Q: i64 = $q;
                fn dlog1(p: &Self::G1Affine) -> Option<i64> {
                    tabs().t1.get(&key(p)).copied()
                }
                fn dlog2(p: &Self::G2Affine) -> Option<i64> {
                    tabs().t2.get(&key(p)).copied()
                }
                fn dlogt(p: &PairingOutput<Self>) -> Option<i64> {
                    tabs().tt.get(&key(&p.0)).copied()
                }
                fn scalar_int(s: &Fr) -> Option<i64> {
                    Some(s.into_bigint().0[0] as i64)
                }
                fn base1() -> Self::G1Affine {
                    Affine::<C1>::generator()
                }
                fn base2() -> Self::G2Affine {
                    Affine::<C2>::generator()
                }
            }
        }
    };
}

toy!(q13, Toy13, "q13", 13, "13", "2",
     "11", "2", "4", "7", "1", "1",
     "19", "2", "8", "8", "1", "6",
     "1048891", "3", 1048891);
toy!(q257, Toy257, "q257", 257, "257", "3",
     "271", "6", "250", "40", "0", "103",
     "269", "2", "144", "246", "0", "28",
     "1051643", "2", 1051643);
toy!(q40961, Toy40961, "q40961", 40961, "40961", "3",
     "41081", "3", "29605", "40656", "0", "11905",
     "40801", "13", "25150", "21131", "1", "8397",
     "1966127", "5", 1966127);

pub use ark_bls12_381::Bls12_381;

/// Baby-step giant-step tables for exponents of small absolute value on BLS12-381.
struct SmallTab<G: AffineRepr> {
    baby: HashMap<u64, i64>, // x-coordinate hash -> k  (0 < k <= BABY)
    giant: G::Group,
}
const BABY: i64 = 1 << 15;
const GIANT: i64 = 1 << 9;

fn xhash<G: AffineRepr>(p: &G) -> u64 {
    // serialization of x only
    let (x, _) = p.xy().unwrap();
    let mut v = Vec::new();
    x.serialize_uncompressed(&mut v).unwrap();
    let mut h = 0xcbf29ce484222325u64;
    for b in v {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
fn small_tab<G: AffineRepr>() -> SmallTab<G> {
    let g = G::generator().into_group();
    let mut pts = Vec::with_capacity(BABY as usize);
    let mut cur = g;
    for _ in 0..BABY {
        pts.push(cur);
        cur += g;
    }
    let aff = <G::Group as CurveGroup>::normalize_batch(&pts);
    let mut baby = HashMap::with_capacity(BABY as usize);
    for (i, p) in aff.iter().enumerate() {
        baby.insert(xhash::<<G::Group as CurveGroup>::Affine>(p), i as i64 + 1);
    }
    SmallTab { baby, giant: g.mul_bigint([(2 * BABY) as u64]) }
}
fn small_dlog<G: AffineRepr>(t: &SmallTab<G>, p: &G) -> Option<i64> {
    let g = G::generator().into_group();
    // p = k*2B + j, |j| <= B, |k| <= GIANT; candidates p -/+ k*2B
    let check = |c: i64| -> bool {
        let mut r = g.mul_bigint([c.unsigned_abs()]);
        if c < 0 {
            r = -r;
        }
        r.into_affine() == *p
    };
    if p.is_zero() {
        return Some(0);
    }
    let mut up = p.into_group();
    let mut dn = p.into_group();
    let step = 16;
    let mut k = 0i64;
    while k <= GIANT {
        let mut pts = vec![];
        let mut ks = vec![];
        for _ in 0..step {
            pts.push(dn);
            ks.push(k);
            if k > 0 {
                pts.push(up);
                ks.push(-k);
            }
            dn -= t.giant;
            up += t.giant;
            k += 1;
        }
        let aff = <G::Group as CurveGroup>::normalize_batch(&pts);
        for (a, kk) in aff.iter().zip(ks) {
            let off = kk * 2 * BABY;
            if a.is_zero() {
                if check(off) {
                    return Some(off);
                }
                continue;
            }
            if let Some(j) = t.baby.get(&xhash::<<G::Group as CurveGroup>::Affine>(a)) {
                for c in [off + j, off - j] {
                    if check(c) {
                        return Some(c);
                    }
                }
            }
        }
    }
    None
}

impl Eng for Bls12_381 {
    const NAME: &'static str = "bls";
    const Q: i64 = 0;
    fn dlog1(p: &Self::G1Affine) -> Option<i64> {
        static T: OnceLock<SmallTab<ark_bls12_381::G1Affine>> = OnceLock::new();
        small_dlog(T.get_or_init(small_tab), p)
    }
    fn dlog2(p: &Self::G2Affine) -> Option<i64> {
        static T: OnceLock<SmallTab<ark_bls12_381::G2Affine>> = OnceLock::new();
        small_dlog(T.get_or_init(small_tab), p)
    }
    fn dlogt(_p: &PairingOutput<Self>) -> Option<i64> {
        None
    }
    fn scalar_int(s: &ark_bls12_381::Fr) -> Option<i64> {
        let lim = 1u64 << 30;
        let small = |b: [u64; 4]| b[1] == 0 && b[2] == 0 && b[3] == 0 && b[0] < lim;
        let b = s.into_bigint().0;
        if small(b) {
            return Some(b[0] as i64);
        }
        let n = (-*s).into_bigint().0;
        if small(n) {
            return Some(-(n[0] as i64));
        }
        None
    }
    fn base1() -> Self::G1Affine {
        ark_bls12_381::G1Affine::generator()
    }
    fn base2() -> Self::G2Affine {
        ark_bls12_381::G2Affine::generator()
    }
    fn bad_g1() -> Vec<(String, Vec<u8>, Vec<u8>)> {
        bad_points::<ark_bls12_381::g1::Config>()
    }
    fn bad_g2() -> Vec<(String, Vec<u8>, Vec<u8>)> {
        bad_points::<ark_bls12_381::g2::Config>()
    }
}

/// compressed encodings of x-coordinates without a point, and of points outside the prime-order subgroup
fn bad_points<C: SWCurveConfig>() -> Vec<(String, Vec<u8>, Vec<u8>)> {
    let mut out = vec![];
    let mut have = (false, false);
    let mut x = C::BaseField::one();
    // a valid encoding to borrow the flag layout from
    while !(have.0 && have.1) {
        x += C::BaseField::one();
        match Affine::<C>::get_point_from_x_unchecked(x, false) {
            Some(p) => {
                if !have.0 && !p.is_in_correct_subgroup_assuming_on_curve() {
                    have.0 = true;
                    let mut v = vec![];
                    p.serialize_compressed(&mut v).unwrap();
                    let mut u = vec![];
                    p.serialize_uncompressed(&mut u).unwrap();
                    out.push(("offsubgroup".to_string(), v, u));
                }
            }
            None => {
                if !have.1 {
                    have.1 = true;
                    let p = Affine::<C>::new_unchecked(x, C::BaseField::one());
                    let mut v = vec![];
                    p.serialize_compressed(&mut v).unwrap();
                    let mut u = vec![];
                    p.serialize_uncompressed(&mut u).unwrap();
                    out.push(("offcurve".to_string(), v, u));
                }
            }
        }
    }
    out
}
