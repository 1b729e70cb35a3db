//! C31: the shipped group, used directly through the Group trait, against
//! Edwards25519 arithmetic written from its definition on big integers.
use crate::core::*;
use crate::ensure;
use crate::spake_mon::ref_pw_scalar;
use curve25519_dalek::edwards::EdwardsPoint;
use curve25519_dalek::scalar::Scalar;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use rand_core::{CryptoRng, RngCore};
use spake2::{Ed25519Group, Group};
use std::sync::OnceLock;

type G = Ed25519Group;
type N = BigUint;

struct Curve {
    p: N,
    l: N,
    d: N,
    root: N, // of -1
    base: Point,
}
/// affine coordinates
#[derive(Clone, Debug, PartialEq, Eq)]
struct Point(N, N);

fn curve() -> &'static Curve {
    static C: OnceLock<Curve> = OnceLock::new();
    C.get_or_init(|| {
        let p = (N::one() << 255) - 19u32;
        let l = (N::one() << 252) + N::parse_bytes(b"27742317777372353535851937790883648493", 10).unwrap();
        let inv = |a: &N| a.modpow(&(&p - 2u32), &p);
        let d = (&p - 121665u32) * inv(&N::from(121666u32)) % &p;
        let root = N::from(2u32).modpow(&((&p - 1u32) / 4u32), &p);
        let y = N::from(4u32) * inv(&N::from(5u32)) % &p;
        let x = x_of(&p, &d, &root, &y, false).unwrap();
        Curve { base: Point(x, y), p, l, d, root }
    })
}
/// the x coordinate of that parity belonging to y
fn x_of(p: &N, d: &N, root: &N, y: &N, odd: bool) -> Option<N> {
    let yy = y * y % p;
    let (u, v) = ((&yy + p - 1u32) % p, (d * &yy + 1u32) % p);
    let x2 = u * v.modpow(&(p - 2u32), p) % p;
    let mut x = x2.modpow(&((p + 3u32) / 8u32), p);
    if &x * &x % p != x2 {
        x = x * root % p;
    }
    if &x * &x % p != x2 {
        return None;
    }
    if x.bit(0) != odd {
        x = (p - x) % p;
    }
    Some(x)
}
impl Point {
    fn zero() -> Self {
        Point(N::zero(), N::one())
    }
    fn encode(&self) -> [u8; 32] {
        let mut o = [0u8; 32];
        let b = self.1.to_bytes_le();
        o[..b.len()].copy_from_slice(&b);
        o[31] |= (self.0.bit(0) as u8) << 7;
        o
    }
    /// any y below 2^255, any sign bit
    fn decode(b: &[u8; 32]) -> Option<Self> {
        let c = curve();
        let mut b = *b;
        let odd = b[31] >> 7 == 1;
        b[31] &= 0x7f;
        let y = N::from_bytes_le(&b) % &c.p;
        Some(Point(x_of(&c.p, &c.d, &c.root, &y, odd)?, y))
    }
    fn add(&self, o: &Self) -> Self {
        Proj::from(self).add(&Proj::from(o)).affine()
    }
    fn neg(&self) -> Self {
        Point((&curve().p - &self.0) % &curve().p, self.1.clone())
    }
    fn mul(&self, k: &N) -> Self {
        let (mut r, b) = (Proj::from(&Self::zero()), Proj::from(self));
        for i in (0..k.bits()).rev() {
            r = r.add(&r);
            if k.bit(i) {
                r = r.add(&b);
            }
        }
        r.affine()
    }
}
struct Proj(N, N, N);
impl Proj {
    fn from(p: &Point) -> Self {
        Proj(p.0.clone(), p.1.clone(), N::one())
    }
    /// the complete addition law: no case is special
    fn add(&self, o: &Self) -> Self {
        let (p, d) = (&curve().p, &curve().d);
        let a = &self.2 * &o.2 % p;
        let b = &a * &a % p;
        let c = &self.0 * &o.0 % p;
        let dd = &self.1 * &o.1 % p;
        let e = d * (&c * &dd % p) % p;
        let f = (&b + p - &e) % p;
        let g = (&b + &e) % p;
        let x = &a * &f % p * ((&self.0 + &self.1) * (&o.0 + &o.1) % p + p + p - &c - &dd) % p;
        let y = &a * &g % p * (&dd + &c) % p;
        Proj(x, y, f * g % p)
    }
    fn affine(&self) -> Point {
        let p = &curve().p;
        let z = self.2.modpow(&(p - 2u32), p);
        Point(&self.0 * &z % p, &self.1 * &z % p)
    }
}

fn int(s: &Scalar) -> N {
    N::from_bytes_le(s.as_bytes())
}
fn small(k: u64) -> Scalar {
    Scalar::from(k)
}
fn scalar(r: &mut Prng) -> Scalar {
    match r.below(9) {
        0 => Scalar::ZERO,
        1 => Scalar::ONE,
        2 => -Scalar::ONE,
        3 => small(r.u64() % 16),
        4 => -small(r.u64() % 16),
        5 => {
            let mut b = [0u8; 32];
            b[r.below(31)] = 1 << r.below(8);
            Scalar::from_bytes_mod_order(b)
        }
        _ => Scalar::from_bytes_mod_order_wide(&r.arr()),
    }
}
/// an encoding of some point of the curve
fn encoding(r: &mut Prng) -> [u8; 32] {
    let c = curve();
    match r.below(8) {
        // of the small subgroup, and noncanonical ones
        0 | 1 => {
            let t = torsion();
            t[r.below(t.len())].encode()
        }
        2 => {
            let mut b = [0xffu8; 32];
            b[0] = 0xed + (r.u64() % 19) as u8;
            b[31] = if r.chance(2) { 0xff } else { 0x7f };
            b
        }
        3 => {
            let mut b = [0u8; 32];
            b[0] = r.u64() as u8;
            b[31] = if r.chance(2) { 0x80 } else { 0 };
            b
        }
        4 => c.base.mul(&int(&scalar(r))).encode(),
        5 => {
            let t = torsion();
            let s = Scalar::from_bytes_mod_order_wide(&r.arr());
            c.base.mul(&int(&s)).add(&t[r.below(t.len())]).encode()
        }
        _ => r.arr(),
    }
}
/// the points of order 1, 2, 4 and 8
fn torsion() -> &'static [Point] {
    static T: OnceLock<Vec<Point>> = OnceLock::new();
    T.get_or_init(|| {
        let c = curve();
        let mut b = [0u8; 32];
        let g = loop {
            b[0] += 1;
            if let Some(q) = Point::decode(&b) {
                let q = q.mul(&c.l);
                if q.mul(&N::from(4u32)) != Point::zero() {
                    break q;
                }
            }
        };
        (0..8u32).map(|k| g.mul(&N::from(k))).collect()
    })
}
/// a point the group decoded, and what it is
fn point(r: &mut Prng) -> Option<(EdwardsPoint, Point, [u8; 32])> {
    for _ in 0..40 {
        let b = encoding(r);
        if let Some(want) = Point::decode(&b) {
            return sut(|| G::bytes_to_element(&b)).map(|e| (e, want, b));
        }
    }
    None
}
fn same(e: &EdwardsPoint, want: &Point, d: &dyn Fn() -> String) -> R {
    let got = sut(|| G::element_to_bytes(e));
    ensure!(got == want.encode(), "{} where Edwards25519 has {}: {}", hex(&got), hex(&want.encode()), d());
    Ok(())
}
/// hands out given bytes, over and over
struct Given(Vec<u8>, usize);
impl RngCore for Given {
    fn next_u32(&mut self) -> u32 {
        rand_core::impls::next_u32_via_fill(self)
    }
    fn next_u64(&mut self) -> u64 {
        rand_core::impls::next_u64_via_fill(self)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.0[self.1 % self.0.len()];
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Given {}

pub fn c31(x: &mut Ctx) {
    x.rule("an evaluation is one operation of the shipped group compared with Edwards25519 arithmetic on big integers; distinct by operands");
    x.stage("decoding", 12_000, 400_000, |c| {
        let b = encoding(&mut c.rng);
        let d = || format!("decoding {}", hex(&b));
        let got = sut(|| G::bytes_to_element(&b));
        match (got, Point::decode(&b)) {
            (Some(e), Some(w)) => {
                same(&e, &w, &d)?;
                c.obs.count(if w.encode() == b { "canonical encodings decoded" } else { "other encodings decoded" });
            }
            (None, None) => c.obs.count("encodings of no point refused"),
            (g, w) => return Err(format!("answered {g:?} where {w:?} was due: {}", d())),
        }
        c.obs.seen(&b);
        c.obs.sample(d);
        Ok(())
    });
    x.stage("lengths", 60, 600, |c| {
        let (_, _, b) = point(&mut c.rng).ok_or("a point was not decoded")?;
        for n in (0..100).chain([127, 128, 255, 256, 288, 544, 1000, 65536, 65568]) {
            let mut w: Vec<u8> = if c.rng.chance(2) { b.to_vec() } else { [0; 32].to_vec() };
            w.resize(n, c.rng.u64() as u8 * (n % 2) as u8);
            c.obs.evals += 1;
            if n == 32 {
                continue;
            }
            ensure!(sut(|| G::bytes_to_element(&w)).is_none(), "{n} bytes are decoded as an element: {}", hex(&w));
            c.obs.count("encodings of another length refused");
            c.obs.seen(&[&b[..], &(n as u32).to_le_bytes()].concat());
        }
        Ok(())
    });
    x.stage("arithmetic", 2500, 80_000, |c| {
        let (p, rp, bp) = point(&mut c.rng).ok_or("a point was not decoded")?;
        let (q, rq, bq) = match c.rng.below(5) {
            0 => (p, rp.clone(), bp),
            1 => {
                let n = rp.neg();
                let b = n.encode();
                (sut(|| G::bytes_to_element(&b)).ok_or("the negative of a point is not decoded")?, n, b)
            }
            _ => point(&mut c.rng).ok_or("a point was not decoded")?,
        };
        let (s, t) = (scalar(&mut c.rng), scalar(&mut c.rng));
        let d = || format!("P {} Q {} s {} t {}", hex(&bp), hex(&bq), hex(s.as_bytes()), hex(t.as_bytes()));
        same(&sut(|| G::add(&p, &q)), &rp.add(&rq), &|| format!("P + Q: {}", d()))?;
        let sp = sut(|| G::scalarmult(&p, &s));
        let rsp = rp.mul(&int(&s));
        same(&sp, &rsp, &|| format!("sP: {}", d()))?;
        same(&sut(|| G::basepoint_mult(&s)), &curve().base.mul(&int(&s)), &|| format!("sB: {}", d()))?;
        let n = sut(|| G::scalar_neg(&s));
        ensure!((int(&n) + int(&s)) % &curve().l == N::zero() && int(&n) < curve().l, "-s is {}: {}", hex(n.as_bytes()), d());
        // results are operands like any other
        let st = sut(|| G::scalarmult(&sp, &t));
        same(&st, &rsp.mul(&int(&t)), &|| format!("t(sP): {}", d()))?;
        same(&sut(|| G::add(&st, &p)), &rsp.mul(&int(&t)).add(&rp), &|| format!("t(sP) + P: {}", d()))?;
        let enc = sut(|| G::element_to_bytes(&st));
        ensure!(enc.len() == G::element_length(), "an element encodes to {} bytes: {}", enc.len(), d());
        let back = sut(|| G::bytes_to_element(&enc)).ok_or_else(|| format!("an encoded element is not decoded: {}", d()))?;
        ensure!(back == st, "decoding an encoded element gives another: {}", d());
        c.obs.evals += 7;
        c.obs.count("operands compared");
        if rp == rq {
            c.obs.count("doublings");
        }
        if rp.add(&rq) == Point::zero() {
            c.obs.count("sums that vanish");
        }
        if rp.mul(&curve().l) != Point::zero() {
            c.obs.count("operands outside the prime-order subgroup");
        }
        c.obs.seen(&[&bp[..], &bq, s.as_bytes(), t.as_bytes()].concat());
        c.obs.sample(d);
        Ok(())
    });
    x.stage("scalars", 6000, 200_000, |c| {
        let pw = c.rng.hostile(400);
        let got = sut(|| G::hash_to_scalar(&pw));
        ensure!(got == ref_pw_scalar(&pw), "the scalar of {} is {}", hex(&pw), hex(got.as_bytes()));
        // as wide as the generator's output allows, and a function of it
        let mut b = c.rng.bytes(64);
        let s = sut(|| G::random_scalar(&mut Given(b.clone(), 0)));
        ensure!(int(&s) < curve().l, "a random scalar is not reduced: {}", hex(s.as_bytes()));
        ensure!(sut(|| G::random_scalar(&mut Given(b.clone(), 0))) == s, "the same bytes give another scalar: {}", hex(&b));
        let at = c.rng.below(32);
        b[at] ^= 0xff;
        ensure!(sut(|| G::random_scalar(&mut Given(b.clone(), 0))) != s, "byte {at} of the generator does not matter: {}", hex(&b));
        c.obs.evals += 2;
        c.obs.count("scalars compared");
        c.obs.seen(&[&pw[..], &b].concat());
        Ok(())
    });
    x.stage_n("constants", 1, |c| {
        let mut all = vec![];
        for (n, e, w) in [("M", sut(G::const_m), "15cfd18e385952982b6a8f8c7854963b58e34388c8e6dae891db756481a02312"), ("N", sut(G::const_n), "f04f2e7eb734b2a8f8b472eaf9c3c632576ac64aea650b496a8a20ff00e583c3"), ("S", sut(G::const_s), "6f00dae87c1be1a73b5922ef431cd8f57879569c222d22b1cd71e8546ab8e6f1")] {
            let b = sut(|| G::element_to_bytes(&e));
            ensure!(hex(&b) == w, "the constant {n} is {}", hex(&b));
            let r = Point::decode(&b.clone().try_into().unwrap()).ok_or("a constant is no point")?;
            ensure!(r != Point::zero() && r.mul(&curve().l) == Point::zero(), "the constant {n} is not of prime order");
            all.push(b);
            c.obs.count("constants compared");
            c.obs.seen(w.as_bytes());
        }
        ensure!(sut(G::element_length) == 32, "elements of {} bytes", G::element_length());
        ensure!(sut(G::name) == "Ed25519", "the group is called {}", G::name());
        Ok(())
    });
    x.require(&["canonical encodings decoded", "other encodings decoded", "encodings of no point refused", "encodings of another length refused", "doublings", "sums that vanish", "operands outside the prime-order subgroup", "scalars compared", "constants compared"]);
}
