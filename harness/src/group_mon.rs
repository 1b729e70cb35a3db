//! C27: SPAKE2 over groups other than the shipped one.
use crate::core::*;
use crate::ensure;
use crate::groups_data::CUSTOM;
use crate::spake_mon::{ids, Ids, Role, ROLES};
use crate::srp_ref as rf;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use digest::Digest;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use rand_core::{CryptoRng, RngCore};
use sha2::{Sha256, Sha512};
use spake2::{Error, Group, Identity, Password, Spake2};
use std::cell::RefCell;
use std::sync::OnceLock;

thread_local! {
    /// inputs the code under test gave to the group: (operation, bytes)
    static CALLS: RefCell<Vec<(&'static str, Vec<u8>)>> = const { RefCell::new(Vec::new()) };
}
fn call(op: &'static str, b: &[u8]) {
    CALLS.with(|c| c.borrow_mut().push((op, b.to_vec())));
}
fn calls() -> Vec<(&'static str, Vec<u8>)> {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

/// squares modulo a safe prime, encoded big-endian in a fixed number of bytes
struct Params {
    p: BigUint,
    q: BigUint,
    len: usize,
    mns: [BigUint; 3],
}
/// WHICH: (index of the safe prime, CUSTOM from 100 on; bytes added in front of an encoding)
const SMALL: [u64; 6] = [3, 23, 167, 263, 65267, 4294967087];
const WHICH: [(usize, usize); 17] = [(0, 0), (1, 0), (2, 0), (3, 1), (4, 40), (5, 0), (100, 0), (107, 0), (116, 3), (123, 0), (129, 0), (130, 1), (133, 0), (136, 0), (3, 254), (5, 296), (4, 65598)];
const COUNT: usize = WHICH.len();
fn params(i: usize) -> &'static Params {
    static P: OnceLock<Vec<Params>> = OnceLock::new();
    &P.get_or_init(|| {
        (0..COUNT)
            .map(|i| {
                let (w, extra) = WHICH[i];
                let p = if w < 100 { BigUint::from(SMALL[w]) } else { rf::int(&unhex(CUSTOM[w - 100].1)) };
                let q = (&p - 1u32) / 2u32;
                // the group of order one needs no bytes at all
                let len = if q.is_one() { 0 } else { (p.bits() as usize).div_ceil(8) + extra };
                let c = |n: u8| {
                    let mut k = 0u8;
                    loop {
                        let h = rf::int(&Sha512::digest([i as u8, n, k])) % &p;
                        if !h.is_zero() {
                            return (&h * &h) % &p;
                        }
                        k += 1;
                    }
                };
                let mns = [c(0), c(1), c(2)];
                Params { p, q, len, mns }
            })
            .collect()
    })[i]
}
pub struct Sq<const I: usize>;
impl<const I: usize> Group for Sq<I> {
    type Scalar = BigUint;
    type Element = BigUint;
    type TranscriptHash = Sha256;
    fn name() -> &'static str {
        "squares"
    }
    fn const_m() -> BigUint {
        params(I).mns[0].clone()
    }
    fn const_n() -> BigUint {
        params(I).mns[1].clone()
    }
    fn const_s() -> BigUint {
        params(I).mns[2].clone()
    }
    fn hash_to_scalar(s: &[u8]) -> BigUint {
        call("hash_to_scalar", s);
        rf::int(&Sha512::digest(s)) % &params(I).q
    }
    fn random_scalar<T: RngCore + CryptoRng>(r: &mut T) -> BigUint {
        call("random_scalar", b"");
        let mut b = [0u8; 80];
        r.fill_bytes(&mut b);
        rf::int(&b) % &params(I).q
    }
    fn scalar_neg(s: &BigUint) -> BigUint {
        (&params(I).q - s) % &params(I).q
    }
    fn element_to_bytes(e: &BigUint) -> Vec<u8> {
        if params(I).len == 0 { vec![] } else { rf::pad(e, params(I).len) }
    }
    fn bytes_to_element(b: &[u8]) -> Option<BigUint> {
        call("bytes_to_element", b);
        let g = params(I);
        if b.len() != g.len {
            return None;
        }
        if g.len == 0 {
            return Some(BigUint::one());
        }
        let v = rf::int(b);
        (!v.is_zero() && v < g.p && v.modpow(&g.q, &g.p).is_one()).then_some(v)
    }
    fn element_length() -> usize {
        params(I).len
    }
    fn basepoint_mult(s: &BigUint) -> BigUint {
        (BigUint::from(4u32) % &params(I).p).modpow(s, &params(I).p)
    }
    fn scalarmult(e: &BigUint, s: &BigUint) -> BigUint {
        e.modpow(s, &params(I).p)
    }
    fn add(a: &BigUint, b: &BigUint) -> BigUint {
        (a * b) % &params(I).p
    }
}
/// another group with elements of 32 bytes
pub struct Rist;
impl Group for Rist {
    type Scalar = Scalar;
    type Element = RistrettoPoint;
    type TranscriptHash = Sha256;
    fn name() -> &'static str {
        "ristretto255"
    }
    fn const_m() -> RistrettoPoint {
        RistrettoPoint::hash_from_bytes::<Sha512>(b"M")
    }
    fn const_n() -> RistrettoPoint {
        RistrettoPoint::hash_from_bytes::<Sha512>(b"N")
    }
    fn const_s() -> RistrettoPoint {
        RistrettoPoint::hash_from_bytes::<Sha512>(b"S")
    }
    fn hash_to_scalar(s: &[u8]) -> Scalar {
        call("hash_to_scalar", s);
        Scalar::hash_from_bytes::<Sha512>(s)
    }
    fn random_scalar<T: RngCore + CryptoRng>(r: &mut T) -> Scalar {
        call("random_scalar", b"");
        let mut b = [0u8; 64];
        r.fill_bytes(&mut b);
        Scalar::from_bytes_mod_order_wide(&b)
    }
    fn scalar_neg(s: &Scalar) -> Scalar {
        -s
    }
    fn element_to_bytes(e: &RistrettoPoint) -> Vec<u8> {
        e.compress().0.to_vec()
    }
    fn bytes_to_element(b: &[u8]) -> Option<RistrettoPoint> {
        call("bytes_to_element", b);
        CompressedRistretto::from_slice(b).ok()?.decompress()
    }
    fn element_length() -> usize {
        32
    }
    fn basepoint_mult(s: &Scalar) -> RistrettoPoint {
        RistrettoPoint::mul_base(s)
    }
    fn scalarmult(e: &RistrettoPoint, s: &Scalar) -> RistrettoPoint {
        e * s
    }
    fn add(a: &RistrettoPoint, b: &RistrettoPoint) -> RistrettoPoint {
        a + b
    }
}
macro_rules! with_group {
    ($i:expr, $G:ident => $body:expr) => {
        match $i {
            0 => { type $G = Sq<0>; $body }
            1 => { type $G = Sq<1>; $body }
            2 => { type $G = Sq<2>; $body }
            3 => { type $G = Sq<3>; $body }
            4 => { type $G = Sq<4>; $body }
            5 => { type $G = Sq<5>; $body }
            6 => { type $G = Sq<6>; $body }
            7 => { type $G = Sq<7>; $body }
            8 => { type $G = Sq<8>; $body }
            9 => { type $G = Sq<9>; $body }
            10 => { type $G = Sq<10>; $body }
            11 => { type $G = Sq<11>; $body }
            12 => { type $G = Sq<12>; $body }
            13 => { type $G = Sq<13>; $body }
            14 => { type $G = Sq<14>; $body }
            15 => { type $G = Sq<15>; $body }
            16 => { type $G = Sq<16>; $body }
            _ => { type $G = Rist; $body }
        }
    };
}
const GROUPS: u64 = COUNT as u64 + 1;
fn start<G: Group>(r: Role, i: &Ids, rng: LogRng) -> (Spake2<G>, Vec<u8>) {
    sut(|| {
        let p = Password::new(&i.pw);
        let (a, b) = (Identity::new(&i.a), Identity::new(&i.b));
        match r {
            Role::A => Spake2::<G>::start_a_with_rng(&p, &a, &b, rng),
            Role::B => Spake2::<G>::start_b_with_rng(&p, &a, &b, rng),
            Role::S => Spake2::<G>::start_symmetric_with_rng(&p, &a, rng),
        }
    })
}
fn constant<G: Group>(r: Role) -> G::Element {
    match r {
        Role::A => G::const_m(),
        Role::B => G::const_n(),
        Role::S => G::const_s(),
    }
}
/// the documented protocol over the operations of the group
fn ref_msg<G: Group>(r: Role, i: &Ids, x: &G::Scalar) -> Vec<u8> {
    let mut m = vec![r.byte()];
    m.extend(G::element_to_bytes(&G::add(&G::basepoint_mult(x), &G::scalarmult(&constant::<G>(r), &G::hash_to_scalar(&i.pw)))));
    m
}
fn ref_key<G: Group>(r: Role, i: &Ids, x: &G::Scalar, own: &[u8], peer: &[u8]) -> Vec<u8> {
    let e = G::bytes_to_element(&peer[1..]).unwrap();
    let pw = G::hash_to_scalar(&i.pw);
    let k = G::scalarmult(&G::add(&e, &G::scalarmult(&constant::<G>(r.peer()), &G::scalar_neg(&pw))), x);
    let (mut m1, mut m2) = match r {
        Role::B => (peer, own),
        _ => (own, peer),
    };
    if r == Role::S && m2[1..] < m1[1..] {
        (m1, m2) = (m2, m1);
    }
    let mut t = Sha256::digest(&i.pw).to_vec();
    t.extend(Sha256::digest(&i.a));
    if r != Role::S {
        t.extend(Sha256::digest(&i.b));
    }
    t.extend(&m1[1..]);
    t.extend(&m2[1..]);
    t.extend(G::element_to_bytes(&k));
    Sha256::digest(&t).to_vec()
}
/// what the group was asked for must be about this session's password and whole elements
fn watch<G: Group>(i: &Ids, obs: &mut Obs, d: &dyn Fn() -> String) -> R {
    for (op, b) in calls() {
        match op {
            "hash_to_scalar" => ensure!(b == i.pw, "the group was asked for the scalar of {} instead of the password: {}", sh(&b), d()),
            "bytes_to_element" => ensure!(b.len() == G::element_length(), "the group was asked to decode {} bytes: {}", b.len(), d()),
            _ => {}
        }
        obs.count("group calls observed");
    }
    Ok(())
}
fn session<G: Group>(c: &mut Case<'_>, g: u64) -> R {
    let i = ids(&mut c.rng);
    let r = *c.rng.pick(&ROLES);
    let d = || format!("group {g} (elements of {} bytes) {r:?} {}", G::element_length(), i.show());
    calls();
    let s1 = c.rng.u64();
    let (p, m1) = start::<G>(r, &i, LogRng::new(s1));
    ensure!(m1.len() == 1 + G::element_length() && m1[0] == r.byte(), "first message {}: {}", hex(&m1), d());
    ensure!(calls().iter().any(|x| x.0 == "random_scalar"), "no scalar was drawn from the group: {}", d());
    let dbg = format!("{p:?}");
    ensure!(dbg.contains(G::name()), "debug output {dbg:?} does not name the group: {}", d());
    let key;
    let m2;
    if c.rng.chance(2) {
        let (q, m) = start::<G>(r.peer(), &i, LogRng::new(s1 ^ 0x5555));
        m2 = m;
        calls();
        let k1 = sut(|| p.finish(&m2)).map_err(|e| format!("{e:?}: {}", d()))?;
        watch::<G>(&i, c.obs, &d)?;
        let k2 = sut(|| q.finish(&m1)).map_err(|e| format!("{e:?}: {}", d()))?;
        watch::<G>(&i, c.obs, &d)?;
        ensure!(k1 == k2, "keys {} {} differ: {}", hex(&k1), hex(&k2), d());
        c.obs.count("pairs that agreed");
        key = k1;
    } else {
        let mut rng = LogRng::new(s1 ^ 0x7777);
        let y = G::random_scalar(&mut rng);
        m2 = ref_msg::<G>(r.peer(), &i, &y);
        calls();
        let k1 = sut(|| p.finish(&m2)).map_err(|e| format!("{e:?}: {}", d()))?;
        watch::<G>(&i, c.obs, &d)?;
        let want = ref_key::<G>(r.peer(), &i, &y, &m2, &m1);
        ensure!(k1 == want, "key {} where the documented protocol gives {}: messages {} {}: {}", hex(&k1), hex(&want), hex(&m1), hex(&m2), d());
        c.obs.count("sessions with the independent peer");
        key = k1;
    }
    c.obs.count(&format!("groups with elements of {} bytes", G::element_length()));
    c.obs.seen(&[&key[..], &m1, &m2, &[g as u8]].concat());
    c.obs.sample(|| format!("{} messages {} {}", d(), hex(&m1), hex(&m2)));
    Ok(())
}
fn malformed<G: Group>(c: &mut Case<'_>, g: u64) -> R {
    let i = ids(&mut c.rng);
    let r = *c.rng.pick(&ROLES);
    let (_, good) = start::<G>(r.peer(), &i, LogRng::new(c.rng.u64()));
    let len = G::element_length();
    let seed = c.rng.u64();
    let try_it = |c: &mut Case<'_>, m: &[u8]| -> R {
        let d = || format!("group {g} (elements of {len} bytes) {r:?} {} message {}", i.show(), hex(m));
        let (p, own) = start::<G>(r, &i, LogRng::new(seed));
        calls();
        let got = sut(|| p.finish(m));
        watch::<G>(&i, c.obs, &d)?;
        let want = if m.len() != len + 1 {
            Some(Error::WrongLength)
        } else if m[0] != r.peer().byte() {
            Some(Error::BadSide)
        } else if G::bytes_to_element(&m[1..]).is_none() {
            Some(Error::CorruptMessage)
        } else {
            None
        };
        calls();
        match (&got, &want) {
            (Ok(k), None) => {
                ensure!(k.len() == 32, "a key of {} bytes: {}", k.len(), d());
                c.obs.count("decodable messages accepted");
            }
            (Err(e), Some(w)) if e == w => c.obs.count(&format!("refused with {w:?}")),
            _ => return Err(format!("answered {got:?} where {want:?} was due: {}", d())),
        }
        c.obs.seen(&[&own[..], m, &[g as u8]].concat());
        Ok(())
    };
    for n in 0..(2 * len + 4).min(len + 40) {
        // of the longest not every length
        if len > 1000 && n > 40 && n < len - 10 && c.rng.below(2000) > 0 {
            continue;
        }
        let mut m = good.clone();
        m.resize(n, 0x41);
        try_it(c, &m)?;
    }
    for side in 0..=255u8 {
        if len > 1000 && side % 16 != 1 {
            continue;
        }
        let mut m = good.clone();
        m[0] = side;
        try_it(c, &m)?;
    }
    for _ in 0..if len > 1000 { 5 } else { 30 } {
        let mut m = good.clone();
        if len > 0 {
            let b = c.rng.bytes(len);
            m[1..].copy_from_slice(&b);
        }
        try_it(c, &m)?;
        let mut m = good.clone();
        let at = c.rng.below(m.len());
        m[at] ^= 1 << c.rng.below(8);
        try_it(c, &m)?;
    }
    Ok(())
}
pub fn c27(x: &mut Ctx) {
    x.rule("an evaluation is one finished session or one refused message over a group supplied through the Group trait; distinct by (group, messages, key)");
    x.stage("sessions", 6000, 200_000, |c| {
        let g = c.idx % GROUPS;
        with_group!(g, G => session::<G>(c, g))
    });
    x.stage("malformed", 150, 4500, |c| {
        let g = c.idx % GROUPS;
        with_group!(g, G => malformed::<G>(c, g))
    });
    x.require(&["pairs that agreed", "sessions with the independent peer", "group calls observed", "refused with WrongLength", "refused with BadSide", "refused with CorruptMessage", "decodable messages accepted", "groups with elements of 0 bytes", "groups with elements of 1 bytes", "groups with elements of 32 bytes", "groups with elements of 33 bytes", "groups with elements of 42 bytes", "groups with elements of 64 bytes", "groups with elements of 256 bytes", "groups with elements of 65600 bytes"]);
}
