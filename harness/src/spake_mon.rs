//! Reference SPAKE2 (Python compatible) and monitors for C09..C13.
use crate::core::*;
use crate::ensure;
use curve25519_dalek::constants::ED25519_BASEPOINT_POINT as BASE;
use curve25519_dalek::constants::EIGHT_TORSION;
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::IsIdentity;
use num_bigint::BigUint;
use sha2::{Digest, Sha256};
use spake2::{Ed25519Group, Error, Identity, Password, Spake2};
use std::sync::OnceLock;

pub type S2 = Spake2<Ed25519Group>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    A,
    B,
    S,
}
pub const ROLES: [Role; 3] = [Role::A, Role::B, Role::S];
impl Role {
    pub fn byte(self) -> u8 {
        match self {
            Role::A => b'A',
            Role::B => b'B',
            Role::S => b'S',
        }
    }
    pub fn peer(self) -> Role {
        match self {
            Role::A => Role::B,
            Role::B => Role::A,
            Role::S => Role::S,
        }
    }
}

// ------------------------------------------------------------------ reference
fn sha(b: &[u8]) -> [u8; 32] {
    Sha256::digest(b).into()
}
fn hmac(key: &[u8], msg: &[u8]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let i: Vec<u8> = k.iter().map(|b| b ^ 0x36).chain(msg.iter().copied()).collect();
    let o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).chain(sha(&i)).collect();
    sha(&o)
}
fn hkdf(ikm: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    let prk = hmac(&[], ikm);
    let mut out = Vec::new();
    let mut t: Vec<u8> = vec![];
    let mut i = 1u8;
    while out.len() < len {
        t = hmac(&prk, &[&t[..], info, &[i]].concat()).to_vec();
        out.extend_from_slice(&t);
        i += 1;
    }
    out.truncate(len);
    out
}
fn order() -> BigUint {
    (BigUint::from(1u32) << 252) + BigUint::parse_bytes(b"27742317777372353535851937790883648493", 10).unwrap()
}
fn field() -> BigUint {
    (BigUint::from(1u32) << 255) - 19u32
}
fn le32(v: &BigUint) -> [u8; 32] {
    let mut o = [0u8; 32];
    let b = v.to_bytes_le();
    o[..b.len()].copy_from_slice(&b);
    o
}
pub fn ref_pw_scalar(pw: &[u8]) -> Scalar {
    let i = BigUint::from_bytes_be(&hkdf(pw, b"SPAKE2 pw", 48)) % order();
    Option::from(Scalar::from_canonical_bytes(le32(&i))).unwrap()
}
/// spake2.py arbitrary_element
fn arbitrary(seed: &[u8]) -> EdwardsPoint {
    let mut y = BigUint::from_bytes_be(&hkdf(seed, b"SPAKE2 arbitrary element", 48)) % field();
    loop {
        if let Some(p) = CompressedEdwardsY(le32(&y)).decompress() {
            let q = p.mul_by_cofactor();
            if !q.is_identity() {
                return q;
            }
        }
        y = (y + 1u32) % field();
    }
}
pub fn blind(r: Role) -> EdwardsPoint {
    static C: OnceLock<[EdwardsPoint; 3]> = OnceLock::new();
    C.get_or_init(|| [arbitrary(b"M"), arbitrary(b"N"), arbitrary(b"symmetric")])[r as usize]
}
pub fn ref_msg(r: Role, pw: &[u8], x: &Scalar) -> Vec<u8> {
    let p = BASE * x + blind(r) * ref_pw_scalar(pw);
    let mut v = vec![r.byte()];
    v.extend_from_slice(p.compress().as_bytes());
    v
}
/// key of the party in role r with secret x, own message and peer message (both 33 bytes)
pub fn ref_key(r: Role, pw: &[u8], ida: &[u8], idb: &[u8], x: &Scalar, own: &[u8], peer: &[u8]) -> Vec<u8> {
    let p = CompressedEdwardsY(peer[1..].try_into().unwrap()).decompress().unwrap();
    let k = (p - blind(r.peer()) * ref_pw_scalar(pw)) * x;
    ref_hash(r, pw, ida, idb, own, peer, &k)
}
fn ref_hash(r: Role, pw: &[u8], ida: &[u8], idb: &[u8], own: &[u8], peer: &[u8], k: &EdwardsPoint) -> Vec<u8> {
    let mut t = sha(pw).to_vec();
    let (m1, m2) = match r {
        Role::A => (own, peer),
        Role::B => (peer, own),
        Role::S => {
            if own[1..] < peer[1..] {
                (own, peer)
            } else {
                (peer, own)
            }
        }
    };
    t.extend_from_slice(&sha(ida));
    if r != Role::S {
        t.extend_from_slice(&sha(idb));
    }
    t.extend_from_slice(&m1[1..]);
    t.extend_from_slice(&m2[1..]);
    t.extend_from_slice(k.compress().as_bytes());
    sha(&t).to_vec()
}

// ------------------------------------------------------------------ real side
#[derive(Clone, Debug)]
pub struct Ids {
    pub pw: Vec<u8>,
    pub a: Vec<u8>,
    pub b: Vec<u8>,
}
impl Ids {
    pub fn show(&self) -> String {
        format!("pw {} idA {} idB {}", sh(&self.pw), sh(&self.a), sh(&self.b))
    }
}
pub fn ids(r: &mut Prng) -> Ids {
    let mut i = Ids { pw: r.hostile_any(300), a: r.hostile_any(300), b: r.hostile_any(300) };
    match r.below(8) {
        0 => i.b = i.a.clone(),
        1 => i.a = i.pw.clone(),
        _ => {}
    }
    i
}
pub fn start(r: Role, i: &Ids, rng: LogRng) -> (S2, Vec<u8>) {
    sut(|| {
        let p = Password::new(&i.pw);
        let (a, b) = (Identity::new(&i.a), Identity::new(&i.b));
        match r {
            Role::A => S2::start_a_with_rng(&p, &a, &b, rng),
            Role::B => S2::start_b_with_rng(&p, &a, &b, rng),
            Role::S => S2::start_symmetric_with_rng(&p, &a, rng),
        }
    })
}
/// generator whose first output encodes a chosen scalar when it is read as a wide integer
fn scalar_rng(r: &mut Prng) -> LogRng {
    let seed = r.u64();
    let mut w = [0u8; 64];
    let l = order();
    let put = |w: &mut [u8; 64], v: BigUint| {
        let b = v.to_bytes_le();
        w[..b.len()].copy_from_slice(&b);
    };
    match r.below(12) {
        0 => {}
        1 => w[0] = 1,
        2 => put(&mut w, &l - 1u32),
        3 => put(&mut w, l),
        4 => put(&mut w, l + 1u32),
        5 => w = [0xff; 64],
        6 => w[0] = r.u64() as u8,
        7 => w[31] = 0x10,
        _ => return LogRng::new(seed),
    }
    LogRng::with_prefix(seed, &w)
}
fn well_formed(r: Role, m: &[u8]) -> R {
    ensure!(m.len() == 33, "first message of {r:?} has {} bytes", m.len());
    ensure!(m[0] == r.byte(), "first message of {r:?} starts with {:#x}", m[0]);
    ensure!(
        CompressedEdwardsY(m[1..].try_into().unwrap()).decompress().is_some(),
        "first message of {r:?} is not a group element: {}",
        hex(m)
    );
    Ok(())
}

fn agree(c: &mut Case<'_>, r: Role, i: &Ids, r1: LogRng, r2: LogRng) -> R {
    let (p, m1) = start(r, i, r1);
    let (q, m2) = start(r.peer(), i, r2);
    let d = || format!("{r:?}/{:?} {} messages {} {}", r.peer(), i.show(), hex(&m1), hex(&m2));
    well_formed(r, &m1).map_err(|e| format!("{e}: {}", d()))?;
    well_formed(r.peer(), &m2).map_err(|e| format!("{e}: {}", d()))?;
    let k1 = sut(|| p.finish(&m2)).map_err(|e| format!("{r:?} failed: {e:?}: {}", d()))?;
    let k2 = sut(|| q.finish(&m1)).map_err(|e| format!("{:?} failed: {e:?}: {}", r.peer(), d()))?;
    ensure!(k1.len() == 32, "key of {} bytes: {}", k1.len(), d());
    ensure!(k1 == k2, "keys differ: {} {}: {}", hex(&k1), hex(&k2), d());
    c.obs.count(if r == Role::S { "symmetric sessions agreed" } else { "A/B sessions agreed" });
    if r == Role::S {
        let common = m1[1..].iter().zip(&m2[1..]).take_while(|(a, b)| a == b).count();
        if common > 0 {
            c.obs.count(&format!("symmetric pairs sharing {} leading bytes", if common > 2 { "3+".into() } else { common.to_string() }));
        }
    }
    c.obs.seen(&[&k1[..], &m1, &m2].concat());
    c.obs.sample(|| format!("{} -> {}", d(), hex(&k1)));
    Ok(())
}
pub fn c09(x: &mut Ctx) {
    x.rule("an evaluation is one complete session of two real parties with equal credentials; distinct by (messages, key)");
    x.stage("sessions", 12_000, 400_000, |c| {
        let i = ids(&mut c.rng);
        let (r1, r2) = (scalar_rng(&mut c.rng), scalar_rng(&mut c.rng));
        let r = if c.idx % 2 == 0 { Role::S } else { *c.rng.pick(&[Role::A, Role::B]) };
        agree(c, r, &i, r1, r2)
    });
    x.stage_n("huge", 9 * HUGE.len() as u64, |c| {
        let n = c.idx as usize;
        let mut i = ids(&mut c.rng);
        *[&mut i.pw, &mut i.a, &mut i.b][n / 3 % 3] = c.rng.huge(n / 9);
        let (r1, r2) = (LogRng::new(c.rng.u64()), LogRng::new(c.rng.u64()));
        c.obs.count("huge credentials");
        agree(c, ROLES[n % 3], &i, r1, r2)
    });
    x.stage("os-generator", 400, 5000, |c| {
        // the entry points that use the system generator
        let i = ids(&mut c.rng);
        let (p, a, b) = (Password::new(&i.pw), Identity::new(&i.a), Identity::new(&i.b));
        let (k1, k2) = if c.idx % 2 == 0 {
            let ((s, m), (t, n)) = sut(|| (S2::start_a(&p, &a, &b), S2::start_b(&p, &a, &b)));
            well_formed(Role::A, &m)?;
            well_formed(Role::B, &n)?;
            sut(|| (s.finish(&n), t.finish(&m)))
        } else {
            let ((s, m), (t, n)) = sut(|| (S2::start_symmetric(&p, &a), S2::start_symmetric(&p, &a)));
            well_formed(Role::S, &m)?;
            sut(|| (s.finish(&n), t.finish(&m)))
        };
        ensure!(k1.is_ok() && k1 == k2, "system generator session: {k1:?} {k2:?} {}", i.show());
        c.obs.count("system generator sessions agreed");
        c.obs.seen(&k1.unwrap());
        Ok(())
    });
    // symmetric messages that share leading bytes: birthday pairing
    x.stage("symmetric-shared-prefix", 8, 80, |c| {
        let i = ids(&mut c.rng);
        let n = if c.thorough { 6000 } else { 1500 };
        let base = c.rng.u64();
        let mut v: Vec<(Vec<u8>, u64)> = (0..n)
            .map(|k| {
                let s = base.wrapping_add(k);
                (start(Role::S, &i, LogRng::new(s)).1, s)
            })
            .collect();
        v.sort();
        let mut pairs: Vec<(usize, usize)> = (0..v.len() - 1)
            .map(|k| (v[k].0.iter().zip(&v[k + 1].0).take_while(|(a, b)| a == b).count(), k))
            .collect();
        pairs.sort();
        pairs.reverse();
        for (_, k) in pairs.into_iter().take(60) {
            c.obs.evals += 1;
            agree(c, Role::S, &i, LogRng::new(v[k].1), LogRng::new(v[k + 1].1))?;
            agree(c, Role::S, &i, LogRng::new(v[k + 1].1), LogRng::new(v[k].1))?;
        }
        // both sides drew the same scalar
        agree(c, Role::S, &i, LogRng::new(base), LogRng::new(base))
    });
    x.require(&["symmetric pairs sharing 1 leading bytes", "symmetric pairs sharing 2 leading bytes"]);
}

pub fn mutate_msg(r: &mut Prng, m: &[u8], k: u64) -> (Vec<u8>, &'static str) {
    let pt = CompressedEdwardsY(m[1..33].try_into().unwrap()).decompress();
    let from = |p: EdwardsPoint| {
        let mut v = vec![m[0]];
        v.extend_from_slice(p.compress().as_bytes());
        v
    };
    for _ in 0..40 {
        let (w, n) = match k % 12 {
            0 => {
                let mut w = m.to_vec();
                let b = r.below(264);
                w[b / 8] ^= 1 << (b % 8);
                (w, "bit flip")
            }
            1 => {
                let mut w = m.to_vec();
                w[32] ^= 0x80;
                (w, "sign flip")
            }
            2 => (from(pt.unwrap() + EIGHT_TORSION[r.range(1, 7)]), "torsion added"),
            3 => (from(-pt.unwrap()), "negated"),
            4 => (from(pt.unwrap() + BASE), "base point added"),
            5 => (from(EIGHT_TORSION[r.below(8)]), "small-order point"),
            6 => (from(BASE * Scalar::from_bytes_mod_order(r.arr())), "random point"),
            7 => (from(pt.unwrap() + blind(*r.pick(&ROLES))), "constant added"),
            8 => (m[..r.below(33)].to_vec(), "truncated"),
            9 => {
                let n = r.range(1, 3);
                let t = r.bytes(n);
                ([m, &t[..]].concat(), "extended")
            }
            10 => {
                let mut w = m.to_vec();
                w[0] = *r.pick(b"ABSabs\0\xff");
                (w, "role changed")
            }
            _ => {
                let mut w = r.bytes(33);
                w[0] = m[0];
                (w, "random bytes")
            }
        };
        if w != m {
            return (w, n);
        }
    }
    (vec![], "truncated")
}
pub fn c10(x: &mut Ctx) {
    x.rule("an evaluation is one session of two real parties that differ in exactly one credential or delivered message; distinct by (difference, both outcomes)");
    x.stage("differences", 9000, 300_000, |c| {
        let mut i = ids(&mut c.rng);
        if c.rng.chance(3) {
            // shapes in which concatenation without framing would collide
            let t = c.rng.range(2, 12);
            let all = c.rng.bytes(t);
            let k = c.rng.range(0, all.len());
            i.a = all[..k].to_vec();
            i.b = all[k..].to_vec();
        }
        let mut j = i.clone();
        let r = ROLES[(c.idx % 3) as usize];
        let kind = c.idx / 3 % 6;
        let (s1, s2) = (c.rng.u64(), c.rng.u64());
        let mut what = "";
        match kind {
            0 => {
                j.pw = c.rng.mutate(&i.pw);
                what = "password";
            }
            1 => {
                j.a = c.rng.mutate(&i.a);
                what = "identity A";
            }
            2 if r != Role::S => {
                j.b = c.rng.mutate(&i.b);
                what = "identity B";
            }
            3 if r != Role::S => match c.rng.below(4) {
                0 => {
                    std::mem::swap(&mut j.a, &mut j.b);
                    what = "identities swapped";
                }
                1 => {
                    let all = [&i.a[..], &i.b].concat();
                    let k = c.rng.below(all.len() + 1);
                    j.a = all[..k].to_vec();
                    j.b = all[k..].to_vec();
                    what = "bytes moved between identities";
                }
                2 => {
                    let all = [&i.pw[..], &i.a].concat();
                    let k = c.rng.below(all.len() + 1);
                    j.pw = all[..k].to_vec();
                    j.a = all[k..].to_vec();
                    what = "bytes moved between password and identity";
                }
                _ => {
                    j.b = i.a.clone();
                    what = "identity B";
                }
            },
            2 | 3 => {
                let all = [&i.pw[..], &i.a].concat();
                let k = c.rng.below(all.len() + 1);
                j.pw = all[..k].to_vec();
                j.a = all[k..].to_vec();
                what = "bytes moved between password and identity";
            }
            _ => {}
        }
        if !what.is_empty() && i.pw == j.pw && i.a == j.a && (r == Role::S || i.b == j.b) {
            c.obs.count("skipped (no difference)");
            return Ok(());
        }
        let (p, m1) = start(r, &i, LogRng::new(s1));
        let (q, m2) = start(r.peer(), &j, LogRng::new(s2));
        let (mut d1, mut d2) = (m1.clone(), m2.clone());
        if what.is_empty() {
            if kind == 4 {
                let (w, n) = mutate_msg(&mut c.rng, &m2, c.idx / 18);
                d2 = w;
                what = n;
                if c.rng.chance(4) {
                    d1 = mutate_msg(&mut c.rng, &m1, c.idx / 18).0;
                    what = "both messages altered";
                }
            } else {
                // message of another session with the same credentials
                let s3 = c.rng.u64();
                match c.rng.below(3) {
                    0 => {
                        d2 = start(r.peer(), &i, LogRng::new(s3)).1;
                        what = "message of another session";
                    }
                    1 => {
                        d2 = m1.clone();
                        what = "reflected";
                    }
                    _ => {
                        d1 = start(r, &i, LogRng::new(s3)).1;
                        d2 = start(r.peer(), &i, LogRng::new(s3 ^ 1)).1;
                        what = "two other sessions";
                    }
                }
            }
        }
        let d = format!("{r:?} {what}: {} | {} | sent {} {} delivered {} {}", i.show(), j.show(), hex(&m1), hex(&m2), hex(&d1), hex(&d2));
        let k1 = sut(|| p.finish(&d2));
        let k2 = sut(|| q.finish(&d1));
        if let (Ok(a), Ok(b)) = (&k1, &k2) {
            ensure!(a != b, "keys agree despite a difference: {}: {d}", hex(a));
            c.obs.count("keys differed");
        } else {
            c.obs.count("refused");
        }
        c.obs.count(&format!("difference: {what}"));
        c.obs.seen(format!("{what} {k1:?} {k2:?}").as_bytes());
        c.obs.sample(|| format!("{d} -> {k1:?} {k2:?}"));
        Ok(())
    });
    x.stage_n("huge", 9 * HUGE.len() as u64, |c| {
        let n = c.idx as usize;
        let mut i = ids(&mut c.rng);
        let r = ROLES[n % 3];
        let f = n / 3 % if r == Role::S { 2 } else { 3 };
        *[&mut i.pw, &mut i.a, &mut i.b][f] = c.rng.huge(n / 9);
        let mut j = i.clone();
        let y = [&i.pw, &i.a, &i.b][f];
        *[&mut j.pw, &mut j.a, &mut j.b][f] = c.rng.huge_neighbour(y);
        let (p, m1) = start(r, &i, LogRng::new(c.rng.u64()));
        let (q, m2) = start(r.peer(), &j, LogRng::new(c.rng.u64()));
        if let (Ok(a), Ok(b)) = (sut(|| p.finish(&m2)), sut(|| q.finish(&m1))) {
            ensure!(a != b, "keys agree despite a difference: {r:?} field {f}: {} | {}", i.show(), j.show());
        }
        c.obs.count("huge credentials");
        c.obs.seen(&[&m1[..], &m2].concat());
        Ok(())
    });
    // texts that some normalisation would take for the same, in every field
    x.stage_n("lookalikes", if x.thorough { 36 } else { 9 } * 4 * LOOKALIKES.len() as u64, |c| {
        let n = c.idx as usize;
        let mut i = ids(&mut c.rng);
        let mut j = i.clone();
        let (x, y) = c.rng.lookalike(n % (4 * LOOKALIKES.len()));
        let r = ROLES[n / (4 * LOOKALIKES.len()) % 3];
        let f = n / (12 * LOOKALIKES.len()) % if r == Role::S { 2 } else { 3 };
        *[&mut i.pw, &mut i.a, &mut i.b][f] = x;
        j.pw = i.pw.clone();
        j.a = i.a.clone();
        j.b = i.b.clone();
        *[&mut j.pw, &mut j.a, &mut j.b][f] = y;
        let (p, m1) = start(r, &i, LogRng::new(c.rng.u64()));
        let (q, m2) = start(r.peer(), &j, LogRng::new(c.rng.u64()));
        if let (Ok(a), Ok(b)) = (sut(|| p.finish(&m2)), sut(|| q.finish(&m1))) {
            ensure!(a != b, "keys agree despite a difference: {r:?} {} | {}", i.show(), j.show());
        }
        c.obs.count("lookalikes");
        c.obs.seen(&[&m1[..], &m2].concat());
        Ok(())
    });
    // every single-bit change of a message
    x.stage("every-bit", 6, 120, |c| {
        let i = ids(&mut c.rng);
        let r = ROLES[(c.idx % 3) as usize];
        let (s1, s2) = (c.rng.u64(), c.rng.u64());
        let (p, m1) = start(r, &i, LogRng::new(s1));
        let (q, m2) = start(r.peer(), &i, LogRng::new(s2));
        let honest = sut(|| q.finish(&m1)).map_err(|e| format!("honest session failed {e:?}"))?;
        let _ = p;
        for b in 0..264 {
            let mut w = m2.clone();
            w[b / 8] ^= 1 << (b % 8);
            let (p, _) = start(r, &i, LogRng::new(s1));
            c.obs.evals += 1;
            if let Ok(k) = sut(|| p.finish(&w)) {
                ensure!(k != honest, "bit {b} of the message does not matter: {r:?} {} {}", i.show(), hex(&m2));
            }
            c.obs.count("single-bit changes");
            c.obs.seen(&w);
        }
        Ok(())
    });
    // keys of many sessions with the same credentials
    x.stage("uniqueness", 8, 40, |c| {
        let i = ids(&mut c.rng);
        let mut seen = std::collections::HashSet::new();
        let mut msgs = std::collections::HashSet::new();
        for _ in 0..200 {
            let r = *c.rng.pick(&ROLES);
            let (s1, s2) = (c.rng.u64(), c.rng.u64());
            let (p, m1) = start(r, &i, LogRng::new(s1));
            let (_, m2) = start(r.peer(), &i, LogRng::new(s2));
            let k = sut(|| p.finish(&m2)).map_err(|e| format!("{e:?}"))?;
            c.obs.evals += 1;
            ensure!(seen.insert(k.clone()), "two sessions share key {}", hex(&k));
            ensure!(msgs.insert(m1.clone()) && msgs.insert(m2), "two sessions share a message");
            c.obs.count("session keys compared");
            c.obs.seen(&k);
        }
        Ok(())
    });
}

pub fn c11(x: &mut Ctx) {
    x.rule("an evaluation finishes a real instance with one hostile message and compares the outcome with the specified one; distinct by (role, message)");
    let judge = |c: &mut Case<'_>, r: Role, i: &Ids, seed: u64, m: &[u8]| -> R {
        let (p, _) = start(r, i, LogRng::new(seed));
        let got = sut(|| p.finish(m));
        let want = if m.len() != 33 {
            Err(Error::WrongLength)
        } else if m[0] != r.peer().byte() {
            Err(Error::BadSide)
        } else if CompressedEdwardsY(m[1..].try_into().unwrap()).decompress().is_none() {
            Err(Error::CorruptMessage)
        } else {
            Ok(())
        };
        let g = match &got {
            Ok(k) => {
                ensure!(k.len() == 32, "key of {} bytes", k.len());
                Ok(())
            }
            Err(e) => Err(*e),
        };
        ensure!(g == want, "{r:?} answered {g:?} instead of {want:?} to {} (starting {})", sh(m), hex(&m[..m.len().min(40)]));
        c.obs.count(match want {
            Ok(_) => "keys",
            Err(Error::WrongLength) => "wrong length",
            Err(Error::BadSide) => "bad side",
            Err(_) => "corrupt",
        });
        c.obs.seen(&[&[r.byte()], m].concat());
        c.obs.sample(|| format!("{r:?} {} -> {want:?}", hex(&m[..m.len().min(40)])));
        Ok(())
    };
    x.stage_n("lengths-and-sides", 9, |c| {
        let r = ROLES[(c.idx % 3) as usize];
        let i = ids(&mut c.rng);
        let seed = c.rng.u64();
        let good = start(r.peer(), &i, LogRng::new(seed ^ 1)).1;
        let bad = loop {
            let b: [u8; 32] = c.rng.arr();
            if CompressedEdwardsY(b).decompress().is_none() {
                break b;
            }
        };
        for first in 0..=255u8 {
            for body in [&good[1..], &bad[..]] {
                let m = [&[first], body].concat();
                judge(c, r, &i, seed, &m)?;
                c.obs.evals += 1;
            }
        }
        for len in (0..=140).chain([255, 256, 257, 288, 289, 290, 1000, 4096, 65536 + 33, (1 << 20) + 33]) {
            for k in 0..4 {
                let mut m = match k {
                    0 => vec![0; len],
                    1 => c.rng.bytes(len),
                    2 => good.iter().copied().cycle().take(len).collect(),
                    _ => vec![r.byte(); len],
                };
                if k == 1 && len > 0 {
                    m[0] = r.peer().byte();
                }
                judge(c, r, &i, seed, &m)?;
                c.obs.evals += 1;
            }
        }
        Ok(())
    });
    x.stage_n("special-points", 3, |c| {
        let r = ROLES[c.idx as usize];
        let i = ids(&mut c.rng);
        let seed = c.rng.u64();
        let p = field();
        let mut encs: Vec<[u8; 32]> = Vec::new();
        for t in EIGHT_TORSION {
            encs.push(t.compress().to_bytes());
        }
        // all y within 40 of 0, of the field prime and of 2^255, with both signs: canonical or not
        for k in 0..80u32 {
            let small = le32(&BigUint::from(k));
            encs.push(small);
            let v = &p + k;
            if v.bits() <= 255 {
                encs.push(le32(&v));
            }
            if k > 0 {
                encs.push(le32(&(&p - k)));
            }
        }
        for role in ROLES {
            encs.push(blind(role).compress().to_bytes());
            encs.push((blind(role) * ref_pw_scalar(&i.pw)).compress().to_bytes());
            encs.push((-blind(role) * ref_pw_scalar(&i.pw)).compress().to_bytes());
        }
        encs.push(BASE.compress().to_bytes());
        encs.push([0xff; 32]);
        let both: Vec<[u8; 32]> = encs
            .iter()
            .flat_map(|e| {
                let mut f = *e;
                f[31] ^= 0x80;
                [*e, f]
            })
            .collect();
        for e in both {
            let m = [&[r.peer().byte()], &e[..]].concat();
            c.obs.evals += 1;
            judge(c, r, &i, seed, &m)?;
        }
        // own message and one's own role
        let own = start(r, &i, LogRng::new(seed)).1;
        judge(c, r, &i, seed, &own)
    });
    x.stage("random", 12_000, 400_000, |c| {
        let r = ROLES[(c.idx % 3) as usize];
        let i = ids(&mut c.rng);
        let seed = c.rng.u64();
        let m = match c.rng.below(6) {
            0 => c.rng.hostile(100),
            1 => {
                let (_, m) = start(r.peer(), &i, LogRng::new(seed ^ 3));
                let k = c.rng.u64();
                mutate_msg(&mut c.rng, &m, k).0
            }
            _ => {
                let mut m = c.rng.bytes(33);
                m[0] = r.peer().byte();
                m
            }
        };
        judge(c, r, &i, seed, &m)
    });
    x.require(&["keys", "wrong length", "bad side", "corrupt"]);
}

pub fn c12(x: &mut Ctx) {
    x.rule("an evaluation is one session of a real party with the reference party in the opposite role, comparing keys byte for byte; distinct by (role, messages)");
    x.stage("interop", 9000, 300_000, |c| {
        let i = ids(&mut c.rng);
        let r = ROLES[(c.idx % 3) as usize];
        let rng = scalar_rng(&mut c.rng);
        let (p, m) = start(r, &i, rng.clone());
        well_formed(r, &m)?;
        let y = match c.rng.below(8) {
            0 => Scalar::ONE,
            1 => -Scalar::ONE,
            _ => Scalar::from_bytes_mod_order(c.rng.arr()),
        };
        let mine = ref_msg(r.peer(), &i.pw, &y);
        let got = sut(|| p.finish(&mine));
        let want = ref_key(r.peer(), &i.pw, &i.a, &i.b, &y, &mine, &m);
        let d = || format!("{r:?} {} message {} reference message {}", i.show(), hex(&m), hex(&mine));
        ensure!(got.as_ref() == Ok(&want), "key is {:?}, reference computed {}: {}", got.map(|k| hex(&k)), hex(&want), d());
        // the message lies in xB + pw*constant: removing the blinding leaves the prime-order group
        let pt = CompressedEdwardsY(m[1..].try_into().unwrap()).decompress().unwrap() - blind(r) * ref_pw_scalar(&i.pw);
        ensure!(pt.is_torsion_free(), "message is not xB + pw*constant: {}", d());
        c.obs.count(&format!("role {r:?} interoperated"));
        if r == Role::S {
            c.obs.count(if m[1..] < mine[1..] { "symmetric: real first" } else { "symmetric: reference first" });
        }
        c.obs.seen(&[&m[..], &mine].concat());
        c.obs.sample(|| format!("{} key {}", d(), hex(&want)));
        Ok(())
    });
    // hostile peers: a key is only defined by the message, check it where the peer is no honest party
    x.stage("adversarial-peer-points", 1200, 40_000, |c| {
        let i = ids(&mut c.rng);
        let r = ROLES[(c.idx % 3) as usize];
        // x = 1: the real party's scalar is known to the monitor through its own message
        let x1 = Scalar::from_bytes_mod_order_wide(&{
            let mut w = [0u8; 64];
            let k = c.rng.range(1, 4);
            let b = c.rng.bytes(k);
            w[..k].copy_from_slice(&b);
            w
        });
        let mut w = [0u8; 64];
        w[..32].copy_from_slice(x1.as_bytes());
        let seed = c.rng.u64();
        let (p, m) = start(r, &i, LogRng::with_prefix(seed, &w));
        if m != ref_msg(r, &i.pw, &x1) {
            c.obs.count("skipped (generator read differently)");
            return Ok(());
        }
        let odd = noncanonical();
        let pt = match c.rng.below(5) {
            0 => EIGHT_TORSION[c.rng.below(8)],
            1 => BASE * Scalar::from_bytes_mod_order(c.rng.arr()) + EIGHT_TORSION[c.rng.below(8)],
            2 => blind(r.peer()) * ref_pw_scalar(&i.pw),
            _ => BASE * Scalar::from_bytes_mod_order(c.rng.arr()),
        };
        // the transcript holds the message as it arrived, also where the point has another encoding
        let enc = if c.rng.chance(3) && c.rng.chance(2) || c.idx % 8 == 2 {
            // a message that agrees with the party's own up to some bit
            let mut e: [u8; 32] = m[1..].try_into().unwrap();
            let mut at = if c.idx % 8 == 2 { 255 } else { c.rng.below(256) };
            loop {
                let mut f = e;
                f[at / 8] ^= 1 << (at % 8);
                if CompressedEdwardsY(f).decompress().is_some() {
                    e = f;
                    break;
                }
                at = (at + 1) % 256;
            }
            c.obs.count("neighbours of the own message delivered");
            e
        } else if c.rng.chance(4) {
            c.obs.count("non-canonical encodings delivered");
            odd[c.rng.below(odd.len())]
        } else {
            pt.compress().to_bytes()
        };
        let peer = [&[r.peer().byte()], &enc[..]].concat();
        let got = sut(|| p.finish(&peer));
        let want = ref_key(r, &i.pw, &i.a, &i.b, &x1, &m, &peer);
        ensure!(got.as_ref() == Ok(&want), "key {got:?} reference {}: {r:?} {} own {} peer {}", hex(&want), i.show(), hex(&m), hex(&peer));
        c.obs.count("keys equal for arbitrary peer points");
        c.obs.seen(&[&m[..], &peer].concat());
        Ok(())
    });
    x.stage_n("python-vectors", 1, |c| python_vectors(c));
    x.require(&["role A interoperated", "role B interoperated", "role S interoperated", "symmetric: real first", "symmetric: reference first", "neighbours of the own message delivered"]);
}
/// encodings of points that decompress but are not what compression yields
fn noncanonical() -> Vec<[u8; 32]> {
    let mut v = vec![];
    for k in 0..19u8 {
        for sign in [0, 0x80] {
            let mut b = [0xff; 32];
            b[0] = 0xed + k;
            b[31] = 0x7f | sign;
            v.push(b);
        }
    }
    // y = 1 and y = -1 with x = 0 marked negative
    let mut one = [0; 32];
    (one[0], one[31]) = (1, 0x80);
    let mut minus = [0xff; 32];
    minus[0] = 0xec;
    v.extend([one, minus]);
    v.retain(|b| CompressedEdwardsY(*b).decompress().is_some_and(|p| p.compress().to_bytes() != *b));
    v
}
/// constants as published by the Python implementation
fn python_vectors(c: &mut Case<'_>) -> R {
    let want = [
        "15cfd18e385952982b6a8f8c7854963b58e34388c8e6dae891db756481a02312",
        "f04f2e7eb734b2a8f8b472eaf9c3c632576ac64aea650b496a8a20ff00e583c3",
        "6f00dae87c1be1a73b5922ef431cd8f57879569c222d22b1cd71e8546ab8e6f1",
    ];
    for (r, w) in ROLES.iter().zip(want) {
        assert_eq!(hex(blind(*r).compress().as_bytes()), w, "reference constants");
        c.obs.count("published constants rederived");
        c.obs.seen(w.as_bytes());
    }
    Ok(())
}

pub fn c13(x: &mut Ctx) {
    x.rule("an evaluation renders two real instances that share role and identities but not secrets, and checks the identities in the rendering; distinct by rendering");
    let render = |s: &S2| sut(|| (format!("{s:?}"), format!("{s:#?}")));
    x.stage("renderings", 12_000, 300_000, |c| {
        let mut i = ids(&mut c.rng);
        if c.rng.chance(2) {
            // bytes below 0x10, invalid UTF-8
            let n = c.rng.range(1, 12);
            i.a = c.rng.bytes(n).iter().map(|b| if b & 1 == 0 { b >> 4 } else { b | 0x80 }).collect();
            i.a.push(0xff);
        }
        let r = ROLES[(c.idx % 3) as usize];
        let mut j = i.clone();
        j.pw = c.rng.mutate(&i.pw);
        let (p, _) = start(r, &i, LogRng::new(c.rng.u64()));
        let (q, _) = start(r, &j, scalar_rng(&mut c.rng));
        let (d1, d2) = (render(&p), render(&q));
        ensure!(d1 == d2, "debug output depends on password or scalar: {d1:?} {d2:?} {}", i.show());
        let idl: Vec<&Vec<u8>> = if r == Role::S { vec![&i.a] } else { vec![&i.a, &i.b] };
        for id in idl {
            for d in [&d1.0, &d1.1] {
                match std::str::from_utf8(id) {
                    Ok(s) => {
                        let esc = s.escape_debug().to_string();
                        if d.len() == d1.1.len() && s.contains('\n') {
                            continue; // the pretty form indents continuation lines
                        }
                        ensure!(d.contains(s) || d.contains(&esc), "identity {} missing in {d}", hex(id));
                        c.obs.count("UTF-8 identities shown");
                    }
                    Err(_) => {
                        let low = d.to_ascii_lowercase();
                        let h = hex(id);
                        let exact = low.match_indices(&h).any(|(k, _)| {
                            let b = low.as_bytes();
                            let hexdig = |c: u8| c.is_ascii_hexdigit();
                            let left = k == 0 || !hexdig(b[k - 1]) || b[..k].ends_with(b"0x");
                            let right = k + h.len() == b.len() || !hexdig(b[k + h.len()]);
                            left && right
                        });
                        ensure!(exact, "non-UTF-8 identity {h} cannot be recovered from {d}");
                        c.obs.count("binary identities recovered");
                    }
                }
            }
        }
        c.obs.seen(d1.0.as_bytes());
        c.obs.sample(|| d1.0.clone());
        // a different role or a different binary identity renders differently
        let r2 = ROLES[(c.idx % 3 + 1) as usize % 3];
        let (q, _) = start(r2, &i, LogRng::new(3));
        ensure!(render(&q).0 != d1.0, "roles {r:?} and {r2:?} render alike: {}", d1.0);
        let mut k = i.clone();
        k.a = c.rng.mutate(&i.a);
        if std::str::from_utf8(&k.a).is_err() && std::str::from_utf8(&i.a).is_err() {
            let (q, _) = start(r, &k, LogRng::new(3));
            ensure!(render(&q).0 != d1.0, "identities {} and {} render alike: {}", hex(&i.a), hex(&k.a), d1.0);
            c.obs.count("binary identity pairs distinguished");
        }
        Ok(())
    });
    // all 1-byte and many 2-byte binary identities
    x.stage_n("byte-values", 256, |c| {
        for b in 0..=255u8 {
            let i = Ids { pw: vec![1], a: vec![0xff, c.idx as u8, b], b: vec![c.idx as u8, b, 0xfe] };
            let (p, _) = start(Role::A, &i, LogRng::new(1));
            let (d, _) = render(&p);
            let low = d.to_ascii_lowercase();
            c.obs.evals += 1;
            ensure!(low.contains(&hex(&i.a)) && low.contains(&hex(&i.b)), "identities {} {} not in {d}", hex(&i.a), hex(&i.b));
            c.obs.count("binary identities recovered");
            c.obs.seen(d.as_bytes());
        }
        Ok(())
    });
    x.require(&["UTF-8 identities shown", "binary identities recovered", "binary identity pairs distinguished"]);
}

// ------------------------------------------------------------------ C26, SPAKE2 half
pub fn c26(x: &mut Ctx) {
    x.stage("spake2-scans", 1500, 40_000, |c| {
        let mut i = ids(&mut c.rng);
        let n = c.rng.range(9, 60);
        i.pw = if c.rng.chance(2) { c.rng.bytes(n) } else { (0..n).map(|_| b'!' + c.rng.below(90) as u8).collect() };
        for r in ROLES {
            let mut sent: Vec<Vec<u8>> = Vec::new();
            for _ in 0..2 {
                let (r1, r2) = (LogRng::new(c.rng.u64()), LogRng::new(c.rng.u64()));
                let (p, m1) = start(r, &i, r1.clone());
                let (q, m2) = start(r.peer(), &i, r2.clone());
                let k1 = sut(|| p.finish(&m2)).map_err(|e| format!("{e:?}"))?;
                let _ = sut(|| q.finish(&m1)).map_err(|e| format!("{e:?}"))?;
                let pws = ref_pw_scalar(&i.pw);
                let mut needles = vec![
                    needle("password", &i.pw),
                    needle("hash of the password", &sha(&i.pw)),
                    needle("password scalar", pws.as_bytes()),
                    needle("password point", (BASE * pws).compress().as_bytes()),
                    needle("blinded password point", (blind(r) * pws).compress().as_bytes()),
                    needle("blinded password point", (blind(r.peer()) * pws).compress().as_bytes()),
                    needle("key", &k1),
                ];
                for log in [r1.log(), r2.log()] {
                    for w in log.windows(64) {
                        let s = Scalar::from_bytes_mod_order_wide(w.try_into().unwrap());
                        needles.push(needle("private scalar", s.as_bytes()));
                        needles.push(needle("public element without the password", (BASE * s).compress().as_bytes()));
                    }
                }
                let msgs = vec![(format!("{r:?} first"), m1.clone()), (format!("{:?} first", r.peer()), m2)];
                scan(c.obs, &msgs, &needles, &|| format!("{r:?} {}", i.show()))?;
                c.obs.seen(&m1);
                sent.push(m1);
            }
            ensure!(sent[0] != sent[1], "role {r:?} sent {} in two sessions: {}", hex(&sent[0]), i.show());
            c.obs.count("spake2 sessions searched");
        }
        Ok(())
    });
    x.require(&["spake2 sessions searched"]);
}

// ------------------------------------------------------------------ C22, SPAKE2 half
pub fn c22(x: &mut Ctx) {
    x.stage("spake2-generator", 120, 4000, |c| {
        let i = ids(&mut c.rng);
        let r = ROLES[c.idx as usize % 3];
        let seed = c.rng.u64();
        // a fixed honest peer message, so that the key can be compared as well
        let (_, peer) = start(r.peer(), &i, LogRng::new(seed ^ 1));
        let go = |rng: LogRng| -> Result<(Vec<u8>, Vec<u8>, usize), String> {
            let (p, m) = start(r, &i, rng.clone());
            let n = rng.drawn();
            let k = sut(|| p.finish(&peer)).map_err(|e| format!("{e:?}: {}", i.show()))?;
            Ok((m, k, n))
        };
        let base = go(LogRng::new(seed))?;
        ensure!(base == go(LogRng::new(seed))?, "role {r:?}: the same generator output gave another message or key: {}", i.show());
        let other = std::thread::scope(|t| t.spawn(|| go(LogRng::new(seed))).join()).map_err(|_| "thread".to_string())??;
        ensure!(base == other, "role {r:?}: the same generator output gave another message on another thread: {}", i.show());
        c.obs.count("spake2 repetitions identical");
        ensure!(base.2 >= 32, "role {r:?} drew {} bytes for its secret scalar: {}", base.2, i.show());
        for off in 0..base.2 {
            let bit = c.rng.below(8) as u8;
            let f = go(LogRng::with_flip(seed, off, 1 << bit))?;
            ensure!(f.0 != base.0 && f.1 != base.1, "role {r:?}: bit {bit} of byte {off} drawn changes nothing: {}", i.show());
            c.obs.count("spake2 drawn bytes that matter");
            c.obs.seen(&f.0);
        }
        Ok(())
    });
    x.stage_n("spake2-uniqueness", 6, |c| {
        let i = ids(&mut c.rng);
        let rng = LogRng::new(c.rng.u64());
        let mut seen = std::collections::HashSet::new();
        for k in 0..200 {
            let r = ROLES[k % 3];
            let m = if c.idx % 2 == 0 {
                start(r, &i, rng.clone()).1
            } else {
                let (p, a, b) = (Password::new(&i.pw), Identity::new(&i.a), Identity::new(&i.b));
                sut(|| match r {
                    Role::A => S2::start_a(&p, &a, &b).1,
                    Role::B => S2::start_b(&p, &a, &b).1,
                    Role::S => S2::start_symmetric(&p, &a).1,
                })
            };
            ensure!(seen.insert(m[1..].to_vec()), "role {r:?} repeated the element of an earlier session: {}: {}", hex(&m), i.show());
            c.obs.count("spake2 fresh messages compared");
            c.obs.seen(&m);
        }
        Ok(())
    });
    x.require(&["spake2 repetitions identical", "spake2 drawn bytes that matter", "spake2 fresh messages compared"]);
}
