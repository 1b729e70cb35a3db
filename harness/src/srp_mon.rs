//! Monitors for the SRP properties C01..C07.
use crate::core::*;
use crate::groups_data;
use crate::srp_ref as rf;
use crate::srp_ref::Group;
use crate::toys::*;
use crate::{ensure, with_digest};
use digest::Digest;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use srp::client::{SrpClient, SrpClientVerifier};
use srp::server::{SrpServer, SrpServerVerifier};
use srp::types::{SrpAuthError, SrpGroup};
use std::sync::OnceLock;

pub struct Gr {
    pub name: String,
    pub bits: usize,
    pub sut: SrpGroup,
    pub rf: Group,
}
fn mk(name: String, bits: usize, n: BigUint, g: BigUint) -> Gr {
    Gr { name, bits, sut: SrpGroup { n: n.clone(), g: g.clone() }, rf: Group { n, g } }
}
fn parse(h: &str) -> BigUint {
    rf::int(&unhex(h))
}
pub fn rfc() -> &'static Vec<Gr> {
    static G: OnceLock<Vec<Gr>> = OnceLock::new();
    G.get_or_init(|| {
        groups_data::RFC
            .iter()
            .map(|(bits, h, g)| {
                let sut: &SrpGroup = shipped(*bits);
                Gr {
                    name: format!("RFC{bits}"),
                    bits: *bits,
                    sut: sut.clone(),
                    rf: Group { n: parse(h), g: BigUint::from(*g) },
                }
            })
            .collect()
    })
}
pub fn shipped(bits: usize) -> &'static SrpGroup {
    match bits {
        1024 => &srp::groups::G_1024,
        1536 => &srp::groups::G_1536,
        2048 => &srp::groups::G_2048,
        3072 => &srp::groups::G_3072,
        4096 => &srp::groups::G_4096,
        6144 => &srp::groups::G_6144,
        _ => &srp::groups::G_8192,
    }
}
pub fn custom() -> &'static Vec<Gr> {
    static G: OnceLock<Vec<Gr>> = OnceLock::new();
    G.get_or_init(|| {
        let mut v = Vec::new();
        for (i, (bits, h)) in groups_data::CUSTOM.iter().enumerate() {
            for g in [2u32, 3, 7][..1 + i % 3].iter() {
                v.push(mk(format!("custom{bits}#{i}g{g}"), *bits, parse(h), BigUint::from(*g)));
            }
            // a generator as wide as the modulus
            let n = parse(h);
            v.push(mk(format!("custom{bits}#{i}gwide"), *bits, n.clone(), n - 2u32));
        }
        v
    })
}
/// custom groups large enough that accidental agreement is impossible
pub fn custom_big() -> &'static Vec<&'static Gr> {
    static G: OnceLock<Vec<&'static Gr>> = OnceLock::new();
    G.get_or_init(|| custom().iter().filter(|g| g.bits >= 128 && !g.name.ends_with("gwide")).collect())
}
const TINY: &[u32] = &[5, 7, 11, 23, 47, 59, 83, 107, 263, 587];
pub fn tiny() -> &'static Vec<Gr> {
    static G: OnceLock<Vec<Gr>> = OnceLock::new();
    G.get_or_init(|| {
        let mut v = Vec::new();
        for n in TINY {
            for g in [2u32, 3, n - 1] {
                if g < *n {
                    v.push(mk(format!("tiny{n}g{g}"), 0, BigUint::from(*n), BigUint::from(g)));
                }
            }
        }
        v
    })
}

#[derive(Clone)]
pub struct Creds {
    pub user: Vec<u8>,
    pub pass: Vec<u8>,
    pub salt: Vec<u8>,
}
pub fn creds(r: &mut Prng) -> Creds {
    Creds { user: r.hostile_any(300), pass: r.hostile_any(300), salt: r.hostile_any(200) }
}
/// ephemeral secrets of any length, including empty, zero, leading zeros, wider than the group
pub fn secret(r: &mut Prng, bits: usize) -> Vec<u8> {
    let bytes = bits.div_ceil(8).max(1);
    match r.below(24) {
        12 => {
            // longer than the modulus of any group, where that is affordable
            let n = if bits <= 1536 { *r.pick(&[129usize, 256, 257, 1024, 1025, 1100]) } else { *r.pick(&[129usize, 192, 257]) };
            r.bytes(n)
        }
        13 => {
            // a short secret followed by zero bytes
            let n = r.range(1, 16);
            let mut v = r.bytes(n);
            v.resize(2 * n + 1, 0);
            v
        }
        0 => {
            let n = r.below(3);
            vec![0; n]
        }
        1 => vec![1],
        2 => {
            let mut v = vec![0; r.below(5)];
            let n = r.range(1, bytes.min(64));
            v.extend(r.bytes(n));
            v
        }
        3 => r.bytes(bytes.min(96)),
        4 => {
            let n = (bytes + 1 + r.below(4)).min(80);
            r.bytes(n)
        }
        5 => vec![0xff; bytes.min(40)],
        6 => {
            let n = r.range(1, 8);
            r.bytes(n)
        }
        7 => r.bytes(64),
        _ => r.bytes(32),
    }
}

pub struct Session<D: Digest> {
    pub v: Vec<u8>,
    pub a_pub: Vec<u8>,
    pub b_pub: Vec<u8>,
    pub client: Result<SrpClientVerifier<D>, SrpAuthError>,
    pub server: Result<SrpServerVerifier<D>, SrpAuthError>,
}
/// an honest session, real client with real server
pub fn session<D: Digest>(g: &SrpGroup, c: &Creds, a: &[u8], b: &[u8]) -> Session<D> {
    sut(|| {
        let cl = SrpClient::<D>::new(g);
        let sv = SrpServer::<D>::new(g);
        let v = cl.compute_verifier(&c.user, &c.pass, &c.salt);
        let a_pub = cl.compute_public_ephemeral(a);
        let b_pub = sv.compute_public_ephemeral(b, &v);
        let client = cl.process_reply(a, &c.user, &c.pass, &c.salt, &b_pub);
        let server = sv.process_reply(b, &v, &a_pub);
        Session { v, a_pub, b_pub, client, server }
    })
}
fn zero_mod(bytes: &[u8], n: &BigUint) -> bool {
    (rf::int(bytes) % n).is_zero()
}
fn illegal<T>(r: &Result<T, SrpAuthError>) -> bool {
    matches!(r, Err(SrpAuthError::IllegalParameter(_)))
}
fn bad_mac(r: &Result<(), SrpAuthError>) -> bool {
    matches!(r, Err(SrpAuthError::BadRecordMac(_)))
}
fn name_of(e: &SrpAuthError) -> String {
    format!("{e} / {e:?}")
}

fn check_agree<D: Digest>(c: &mut Case<'_>, gr: &Gr, dn: &str, cr: &Creds, a: &[u8], b: &[u8]) -> R {
    let s = session::<D>(&gr.sut, cr, a, b);
    let desc = || {
        format!(
            "group {} hash {dn} user {} pass {} salt {} a {} b {} A {} B {}",
            gr.name, sh(&cr.user), sh(&cr.pass), sh(&cr.salt), hex(a), hex(b), sh(&s.a_pub), sh(&s.b_pub)
        )
    };
    if zero_mod(&s.b_pub, &gr.rf.n) {
        ensure!(illegal(&s.client), "client did not refuse B = 0 mod N: {}", desc());
        c.obs.count("B zero mod N (refused)");
        return Ok(());
    }
    if zero_mod(&s.a_pub, &gr.rf.n) {
        ensure!(illegal(&s.server), "server did not refuse A = 0 mod N: {}", desc());
        c.obs.count("A zero mod N (refused)");
        return Ok(());
    }
    let cl = match &s.client {
        Ok(x) => x,
        Err(e) => return Err(format!("client failed in an honest session: {}: {}", name_of(e), desc())),
    };
    let sv = match &s.server {
        Ok(x) => x,
        Err(e) => return Err(format!("server failed in an honest session: {}: {}", name_of(e), desc())),
    };
    let (ck, sk, cp, sp, vc, vs) = sut(|| {
        (
            cl.key().to_vec(), sv.key().to_vec(), cl.proof().to_vec(), sv.proof().to_vec(),
            sv.verify_client(cl.proof()), cl.verify_server(sv.proof()),
        )
    });
    ensure!(ck == sk, "keys differ: client {} server {}: {}", sh(&ck), sh(&sk), desc());
    ensure!(vc.is_ok(), "server rejected the client's proof {}: {}", sh(&cp), desc());
    ensure!(vs.is_ok(), "client rejected the server's proof {}: {}", sh(&sp), desc());
    let nl = rf::minb(&gr.rf.n).len();
    if c.rng.chance(if gr.bits > 2048 { 12 } else { 4 }) {
        // the same numbers with zero bytes in front, as a peer that pads and a database with fixed columns have them
        let z = |r: &mut Prng, v: &[u8]| {
            let mut w = match r.below(6) {
                0 => vec![],
                1 => vec![0; nl.saturating_sub(v.len())],
                2 if nl < 40 => vec![0; 1030],
                _ => vec![0; r.range(1, 4)],
            };
            w.extend_from_slice(v);
            w
        };
        let (zv, za, zb) = (z(&mut c.rng, &s.v), z(&mut c.rng, &s.a_pub), z(&mut c.rng, &s.b_pub));
        let (zbp, cl, sv) = sut(|| {
            (
                SrpServer::<D>::new(&gr.sut).compute_public_ephemeral(b, &zv),
                SrpClient::<D>::new(&gr.sut).process_reply(a, &cr.user, &cr.pass, &cr.salt, &zb),
                SrpServer::<D>::new(&gr.sut).process_reply(b, &zv, &za),
            )
        });
        ensure!(zbp == s.b_pub, "B changes when the verifier is stored with {} leading zero bytes: {}", zv.len() - s.v.len(), desc());
        for (who, k) in [("client", cl.map(|x| x.key().to_vec())), ("server", sv.map(|x| x.key().to_vec()))] {
            let pads = (za.len() - s.a_pub.len(), zb.len() - s.b_pub.len(), zv.len() - s.v.len());
            match k {
                Ok(k) => ensure!(k == ck, "{who} has another key when A, B, verifier come with {pads:?} leading zero bytes: {}", desc()),
                Err(e) => return Err(format!("{who} fails when A, B, verifier come with {pads:?} leading zero bytes: {}: {}", name_of(&e), desc())),
            }
        }
        c.obs.count("sessions with padded encodings");
    }
    if s.a_pub.len() < nl {
        c.obs.count("A shorter than N");
    }
    if s.b_pub.len() < nl {
        c.obs.count("B shorter than N");
    }
    if s.v.len() < nl {
        c.obs.count("verifier shorter than N");
    }
    if ck.len() < nl {
        c.obs.count("key shorter than N");
    }
    c.obs.count("sessions agreed");
    c.obs.seen(&[&ck[..], &s.a_pub, &s.b_pub, gr.name.as_bytes()].concat());
    c.obs.sample(|| format!("{} -> key {}", desc(), sh(&ck)));
    Ok(())
}

/// a secret whose public value is shorter than N: scan a, a+1, ... by multiplying with g
fn short_secret(r: &mut Prng, gr: &Group, start: Vec<u8>, val: impl Fn(&BigUint) -> BigUint) -> Vec<u8> {
    let nl = rf::minb(&gr.n).len();
    let mut e = rf::int(&start);
    let mut p = gr.g.modpow(&e, &gr.n);
    let _ = r;
    for _ in 0..2000 {
        if rf::minb(&val(&p)).len() < nl {
            break;
        }
        p = (p * &gr.g) % &gr.n;
        e += 1u32;
    }
    rf::minb(&e)
}

pub fn c01(x: &mut Ctx) {
    x.rule("an evaluation is one complete SRP session of the real client with the real server; distinct by (A, B, key, group)");
    x.stage("custom", 6000, 200_000, |c| {
        let gr = &custom()[c.rng.below(custom().len())];
        let d = c.rng.below(N_DIGESTS);
        let cr = creds(&mut c.rng);
        let a = secret(&mut c.rng, gr.bits);
        let b = secret(&mut c.rng, gr.bits);
        with_digest!(d, D => check_agree::<D>(c, gr, DIGEST_NAMES[d], &cr, &a, &b))
    });
    x.stage_n("huge", 3 * HUGE.len() as u64 * if x.thorough { 8 } else { 1 }, |c| {
        let gr = &custom()[c.rng.below(custom().len())];
        let d = c.rng.below(N_DIGESTS);
        let mut cr = creds(&mut c.rng);
        let (a, b) = (c.rng.bytes(32), c.rng.bytes(32));
        let i = c.idx as usize;
        *[&mut cr.user, &mut cr.pass, &mut cr.salt][i % 3] = c.rng.huge(i / 3);
        c.obs.count("huge credentials");
        with_digest!(d, D => check_agree::<D>(c, gr, DIGEST_NAMES[d], &cr, &a, &b))
    });
    x.stage("rfc-small", 900, 40_000, |c| {
        let gr = &rfc()[c.rng.below(3)];
        let d = c.rng.below(N_DIGESTS);
        let cr = creds(&mut c.rng);
        let a = secret(&mut c.rng, 256);
        let b = secret(&mut c.rng, 256);
        with_digest!(d, D => check_agree::<D>(c, gr, DIGEST_NAMES[d], &cr, &a, &b))
    });
    x.stage("rfc-large", 60, 1500, |c| {
        let gr = &rfc()[3 + (c.idx % 4) as usize];
        let d = c.rng.below(N_STRONG);
        let cr = creds(&mut c.rng);
        let (a, b) = (c.rng.bytes(32), c.rng.bytes(32));
        with_digest!(d, D => check_agree::<D>(c, gr, DIGEST_NAMES[d], &cr, &a, &b))
    });
    x.stage("steered-leading-zeros", 96, 4000, |c| {
        let gr = &rfc()[(c.idx % 3) as usize];
        let d = c.rng.below(N_STRONG);
        let cr = creds(&mut c.rng);
        with_digest!(d, D => {
            let v = rf::ref_v::<D>(&gr.rf, &cr.user, &cr.pass, &cr.salt);
            let kv = rf::ref_k::<D>(&gr.rf) * &v;
            let (a0, b0) = (c.rng.bytes(24), c.rng.bytes(24));
            let which = c.idx / 3 % 3;
            let a = if which != 1 { short_secret(&mut c.rng, &gr.rf, a0, |p| p.clone()) } else { a0 };
            let b = if which != 0 { short_secret(&mut c.rng, &gr.rf, b0, |p| (&kv + p) % &gr.rf.n) } else { b0 };
            check_agree::<D>(c, gr, DIGEST_NAMES[d], &cr, &a, &b)
        })
    });
    // every pair of exponents in tiny groups
    let n = tiny().len() as u64;
    x.stage_n("tiny-exhaustive", n * 3, |c| {
        let gr = &tiny()[(c.idx % n) as usize];
        let d = [0usize, 6, 8][(c.idx / n) as usize];
        let q = gr.rf.n.to_u32_digits()[0].min(60);
        let cr = creds(&mut c.rng);
        for a in 0..q {
            for b in 0..q {
                let (a, b) = (a.to_be_bytes(), b.to_be_bytes());
                c.obs.evals += 1;
                with_digest!(d, D => check_agree::<D>(c, gr, DIGEST_NAMES[d], &cr, &a, &b))?;
            }
        }
        Ok(())
    });
    x.require(&["A shorter than N", "B shorter than N", "verifier shorter than N", "key shorter than N", "B zero mod N (refused)"]);
}

pub fn c02(x: &mut Ctx) {
    x.rule("an evaluation is one SRP session in which exactly one credential, stored value or delivered message was altered, or one proof replayed; distinct by (alteration, group, resulting keys)");
    let run = |c: &mut Case<'_>, gr: &Gr, d: usize| -> R {
        with_digest!(d, D => tampered::<D>(c, gr, DIGEST_NAMES[d], None))
    };
    x.stage("custom", 6000, 150_000, |c| {
        let gr = custom_big()[c.rng.below(custom_big().len())];
        let d = c.rng.below(N_STRONG);
        run(c, gr, d)
    });
    x.stage("rfc", 400, 15_000, |c| {
        let gr = &rfc()[c.rng.below(if c.thorough { 5 } else { 3 })];
        let d = c.rng.below(N_STRONG);
        run(c, gr, d)
    });
    // texts that some normalisation would take for the same, in every field
    x.stage_n("lookalikes", if x.thorough { 48 } else { 12 } * LOOKALIKES.len() as u64, |c| {
        let gr = custom_big()[c.rng.below(custom_big().len())];
        let d = c.rng.below(N_STRONG);
        let i = c.idx as usize;
        let pair = c.rng.lookalike(i % (4 * LOOKALIKES.len()));
        let field = i / (4 * LOOKALIKES.len()) % 3;
        c.obs.count("lookalikes");
        with_digest!(d, D => tampered::<D>(c, gr, DIGEST_NAMES[d], Some((field, pair))))
    });
    x.stage_n("huge", 3 * HUGE.len() as u64 * if x.thorough { 8 } else { 1 }, |c| {
        let gr = custom_big()[c.rng.below(custom_big().len())];
        let d = c.rng.below(N_STRONG);
        let i = c.idx as usize;
        let v = c.rng.huge(i / 3);
        let w = c.rng.huge_neighbour(&v);
        c.obs.count("huge credentials");
        with_digest!(d, D => tampered::<D>(c, gr, DIGEST_NAMES[d], Some((i % 3, (v, w)))))
    });
    x.require(&["lookalikes", "huge credentials", "tamper password", "tamper username", "tamper salt(client)", "tamper A", "tamper B", "tamper verifier", "replay", "reflect"]);
}
fn strip(b: &[u8]) -> &[u8] {
    let i = b.iter().position(|x| *x != 0).unwrap_or(b.len());
    &b[i..]
}
fn tamper_pub(r: &mut Prng, v: &[u8], n: &BigUint, g: &BigUint) -> Vec<u8> {
    for _ in 0..50 {
        let i = rf::int(v);
        let w = match r.below(9) {
            0 => rf::minb(&((&i * g) % n)),
            1 => rf::minb(&(n - &(&i % n))),
            2 => rf::minb(&(&i + 1u32)),
            3 => rf::minb(&(&i + n)),
            4 => vec![1],
            5 => rf::minb(g),
            6 => {
                let l = v.len();
                r.bytes(l)
            }
            7 => rf::minb(&i.modpow(&(n - 2u32), n)),
            _ => r.mutate(v),
        };
        if strip(&w) != strip(v) {
            return w;
        }
    }
    rf::minb(&(rf::int(v) + 1u32))
}
fn tampered<D: Digest>(c: &mut Case<'_>, gr: &Gr, dn: &str, pair: Option<(usize, (Vec<u8>, Vec<u8>))>) -> R {
    let g = &gr.sut;
    let mut cr = creds(&mut c.rng);
    if let Some((f, p)) = &pair {
        *[&mut cr.pass, &mut cr.user, &mut cr.salt][*f] = p.0.clone();
    }
    let cr = cr;
    let a = c.rng.bytes(32);
    let b = c.rng.bytes(32);
    let cl = SrpClient::<D>::new(g);
    let sv = SrpServer::<D>::new(g);
    let v = sut(|| cl.compute_verifier(&cr.user, &cr.pass, &cr.salt));
    let mut log = cr.clone(); // what the client types in
    let mut sent_salt = cr.salt.clone();
    let mut v_used = v.clone();
    let a_pub = sut(|| cl.compute_public_ephemeral(&a));
    let kind = pair.as_ref().map_or(c.idx % 9, |p| p.0 as u64);
    let mut a_del = a_pub.clone();
    let mut proof_only = false;
    let name = match kind {
        0 => {
            log.pass = c.rng.mutate(&cr.pass);
            "tamper password"
        }
        1 => {
            log.user = c.rng.mutate(&cr.user);
            "tamper username"
        }
        2 => {
            sent_salt = c.rng.mutate(&cr.salt);
            "tamper salt(client)"
        }
        3 => {
            a_del = tamper_pub(&mut c.rng, &a_pub, &gr.rf.n, &gr.rf.g);
            "tamper A"
        }
        4 => "tamper B",
        5 => {
            // verifier of somebody else, or an altered one
            let alt = match c.rng.below(5) {
                0 => {
                    let mut o = cr.clone();
                    o.pass = c.rng.mutate(&cr.pass);
                    sut(|| cl.compute_verifier(&o.user, &o.pass, &o.salt))
                }
                1 => rf::minb(&((rf::int(&v) * &gr.rf.g) % &gr.rf.n)),
                2 => rf::minb(&(&gr.rf.n - rf::int(&v))),
                3 => vec![1],
                _ => {
                    let l = v.len();
                    c.rng.bytes(l)
                }
            };
            v_used = alt;
            "tamper verifier"
        }
        6 => {
            // both username and password change, keeping their concatenation
            if cr.user.is_empty() && cr.pass.is_empty() {
                log.pass = vec![1];
            } else {
                let all = [&cr.user[..], &cr.pass].concat();
                let mut k = c.rng.below(all.len() + 1);
                if k == cr.user.len() {
                    k = (k + 1) % (all.len() + 1);
                }
                log.user = all[..k].to_vec();
                log.pass = all[k..].to_vec();
            }
            "tamper username"
        }
        7 => {
            proof_only = true;
            "replay"
        }
        _ => {
            proof_only = true;
            "reflect"
        }
    };
    if let Some((f, p)) = pair {
        *[&mut log.pass, &mut log.user, &mut sent_salt][f] = p.1;
    }
    let same_id = [&log.user[..], b":", &log.pass].concat() == [&cr.user[..], b":", &cr.pass].concat();
    let same_v = rf::int(&v_used) % &gr.rf.n == rf::int(&v) % &gr.rf.n;
    if (kind == 0 || kind == 1 || kind == 6) && same_id || kind == 5 && same_v {
        c.obs.count("skipped (same credential)");
        return Ok(());
    }
    let b_pub = sut(|| sv.compute_public_ephemeral(&b, &v_used));
    let b_del = if kind == 4 { tamper_pub(&mut c.rng, &b_pub, &gr.rf.n, &gr.rf.g) } else { b_pub.clone() };
    let desc = format!(
        "{name} group {} hash {dn} user {} pass {} salt {} | used user {} pass {} salt {} A {}->{} B {}->{} a {} b {} v {}",
        gr.name, sh(&cr.user), sh(&cr.pass), sh(&cr.salt), sh(&log.user), sh(&log.pass), sh(&sent_salt), sh(&a_pub), sh(&a_del), sh(&b_pub), sh(&b_del), hex(&a), hex(&b), sh(&v_used)
    );
    let client = sut(|| cl.process_reply(&a, &log.user, &log.pass, &sent_salt, &b_del));
    let server = sut(|| sv.process_reply(&b, &v_used, &a_del));
    let (client, server) = match (client, server) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(e), _) if !zero_mod(&b_del, &gr.rf.n) => return Err(format!("client error {e:?} for a legal B: {desc}")),
        (_, Err(e)) if !zero_mod(&a_del, &gr.rf.n) => return Err(format!("server error {e:?} for a legal A: {desc}")),
        _ => {
            c.obs.count("refused early");
            return Ok(());
        }
    };
    let (cp, sp) = (client.proof().to_vec(), server.proof().to_vec());
    if proof_only {
        // honest session: other sessions' proofs, and one's own, must not verify
        let rej = |who: &str, r: Result<(), SrpAuthError>| -> R {
            ensure!(bad_mac(&r), "{who} accepted a proof of another session or its own ({r:?}): {desc}");
            Ok(())
        };
        if kind == 7 {
            let (a2, b2) = match c.rng.below(3) {
                0 => (a.clone(), c.rng.bytes(32)),
                1 => (c.rng.bytes(32), b.clone()),
                _ => (c.rng.bytes(32), c.rng.bytes(32)),
            };
            let s2 = session::<D>(g, &cr, &a2, &b2);
            if let (Ok(c2), Ok(s2)) = (s2.client, s2.server) {
                rej("server", sut(|| server.verify_client(c2.proof())))?;
                rej("client", sut(|| client.verify_server(s2.proof())))?;
                rej("server", sut(|| server.verify_client(s2.proof())))?;
                rej("client", sut(|| client.verify_server(c2.proof())))?;
                ensure!(c2.key() != client.key(), "two sessions share a key: {desc}");
            }
        } else {
            rej("server", sut(|| server.verify_client(&sp)))?;
            rej("client", sut(|| client.verify_server(&cp)))?;
        }
    } else {
        let (r1, r2) = sut(|| (server.verify_client(&cp), client.verify_server(&sp)));
        ensure!(bad_mac(&r1), "server accepted the client's proof ({r1:?}): {desc}");
        ensure!(bad_mac(&r2), "client accepted the server's proof ({r2:?}): {desc}");
        ensure!(client.key() != server.key(), "keys agree: {desc}");
    }
    c.obs.count(name);
    c.obs.seen(&[name.as_bytes(), gr.name.as_bytes(), client.key(), server.key()].concat());
    c.obs.sample(|| desc);
    Ok(())
}

pub fn c03(x: &mut Ctx) {
    x.rule("an evaluation compares every value one session exposes on both sides with the reference formulas, and completes a session of each side against the reference peer; distinct by (group, A, B, S)");
    x.stage("custom", 5000, 120_000, |c| {
        let gr = &custom()[c.rng.below(custom().len())];
        let d = c.rng.below(N_DIGESTS);
        with_digest!(d, D => conform::<D>(c, gr, DIGEST_NAMES[d], false))
    });
    x.stage("rfc-small", 400, 20_000, |c| {
        let gr = &rfc()[c.rng.below(3)];
        let d = c.rng.below(N_DIGESTS);
        with_digest!(d, D => conform::<D>(c, gr, DIGEST_NAMES[d], false))
    });
    x.stage("rfc-large", 16, 600, |c| {
        let gr = &rfc()[3 + (c.idx % 4) as usize];
        let d = c.rng.below(N_STRONG);
        with_digest!(d, D => conform::<D>(c, gr, DIGEST_NAMES[d], false))
    });
    x.stage("tiny", 1500, 40_000, |c| {
        let gr = &tiny()[c.rng.below(tiny().len())];
        let d = c.rng.below(N_DIGESTS);
        with_digest!(d, D => conform::<D>(c, gr, DIGEST_NAMES[d], false))
    });
    x.stage("received-values", 3000, 80_000, |c| {
        let gr = match c.rng.below(10) {
            0 => &rfc()[c.rng.below(2)],
            1 | 2 => &tiny()[c.rng.below(tiny().len())],
            _ => &custom()[c.rng.below(custom().len())],
        };
        let d = c.rng.below(N_DIGESTS);
        with_digest!(d, D => received::<D>(c, gr, DIGEST_NAMES[d]))
    });
    x.require(&["A shorter than N", "B shorter than N", "key shorter than N", "received above 2N bytes", "received with leading zeros", "received canonical"]);
}
/// one value as a hostile or odd peer may send it: any size, any number of leading zero bytes
fn received_value(r: &mut Prng, n: &BigUint) -> Vec<u8> {
    let nl = rf::minb(n).len();
    let below = { let w = r.bytes(nl + 3); rf::int(&w) % n };
    let wide = |r: &mut Prng, l: usize| { let w = r.bytes(l); rf::int(&w) };
    let x = match r.below(8) {
        0 => below,
        1 => below + n,
        2 => below + n * BigUint::from(r.range(2, 70000) as u32),
        // just over a multiple of the length of N
        3 => { let l = nl * r.range(1, 5) + r.below(2); wide(r, l) }
        4 => below + n * wide(r, nl),
        5 => below + n * wide(r, 3 * nl + 2),
        6 => { let l = if nl < 40 { *r.pick(&[130usize, 513, 1030, 4200]) } else { 2 * nl + 1 }; wide(r, l) }
        // a few significant bytes followed by zero bytes
        _ => { let l = r.range(1, 9); let k = r.range(1, 3 * nl); wide(r, l) << (8 * k) }
    };
    let z = match r.below(6) {
        0 => r.range(1, 4),
        1 => *r.pick(&[nl, 2 * nl, 1030]),
        _ => 0,
    };
    let mut v = vec![0; z];
    v.extend(rf::minb(&x));
    v
}
/// each side against a peer that sends whatever it likes: keys and proofs are the documented
/// functions of the integer received, which is not reduced before it is hashed
fn received<D: Digest>(c: &mut Case<'_>, gr: &Gr, dn: &str) -> R {
    let cr = creds(&mut c.rng);
    let bits = if gr.bits >= 1024 { 256 } else { gr.bits };
    let (a, b) = (secret(&mut c.rng, bits), secret(&mut c.rng, bits));
    let (g, n) = (&gr.rf, &gr.rf.n);
    let nl = rf::minb(n).len();
    let (ea, eb) = (received_value(&mut c.rng, n), received_value(&mut c.rng, n));
    let (a_in, b_in) = (rf::int(&ea), rf::int(&eb));
    let k = rf::ref_k::<D>(g);
    let x = rf::ref_x::<D>(&cr.user, &cr.pass, &cr.salt);
    let v = rf::ref_v::<D>(g, &cr.user, &cr.pass, &cr.salt);
    let (ai, bi) = (rf::int(&a), rf::int(&b));
    for (who, enc) in [("server", &ea), ("client", &eb)] {
        let value = rf::int(enc);
        if (&value % n).is_zero() {
            continue;
        }
        let server = who == "server";
        let (sa, sb, want_s) = if server {
            let sb = rf::ref_b_pub::<D>(g, &v, &bi);
            let u = rf::u_min::<D>(&a_in, &sb);
            let s = rf::s_server(g, &v, &u, &bi, &a_in);
            (a_in.clone(), sb, s)
        } else {
            let sa = rf::pw(&g.g, &ai, n);
            let u = rf::u_min::<D>(&sa, &b_in);
            let s = rf::s_client(g, &k, &x, &u, &ai, &b_in);
            (sa, b_in.clone(), s)
        };
        let m1 = rf::m1::<D>(&sa, &sb, &want_s);
        let m2 = rf::m2::<D>(&sa, &m1, &want_s);
        let got = sut(|| {
            if server {
                SrpServer::<D>::new(&gr.sut)
                    .process_reply(&b, &rf::minb(&v), enc)
                    .map(|s| (s.key().to_vec(), s.proof().to_vec(), s.verify_client(&m1).is_ok()))
            } else {
                SrpClient::<D>::new(&gr.sut)
                    .process_reply(&a, &cr.user, &cr.pass, &cr.salt, enc)
                    .map(|s| (s.key().to_vec(), s.proof().to_vec(), s.verify_server(&m2).is_ok()))
            }
        });
        let desc = || {
            format!(
                "group {} hash {dn} user {} pass {} salt {} a {} b {} received {}",
                gr.name, sh(&cr.user), sh(&cr.pass), sh(&cr.salt), hex(&a), hex(&b), hex(enc)
            )
        };
        let (key, proof, peer) = got.map_err(|e| format!("{who} failed on a legal public value: {e:?}: {}", desc()))?;
        let want_p = if server { &m2 } else { &m1 };
        ensure!(key == rf::minb(&want_s), "{who} key is {}, the documented value is {}: {}", hex(&key), hex(&rf::minb(&want_s)), desc());
        ensure!(&proof == want_p, "{who} proof is {}, the documented value is {}: {}", hex(&proof), hex(want_p), desc());
        ensure!(peer, "{who} rejects the reference peer's proof: {}", desc());
        if enc[0] == 0 {
            c.obs.count("received with leading zeros");
        }
        if rf::minb(&value).len() > 2 * nl {
            c.obs.count("received above 2N bytes");
        }
        c.obs.count(if &value < n { "received canonical" } else { "received above N" });
        c.obs.seen(&[gr.name.as_bytes(), who.as_bytes(), enc, &key].concat());
    }
    Ok(())
}
pub fn c04(x: &mut Ctx) {
    x.rule("an evaluation compares k, x, v, A, B, u and S of one real session with RFC 5054 (u over A and B padded to the length of N); distinct by (group, A, B, S)");
    x.stage("custom", 5000, 120_000, |c| {
        let gr = &custom()[c.rng.below(custom().len())];
        let d = c.rng.below(N_STRONG);
        with_digest!(d, D => conform::<D>(c, gr, DIGEST_NAMES[d], true))
    });
    x.stage("rfc-small", 500, 20_000, |c| {
        let gr = &rfc()[c.rng.below(3)];
        let d = c.rng.below(N_STRONG);
        with_digest!(d, D => conform::<D>(c, gr, DIGEST_NAMES[d], true))
    });
    x.stage("rfc-large", 16, 600, |c| {
        let gr = &rfc()[3 + (c.idx % 4) as usize];
        with_digest!(1, D => conform::<D>(c, gr, "Sha1", true))
    });
    x.stage("steered-leading-zeros", 48, 2000, |c| {
        let gr = &rfc()[(c.idx % 3) as usize];
        let a0 = c.rng.bytes(24);
        let a = short_secret(&mut c.rng, &gr.rf, a0, |p| p.clone());
        with_digest!(1, D => conform_with::<D>(c, gr, "Sha1", true, Some(a)))
    });
    x.stage_n("rfc-vector", 1, |c| rfc_vector(c));
    x.require(&["A shorter than N", "full-length A and B"]);
}
/// appendix B of RFC 5054
fn rfc_vector(c: &mut Case<'_>) -> R {
    type D = sha1::Sha1;
    let u = |s: &str| unhex(&s.replace(' ', ""));
    let gr = &rfc()[0];
    let cr = Creds { user: b"alice".to_vec(), pass: b"password123".to_vec(), salt: u("BEB25379D1A8581EB5A727673A2441EE") };
    let a = u("60975527035CF2AD1989806F0407210BC81EDC04E2762A56AFD529DDDA2D4393");
    let b = u("E487CB59D31AC550471E81F00F6928E01DDA08E974A004F49E61F5D105284D20");
    let s = session::<D>(&gr.sut, &cr, &a, &b);
    let key = s.client.map_err(|e| format!("{e:?}"))?.key().to_vec();
    let want = u("B0DC82BABCF30674AE450C0287745E7990A3381F63B387AAF271A10D233861E359B48220F7C4693C9AE12B0A6F67809F0876E2D013800D6C41BB59B6D5979B5C00A172B4A2A5903A0BDCAF8A709585EB2AFAFA8F3499B200210DCC1F10EB33943CD67FC88A2F39A4BE5BEC4EC0A3212DC346D7E474B29EDE8A469FFECA686E5A");
    ensure!(key == want, "premaster secret of the RFC 5054 test vector is {}", hex(&key));
    c.obs.count("RFC 5054 vector");
    c.obs.seen(b"vector");
    Ok(())
}
fn conform<D: Digest>(c: &mut Case<'_>, gr: &Gr, dn: &str, rfc: bool) -> R {
    conform_with::<D>(c, gr, dn, rfc, None)
}
fn conform_with<D: Digest>(c: &mut Case<'_>, gr: &Gr, dn: &str, rfc: bool, fixed_a: Option<Vec<u8>>) -> R {
    let cr = creds(&mut c.rng);
    let bits = if gr.bits >= 1024 { 256 } else { gr.bits };
    let a = fixed_a.unwrap_or_else(|| secret(&mut c.rng, bits));
    let b = secret(&mut c.rng, bits);
    let (g, n) = (&gr.rf, &gr.rf.n);
    let nl = rf::minb(n).len();
    // reference values
    let k = rf::ref_k::<D>(g);
    let xx = rf::ref_x::<D>(&cr.user, &cr.pass, &cr.salt);
    let v = rf::ref_v::<D>(g, &cr.user, &cr.pass, &cr.salt);
    let (ai, bi) = (rf::int(&a), rf::int(&b));
    let a_pub = rf::pw(&g.g, &ai, n);
    let b_pub = rf::ref_b_pub::<D>(g, &v, &bi);
    if b_pub.is_zero() {
        return Ok(());
    }
    let desc = || {
        format!(
            "group {} hash {dn} user {} pass {} salt {} a {} b {}",
            gr.name, sh(&cr.user), sh(&cr.pass), sh(&cr.salt), hex(&a), hex(&b)
        )
    };
    macro_rules! same {
        ($what:expr, $got:expr, $want:expr) => {{
            let (got, want) = (&$got, &$want);
            ensure!(got == want, "{} is {:?}, the documented value is {:?}: {}", $what, got, want, desc());
        }};
    }
    let s = session::<D>(&gr.sut, &cr, &a, &b);
    same!("verifier", hex(&s.v), hex(&rf::minb(&v)));
    same!("A", hex(&s.a_pub), hex(&rf::minb(&a_pub)));
    same!("B", hex(&s.b_pub), hex(&rf::minb(&b_pub)));
    let cl = s.client.map_err(|e| format!("client failed: {e:?}: {}", desc()))?;
    let sv = s.server.map_err(|e| format!("server failed: {e:?}: {}", desc()))?;
    let full = rf::minb(&a_pub).len() == nl && rf::minb(&b_pub).len() == nl;
    if rf::minb(&a_pub).len() < nl {
        c.obs.count("A shorter than N");
    }
    if rf::minb(&b_pub).len() < nl {
        c.obs.count("B shorter than N");
    }
    if full {
        c.obs.count("full-length A and B");
    }
    // the building blocks
    let (sk, sx, sid) = sut(|| {
        let id = SrpClient::<D>::compute_identity_hash(&cr.user, &cr.pass);
        let xs = SrpClient::<D>::compute_x(&id, &cr.salt);
        (srp::utils::compute_k::<D>(&gr.sut), xs, id.to_vec())
    });
    same!("k", sk, k);
    same!("H(I:P)", hex(&sid), hex(&rf::h::<D>(&[&cr.user, b":", &cr.pass])));
    same!("x", sx, xx);
    let u_min = rf::u_min::<D>(&a_pub, &b_pub);
    let u_pad = rf::u_padded::<D>(g, &a_pub, &b_pub);
    let s_min = rf::s_client(g, &k, &xx, &u_min, &ai, &b_pub);
    let s_pad = rf::s_client(g, &k, &xx, &u_pad, &ai, &b_pub);
    if rfc {
        for (who, key) in [("client", cl.key()), ("server", sv.key())] {
            let key = rf::int(key);
            if key == s_pad {
                c.obs.count("S equals RFC 5054");
            } else if !full && key == s_min {
                c.obs.known("u-unpadded-short-public", || {
                    format!("{who} hashes A and B without padding for u when one is shorter than N: {}", desc())
                });
            } else {
                return Err(format!("{who} premaster secret differs from RFC 5054's {}: {} {}", sh(&rf::minb(&s_pad)), sh(&rf::minb(&key)), desc()));
            }
        }
        if full {
            let u = sut(|| srp::utils::compute_u::<D>(&rf::minb(&a_pub), &rf::minb(&b_pub)));
            same!("u", u, u_pad);
        }
    } else {
        let u = sut(|| srp::utils::compute_u::<D>(&rf::minb(&a_pub), &rf::minb(&b_pub)));
        same!("u", u, u_min);
        same!("client key S", hex(cl.key()), hex(&rf::minb(&s_min)));
        same!("server key S", hex(sv.key()), hex(&rf::minb(&rf::s_server(g, &v, &u_min, &bi, &a_pub))));
        let m1 = rf::m1::<D>(&a_pub, &b_pub, &s_min);
        let m2 = rf::m2::<D>(&a_pub, &m1, &s_min);
        same!("M1", hex(cl.proof()), hex(&m1));
        same!("M2", hex(sv.proof()), hex(&m2));
        // the reference peer completes a session with either side
        let (r1, r2) = sut(|| (sv.verify_client(&m1), cl.verify_server(&m2)));
        ensure!(r1.is_ok(), "server rejected the reference client's proof: {}", desc());
        ensure!(r2.is_ok(), "client rejected the reference server's proof: {}", desc());
        // low level functions on values of their own
        let mut own = |r: &mut Prng, n: usize| match r.below(40) {
            0 => vec![],
            1 => vec![0; n],
            2 => [vec![0, 0], r.bytes(n)].concat(),
            3 if gr.bits < 1600 => r.bytes(300),
            4 if gr.bits < 600 => { let n = *r.pick(&[1100usize, 1100, 4200]); r.bytes(n) }
            5 => [r.bytes(n), vec![0, 0, 0]].concat(),
            _ => r.bytes(n),
        };
        let (e1, e2, e3, e4) = (own(&mut c.rng, 20), own(&mut c.rng, 33), own(&mut c.rng, 16), own(&mut c.rng, 40));
        let raw_u = sut(|| srp::utils::compute_u::<D>(&e1, &e2));
        same!("compute_u", raw_u, rf::int(&rf::h::<D>(&[&e1, &e2])));
        let (i1, i2, i3, i4) = (rf::int(&e1), rf::int(&e2), rf::int(&e3), rf::int(&e4));
        let cs = SrpClient::<D>::new(&gr.sut);
        let ss = SrpServer::<D>::new(&gr.sut);
        let bp = if c.rng.chance(20) { BigUint::zero() } else if c.rng.chance(20) { i4.clone() } else { &i4 % n };
        let (p1, p2, p3, p4, p5) = sut(|| {
            (cs.compute_premaster_secret(&bp, &i1, &i2, &i3, &i1), ss.compute_premaster_secret(&bp, &i2, &i3, &i1), ss.compute_b_pub(&i1, &i2, &i3), cs.compute_a_pub(&i2), cs.compute_v(&i3))
        });
        same!("client compute_premaster_secret", p1, rf::s_client(g, &i1, &i2, &i1, &i3, &bp));
        same!("server compute_premaster_secret", p2, rf::s_server(g, &i2, &i3, &i1, &bp));
        same!("compute_b_pub", p3, (&i2 * &i3 + rf::pw(&g.g, &i1, n)) % n);
        same!("compute_a_pub", p4, rf::pw(&g.g, &i2, n));
        same!("compute_v", p5, rf::pw(&g.g, &i3, n));
        let (mm1, mm2) = sut(|| {
            let m = srp::utils::compute_m1::<D>(&e1, &e2, &e3);
            let m2 = srp::utils::compute_m2::<D>(&e1, &m, &e3);
            (m.to_vec(), m2.to_vec())
        });
        same!("compute_m1", hex(&mm1), hex(&rf::h::<D>(&[&e1, &e2, &e3])));
        same!("compute_m2", hex(&mm2), hex(&rf::h::<D>(&[&e1, &mm1, &e3])));
        if rf::minb(&s_min).len() < nl {
            c.obs.count("key shorter than N");
        }
    }
    c.obs.seen(&[gr.name.as_bytes(), &rf::minb(&a_pub), &rf::minb(&b_pub), cl.key()].concat());
    c.obs.sample(|| format!("{} S {}", desc(), sh(cl.key())));
    Ok(())
}

pub fn c05(x: &mut Ctx) {
    x.rule("an evaluation hands one encoded public value to a real server and a real client and compares refusal with the value modulo N; distinct by (group, encoding)");
    let one = |c: &mut Case<'_>, gr: &Gr, d: usize, enc: &[u8], cr: &Creds, a: &[u8], b: &[u8], v: &[u8]| -> R {
        let zero = zero_mod(enc, &gr.rf.n);
        let (rs, rc) = with_digest!(d, D => {
            sut(|| (SrpServer::<D>::new(&gr.sut).process_reply(b, v, enc).map(|_| ()),
                    SrpClient::<D>::new(&gr.sut).process_reply(a, &cr.user, &cr.pass, &cr.salt, enc).map(|_| ())))
        });
        for (who, r) in [("server", &rs), ("client", &rc)] {
            if zero {
                ensure!(illegal(r), "{who} returned {r:?} for a public value that is 0 mod N: {} group {}", hex(enc), gr.name);
                c.obs.count("zero encodings refused");
            } else {
                ensure!(r.is_ok(), "{who} returned {r:?} for a legal public value {} group {}", hex(enc), gr.name);
                c.obs.count("non-zero encodings processed");
            }
        }
        c.obs.seen(&[gr.name.as_bytes(), enc].concat());
        c.obs.sample(|| format!("group {} value {} -> {}", gr.name, sh(enc), if zero { "refused" } else { "processed" }));
        Ok(())
    };
    let all: Vec<&Gr> = custom().iter().chain(rfc().iter().take(if x.thorough { 7 } else { 4 })).collect();
    let m = all.len() as u64;
    x.stage_n("structured", m, |c| {
        let gr = all[c.idx as usize];
        let n = &gr.rf.n;
        let cr = creds(&mut c.rng);
        let d = c.rng.below(N_DIGESTS);
        let (a, b) = (c.rng.bytes(8), c.rng.bytes(8));
        let v = with_digest!(d, D => rf::minb(&rf::ref_v::<D>(&gr.rf, &cr.user, &cr.pass, &cr.salt)));
        let nl = rf::minb(n).len();
        let mut vals: Vec<BigUint> = Vec::new();
        let mut ks: Vec<BigUint> = [0u32, 1, 2, 3, 4, 255, 256, 257, 65535].iter().map(|k| BigUint::from(*k)).collect();
        ks.push(n.clone());
        ks.push(rf::int(&c.rng.bytes(5)));
        ks.push(rf::int(&c.rng.bytes(nl)));
        ks.push(BigUint::one() << (8 * nl));
        for k in ks {
            let m = k * n;
            vals.push(&m + 1u32);
            if !m.is_zero() {
                vals.push(&m - 1u32);
            }
            vals.push(&m + &gr.rf.g);
            vals.push(m);
        }
        vals.push(n >> 1);
        vals.push(BigUint::one() << (8 * nl - 8));
        vals.push((BigUint::one() << (8 * nl)) - 1u32);
        for val in vals {
            for z in [0usize, 1, 2, 7, nl] {
                if nl > 200 && z > 1 {
                    continue;
                }
                let mut enc = vec![0; z];
                enc.extend(rf::minb(&val));
                c.obs.evals += 1;
                one(c, gr, d, &enc, &cr, &a, &b, &v)?;
            }
        }
        for l in [0usize, 1, 2, 3, 4, 5, 8, 16, nl - 1, nl, nl + 1, 2 * nl, 1000] {
            c.obs.evals += 1;
            one(c, gr, d, &vec![0; l], &cr, &a, &b, &v)?;
        }
        Ok(())
    });
    let t = tiny().len() as u64;
    x.stage_n("tiny-exhaustive", t, |c| {
        let gr = &tiny()[c.idx as usize];
        let cr = creds(&mut c.rng);
        let (a, b, v) = (vec![3u8], vec![2u8], vec![2u8]);
        for w in 0..=2300u32 {
            let enc = w.to_be_bytes();
            for k in 0..4 {
                if enc[..k].iter().all(|x| *x == 0) {
                    c.obs.evals += 1;
                    one(c, gr, 0, &enc[k..], &cr, &a, &b, &v)?;
                }
            }
        }
        Ok(())
    });
    x.stage("random", 4000, 100_000, |c| {
        let gr = &custom()[c.rng.below(custom().len())];
        let cr = creds(&mut c.rng);
        let d = c.rng.below(N_DIGESTS);
        let (a, b) = (secret(&mut c.rng, gr.bits), secret(&mut c.rng, gr.bits));
        let v = if c.rng.chance(60) { c.rng.bytes(1100) } else { c.rng.hostile(64) };
        let nl = rf::minb(&gr.rf.n).len();
        let enc = match c.rng.below(3) {
            0 => {
                let k = if c.rng.chance(30) { c.rng.bytes(1050) } else { c.rng.hostile(12) };
                let mut z = vec![0; c.rng.below(3)];
                z.extend(rf::minb(&(rf::int(&k) * &gr.rf.n)));
                z
            }
            1 if nl < 40 && c.rng.chance(40) => { let n = c.rng.range(1000, 5000); c.rng.bytes(n) }
            1 => c.rng.hostile(3 * nl),
            _ => c.rng.bytes(nl),
        };
        one(c, gr, d, &enc, &cr, &a, &b, &v)
    });
    x.require(&["zero encodings refused", "non-zero encodings processed"]);
}

pub fn c06(x: &mut Ctx) {
    x.rule("an evaluation reads one shipped group (from many racing threads at first access) and compares modulus and generator with RFC 5054, and tests safe primality; distinct by group and access round");
    // first access from racing threads, before anything else touches the groups
    const ALL: [usize; 7] = [1024, 1536, 2048, 3072, 4096, 6144, 8192];
    if x.only.is_none() {
        let bar = std::sync::Barrier::new(16);
        let bad = std::sync::Mutex::new(Vec::new());
        let sums = std::sync::Mutex::new(Vec::new());
        std::thread::scope(|s| {
            for t in 0..16usize {
                let (bar, bad, sums) = (&bar, &bad, &sums);
                s.spawn(move || {
                    bar.wait();
                    for i in 0..7 {
                        let bits = ALL[(i + t) % 7];
                        let r = std::panic::catch_unwind(|| sut(|| shipped(bits).clone()));
                        match r {
                            Ok(g) => sums.lock().unwrap().push((bits, g)),
                            Err(_) => bad.lock().unwrap().push(bits),
                        }
                    }
                });
            }
        });
        for bits in bad.into_inner().unwrap() {
            x.violations.push(Violation { stage: "race".into(), idx: bits as u64, what: format!("group {bits} panics on access") });
        }
        for (bits, g) in sums.into_inner().unwrap() {
            x.obs.evals += 1;
            x.obs.count("racing first accesses");
            if let Err(what) = group_ok(bits, &g) {
                x.violations.push(Violation { stage: "race".into(), idx: bits as u64, what });
                break;
            }
        }
    }
    if !x.violations.is_empty() {
        return;
    }
    x.stage_n("race", 0, |_| Ok(()));
    x.stage_n("values", 7 * 4, |c| {
        let bits = ALL[(c.idx % 7) as usize];
        let g = sut(|| shipped(bits).clone());
        group_ok(bits, &g)?;
        c.obs.seen(&c.idx.to_le_bytes());
        c.obs.count("values equal to RFC 5054");
        c.obs.sample(|| format!("G_{bits}: g = {}, N = {}", g.g, sh(&rf::minb(&g.n))));
        Ok(())
    });
    let n = if x.thorough { 7 } else { 5 };
    x.stage_n("safe-prime", n, |c| {
        let bits = ALL[c.idx as usize];
        let g = sut(|| shipped(bits).clone());
        ensure!(rf::probably_prime(&g.n), "modulus of G_{bits} is not prime");
        ensure!(rf::probably_prime(&((&g.n - 1u32) / 2u32)), "(N-1)/2 of G_{bits} is not prime");
        c.obs.count("safe primes confirmed");
        c.obs.seen(&[7, c.idx as u8]);
        Ok(())
    });
}
fn group_ok(bits: usize, g: &SrpGroup) -> R {
    let (_, h, gen) = groups_data::RFC.iter().find(|r| r.0 == bits).unwrap();
    ensure!(g.n == parse(h), "modulus of G_{bits} is {}, not RFC 5054's", hex(&rf::minb(&g.n)));
    ensure!(g.g == BigUint::from(*gen), "generator of G_{bits} is {}, RFC 5054 says {gen}", g.g);
    ensure!(g.n.bits() == bits as u64, "modulus of G_{bits} has {} bits", g.n.bits());
    Ok(())
}

/// SRP half of C07
pub fn c07(x: &mut Ctx) {
    x.rule("an evaluation offers one candidate proof or authenticator (the right one, every single-bit change, every length, permutations, the other direction's value, values of other sessions) to one real side; distinct by (expected value, candidate)");
    let digs: u64 = 7;
    x.stage_n("srp-proofs", digs * if x.thorough { 40 } else { 4 }, |c| {
        let d = (c.idx % digs) as usize;
        let gr = if c.idx / digs % 2 == 0 { custom_big()[c.rng.below(custom_big().len())] } else { &rfc()[0] };
        with_digest!(d, D => proofs::<D>(c, gr, DIGEST_NAMES[d]))
    });
}
fn proofs<D: Digest>(c: &mut Case<'_>, gr: &Gr, dn: &str) -> R {
    let cr = creds(&mut c.rng);
    let (a, b) = (c.rng.bytes(32), c.rng.bytes(32));
    let s = session::<D>(&gr.sut, &cr, &a, &b);
    let cl = s.client.map_err(|e| format!("{e:?}"))?;
    let sv = s.server.map_err(|e| format!("{e:?}"))?;
    let (m1, m2) = (cl.proof().to_vec(), sv.proof().to_vec());
    let desc = format!("group {} hash {dn} user {} pass {} salt {} a {} b {}", gr.name, sh(&cr.user), sh(&cr.pass), sh(&cr.salt), hex(&a), hex(&b));
    let mut cand: Vec<Vec<u8>> = Vec::new();
    for good in [&m1, &m2] {
        let l = good.len();
        for bit in 0..8 * l {
            let mut w = good.clone();
            w[bit / 8] ^= 1 << (bit % 8);
            cand.push(w);
        }
        for k in 0..l {
            cand.push(good[..k].to_vec());
            cand.push(good[k..].to_vec());
            let mut w = good.clone();
            w[k] = c.rng.u64() as u8;
            cand.push(w);
            let mut w = good.clone();
            w[k..].fill(0);
            cand.push(w);
            let mut w = good.clone();
            w[..k].fill(0);
            cand.push(w);
            let mut w = good.clone();
            w.rotate_left(k);
            cand.push(w);
            let mut w = good.clone();
            w.swap(k, (k + 1) % l);
            cand.push(w);
            // two flips that cancel in a xor or sum of bytes
            let mut w = good.clone();
            w[k] ^= 0x80;
            w[(k + 7) % l] ^= 0x80;
            cand.push(w);
            let mut w = good.clone();
            w[k] = w[k].wrapping_add(1);
            let j = (k + 3) % l;
            w[j] = w[j].wrapping_sub(1);
            cand.push(w);
            let mut w = good.clone();
            w.remove(k);
            cand.push(w);
        }
        for e in [0u8, 1, 0xff, good[0], good[l - 1]] {
            for n in [1usize, 2, l, 256 - l % 256, 256, 512, 65_536] {
                cand.push([&good[..], &vec![e; n]].concat());
                cand.push([&vec![e; n], &good[..]].concat());
            }
        }
        cand.push([&good[..], good].concat());
        let mut w = good.clone();
        w.reverse();
        cand.push(w);
        cand.push(vec![0; l]);
        cand.push(vec![0xff; l]);
        cand.push(good.iter().map(|b| !b).collect());
        cand.push(hex(good).into_bytes());
        let r = c.rng.bytes(l);
        cand.push(r);
        cand.push(good.clone());
    }
    cand.push(cl.key().to_vec());
    cand.push(s.a_pub.clone());
    cand.push(s.b_pub.clone());
    cand.push(vec![]);
    for w in cand {
        let (r1, r2) = sut(|| (sv.verify_client(&w), cl.verify_server(&w)));
        for (who, r, good) in [("server", r1, &m1), ("client", r2, &m2)] {
            c.obs.evals += 1;
            if w == *good {
                ensure!(r.is_ok(), "{who} refused the right proof ({r:?}): {desc}");
                c.obs.count("right proofs accepted");
            } else {
                ensure!(bad_mac(&r), "{who} answered {r:?} to the wrong proof {} (expected {}): {desc}", hex(&w), hex(good));
                c.obs.count("wrong proofs refused");
                c.obs.seen(&[who.as_bytes(), &w].concat());
            }
        }
    }
    c.obs.sample(|| desc);
    Ok(())
}

// ------------------------------------------------------------------ C26, SRP half
pub fn c26(x: &mut Ctx) {
    x.stage("srp-scans", 900, 25_000, |c| {
        let d = (c.idx % 6) as usize;
        let gr = if c.idx % 30 == 0 { &rfc()[0] } else { custom_big()[c.rng.below(custom_big().len())] };
        with_digest!(d, D => srp_scan::<D>(c, gr, DIGEST_NAMES[d]))
    });
    x.require(&["srp logins searched"]);
}
fn srp_scan<D: Digest>(c: &mut Case<'_>, gr: &Gr, dn: &str) -> R {
    let mut cr = creds(&mut c.rng);
    let n = c.rng.range(12, 60);
    cr.pass = if c.rng.chance(2) { c.rng.bytes(n) } else { (0..n).map(|_| b'!' + c.rng.below(90) as u8).collect() };
    if find(&cr.user, &cr.pass).is_some() || find(&cr.salt, &cr.pass).is_some() {
        return Ok(());
    }
    let mut rounds: Vec<Vec<(String, Vec<u8>)>> = Vec::new();
    for _ in 0..2 {
        let (a, b) = (c.rng.bytes(32), c.rng.bytes(32));
        let s = session::<D>(&gr.sut, &cr, &a, &b);
        let cl = s.client.map_err(|e| format!("{e:?}"))?;
        let sv = s.server.map_err(|e| format!("{e:?}"))?;
        let d = || format!("group {} hash {dn} user {} pass {} salt {} a {} b {}", gr.name, sh(&cr.user), sh(&cr.pass), sh(&cr.salt), hex(&a), hex(&b));
        let xx = rf::ref_x::<D>(&cr.user, &cr.pass, &cr.salt);
        let v = rf::ref_v::<D>(&gr.rf, &cr.user, &cr.pass, &cr.salt);
        let pre = rf::minb(&{
            let ap = rf::int(&s.a_pub);
            let bp = rf::int(&s.b_pub);
            let u = rf::u_min::<D>(&ap, &bp);
            rf::s_server(&gr.rf, &v, &u, &rf::int(&b), &ap)
        });
        let needles = [
            needle("password", &cr.pass),
            needle("username:password", &[&cr.user[..], b":", &cr.pass].concat()),
            needle("private value x", &rf::minb(&xx)),
            needle("password verifier", &rf::minb(&v)),
            needle("client ephemeral", &a),
            needle("server ephemeral", &b),
            needle("session key", cl.key()),
            needle("session key", sv.key()),
            needle("premaster secret", &pre),
            needle("hash of username:password", &rf::h::<D>(&[&cr.user, b":", &cr.pass])),
            needle("hash of the password", &rf::h::<D>(&[&cr.pass])),
        ];
        let msgs = vec![
            ("username".to_string(), cr.user.clone()),
            ("salt".to_string(), cr.salt.clone()),
            ("client public value".to_string(), s.a_pub.clone()),
            ("server public value".to_string(), s.b_pub.clone()),
            ("client proof".to_string(), cl.proof().to_vec()),
            ("server proof".to_string(), sv.proof().to_vec()),
        ];
        // random credentials may contain short secrets of each other only when those are degenerate
        if needles.iter().any(|n| n.forms[0].len() < 8) {
            c.obs.count("skipped: a secret too short to look for");
            return Ok(());
        }
        scan(c.obs, &msgs, &needles, &d)?;
        c.obs.seen(&msgs.iter().flat_map(|m| m.1.clone()).collect::<Vec<u8>>());
        c.obs.sample(|| d());
        rounds.push(msgs);
    }
    for i in 2..6 {
        ensure!(rounds[0][i].1 != rounds[1][i].1, "the {} {} is the same in two logins: {}", rounds[0][i].0, hex(&rounds[0][i].1), sh(&cr.user));
        c.obs.count("messages compared over two logins");
    }
    c.obs.count("srp logins searched");
    Ok(())
}
