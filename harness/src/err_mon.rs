//! C28: an error names its cause and nothing else. Every case makes one kind of refusal happen
//! twice, in two unrelated worlds (other secrets, other wrong bytes, other configuration), and
//! compares everything a caller can see of the two errors.
use crate::auc::*;
use crate::auc_mon::{crowd, gen_cfg, neutral, Scene};
use crate::core::*;
use crate::spake_mon::{ids, mutate_msg, start, ROLES};
use crate::srp_mon::{creds, custom_big, rfc, secret, session, Gr};
use crate::toys::*;
use crate::{ensure, with_digest};
use curve25519_dalek::ristretto::RistrettoPoint as Pt;
use digest::Digest;
use num_bigint::BigUint;
use srp::client::SrpClient;
use srp::server::SrpServer;
use std::fmt::{Debug, Display};
use std::sync::OnceLock;

/// everything an error shows
fn shown<E: Debug + Display>(e: &E) -> String {
    sut(|| format!("{e:?} | {e:#?} | {e} | {e:>60}"))
}
fn refused<T, E: Debug + Display>(r: Result<T, E>, what: &str) -> Result<String, String> {
    match r {
        Ok(_) => Err(format!("not refused: {what}")),
        Err(e) => Ok(shown(&e)),
    }
}
/// (the documented cause, what happens, how to make it happen in a fresh world)
type Cause = (&'static str, &'static str, fn(&mut Prng) -> Result<String, String>);

// ------------------------------------------------------------------ SRP
fn group(r: &mut Prng) -> &'static Gr {
    if r.chance(4) { &rfc()[r.below(2)] } else { *r.pick(custom_big()) }
}
fn zero_public(r: &mut Prng, n: &BigUint) -> Vec<u8> {
    let b = match r.below(5) {
        0 => vec![],
        1 => vec![0; r.range(1, 300)],
        k => (n * (k as u32 - 1)).to_bytes_be(),
    };
    [vec![0; r.below(2) * r.below(4)], b].concat()
}
fn wrong_proof(r: &mut Prng, good: &[u8], other: &[u8]) -> Vec<u8> {
    let mut w = good.to_vec();
    let l = w.len();
    match r.below(12) {
        0 | 1 | 2 => w[r.below(l)] ^= 1 << r.below(8),
        3 => w.truncate(r.below(l)),
        4 => w.push(r.u64() as u8),
        5 => w = other.to_vec(),
        6 => w = vec![0; l],
        7 => w[l - 1] ^= 0xff,
        8 => w[0] ^= 0xff,
        9 => w = vec![],
        10 => {
            let k = r.below(l);
            w[k..].fill(0);
        }
        _ => w = r.bytes(l),
    }
    if w == good {
        w[0] ^= 1;
    }
    w
}
fn srp_a(r: &mut Prng) -> Result<String, String> {
    let gr = group(r);
    let d = r.below(N_DIGESTS);
    let cr = creds(r);
    let b = secret(r, gr.bits);
    let a_pub = zero_public(r, &gr.rf.n);
    with_digest!(d, D => {
        let v = sut(|| SrpClient::<D>::new(&gr.sut).compute_verifier(&cr.user, &cr.pass, &cr.salt));
        refused(sut(|| SrpServer::<D>::new(&gr.sut).process_reply(&b, &v, &a_pub)), "client public value")
    })
}
fn srp_b(r: &mut Prng) -> Result<String, String> {
    let gr = group(r);
    let d = r.below(N_DIGESTS);
    let cr = creds(r);
    let a = secret(r, gr.bits);
    let b_pub = zero_public(r, &gr.rf.n);
    with_digest!(d, D => refused(sut(|| SrpClient::<D>::new(&gr.sut).process_reply(&a, &cr.user, &cr.pass, &cr.salt, &b_pub)), "server public value"))
}
fn srp_proof<D: Digest>(r: &mut Prng, client: bool) -> Result<String, String> {
    let gr = group(r);
    let cr = creds(r);
    loop {
        let (a, b) = (secret(r, gr.bits), secret(r, gr.bits));
        let s = session::<D>(&gr.sut, &cr, &a, &b);
        let (Ok(cl), Ok(sv)) = (s.client, s.server) else { continue };
        let (m1, m2) = (cl.proof().to_vec(), sv.proof().to_vec());
        return if client {
            let w = wrong_proof(r, &m1, &m2);
            refused(sut(|| sv.verify_client(&w)), "client proof")
        } else {
            let w = wrong_proof(r, &m2, &m1);
            refused(sut(|| cl.verify_server(&w)), "server proof")
        };
    }
}
fn srp_m1(r: &mut Prng) -> Result<String, String> {
    let d = r.below(N_STRONG);
    with_digest!(d, D => srp_proof::<D>(r, true))
}
fn srp_m2(r: &mut Prng) -> Result<String, String> {
    let d = r.below(N_STRONG);
    with_digest!(d, D => srp_proof::<D>(r, false))
}

// ------------------------------------------------------------------ SPAKE2
fn spake(r: &mut Prng, change: impl Fn(&mut Prng, &mut Vec<u8>)) -> Result<String, String> {
    let role = *r.pick(&ROLES);
    let i = ids(r);
    let (s, _) = start(role, &i, LogRng::new(r.u64()));
    let mut j = i.clone();
    if r.chance(2) {
        j.pw = r.hostile(40);
    }
    let (_, mut m) = start(role.peer(), &j, LogRng::new(r.u64()));
    change(r, &mut m);
    refused(sut(|| s.finish(&m)), &hex(&m))
}
fn spake_len(r: &mut Prng) -> Result<String, String> {
    spake(r, |r, m| {
        if r.chance(4) {
            m[0] = *r.pick(b"ABSab\0");
        }
        match r.below(3) {
            0 => m.truncate(r.below(33)),
            1 => {
                let n = r.range(1, 200);
                m.extend(r.bytes(n))
            }
            _ => *m = vec![0; *r.pick(&[0, 1, 32, 34, 66])],
        }
    })
}
fn spake_side(r: &mut Prng) -> Result<String, String> {
    spake(r, |r, m| {
        let was = m[0];
        while m[0] == was {
            m[0] = if r.chance(2) { r.u64() as u8 } else { *r.pick(b"ABSabs") };
        }
        if r.chance(3) {
            let b = r.bytes(32);
            m[1..].copy_from_slice(&b);
        }
    })
}
fn spake_corrupt(r: &mut Prng) -> Result<String, String> {
    spake(r, |r, m| loop {
        if r.chance(2) {
            let b = r.bytes(32);
            m[1..].copy_from_slice(&b);
        } else {
            let w = mutate_msg(r, m, 0).0;
            if w[0] == m[0] {
                *m = w;
            }
        }
        let b: [u8; 32] = m[1..33].try_into().unwrap();
        if curve25519_dalek::edwards::CompressedEdwardsY(b).decompress().is_none() {
            break;
        }
    })
}

// ------------------------------------------------------------------ AuCPace
const MON: [usize; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
#[derive(Clone, Copy, PartialEq)]
enum Spoil {
    Nothing,
    Blinded,
    XPub,
    Salt,
    CKey,
    SKey,
    Ta,
    Tb,
}
struct Tamper<'r> {
    what: Spoil,
    r: &'r mut Prng,
    other: [u8; 64],
    tb: [u8; 64],
}
impl Tamper<'_> {
    fn wrong(&mut self, a: &mut [u8; 64], mirrored: [u8; 64]) {
        let good = *a;
        match self.r.below(8) {
            0..=2 => a[self.r.below(64)] ^= 1 << self.r.below(8),
            3 => *a = [0; 64],
            4 => *a = mirrored,
            5 => *a = self.other,
            6 => {
                let k = self.r.below(64);
                a[k..].fill(0);
            }
            _ => *a = self.r.arr(),
        }
        if *a == good {
            a[63] ^= 1;
        }
    }
    fn neutral(&mut self) -> Pt {
        let f = self.r.below(7);
        neutral(self.r, f)
    }
}
impl Channel for Tamper<'_> {
    fn user(&mut self, _: &mut Vec<u8>, b: &mut Option<Pt>) {
        if self.what == Spoil::Blinded {
            *b = Some(self.neutral())
        }
    }
    fn aug(&mut self, a: &mut Aug) {
        match self.what {
            Spoil::XPub => a.x_pub = self.neutral(),
            Spoil::Salt => a.salt = SaltMsg::Blinded(self.neutral()),
            _ => {}
        }
    }
    fn client_key(&mut self, k: &mut Pt, _: &Pt) {
        if self.what == Spoil::CKey {
            *k = self.neutral()
        }
    }
    fn server_key(&mut self, k: &mut Pt, _: &Pt) {
        if self.what == Spoil::SKey {
            *k = self.neutral()
        }
    }
    fn tb(&mut self, t: &mut [u8; 64]) {
        self.tb = *t;
        if self.what == Spoil::Tb {
            self.wrong(t, [0xff; 64])
        }
    }
    fn ta(&mut self, t: &mut [u8; 64]) {
        if self.what == Spoil::Ta {
            let tb = self.tb;
            self.wrong(t, tb)
        }
    }
}
/// one session of which the named side must refuse; `how` may change the scene
fn auc(r: &mut Prng, what: Spoil, server: bool, how: impl FnOnce(&mut Prng, &mut Scene)) -> Result<String, String> {
    let mut s = Scene::gen(r, &MON);
    let reg = s.clone();
    how(r, &mut s);
    if matches!(what, Spoil::Blinded | Spoil::Salt) {
        s.variant.strong = true;
    }
    let mut cfg = gen_cfg(r);
    if matches!(what, Spoil::Ta | Spoil::Tb) {
        cfg.implicit = false;
    }
    let mut db = MonDb::default();
    let n = r.below(3);
    crowd(r, &mut db, &s.user, n);
    let host = s.host();
    // an unknown user, a wrong password or the right one: it must not show
    if !r.chance(3) {
        let mut e = s.clone();
        e.params = reg.params.clone();
        e.reg = ClientOpts { buf: None, ..reg.reg.clone() };
        if r.chance(3) {
            e.pass = r.mutate(&s.pass);
        }
        e.enroll(&*host, &mut db)?;
    }
    let slot = OnceLock::new();
    let mut cl = s.client(s.cseed, &slot);
    let mut sv = host.session(s.variant, s.swire, LogRng::new(r.u64()));
    let other = r.arr();
    let o = run(&cfg, &mut *cl, &mut *sv, &db, &mut Tamper { what, r, other, tb: [0; 64] });
    match if server { o.server } else { o.client } {
        None => Err(format!("the session never got there: {}", s.desc())),
        Some(x) => refused(x, &s.desc()),
    }
}
fn auc_blinded(r: &mut Prng) -> Result<String, String> {
    auc(r, Spoil::Blinded, true, |_, _| {})
}
fn auc_xpub(r: &mut Prng) -> Result<String, String> {
    auc(r, Spoil::XPub, false, |_, _| {})
}
fn auc_salt(r: &mut Prng) -> Result<String, String> {
    auc(r, Spoil::Salt, false, |_, _| {})
}
fn auc_ckey(r: &mut Prng) -> Result<String, String> {
    auc(r, Spoil::CKey, true, |_, _| {})
}
fn auc_skey(r: &mut Prng) -> Result<String, String> {
    auc(r, Spoil::SKey, false, |_, _| {})
}
fn auc_ta(r: &mut Prng) -> Result<String, String> {
    auc(r, Spoil::Ta, false, |_, _| {})
}
fn auc_tb(r: &mut Prng) -> Result<String, String> {
    auc(r, Spoil::Tb, true, |_, _| {})
}
/// a client with a wrong password, both sides honest otherwise
fn auc_guess(r: &mut Prng, server: bool) -> Result<String, String> {
    let s = Scene::gen(r, &MON);
    let mut cfg = gen_cfg(r);
    cfg.implicit = false;
    let mut db = MonDb::default();
    let host = s.host();
    let mut e = s.clone();
    e.pass = r.mutate(&s.pass);
    e.reg.buf = None;
    e.enroll(&*host, &mut db)?;
    if [&e.user[..], b":", &e.pass].concat() == [&s.user[..], b":", &s.pass].concat() {
        return Err("same credential".into());
    }
    let slot = OnceLock::new();
    let mut cl = s.client(s.cseed, &slot);
    let mut sv = host.session(s.variant, s.swire, LogRng::new(r.u64()));
    let o = run(&cfg, &mut *cl, &mut *sv, &db, &mut Honest);
    match if server { o.server } else { o.client } {
        None => Err(format!("the session never got there: {}", s.desc())),
        Some(x) => refused(x, &s.desc()),
    }
}
fn auc_guess_server(r: &mut Prng) -> Result<String, String> {
    auc_guess(r, true)
}
fn auc_guess_client(r: &mut Prng) -> Result<String, String> {
    auc_guess(r, false)
}
fn short_ssid(r: &mut Prng, server: bool) -> Result<String, String> {
    let s = Scene::gen(r, &MON);
    let n = r.below(16);
    let ssid = if r.chance(3) { vec![0; n] } else { r.bytes(n) };
    let slot = OnceLock::new();
    if server {
        refused(s.host().session(s.variant, s.swire, LogRng::new(r.u64())).preset(&ssid), "ssid")
    } else {
        refused(s.client(s.cseed, &slot).preset(&ssid), "ssid")
    }
}
fn auc_ssid_client(r: &mut Prng) -> Result<String, String> {
    short_ssid(r, false)
}
fn auc_ssid_server(r: &mut Prng) -> Result<String, String> {
    short_ssid(r, true)
}
/// password hashing that fails, in a login or a registration
fn hashing(r: &mut Prng, fault: fn(&mut Prng, &mut MonParams), login: bool) -> Result<String, String> {
    if login {
        auc(r, Spoil::Nothing, false, |r, s| {
            let mut p = s.params.clone();
            fault(r, &mut p);
            s.login.force = Some(p);
        })
    } else {
        let mut s = Scene::gen(r, &MON);
        fault(r, &mut s.params);
        let rng = LogRng::new(r.u64());
        refused(register(s.combo, &rng, &s.user, &s.pass, &s.params, s.variant.strong, &s.reg), &s.desc())
    }
}
fn absent(_: &mut Prng, p: &mut MonParams) {
    p.fault = Fault::Absent
}
fn bad_size(r: &mut Prng, p: &mut MonParams) {
    // the sizes an Output can have and a scalar cannot be made of
    p.out = *r.pick(&[10usize, 11, 16, 20, 24, 28, 31, 33, 48, 63]);
}
macro_rules! hasher_errors {
    ($($k:literal $f:ident $g:ident $l:ident),*) => {
        $(fn $f(_: &mut Prng, p: &mut MonParams) { p.fault = Fault::Err($k) }
        fn $g(r: &mut Prng) -> Result<String, String> { hashing(r, $f, false) }
        fn $l(r: &mut Prng) -> Result<String, String> { hashing(r, $f, true) })*
    };
}
hasher_errors!(0 e0 r0 l0, 1 e1 r1 l1, 2 e2 r2 l2, 3 e3 r3 l3, 4 e4 r4 l4, 5 e5 r5 l5, 6 e6 r6 l6);
fn reg_absent(r: &mut Prng) -> Result<String, String> {
    hashing(r, absent, false)
}
fn log_absent(r: &mut Prng) -> Result<String, String> {
    hashing(r, absent, true)
}
fn reg_size(r: &mut Prng) -> Result<String, String> {
    hashing(r, bad_size, false)
}
fn log_size(r: &mut Prng) -> Result<String, String> {
    hashing(r, bad_size, true)
}
fn overflow(r: &mut Prng, s: &mut Scene) -> usize {
    let b = r.below(BUFS.len());
    let total = BUFS[b] + r.below(200);
    let u = r.below(total + 1);
    s.user = r.bytes(u);
    s.pass = r.bytes(total - u);
    b
}
fn reg_long(r: &mut Prng) -> Result<String, String> {
    let mut s = Scene::gen(r, &MON);
    s.reg.buf = Some(overflow(r, &mut s));
    let rng = LogRng::new(r.u64());
    refused(register(s.combo, &rng, &s.user, &s.pass, &s.params, s.variant.strong, &s.reg), &s.desc())
}
fn log_long(r: &mut Prng) -> Result<String, String> {
    auc(r, Spoil::Nothing, false, |r, s| {
        s.login.buf = Some(overflow(r, s));
    })
}

const CAUSES: &[Cause] = &[
    ("srp: illegal A", "server given a zero client value", srp_a),
    ("srp: illegal B", "client given a zero server value", srp_b),
    ("srp: bad client proof", "server given a wrong proof", srp_m1),
    ("srp: bad server proof", "client given a wrong proof", srp_m2),
    ("spake2: length", "message of another length", spake_len),
    ("spake2: side", "message of another role", spake_side),
    ("spake2: corrupt", "bytes that encode no element", spake_corrupt),
    ("aucpace: illegal point", "neutral blinded point at the server", auc_blinded),
    ("aucpace: illegal point", "neutral augmentation key at the client", auc_xpub),
    ("aucpace: illegal point", "neutral blinded salt at the client", auc_salt),
    ("aucpace: illegal point", "neutral client key at the server", auc_ckey),
    ("aucpace: illegal point", "neutral server key at the client", auc_skey),
    ("aucpace: authentication", "wrong authenticator at the client", auc_ta),
    ("aucpace: authentication", "wrong authenticator at the server", auc_tb),
    ("aucpace: authentication", "wrong password seen by the server", auc_guess_server),
    ("aucpace: authentication", "wrong password seen by the client", auc_guess_client),
    ("aucpace: ssid", "short session id at the client", auc_ssid_client),
    ("aucpace: ssid", "short session id at the server", auc_ssid_server),
    ("aucpace: no hash", "hasher without output, registration", reg_absent),
    ("aucpace: no hash", "hasher without output, login", log_absent),
    ("aucpace: hash size", "hash of a wrong size, registration", reg_size),
    ("aucpace: hash size", "hash of a wrong size, login", log_size),
    ("aucpace: too long", "credentials too long, registration", reg_long),
    ("aucpace: too long", "credentials too long, login", log_long),
    ("aucpace: hasher error 0", "registration", r0),
    ("aucpace: hasher error 0", "login", l0),
    ("aucpace: hasher error 1", "registration", r1),
    ("aucpace: hasher error 1", "login", l1),
    ("aucpace: hasher error 2", "registration", r2),
    ("aucpace: hasher error 2", "login", l2),
    ("aucpace: hasher error 3", "registration", r3),
    ("aucpace: hasher error 3", "login", l3),
    ("aucpace: hasher error 4", "registration", r4),
    ("aucpace: hasher error 4", "login", l4),
    ("aucpace: hasher error 5", "registration", r5),
    ("aucpace: hasher error 5", "login", l5),
    ("aucpace: hasher error 6", "registration", r6),
    ("aucpace: hasher error 6", "login", l6),
];

pub fn c28(x: &mut Ctx) {
    x.rule("an evaluation is one refusal compared, as Debug and Display text, with the same refusal in an unrelated world; distinct by (cause, what the world was seeded with)");
    let n = CAUSES.len() as u64;
    // one world against another
    x.stage("two-worlds", 300 * n, 8000 * n, |c| {
        let (cause, how, f) = CAUSES[(c.idx % n) as usize];
        let mut base = Prng::new(0xE0 ^ c.idx % n);
        let t0 = f(&mut base).map_err(|e| format!("{cause}, {how}: {e}"))?;
        let s = c.rng.u64();
        let t1 = f(&mut Prng::new(s)).map_err(|e| format!("{cause}, {how}: {e}"))?;
        ensure!(t0 == t1, "the error for '{cause}' ({how}) depends on more than its cause: {t0:?} and {t1:?}");
        c.obs.count(cause);
        c.obs.seen(&[&s.to_le_bytes()[..], how.as_bytes()].concat());
        c.obs.sample(|| format!("{cause} ({how}): {t1:?}"));
        Ok(())
    });
    // every cause against every other
    x.stage("causes-apart", 24, 400, |c| {
        let mut all: Vec<(&str, &str, String)> = Vec::new();
        for (cause, how, f) in CAUSES {
            let t = f(&mut c.rng).map_err(|e| format!("{cause}, {how}: {e}"))?;
            all.push((cause, how, t));
        }
        for (i, (c1, h1, t1)) in all.iter().enumerate() {
            for (c2, h2, t2) in &all[..i] {
                c.obs.evals += 1;
                if c1 == c2 {
                    ensure!(t1 == t2, "one cause ({c1}), two errors: {t1:?} ({h1}) and {t2:?} ({h2})");
                    c.obs.count("pairs with one cause");
                } else {
                    ensure!(t1 != t2, "two causes ({c1}, {h1}; {c2}, {h2}), one error: {t1:?}");
                    c.obs.count("pairs with different causes");
                }
            }
        }
        c.obs.seen(&c.idx.to_le_bytes());
        Ok(())
    });
    let mut need: Vec<&str> = CAUSES.iter().map(|c| c.0).collect();
    need.extend(["pairs with one cause", "pairs with different causes"]);
    x.require(&need);
}
