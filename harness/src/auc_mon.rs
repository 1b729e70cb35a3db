//! AuCPace monitors: C14 to C22, C26 and the AuCPace half of C07.
use crate::auc::*;
use crate::core::*;
use crate::ensure;
use aucpace::{ClientMessage, ServerMessage};
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as BASE;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint as Pt};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use password_hash::{ParamsString, SaltString};
use std::sync::OnceLock;
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ scenes
#[derive(Clone)]
pub struct Scene {
    pub combo: Combo,
    pub variant: Variant,
    pub user: Vec<u8>,
    pub pass: Vec<u8>,
    pub params: MonParams,
    pub reg: ClientOpts,
    pub login: ClientOpts,
    pub swire: Wire,
    pub cseed: u64,
    pub sseed: u64,
}
fn fit(r: &mut Prng, need: usize) -> Option<usize> {
    let ok: Vec<usize> = (0..BUFS.len()).filter(|i| BUFS[*i] >= need).collect();
    if ok.is_empty() || r.chance(3) {
        None
    } else if r.chance(2) {
        Some(ok[0])
    } else {
        Some(*r.pick(&ok))
    }
}
fn wire(r: &mut Prng) -> Wire {
    *r.pick(&[Wire::Direct, Wire::Direct, Wire::Direct, Wire::Bincode, Wire::Postcard])
}
pub fn creds(r: &mut Prng) -> (Vec<u8>, Vec<u8>) {
    if r.chance(4) {
        // exactly filling one of the buffers
        let total = BUFS[r.below(BUFS.len())] - 1;
        let u = r.below(total + 1);
        (r.bytes(u), r.bytes(total - u))
    } else {
        (r.hostile_any(500), r.hostile_any(500))
    }
}
impl Scene {
    pub fn gen(r: &mut Prng, combos: &[usize]) -> Self {
        let combo = Combo(*r.pick(combos));
        let variant = *r.pick(&VARIANTS);
        let (user, pass) = creds(r);
        let out = *r.pick(&[32, 64]);
        let params = MonParams { cost: r.range(1, 6) as u32, tag: r.below(1000) as u32, out, fault: Fault::None };
        let need = user.len() + pass.len() + 1;
        let reg = ClientOpts { buf: fit(r, need), wire: wire(r), out, rec: None, force: None };
        let login = ClientOpts { buf: fit(r, need), wire: wire(r), out, rec: None, force: None };
        let swire = wire(r);
        Scene { combo, variant, user, pass, params, reg, login, swire, cseed: r.u64(), sseed: r.u64() }
    }
    /// mostly the instrumented hasher, scrypt in one case of `n`
    pub fn any(r: &mut Prng, n: usize) -> Self {
        let all = r.chance(n);
        Scene::gen(r, if all { &ALL } else { &MON })
    }
    pub fn desc(&self) -> String {
        format!(
            "{} strong={} K1={} scrypt={} twist={} user {} pass {} reg-buf {:?} login-buf {:?} wire {:?}/{:?} hash {} bytes cost {} tag {}",
            if self.variant.partial { "partial" } else { "full" },
            self.variant.strong,
            self.combo.k1(),
            self.combo.scrypt(),
            self.combo.twist(),
            sh(&self.user),
            sh(&self.pass),
            self.reg.buf.map(|i| BUFS[i]),
            self.login.buf.map(|i| BUFS[i]),
            self.login.wire,
            self.swire,
            self.params.out,
            self.params.cost,
            self.params.tag,
        )
    }
    pub fn registration(&self, seed: u64) -> Result<Reg, String> {
        register(self.combo, &LogRng::new(seed), &self.user, &self.pass, &self.params, self.variant.strong, &self.reg)
            .map_err(|e| format!("registration failed with {e:?}: {}", self.desc()))
    }
    pub fn client<'a>(&'a self, seed: u64, slot: &'a OnceLock<SaltString>) -> Box<dyn ClientPeer<'a> + Send + 'a> {
        mk_client(self.combo, LogRng::new(seed), &self.user, &self.pass, slot, self.variant.strong, &self.login)
    }
    pub fn host(&self) -> Box<dyn Host> {
        mk_host(self.combo, LogRng::new(self.sseed))
    }
    /// everything needed for this user to log in
    pub fn enroll(&self, host: &dyn Host, db: &mut MonDb) -> R {
        self.registration(self.cseed ^ 0x77)?.store(db);
        if self.variant.partial {
            db.keys.insert(self.user.clone(), host.keypair());
        }
        Ok(())
    }
}
/// other people's records
pub fn crowd(r: &mut Prng, db: &mut MonDb, not: &[u8], n: usize) {
    for _ in 0..n {
        let u = r.mutate(not);
        let salt = SaltString::encode_b64(&r.bytes(16)).unwrap();
        let params = wire_params_of(Combo(0), &MonParams::default());
        db.plain.insert(u.clone(), Rec { verifier: rand_point(r), salt, params: params.clone() });
        db.strong.insert(u.clone(), StrongRec { verifier: rand_point(r), q: rand_scalar(r), params });
        let x = rand_scalar(r);
        db.keys.insert(u, (x, BASE * x));
    }
}
pub fn gen_ssid(r: &mut Prng) -> Ssid {
    if r.chance(2) {
        Ssid::Negotiated
    } else {
        let s = ssid_bytes(r);
        Ssid::Preset(s.clone(), s)
    }
}
fn ssid_bytes(r: &mut Prng) -> Vec<u8> {
    let n = if r.chance(200) { *r.pick(&[1024usize, 4097, 65_536, 65_537]) } else { *r.pick(&[16usize, 17, 24, 31, 32, 63, 64, 65, 100, 128, 300]) };
    if r.chance(8) { vec![0; n] } else { r.bytes(n) }
}
pub fn gen_cfg(r: &mut Prng) -> SessCfg {
    let ci = r.hostile_any(300);
    SessCfg { ssid: gen_ssid(r), implicit: r.chance(2), ci_c: ci.clone(), ci_s: ci }
}
pub fn variant_name(v: Variant) -> &'static str {
    match (v.strong, v.partial) {
        (false, false) => "plain",
        (false, true) => "partial",
        (true, false) => "strong",
        (true, true) => "strong-partial",
    }
}
const ALL: [usize; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
const MON: [usize; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
/// nonces long enough never to repeat by chance
const BIG: [usize; 5] = [0, 4, 5, 6, 7];

fn agreed(o: &Outcome, what: &str) -> R {
    match (&o.client, &o.server) {
        (Some(Ok(a)), Some(Ok(b))) => {
            ensure!(a == b, "keys differ: client {} server {}: {what}", hex(a), hex(b));
            ensure!(a.len() == 64, "key of {} bytes: {what}", a.len());
            ensure!(a.iter().any(|b| *b != a[0]), "degenerate key {}: {what}", hex(a));
            Ok(())
        }
        _ => Err(format!("honest session failed: client {:?} server {:?}: {what}", o.client, o.server)),
    }
}
fn note_mode(c: &mut Case<'_>, s: &Scene, cfg: &SessCfg) {
    c.obs.count(variant_name(s.variant));
    c.obs.count(if cfg.implicit { "implicit" } else { "explicit" });
    c.obs.count(if matches!(cfg.ssid, Ssid::Negotiated) { "negotiated-ssid" } else { "preset-ssid" });
}

// ------------------------------------------------------------------ C14
pub fn c14(x: &mut Ctx) {
    x.rule("a distinct non-trivial case is one complete honest registration and login between the real client and the real server, told apart by transcript and final key");
    x.stage("sessions", 9_000, 250_000, |c| {
        let s = Scene::any(&mut c.rng, 3);
        let cfg = gen_cfg(&mut c.rng);
        honest(c, &s, &cfg)
    });
    x.stage_n("huge", 4 * 4 * HUGE.len() as u64, |c| {
        let n = c.idx as usize;
        let mut s = Scene::gen(&mut c.rng, &MON);
        s.variant = VARIANTS[n % 4];
        let wire = *c.rng.pick(&[Wire::Direct, Wire::Bincode]);
        (s.reg.buf, s.login.buf) = (None, None);
        (s.reg.wire, s.login.wire, s.swire) = (wire, wire, wire);
        let mut cfg = gen_cfg(&mut c.rng);
        let v = c.rng.huge(n / 16);
        match n / 4 % 4 {
            0 => s.user = v,
            1 => s.pass = v,
            2 => {
                cfg.ci_c = v.clone();
                cfg.ci_s = v;
            }
            _ => cfg.ssid = Ssid::Preset(v.clone(), v),
        }
        c.obs.count("huge inputs");
        honest(c, &s, &cfg)
    });
    // every variant x ssid mode x authentication x heap/fixed mix x hash size, each with several credentials
    x.stage_n("mode-grid", if x.thorough { 4 * 2 * 2 * 9 * 2 * 60 } else { 4 * 2 * 2 * 9 * 2 * 3 }, |c| {
        let mut i = c.idx as usize;
        let mut take = |n: usize| {
            let v = i % n;
            i /= n;
            v
        };
        let (v, ss, im, mix, h) = (take(4), take(2), take(2), take(9), take(2));
        let mut s = Scene::gen(&mut c.rng, &MON);
        if s.user.len() + s.pass.len() + 1 > 1200 {
            s.user.truncate(10);
            s.pass.truncate(1100);
        }
        s.variant = VARIANTS[v];
        let exact = BUFS.iter().position(|b| *b > s.user.len() + s.pass.len());
        let opt = |k: usize| match k {
            0 => None,
            1 => exact,
            _ => Some(BUFS.len() - 1),
        };
        s.reg.buf = opt(mix % 3);
        s.login.buf = opt(mix / 3);
        s.params.out = [32, 64][h];
        s.reg.out = s.params.out;
        s.login.out = s.params.out;
        let mut cfg = gen_cfg(&mut c.rng);
        cfg.implicit = im == 1;
        cfg.ssid = if ss == 0 {
            Ssid::Negotiated
        } else {
            let b = ssid_bytes(&mut c.rng);
            Ssid::Preset(b.clone(), b)
        };
        honest(c, &s, &cfg)
    });
    // one server, one enrolment, many logins through one client value
    x.stage("many-logins", 150, 4000, |c| {
        let s = Scene::gen(&mut c.rng, &MON);
        let mut db = MonDb::default();
        let host = s.host();
        s.enroll(&*host, &mut db)?;
        let mut keys = HashSet::new();
        for i in 0..c.rng.range(3, 12) {
            let cfg = gen_cfg(&mut c.rng);
            let slot = OnceLock::new();
            let mut cl = s.client(s.cseed ^ (i as u64 + 1) << 32, &slot);
            let mut sv = host.session(s.variant, s.swire, LogRng::new(c.rng.u64()));
            let o = run(&cfg, &mut *cl, &mut *sv, &db, &mut Honest);
            agreed(&o, &s.desc())?;
            ensure!(keys.insert(o.ck().unwrap().clone()), "two logins gave the same key: {}", s.desc());
            c.obs.seen(&o.tr.bytes());
            c.obs.count("repeated logins");
        }
        Ok(())
    });
    x.require(&["plain", "partial", "strong", "strong-partial", "implicit", "explicit", "negotiated-ssid", "preset-ssid", "repeated logins", "heap registration, fixed login", "fixed registration, heap login"]);
}
fn honest(c: &mut Case<'_>, s: &Scene, cfg: &SessCfg) -> R {
    let mut db = MonDb::default();
    let n = c.rng.below(4);
    crowd(&mut c.rng, &mut db, &s.user, n);
    let host = s.host();
    s.enroll(&*host, &mut db)?;
    let slot = OnceLock::new();
    let mut cl = s.client(s.cseed, &slot);
    let mut sv = host.session(s.variant, s.swire, LogRng::new(c.rng.u64()));
    let o = run(cfg, &mut *cl, &mut *sv, &db, &mut Honest);
    agreed(&o, &format!("{} {cfg:?}", s.desc()))?;
    note_mode(c, s, cfg);
    match (s.reg.buf, s.login.buf) {
        (None, Some(_)) => c.obs.count("heap registration, fixed login"),
        (Some(_), None) => c.obs.count("fixed registration, heap login"),
        _ => {}
    }
    let mut k = o.tr.bytes();
    k.extend(o.ck().unwrap());
    c.obs.seen(&k);
    c.obs.sample(|| format!("{} -> key {}", s.desc(), sh(o.ck().unwrap())));
    Ok(())
}

// ------------------------------------------------------------------ C15
/// do these credentials hash to the same thing whatever the protocol does? (scrypt keys an HMAC with
/// username:password, and HMAC does not tell a short key from the same key followed by zero bytes)
fn same_secret(c: Combo, a: (&[u8], &[u8]), b: (&[u8], &[u8])) -> bool {
    fn key(v: Vec<u8>) -> Vec<u8> {
        use sha2::Digest;
        let mut v = if v.len() > 64 { sha2::Sha256::digest(&v).to_vec() } else { v };
        v.resize(64, 0);
        v
    }
    let (a, b) = (user_pass(a.0, a.1), user_pass(b.0, b.1));
    a == b || c.scrypt() && key(a) == key(b)
}
/// what the attacker does to one session
#[derive(Clone, Default)]
struct Attack {
    kind: usize,
    sub: usize,
    donor: Transcript,
    other_user: Vec<u8>,
    other_salt: Option<SaltString>,
    p1: Pt,
    p2: Pt,
    rnd: Vec<u8>,
    // seen so far
    own_tb: Option<[u8; 64]>,
    own_u: Option<Pt>,
    applied: bool,
}
impl Attack {
    fn flip(&self, v: &mut [u8]) {
        let i = self.sub % (8 * v.len());
        v[i / 8] ^= 1 << (i % 8);
    }
    fn pt(&self, p: &mut Pt, reflect: Option<Pt>, donor: Option<Pt>) -> bool {
        let q = match self.sub % 6 {
            0 => self.p1,
            1 => -*p,
            2 => *p + *p,
            3 => reflect.unwrap_or(self.p2),
            4 => donor.unwrap_or(self.p1),
            _ => *p + BASE,
        };
        let ch = q != *p;
        *p = q;
        ch
    }
    fn forged(&self, n: usize) -> [u8; 64] {
        let mut r = [0u8; 64];
        r.copy_from_slice(&self.rnd[..64]);
        match n % 7 {
            0 => [0; 64],
            1 => self.own_tb.unwrap_or(r),
            2 => self.donor.ta.unwrap_or(r),
            3 => self.donor.tb.unwrap_or(r),
            4 => {
                let mut t = self.own_tb.unwrap_or(r);
                t.reverse();
                t
            }
            5 => [0xff; 64],
            _ => r,
        }
    }
}
const KINDS: [&str; 26] = [
    "wrong password", "unregistered user", "client nonce altered", "server nonce altered", "session ids differ", "channel identifiers differ",
    "username replaced by another user's", "username replaced by an unknown one", "blinded point altered", "server augmentation key altered", "salt altered",
    "blinded salt altered", "parameters altered", "client key altered", "server key altered", "both keys reflected", "both keys replaced", "client authenticator forged",
    "server authenticator forged", "stored verifier of someone else", "long-term key pair mismatch", "client messages replayed", "server messages replayed",
    "old password after a change", "both nonces swapped", "client key and authenticator replayed",
];
impl Channel for Attack {
    fn client_nonce(&mut self, n: &mut Vec<u8>) {
        match self.kind {
            2 => {
                self.flip(n);
                self.applied = true
            }
            21 if !self.donor.cn.is_empty() => *n = self.donor.cn.clone(),
            _ => {}
        }
    }
    fn server_nonce(&mut self, n: &mut Vec<u8>) {
        match self.kind {
            3 => {
                self.flip(n);
                self.applied = true
            }
            22 if !self.donor.sn.is_empty() => *n = self.donor.sn.clone(),
            _ => {}
        }
    }
    fn user(&mut self, u: &mut Vec<u8>, b: &mut Option<Pt>) {
        self.own_u = *b;
        match self.kind {
            6 | 7 => {
                *u = self.other_user.clone();
                self.applied = true
            }
            8 => {
                if let Some(p) = b {
                    self.applied = self.pt(p, None, self.donor.blinded)
                }
            }
            21 => {
                *u = self.donor.user.clone();
                *b = self.donor.blinded
            }
            _ => {}
        }
    }
    fn aug(&mut self, a: &mut Aug) {
        match self.kind {
            9 => self.applied = self.pt(&mut a.x_pub, None, self.donor.aug.as_ref().map(|a| a.x_pub)),
            10 => {
                if let SaltMsg::Plain(s) = &mut a.salt {
                    let n = match self.sub % 3 {
                        0 => self.other_salt.clone().unwrap(),
                        1 => SaltString::encode_b64(&self.rnd[..16]).unwrap(),
                        _ => {
                            // one character further
                            let mut t = s.as_str().as_bytes().to_vec();
                            let i = self.rnd[0] as usize % (t.len() - 1);
                            t[i] = if t[i] == b'A' { b'B' } else { b'A' };
                            SaltString::from_b64(std::str::from_utf8(&t).unwrap()).unwrap()
                        }
                    };
                    self.applied = n != *s;
                    *s = n;
                }
            }
            11 => {
                let r = self.own_u;
                if let SaltMsg::Blinded(p) = &mut a.salt {
                    let mut q = *p;
                    let d = match self.donor.aug.as_ref().map(|a| &a.salt) {
                        Some(SaltMsg::Blinded(p)) => Some(*p),
                        _ => None,
                    };
                    self.applied = self.pt(&mut q, r, d);
                    *p = q;
                }
            }
            12 => {
                let mut p = ParamsString::new();
                for (k, v) in a.params.iter() {
                    let mut n = v.decimal().unwrap_or(0);
                    if (k.as_str() == "t" || k.as_str() == "r") && self.sub % 2 == 0 || (k.as_str() == "c" || k.as_str() == "ln") && self.sub % 2 == 1 {
                        n = if n > 1 { n - 1 } else { n + 1 };
                        self.applied = true;
                    }
                    p.add_decimal(k.as_str(), n).unwrap();
                }
                a.params = p;
            }
            22 => *a = self.donor.aug.clone().unwrap(),
            _ => {}
        }
    }
    fn client_key(&mut self, k: &mut Pt, sk: &Pt) {
        match self.kind {
            13 => self.applied = self.pt(k, Some(*sk), self.donor.cpk),
            15 => {
                *k = *sk;
                self.applied = true
            }
            16 => {
                *k = self.p1;
                self.applied = true
            }
            21 | 25 => *k = self.donor.cpk.unwrap(),
            _ => {}
        }
    }
    fn server_key(&mut self, k: &mut Pt, ck: &Pt) {
        match self.kind {
            14 => self.applied = self.pt(k, Some(*ck), self.donor.spk),
            15 => *k = *ck,
            16 => *k = self.p2,
            22 => *k = self.donor.spk.unwrap(),
            _ => {}
        }
    }
    fn tb(&mut self, t: &mut [u8; 64]) {
        self.own_tb = Some(*t);
        match self.kind {
            17 => {
                let n = match self.sub % 4 {
                    0 | 1 => {
                        let mut n = *t;
                        self.flip(&mut n);
                        n
                    }
                    2 => self.forged([0, 2, 3, 4, 5, 6][self.sub / 4 % 6]),
                    _ => {
                        let mut n = *t;
                        n[self.sub / 4 % 64..].fill(self.rnd[0]);
                        n
                    }
                };
                self.applied = n != *t;
                *t = n;
            }
            21 | 25 => *t = self.donor.tb.unwrap(),
            _ => {}
        }
    }
    fn ta(&mut self, t: &mut [u8; 64]) {
        if self.kind == 18 {
            let n = match self.sub % 3 {
                0 => {
                    let mut n = *t;
                    self.flip(&mut n);
                    n
                }
                1 => self.forged(self.sub / 3),
                _ => {
                    let mut n = *t;
                    n[self.sub / 3 % 64..].fill(self.rnd[0]);
                    n
                }
            };
            self.applied = n != *t;
            *t = n;
        } else if self.kind == 22 {
            *t = self.donor.ta.unwrap();
        } else if *t == [0; 64] {
            // the server refused or never got this far
            *t = self.forged(self.sub / 5);
        }
    }
}
pub fn c15(x: &mut Ctx) {
    x.rule("a distinct non-trivial case is one attacked session in which the attack really changed something, told apart by attack kind and transcript");
    x.stage("attacks", 12_000, 350_000, |c| {
        let kind = (c.idx % KINDS.len() as u64) as usize;
        attack(c, kind)
    });
    // every bit of both nonces, of the authenticators and of preset ids
    x.stage_n("every-bit", if x.thorough { 4 * 2 * 24 } else { 8 }, |c| every_bit(c));
    x.stage_n("huge", 4 * 4 * HUGE.len() as u64, |c| {
        let n = c.idx as usize;
        let mut s = Scene::gen(&mut c.rng, &MON);
        s.variant = VARIANTS[n % 4];
        let wire = *c.rng.pick(&[Wire::Direct, Wire::Bincode]);
        (s.reg.buf, s.login.buf) = (None, None);
        (s.reg.wire, s.login.wire, s.swire) = (wire, wire, wire);
        let mut cfg = gen_cfg(&mut c.rng);
        let v = c.rng.huge(n / 16);
        let w = c.rng.huge_neighbour(&v);
        let mut me = s.clone();
        match n / 4 % 3 {
            0 => {
                s.pass = v;
                me.pass = w;
            }
            1 => {
                cfg.ci_c = v;
                cfg.ci_s = w;
            }
            _ => cfg.ssid = Ssid::Preset(v, w),
        }
        let mut db = MonDb::default();
        let host = s.host();
        s.enroll(&*host, &mut db)?;
        me.user = s.user.clone();
        let slot = OnceLock::new();
        let mut cl = me.client(c.rng.u64(), &slot);
        let mut sv = host.session(s.variant, s.swire, LogRng::new(c.rng.u64()));
        let o = run(&cfg, &mut *cl, &mut *sv, &db, &mut Honest);
        let ok = if cfg.implicit { o.ck().is_some() && o.ck() != o.sk() } else { o.ck().is_none() && o.sk().is_none() };
        ensure!(ok, "{} of {} bytes with one bit changed: client {:?} server {:?}: {}", ["password", "channel identifier", "session id"][n / 4 % 3], HUGE[n / 16 % HUGE.len()], o.client, o.server, s.desc());
        c.obs.count("huge inputs");
        c.obs.seen(&o.tr.bytes());
        Ok(())
    });
    x.stage_n("lookalikes", if x.thorough { 24 } else { 12 } * LOOKALIKES.len() as u64, |c| lookalikes(c));
    let mut need: Vec<&str> = KINDS.to_vec();
    need.push("lookalikes");
    x.require(&need);
}
/// Credentials and channel identifiers that some normalisation would take for the same.
fn lookalikes(c: &mut Case<'_>) -> R {
    let mut s = Scene::gen(&mut c.rng, &MON);
    let n = c.idx as usize;
    let (a, b) = c.rng.lookalike(n);
    let mut cfg = gen_cfg(&mut c.rng);
    s.reg.buf = None;
    s.login.buf = None;
    let field = n / (4 * LOOKALIKES.len()) % 3;
    let mut me = s.clone();
    match field {
        0 => {
            s.pass = a;
            me.pass = b;
        }
        1 => {
            cfg.ci_c = a;
            cfg.ci_s = b;
        }
        _ => {
            // the record was made for another name and stored under this one
            s.user = a;
            me.user = b;
        }
    }
    let mut db = MonDb::default();
    let host = s.host();
    s.enroll(&*host, &mut db)?;
    if field == 2 {
        if let Some(r) = db.plain.remove(&s.user) {
            db.plain.insert(me.user.clone(), r);
        }
        if let Some(r) = db.strong.remove(&s.user) {
            db.strong.insert(me.user.clone(), r);
        }
        if let Some(r) = db.keys.remove(&s.user) {
            db.keys.insert(me.user.clone(), r);
        }
    }
    if same_secret(s.combo, (&me.user, &me.pass), (&s.user, &s.pass)) && field != 1 {
        return Ok(());
    }
    let slot = OnceLock::new();
    let mut cl = me.client(c.rng.u64(), &slot);
    let mut sv = host.session(s.variant, s.swire, LogRng::new(c.rng.u64()));
    let o = run(&cfg, &mut *cl, &mut *sv, &db, &mut Honest);
    let d = || format!("{} differs a little: {cfg:?}: client {:?} server {:?}: login {} {} registered {}", ["password", "channel identifier", "username"][field], o.client, o.server, sh(&me.user), sh(&me.pass), s.desc());
    if cfg.implicit {
        ensure!(o.ck().is_some() && o.sk().is_some() && o.ck() != o.sk(), "{}", d());
    } else {
        ensure!(o.ck().is_none() && o.sk().is_none(), "{}", d());
    }
    c.obs.count("lookalikes");
    c.obs.seen(&o.tr.bytes());
    Ok(())
}
fn attack(c: &mut Case<'_>, kind: usize) -> R {
    let mut s = Scene::any(&mut c.rng, 4);
    let implicit = c.rng.chance(3) && !matches!(kind, 17 | 18 | 21 | 22 | 25);
    match kind {
        8 | 11 => s.variant.strong = true,
        10 => s.variant.strong = false,
        20 => s.variant.partial = true,
        _ => {}
    }
    let mut ssid = gen_ssid(&mut c.rng);
    if matches!(kind, 2 | 3 | 24) {
        ssid = Ssid::Negotiated;
    }
    if kind == 4 {
        let a = ssid_bytes(&mut c.rng);
        let mut b = c.rng.mutate(&a);
        while b.len() < 16 {
            b = c.rng.mutate(&a);
        }
        ssid = Ssid::Preset(a, b);
    }
    let ci = c.rng.hostile_any(200);
    let mut cfg = SessCfg { ssid, implicit, ci_c: ci.clone(), ci_s: ci };
    let cfg0 = {
        let mut g = cfg.clone();
        g.implicit = false;
        if let Ssid::Preset(a, b) = &mut g.ssid {
            *b = a.clone();
        }
        g
    };
    if kind == 5 {
        cfg.ci_s = c.rng.mutate(&cfg.ci_c);
    }
    // the database: our user and another one, whose credentials differ as a whole
    let mut db = MonDb::default();
    let host = s.host();
    let mut o = s.clone();
    o.user = c.rng.mutate(&s.user);
    o.pass = if c.rng.chance(3) { s.pass.clone() } else { c.rng.hostile(100) };
    if c.rng.chance(4) {
        // the same bytes, cut elsewhere
        let mut w = c.rng.resplit(&[&s.user, &s.pass]);
        if w[0] != s.user {
            (o.pass, o.user) = (w.pop().unwrap(), w.pop().unwrap());
        }
    }
    o.reg.buf = None;
    o.cseed = c.rng.u64();
    if same_secret(s.combo, (&o.user, &o.pass), (&s.user, &s.pass)) {
        return Ok(());
    }
    o.enroll(&*host, &mut db)?;
    s.enroll(&*host, &mut db)?;
    let other_salt = db.plain.get(&o.user).map(|r| r.salt.clone());
    // an earlier honest session of the same user
    let donor = {
        let slot = OnceLock::new();
        let mut cl = s.client(s.cseed ^ 0xD0, &slot);
        let mut sv = host.session(s.variant, s.swire, LogRng::new(c.rng.u64()));
        let d = run(&cfg0, &mut *cl, &mut *sv, &db, &mut Honest);
        agreed(&d, &s.desc())?;
        d
    };
    let mut at = Attack {
        kind,
        sub: c.rng.below(1 << 20),
        donor: donor.tr.clone(),
        other_user: o.user.clone(),
        other_salt,
        p1: rand_point(&mut c.rng),
        p2: rand_point(&mut c.rng),
        rnd: c.rng.bytes(64),
        ..Default::default()
    };
    let mut me = s.clone();
    match kind {
        0 => {
            me.pass = c.rng.mutate(&s.pass);
            me.login.buf = None;
            if same_secret(s.combo, (&me.user, &me.pass), (&s.user, &s.pass)) {
                return Ok(());
            }
        }
        1 => {
            db.plain.remove(&s.user);
            db.strong.remove(&s.user);
            if c.rng.chance(2) {
                db.keys.remove(&s.user);
            }
        }
        7 => {
            at.other_user = c.rng.mutate(&s.user);
            if at.other_user == o.user {
                return Ok(());
            }
        }
        19 => {
            if s.variant.strong {
                let r = db.strong[&o.user].clone();
                let own = db.strong.get_mut(&s.user).unwrap();
                if c.rng.chance(2) { own.q = r.q } else { own.verifier = r.verifier }
            } else {
                let r = db.plain[&o.user].clone();
                let own = db.plain.get_mut(&s.user).unwrap();
                if c.rng.chance(2) { own.salt = r.salt } else { own.verifier = r.verifier }
            }
        }
        20 => {
            let k = host.keypair();
            let own = db.keys.get_mut(&s.user).unwrap();
            if c.rng.chance(2) { own.0 = k.0 } else { own.1 = k.1 }
        }
        23 => {
            // the stored record is now that of a new password
            let mut n = s.clone();
            n.pass = c.rng.mutate(&s.pass);
            n.reg.buf = None;
            if same_secret(s.combo, (&n.user, &n.pass), (&s.user, &s.pass)) {
                return Ok(());
            }
            n.registration(c.rng.u64())?.store(&mut db);
        }
        _ => {}
    }
    let slot = OnceLock::new();
    let mut cl = me.client(s.cseed ^ 0xC0FFEE, &slot);
    let mut sv = host.session(s.variant, s.swire, LogRng::new(c.rng.u64()));
    let r = if kind == 24 {
        // each side's nonce delivered to itself: both use the same two nonces, in different places
        let mut o = Outcome::default();
        let (cn, sn) = (cl.nonce(), sv.nonce());
        if cn == sn {
            return Ok(());
        }
        cl.agree(&cn);
        sv.agree(&sn);
        o.tr.cn = cn;
        o.tr.sn = sn;
        let mut pre = Preagreed { c: &mut *cl, s: &mut *sv };
        pre.rest(&cfg, &db, &mut at, o)
    } else {
        run(&cfg, &mut *cl, &mut *sv, &db, &mut at)
    };
    let d = || format!("{}; {cfg:?}; attack '{}' ({}); client {:?} server {:?}", s.desc(), KINDS[kind], at.sub, r.client, r.server);
    let must_apply = matches!(kind, 2 | 3 | 6..=18);
    if must_apply && !at.applied {
        c.obs.count("attack changed nothing");
        return Ok(());
    }
    if implicit {
        match (r.ck(), r.sk()) {
            (Some(a), Some(b)) => {
                ensure!(a != b, "equal keys despite the attack: {}", d());
                for k in [a, b] {
                    ensure!(Some(k) != donor.ck(), "key of an earlier session came back: {}", d());
                }
                c.obs.count("implicit: keys differ");
            }
            _ => c.obs.count("implicit: refused"),
        }
    } else {
        let (cd, sd) = (r.ck().is_some(), r.sk().is_some());
        match kind {
            18 => {
                ensure!(sd, "server refused an untouched session: {}", d());
                ensure!(!cd, "client accepted a forged authenticator: {}", d());
            }
            21 | 25 => ensure!(!sd, "server accepted a replayed client: {}", d()),
            22 => ensure!(!cd, "client accepted a replayed server: {}", d()),
            _ => {
                ensure!(!sd, "server handed out a key: {}", d());
                ensure!(!cd, "client handed out a key: {}", d());
            }
        }
        c.obs.count("explicit: refused");
    }
    c.obs.count(KINDS[kind]);
    c.obs.count(variant_name(s.variant));
    let mut k = vec![kind as u8, implicit as u8];
    k.extend(r.tr.bytes());
    c.obs.seen(&k);
    c.obs.sample(|| d());
    Ok(())
}
struct Preagreed<'x, 'a> {
    c: &'x mut dyn ClientPeer<'a>,
    s: &'x mut dyn ServerPeer,
}
impl<'a> Preagreed<'_, 'a> {
    fn rest(&mut self, cfg: &SessCfg, db: &MonDb, ch: &mut dyn Channel, o: Outcome) -> Outcome {
        struct C<'y, 'a>(&'y mut dyn ClientPeer<'a>);
        struct S<'y>(&'y mut dyn ServerPeer);
        impl<'a> ClientPeer<'a> for C<'_, 'a> {
            fn nonce(&mut self) -> Vec<u8> { vec![] }
            fn agree(&mut self, _: &[u8]) {}
            fn preset(&mut self, _: &[u8]) -> Result<(), AErr> { Ok(()) }
            fn start(&mut self) -> (Vec<u8>, Option<Pt>) { self.0.start() }
            fn aug(&mut self, a: &Aug) -> Result<(), AErr> { self.0.aug(a) }
            fn public_key(&mut self, ci: &[u8]) -> Pt { self.0.public_key(ci) }
            fn recv_key(&mut self, k: Pt) -> Result<[u8; 64], AErr> { self.0.recv_key(k) }
            fn implicit(&mut self, k: Pt) -> Result<Vec<u8>, AErr> { self.0.implicit(k) }
            fn recv_auth(&mut self, a: [u8; 64]) -> Result<Vec<u8>, AErr> { self.0.recv_auth(a) }
        }
        impl ServerPeer for S<'_> {
            fn nonce(&mut self) -> Vec<u8> { vec![] }
            fn agree(&mut self, _: &[u8]) {}
            fn preset(&mut self, _: &[u8]) -> Result<(), AErr> { Ok(()) }
            fn info(&mut self, u: &[u8], b: Option<Pt>, db: &MonDb) -> Result<Aug, AErr> { self.0.info(u, b, db) }
            fn public_key(&mut self, ci: &[u8]) -> Pt { self.0.public_key(ci) }
            fn recv_key(&mut self, k: Pt) -> Result<(), AErr> { self.0.recv_key(k) }
            fn implicit(&mut self, k: Pt) -> Result<Vec<u8>, AErr> { self.0.implicit(k) }
            fn recv_auth(&mut self, a: [u8; 64]) -> Result<(Vec<u8>, [u8; 64]), AErr> { self.0.recv_auth(a) }
        }
        let mut cfg = cfg.clone();
        cfg.ssid = Ssid::Preset(vec![], vec![]);
        let mut r = run(&cfg, &mut C(self.c), &mut S(self.s), db, ch);
        r.tr.cn = o.tr.cn;
        r.tr.sn = o.tr.sn;
        r
    }
}
/// flips every bit of one message of a session that is replayed deterministically
struct FlipCh {
    field: usize,
    bit: usize,
}
impl FlipCh {
    fn f(&self, field: usize, v: &mut [u8]) {
        if field == self.field {
            v[self.bit / 8 % v.len()] ^= 1 << (self.bit % 8);
        }
    }
}
impl Channel for FlipCh {
    fn client_nonce(&mut self, n: &mut Vec<u8>) {
        self.f(0, n)
    }
    fn server_nonce(&mut self, n: &mut Vec<u8>) {
        self.f(1, n)
    }
    fn tb(&mut self, t: &mut [u8; 64]) {
        self.f(2, t)
    }
    fn ta(&mut self, t: &mut [u8; 64]) {
        if self.field == 3 {
            self.f(3, t)
        }
    }
}
fn every_bit(c: &mut Case<'_>) -> R {
    let mut s = Scene::gen(&mut c.rng, &MON);
    s.variant = VARIANTS[c.idx as usize % 4];
    s.combo = Combo(*c.rng.pick(&[0usize, 2, 3, 6]));
    let implicit = c.idx / 4 % 2 == 1;
    let cfg = SessCfg { ssid: Ssid::Negotiated, implicit, ci_c: vec![1], ci_s: vec![1] };
    let k1 = s.combo.k1();
    let fields: &[(usize, usize)] = if implicit { &[(0, k1), (1, k1)] } else { &[(0, k1), (1, k1), (2, 64), (3, 64)] };
    let seed = c.rng.u64();
    for (f, len) in fields {
        for bit in 0..8 * len {
            let mut db = MonDb::default();
            let host = s.host();
            s.enroll(&*host, &mut db)?;
            let slot = OnceLock::new();
            let mut cl = s.client(s.cseed, &slot);
            let mut sv = host.session(s.variant, s.swire, LogRng::new(seed));
            let o = run(&cfg, &mut *cl, &mut *sv, &db, &mut FlipCh { field: *f, bit });
            let d = || format!("bit {bit} of message {f} flipped: client {:?} server {:?}: {}", o.client, o.server, s.desc());
            if implicit {
                ensure!(o.ck().is_some() && o.sk().is_some() && o.ck() != o.sk(), "{}", d());
            } else {
                ensure!(o.ck().is_none(), "client accepted: {}", d());
                ensure!(o.sk().is_none() || *f == 3, "server accepted: {}", d());
            }
            c.obs.count("single bits flipped");
            c.obs.seen(&[&o.tr.bytes()[..], &[*f as u8, bit as u8, (bit >> 8) as u8]].concat());
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C07, AuCPace half
pub fn c07(x: &mut Ctx) {
    x.stage_n("aucpace-authenticators", if x.thorough { 120 } else { 8 }, |c| {
        let mut s = Scene::gen(&mut c.rng, &[0, 6, 8]);
        if c.idx % 8 != 7 {
            s.combo = Combo([0, 6][c.idx as usize % 2]);
        }
        s.variant = VARIANTS[c.idx as usize / 2 % 4];
        let seed = c.rng.u64();
        let cfg = SessCfg { ssid: Ssid::Negotiated, implicit: false, ci_c: vec![], ci_s: vec![] };
        let go = |ch: &mut dyn Channel| -> Result<Outcome, String> {
            let mut db = MonDb::default();
            let host = s.host();
            s.enroll(&*host, &mut db)?;
            let slot = OnceLock::new();
            let mut cl = s.client(s.cseed, &slot);
            let mut sv = host.session(s.variant, Wire::Direct, LogRng::new(seed));
            Ok(run(&cfg, &mut *cl, &mut *sv, &db, ch))
        };
        struct Put {
            tb: Option<[u8; 64]>,
            ta: Option<[u8; 64]>,
        }
        impl Channel for Put {
            fn tb(&mut self, t: &mut [u8; 64]) {
                if let Some(v) = self.tb {
                    *t = v
                }
            }
            fn ta(&mut self, t: &mut [u8; 64]) {
                if let Some(v) = self.ta {
                    *t = v
                }
            }
        }
        let base = go(&mut Honest)?;
        agreed(&base, &s.desc())?;
        let (tb, ta) = (base.tr.tb.unwrap(), base.tr.ta.unwrap());
        for (dir, good) in [(0, tb), (1, ta)] {
            let mut cand: Vec<[u8; 64]> = vec![good, tb, ta, [0; 64], [0xff; 64]];
            for bit in 0..512 {
                let mut w = good;
                w[bit / 8] ^= 1 << (bit % 8);
                cand.push(w);
            }
            for k in 0..64 {
                let mut w = good;
                w.rotate_left(k);
                cand.push(w);
                let mut w = good;
                w.swap(k, (k + 1) % 64);
                cand.push(w);
                let mut w = good;
                w[k..].fill(0);
                cand.push(w);
                let mut w = good;
                w[..k].fill(0);
                cand.push(w);
                let mut w = good;
                w[k] ^= 0x80;
                w[(k + 7) % 64] ^= 0x80;
                cand.push(w);
                let mut w = good;
                w[k] = w[k].wrapping_add(1);
                w[(k + 3) % 64] = w[(k + 3) % 64].wrapping_sub(1);
                cand.push(w);
                let mut w = good;
                c.rng.fill(&mut w[k..]);
                cand.push(w);
            }
            let mut w = good;
            w.reverse();
            cand.push(w);
            for w in cand {
                let o = go(&mut if dir == 0 { Put { tb: Some(w), ta: None } } else { Put { tb: None, ta: Some(w) } })?;
                ensure!(o.tr.tb == Some(tb), "the same randomness gave another authenticator: {}", s.desc());
                let (res, who) = if dir == 0 { (&o.server, "server") } else { (&o.client, "client") };
                if w == good {
                    ensure!(matches!(res, Some(Ok(_))), "{who} refused the right authenticator: {res:?}: {}", s.desc());
                    c.obs.count("aucpace: right value accepted");
                } else {
                    ensure!(
                        matches!(res, Some(Err(aucpace::Error::MutualAuthFail))),
                        "{who} given {} instead of {}: {res:?}: {}",
                        hex(&w),
                        hex(&good),
                        s.desc()
                    );
                    c.obs.count("aucpace: wrong value refused");
                    c.obs.seen(&[&w[..], &good[..]].concat());
                }
            }
        }
        Ok(())
    });
    x.require(&["aucpace: right value accepted", "aucpace: wrong value refused"]);
}

// ------------------------------------------------------------------ C16
/// the neutral element in the forms a peer or a computation can produce
pub fn neutral(r: &mut Prng, form: usize) -> Pt {
    let p = rand_point(r);
    match form % 7 {
        0 => Pt::identity(),
        1 => p - p,
        2 => p * Scalar::ZERO,
        3 => CompressedRistretto([0; 32]).decompress().unwrap(),
        // an internal representation that carries torsion
        4 => {
            let q = Pt::from_uniform_bytes(&r.arr()) + p;
            (q + q) * -Scalar::ONE + q + q
        }
        5 => {
            let q = Pt::from_uniform_bytes(&r.arr());
            q + q * -Scalar::ONE
        }
        _ => -Pt::identity(),
    }
}
fn neutral_checked(r: &mut Prng, form: usize) -> Pt {
    let p = neutral(r, form);
    assert_eq!(pt_bytes(&p), [0; 32]);
    p
}
struct Inject {
    what: usize,
    p: Pt,
}
impl Channel for Inject {
    fn user(&mut self, _: &mut Vec<u8>, b: &mut Option<Pt>) {
        if self.what == 0 && b.is_some() {
            *b = Some(self.p)
        }
    }
    fn aug(&mut self, a: &mut Aug) {
        match self.what {
            1 => a.x_pub = self.p,
            2 => {
                if let SaltMsg::Blinded(q) = &mut a.salt {
                    *q = self.p
                }
            }
            _ => {}
        }
    }
    fn client_key(&mut self, k: &mut Pt, _: &Pt) {
        if self.what == 3 {
            *k = self.p
        }
    }
    fn server_key(&mut self, k: &mut Pt, _: &Pt) {
        if self.what == 4 {
            *k = self.p
        }
    }
}
const ENTRY: [&str; 6] = ["blinded point at the server", "augmentation key at the client", "blinded salt at the client", "client key at the server", "server key at the client", "blinding that cancels at the server"];
fn valid_special(r: &mut Prng, n: usize) -> Pt {
    let l1 = -Scalar::ONE;
    match n % 8 {
        0 => BASE,
        1 => -BASE,
        2 => BASE + BASE,
        3 => Pt::from_uniform_bytes(&[0; 64]) * rand_scalar(r),
        4 => Pt::from_uniform_bytes(&r.arr()) * l1,
        5 => Pt::from_uniform_bytes(&r.arr()),
        6 => BASE * Scalar::from(r.u64() | 1),
        _ => rand_point(r),
    }
}
pub fn c16(x: &mut Ctx) {
    x.rule("a distinct non-trivial case is one neutral (or deliberately non-neutral) element delivered at one entry point in one variant, mode and call form");
    let forms = 7u64;
    let per = 6 * 4 * 2 * 2 * forms * (1 + BUFS.len() as u64);
    x.stage_n("neutral-grid", if x.thorough { per * 12 } else { per }, |c| {
        let mut i = c.idx;
        let mut take = |n: u64| {
            let v = i % n;
            i /= n;
            v as usize
        };
        let (entry, v, im, reg, form, buf) = (take(6), take(4), take(2), take(2), take(forms), take(1 + BUFS.len() as u64));
        let variant = VARIANTS[v];
        if matches!(entry, 0 | 2 | 5) && !variant.strong {
            return Ok(());
        }
        let registered = reg == 0;
        if entry == 5 && !registered {
            return Ok(());
        }
        let mut s = Scene::gen(&mut c.rng, &MON);
        s.variant = variant;
        if buf > 0 {
            let b = BUFS[buf - 1];
            let u = c.rng.below(b);
            let p = c.rng.below(b - u);
            s.user = c.rng.bytes(u);
            s.pass = c.rng.bytes(p);
            s.login.buf = Some(buf - 1);
        } else {
            s.login.buf = None;
        }
        s.reg.buf = None;
        let cfg = SessCfg { ssid: gen_ssid(&mut c.rng), implicit: im == 1, ci_c: vec![], ci_s: vec![] };
        let mut db = MonDb::default();
        let host = s.host();
        if registered {
            s.enroll(&*host, &mut db)?;
            if entry == 5 {
                db.strong.get_mut(&s.user).unwrap().q = Scalar::ZERO;
            }
        }
        let p = neutral_checked(&mut c.rng, form);
        let slot = OnceLock::new();
        let mut cl = s.client(s.cseed, &slot);
        let mut sv = host.session(variant, s.swire, LogRng::new(c.rng.u64()));
        let o = run(&cfg, &mut *cl, &mut *sv, &db, &mut Inject { what: entry, p });
        let got = if matches!(entry, 0 | 3 | 5) { &o.server } else { &o.client };
        ensure!(
            matches!(got, Some(Err(aucpace::Error::IllegalPointError))),
            "neutral {} (form {form}, registered {registered}, implicit {}) gave {got:?}: {}",
            ENTRY[entry],
            cfg.implicit,
            s.desc()
        );
        c.obs.count(ENTRY[entry]);
        c.obs.count(variant_name(variant));
        c.obs.count(if buf == 0 { "heap form" } else { "fixed-buffer form" });
        c.obs.seen(&[entry as u8, v as u8, im as u8, reg as u8, form as u8, buf as u8, (s.user.len() % 7) as u8]);
        c.obs.sample(|| format!("neutral {} refused: {}", ENTRY[entry], s.desc()));
        Ok(())
    });
    x.stage("non-neutral", 4000, 120_000, |c| {
        let entry = (c.idx % 5) as usize;
        let mut s = Scene::gen(&mut c.rng, &MON);
        if matches!(entry, 0 | 2) {
            s.variant.strong = true;
        }
        let cfg = gen_cfg(&mut c.rng);
        let mut db = MonDb::default();
        let host = s.host();
        if !c.rng.chance(4) {
            s.enroll(&*host, &mut db)?;
        }
        let n = c.rng.below(8);
        let p = valid_special(&mut c.rng, n);
        if pt_bytes(&p) == [0; 32] {
            return Ok(());
        }
        let slot = OnceLock::new();
        let mut cl = s.client(s.cseed, &slot);
        let mut sv = host.session(s.variant, s.swire, LogRng::new(c.rng.u64()));
        let o = run(&cfg, &mut *cl, &mut *sv, &db, &mut Inject { what: entry, p });
        for r in [&o.client, &o.server] {
            ensure!(
                !matches!(r, Some(Err(aucpace::Error::IllegalPointError))),
                "non-neutral {} refused as illegal: point {}: {}",
                ENTRY[entry],
                hex(&pt_bytes(&p)),
                s.desc()
            );
        }
        ensure!(o.client.is_some() && o.server.is_some() || !cfg.implicit && o.client.is_some(), "session did not finish: {o:?} {}", s.desc());
        c.obs.count("non-neutral elements processed");
        c.obs.seen(&[&pt_bytes(&p)[..], &[entry as u8]].concat());
        Ok(())
    });
    let mut need: Vec<&str> = ENTRY.to_vec();
    need.extend(["non-neutral elements processed", "heap form", "fixed-buffer form"]);
    x.require(&need);
}

// ------------------------------------------------------------------ C17
pub fn c17(x: &mut Ctx) {
    x.rule("a distinct non-trivial case is one completed session between the real code and the independently written peer, told apart by transcript");
    x.stage("interop", 9_000, 250_000, |c| {
        let s = Scene::any(&mut c.rng, 4);
        let cfg = gen_cfg(&mut c.rng);
        let mut db = MonDb::default();
        let host = s.host();
        // who registers, who is the client, who the server
        let real_reg = c.rng.chance(2);
        let real_client = c.idx % 2 == 0;
        let reg = if real_reg {
            let r = s.registration(s.cseed ^ 0x77)?;
            check_record(&s, &r)?;
            c.obs.count("registration record matches the table");
            r
        } else {
            ref_reg(s.combo, s.cseed, &s.user, &s.pass, &s.params, s.variant.strong)
        };
        reg.store(&mut db);
        if s.variant.partial {
            let (x, xp) = if c.rng.chance(2) { host.keypair() } else {
                let x = rand_scalar(&mut c.rng);
                (x, BASE * x)
            };
            ensure!(xp == BASE * x, "long-term public key {} does not belong to its private key", hex(&pt_bytes(&xp)));
            db.keys.insert(s.user.clone(), (x, xp));
        }
        let slot = OnceLock::new();
        let o = if real_client {
            let mut cl = s.client(s.cseed, &slot);
            let mut sv = mk_ref_server(s.combo, s.sseed, s.variant);
            run(&cfg, &mut *cl, &mut *sv, &db, &mut Honest)
        } else {
            let mut cl = mk_ref_client(s.combo, s.cseed, &s.user, &s.pass, s.variant.strong, s.params.out);
            let mut sv = host.session(s.variant, s.swire, LogRng::new(c.rng.u64()));
            run(&cfg, &mut *cl, &mut *sv, &db, &mut Honest)
        };
        agreed(&o, &format!("real {} against the reference: {} {cfg:?}", if real_client { "client" } else { "server" }, s.desc()))?;
        if let Some(a) = &o.tr.aug {
            ensure!(a.group == "ristretto255", "group announced as {}", a.group);
        }
        c.obs.count(if real_client { "real client, reference server" } else { "reference client, real server" });
        note_mode(c, &s, &cfg);
        c.obs.seen(&o.tr.bytes());
        c.obs.sample(|| format!("{} agreed on {}", s.desc(), sh(o.ck().unwrap())));
        Ok(())
    });
    // the whole server side recomputed from what it drew, without trusting the real peer for anything
    x.stage("recomputed", 1500, 40_000, |c| recompute(c));
    x.require(&["real client, reference server", "reference client, real server", "plain", "partial", "strong", "strong-partial", "implicit", "explicit", "registration record matches the table", "sessions recomputed"]);
}
fn check_record(s: &Scene, r: &Reg) -> R {
    let up = user_pass(&s.user, &s.pass);
    let (user, salt, params, w) = match r {
        Reg::Plain { username, salt, params, verifier } => (username, salt.as_str().to_string(), params, verifier),
        Reg::Strong { username, q, params, verifier } => (username, b64(&pt_bytes(&(combo_z(s.combo, &s.user, &s.pass) * q))), params, verifier),
    };
    ensure!(*user == s.user, "registration for another name {}: {}", sh(user), s.desc());
    ensure!(*params == wire_params_of(s.combo, &s.params), "registration sends parameters {params}: {}", s.desc());
    let v = BASE * ref_w(&ref_hash(s.combo, &up, &salt, &s.params));
    ensure!(v == *w, "verifier {} is not base^w = {}: {}", hex(&pt_bytes(w)), hex(&pt_bytes(&v)), s.desc());
    Ok(())
}
/// shared secret from a reference peer with a chosen private scalar on both sides of a real session
fn recompute(c: &mut Case<'_>) -> R {
    // Both real parties run honestly; a third, passive recomputation knows the database and the client's
    // password and replaces the *server's* key by one it generated itself (as the client would see it), and vice versa.
    let s = Scene::gen(&mut c.rng, &MON);
    let mut cfg = gen_cfg(&mut c.rng);
    cfg.implicit = true;
    let mut db = MonDb::default();
    let host = s.host();
    s.enroll(&*host, &mut db)?;
    let (yc, ys) = (rand_scalar(&mut c.rng), rand_scalar(&mut c.rng));
    struct Mitm<'x> {
        s: &'x Scene,
        pre: Option<Vec<u8>>,
        cn: Vec<u8>,
        sn: Vec<u8>,
        ssid: [u8; 64],
        g: Pt,
        ci: Vec<u8>,
        reg: (Option<Scalar>, Pt),
        x: Option<Scalar>,
        w: Scalar,
        yc: Scalar,
        ys: Scalar,
        keys: Vec<Vec<u8>>,
    }
    impl Channel for Mitm<'_> {
        fn client_nonce(&mut self, n: &mut Vec<u8>) {
            self.cn = n.clone()
        }
        fn server_nonce(&mut self, n: &mut Vec<u8>) {
            self.sn = n.clone()
        }
        fn aug(&mut self, a: &mut Aug) {
            let k = self.s.combo;
            self.ssid = match &self.pre {
                Some(p) => combo_hn(k, 0, &[p]),
                None => combo_hn(k, 0, &[&self.sn, &self.cn]),
            };
            let salt = match &a.salt {
                SaltMsg::Plain(s) => s.as_str().to_string(),
                SaltMsg::Blinded(_) => b64(&pt_bytes(&(combo_z(k, &self.s.user, &self.s.pass) * self.reg.0.unwrap()))),
            };
            self.w = ref_w(&ref_hash(k, &user_pass(&self.s.user, &self.s.pass), &salt, &self.s.params));
            let prs = match self.x {
                Some(x) => pt_bytes(&(self.reg.1 * x)),
                None => pt_bytes(&(a.x_pub * self.w)),
            };
            self.g = Pt::from_uniform_bytes(&combo_hn(k, 1, &[&self.ssid, &prs, &self.ci]));
        }
        fn client_key(&mut self, k: &mut Pt, sk: &Pt) {
            // what the server will compute with the key we give it
            let sk1 = combo_hn(self.s.combo, 2, &[&self.ssid, &pt_bytes(&(*sk * self.yc))]);
            self.keys.push(combo_hn(self.s.combo, 5, &[&self.ssid, &sk1]).to_vec());
            *k = self.g * self.yc;
        }
        fn server_key(&mut self, k: &mut Pt, ck: &Pt) {
            let sk1 = combo_hn(self.s.combo, 2, &[&self.ssid, &pt_bytes(&(*ck * self.ys))]);
            self.keys.push(combo_hn(self.s.combo, 5, &[&self.ssid, &sk1]).to_vec());
            *k = self.g * self.ys;
        }
    }
    let reg = if s.variant.strong {
        let r = &db.strong[&s.user];
        (Some(r.q), r.verifier)
    } else {
        (None, db.plain[&s.user].verifier)
    };
    let mut m = Mitm {
        s: &s,
        pre: match &cfg.ssid {
            Ssid::Preset(a, _) => Some(a.clone()),
            _ => None,
        },
        cn: vec![],
        sn: vec![],
        ssid: [0; 64],
        g: BASE,
        ci: cfg.ci_c.clone(),
        reg,
        x: db.keys.get(&s.user).map(|k| k.0),
        w: Scalar::ZERO,
        yc,
        ys,
        keys: vec![],
    };
    let slot = OnceLock::new();
    let mut cl = s.client(s.cseed, &slot);
    let mut sv = host.session(s.variant, s.swire, LogRng::new(c.rng.u64()));
    let o = run(&cfg, &mut *cl, &mut *sv, &db, &mut m);
    ensure!(o.sk() == Some(&m.keys[0]), "server key {:?} is not H5(ssid, H2(ssid, K)) with the documented generator: {} {cfg:?}", o.server, s.desc());
    ensure!(o.ck() == Some(&m.keys[1]), "client key {:?} is not H5(ssid, H2(ssid, K)) with the documented generator: {} {cfg:?}", o.client, s.desc());
    c.obs.count("sessions recomputed");
    c.obs.seen(&o.tr.bytes());
    Ok(())
}

// ------------------------------------------------------------------ C18
/// what one login query looked like from outside
struct Reply {
    aug: Aug,
    blinded: Option<Pt>,
}
/// asks the server for its reply to one login attempt
fn query(s: &Scene, host: &dyn Host, db: &MonDb, user: &[u8], blinded: Option<Pt>, r: &mut Prng) -> Result<Reply, String> {
    let mut sv = host.session(s.variant, s.swire, LogRng::new(r.u64()));
    if r.chance(2) {
        sv.nonce();
        sv.agree(&r.bytes(s.combo.k1()));
    } else {
        let n = ssid_bytes(r);
        sv.preset(&n).map_err(|e| format!("{e:?}"))?;
    }
    let b = if s.variant.strong { Some(blinded.unwrap_or_else(|| rand_point(r))) } else { None };
    let aug = sv.info(user, b, db).map_err(|e| format!("query for {} answered with {e:?}: {}", sh(user), s.desc()))?;
    Ok(Reply { aug, blinded: b })
}
fn wire_len(a: &Aug) -> usize {
    let z = ParamsString::new();
    match &a.salt {
        SaltMsg::Plain(s) => to_bin(Wire::Bincode, &ServerMessage::<16>::AugmentationInfo { group: "ristretto255", x_pub: a.x_pub, salt: s.clone(), pbkdf_params: z }).len(),
        SaltMsg::Blinded(p) => to_bin(Wire::Bincode, &ServerMessage::<16>::StrongAugmentationInfo { group: "ristretto255", x_pub: a.x_pub, blinded_salt: *p, pbkdf_params: z }).len(),
    }
}
pub fn c18(x: &mut Ctx) {
    x.rule("a distinct non-trivial case is one reply for an unregistered name compared with its own history, with other names and servers, and with replies for registered names");
    x.stage("histories", 900, 30_000, |c| history(c));
    x.stage("attempts", 3000, 90_000, |c| attempt(c));
    x.stage("attackers-guesses", 60, 1500, |c| {
        let mut s = Scene::gen(&mut c.rng, &MON);
        s.variant = VARIANTS[c.idx as usize % 4];
        let host = s.host();
        let db = MonDb::default();
        for g in 0..N_GUESS {
            for implicit in [false, true] {
                let mut cfg = gen_cfg(&mut c.rng);
                cfg.implicit = implicit;
                let mut cl = mk_guess_client(s.combo, c.rng.u64(), &s.user, &s.pass, s.variant.strong, g);
                let mut sv = host.session(s.variant, Wire::Direct, LogRng::new(c.rng.u64()));
                let o = run(&cfg, &mut *cl, &mut *sv, &db, &mut Honest);
                let d = || format!("guess {g} at the password related string of an unregistered user, implicit {implicit}: client {:?} server {:?}: {}", o.client, o.server, s.desc());
                if implicit {
                    ensure!(o.ck() != o.sk(), "{}", d());
                } else {
                    ensure!(o.sk().is_none() && o.ck().is_none(), "{}", d());
                }
                c.obs.count("guesses at the fake password related string");
            }
        }
        Ok(())
    });
    x.stage_n("fake-value-spread", if x.thorough { 24 } else { 8 }, |c| spread(c));
    x.stage("server-secret", 8, 200, |c| server_secret(c));
    x.require(&["bits of the server's secret flipped", "unregistered replies compared", "registered replies compared", "guesses at the fake password related string", "attempts ended like a wrong password", "linearity of blinded-salt responses", "long-term keys compared", "servers compared"]);
}
fn history(c: &mut Case<'_>) -> R {
    let mut s = Scene::gen(&mut c.rng, &MON);
    s.variant = VARIANTS[c.idx as usize % 4];
    let v = s.variant;
    let hosts: Vec<Box<dyn Host>> = (0..2).map(|_| mk_host(s.combo, LogRng::new(c.rng.u64()))).collect();
    let mut db = MonDb::default();
    // names: some registered, some not, close to one another
    let base = c.rng.hostile(40);
    let mut names: Vec<Vec<u8>> = vec![base.clone()];
    for _ in 0..5 {
        let n = if c.rng.chance(2) { c.rng.mutate(&base) } else { c.rng.hostile_any(300) };
        if !names.contains(&n) {
            names.push(n);
        }
    }
    let registered: Vec<bool> = names.iter().map(|_| c.rng.chance(3)).collect();
    let mut half: Vec<bool> = vec![false; names.len()];
    for (i, n) in names.iter().enumerate() {
        if registered[i] {
            let mut t = s.clone();
            t.user = n.clone();
            t.reg.buf = None;
            t.cseed = c.rng.u64();
            t.enroll(&*hosts[0], &mut db)?;
        } else if v.partial && c.rng.chance(3) {
            // a key pair that was stored for a name without a verifier
            let k = hosts[0].keypair();
            db.keys.insert(n.clone(), k);
            half[i] = true;
        }
    }
    // a registered reply to compare the form with
    let mut t = s.clone();
    t.user = [&base[..], b"#registered"].concat();
    t.reg.buf = None;
    t.enroll(&*hosts[0], &mut db)?;
    let known = query(&t, &*hosts[0], &db, &t.user, None, &mut c.rng)?;
    let mut salts: HashMap<(usize, usize), String> = HashMap::new();
    let mut longs: HashMap<(usize, usize), [u8; 32]> = HashMap::new();
    let mut resp: HashMap<(usize, usize), [u8; 32]> = HashMap::new();
    let probe = rand_point(&mut c.rng);
    let mut fresh: HashSet<[u8; 32]> = HashSet::new();
    for _ in 0..c.rng.range(12, 30) {
        let (h, i) = (c.rng.below(2), c.rng.below(names.len()));
        let b = if c.rng.chance(2) { Some(probe) } else { None };
        let q = query(&s, &*hosts[h], &db, &names[i], b, &mut c.rng)?;
        let a = &q.aug;
        let d = |what: &str, a: &Aug| format!("{what}: name {} on server {h}: {a:?}: {}", sh(&names[i]), s.desc());
        ensure!(pt_bytes(&a.x_pub) != [0; 32], "{}", d("neutral augmentation key", a));
        ensure!(a.group == known.aug.group, "{}", d("group differs from a registered user's reply", a));
        ensure!(wire_len(a) == wire_len(&known.aug), "{}", d(&format!("reply without parameters takes {} bytes, {} for a registered user", wire_len(a), wire_len(&known.aug)), a));
        if registered[i] {
            c.obs.count("registered replies compared");
        } else {
            c.obs.count("unregistered replies compared");
            c.obs.seen(&[&names[i][..], &[h as u8], &a.salt.bytes(), &pt_bytes(&a.x_pub)].concat());
            c.obs.sample(|| d("unregistered", a));
            if a.params.is_empty() && !known.aug.params.is_empty() {
                c.obs.known("empty-pbkdf-params", || {
                    format!("the reply for unregistered name {} carries no pbkdf parameters, that for registered name {} carries '{}'", sh(&names[i]), sh(&t.user), known.aug.params.as_str())
                });
            }
        }
        // long-term keys stay, ephemeral ones do not
        let xp = pt_bytes(&a.x_pub);
        if v.partial {
            c.obs.count("long-term keys compared");
            let stored = registered[i] || half[i];
            let slot = if stored { (9, i) } else { (h, i) };
            if let Some(o) = longs.insert(slot, xp) {
                ensure!(o == xp, "{}", d(&format!("the long-term key changed from {}", hex(&o)), a));
            }
            for (k, o) in &longs {
                ensure!(*k == slot || *o != xp, "{}", d(&format!("same long-term key as name {} on server {}", sh(&names[k.1]), k.0), a));
            }
        } else {
            ensure!(fresh.insert(xp), "{}", d("the ephemeral augmentation key was used before", a));
        }
        match &a.salt {
            SaltMsg::Plain(salt) => {
                let mut buf = [0u8; 64];
                let raw = salt.decode_b64(&mut buf).map_err(|e| d(&format!("salt does not decode: {e}"), a))?;
                ensure!(raw.len() == 16, "{}", d(&format!("salt of {} bytes", raw.len()), a));
                let slot = if registered[i] { (9, i) } else { (h, i) };
                if let Some(o) = salts.insert(slot, salt.as_str().into()) {
                    ensure!(o == salt.as_str(), "{}", d(&format!("the salt changed from {o}"), a));
                }
                for (k, o) in &salts {
                    ensure!(*k == slot || o != salt.as_str(), "{}", d(&format!("same salt as name {} on server {}", sh(&names[k.1]), k.0), a));
                }
            }
            SaltMsg::Blinded(p) => {
                ensure!(Some(*p) != q.blinded, "{}", d("the blinded salt is the blinded point itself", a));
                // one secret exponent per name: the response to u+probe is the sum of the responses
                let u = q.blinded.unwrap();
                if b.is_some() {
                    let slot = if registered[i] { (9, i) } else { (h, i) };
                    if let Some(o) = resp.insert(slot, pt_bytes(p)) {
                        ensure!(o == pt_bytes(p), "{}", d(&format!("the response to the same blinded point changed from {}", hex(&o)), a));
                    }
                    for (k, o) in &resp {
                        ensure!(*k == slot || *o != pt_bytes(p), "{}", d(&format!("same response as name {} on server {}", sh(&names[k.1]), k.0), a));
                    }
                }
                let w = rand_point(&mut c.rng);
                let k = rand_scalar(&mut c.rng);
                let r1 = query(&s, &*hosts[h], &db, &names[i], Some(w), &mut c.rng)?;
                let r2 = query(&s, &*hosts[h], &db, &names[i], Some(u * k + w), &mut c.rng)?;
                if let (SaltMsg::Blinded(x1), SaltMsg::Blinded(x2)) = (&r1.aug.salt, &r2.aug.salt) {
                    ensure!(*x2 == p * k + x1, "{}", d("the responses do not come from one exponent", a));
                    c.obs.count("linearity of blinded-salt responses");
                }
            }
        }
    }
    Ok(())
}
fn attempt(c: &mut Case<'_>) -> R {
    let mut s = Scene::any(&mut c.rng, 8);
    s.variant = VARIANTS[c.idx as usize % 4];
    let mut cfg = gen_cfg(&mut c.rng);
    let host = s.host();
    // the same attempt against a server that knows the name with another password, and one that does not
    let mut db = MonDb::default();
    let mut t = s.clone();
    t.pass = c.rng.mutate(&s.pass);
    t.reg.buf = None;
    if same_secret(s.combo, (&s.user, &s.pass), (&t.user, &t.pass)) {
        return Ok(());
    }
    t.enroll(&*host, &mut db)?;
    let mut no = MonDb::default();
    if s.variant.partial && c.rng.chance(3) {
        no.keys = db.keys.clone();
    }
    if c.rng.chance(4) {
        // verifier present in the other table only
        if s.variant.strong {
            let salt = SaltString::encode_b64(&c.rng.bytes(16)).unwrap();
            no.plain.insert(s.user.clone(), Rec { verifier: rand_point(&mut c.rng), salt, params: ParamsString::new() });
        } else {
            no.strong.insert(s.user.clone(), StrongRec { verifier: rand_point(&mut c.rng), q: rand_scalar(&mut c.rng), params: ParamsString::new() });
        }
    }
    if matches!(cfg.ssid, Ssid::Negotiated) && c.rng.chance(2) {
        cfg.implicit = !cfg.implicit;
    }
    let bad = c.rng.chance(4).then(|| c.rng.below(5));
    let pt = neutral(&mut c.rng, c.idx as usize % 7);
    let mut shapes: Vec<String> = Vec::new();
    for d in [&db, &no] {
        let slot = OnceLock::new();
        let mut cl = s.client(s.cseed, &slot);
        let mut sv = host.session(s.variant, s.swire, LogRng::new(c.rng.u64()));
        let o = match bad {
            None => run(&cfg, &mut *cl, &mut *sv, d, &mut Honest),
            Some(w) => run(&cfg, &mut *cl, &mut *sv, d, &mut Inject { what: w, p: pt }),
        };
        let shape = |r: &Option<Result<Vec<u8>, AErr>>| match r {
            None => "none".to_string(),
            Some(Ok(k)) => format!("key of {} bytes", k.len()),
            Some(Err(e)) => format!("{e:?}"),
        };
        let who = if std::ptr::eq(d, &no) { "unregistered" } else { "wrong password" };
        if cfg.implicit {
            ensure!(o.ck().is_none() || o.ck() != o.sk(), "{who}: equal keys: {}", s.desc());
        } else {
            ensure!(o.ck().is_none() && o.sk().is_none(), "{who}: a party handed out a key: {o:?}: {}", s.desc());
        }
        shapes.push(format!("client {} server {} tb {} aug {}", shape(&o.client), shape(&o.server), o.tr.tb.is_some(), o.tr.aug.is_some()));
        c.obs.seen(&o.tr.bytes());
    }
    ensure!(shapes[0] == shapes[1], "wrong password ends with '{}' but an unregistered name with '{}': {} {cfg:?}", shapes[0], shapes[1], s.desc());
    c.obs.count("attempts ended like a wrong password");
    Ok(())
}
/// fake values over many names and many servers
/// What a server answers for names it doesn't know hangs on a secret of at
/// least 64 bits: every other drawing of it gives other values.
fn server_secret(c: &mut Case<'_>) -> R {
    let mut s = Scene::gen(&mut c.rng, &BIG);
    s.variant = VARIANTS[c.idx as usize % 4];
    s.swire = Wire::Direct;
    let db = MonDb::default();
    let probe = rand_point(&mut c.rng);
    let n = ssid_bytes(&mut c.rng);
    let names: Vec<Vec<u8>> = vec![b"nobody".to_vec(), c.rng.hostile_any(100)];
    let seed = c.rng.u64();
    let sess = c.rng.u64();
    let ask = |rng: LogRng| -> Result<Vec<(Vec<u8>, Vec<u8>)>, String> {
        let host = mk_host(s.combo, rng);
        let mut v = Vec::new();
        for name in &names {
            let mut sv = host.session(s.variant, s.swire, LogRng::new(sess));
            sv.preset(&n).map_err(|e| format!("{e:?}"))?;
            let b = if s.variant.strong { Some(probe) } else { None };
            let a = sv.info(name, b, &db).map_err(|e| format!("query for {} answered with {e:?}: {}", sh(name), s.desc()))?;
            v.push((a.salt.bytes(), if s.variant.partial { pt_bytes(&a.x_pub).to_vec() } else { Vec::new() }));
        }
        Ok(v)
    };
    let rng = LogRng::new(seed);
    let base = ask(rng.clone())?;
    let drawn = rng.drawn();
    let again = ask(LogRng::new(seed))?;
    ensure!(base == again, "the same drawings of the server give other fake values: {}", s.desc());
    let mut salts = 0;
    let mut longs = 0;
    for off in 0..drawn.min(256) {
        for bit in 0..8 {
            let q = ask(LogRng::with_flip(seed, off, 1 << bit))?;
            salts += (0..names.len()).all(|i| q[i].0 != base[i].0) as usize;
            longs += (0..names.len()).all(|i| q[i].1 != base[i].1) as usize;
            c.obs.count("bits of the server's secret flipped");
            c.obs.seen(&q[0].0);
        }
    }
    ensure!(salts >= 64, "the fake salts hang on {salts} bits of the server's drawings ({drawn} bytes drawn): {}", s.desc());
    if s.variant.partial {
        ensure!(longs >= 64, "the fake long-term keys hang on {longs} bits of the server's drawings ({drawn} bytes drawn): {}", s.desc());
    }
    Ok(())
}
fn spread(c: &mut Case<'_>) -> R {
    let mut s = Scene::gen(&mut c.rng, &BIG);
    s.variant = VARIANTS[c.idx as usize % 4];
    s.swire = Wire::Direct;
    let db = MonDb::default();
    let probe = rand_point(&mut c.rng);
    for mode in 0..2 {
        // one server and many names; many servers and one name
        let n = 400;
        let one = mk_host(s.combo, LogRng::new(c.rng.u64()));
        let mut vals: Vec<Vec<u8>> = Vec::new();
        let mut longs: Vec<Vec<u8>> = Vec::new();
        for i in 0..n {
            let name = if mode == 0 { format!("user{i}").into_bytes() } else { b"user".to_vec() };
            let mut other;
            let h: &dyn Host = if mode == 0 {
                &*one
            } else {
                other = mk_host(s.combo, LogRng::new(c.rng.u64()));
                &*other
            };
            let q = query(&s, h, &db, &name, Some(probe), &mut c.rng)?;
            vals.push(match &q.aug.salt {
                SaltMsg::Plain(t) => {
                    let mut b = [0u8; 64];
                    t.decode_b64(&mut b).map_err(|e| format!("salt does not decode: {e}"))?.to_vec()
                }
                SaltMsg::Blinded(p) => pt_bytes(p).to_vec(),
            });
            if s.variant.partial {
                longs.push(pt_bytes(&q.aug.x_pub).to_vec());
            }
        }
        for (what, set) in [("salt value", &vals), ("long-term key", &longs)] {
            if set.is_empty() {
                continue;
            }
            let dis: HashSet<&Vec<u8>> = set.iter().collect();
            ensure!(dis.len() == n, "only {} different fake {what}s over {n} {}: {}", dis.len(), ["names", "servers"][mode], s.desc());
            if s.variant.strong || what == "long-term key" {
                continue; // group elements: distinctness is all there is to ask
            }
            for pos in 0..set[0].len() {
                let b: HashSet<u8> = set.iter().map(|v| v[pos]).collect();
                // 400 uniform bytes show about 202 of the 256 values
                ensure!(b.len() > 128, "byte {pos} of the fake {what} takes only {} values over {n} {}: {}", b.len(), ["names", "servers"][mode], s.desc());
            }
        }
        c.obs.add("servers compared", n as u64);
        for v in vals {
            c.obs.seen(&v);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C19
pub fn rand_params(r: &mut Prng) -> ParamsString {
    let mut p = ParamsString::new();
    if r.chance(4) {
        // many entries, or long ones, up to what the type holds
        let want = *r.pick(&[5usize, 6, 8, 12, 40]);
        for _ in 0..want {
            let n = *r.pick(&[1usize, 1, 2, 9, 32]);
            let mut name: String = (0..n).map(|_| *r.pick(&['a', 'b', 'z', '0', '9', '-', 'k'])).collect();
            name.replace_range(0..1, r.pick(&["a", "b", "c", "t", "x", "y"]));
            let Ok(name) = password_hash::Ident::try_from(name.as_str()) else { continue };
            let _ = match r.below(3) {
                0 => p.add_decimal(name, *r.pick(&[0u32, 1, 9, 65535, u32::MAX])),
                1 => p.add_str(name, *r.pick(&["/", "+.-", "A", "0", "00", "zZ9"])),
                _ => {
                    let n = *r.pick(&[1usize, 22, 40, 48]);
                    let v = b64(&r.bytes(n));
                    p.add_str(name, v.as_str())
                }
            };
        }
        return p;
    }
    for i in 0..r.below(5) {
        let name = ["ln", "r", "p", "m", "data"][i];
        if r.chance(3) {
            let v = b64(&r.bytes(9));
            let _ = p.add_str(name, password_hash::Value::new(&v).unwrap());
        } else {
            let v = r.u64() as u32;
            let _ = p.add_decimal(name, v);
        }
    }
    p
}
pub fn rand_salt(r: &mut Prng) -> SaltString {
    let n = *r.pick(&[3usize, 4, 8, 15, 16, 17, 32, 47, 48]);
    SaltString::encode_b64(&r.bytes(n)).unwrap()
}
pub fn rand_wire_point(r: &mut Prng) -> Pt {
    let n = r.below(40);
    match n {
        0 => Pt::identity(),
        1..=4 => valid_special(r, n),
        5 => Pt::from_uniform_bytes(&r.arr()),
        _ => BASE * Scalar::from(r.u64()),
    }
}
macro_rules! with_k1 {
    ($n:expr, $K:ident => $body:expr) => {
        match $n % 9 {
            0 => { const $K: usize = 16; $body }
            1 => { const $K: usize = 1; $body }
            2 => { const $K: usize = 8; $body }
            3 => { const $K: usize = 32; $body }
            4 => { const $K: usize = 64; $body }
            5 => { const $K: usize = 17; $body }
            6 => { const $K: usize = 33; $body }
            7 => { const $K: usize = 127; $body }
            _ => { const $K: usize = 200; $body }
        }
    };
}
pub(crate) use with_k1;
/// client message number `t` (0..7)
pub fn gen_client<'a, const K1: usize>(r: &mut Prng, t: usize, name: &'a [u8]) -> ClientMessage<'a, K1> {
    match t {
        0 => ClientMessage::Nonce(r.arr()),
        1 => ClientMessage::Username(name),
        2 => ClientMessage::StrongUsername { username: name, blinded: rand_wire_point(r) },
        3 => ClientMessage::PublicKey(rand_wire_point(r)),
        4 => ClientMessage::Authenticator(r.arr()),
        5 => ClientMessage::Registration { username: name, salt: rand_salt(r), params: rand_params(r), verifier: rand_wire_point(r) },
        _ => ClientMessage::StrongRegistration { username: name, secret_exponent: rand_scalar(r), params: rand_params(r), verifier: rand_wire_point(r) },
    }
}
/// server message number `t` (0..5)
pub fn gen_server<const K1: usize>(r: &mut Prng, t: usize) -> ServerMessage<'static, K1> {
    let group = *r.pick(&["ristretto255", "", "x", "другая группа"]);
    match t {
        0 => ServerMessage::Nonce(r.arr()),
        1 => ServerMessage::AugmentationInfo { group, x_pub: rand_wire_point(r), salt: rand_salt(r), pbkdf_params: rand_params(r) },
        2 => ServerMessage::StrongAugmentationInfo { group, x_pub: rand_wire_point(r), blinded_salt: rand_wire_point(r), pbkdf_params: rand_params(r) },
        3 => ServerMessage::PublicKey(rand_wire_point(r)),
        _ => ServerMessage::Authenticator(r.arr()),
    }
}
pub fn c19(x: &mut Ctx) {
    x.rule("a distinct non-trivial case is one message (or corrupted encoding of one) taken through a binary format, or one session run directly and over both formats");
    x.stage("roundtrips", 30_000, 1_000_000, |c| {
        let i = c.idx as usize;
        let w = [Wire::Bincode, Wire::Postcard][i % 2];
        let t = i / 2 % 12;
        let name = c.rng.hostile_any(1024);
        let kn = c.rng.below(9);
        with_k1!(kn, K => {
            let enc;
            if t < 7 {
                let m = gen_client::<K>(&mut c.rng, t, &name);
                enc = sut(|| to_bin(w, &m));
                let want = cimg(&m);
                let got = sut(|| client_from::<K>(w, &enc).map(|m| cimg(&m)));
                ensure!(got.as_ref() == Ok(&want), "{w:?} K1={K}: sent {want:?}, received {got:?} from {}", hex(&enc));
                let again = sut(|| to_bin(w, &client_from::<K>(w, &enc).unwrap()));
                ensure!(again == enc, "{w:?} K1={K}: serialized again as {} instead of {}", hex(&again), hex(&enc));
            } else {
                let m = gen_server::<K>(&mut c.rng, t - 7);
                enc = sut(|| to_bin(w, &m));
                let want = simg(&m);
                let got = sut(|| server_from::<K>(w, &enc).map(|m| simg(&m)));
                ensure!(got.as_ref() == Ok(&want), "{w:?} K1={K}: sent {want:?}, received {got:?} from {}", hex(&enc));
                let again = sut(|| to_bin(w, &server_from::<K>(w, &enc).unwrap()));
                ensure!(again == enc, "{w:?} K1={K}: serialized again as {} instead of {}", hex(&again), hex(&enc));
            }
            c.obs.count(&format!("message {t} over {w:?}"));
            c.obs.seen(&enc);
            c.obs.sample(|| format!("message {t} over {w:?}, K1={K}: {}", sh(&enc)));
            Ok(())
        })
    });
    x.stage("sessions-over-the-wire", 1500, 40_000, |c| {
        let s = Scene::any(&mut c.rng, 6);
        let cfg = gen_cfg(&mut c.rng);
        let seed = c.rng.u64();
        let mut outs = Vec::new();
        for w in [Wire::Direct, Wire::Bincode, Wire::Postcard] {
            let mut s = s.clone();
            s.reg.wire = w;
            s.login.wire = w;
            s.swire = w;
            let mut db = MonDb::default();
            let host = s.host();
            s.enroll(&*host, &mut db)?;
            let slot = OnceLock::new();
            let mut cl = s.client(s.cseed, &slot);
            let mut sv = host.session(s.variant, w, LogRng::new(seed));
            let o = run(&cfg, &mut *cl, &mut *sv, &db, &mut Honest);
            agreed(&o, &format!("over {w:?}: {}", s.desc()))?;
            outs.push((o.tr.bytes(), o.ck().unwrap().clone()));
        }
        ensure!(outs[0] == outs[1] && outs[0] == outs[2], "the session ran differently over a serialized channel: {}", s.desc());
        c.obs.count("sessions equal over all channels");
        c.obs.seen(&outs[0].0);
        Ok(())
    });
    x.stage("malformed", 9000, 300_000, |c| malformed(c));
    let mut need: Vec<String> = (0..12).flat_map(|t| ["Bincode", "Postcard"].map(|w| format!("message {t} over {w}"))).collect();
    for k in ["sessions equal over all channels", "truncations refused", "corruptions refused", "corruptions accepted as another message", "invalid points refused", "invalid salts refused", "invalid parameters refused"] {
        need.push(k.into());
    }
    let need: Vec<&str> = need.iter().map(|s| s.as_str()).collect();
    x.require(&need);
}
/// an encoding that is not that of a group element
pub fn bad_point(r: &mut Prng) -> [u8; 32] {
    loop {
        let mut b: [u8; 32] = match r.below(6) {
            0 => [0xff; 32],
            1 => {
                // p + small: not canonical
                let mut v = [0xff; 32];
                v[0] = 0xed + r.below(19) as u8;
                v[31] = 0x7f;
                v
            }
            2 => {
                let p = rand_point(r);
                let mut v = pt_bytes(&p);
                v[31] |= 0x80;
                v
            }
            3 => {
                // negative field element
                let p = rand_point(r);
                let mut v = pt_bytes(&p);
                v[0] |= 1;
                v
            }
            4 => {
                let mut v = [0; 32];
                v[0] = r.u64() as u8;
                v
            }
            _ => r.arr(),
        };
        if r.chance(8) {
            b[r.below(32)] ^= 1;
        }
        if CompressedRistretto(b).decompress().is_none() {
            return b;
        }
    }
}
fn parse<const K1: usize>(w: Wire, client: bool, b: &[u8]) -> Result<Result<Vec<u8>, String>, String> {
    // parse, and if it is a message, it must survive the round trip
    try_sut(|| {
        if client {
            client_from::<K1>(w, b).map(|m| {
                let e = to_bin(w, &m);
                assert!(client_from::<K1>(w, &e).map(|n| cimg(&n)) == Ok(cimg(&m)), "a parsed message changes when sent on: {}", hex(b));
                e
            })
        } else {
            server_from::<K1>(w, b).map(|m| {
                let e = to_bin(w, &m);
                assert!(server_from::<K1>(w, &e).map(|n| simg(&n)) == Ok(simg(&m)), "a parsed message changes when sent on: {}", hex(b));
                e
            })
        }
    })
}
fn malformed(c: &mut Case<'_>) -> R {
    let i = c.idx as usize;
    let w = [Wire::Bincode, Wire::Postcard][i % 2];
    let t = i / 2 % 12;
    let mut name = c.rng.hostile(120);
    if name.len() < 4 {
        name = b"name".to_vec();
    }
    let kn = c.rng.below(6);
    with_k1!(kn, K => {
        let client = t < 7;
        let (enc, pts, salt, params): (Vec<u8>, Vec<Vec<u8>>, Option<String>, Option<String>) = if client {
            let m = gen_client::<K>(&mut c.rng, t, &name);
            let mut pts = vec![];
            let (mut sa, mut pa) = (None, None);
            match &m {
                ClientMessage::StrongUsername { blinded: p, .. } | ClientMessage::PublicKey(p) => pts.push(pt_bytes(p).to_vec()),
                ClientMessage::Registration { verifier, salt, params, .. } => {
                    pts.push(pt_bytes(verifier).to_vec());
                    sa = Some(salt.as_str().to_string());
                    pa = Some(params.as_str().to_string());
                }
                ClientMessage::StrongRegistration { verifier, params, .. } => {
                    pts.push(pt_bytes(verifier).to_vec());
                    pa = Some(params.as_str().to_string());
                }
                _ => {}
            }
            (to_bin(w, &m), pts, sa, pa)
        } else {
            let m = gen_server::<K>(&mut c.rng, t - 7);
            let mut pts = vec![];
            let (mut sa, mut pa) = (None, None);
            match &m {
                ServerMessage::PublicKey(p) => pts.push(pt_bytes(p).to_vec()),
                ServerMessage::AugmentationInfo { x_pub, salt, pbkdf_params, .. } => {
                    pts.push(pt_bytes(x_pub).to_vec());
                    sa = Some(salt.as_str().to_string());
                    pa = Some(pbkdf_params.as_str().to_string());
                }
                ServerMessage::StrongAugmentationInfo { x_pub, blinded_salt, pbkdf_params, .. } => {
                    pts.push(pt_bytes(x_pub).to_vec());
                    pts.push(pt_bytes(blinded_salt).to_vec());
                    pa = Some(pbkdf_params.as_str().to_string());
                }
                _ => {}
            }
            (to_bin(w, &m), pts, sa, pa)
        };
        let what = |b: &[u8]| format!("message {t} over {w:?}, K1={K}, encoding {}", hex(b));
        // every truncation
        let cuts: Vec<usize> = if enc.len() < 64 { (0..enc.len()).collect() } else { (0..64).map(|_| c.rng.below(enc.len())).collect() };
        for n in cuts {
            match parse::<K>(w, client, &enc[..n]) {
                Err(p) => return Err(format!("panic on a truncated encoding ({n} bytes): {p}: {}", what(&enc))),
                Ok(Ok(_)) => return Err(format!("{n} of {} bytes were taken for a message: {}", enc.len(), what(&enc))),
                Ok(Err(_)) => c.obs.count("truncations refused"),
            }
        }
        // random corruption
        for _ in 0..6 {
            let mut b = enc.clone();
            for _ in 0..c.rng.range(1, 4) {
                match c.rng.below(6) {
                    0 => {
                        let i = c.rng.below(b.len());
                        b[i] ^= 1 << c.rng.below(8);
                    }
                    1 => {
                        let i = c.rng.below(b.len());
                        b[i] = *c.rng.pick(&[0, 1, 0x7f, 0x80, 0xff]);
                    }
                    2 => {
                        let i = c.rng.below(b.len().min(24));
                        b[i] = c.rng.u64() as u8;
                    }
                    3 => {
                        let n = c.rng.below(16);
                        let x = c.rng.bytes(n);
                        b.extend(x)
                    }
                    4 => {
                        // huge lengths
                        let i = c.rng.below(b.len());
                        let n = (b.len() - i).min(8);
                        b[i..i + n].fill(0xff);
                    }
                    _ => {
                        let i = c.rng.below(b.len());
                        b.remove(i);
                        if b.is_empty() {
                            b.push(0);
                        }
                    }
                }
            }
            match parse::<K>(w, client, &b) {
                Err(p) => return Err(format!("panic on a corrupted encoding: {p}: {}", what(&b))),
                Ok(Ok(_)) => c.obs.count("corruptions accepted as another message"),
                Ok(Err(_)) => c.obs.count("corruptions refused"),
            }
            c.obs.seen(&b);
        }
        // not a group element
        for p in &pts {
            if let Some(at) = find(&enc, p) {
                if p.iter().all(|b| *b == 0) {
                    continue;
                }
                let mut b = enc.clone();
                b[at..at + 32].copy_from_slice(&bad_point(&mut c.rng));
                match parse::<K>(w, client, &b) {
                    Err(p) => return Err(format!("panic on an invalid point: {p}: {}", what(&b))),
                    Ok(Ok(_)) => return Err(format!("bytes that are no group element were accepted: {}", what(&b))),
                    Ok(Err(_)) => c.obs.count("invalid points refused"),
                }
            }
        }
        // not a salt
        if let Some(s) = &salt {
            if let Some(at) = find(&enc, s.as_bytes()) {
                let mut b = enc.clone();
                let i = c.rng.below(s.len());
                b[at + i] = *c.rng.pick(&[b'!', b'$', b'=', b',', b' ', b'*', 0, 0x80, 0xff, b'\n', b':', b'-', b'_', b'.']);
                match parse::<K>(w, client, &b) {
                    Err(p) => return Err(format!("panic on an invalid salt: {p}: {}", what(&b))),
                    Ok(Ok(_)) => {
                        // the salt alphabet is the library's to judge, but what it takes must be a salt to everyone
                        let t = String::from_utf8_lossy(&b[at..at + s.len()]).to_string();
                        ensure!(SaltString::from_b64(&t).is_ok(), "bytes that are no salt were accepted: {}", what(&b));
                    }
                    Ok(Err(_)) => c.obs.count("invalid salts refused"),
                }
            }
        }
        if let Some(s) = params.filter(|s| s.len() > 4) {
            if let Some(at) = find(&enc, s.as_bytes()) {
                let mut b = enc.clone();
                let i = c.rng.below(s.len());
                b[at + i] = *c.rng.pick(&[b'!', b'$', b'=', b',', b' ', b'*', 0, 0x80, 0xff, b'\n', b'A']);
                let t = b[at..at + s.len()].to_vec();
                let valid = std::str::from_utf8(&t).ok().map(|t| t.parse::<ParamsString>().is_ok()).unwrap_or(false);
                match parse::<K>(w, client, &b) {
                    Err(p) => return Err(format!("panic on an invalid parameter string: {p}: {}", what(&b))),
                    Ok(Ok(_)) => ensure!(valid, "bytes that are no parameter string were accepted: {}", what(&b)),
                    Ok(Err(_)) => {
                        ensure!(!valid, "a valid parameter string was refused: {}", what(&b));
                        c.obs.count("invalid parameters refused")
                    }
                }
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C20
fn recorder() -> Arc<Mutex<Vec<HashCall>>> {
    Arc::new(Mutex::new(Vec::new()))
}
fn forms() -> Vec<Option<usize>> {
    let mut v = vec![None];
    v.extend((0..BUFS.len()).map(Some));
    v
}
struct HashRun {
    calls: Vec<HashCall>,
    /// public key (login) or registration record
    out: Result<Vec<u8>, AErr>,
    /// salt the session or record is about, as the hasher has to see it
    salt: Option<String>,
}
/// registration through one call form
fn reg_run(s: &Scene, strong: bool, buf: Option<usize>, p: &MonParams, seed: u64) -> HashRun {
    let rec = recorder();
    let o = ClientOpts { buf, wire: Wire::Direct, out: p.out, rec: Some(rec.clone()), force: None };
    let r = register(s.combo, &LogRng::new(seed), &s.user, &s.pass, p, strong, &o);
    let calls = rec.lock().unwrap().clone();
    let salt = match &r {
        Ok(Reg::Plain { salt, .. }) => Some(salt.as_str().to_string()),
        Ok(Reg::Strong { q, .. }) => Some(b64(&pt_bytes(&(combo_z(s.combo, &s.user, &s.pass) * q)))),
        Err(_) => None,
    };
    let out = r.map(|r| match r {
        Reg::Plain { username, salt, params, verifier } => [&username[..], salt.as_str().as_bytes(), params.as_str().as_bytes(), &pt_bytes(&verifier)].concat(),
        Reg::Strong { username, q, params, verifier } => [&username[..], q.as_bytes(), params.as_str().as_bytes(), &pt_bytes(&verifier)].concat(),
    });
    HashRun { calls, out, salt }
}
/// login up to the client's public key, the server's part played by hand
fn login_run(s: &Scene, strong: bool, buf: Option<usize>, p: &MonParams, seed: u64) -> HashRun {
    let rec = recorder();
    let o = ClientOpts { buf, wire: Wire::Direct, out: p.out, rec: Some(rec.clone()), force: Some(p.clone()) };
    let mut r = Prng::new(seed ^ 0x10617);
    let slot = OnceLock::new();
    let mut cl = mk_client(s.combo, LogRng::new(seed), &s.user, &s.pass, &slot, strong, &o);
    let id: [u8; 40] = r.arr();
    cl.preset(&id).expect("40 bytes are enough");
    let (_, b) = cl.start();
    let x_pub = rand_point(&mut r);
    let (msg, salt) = if strong {
        let q = rand_scalar(&mut r);
        (SaltMsg::Blinded(b.unwrap() * q), b64(&pt_bytes(&(combo_z(s.combo, &s.user, &s.pass) * q))))
    } else {
        let t = rand_salt(&mut r);
        (SaltMsg::Plain(t.clone()), t.as_str().to_string())
    };
    let res = cl.aug(&Aug { group: "ristretto255".into(), x_pub, salt: msg, params: ParamsString::new() });
    let out = res.map(|_| pt_bytes(&cl.public_key(b"ci")).to_vec());
    let calls = rec.lock().unwrap().clone();
    HashRun { calls, out, salt: Some(salt) }
}
fn expect(p: &MonParams, login: bool) -> Option<AErr> {
    match &p.fault {
        Fault::Err(k) => Some(aucpace::Error::PasswordHashing(ph_err(*k))),
        Fault::Absent => Some(aucpace::Error::HashEmpty),
        Fault::ParamsErr if !login => Some(aucpace::Error::PasswordHashing(password_hash::Error::ParamsMaxExceeded)),
        _ if p.out != 32 && p.out != 64 => Some(aucpace::Error::HashSizeInvalid),
        _ => None,
    }
}
/// `n` bytes: of any kind, or text with fewer characters than bytes
fn some_text(r: &mut Prng, n: usize) -> Vec<u8> {
    let ch = *r.pick(&["", "", "\u{e9}", "\u{4f60}", "\u{1f512}", "e\u{301}", " ", "\0", ":"]);
    if ch.is_empty() {
        return r.bytes(n);
    }
    let mut v = Vec::with_capacity(n);
    while v.len() + ch.len() <= n {
        v.extend_from_slice(ch.as_bytes());
    }
    while v.len() < n {
        v.insert(0, b'x');
    }
    v
}
/// one credential and parameter set through all call forms of registration and login
fn all_forms(c: &mut Case<'_>, s: &Scene, p: &MonParams) -> R {
    in_forms(c, s, p, &forms())
}
fn in_forms(c: &mut Case<'_>, s: &Scene, p: &MonParams, forms: &[Option<usize>]) -> R {
    let need = s.user.len() + s.pass.len() + 1;
    let seed = c.rng.u64();
    for strong in [false, true] {
        for login in [false, true] {
            let mut first: Option<Result<Vec<u8>, AErr>> = None;
            for &buf in forms {
                let h = if login { login_run(s, strong, buf, p, seed) } else { reg_run(s, strong, buf, p, seed) };
                let d = |w: String| {
                    format!(
                        "{w}: {} strong={strong} buffer {:?} user {} ({} bytes) pass {} ({} bytes) params {p:?}: result {:?}",
                        if login { "login" } else { "registration" },
                        buf.map(buf_size),
                        sh(&s.user),
                        s.user.len(),
                        sh(&s.pass),
                        s.pass.len(),
                        h.out.as_ref().map(|v| hex(v))
                    )
                };
                if buf.map(|i| buf_size(i) < need).unwrap_or(false) {
                    ensure!(h.out == Err(aucpace::Error::UsernameOrPasswordTooLong), "{}", d("does not fit the buffer".into()));
                    c.obs.count("too long for the buffer");
                    continue;
                }
                match (expect(p, login), &h.out) {
                    (None, Ok(_)) => c.obs.count("hash accepted"),
                    (Some(e), Err(g)) if e == *g => c.obs.count(&format!("refused: {}", match e {
                        aucpace::Error::PasswordHashing(_) => "hasher error",
                        aucpace::Error::HashEmpty => "hash absent",
                        _ => "hash size",
                    })),
                    (e, _) => return Err(d(format!("expected {e:?}"))),
                }
                for call in &h.calls {
                    ensure!(call.input == user_pass(&s.user, &s.pass), "{}", d(format!("hasher was given {}", hex(&call.input))));
                    ensure!(call.params == *p, "{}", d(format!("hasher was given parameters {:?}", call.params)));
                    if let Some(salt) = &h.salt {
                        ensure!(call.salt == *salt, "{}", d(format!("hasher was given salt {} instead of {salt}", call.salt)));
                    }
                    c.obs.count("hasher calls checked");
                }
                ensure!(!h.calls.is_empty() || p.fault == Fault::ParamsErr, "{}", d("the hasher was never called".into()));
                match &first {
                    None => first = Some(h.out.clone()),
                    Some(f) => {
                        ensure!(*f == h.out, "{}", d(format!("heap form gave {:?}", f.as_ref().map(|v| hex(v)))));
                        c.obs.count("heap and fixed forms equal");
                    }
                }
            }
        }
    }
    c.obs.seen(&[&s.user[..], b"|", &s.pass, &[p.out as u8, p.cost as u8, p.tag as u8, matches!(p.fault, Fault::None) as u8]].concat());
    Ok(())
}
pub fn c20(x: &mut Ctx) {
    x.rule("a distinct non-trivial case is one (credentials, parameters, fault) run through all sixteen registration and login call forms with the recording hasher");
    x.stage("inputs", 1200, 40_000, |c| {
        let s = Scene::gen(&mut c.rng, &MON);
        let p = s.params.clone();
        c.obs.sample(|| s.desc());
        all_forms(c, &s, &p)
    });
    // total lengths around every buffer size, split everywhere
    x.stage_n("limits", BUFS.len() as u64 * 7 * if x.thorough { 60 } else { 6 }, |c| {
        let b = BUFS[c.idx as usize % BUFS.len()] as i64;
        let delta = (c.idx as usize / BUFS.len() % 7) as i64 - 3;
        let total = (b - 1 + delta).max(0) as usize;
        let mut s = Scene::gen(&mut c.rng, &MON);
        let u = match c.rng.below(4) {
            0 => 0,
            1 => total,
            _ => c.rng.below(total + 1),
        };
        s.user = some_text(&mut c.rng, u);
        s.pass = some_text(&mut c.rng, total - u);
        let p = s.params.clone();
        all_forms(c, &s, &p)
    });
    // lengths that 16 bits do not hold
    x.stage_n("wide", 32 * if x.thorough { 20 } else { 1 }, |c| {
        let total = match c.idx % 8 {
            0 => 69_998,
            1 => 69_999,
            2 => 70_000,
            3 => 65_535 + 70_000,
            4 => 65_535,
            5 => 65_536,
            6 => 65_534,
            _ => 32_768 + c.rng.below(36_000),
        };
        let mut s = Scene::gen(&mut c.rng, &MON);
        let u = match c.idx / 8 % 4 {
            0 => 0,
            1 => total,
            2 => total.min(65_536),
            _ => c.rng.below(total + 1),
        };
        s.user = c.rng.bytes(u);
        s.pass = c.rng.bytes(total - u);
        let p = s.params.clone();
        in_forms(c, &s, &p, &[None, Some(WIDE), Some(BUFS.len() - 1)])
    });
    x.stage_n("hash-lengths", 55 * if x.thorough { 20 } else { 2 }, |c| {
        let mut s = Scene::gen(&mut c.rng, &MON);
        s.user.truncate(20);
        s.pass.truncate(11);
        let p = MonParams { out: 10 + (c.idx % 55) as usize, ..s.params.clone() };
        all_forms(c, &s, &p)
    });
    x.stage_n("faults", 9 * if x.thorough { 120 } else { 12 }, |c| {
        let s = Scene::gen(&mut c.rng, &MON);
        let fault = match c.idx % 9 {
            0 => Fault::Absent,
            1 => Fault::ParamsErr,
            k => Fault::Err(k as u8 - 2),
        };
        let p = MonParams { fault, ..s.params.clone() };
        all_forms(c, &s, &p)
    });
    // a login whose hasher cannot express the stored parameters at all is the caller's; what it does with real scrypt
    x.stage("scrypt", 60, 1500, |c| {
        let s = Scene::gen(&mut c.rng, &[8, 9]);
        let need = s.user.len() + s.pass.len() + 1;
        let seed = c.rng.u64();
        for strong in [false, true] {
            let mut recs = Vec::new();
            for buf in forms() {
                let r = register(s.combo, &LogRng::new(seed), &s.user, &s.pass, &s.params, strong, &ClientOpts { buf, wire: Wire::Direct, out: s.params.out, rec: None, force: None });
                if buf.map(|i| BUFS[i] < need).unwrap_or(false) {
                    ensure!(matches!(r, Err(aucpace::Error::UsernameOrPasswordTooLong)), "{buf:?}: {r:?}: {}", s.desc());
                    continue;
                }
                recs.push(r.map_err(|e| format!("{e:?}: {}", s.desc()))?);
            }
            let up = user_pass(&s.user, &s.pass);
            let (salt, ver) = match &recs[0] {
                Reg::Plain { salt, verifier, .. } => (salt.as_str().to_string(), *verifier),
                Reg::Strong { q, verifier, .. } => (b64(&pt_bytes(&(combo_z(s.combo, &s.user, &s.pass) * q))), *verifier),
            };
            ensure!(BASE * ref_w(&ref_hash(s.combo, &up, &salt, &s.params)) == ver, "scrypt verifier is not that of username:password: {}", s.desc());
            ensure!(recs.iter().all(|r| *r == recs[0]), "heap and fixed registration differ: {}", s.desc());
            c.obs.count("scrypt registrations checked");
        }
        Ok(())
    });
    x.require(&["hash accepted", "refused: hasher error", "refused: hash absent", "refused: hash size", "too long for the buffer", "hasher calls checked", "heap and fixed forms equal", "scrypt registrations checked"]);
}

// ------------------------------------------------------------------ C21
pub fn c21(x: &mut Ctx) {
    x.rule("a distinct non-trivial case is one session id offered to one side, or one pair of differing ids run through a whole session");
    x.stage_n("lengths", 420 * if x.thorough { 20 } else { 2 }, |c| {
        let n = (c.idx % 420) as usize;
        let n = if n < 300 { n } else if n < 400 { (n - 300) * 97 } else { 65_536 + n - 400 };
        let s = Scene::gen(&mut c.rng, &MON);
        let id = match c.rng.below(3) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            _ => c.rng.bytes(n),
        };
        let slot = OnceLock::new();
        let mut cl = s.client(s.cseed, &slot);
        let host = s.host();
        let mut sv = host.session(s.variant, Wire::Direct, LogRng::new(1));
        for (who, r) in [("client", cl.preset(&id)), ("server", sv.preset(&id))] {
            if n < 16 {
                ensure!(r == Err(aucpace::Error::InsecureSsid), "{who} given a session id of {n} bytes: {r:?}");
                c.obs.count("short id refused");
            } else {
                ensure!(r.is_ok(), "{who} given a session id of {n} bytes: {r:?}");
                c.obs.count("long enough id accepted");
            }
        }
        c.obs.seen(&[&(n as u32).to_le_bytes()[..], &id].concat());
        c.obs.sample(|| format!("session id of {n} bytes: {}", sh(&id)));
        Ok(())
    });
    // at the limit, of every kind of content: only the number of bytes counts
    x.stage_n("kinds", 16 * 24 * if x.thorough { 40 } else { 4 }, |c| {
        let n = 8 + (c.idx / 16 % 24) as usize;
        let r = &mut c.rng;
        let unit: Vec<u8> = match c.idx % 16 {
            0 => "\u{e9}".into(),
            1 => "\u{4f60}".into(),
            2 => "\u{1f512}".into(),
            3 => "e\u{301}".into(),
            4 => b" ".to_vec(),
            5 => vec![0],
            6 => b"0123456789abcdef".to_vec(),
            7 => b"1".to_vec(),
            8 => b"9f-".to_vec(),
            9 => b"QUI=".to_vec(),
            10 => b"\r\n".to_vec(),
            11 => vec![0xff, 0xfe],
            12 => vec![r.u64() as u8],
            13 => vec![b'a' + r.below(26) as u8, b'='],
            14 => {
                let k = r.range(1, 5);
                r.bytes(k)
            }
            _ => b"\xc3".to_vec(),
        };
        let mut id: Vec<u8> = unit.iter().copied().cycle().take(n).collect();
        match r.below(6) {
            // one byte of another kind, or a run of zeros at either end
            0 => {
                let i = r.below(n);
                id[i] = r.u64() as u8;
            }
            1 => {
                let k = r.below(n);
                id[k..].fill(0);
            }
            2 => {
                let k = r.below(n);
                id[..k].fill(0);
            }
            3 => {
                // whole characters only
                while std::str::from_utf8(&id).is_err() && !id.is_empty() && c.idx % 16 < 11 {
                    id.pop();
                }
                while id.len() < n {
                    id.insert(0, b'x');
                }
            }
            _ => {}
        }
        let s = Scene::gen(&mut c.rng, &MON);
        let slot = OnceLock::new();
        let mut cl = s.client(s.cseed, &slot);
        let host = s.host();
        let mut sv = host.session(s.variant, Wire::Direct, LogRng::new(1));
        for (who, r) in [("client", cl.preset(&id)), ("server", sv.preset(&id))] {
            let want = if n < 16 { Err(aucpace::Error::InsecureSsid) } else { Ok(()) };
            ensure!(r == want, "{who} given a session id of {n} bytes ({}): {r:?}", hex(&id));
            c.obs.count(if n < 16 { "short id refused" } else { "long enough id accepted" });
        }
        c.obs.seen(&id);
        Ok(())
    });
    x.stage("differing-ids", 5000, 150_000, |c| {
        let s = Scene::gen(&mut c.rng, &MON);
        let mut cfg = gen_cfg(&mut c.rng);
        let a = ssid_bytes(&mut c.rng);
        let b = match c.rng.below(6) {
            0 => {
                // any single byte, from the first to the last
                let mut b = a.clone();
                let i = c.rng.below(b.len());
                b[i] ^= 1 << c.rng.below(8);
                b
            }
            1 => [&a[..], &[0]].concat(),
            2 => [&[0], &a[..]].concat(),
            3 if a.len() > 16 => a[..a.len() - 1].to_vec(),
            4 => {
                let mut b = a.clone();
                let l = b.len();
                b[l - 1] ^= 0x80;
                b
            }
            _ => {
                let mut b = c.rng.mutate(&a);
                while b.len() < 16 {
                    b = c.rng.mutate(&a);
                }
                b
            }
        };
        if a == b {
            return Ok(());
        }
        let same = c.rng.chance(10);
        cfg.ssid = if same { Ssid::Preset(a.clone(), a.clone()) } else { Ssid::Preset(a.clone(), b.clone()) };
        bound(c, &s, &cfg, same, &mut Honest, &[&a[..], &b].concat())
    });
    x.stage_n("lookalike-ids", if x.thorough { 16 } else { 4 } * LOOKALIKES.len() as u64, |c| {
        let s = Scene::gen(&mut c.rng, &MON);
        let mut cfg = gen_cfg(&mut c.rng);
        let (mut a, mut b) = c.rng.lookalike(c.idx as usize);
        let fill: Vec<u8> = (0..16).map(|_| b'a' + c.rng.below(26) as u8).collect();
        for v in [&mut a, &mut b] {
            if c.idx % 2 == 0 { v.extend(&fill) } else { *v = [&fill[..], v].concat() }
        }
        cfg.ssid = Ssid::Preset(a.clone(), b.clone());
        bound(c, &s, &cfg, false, &mut Honest, &[&a[..], &b].concat())
    });
    x.stage("differing-nonces", 5000, 150_000, |c| {
        let mut s = Scene::gen(&mut c.rng, &MON);
        let mut cfg = gen_cfg(&mut c.rng);
        cfg.ssid = Ssid::Negotiated;
        if s.combo.k1() == 1 && c.rng.chance(2) {
            s.combo = Combo(2);
        }
        let k = s.combo.k1();
        let f = c.rng.below(2);
        let bit = c.rng.below(8 * k);
        bound(c, &s, &cfg, false, &mut FlipCh { field: f, bit }, &[f as u8, bit as u8, (bit >> 8) as u8])
    });
    x.require(&["short id refused", "long enough id accepted", "explicit sessions refused", "implicit keys differ", "same id agrees"]);
}
fn bound(c: &mut Case<'_>, s: &Scene, cfg: &SessCfg, same: bool, ch: &mut dyn Channel, key: &[u8]) -> R {
    let mut db = MonDb::default();
    let host = s.host();
    s.enroll(&*host, &mut db)?;
    let slot = OnceLock::new();
    let mut cl = s.client(s.cseed, &slot);
    let mut sv = host.session(s.variant, s.swire, LogRng::new(c.rng.u64()));
    let o = run(cfg, &mut *cl, &mut *sv, &db, ch);
    let d = || format!("{cfg:?}: client {:?} server {:?}: {}", o.client, o.server, s.desc());
    if same {
        agreed(&o, &d())?;
        c.obs.count("same id agrees");
    } else if cfg.implicit {
        ensure!(o.ck().is_some() && o.sk().is_some() && o.ck() != o.sk(), "implicit: {}", d());
        c.obs.count("implicit keys differ");
    } else {
        ensure!(o.ck().is_none() && o.sk().is_none(), "explicit: {}", d());
        c.obs.count("explicit sessions refused");
    }
    c.obs.seen(&[&o.tr.bytes()[..], key].concat());
    Ok(())
}

// ------------------------------------------------------------------ C22
/// All four generators a login involves, each loggable and perturbable
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum G {
    Register,
    Host,
    Client,
    Server,
}
struct FullRun {
    out: Vec<u8>,
    logs: Vec<(G, Vec<u8>)>,
    /// (what, bytes drawn, bytes needed)
    draws: Vec<(&'static str, usize, usize)>,
    values: Vec<(&'static str, Vec<u8>)>,
}
/// registration, an honest login and a login attempt for an unknown name, from four generators
fn full_run(s: &Scene, seeds: [u64; 4], flip: Option<(G, usize, u8)>, both_modes: bool) -> Result<FullRun, String> {
    let mk = |g: G, i: usize| match flip {
        Some((h, off, m)) if h == g => LogRng::with_flip(seeds[i], off, m),
        _ => LogRng::new(seeds[i]),
    };
    let (rr, rh, rc, rs) = (mk(G::Register, 0), mk(G::Host, 1), mk(G::Client, 2), mk(G::Server, 3));
    let k1 = s.combo.k1();
    let mut out = Vec::new();
    let mut draws = Vec::new();
    let mut values: Vec<(&'static str, Vec<u8>)> = Vec::new();
    let mut db = MonDb::default();
    let reg = register(s.combo, &rr, &s.user, &s.pass, &s.params, s.variant.strong, &s.reg).map_err(|e| format!("{e:?}: {}", s.desc()))?;
    match &reg {
        Reg::Plain { salt, verifier, .. } => {
            out.extend(salt.as_str().as_bytes());
            out.extend(pt_bytes(verifier));
            draws.push(("registration salt", rr.drawn(), 16));
            let mut b = [0u8; 64];
            values.push(("registration salt", salt.decode_b64(&mut b).map_err(|e| e.to_string())?.to_vec()));
        }
        Reg::Strong { q, verifier, .. } => {
            out.extend(q.as_bytes());
            out.extend(pt_bytes(verifier));
            draws.push(("secret exponent", rr.drawn(), 32));
            values.push(("secret exponent", q.as_bytes().to_vec()));
        }
    }
    reg.store(&mut db);
    let host = mk_host(s.combo, rh.clone());
    if s.variant.partial {
        let n = rh.drawn();
        let k = host.keypair();
        draws.push(("long-term key pair", rh.drawn() - n, 32));
        values.push(("long-term key pair", pt_bytes(&k.1).to_vec()));
        db.keys.insert(s.user.clone(), k);
        out.extend(pt_bytes(&k.1));
    }
    // step by step, to see what each value draws
    let slot = OnceLock::new();
    let mut cl = mk_client(s.combo, rc.clone(), &s.user, &s.pass, &slot, s.variant.strong, &s.login);
    let n = (rc.drawn(), rh.drawn());
    let mut sv = host.session(s.variant, s.swire, rs.clone());
    let (cn, sn) = (cl.nonce(), sv.nonce());
    draws.push(("client nonce", rc.drawn() - n.0, k1));
    draws.push(("server nonce", rh.drawn() - n.1, k1));
    values.push(("client nonce", cn.clone()));
    values.push(("server nonce", sn.clone()));
    out.extend(&cn);
    out.extend(&sn);
    cl.agree(&sn);
    sv.agree(&cn);
    let n = rc.drawn();
    let (_, b) = cl.start();
    if let Some(b) = b {
        draws.push(("blinding", rc.drawn() - n, 32));
        values.push(("blinded point", pt_bytes(&b).to_vec()));
        out.extend(pt_bytes(&b));
    }
    let n = rs.drawn();
    let aug = sv.info(&s.user, b, &db).map_err(|e| format!("{e:?}: {}", s.desc()))?;
    if !s.variant.partial {
        draws.push(("augmentation key", rs.drawn() - n, 32));
        values.push(("augmentation key", pt_bytes(&aug.x_pub).to_vec()));
    }
    out.extend(pt_bytes(&aug.x_pub));
    out.extend(aug.salt.bytes());
    cl.aug(&aug).map_err(|e| format!("{e:?}: {}", s.desc()))?;
    let n = (rc.drawn(), rs.drawn());
    let (ck, sk) = (cl.public_key(b"c"), sv.public_key(b"c"));
    draws.push(("client ephemeral", rc.drawn() - n.0, 32));
    draws.push(("server ephemeral", rs.drawn() - n.1, 32));
    values.push(("client ephemeral", pt_bytes(&ck).to_vec()));
    values.push(("server ephemeral", pt_bytes(&sk).to_vec()));
    out.extend(pt_bytes(&ck));
    out.extend(pt_bytes(&sk));
    let (kc, ks) = (cl.implicit(sk), sv.implicit(ck));
    match (&kc, &ks) {
        (Ok(a), Ok(b)) if a == b => out.extend(a),
        _ => return Err(format!("honest login failed: {kc:?} {ks:?}: {}", s.desc())),
    }
    drop(sv);
    if both_modes {
        // a name the server does not know: its secret and the fake password related string show here
        let who = b"nobody in particular";
        let mut sv = host.session(s.variant, s.swire, rs.clone());
        sv.preset(&[7; 16]).map_err(|e| format!("{e:?}"))?;
        let n = rs.drawn();
        let a = sv.info(who, s.variant.strong.then_some(BASE + BASE), &db).map_err(|e| format!("{e:?}"))?;
        draws.push(("fake password related string", rs.drawn() - n, 32));
        let p = sv.public_key(b"");
        values.push(("fake server ephemeral", pt_bytes(&p).to_vec()));
        out.extend(pt_bytes(&a.x_pub));
        out.extend(a.salt.bytes());
        out.extend(pt_bytes(&p));
    }
    Ok(FullRun { out, logs: vec![(G::Register, rr.log()), (G::Host, rh.log()), (G::Client, rc.log()), (G::Server, rs.log())], draws, values })
}
pub fn c22(x: &mut Ctx) {
    x.rule("a distinct non-trivial case is one byte (and bit) drawn from a supplied generator, flipped, with the whole run compared; or one fresh value checked against all others of its run");
    x.stage_n("sensitivity", if x.thorough { 400 } else { 40 }, |c| {
        let mut s = Scene::gen(&mut c.rng, &MON);
        s.variant = VARIANTS[c.idx as usize % 4];
        let seeds = [c.rng.u64(), c.rng.u64(), c.rng.u64(), c.rng.u64()];
        let base = full_run(&s, seeds, None, true)?;
        let again = full_run(&s, seeds, None, true)?;
        ensure!(base.out == again.out, "the same generator output gave different messages or keys: {}", s.desc());
        ensure!(base.logs == again.logs, "the same run drew differently: {}", s.desc());
        c.obs.count("repetitions identical");
        for (what, got, need) in &base.draws {
            ensure!(got >= need, "{what} used {got} fresh bytes, not {need}: {}", s.desc());
            c.obs.count(&format!("draws for {what}"));
        }
        for (g, log) in &base.logs {
            for off in 0..log.len() {
                let bits: Vec<u8> = if c.thorough { vec![0, 7, c.rng.below(8) as u8] } else { vec![c.rng.below(8) as u8] };
                for bit in bits {
                    let f = full_run(&s, seeds, Some((*g, off, 1 << bit)), true)?;
                    ensure!(f.out != base.out, "bit {bit} of byte {off} drawn from the {g:?} generator changes nothing: {}", s.desc());
                    c.obs.count("drawn bytes that matter");
                    c.obs.seen(&f.out);
                }
            }
        }
        c.obs.sample(|| format!("{}; drew {:?}", s.desc(), base.draws));
        Ok(())
    });
    // another thread, other allocations, another moment: nothing but the generator may matter
    x.stage("reproducible", 500, 15_000, |c| {
        let s = Scene::any(&mut c.rng, 6);
        let seeds = [c.rng.u64(), c.rng.u64(), c.rng.u64(), c.rng.u64()];
        let a = full_run(&s, seeds, None, true)?;
        let b = std::thread::scope(|t| t.spawn(|| full_run(&s, seeds, None, true)).join()).map_err(|_| "thread".to_string())??;
        ensure!(a.out == b.out, "the same generator output gave different messages on another thread: {}", s.desc());
        c.obs.count("repetitions identical");
        c.obs.seen(&a.out);
        Ok(())
    });
    x.stage_n("uniqueness", if x.thorough { 40 } else { 8 }, |c| {
        let mut s = Scene::gen(&mut c.rng, &BIG);
        s.variant = VARIANTS[c.idx as usize % 4];
        // one generator for everything, as an application would have it
        let rng = LogRng::new(c.rng.u64());
        let host = mk_host(s.combo, rng.clone());
        let mut seen: HashMap<&'static str, HashSet<Vec<u8>>> = HashMap::new();
        let mut all: HashMap<&'static str, Vec<Vec<u8>>> = HashMap::new();
        let mut put = |what: &'static str, v: Vec<u8>| -> R {
            ensure!(seen.entry(what).or_default().insert(v.clone()), "{what} repeated: {}: {}", hex(&v), s.desc());
            all.entry(what).or_default().push(v);
            Ok(())
        };
        let n = 150;
        for _ in 0..n {
            let mut db = MonDb::default();
            let reg = register(s.combo, &rng, &s.user, &s.pass, &s.params, s.variant.strong, &s.reg).map_err(|e| format!("{e:?}"))?;
            match &reg {
                Reg::Plain { salt, verifier, .. } => {
                    let mut b = [0u8; 64];
                    put("registration salt", salt.decode_b64(&mut b).map_err(|e| e.to_string())?.to_vec())?;
                    put("verifier", pt_bytes(verifier).to_vec())?;
                }
                Reg::Strong { q, verifier, .. } => {
                    put("secret exponent", q.as_bytes().to_vec())?;
                    put("verifier", pt_bytes(verifier).to_vec())?;
                }
            }
            reg.store(&mut db);
            if s.variant.partial {
                let k = host.keypair();
                put("long-term private key", k.0.as_bytes().to_vec())?;
                put("augmentation key", pt_bytes(&k.1).to_vec())?;
                db.keys.insert(s.user.clone(), k);
            }
            let slot = OnceLock::new();
            let mut cl = mk_client(s.combo, rng.clone(), &s.user, &s.pass, &slot, s.variant.strong, &s.login);
            let mut sv = host.session(s.variant, s.swire, rng.clone());
            let cfg = SessCfg { ssid: Ssid::Negotiated, implicit: false, ci_c: vec![], ci_s: vec![] };
            let o = run(&cfg, &mut *cl, &mut *sv, &db, &mut Honest);
            agreed(&o, &s.desc())?;
            put("nonce", o.tr.cn.clone())?;
            put("nonce", o.tr.sn.clone())?;
            if let Some(b) = o.tr.blinded {
                put("blinded point", pt_bytes(&b).to_vec())?;
            }
            let a = o.tr.aug.unwrap();
            if !s.variant.partial {
                put("augmentation key", pt_bytes(&a.x_pub).to_vec())?;
            }
            if let SaltMsg::Blinded(b) = a.salt {
                put("blinded salt", pt_bytes(&b).to_vec())?;
            }
            put("ephemeral", pt_bytes(&o.tr.cpk.unwrap()).to_vec())?;
            put("ephemeral", pt_bytes(&o.tr.spk.unwrap()).to_vec())?;
            put("authenticator", o.tr.tb.unwrap().to_vec())?;
            put("authenticator", o.tr.ta.unwrap().to_vec())?;
            put("session key", o.client.unwrap().unwrap())?;
        }
        for (what, vs) in &all {
            for v in vs {
                c.obs.seen(v);
            }
            c.obs.add("fresh values compared", vs.len() as u64);
            if matches!(*what, "registration salt" | "nonce") {
                for pos in 0..vs[0].len() {
                    let b: HashSet<u8> = vs.iter().filter_map(|v| v.get(pos).copied()).collect();
                    // 150 uniform bytes show about 113 of the 256 values
                    ensure!(b.len() > 70, "byte {pos} of the {what} takes only {} values in {}: {}", b.len(), vs.len(), s.desc());
                }
            }
        }
        Ok(())
    });
    x.require(&["repetitions identical", "drawn bytes that matter", "fresh values compared", "draws for client nonce", "draws for server nonce", "draws for registration salt", "draws for secret exponent", "draws for blinding", "draws for long-term key pair", "draws for augmentation key", "draws for client ephemeral", "draws for server ephemeral", "draws for fake password related string"]);
}

// ------------------------------------------------------------------ C26
pub fn c26(x: &mut Ctx) {
    x.rule("a distinct non-trivial case is one login whose every message, in memory and as serialized, was searched for every secret of that session in all forms");
    x.stage("scans", 900, 25_000, |c| {
        let mut s = Scene::gen(&mut c.rng, &MON);
        s.variant = VARIANTS[c.idx as usize % 4];
        // a password long enough that finding it by chance is out of the question
        let n = c.rng.range(9, 60);
        s.pass = if c.rng.chance(2) { c.rng.bytes(n) } else { (0..n).map(|_| b'!' + c.rng.below(90) as u8).collect() };
        s.login.buf = None;
        s.reg.buf = None;
        let implicit = c.rng.chance(3);
        let k = s.combo;
        let mut db = MonDb::default();
        let host = s.host();
        s.enroll(&*host, &mut db)?;
        let ci = c.rng.hostile(60);
        if find(&s.user, &s.pass).is_some() || find(&ci, &s.pass).is_some() {
            return Ok(());
        }
        let cfg = SessCfg { ssid: gen_ssid(&mut c.rng), implicit, ci_c: ci.clone(), ci_s: ci.clone() };
        let mut seen_msgs: Vec<Vec<(String, Vec<u8>)>> = Vec::new();
        for round in 0..2u64 {
            let (rc, rs) = (LogRng::new(s.cseed ^ round << 40), LogRng::new(c.rng.u64()));
            let slot = OnceLock::new();
            let mut cl = mk_client(k, rc.clone(), &s.user, &s.pass, &slot, s.variant.strong, &s.login);
            let mut sv = host.session(s.variant, s.swire, rs.clone());
            let o = run(&cfg, &mut *cl, &mut *sv, &db, &mut Honest);
            agreed(&o, &s.desc())?;
            let aug = o.tr.aug.clone().unwrap();
            // secrets of this session, recomputed by the reference
            let up = user_pass(&s.user, &s.pass);
            let z = combo_z(k, &s.user, &s.pass);
            let (salt, ver) = if s.variant.strong {
                let r = &db.strong[&s.user];
                (b64(&pt_bytes(&(z * r.q))), r.verifier)
            } else {
                let r = &db.plain[&s.user];
                (r.salt.as_str().to_string(), r.verifier)
            };
            let hash = ref_hash(k, &up, &salt, &s.params);
            let w = ref_w(&hash);
            let prs = pt_bytes(&(aug.x_pub * w));
            let mut needles = vec![
                needle("password", &s.pass),
                needle("username:password", &up),
                needle("password hash", &hash),
                needle("password scalar", w.as_bytes()),
                needle("password verifier", &pt_bytes(&ver)),
                needle("password related string", &prs),
                needle("session key", o.ck().unwrap()),
                needle("first half of the session key", &o.ck().unwrap()[..32]),
                needle("second half of the session key", &o.ck().unwrap()[32..]),
            ];
            if s.variant.strong {
                needles.push(needle("unblinded password point", &pt_bytes(&z)));
                needles.push(needle("salt", &pt_bytes(&(z * db.strong[&s.user].q))));
                needles.push(needle("secret exponent", db.strong[&s.user].q.as_bytes()));
                needles.push(Needle { name: "salt string", forms: vec![salt.clone().into_bytes()] });
            }
            if let Some((x, _)) = db.keys.get(&s.user) {
                needles.push(needle("long-term private key", x.as_bytes()));
            }
            // whatever scalar either side reduced from its generator
            for log in [rc.log(), rs.log()] {
                for win in log.windows(64) {
                    let a: [u8; 64] = win.try_into().unwrap();
                    needles.push(Needle { name: "private scalar", forms: vec![Scalar::from_bytes_mod_order_wide(&a).as_bytes().to_vec()] });
                }
            }
            // the messages
            let mut msgs: Vec<(String, Vec<u8>)> = vec![];
            if !o.tr.cn.is_empty() {
                msgs.push(("client nonce".into(), o.tr.cn.clone()));
                msgs.push(("server nonce".into(), o.tr.sn.clone()));
            }
            msgs.push(("username".into(), o.tr.user.clone()));
            if let Some(b) = &o.tr.blinded {
                msgs.push(("blinded point".into(), pt_bytes(b).to_vec()));
            }
            msgs.push(("augmentation key".into(), pt_bytes(&aug.x_pub).to_vec()));
            msgs.push(("salt".into(), aug.salt.bytes()));
            if let SaltMsg::Plain(t) = &aug.salt {
                let mut b = [0u8; 64];
                msgs.push(("decoded salt".into(), t.decode_b64(&mut b).map_err(|e| e.to_string())?.to_vec()));
            }
            msgs.push(("parameters".into(), aug.params.as_str().as_bytes().to_vec()));
            msgs.push(("group".into(), aug.group.clone().into_bytes()));
            msgs.push(("client key".into(), pt_bytes(&o.tr.cpk.unwrap()).to_vec()));
            msgs.push(("server key".into(), pt_bytes(&o.tr.spk.unwrap()).to_vec()));
            if let Some(t) = o.tr.tb {
                msgs.push(("client authenticator".into(), t.to_vec()));
            }
            if let Some(t) = o.tr.ta {
                msgs.push(("server authenticator".into(), t.to_vec()));
            }
            scan(c.obs, &msgs, &needles, &|| s.desc())?;
            let mut key = o.tr.bytes();
            key.push(round as u8);
            c.obs.seen(&key);
            c.obs.sample(|| format!("{} messages x {} secrets: {}", msgs.len(), needles.len(), s.desc()));
            seen_msgs.push(msgs);
        }
        // nothing that depends on the password may come back the same: it would be a test for guesses
        for (mn, m) in &seen_msgs[0] {
            let fixed = match mn.as_str() {
                "username" | "parameters" | "group" => true,
                "salt" | "decoded salt" => !s.variant.strong,
                "augmentation key" => s.variant.partial,
                "client nonce" | "server nonce" => k.k1() < 16,
                _ => false,
            };
            if fixed {
                continue;
            }
            for (on, other) in &seen_msgs[1] {
                ensure!(on != mn || other != m, "the {mn} message {} is the same in two logins: {}", hex(m), s.desc());
            }
            c.obs.count("messages compared over two logins");
        }
        c.obs.count(variant_name(s.variant));
        Ok(())
    });
    // the stored salt must not be derived from the credentials either: what a server shows to anyone who asks
    x.stage("registrations", 300, 9000, |c| {
        let s = Scene::gen(&mut c.rng, &MON);
        let mut got: Vec<Vec<u8>> = Vec::new();
        for _ in 0..4 {
            let r = s.registration(c.rng.u64())?;
            got.push(match &r {
                Reg::Plain { salt, .. } => salt.as_str().as_bytes().to_vec(),
                Reg::Strong { q, .. } => q.as_bytes().to_vec(),
            });
        }
        for i in 0..4 {
            for j in 0..i {
                ensure!(got[i] != got[j], "two registrations of the same credentials share the salt {}: {}", hex(&got[i]), s.desc());
            }
        }
        c.obs.count("registrations of the same credentials compared");
        Ok(())
    });
    x.require(&["message and secret pairs searched", "messages compared over two logins", "plain", "partial", "strong", "strong-partial", "registrations of the same credentials compared"]);
}

// ------------------------------------------------------------------ C34
/// What is stored, and the verifier's exponent, which only the harness knows.
#[derive(Clone)]
struct Row {
    plain: Option<(Rec, Scalar)>,
    strong: Option<(StrongRec, Scalar)>,
    keys: Option<(Scalar, Pt)>,
}
fn gen_row(r: &mut Prng) -> Row {
    let odd_scalar = |r: &mut Prng| match r.below(8) {
        0 => Scalar::ONE,
        1 => -Scalar::ONE,
        2 => Scalar::from(r.range(2, 300) as u64),
        _ => rand_scalar(r),
    };
    // a neutral verifier is a verifier
    let w = if r.chance(12) { Scalar::ZERO } else { odd_scalar(r) };
    let plain = Rec { verifier: BASE * w, salt: rand_salt(r), params: rand_params(r) };
    let w2 = if r.chance(12) { Scalar::ZERO } else { odd_scalar(r) };
    let q = if r.chance(12) { Scalar::ZERO } else { odd_scalar(r) };
    let strong = StrongRec { verifier: BASE * w2, q, params: rand_params(r) };
    let x = odd_scalar(r);
    // the public half is sent as it is stored, whatever it is
    let xp = if r.chance(3) { rand_point(r) } else { BASE * x };
    Row { plain: (!r.chance(4)).then_some((plain, w)), strong: (!r.chance(4)).then_some((strong, w2)), keys: (!r.chance(4)).then_some((x, xp)) }
}
fn put_row(db: &mut MonDb, name: &[u8], row: &Row) {
    db.plain.remove(name);
    db.strong.remove(name);
    db.keys.remove(name);
    if let Some((p, _)) = &row.plain {
        db.plain.insert(name.to_vec(), p.clone());
    }
    if let Some((p, _)) = &row.strong {
        db.strong.insert(name.to_vec(), p.clone());
    }
    if let Some(k) = row.keys {
        db.keys.insert(name.to_vec(), k);
    }
}
fn records(c: &mut Case<'_>) -> R {
    let mut s = Scene::gen(&mut c.rng, &MON);
    s.variant = VARIANTS[c.idx as usize % 4];
    let host = s.host();
    let mut db = MonDb { log: true, ..Default::default() };
    let (a, b) = c.rng.lookalike(c.idx as usize / 4);
    let mut names = vec![a, b];
    for _ in 0..c.rng.range(1, 4) {
        let base = names[c.rng.below(names.len())].clone();
        let n = if c.rng.chance(2) { c.rng.mutate(&base) } else { c.rng.hostile_any(300) };
        if !names.contains(&n) {
            names.push(n);
        }
    }
    let mut rows: Vec<Row> = names.iter().map(|_| gen_row(&mut c.rng)).collect();
    for (n, r) in names.iter().zip(&rows) {
        put_row(&mut db, n, r);
    }
    for _ in 0..c.rng.range(4, 8) {
        if c.rng.chance(4) {
            // the application replaces or deletes a record between logins
            let i = c.rng.below(names.len());
            rows[i] = gen_row(&mut c.rng);
            put_row(&mut db, &names[i], &rows[i]);
            c.obs.count("records replaced between logins");
        }
        let i = c.rng.below(names.len());
        let (name, row) = (&names[i], &rows[i]);
        let rec = match (s.variant.strong, &row.plain, &row.strong) {
            (false, Some((p, w)), _) => Some((*w, p.verifier, p.params.clone())),
            (true, _, Some((p, w))) => Some((*w, p.verifier, p.params.clone())),
            _ => None,
        };
        let complete = rec.is_some() && (!s.variant.partial || row.keys.is_some());
        // whoever logs in knows the verifier's exponent of this row or, when there is none, of another one
        let known = match (&rec, row.keys) {
            (Some((_, v, _)), Some((x, _))) if s.variant.partial => Known::Prs(pt_bytes(&(v * x))),
            (Some((w, _, _)), _) => Known::W(*w),
            _ => match rows.iter().find_map(|r| if s.variant.strong { r.strong.as_ref().map(|x| x.1) } else { r.plain.as_ref().map(|x| x.1) }) {
                Some(w) => Known::W(w),
                None => Known::W(Scalar::ONE),
            },
        };
        db.lookups.write().unwrap().clear();
        let cfg = gen_cfg(&mut c.rng);
        let mut cl = mk_known_client(s.combo, c.rng.u64(), name, s.variant.strong, known);
        let mut sv = host.session(s.variant, s.swire, LogRng::new(c.rng.u64()));
        let o = run(&cfg, &mut *cl, &mut *sv, &db, &mut Honest);
        let d = || format!("name {} (plain {}, strong {}, keys {}) on {}: client {:?} server {:?} reply {:?}", sh(name), row.plain.is_some(), row.strong.is_some(), row.keys.is_some(), s.desc(), o.client, o.server, o.tr.aug);
        let looked = db.lookups.read().unwrap().clone();
        ensure!(!looked.is_empty(), "no record was read: {}", d());
        for l in &looked {
            ensure!(l == name, "the record of {} was read: {}", sh(l), d());
        }
        c.obs.add("lookups observed", looked.len() as u64);
        if complete && s.variant.strong && row.strong.as_ref().unwrap().0.q == Scalar::ZERO {
            ensure!(o.server == Some(Err(AErr::IllegalPointError)), "a stored exponent of zero: {}", d());
            c.obs.count("stored exponent of zero refused");
            continue;
        }
        let aug = match &o.tr.aug {
            Some(a) => a,
            None => return Err(format!("no reply: {}", d())),
        };
        if complete {
            let want = match (&row.plain, &row.strong) {
                (Some((p, _)), _) if !s.variant.strong => SaltMsg::Plain(p.salt.clone()),
                (_, Some((p, _))) => SaltMsg::Blinded(o.tr.blinded.unwrap() * p.q),
                _ => unreachable!(),
            };
            ensure!(aug.salt == want, "the reply's salt is not that of the record ({want:?}): {}", d());
            let params = &rec.as_ref().unwrap().2;
            ensure!(aug.params == *params, "the reply's parameters are not those of the record ({}): {}", params.as_str(), d());
            if s.variant.partial {
                ensure!(aug.x_pub == row.keys.unwrap().1, "the reply's key is not that of the record: {}", d());
            }
            agreed(&o, &d())?;
            c.obs.count("complete records served");
        } else {
            ensure!(o.ck().is_none() || o.sk().is_none() || o.ck() != o.sk(), "a login without a complete record succeeded: {}", d());
            if !cfg.implicit {
                ensure!(o.ck().is_none() && o.sk().is_none(), "a login without a complete record gave a key: {}", d());
            }
            c.obs.count("incomplete records refused");
        }
        // nothing of anybody else's record
        for (j, r) in rows.iter().enumerate().filter(|(j, _)| *j != i) {
            let q = r.strong.as_ref().map(|x| x.0.q);
            let alien = match &aug.salt {
                // short salts and small exponents coincide by themselves
                SaltMsg::Plain(t) => t.as_str().len() > 10 && r.plain.as_ref().map_or(false, |x| x.0.salt == *t) && row.plain.as_ref().map_or(true, |x| x.0.salt != *t),
                SaltMsg::Blinded(p) => q.map_or(false, |q| q != Scalar::ZERO && o.tr.blinded.unwrap() * q == *p) && row.strong.as_ref().map_or(true, |x| Some(x.0.q) != q),
            };
            ensure!(!alien, "the reply carries the salt of {}: {}", sh(&names[j]), d());
            ensure!(r.keys.map_or(true, |k| k.1 != aug.x_pub) || row.keys.map_or(false, |k| k.1 == aug.x_pub), "the reply carries the key of {}: {}", sh(&names[j]), d());
        }
        c.obs.seen(&[&aug.salt.bytes()[..], &pt_bytes(&aug.x_pub), name].concat());
        c.obs.sample(d);
    }
    Ok(())
}
/// Two users whose names look alike, registered by the real client: the
/// messages carry the names as they are and neither gets at the other's account.
fn two_names(c: &mut Case<'_>) -> R {
    let mut s = Scene::gen(&mut c.rng, &MON);
    s.variant = VARIANTS[c.idx as usize % 4];
    let (a, b) = c.rng.lookalike(c.idx as usize / 4);
    let pair = [a, b];
    s.pass = c.rng.hostile(60);
    let mut both = Vec::new();
    let host = s.host();
    let mut db = MonDb { log: true, ..Default::default() };
    for (i, n) in pair.iter().enumerate() {
        let mut t = s.clone();
        t.user = n.clone();
        t.pass.push(b'0' + i as u8);
        t.reg.buf = None;
        t.login.buf = None;
        t.cseed = c.rng.u64();
        let reg = t.registration(c.rng.u64())?;
        let sent = match &reg {
            Reg::Plain { username, .. } | Reg::Strong { username, .. } => username.clone(),
        };
        ensure!(sent == *n, "the registration of {} names {}: {}", sh(n), sh(&sent), t.desc());
        reg.store(&mut db);
        if s.variant.partial {
            db.keys.insert(n.clone(), host.keypair());
        }
        c.obs.count("registrations observed");
        both.push(t);
    }
    for (who, pw) in [(0, 0), (1, 1), (0, 1), (1, 0)] {
        let mut t = both[who].clone();
        t.pass = both[pw].pass.clone();
        let cfg = gen_cfg(&mut c.rng);
        let slot = OnceLock::new();
        db.lookups.write().unwrap().clear();
        let mut cl = t.client(c.rng.u64(), &slot);
        let mut sv = host.session(t.variant, t.swire, LogRng::new(c.rng.u64()));
        let o = run(&cfg, &mut *cl, &mut *sv, &db, &mut Honest);
        let d = || format!("{} with the password of {}: client {:?} server {:?}: {}", sh(&t.user), sh(&pair[pw]), o.client, o.server, t.desc());
        ensure!(o.tr.user == t.user, "the client sent the name {}: {}", sh(&o.tr.user), d());
        for l in db.lookups.read().unwrap().iter() {
            ensure!(*l == t.user, "the record of {} was read: {}", sh(l), d());
        }
        if who == pw {
            agreed(&o, &d())?;
            c.obs.count("logins under a name like another's");
        } else if cfg.implicit {
            ensure!(o.ck() != o.sk(), "{}", d());
        } else {
            ensure!(o.ck().is_none() && o.sk().is_none(), "{}", d());
            c.obs.count("refused under a name like another's");
        }
        c.obs.seen(&[&t.user[..], &o.tr.bytes()].concat());
    }
    Ok(())
}
pub fn c34(x: &mut Ctx) {
    x.rule("a distinct non-trivial case is one login whose reads of the database, reply and key are compared with the records stored at that moment");
    x.stage("records", 1500, 50_000, |c| records(c));
    x.stage_n("two-names", if x.thorough { 16 } else { 4 } * 4 * LOOKALIKES.len() as u64, |c| two_names(c));
    x.require(&["lookups observed", "complete records served", "incomplete records refused", "records replaced between logins", "stored exponent of zero refused", "registrations observed", "logins under a name like another's", "refused under a name like another's"]);
}
