//! C23: many sessions over shared values, interleaved and on threads, against a sequential model.
use crate::auc::*;
use crate::auc_mon::*;
use crate::core::*;
use crate::ensure;
use crate::spake_mon as sp;
use crate::srp_mon as sr;
use password_hash::SaltString;
use crate::srp_ref as rf;
use crate::toys::DIGEST_NAMES;
use crate::with_digest;
use curve25519_dalek::scalar::Scalar;
use digest::Digest;
use srp::client::SrpClient;
use srp::server::SrpServer;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex, OnceLock, RwLock};

/// one planned login
pub struct Spec {
    user: usize,
    name: Vec<u8>,
    pass: Vec<u8>,
    variant: Variant,
    ssid: Option<Vec<u8>>,
    implicit: bool,
    login: ClientOpts,
    swire: Wire,
    cseed: u64,
    sseed: u64,
    abort_at: usize,
    slot: OnceLock<SaltString>,
    slot2: OnceLock<SaltString>,
    slot3: OnceLock<SaltString>,
}
/// the passwords a user may have, and the one in force
pub struct User {
    name: Vec<u8>,
    passes: Vec<Vec<u8>>,
}
/// what the model says is stored: per user and table (plain, strong), the index of the password
type Stored = Vec<[Option<usize>; 2]>;
pub struct World {
    db: MonDb,
    stored: Stored,
}
pub struct Sess<'a> {
    id: usize,
    spec: &'a Spec,
    step: usize,
    cl: Box<dyn ClientPeer<'a> + Send + 'a>,
    sv: Box<dyn ServerPeer + Send>,
    o: Outcome,
    aug: Option<Aug>,
    /// password in force at lookup
    looked_up: Option<Option<usize>>,
    snapshot: Option<MonDb>,
    seq: u64,
    done: bool,
    aborted: bool,
}
impl<'a> Sess<'a> {
    fn new(id: usize, spec: &'a Spec, combo: Combo, dev: &dyn Device, host: &dyn Host) -> Self {
        let _ = combo;
        Sess {
            id,
            spec,
            step: 0,
            cl: dev.session(LogRng::new(spec.cseed), &spec.name, &spec.pass, &spec.slot, spec.variant.strong, &spec.login),
            sv: host.session(spec.variant, spec.swire, LogRng::new(spec.sseed)),
            o: Outcome::default(),
            aug: None,
            looked_up: None,
            snapshot: None,
            seq: 0,
            done: false,
            aborted: false,
        }
    }
    /// one call on one party
    fn advance(&mut self, w: &RwLock<World>, clock: &AtomicU64) {
        if self.step == self.spec.abort_at {
            self.aborted = true;
            self.done = true;
            return;
        }
        let tr = &mut self.o.tr;
        match self.step {
            0 => match &self.spec.ssid {
                None => tr.cn = self.cl.nonce(),
                Some(id) => self.cl.preset(id).expect("long enough"),
            },
            1 => match &self.spec.ssid {
                None => tr.sn = self.sv.nonce(),
                Some(id) => self.sv.preset(id).expect("long enough"),
            },
            2 => {
                if self.spec.ssid.is_none() {
                    self.cl.agree(&tr.sn)
                }
            }
            3 => {
                if self.spec.ssid.is_none() {
                    self.sv.agree(&tr.cn)
                }
            }
            4 => {
                let (u, b) = self.cl.start();
                tr.user = u;
                tr.blinded = b;
            }
            5 => {
                let g = w.read().unwrap();
                self.seq = clock.fetch_add(1, Ordering::SeqCst);
                self.looked_up = Some(g.stored[self.spec.user][self.spec.variant.strong as usize]);
                let mut snap = MonDb::default();
                let n = &self.spec.name;
                if let Some(r) = g.db.plain.get(n) {
                    snap.plain.insert(n.clone(), r.clone());
                }
                if let Some(r) = g.db.strong.get(n) {
                    snap.strong.insert(n.clone(), r.clone());
                }
                if let Some(r) = g.db.keys.get(n) {
                    snap.keys.insert(n.clone(), *r);
                }
                self.snapshot = Some(snap);
                match self.sv.info(&tr.user, tr.blinded, &g.db) {
                    Ok(a) => {
                        tr.aug = Some(a.clone());
                        self.aug = Some(a);
                    }
                    Err(e) => {
                        self.o.server = Some(Err(e));
                        self.done = true;
                    }
                }
            }
            6 => {
                if let Err(e) = self.cl.aug(self.aug.as_ref().unwrap()) {
                    self.o.client = Some(Err(e));
                    self.done = true;
                }
            }
            7 => tr.spk = Some(self.sv.public_key(b"ci")),
            8 => tr.cpk = Some(self.cl.public_key(b"ci")),
            9 => {
                if self.spec.implicit {
                    self.o.client = Some(self.cl.implicit(tr.spk.unwrap()));
                } else {
                    match self.cl.recv_key(tr.spk.unwrap()) {
                        Ok(t) => tr.tb = Some(t),
                        Err(e) => {
                            self.o.client = Some(Err(e));
                            self.done = true
                        }
                    }
                }
            }
            10 => {
                if self.spec.implicit {
                    self.o.server = Some(self.sv.implicit(tr.cpk.unwrap()));
                    self.done = true;
                } else if let Err(e) = self.sv.recv_key(tr.cpk.unwrap()) {
                    self.o.server = Some(Err(e));
                    self.done = true;
                }
            }
            11 => match self.sv.recv_auth(tr.tb.unwrap()) {
                Ok((k, a)) => {
                    self.o.server = Some(Ok(k));
                    tr.ta = Some(a);
                }
                Err(e) => self.o.server = Some(Err(e)),
            },
            _ => {
                self.o.client = Some(self.cl.recv_auth(tr.ta.unwrap_or([0; 64])));
                self.done = true;
            }
        }
        self.step += 1;
    }
}
fn plan(r: &mut Prng, users: &[User], n: usize) -> Vec<Spec> {
    (0..n)
        .map(|_| {
            let user = r.below(users.len());
            let u = &users[user];
            let pass = u.passes[r.below(u.passes.len())].clone();
            let out = 32;
            let need = u.name.len() + pass.len() + 1;
            let buf = (0..BUFS.len()).find(|i| BUFS[*i] >= need).filter(|_| r.chance(2));
            Spec {
                user,
                name: u.name.clone(),
                pass,
                variant: *r.pick(&VARIANTS),
                ssid: r.chance(2).then(|| r.bytes(16)),
                implicit: r.chance(3),
                login: ClientOpts { buf, wire: Wire::Direct, out, rec: None, force: None },
                swire: *r.pick(&[Wire::Direct, Wire::Bincode]),
                cseed: r.u64(),
                sseed: r.u64(),
                abort_at: if r.chance(6) { r.below(13) } else { 99 },
                slot: OnceLock::new(),
                slot2: OnceLock::new(),
                slot3: OnceLock::new(),
            }
        })
        .collect()
}
fn users(r: &mut Prng) -> Vec<User> {
    let base = r.hostile(20);
    let mut v: Vec<User> = Vec::new();
    let shared = r.hostile(20);
    for _ in 0..4 {
        let name = if r.chance(2) { r.mutate(&base) } else { r.hostile(20) };
        let mut passes = vec![shared.clone()];
        let mut name = name;
        if !v.is_empty() && r.chance(3) {
            // the same bytes as another user's name and password, cut elsewhere
            let o = r.pick(&v);
            let mut w = r.resplit(&[&o.name.clone(), &o.passes[0].clone()]);
            (passes[0], name) = (w.pop().unwrap(), w.pop().unwrap());
        }
        if v.iter().any(|u| u.name == name) {
            continue;
        }
        while passes.len() < 3 {
            let p = r.mutate(&passes[0]);
            if !passes.contains(&p) {
                passes.push(p);
            }
        }
        v.push(User { name, passes });
    }
    v
}
enum Op {
    Set(usize, usize, bool),
    Remove(usize),
    Rekey(usize),
}
fn random_op(r: &mut Prng, n: usize) -> Op {
    let u = r.below(n);
    match r.below(8) {
        0 => Op::Remove(u),
        1 => Op::Rekey(u),
        _ => Op::Set(u, r.below(3), r.chance(2)),
    }
}
/// applies one administrative operation; the model changes in the same critical section
fn apply(op: &Op, us: &[User], w: &RwLock<World>, dev: &dyn Device, host: &dyn Host, clock: &AtomicU64, log: &mut Vec<Event>) -> R {
    match op {
        Op::Set(u, p, strong) => {
            let o = ClientOpts { buf: None, wire: Wire::Direct, out: 32, rec: None, force: None };
            let reg = dev.register(&us[*u].name, &us[*u].passes[*p], &MonParams::default(), *strong, &o).map_err(|e| format!("registration failed: {e:?}"))?;
            let key = host.keypair();
            let mut g = w.write().unwrap();
            reg.store(&mut g.db);
            g.db.keys.entry(us[*u].name.clone()).or_insert(key);
            g.stored[*u][*strong as usize] = Some(*p);
            log.push(Event { seq: clock.fetch_add(1, Ordering::SeqCst), what: What::Set(*u, *p, *strong) });
        }
        Op::Remove(u) => {
            let mut g = w.write().unwrap();
            g.db.plain.remove(&us[*u].name);
            g.db.strong.remove(&us[*u].name);
            g.db.keys.remove(&us[*u].name);
            g.stored[*u] = [None, None];
            log.push(Event { seq: clock.fetch_add(1, Ordering::SeqCst), what: What::Remove(*u) });
        }
        Op::Rekey(u) => {
            let key = host.keypair();
            let mut g = w.write().unwrap();
            if g.stored[*u] != [None, None] {
                g.db.keys.insert(us[*u].name.clone(), key);
            }
            log.push(Event { seq: clock.fetch_add(1, Ordering::SeqCst), what: What::Rekey });
        }
    }
    Ok(())
}
#[derive(Clone)]
enum What {
    Set(usize, usize, bool),
    Remove(usize),
    Rekey,
    /// user, table, password used, finished (None), succeeded
    Login { user: usize, strong: bool, used: usize, id: usize, ok: Option<bool> },
}
#[derive(Clone)]
struct Event {
    seq: u64,
    what: What,
}
/// what this session came to: Some(success), None when it was given up
fn verdict(s: &Sess<'_>, us: &[User]) -> Result<Option<bool>, String> {
    if s.aborted || s.looked_up.is_none() {
        return Ok(None);
    }
    let d = || format!("session {} user {} strong {} partial {} implicit {} ssid {:?}: client {:?} server {:?}", s.id, sh(&us[s.spec.user].name), s.spec.variant.strong, s.spec.variant.partial, s.spec.implicit, s.spec.ssid, s.o.client, s.o.server);
    let ok = match (s.o.ck(), s.o.sk()) {
        (Some(a), Some(b)) if a == b => true,
        (Some(_), Some(_)) if s.spec.implicit => false,
        (None, None) => false,
        _ => return Err(format!("the parties ended differently: {}", d())),
    };
    Ok(Some(ok))
}
/// decides a recorded history: replays the administrative events in order and asks of every login
/// whether it should have succeeded with what was stored at its lookup
fn judge(mut ev: Vec<Event>, us: &[User], obs: &mut Obs) -> R {
    ev.sort_by_key(|e| e.seq);
    let mut st: Stored = us.iter().map(|_| [None, None]).collect();
    for (i, e) in ev.iter().enumerate() {
        ensure!(e.seq == i as u64, "harness: event numbers are not consecutive ({} at {i})", e.seq);
        match &e.what {
            What::Set(u, p, s) => st[*u][*s as usize] = Some(*p),
            What::Remove(u) => st[*u] = [None, None],
            What::Rekey => {}
            What::Login { user, strong, used, id, ok } => {
                let want = st[*user][*strong as usize] == Some(*used);
                if let Some(ok) = ok {
                    ensure!(
                        *ok == want,
                        "login {id} of user {} with password {} {} although password {:?} was in force at its lookup (event {i} of {})",
                        sh(&us[*user].name),
                        sh(&us[*user].passes[*used]),
                        if *ok { "succeeded" } else { "failed" },
                        st[*user][*strong as usize].map(|p| sh(&us[*user].passes[p])),
                        ev.len()
                    );
                    obs.count(if want { "logins that had to succeed" } else { "logins that had to fail" });
                } else {
                    obs.count("sessions given up");
                }
            }
        }
    }
    Ok(())
}
/// the same session with nothing else going on
fn alone(s: &Sess<'_>, combo: Combo, hostseed: u64, obs: &mut Obs) -> R {
    let Some(id) = &s.spec.ssid else { return Ok(()) };
    if s.aborted || s.snapshot.is_none() {
        return Ok(());
    }
    let host = mk_host(combo, LogRng::new(hostseed));
    let mut cl = mk_client(combo, LogRng::new(s.spec.cseed), &s.spec.name, &s.spec.pass, &s.spec.slot2, s.spec.variant.strong, &s.spec.login);
    let mut sv = host.session(s.spec.variant, s.spec.swire, LogRng::new(s.spec.sseed));
    let cfg = SessCfg { ssid: Ssid::Preset(id.clone(), id.clone()), implicit: s.spec.implicit, ci_c: b"ci".to_vec(), ci_s: b"ci".to_vec() };
    let o = run(&cfg, &mut *cl, &mut *sv, s.snapshot.as_ref().unwrap(), &mut Honest);
    ensure!(
        o.tr.bytes() == s.o.tr.bytes() && o.ck() == s.o.ck() && o.sk() == s.o.sk(),
        "session {} ran differently among others than alone: client {:?}/{:?} server {:?}/{:?} transcript {}/{}",
        s.id,
        s.o.client,
        o.client,
        s.o.server,
        o.server,
        hex(&s.o.tr.bytes()),
        hex(&o.tr.bytes())
    );
    obs.count("sessions replayed alone");
    // the same party again, the other one being the independent implementation
    let snap = s.snapshot.as_ref().unwrap();
    let known = if s.spec.variant.strong { snap.strong.contains_key(&s.spec.name) } else { snap.plain.contains_key(&s.spec.name) };
    if known && (!s.spec.variant.partial || snap.keys.contains_key(&s.spec.name)) {
        let want = s.o.ck().is_some() && s.o.ck() == s.o.sk();
        let cseed = s.spec.cseed;
        let mut cl = mk_client(combo, LogRng::new(cseed), &s.spec.name, &s.spec.pass, &s.spec.slot3, s.spec.variant.strong, &s.spec.login);
        let mut sv = mk_ref_server(combo, s.spec.sseed, s.spec.variant);
        let o = run(&cfg, &mut *cl, &mut *sv, snap, &mut Honest);
        ensure!((o.ck().is_some() && o.ck() == o.sk()) == want, "session {}: with an independent server the client ends {:?}/{:?}, among others it ended {:?}/{:?}", s.id, o.client, o.server, s.o.client, s.o.server);
        let mut cl = mk_ref_client(combo, cseed, &s.spec.name, &s.spec.pass, s.spec.variant.strong, 32);
        let mut sv = host.session(s.spec.variant, s.spec.swire, LogRng::new(s.spec.sseed));
        let o = run(&cfg, &mut *cl, &mut *sv, snap, &mut Honest);
        ensure!((o.ck().is_some() && o.ck() == o.sk()) == want, "session {}: with an independent client the server ends {:?}/{:?}, among others they ended {:?}/{:?}", s.id, o.client, o.server, s.o.client, s.o.server);
        obs.count("sessions repeated with an independent peer");
    }
    Ok(())
}
fn login_event(s: &Sess<'_>, us: &[User]) -> Result<Option<Event>, String> {
    if s.looked_up.is_none() {
        return Ok(None);
    }
    let used = us[s.spec.user].passes.iter().position(|p| *p == s.spec.pass).unwrap();
    Ok(Some(Event { seq: s.seq, what: What::Login { user: s.spec.user, strong: s.spec.variant.strong, used, id: s.id, ok: verdict(s, us)? } }))
}
fn world(us: &[User]) -> RwLock<World> {
    RwLock::new(World { db: MonDb::default(), stored: us.iter().map(|_| [None, None]).collect() })
}
pub fn c23(x: &mut Ctx) {
    x.rule("a distinct non-trivial case is one schedule (order of all session steps and administrative operations over shared values) whose recorded history was decided by the sequential model");
    // concurrent first use of the shared groups must come before anything else touches them
    x.stage_n("first-access", 1, |c| {
        let n = 16;
        let bar = Barrier::new(n);
        let seen: Vec<Vec<(String, String)>> = std::thread::scope(|t| {
            let h: Vec<_> = (0..n)
                .map(|i| {
                    let bar = &bar;
                    t.spawn(move || {
                        bar.wait();
                        let mut bits = [1024, 1536, 2048, 3072, 4096, 6144, 8192];
                        bits.rotate_left(i % 7);
                        let mut v: Vec<(usize, (String, String))> = bits
                            .iter()
                            .map(|b| {
                                let g = sr::shipped(*b);
                                (*b, (hex(&g.n.to_bytes_be()), hex(&g.g.to_bytes_be())))
                            })
                            .collect();
                        v.sort_by_key(|e| e.0);
                        v.into_iter().map(|e| e.1).collect::<Vec<_>>()
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (i, v) in seen.iter().enumerate() {
            for (k, g) in sr::rfc().iter().enumerate() {
                ensure!(v[k].0 == hex(&g.rf.n.to_bytes_be()) && v[k].1 == hex(&g.rf.g.to_bytes_be()), "thread {i} saw another group of {} bits on first access: n {} g {}", g.bits, v[k].0, v[k].1);
                c.obs.count("first accesses from concurrent threads");
            }
        }
        Ok(())
    });
    x.stage("interleavings", 1500, 45_000, |c| interleave(c));
    x.stage("threads", 120, 3000, |c| threads(c));
    x.stage("mixed-interleavings", 600, 15_000, |c| mixed(c));
    x.stage("mixed-threads", 60, 1200, |c| mixed_threads(c));
    x.require(&["logins that had to succeed", "logins that had to fail", "sessions given up", "sessions replayed alone", "steps taken on another thread than the one before", "srp sessions among others", "spake2 sessions among others", "spake2 sessions with the reference among others", "sessions repeated with an independent peer", "first accesses from concurrent threads"]);
}
fn interleave(c: &mut Case<'_>) -> R {
    let combo = Combo(*c.rng.pick(&[0usize, 2, 3, 4, 5, 6, 7]));
    let us = users(&mut c.rng);
    let n = c.rng.range(3, 12);
    let specs = plan(&mut c.rng, &us, n);
    let hostseed = c.rng.u64();
    let host = mk_host(combo, LogRng::new(hostseed));
    let dev = mk_device(combo, LogRng::new(c.rng.u64()));
    let w = world(&us);
    let clock = AtomicU64::new(0);
    let mut log = Vec::new();
    let mut sched: Vec<u8> = Vec::new();
    for i in 0..us.len() {
        for strong in [false, true] {
            if !c.rng.chance(5) {
                apply(&Op::Set(i, 0, strong), &us, &w, &*dev, &*host, &clock, &mut log)?;
            }
        }
    }
    let mut live: Vec<Sess<'_>> = Vec::new();
    let mut next = 0;
    let mut finished = Vec::new();
    while next < specs.len() || !live.is_empty() {
        let k = c.rng.below(10);
        if next < specs.len() && (live.is_empty() || k < 2) {
            live.push(Sess::new(next, &specs[next], combo, &*dev, &*host));
            sched.push(0xf0);
            next += 1;
        } else if k == 2 {
            let op = random_op(&mut c.rng, us.len());
            apply(&op, &us, &w, &*dev, &*host, &clock, &mut log)?;
            sched.push(0xf1);
        } else {
            let i = c.rng.below(live.len());
            for _ in 0..c.rng.range(1, 3) {
                if live[i].done {
                    break;
                }
                live[i].advance(&w, &clock);
                sched.push(live[i].id as u8);
            }
            if live[i].done {
                finished.push(live.swap_remove(i));
            }
        }
    }
    for s in &finished {
        if let Some(e) = login_event(s, &us)? {
            log.push(e);
        }
        alone(s, combo, hostseed, c.obs)?;
    }
    let total = log.len();
    judge(log, &us, c.obs)?;
    c.obs.add("events decided", total as u64);
    c.obs.add("steps interleaved", sched.len() as u64);
    c.obs.seen(&sched);
    c.obs.sample(|| format!("{n} sessions of {} users, {} steps in the order {}", us.len(), sched.len(), sh(&sched)));
    Ok(())
}
fn threads(c: &mut Case<'_>) -> R {
    let combo = Combo(*c.rng.pick(&[0usize, 4, 6]));
    let us = users(&mut c.rng);
    let n = c.rng.range(12, 32);
    let specs = plan(&mut c.rng, &us, n);
    let hostseed = c.rng.u64();
    let host = mk_host(combo, LogRng::new(hostseed));
    let dev = mk_device(combo, LogRng::new(c.rng.u64()));
    let w = world(&us);
    let clock = AtomicU64::new(0);
    let mut log = Vec::new();
    for i in 0..us.len() {
        for strong in [false, true] {
            apply(&Op::Set(i, 0, strong), &us, &w, &*dev, &*host, &clock, &mut log)?;
        }
    }
    let pool: Mutex<Vec<(usize, Sess<'_>)>> = Mutex::new(specs.iter().enumerate().map(|(i, s)| (99, Sess::new(i, s, combo, &*dev, &*host))).collect());
    let finished: Mutex<Vec<Sess<'_>>> = Mutex::new(Vec::new());
    let stop = AtomicBool::new(false);
    let order: Mutex<Vec<u8>> = Mutex::new(Vec::new());
    let moved = AtomicU64::new(0);
    let seed = c.rng.u64();
    let admin: Result<Vec<Event>, String> = std::thread::scope(|t| {
        let workers: Vec<_> = (0..6)
            .map(|me| {
                let (pool, finished, w, clock, order, moved) = (&pool, &finished, &w, &clock, &order, &moved);
                t.spawn(move || {
                    let mut r = Prng::new(seed ^ me as u64);
                    let mut idle = 0;
                    loop {
                        let got = {
                            let mut p = pool.lock().unwrap();
                            if p.is_empty() {
                                None
                            } else {
                                let i = r.below(p.len());
                                Some(p.swap_remove(i))
                            }
                        };
                        let Some((last, mut s)) = got else {
                            idle += 1;
                            if idle > 200 || finished.lock().unwrap().len() == n {
                                return;
                            }
                            std::thread::yield_now();
                            continue;
                        };
                        idle = 0;
                        if last != me && last != 99 {
                            moved.fetch_add(1, Ordering::Relaxed);
                        }
                        for _ in 0..r.range(1, 4) {
                            if s.done {
                                break;
                            }
                            s.advance(w, clock);
                            order.lock().unwrap().push(s.id as u8);
                            match r.below(6) {
                                0 => std::thread::yield_now(),
                                1 => {
                                    for _ in 0..r.below(2000) {
                                        std::hint::spin_loop()
                                    }
                                }
                                _ => {}
                            }
                        }
                        if s.done {
                            finished.lock().unwrap().push(s)
                        } else {
                            pool.lock().unwrap().push((me, s))
                        }
                    }
                })
            })
            .collect();
        let a = {
            let (us, w, dev, host, clock, stop) = (&us, &w, &dev, &host, &clock, &stop);
            t.spawn(move || -> Result<Vec<Event>, String> {
                let mut r = Prng::new(seed ^ 0xad);
                let mut log = Vec::new();
                while !stop.load(Ordering::Relaxed) && log.len() < 400 {
                    let op = random_op(&mut r, us.len());
                    apply(&op, us, w, &**dev, &**host, clock, &mut log)?;
                    std::thread::yield_now();
                }
                Ok(log)
            })
        };
        let mut panicked = None;
        for h in workers {
            if let Err(e) = h.join() {
                panicked = Some(e);
            }
        }
        stop.store(true, Ordering::Relaxed);
        let r = a.join();
        if let Some(e) = panicked {
            std::panic::resume_unwind(e);
        }
        match r {
            Ok(v) => v,
            Err(e) => std::panic::resume_unwind(e),
        }
    });
    log.extend(admin?);
    let mut finished = finished.into_inner().unwrap();
    // whatever was left when a worker found the pool momentarily empty
    for (_, mut s) in pool.into_inner().unwrap() {
        while !s.done {
            s.advance(&w, &clock);
        }
        finished.push(s);
    }
    ensure!(finished.len() == n, "harness: lost a session");
    for s in &finished {
        if let Some(e) = login_event(s, &us)? {
            log.push(e);
        }
        alone(s, combo, hostseed, c.obs)?;
    }
    c.obs.add("steps taken on another thread than the one before", moved.load(Ordering::Relaxed));
    c.obs.add("events decided", log.len() as u64);
    judge(log, &us, c.obs)?;
    let o = order.into_inner().unwrap();
    c.obs.add("steps interleaved", o.len() as u64);
    c.obs.seen(&o);
    Ok(())
}

// ------------------------------------------------------------------ SRP and SPAKE2 sessions among others
/// one SRP session, advanced step by step; sessions of different groups and hashes share a schedule
trait SrpRun: Send {
    fn left(&self) -> usize;
    fn step(&mut self) -> R;
    /// compares with the independent reference and with the same session run alone
    fn check(&self) -> R;
}
#[derive(Clone)]
struct SrpPlan {
    cr: sr::Creds,
    login: sr::Creds,
    a: Vec<u8>,
    b: Vec<u8>,
}
type Kit<D> = Arc<(SrpClient<'static, D>, SrpServer<'static, D>)>;
struct SrpSess<D: Digest> {
    gr: &'static sr::Gr,
    dn: &'static str,
    kit: Kit<D>,
    p: SrpPlan,
    at: usize,
    v: Vec<u8>,
    a_pub: Vec<u8>,
    b_pub: Vec<u8>,
    cl: Option<srp::client::SrpClientVerifier<D>>,
    sv: Option<srp::server::SrpServerVerifier<D>>,
    server_ok: bool,
    client_ok: bool,
}
const SRP_STEPS: usize = 7;
fn kit<D: Digest>(gr: &'static sr::Gr) -> Kit<D> {
    Arc::new((SrpClient::new(&gr.sut), SrpServer::new(&gr.sut)))
}
impl<D: Digest + Send + Sync + 'static> SrpSess<D> {
    fn new(gr: &'static sr::Gr, dn: &'static str, kit: Kit<D>, p: SrpPlan) -> Self {
        SrpSess { gr, dn, kit, p, at: 0, v: vec![], a_pub: vec![], b_pub: vec![], cl: None, sv: None, server_ok: false, client_ok: false }
    }
    fn what(&self) -> String {
        format!("srp session in {} with {} user {} pass {} login pass {} salt {} a {} b {}", self.gr.name, self.dn, sh(&self.p.cr.user), sh(&self.p.cr.pass), sh(&self.p.login.pass), sh(&self.p.cr.salt), hex(&self.p.a), hex(&self.p.b))
    }
    fn out(&self) -> (Vec<Vec<u8>>, bool, bool) {
        let (c, s) = (self.cl.as_ref().unwrap(), self.sv.as_ref().unwrap());
        (vec![self.v.clone(), self.a_pub.clone(), self.b_pub.clone(), c.proof().to_vec(), s.proof().to_vec(), c.key().to_vec(), s.key().to_vec()], self.client_ok, self.server_ok)
    }
}
impl<D: Digest + Send + Sync + 'static> SrpRun for SrpSess<D> {
    fn left(&self) -> usize {
        SRP_STEPS - self.at
    }
    fn step(&mut self) -> R {
        let (cl, sv) = (&self.kit.0, &self.kit.1);
        let p = &self.p;
        match self.at {
            0 => self.v = sut(|| cl.compute_verifier(&p.cr.user, &p.cr.pass, &p.cr.salt)),
            1 => self.a_pub = sut(|| cl.compute_public_ephemeral(&p.a)),
            2 => self.b_pub = sut(|| sv.compute_public_ephemeral(&p.b, &self.v)),
            3 => self.cl = Some(sut(|| cl.process_reply(&p.a, &p.login.user, &p.login.pass, &p.cr.salt, &self.b_pub)).map_err(|e| format!("{e:?}: {}", self.what()))?),
            4 => self.sv = Some(sut(|| sv.process_reply(&p.b, &self.v, &self.a_pub)).map_err(|e| format!("{e:?}: {}", self.what()))?),
            5 => self.server_ok = sut(|| self.sv.as_ref().unwrap().verify_client(self.cl.as_ref().unwrap().proof())).is_ok(),
            _ => self.client_ok = sut(|| self.cl.as_ref().unwrap().verify_server(self.sv.as_ref().unwrap().proof())).is_ok(),
        }
        self.at += 1;
        Ok(())
    }
    fn check(&self) -> R {
        let p = &self.p;
        let (o, client_ok, server_ok) = self.out();
        let same = p.cr.pass == p.login.pass;
        ensure!(server_ok == same && client_ok == same && (o[5] == o[6]) == same, "with {} password server {server_ok} client {client_ok} keys equal {}: {}", if same { "the right" } else { "a wrong" }, o[5] == o[6], self.what());
        // values an independent implementation computes for this session
        let g = &self.gr.rf;
        let (a, b) = (rf::int(&p.a), rf::int(&p.b));
        let v = rf::ref_v::<D>(g, &p.cr.user, &p.cr.pass, &p.cr.salt);
        let a_pub = rf::pw(&g.g, &a, &g.n);
        let b_pub = rf::ref_b_pub::<D>(g, &v, &b);
        ensure!(rf::int(&o[0]) == v, "verifier {} is that of another computation: {}", hex(&o[0]), self.what());
        ensure!(rf::int(&o[1]) == a_pub, "A {} is that of another computation: {}", hex(&o[1]), self.what());
        ensure!(rf::int(&o[2]) == b_pub, "B {} is that of another computation: {}", hex(&o[2]), self.what());
        let x = rf::ref_x::<D>(&p.login.user, &p.login.pass, &p.cr.salt);
        let k = rf::ref_k::<D>(g);
        let fits = [rf::u_min::<D>(&a_pub, &b_pub), rf::u_padded::<D>(g, &a_pub, &b_pub)].iter().any(|u| rf::int(&o[5]) == rf::s_client(g, &k, &x, u, &a, &b_pub) && rf::int(&o[6]) == rf::s_server(g, &v, u, &b, &a_pub));
        ensure!(fits, "session keys {} {} are those of another computation: {}", hex(&o[5]), hex(&o[6]), self.what());
        let mut again = SrpSess::<D>::new(self.gr, self.dn, kit(self.gr), p.clone());
        while again.left() > 0 {
            again.step()?;
        }
        ensure!(again.out() == (o, client_ok, server_ok), "ran differently among others than alone: {}", self.what());
        Ok(())
    }
}
/// credentials, many of which share inputs with earlier ones
fn related(r: &mut Prng, pool: &mut Vec<sr::Creds>) -> sr::Creds {
    let mut cr = sr::creds(r);
    if !pool.is_empty() {
        let o = r.pick(pool).clone();
        match r.below(10) {
            0 => cr = o,
            1 => cr.user = o.user,
            2 => (cr.user, cr.pass) = (o.user, o.pass),
            3 => (cr.user, cr.salt) = (o.user, o.salt),
            4 | 5 => {
                let mut v = r.resplit(&[&o.user, &o.pass]);
                (cr.pass, cr.user, cr.salt) = (v.pop().unwrap(), v.pop().unwrap(), o.salt);
            }
            6 => {
                let mut v = r.resplit(&[&o.user, &o.pass, &o.salt]);
                (cr.salt, cr.pass, cr.user) = (v.pop().unwrap(), v.pop().unwrap(), v.pop().unwrap());
            }
            7 => (cr.user, cr.pass, cr.salt) = (o.pass, o.user, o.salt),
            _ => {}
        }
    }
    pool.push(cr.clone());
    cr
}
fn srp_family(r: &mut Prng, pool: &mut Vec<sr::Creds>, gr: &'static sr::Gr, digest: usize, n: usize) -> Vec<Box<dyn SrpRun>> {
    with_digest!(digest, D => {
        let k: Kit<D> = kit(gr);
        let mut v: Vec<Box<dyn SrpRun>> = Vec::new();
        for _ in 0..n {
            let cr = related(r, pool);
            let mut login = cr.clone();
            if r.chance(3) {
                login.pass = r.mutate(&cr.pass);
            }
            let p = SrpPlan { cr, login, a: r.bytes(32), b: r.bytes(32) };
            let own = r.chance(3);
            v.push(Box::new(SrpSess::<D>::new(gr, DIGEST_NAMES[digest], if own { kit(gr) } else { k.clone() }, p)));
        }
        v
    })
}
/// sessions of several groups (mostly of one size) and several hashes (mostly of one output size)
fn srp_crowd(r: &mut Prng, families: usize, each: usize) -> Vec<Box<dyn SrpRun>> {
    let all = sr::custom_big();
    let first = all[r.below(all.len())];
    let alike: Vec<&'static sr::Gr> = all.iter().copied().filter(|g| g.bits.div_ceil(8) == first.bits.div_ceil(8)).collect();
    let digests = *r.pick(&[[0usize, 7, 0], [1, 6, 1], [0, 1, 2], [0, 0, 0], [3, 4, 5]]);
    let mut v = Vec::new();
    let mut pool = Vec::new();
    for i in 0..families {
        let gr = if i == 0 {
            first
        } else if r.chance(4) {
            all[r.below(all.len())]
        } else {
            alike[r.below(alike.len())]
        };
        let d = digests[i % 3];
        v.extend(srp_family(r, &mut pool, gr, d, each));
    }
    v
}
/// a SPAKE2 pair; the second party may be the independent one
struct Pair {
    i: sp::Ids,
    role: sp::Role,
    seeds: (u64, u64),
    reference: Option<Scalar>,
    at: usize,
    left: Option<sp::S2>,
    right: Option<sp::S2>,
    m: (Vec<u8>, Vec<u8>),
    k: (Vec<u8>, Vec<u8>),
}
impl Pair {
    fn new(r: &mut Prng, i: sp::Ids) -> Self {
        let reference = r.chance(2).then(|| Scalar::from_bytes_mod_order(r.arr()));
        Pair { i, role: *r.pick(&sp::ROLES), seeds: (r.u64(), r.u64()), reference, at: 0, left: None, right: None, m: Default::default(), k: Default::default() }
    }
    fn left(&self) -> usize {
        4 - self.at
    }
    fn step(&mut self) -> R {
        match self.at {
            0 => {
                let (s, m) = sp::start(self.role, &self.i, LogRng::new(self.seeds.0));
                self.left = Some(s);
                self.m.0 = m;
            }
            1 => match &self.reference {
                Some(y) => self.m.1 = sp::ref_msg(self.role.peer(), &self.i.pw, y),
                None => {
                    let (s, m) = sp::start(self.role.peer(), &self.i, LogRng::new(self.seeds.1));
                    self.right = Some(s);
                    self.m.1 = m;
                }
            },
            2 => self.k.0 = sut(|| self.left.take().unwrap().finish(&self.m.1)).map_err(|e| format!("{e:?}: {}", self.what()))?,
            _ => {
                self.k.1 = match &self.reference {
                    Some(y) => sp::ref_key(self.role.peer(), &self.i.pw, &self.i.a, &self.i.b, y, &self.m.1, &self.m.0),
                    None => sut(|| self.right.take().unwrap().finish(&self.m.0)).map_err(|e| format!("{e:?}: {}", self.what()))?,
                }
            }
        }
        self.at += 1;
        Ok(())
    }
    fn what(&self) -> String {
        format!("spake2 pair {:?} reference peer {} {}", self.role, self.reference.is_some(), self.i.show())
    }
    fn check(&self) -> R {
        ensure!(self.k.0 == self.k.1 && !self.k.0.is_empty(), "keys {} {} differ: {}", hex(&self.k.0), hex(&self.k.1), self.what());
        let (p, m) = sp::start(self.role, &self.i, LogRng::new(self.seeds.0));
        let key = sut(|| p.finish(&self.m.1)).map_err(|e| format!("{e:?}"))?;
        ensure!(m == self.m.0 && key == self.k.0, "ran differently among others than alone: {}", self.what());
        Ok(())
    }
}
fn pairs(r: &mut Prng, n: usize) -> Vec<Pair> {
    let mut v: Vec<Pair> = Vec::new();
    for k in 0..n {
        let mut i = sp::ids(r);
        if k > 0 {
            // parties that share some of their inputs with an earlier pair
            let other = &v[r.below(k)].i;
            match r.below(7) {
                0 => i = other.clone(),
                1 => i.pw = other.pw.clone(),
                2 => (i.a, i.b) = (other.a.clone(), other.b.clone()),
                3 => (i.a, i.b) = (other.b.clone(), other.a.clone()),
                5 => {
                    let mut w = r.resplit(&[&other.pw, &other.a, &other.b]);
                    (i.b, i.a, i.pw) = (w.pop().unwrap(), w.pop().unwrap(), w.pop().unwrap());
                }
                4 => {
                    i.pw = r.mutate(&other.pw);
                    (i.a, i.b) = (other.a.clone(), other.b.clone());
                }
                _ => {}
            }
        }
        v.push(Pair::new(r, i));
    }
    v
}
/// SPAKE2 and SRP sessions of many parties, steps in random order over shared values
fn mixed(c: &mut Case<'_>) -> R {
    let mut srps = srp_crowd(&mut c.rng, 3, 2);
    let n = srps.len();
    let mut prs = pairs(&mut c.rng, 4);
    let mut sched: Vec<u8> = vec![];
    loop {
        let todo: Vec<usize> = (0..n).filter(|i| srps[*i].left() > 0).chain((0..prs.len()).filter(|i| prs[*i].left() > 0).map(|i| i + n)).collect();
        if todo.is_empty() {
            break;
        }
        let i = *c.rng.pick(&todo);
        sched.push(i as u8);
        if i < n {
            srps[i].step()?;
        } else {
            prs[i - n].step()?;
        }
    }
    for s in &srps {
        s.check()?;
        c.obs.count("srp sessions among others");
    }
    for (k, p) in prs.iter().enumerate() {
        p.check()?;
        for q in &prs[..k] {
            ensure!(p.k.0 != q.k.0, "two spake2 sessions share a key: {} and {}", p.what(), q.what());
        }
        c.obs.count(if p.reference.is_some() { "spake2 sessions with the reference among others" } else { "spake2 sessions among others" });
    }
    c.obs.seen(&sched);
    Ok(())
}
fn mixed_threads(c: &mut Case<'_>) -> R {
    let mut work: Vec<Vec<Box<dyn SrpRun>>> = (0..8).map(|_| Vec::new()).collect();
    for _ in 0..3 {
        for (i, s) in srp_crowd(&mut c.rng, 4, 2).into_iter().enumerate() {
            work[i].push(s);
        }
    }
    let seed = c.rng.u64();
    let bar = Barrier::new(8);
    let outs: Vec<R> = std::thread::scope(|t| {
        let hs: Vec<_> = work
            .into_iter()
            .enumerate()
            .map(|(i, mine)| {
                let bar = &bar;
                t.spawn(move || {
                    bar.wait();
                    let mut r = Prng::new(seed ^ i as u64);
                    for mut s in mine {
                        let mut p = pairs(&mut r, 1).remove(0);
                        while s.left() > 0 || p.left() > 0 {
                            if p.left() > 0 && r.chance(2) {
                                p.step()?;
                            }
                            if s.left() > 0 {
                                s.step()?;
                            }
                        }
                        s.check()?;
                        p.check()?;
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| match h.join() {
                Ok(r) => r,
                Err(e) => std::panic::resume_unwind(e),
            })
            .collect()
    });
    for o in outs {
        o?;
        c.obs.add("srp sessions among others", 3);
        c.obs.add("spake2 sessions among others", 3);
    }
    c.obs.seen(&seed.to_le_bytes());
    Ok(())
}
