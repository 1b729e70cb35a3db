//! C24: nothing a peer sends crashes, hangs or corrupts a party. Every call is
//! made on the real crates with the most unpleasant values the wire can carry;
//! panics, arithmetic overflow, aborts, calls that do not return and (in the
//! sanitizer builds) memory errors are the events looked for, and afterwards
//! the same long-lived objects must still serve an honest peer.
use crate::auc::*;
use crate::auc_mon::{bad_point, creds as auc_creds, crowd, gen_client, gen_server, rand_params, rand_salt, rand_wire_point, Scene};
use crate::core::*;
use crate::spake_mon as sp;
use crate::srp_mon as sm;
use crate::toys::*;
use crate::{ensure, with_digest};
use curve25519_dalek::ristretto::RistrettoPoint as Pt;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use num_bigint::BigUint;
use num_traits::Zero;
use srp::client::SrpClient;
use srp::server::SrpServer;
use std::sync::OnceLock;

/// an integer from the wire: any length, near multiples of N, powers of two, zero
fn wire_int(r: &mut Prng, n: &BigUint, max: usize) -> Vec<u8> {
    let near = |r: &mut Prng, v: BigUint| {
        let d = r.below(4) as u32;
        if r.chance(2) || v < BigUint::from(d) { v + d } else { v - d }
    };
    let mut v = match r.below(11) {
        0 => vec![],
        1 => vec![0; r.below(max)],
        2 => near(r, n.clone()).to_bytes_be(),
        3 => {
            let k = r.u64();
            near(r, n * k).to_bytes_be()
        }
        4 => {
            let k = r.below(max * 8);
            near(r, BigUint::from(1u32) << k).to_bytes_be()
        }
        5 => vec![0xff; r.below(max)],
        6 => near(r, BigUint::zero()).to_bytes_be(),
        7 => near(r, n * n).to_bytes_be(),
        8 => n.to_bytes_le(),
        _ => {
            let k = r.below(max + 1);
            r.bytes(k)
        }
    };
    if r.chance(3) {
        let z = r.below(40);
        v.splice(0..0, std::iter::repeat(0).take(z));
    }
    v
}
fn proof(r: &mut Prng, right: &[u8]) -> Vec<u8> {
    match r.below(6) {
        0 => vec![],
        1 => right[..r.below(right.len() + 1)].to_vec(),
        2 => {
            let n = r.below(100);
            let mut v = right.to_vec();
            v.extend(r.bytes(n));
            v
        }
        3 => r.bytes(right.len()),
        4 => r.hostile(3000),
        _ => {
            let mut v = right.to_vec();
            if !v.is_empty() {
                let i = r.below(v.len());
                v[i] ^= 1 << r.below(8);
            }
            v
        }
    }
}
fn srp_hostile<D: digest::Digest>(c: &mut Case<'_>, gr: &sm::Gr, max: usize, strings: usize) -> R {
    let r = &mut c.rng;
    let g = &gr.sut;
    let cr = sm::Creds { user: r.hostile(strings), pass: r.hostile(strings), salt: r.hostile(strings) };
    let (a, b) = (sm::secret(r, gr.bits), sm::secret(r, gr.bits));
    let v = wire_int(r, &gr.rf.n, max);
    let peer = wire_int(r, &gr.rf.n, max);
    let what = || format!("{} peer value {} verifier {} a {} b {} salt {} user {}", gr.name, sh(&peer), sh(&v), sh(&a), sh(&b), sh(&cr.salt), sh(&cr.user));
    let cl = SrpClient::<D>::new(g);
    let se = SrpServer::<D>::new(g);
    // server facing a client: verifier from registration, A, proof
    let res = try_sut(|| {
        let b_pub = se.compute_public_ephemeral(&b, &v);
        se.process_reply(&b, &v, &peer).map(|x| (b_pub, x)).map_err(|e| format!("{e} {e:?}"))
    })
    .map_err(|p| format!("the server panics on A or the verifier: {p}: {}", what()))?;
    match res {
        Ok((_, ver)) => {
            c.obs.count("server sessions that go on");
            let p = proof(r, ver.proof());
            let e = try_sut(|| ver.verify_client(&p).map_err(|e| format!("{e} {e:?}"))).map_err(|m| format!("the server panics on the proof {}: {m}: {}", sh(&p), what()))?;
            c.obs.count(if e.is_ok() { "proofs accepted" } else { "proofs refused" });
        }
        Err(_) => c.obs.count("values of A refused"),
    }
    // client facing a server: salt, B, proof
    let res = try_sut(|| {
        let a_pub = cl.compute_public_ephemeral(&a);
        let _ = cl.compute_verifier(&cr.user, &cr.pass, &cr.salt);
        cl.process_reply(&a, &cr.user, &cr.pass, &cr.salt, &peer).map(|x| (a_pub, x)).map_err(|e| format!("{e} {e:?}"))
    })
    .map_err(|p| format!("the client panics on B or the salt: {p}: {}", what()))?;
    match res {
        Ok((_, ver)) => {
            c.obs.count("client sessions that go on");
            let p = proof(r, ver.proof());
            let e = try_sut(|| ver.verify_server(&p).map_err(|e| format!("{e} {e:?}"))).map_err(|m| format!("the client panics on the proof {}: {m}: {}", sh(&p), what()))?;
            c.obs.count(if e.is_ok() { "proofs accepted" } else { "proofs refused" });
        }
        Err(_) => c.obs.count("values of B refused"),
    }
    // and the group is unharmed
    if gr.bits >= 128 && c.idx % 8 == 0 {
        let s = sm::session::<D>(g, &cr, &[3; 32], &[5; 32]);
        if let (Ok(x), Ok(y)) = (&s.client, &s.server) {
            ensure!(x.key() == y.key(), "an honest session after a hostile one has different keys: {}", what());
            c.obs.count("honest sessions afterwards");
        }
    }
    c.obs.seen(&[&peer[..], &v, &a, &b].concat());
    c.obs.sample(what);
    Ok(())
}

/// one hostile client against a long-lived server
fn hostile_client(c: &mut Case<'_>) -> R {
    let s = Scene::any(&mut c.rng, 8);
    let mut db = MonDb::default();
    let host = s.host();
    s.enroll(&*host, &mut db)?;
    crowd(&mut c.rng, &mut db, &s.user, 2);
    let before = format!("{:?}", pics(&db));
    for _ in 0..3 {
        let r = &mut c.rng;
        // records made from hostile registrations of the attacker's own name
        let own = r.mutate(&s.user);
        let reg = if s.variant.strong {
            Reg::Strong { username: own.clone(), q: *r.pick(&[Scalar::ZERO, Scalar::ONE, -Scalar::ONE, rand_scalar(&mut Prng::new(7))]), params: rand_params(r), verifier: rand_wire_point(r) }
        } else {
            Reg::Plain { username: own.clone(), salt: rand_salt(r), params: rand_params(r), verifier: rand_wire_point(r) }
        };
        let (had_p, had_s) = (db.plain.get(&own).cloned(), db.strong.get(&own).cloned());
        reg.store(&mut db);
        let had_k = db.keys.get(&own).copied();
        if s.variant.partial && r.chance(2) {
            db.keys.insert(own.clone(), host.keypair());
        }
        let user = match r.below(6) {
            0 => s.user.clone(),
            1 | 2 => own.clone(),
            3 => {
                let n = r.below(70_000);
                r.bytes(n)
            }
            _ => r.hostile(2000),
        };
        let blinded = s.variant.strong.then(|| rand_wire_point(r));
        let ssid = if r.chance(2) { Some(r.hostile(300)) } else { None };
        let nonce = match r.below(3) {
            0 => vec![0; s.combo.k1()],
            1 => vec![0xff; s.combo.k1()],
            _ => r.bytes(s.combo.k1()),
        };
        let ci = r.hostile(400);
        let key = rand_wire_point(r);
        let mode = r.below(3);
        let auth: [u8; 64] = if r.chance(3) { [0; 64] } else { r.arr() };
        let what = || format!("user {} blinded {:?} ssid {:?} nonce {} key {} auth {}: {}", sh(&user), blinded.map(|p| hex(&pt_bytes(&p))), ssid.as_ref().map(|s| sh(s)), hex(&nonce), hex(&pt_bytes(&key)), hex(&auth), s.desc());
        let seed = r.u64();
        let out = try_sut(|| {
            let mut p = host.session(s.variant, s.swire, LogRng::new(seed));
            match &ssid {
                Some(x) => {
                    if p.preset(x).is_err() {
                        return "session id refused";
                    }
                }
                None => {
                    p.nonce();
                    p.agree(&nonce);
                }
            }
            if p.info(&user, blinded, &db).is_err() {
                return "blinded point refused";
            }
            p.public_key(&ci);
            match mode {
                0 => return if p.implicit(key).is_ok() { "implicit keys for hostile points" } else { "points refused by the server" },
                _ => {
                    if p.recv_key(key).is_err() {
                        return "points refused by the server";
                    }
                }
            }
            if p.recv_auth(auth).is_ok() {
                return "AUTHENTICATED";
            }
            "authenticators refused by the server"
        })
        .map_err(|m| format!("the server panics: {m}: {}", what()))?;
        ensure!(out != "AUTHENTICATED", "the server accepted a random authenticator: {}", what());
        c.obs.count(out);
        c.obs.seen(&[&user[..], &ci, &pt_bytes(&key), &nonce].concat());
        c.obs.sample(what);
        put(&mut db.plain, &own, had_p);
        put(&mut db.strong, &own, had_s);
        put(&mut db.keys, &own, had_k);
    }
    ensure!(format!("{:?}", pics(&db)) == before, "hostile sessions changed the records: {}", s.desc());
    // the same server object still serves its user
    honest_after(c, &s, &*host, &db)
}
fn put<V>(m: &mut std::collections::HashMap<Vec<u8>, V>, k: &[u8], v: Option<V>) {
    match v {
        Some(v) => {
            m.insert(k.to_vec(), v);
        }
        None => {
            m.remove(k);
        }
    }
}
fn pics(db: &MonDb) -> Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> {
    let mut v: Vec<_> = db.plain.iter().map(|(k, r)| (k.clone(), pt_bytes(&r.verifier).to_vec(), r.salt.as_str().as_bytes().to_vec())).collect();
    v.extend(db.strong.iter().map(|(k, r)| (k.clone(), pt_bytes(&r.verifier).to_vec(), r.q.to_bytes().to_vec())));
    v.extend(db.keys.iter().map(|(k, r)| (k.clone(), r.0.to_bytes().to_vec(), pt_bytes(&r.1).to_vec())));
    v.sort();
    v
}
fn honest_after(c: &mut Case<'_>, s: &Scene, host: &dyn Host, db: &MonDb) -> R {
    let cfg = crate::auc_mon::gen_cfg(&mut c.rng);
    let slot = OnceLock::new();
    let mut cl = s.client(c.rng.u64(), &slot);
    let mut se = host.session(s.variant, s.swire, LogRng::new(c.rng.u64()));
    let o = run(&cfg, &mut *cl, &mut *se, db, &mut Honest);
    ensure!(o.ck().is_some() && o.ck() == o.sk(), "an honest session after hostile ones fails: {:?} {:?}: {}", o.client, o.server, s.desc());
    c.obs.count("honest sessions afterwards");
    Ok(())
}

/// a hostile server against a client, and hasher faults provoked by its parameters
fn hostile_server(c: &mut Case<'_>) -> R {
    let scr = c.rng.chance(8);
    let combo = Combo(if scr { N_MON + c.rng.below(2) } else { c.rng.below(N_MON) });
    let variant = *c.rng.pick(&VARIANTS);
    let (user, pass) = if c.rng.chance(8) {
        let n = c.rng.below(5000);
        (c.rng.bytes(n), c.rng.hostile(2000))
    } else {
        auc_creds(&mut c.rng)
    };
    let device = mk_device(combo, LogRng::new(c.rng.u64()));
    for _ in 0..3 {
        let r = &mut c.rng;
        let buf = if r.chance(3) { None } else { Some(r.below(BUFS.len())) };
        let wire = *r.pick(&[Wire::Direct, Wire::Bincode, Wire::Postcard]);
        // output sizes from 10 to 64 bytes are possible, 32 and 64 usable
        let out = if scr { *r.pick(&[32, 64]) } else { *r.pick(&[10, 16, 31, 32, 33, 48, 63, 64]) };
        let fault = if scr { Fault::None } else { r.pick(&[Fault::None, Fault::None, Fault::None, Fault::Absent, Fault::Err(0), Fault::Err(3), Fault::Err(7)]).clone() };
        let p = MonParams { cost: r.below(6) as u32 + 1, tag: r.below(9) as u32, out, fault };
        let aug = Aug {
            group: r.pick(&["ristretto255", "", "p256", "\u{0}", "группа"]).to_string(),
            x_pub: rand_wire_point(r),
            salt: if variant.strong { SaltMsg::Blinded(rand_wire_point(r)) } else { SaltMsg::Plain(rand_salt(r)) },
            params: rand_params(r),
        };
        let ssid = if r.chance(2) { Some(r.hostile(300)) } else { None };
        let nonce = match r.below(3) {
            0 => vec![0; combo.k1()],
            _ => r.bytes(combo.k1()),
        };
        let ci = r.hostile(400);
        let key = rand_wire_point(r);
        let auth: [u8; 64] = if r.chance(3) { [0; 64] } else { r.arr() };
        let mode = r.below(3);
        let seed = r.u64();
        let o = ClientOpts { buf, wire, out, rec: None, force: Some(p.clone()) };
        let what = || format!("{variant:?} combo {} aug {aug:?} hash {p:?} buffer {:?} user {} pass {} nonce {} key {}", combo.0, buf.map(|i| BUFS[i]), sh(&user), sh(&pass), hex(&nonce), hex(&pt_bytes(&key)));
        let slot = OnceLock::new();
        let res = try_sut(|| {
            let mut k = device.session(LogRng::new(seed), &user, &pass, &slot, variant.strong, &o);
            match &ssid {
                Some(x) => {
                    if k.preset(x).is_err() {
                        return "session id refused";
                    }
                }
                None => {
                    k.nonce();
                    k.agree(&nonce);
                }
            }
            k.start();
            if let Err(e) = k.aug(&aug) {
                let _ = format!("{e:?} {e}");
                return match e {
                    AErr::IllegalPointError => "points refused by the client",
                    AErr::PasswordHashing(_) => "hasher errors reported",
                    AErr::HashEmpty => "missing hashes reported",
                    AErr::HashSizeInvalid => "hash sizes refused",
                    AErr::UsernameOrPasswordTooLong => "buffers too small reported",
                    _ => "other errors of the client",
                };
            }
            k.public_key(&ci);
            match mode {
                0 => return if k.implicit(key).is_ok() { "implicit keys of the client" } else { "points refused by the client" },
                _ => {
                    if k.recv_key(key).is_err() {
                        return "points refused by the client";
                    }
                }
            }
            if k.recv_auth(auth).is_ok() {
                return "AUTHENTICATED";
            }
            "authenticators refused by the client"
        })
        .map_err(|m| format!("the client panics: {m}: {}", what()))?;
        ensure!(res != "AUTHENTICATED", "the client accepted a random authenticator: {}", what());
        c.obs.count(res);
        c.obs.seen(&[&user[..], &pass, &pt_bytes(&aug.x_pub), &pt_bytes(&key), &nonce, &[out as u8]].concat());
        c.obs.sample(what);
    }
    // the same client object still logs in
    let out = *c.rng.pick(&[32, 64]);
    let p = MonParams { cost: 2, tag: 1, out, fault: Fault::None };
    let o = ClientOpts { buf: None, wire: Wire::Direct, out, rec: None, force: None };
    let mut db = MonDb::default();
    let host = mk_host(combo, LogRng::new(c.rng.u64()));
    device.register(&user, &pass, &p, variant.strong, &o).map_err(|e| format!("registration after hostile sessions: {e:?}"))?.store(&mut db);
    if variant.partial {
        db.keys.insert(user.clone(), host.keypair());
    }
    let cfg = crate::auc_mon::gen_cfg(&mut c.rng);
    let slot = OnceLock::new();
    let mut k = device.session(LogRng::new(c.rng.u64()), &user, &pass, &slot, variant.strong, &o);
    let mut s = host.session(variant, Wire::Direct, LogRng::new(c.rng.u64()));
    let oc = run(&cfg, &mut *k, &mut *s, &db, &mut Honest);
    ensure!(oc.ck().is_some() && oc.ck() == oc.sk(), "an honest session after hostile ones fails: {:?} {:?}", oc.client, oc.server);
    c.obs.count("honest sessions afterwards");
    Ok(())
}

/// raw bytes for a party: parsed, and when they are a message, acted upon
fn raw_bytes(c: &mut Case<'_>) -> R {
    const K: usize = 16;
    let r = &mut c.rng;
    let w = *r.pick(&[Wire::Bincode, Wire::Postcard]);
    let name = r.hostile(300);
    let t = r.below(12);
    let mut b = match r.below(8) {
        0 => r.hostile(600),
        1 => {
            // a plausible tag, then anything
            let mut v = r.hostile(300);
            v.insert(0, r.below(8) as u8);
            v
        }
        _ if t < 7 => to_bin(w, &gen_client::<K>(r, t, &name)),
        _ => to_bin(w, &gen_server::<K>(r, t - 7)),
    };
    for _ in 0..r.below(5) {
        if b.is_empty() {
            break;
        }
        let i = r.below(b.len());
        match r.below(8) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff]),
            2 => {
                let n = (b.len() - i).min(1 + r.below(9));
                b[i..i + n].fill(0xff)
            }
            3 => b.truncate(i),
            4 => {
                let n = r.below(64);
                let x = r.bytes(n);
                b.splice(i..i, x);
            }
            5 => {
                b.remove(i);
            }
            6 if b.len() >= 32 => {
                let i = r.below(b.len() - 31);
                b[i..i + 32].copy_from_slice(&bad_point(r))
            }
            _ => b[r.below(8).min(i)] = r.below(8) as u8,
        }
    }
    let seed = r.u64();
    let what = || format!("{w:?} {}", hex(&b));
    let out = try_sut(|| {
        let mut n = 0;
        if let Ok(m) = client_from::<K>(w, &b) {
            n += 1;
            let m = cimg(&m);
            let _ = format!("{m:?}");
            for v in VARIANTS {
                let host = mk_host(Combo(0), LogRng::new(seed));
                let mut db = MonDb::default();
                let x = Scalar::from(77u64);
                db.keys.insert(name.clone(), (x, Pt::mul_base(&x)));
                let mut s = host.session(v, w, LogRng::new(seed ^ 1));
                s.nonce();
                if let CMsg::Nonce(x) = &m {
                    s.agree(x);
                    continue;
                }
                s.agree(&[7; K]);
                let mut who = b"someone".to_vec();
                let mut bl = v.strong.then(|| Pt::mul_base(&Scalar::from(5u64)));
                match &m {
                    CMsg::User(u) => who = u.clone(),
                    CMsg::StrongUser(u, p) => {
                        who = u.clone();
                        bl = v.strong.then_some(*p);
                    }
                    CMsg::Reg(g) => {
                        if let Reg::Plain { username, .. } | Reg::Strong { username, .. } = g {
                            who = username.clone();
                        }
                        g.clone().store(&mut db);
                    }
                    _ => {}
                }
                if s.info(&who, bl, &db).is_err() {
                    continue;
                }
                s.public_key(b"channel");
                let k = if let CMsg::Key(p) = &m { *p } else { Pt::mul_base(&Scalar::from(9u64)) };
                if s.recv_key(k).is_err() {
                    continue;
                }
                let a = if let CMsg::Auth(a) = &m { *a } else { [1; 64] };
                if s.recv_auth(a).is_ok() {
                    return Err(());
                }
            }
        }
        if let Ok(m) = server_from::<K>(w, &b) {
            n += 2;
            let m = simg(&m);
            let _ = format!("{m:?}");
            for strong in [false, true] {
                let slot = OnceLock::new();
                let o = ClientOpts { buf: None, wire: w, out: 32, rec: None, force: None };
                let mut k = mk_client(Combo(0), LogRng::new(seed), &name, b"password", &slot, strong, &o);
                k.nonce();
                if let SMsg::Nonce(x) = &m {
                    k.agree(x);
                    continue;
                }
                k.agree(&[9; K]);
                k.start();
                let aug = match &m {
                    SMsg::Aug(a) if matches!(a.salt, SaltMsg::Blinded(_)) == strong => a.clone(),
                    _ => Aug {
                        group: "g".into(),
                        x_pub: Pt::mul_base(&Scalar::from(3u64)),
                        salt: if strong { SaltMsg::Blinded(Pt::mul_base(&Scalar::from(4u64))) } else { SaltMsg::Plain(rand_salt(&mut Prng::new(seed))) },
                        params: Default::default(),
                    },
                };
                if k.aug(&aug).is_err() {
                    continue;
                }
                k.public_key(b"channel");
                let p = if let SMsg::Key(p) = &m { *p } else { Pt::identity() };
                if k.recv_key(p).is_err() {
                    continue;
                }
                let a = if let SMsg::Auth(a) = &m { *a } else { [1; 64] };
                if k.recv_auth(a).is_ok() {
                    return Err(());
                }
            }
        }
        Ok(n)
    })
    .map_err(|m| format!("panic on received bytes: {m}: {}", what()))?;
    match out {
        Err(()) => return Err(format!("received bytes were accepted as an authenticator: {}", what())),
        Ok(0) => c.obs.count("byte strings that are no message"),
        Ok(1) => c.obs.count("byte strings acted upon by the server"),
        Ok(2) => c.obs.count("byte strings acted upon by the client"),
        Ok(_) => c.obs.count("byte strings acted upon by both sides"),
    }
    c.obs.seen(&b);
    Ok(())
}

pub fn c24(x: &mut Ctx) {
    x.rule("an evaluation hands one party a sequence of hostile values (any length, zero, multiples of N and their neighbours, neutral and special points, invalid encodings, wrong proofs) and watches for panics, overflows, aborts, calls that do not return and sanitizer reports; distinct by the values sent");
    x.stage("srp-custom-groups", 3000, 120_000, |c| {
        let gs = sm::custom();
        let gr = &gs[c.rng.below(gs.len())];
        let d = c.rng.below(N_DIGESTS);
        with_digest!(d, D => srp_hostile::<D>(c, gr, 200, 300))
    });
    x.stage("srp-tiny-groups", 4000, 120_000, |c| {
        let gs = sm::tiny();
        let gr = &gs[c.rng.below(gs.len())];
        let d = c.rng.below(N_DIGESTS);
        with_digest!(d, D => srp_hostile::<D>(c, gr, 40, 80))
    });
    x.stage("srp-shipped-groups", 40, 1400, |c| {
        let gs = sm::rfc();
        let gr = &gs[[0, 1, 2, 0, 1, 2, 3, 0, 1, 4, 0, 5, 2, 6][c.idx as usize % 14]];
        let d = c.rng.below(N_DIGESTS);
        with_digest!(d, D => srp_hostile::<D>(c, gr, 2 * gr.bits / 8 + 40, 300))
    });
    x.stage("srp-long-values", 30, 700, |c| {
        let gr = &sm::rfc()[0];
        let d = c.rng.below(N_STRONG);
        let max = *c.rng.pick(&[2_000, 16_384, 65_536]);
        with_digest!(d, D => srp_hostile::<D>(c, gr, max, 70_000))
    });
    x.stage("spake2", 6000, 250_000, |c| {
        let r = sp::ROLES[(c.idx % 3) as usize];
        let mut i = sp::ids(&mut c.rng);
        if c.rng.chance(16) {
            let n = c.rng.below(70_000);
            i.pw = c.rng.bytes(n);
        }
        let seed = c.rng.u64();
        let m = match c.rng.below(7) {
            0 => c.rng.hostile(200),
            1 => {
                let n = c.rng.below(70_000);
                c.rng.bytes(n)
            }
            2 => {
                let (_, m) = sp::start(r.peer(), &i, LogRng::new(seed ^ 3));
                let k = c.rng.u64();
                sp::mutate_msg(&mut c.rng, &m, k).0
            }
            3 => {
                let t = c.rng.below(8);
                let mut m = curve25519_dalek::constants::EIGHT_TORSION[t].compress().to_bytes().to_vec();
                if c.rng.chance(2) {
                    m[31] ^= 0x80;
                }
                m.insert(0, r.peer().byte());
                m
            }
            4 => {
                // close to the field prime: not canonical
                let mut m = vec![0xff; 33];
                m[0] = r.peer().byte();
                m[1] = c.rng.u64() as u8;
                m[32] = *c.rng.pick(&[0x7f, 0xff]);
                m
            }
            _ => {
                let mut m = c.rng.bytes(33);
                m[0] = if c.rng.chance(8) { c.rng.u64() as u8 } else { r.peer().byte() };
                m
            }
        };
        let what = || format!("{r:?} receives {}", sh(&m));
        let (s, _) = sp::start(r, &i, LogRng::new(seed));
        let out = try_sut(|| {
            let d = format!("{s:?}");
            (d, s.finish(&m).map_err(|e| format!("{e:?} {e}")))
        })
        .map_err(|p| format!("panic: {p}: {}", what()))?;
        c.obs.count(if out.1.is_ok() { "spake2 keys" } else { "spake2 messages refused" });
        c.obs.seen(&m);
        c.obs.sample(what);
        Ok(())
    });
    x.stage("hostile-client", 1500, 60_000, hostile_client);
    x.stage("hostile-server", 1500, 60_000, hostile_server);
    x.stage("raw-bytes", 8000, 300_000, raw_bytes);
    if x.scale >= 0.2 {
        x.require(&[
            "values of A refused", "values of B refused", "proofs refused", "server sessions that go on", "client sessions that go on",
            "spake2 keys", "spake2 messages refused", "points refused by the server", "points refused by the client",
            "authenticators refused by the server", "authenticators refused by the client", "session id refused", "blinded point refused",
            "hash sizes refused", "missing hashes reported", "hasher errors reported", "buffers too small reported",
            "byte strings that are no message", "byte strings acted upon by the server", "byte strings acted upon by both sides",
            "honest sessions afterwards",
        ]);
    }
}
