//! C32: the bytes of every message in both formats, against encoders and
//! decoders written from the message definitions alone.
use crate::auc::*;
use crate::auc_mon::*;
use crate::core::*;
use crate::ensure;
use curve25519_dalek::ristretto::RistrettoPoint as Pt;
use curve25519_dalek::ristretto::CompressedRistretto;

struct Enc(Wire, Vec<u8>);
impl Enc {
    fn varint(&mut self, mut n: u64) {
        while n > 127 {
            self.1.push(n as u8 | 128);
            n >>= 7;
        }
        self.1.push(n as u8);
    }
    fn index(w: Wire, n: u32) -> Enc {
        let mut e = Enc(w, vec![]);
        match w {
            Wire::Bincode => e.1.extend(n.to_le_bytes()),
            _ => e.varint(n as u64),
        }
        e
    }
    fn var(mut self, b: &[u8]) -> Enc {
        match self.0 {
            Wire::Bincode => self.1.extend((b.len() as u64).to_le_bytes()),
            _ => self.varint(b.len() as u64),
        }
        self.raw(b)
    }
    fn raw(mut self, b: &[u8]) -> Enc {
        self.1.extend_from_slice(b);
        self
    }
    fn pt(self, p: &Pt) -> Enc {
        self.raw(&p.compress().to_bytes())
    }
}
/// variants in their order, those behind a feature last; fields in their order
fn enc_client(w: Wire, m: &CMsg) -> Vec<u8> {
    let i = |n| Enc::index(w, n);
    match m {
        CMsg::Nonce(n) => i(0).var(n),
        CMsg::User(u) => i(1).var(u),
        CMsg::Key(p) => i(2).pt(p),
        CMsg::Auth(a) => i(3).var(a),
        CMsg::Reg(Reg::Plain { username, salt, params, verifier }) => i(4).var(username).var(salt.as_str().as_bytes()).var(params.as_str().as_bytes()).pt(verifier),
        CMsg::StrongUser(u, p) => i(5).var(u).pt(p),
        CMsg::Reg(Reg::Strong { username, q, params, verifier }) => i(6).var(username).raw(q.as_bytes()).var(params.as_str().as_bytes()).pt(verifier),
    }
    .1
}
fn enc_server(w: Wire, m: &SMsg) -> Vec<u8> {
    let i = |n| Enc::index(w, n);
    match m {
        SMsg::Nonce(n) => i(0).var(n),
        SMsg::Aug(Aug { group, x_pub, salt: SaltMsg::Plain(s), params }) => i(1).var(group.as_bytes()).pt(x_pub).var(s.as_str().as_bytes()).var(params.as_str().as_bytes()),
        SMsg::Key(p) => i(2).pt(p),
        SMsg::Auth(a) => i(3).var(a),
        SMsg::Aug(Aug { group, x_pub, salt: SaltMsg::Blinded(b), params }) => i(4).var(group.as_bytes()).pt(x_pub).pt(b).var(params.as_str().as_bytes()),
    }
    .1
}
pub fn c32(x: &mut Ctx) {
    x.rule("an evaluation encodes one message and compares the bytes with the reference encoder's, then decodes the reference encoder's bytes (or a deviation from them) and compares the message; distinct by encoding");
    x.stage("encodings", 30_000, 1_000_000, |c| {
        let i = c.idx as usize;
        let w = [Wire::Bincode, Wire::Postcard][i % 2];
        let t = i / 2 % 12;
        let name = c.rng.hostile_any(1024);
        let kn = c.rng.below(9);
        with_k1!(kn, K => {
            if t < 7 {
                let m = gen_client::<K>(&mut c.rng, t, &name);
                let img = cimg(&m);
                let want = enc_client(w, &img);
                let got = sut(|| to_bin(w, &m));
                ensure!(got == want, "{w:?} K1={K}: {img:?} is encoded as {}, its encoding is {}", hex(&got), hex(&want));
                let back = sut(|| client_from::<K>(w, &want).map(|m| cimg(&m)));
                ensure!(back.as_ref() == Ok(&img), "{w:?} K1={K}: {} is decoded as {back:?} instead of {img:?}", hex(&want));
                foreign::<K>(c, w, &want, true)?;
                c.obs.seen(&want);
                c.obs.sample(|| format!("{w:?} K1={K} client {t}: {}", sh(&want)));
            } else {
                let m = gen_server::<K>(&mut c.rng, t - 7);
                let img = simg(&m);
                let want = enc_server(w, &img);
                let got = sut(|| to_bin(w, &m));
                ensure!(got == want, "{w:?} K1={K}: {img:?} is encoded as {}, its encoding is {}", hex(&got), hex(&want));
                let back = sut(|| server_from::<K>(w, &want).map(|m| simg(&m)));
                ensure!(back.as_ref() == Ok(&img), "{w:?} K1={K}: {} is decoded as {back:?} instead of {img:?}", hex(&want));
                foreign::<K>(c, w, &want, false)?;
                c.obs.seen(&want);
                c.obs.sample(|| format!("{w:?} K1={K} server {t}: {}", sh(&want)));
            }
            c.obs.count(&format!("message {t} over {w:?}"));
            Ok(())
        })
    });
    // encodings of what no message is
    x.stage("refusals", 6_000, 200_000, |c| {
        let i = c.idx as usize;
        let w = [Wire::Bincode, Wire::Postcard][i % 2];
        let kn = c.rng.below(9);
        with_k1!(kn, K => {
            let p = rand_wire_point(&mut c.rng);
            let salt = rand_salt(&mut c.rng);
            let params = rand_params(&mut c.rng);
            let name = c.rng.hostile(40);
            let bad_pt = loop {
                let b: [u8; 32] = match c.rng.below(3) {
                    0 => { let mut b = p.compress().to_bytes(); b[0] |= 1; b }
                    1 => { let mut b = [0xff; 32]; b[0] = c.rng.u64() as u8; b }
                    _ => c.rng.arr(),
                };
                if CompressedRistretto(b).decompress().is_none() {
                    break b;
                }
            };
            let n = *c.rng.pick(&[0, K.saturating_sub(1), K + 1, 2 * K, K + 256]);
            let a = *c.rng.pick(&[0usize, 1, 32, 63, 65, 128, 320]);
            let what = c.rng.below(9);
            let idx = |n| Enc::index(w, n);
            let (e, client, server) = match what {
                0 if n != K => (idx(0).var(&c.rng.bytes(n)), true, true),
                0 | 1 => (idx(3).var(&c.rng.bytes(a)), true, true),
                2 => (idx(2).raw(&bad_pt), true, true),
                3 => { let k = *c.rng.pick(&[7u32, 8, 127, 128, 255, 256, 0x1_0000, u32::MAX]); (idx(k).var(&name).pt(&p).pt(&p).var(&[1; 64]), true, true) }
                4 => (idx(5).var(&name).raw(&bad_pt), true, false),
                5 => (idx(6).var(&name).raw(&[0xff; 32]).var(params.as_str().as_bytes()).pt(&p), true, false),
                6 => { let s = bad_salt(&mut c.rng);
                    if c.rng.chance(2) { (idx(4).var(&name).var(s.as_bytes()).var(params.as_str().as_bytes()).pt(&p), true, false) }
                    else { (idx(1).var(b"g").pt(&p).var(s.as_bytes()).var(params.as_str().as_bytes()), false, true) } }
                7 => { let s = bad_params(&mut c.rng);
                    if c.rng.chance(2) { (idx(4).var(&name).var(salt.as_str().as_bytes()).var(s.as_bytes()).pt(&p), true, false) }
                    else { (idx(4).var(b"g").pt(&p).pt(&p).var(s.as_bytes()), false, true) } }
                _ => (idx(1).var(b"\xff\xfe").pt(&p).var(salt.as_str().as_bytes()).var(params.as_str().as_bytes()), false, true),
            };
            if client {
                let r = sut(|| client_from::<K>(w, &e.1).map(|m| cimg(&m)));
                ensure!(r.is_err(), "{w:?} K1={K}: {} ({what}) encodes no client message, it is decoded as {r:?}", hex(&e.1));
            }
            if server {
                let r = sut(|| server_from::<K>(w, &e.1).map(|m| simg(&m)));
                ensure!(r.is_err(), "{w:?} K1={K}: {} ({what}) encodes no server message, it is decoded as {r:?}", hex(&e.1));
            }
            c.obs.count(&format!("refused encodings of kind {what}"));
            c.obs.seen(&e.1);
            Ok(())
        })
    });
    x.require(&["refused encodings of kind 0", "refused encodings of kind 2", "refused encodings of kind 6", "refused encodings of kind 7", "prefixes refused", "message 11 over Bincode"]);
}
/// strings the password_hash crate does not take for a salt, or parameters
fn bad_salt(r: &mut Prng) -> String {
    loop {
        let s = match r.below(6) {
            0 => "a".repeat(r.below(4)),
            1 => "A".repeat(65 + r.below(100)),
            2 => "a b c d".into(),
            3 => "äöüäö".into(),
            4 => "####".into(),
            _ => format!("{}{}", rand_salt(r).as_str(), *r.pick(&["=", "\0", " ", "$", "\n"])),
        };
        if password_hash::SaltString::from_b64(&s).is_err() {
            return s;
        }
    }
}
fn bad_params(r: &mut Prng) -> String {
    loop {
        let s = match r.below(4) {
            0 => (*r.pick(&["=", "a", ",", "ä=1", "a=1,", " ", "a=1,b", "A=1", "a=$"])).to_string(),
            1 => format!("a={}", "1".repeat(200)),
            2 => format!("{},", rand_params(r).as_str()),
            _ => format!("{}\0", rand_params(r).as_str()),
        };
        if s.parse::<password_hash::ParamsString>().is_err() {
            return s;
        }
    }
}
/// no proper prefix of an encoding is a message
fn foreign<const K: usize>(c: &mut Case<'_>, w: Wire, enc: &[u8], client: bool) -> R {
    let cut = c.rng.below(enc.len());
    for n in [cut, enc.len() - 1] {
        let r = if client { sut(|| client_from::<K>(w, &enc[..n]).map(|m| format!("{:?}", cimg(&m)))) } else { sut(|| server_from::<K>(w, &enc[..n]).map(|m| format!("{:?}", simg(&m)))) };
        ensure!(r.is_err(), "{w:?} K1={K}: the first {n} bytes of {} are decoded as {r:?}", hex(enc));
        c.obs.count("prefixes refused");
    }
    Ok(())
}
