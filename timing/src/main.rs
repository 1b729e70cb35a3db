//! C08: every wrong proof or authenticator of the right length is refused here
//! inside `pakemon_measured`, whose cost in instructions callgrind counts call
//! by call. One line per call on stdout: GROUP LABEL (same order as the counts).
use aucpace::{AuCPaceClient, AuCPaceServer, ClientMessage, Database, ServerMessage};
use curve25519_dalek::ristretto::RistrettoPoint as Pt;
use password_hash::{Decimal, Ident, Output, ParamsString, PasswordHash, PasswordHasher, Salt, SaltString};
use rand_core::{CryptoRng, RngCore};
use sha2::{Digest, Sha512};
use std::hint::black_box;

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.next()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Rng {}

#[no_mangle]
#[inline(never)]
pub fn pakemon_measured(f: &mut dyn FnMut()) {
    f();
    black_box(());
}
/// (label, wrong value): the first difference at every position, few and many
/// differing bytes, low and high bits, and unrelated values
fn wrong(right: &[u8], r: &mut Rng, every: usize) -> Vec<(String, Vec<u8>)> {
    let one = one_round(right, r, every);
    // the first calls only warm up; afterwards every value is refused three times
    let mut out: Vec<_> = (0..4).map(|_| ("warm-up".to_string(), one[0].1.clone())).collect();
    for _ in 0..3 {
        out.extend(one.iter().cloned());
    }
    out
}
fn one_round(right: &[u8], r: &mut Rng, every: usize) -> Vec<(String, Vec<u8>)> {
    let n = right.len();
    let mut out = Vec::new();
    for i in (0..n).filter(|i| i % every == 0 || *i + 1 == n) {
        for m in [0x01u8, 0x80, 0xff] {
            let mut w = right.to_vec();
            w[i] ^= m;
            out.push((format!("byte {i} xor {m:02x}"), w));
            if every > 1 {
                break;
            }
        }
        let mut w = right.to_vec();
        for b in &mut w[i..] {
            *b ^= 1 + (r.next() % 255) as u8;
        }
        out.push((format!("all bytes from {i} on"), w));
        if every > 1 {
            continue;
        }
        let mut w = right.to_vec();
        for b in &mut w[..=i] {
            *b ^= 1 + (r.next() % 255) as u8;
        }
        out.push((format!("all bytes up to {i}"), w));
    }
    for k in 0..6 {
        let mut w = vec![0; n];
        r.fill_bytes(&mut w);
        out.push((format!("random {k}"), w));
    }
    for (l, v) in [("zeros", vec![0; n]), ("ones", vec![0xff; n]), ("complement", right.iter().map(|b| !b).collect::<Vec<_>>())] {
        if v != right {
            out.push((l.into(), v));
        }
    }
    let mut w = right.to_vec();
    w.reverse();
    if w != right {
        out.push(("reversed".into(), w));
    }
    out
}

fn srp_side<D: Digest>(name: &str, r: &mut Rng, every: usize) {
    use srp::{client::SrpClient, groups::G_1024, server::SrpServer};
    let mut b = |n: usize| {
        let mut v = vec![0; n];
        r.fill_bytes(&mut v);
        v
    };
    let (u, p, s, a, k) = (b(9), b(14), b(16), b(32), b(32));
    let c = SrpClient::<D>::new(&G_1024);
    let h = SrpServer::<D>::new(&G_1024);
    let v = c.compute_verifier(&u, &p, &s);
    let (ap, bp) = (c.compute_public_ephemeral(&a), h.compute_public_ephemeral(&k, &v));
    let cv = c.process_reply(&a, &u, &p, &s, &bp).unwrap();
    let sv = h.process_reply(&k, &v, &ap).unwrap();
    let (m1, m2) = (cv.proof().to_vec(), sv.proof().to_vec());
    assert!(sv.verify_client(&m1).is_ok() && cv.verify_server(&m2).is_ok());
    for (l, w) in wrong(&m1, r, every) {
        let mut ok = true;
        pakemon_measured(&mut || ok = black_box(&sv).verify_client(black_box(&w)).is_ok());
        println!("srp-server-{name} {l}{}", if ok { " ACCEPTED" } else { "" });
    }
    for (l, w) in wrong(&m2, r, every) {
        let mut ok = true;
        pakemon_measured(&mut || ok = black_box(&cv).verify_server(black_box(&w)).is_ok());
        println!("srp-client-{name} {l}{}", if ok { " ACCEPTED" } else { "" });
    }
}

#[derive(Clone, Debug, Default)]
struct P;
impl<'a> TryFrom<&'a PasswordHash<'a>> for P {
    type Error = password_hash::Error;
    fn try_from(_: &'a PasswordHash<'a>) -> Result<Self, Self::Error> {
        Ok(P)
    }
}
impl TryFrom<P> for ParamsString {
    type Error = password_hash::Error;
    fn try_from(_: P) -> Result<Self, Self::Error> {
        Ok(ParamsString::new())
    }
}
#[derive(Clone, Copy)]
struct H;
impl PasswordHasher for H {
    type Params = P;
    fn hash_password_customized<'a>(&self, password: &[u8], _: Option<Ident<'a>>, _: Option<Decimal>, _: P, salt: impl Into<Salt<'a>>) -> password_hash::Result<PasswordHash<'a>> {
        let salt = salt.into();
        let h = Sha512::new().chain_update(password).chain_update([0]).chain_update(salt.as_str()).finalize();
        Ok(PasswordHash { algorithm: Ident::new("p").unwrap(), version: None, params: ParamsString::new(), salt: Some(salt), hash: Some(Output::new(&h[..32])?) })
    }
}
struct Db(Option<(Pt, SaltString, ParamsString)>);
impl Database for Db {
    type PasswordVerifier = Pt;
    fn lookup_verifier(&self, _: &[u8]) -> Option<(Pt, SaltString, ParamsString)> {
        self.0.clone()
    }
    fn store_verifier(&mut self, _: &[u8], s: SaltString, _: Option<&[u8]>, v: Pt, p: ParamsString) {
        self.0 = Some((v, s, p));
    }
}
type Cl = AuCPaceClient<Sha512, H, Rng, 16>;
type Se = AuCPaceServer<Sha512, Rng, 16>;
/// the same session every time, up to the two waiting states and the client's authenticator
#[allow(clippy::type_complexity)]
fn session(db: &Db, seed: u64) -> (aucpace::client::AuCPaceClientExpMutAuth<Sha512, 16>, aucpace::server::AuCPaceServerExpMutAuth<Sha512, 16>, [u8; 64]) {
    let mut cl = Cl::new(Rng(seed));
    let mut se = Se::new(Rng(seed ^ 1));
    let id = [seed as u8; 24];
    let (c, s) = (cl.begin_prestablished_ssid(id).unwrap(), se.begin_prestablished_ssid(id).unwrap());
    let (c, _) = c.start_augmentation(b"user", b"password");
    let (s, m) = s.generate_client_info(b"user", db, Rng(seed ^ 2));
    let ServerMessage::AugmentationInfo { x_pub, salt, .. } = m else { panic!() };
    let c = c.generate_cpace_alloc(x_pub, &salt, P, H).unwrap();
    let (s, m) = s.generate_public_key(b"ci");
    let ServerMessage::PublicKey(sp) = m else { panic!() };
    let mut cr = Rng(seed ^ 3);
    let (c, m) = c.generate_public_key(b"ci", &mut cr);
    let ClientMessage::PublicKey(cp) = m else { panic!() };
    let (c, m) = c.receive_server_pubkey(sp).unwrap();
    let ClientMessage::Authenticator(tb) = m else { panic!() };
    (c, s.receive_client_pubkey(cp).unwrap(), tb)
}
fn auc_side(server: bool, r: &mut Rng, every: usize) {
    let mut db = Db(None);
    let mut cl = Cl::new(Rng(r.next()));
    match cl.register_alloc(b"user", b"password", P, H).unwrap() {
        ClientMessage::Registration { salt, params, verifier, .. } => db.store_verifier(b"user", salt, None, verifier, params),
        _ => panic!(),
    }
    let seed = r.next();
    let (c, s, tb) = session(&db, seed);
    let (_, m) = s.receive_client_authenticator(tb).unwrap();
    let ServerMessage::Authenticator(ta) = m else { panic!() };
    assert!(c.receive_server_authenticator(ta).is_ok());
    for (l, w) in wrong(if server { &tb } else { &ta }, r, every) {
        let (c, s, _) = session(&db, seed);
        let (mut c, mut s) = (Some(c), Some(s));
        let mut w: [u8; 64] = w.try_into().unwrap();
        w = black_box(w);
        let mut ok = true;
        if server {
            pakemon_measured(&mut || ok = s.take().unwrap().receive_client_authenticator(w).is_ok());
        } else {
            pakemon_measured(&mut || ok = c.take().unwrap().receive_server_authenticator(w).is_ok());
        }
        println!("aucpace-{} {l}{}", if server { "server" } else { "client" }, if ok { " ACCEPTED" } else { "" });
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut r = Rng(a[2].parse().unwrap());
    let every: usize = a[3].parse().unwrap();
    match a[1].as_str() {
        "srp" => {
            srp_side::<sha2::Sha256>("sha256", &mut r, every);
            srp_side::<sha1::Sha1>("sha1", &mut r, every);
            srp_side::<Sha512>("sha512", &mut r, every);
        }
        "aucpace-server" => auc_side(true, &mut r, every),
        _ => auc_side(false, &mut r, every),
    }
}
