//! A deterministic workload over the three crates that writes everything a
//! peer or caller can observe, one event per line: SECTION/KEY VALUE.
//! The same seed must give the same value for a key in every build (C25).
use aucpace::{AuCPaceClient, AuCPaceServer, ClientMessage, Database, ServerMessage};
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as BASE;
use curve25519_dalek::ristretto::RistrettoPoint as Pt;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity as _;
use password_hash::{Decimal, Ident, Output, ParamsString, PasswordHash, PasswordHasher, Salt, SaltString};
use rand_core::{CryptoRng, RngCore};
use sha2::{Digest, Sha256, Sha512};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn new(seed: u64, tag: &str) -> Self {
        let h = Sha256::new().chain_update(seed.to_le_bytes()).chain_update(tag).finalize();
        Rng(u64::from_le_bytes(h[..8].try_into().unwrap()))
    }
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill_bytes(&mut v);
        v
    }
    fn any(&mut self, max: usize) -> Vec<u8> {
        const L: [usize; 20] = [0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511];
        let n = match self.below(3) {
            0 => L[self.below(20)].min(max),
            1 => self.below(24).min(max),
            _ => self.below(max + 1),
        };
        match self.below(8) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            _ => self.bytes(n),
        }
    }
}
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.next()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Rng {}

fn hex(b: &[u8]) -> String {
    if b.len() > 80 {
        return format!("{}..{}:{}", hex(&b[..16]), b.len(), hex(&Sha256::digest(b)));
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn pt(p: &Pt) -> String {
    hex(p.compress().as_bytes())
}
struct Log {
    out: String,
    pre: String,
}
impl Log {
    fn ev(&mut self, k: &str, v: impl std::fmt::Display) {
        writeln!(self.out, "{}/{k} {v}", self.pre).unwrap();
    }
}
/// a case; a panic is an event like any other
fn case(l: &mut Log, name: String, f: impl FnOnce(&mut Log)) {
    l.pre = name;
    if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(l))) {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        l.ev("panic", m.lines().next().unwrap_or(""));
    }
}

// ---------------------------------------------------------------- srp
fn srp_case<D: Digest>(l: &mut Log, r: &mut Rng, big: bool) {
    use srp::{client::SrpClient, groups, server::SrpServer, types::SrpGroup};
    let small;
    let g: &SrpGroup = if big {
        [&*groups::G_1024, &*groups::G_2048, &*groups::G_1536][r.below(3)]
    } else {
        // 128-bit and 61-bit primes: short values happen all the time
        let n: &[u8] = [&[0x1f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff][..], &[0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff][..], &[251][..], &[0x01, 0x01][..]][r.below(4)];
        small = SrpGroup { n: num_bigint::BigUint::from_bytes_be(n), g: num_bigint::BigUint::from([3u32, 7, 43, 200][r.below(4)]) };
        &small
    };
    let (u, p, s) = (r.any(200), r.any(200), r.any(64));
    let (a, b) = (r.any(48), r.any(48));
    let c = SrpClient::<D>::new(g);
    let h = SrpServer::<D>::new(g);
    let v = c.compute_verifier(&u, &p, &s);
    let a_pub = c.compute_public_ephemeral(&a);
    let b_pub = h.compute_public_ephemeral(&b, &v);
    l.ev("verifier", hex(&v));
    l.ev("A", hex(&a_pub));
    l.ev("B", hex(&b_pub));
    let cv = c.process_reply(&a, &u, &p, &s, &b_pub);
    let sv = h.process_reply(&b, &v, &a_pub);
    let mut m1 = vec![];
    match &cv {
        Ok(x) => {
            m1 = x.proof().to_vec();
            l.ev("M1", hex(&m1));
            l.ev("client-key", hex(x.key()));
        }
        Err(e) => l.ev("client-error", format!("{e} {e:?}")),
    }
    match &sv {
        Ok(x) => {
            l.ev("M2", hex(x.proof()));
            l.ev("server-key", hex(x.key()));
            for (n, m) in [("right", m1.clone()), ("any", r.any(80)), ("short", m1[..m1.len() / 2].to_vec())] {
                l.ev(&format!("verify-client-{n}"), format!("{:?}", x.verify_client(&m)));
            }
            if let Ok(cv) = &cv {
                l.ev("verify-server", format!("{:?}", cv.verify_server(x.proof())));
            }
        }
        Err(e) => l.ev("server-error", format!("{e} {e:?}")),
    }
    let bad = match r.below(4) {
        0 => vec![0; r.below(40)],
        1 => g.n.to_bytes_be(),
        2 => (&g.n * 2u32 + 1u32).to_bytes_be(),
        _ => r.any(300),
    };
    l.ev("hostile-B", c.process_reply(&a, &u, &p, &s, &bad).map(|x| hex(x.key())).unwrap_or_else(|e| format!("{e} {e:?}")));
    l.ev("hostile-A", h.process_reply(&b, &v, &bad).map(|x| hex(x.key())).unwrap_or_else(|e| format!("{e} {e:?}")));
    l.ev("hostile-verifier", h.process_reply(&b, &bad, &a_pub).map(|x| hex(x.key())).unwrap_or_else(|e| format!("{e} {e:?}")));
}

// ---------------------------------------------------------------- spake2
fn spake_case(l: &mut Log, r: &mut Rng) {
    use spake2::{Ed25519Group, Identity, Password, Spake2};
    let pw = Password::new(r.any(200));
    let (a, b) = (Identity::new(&r.any(100)), Identity::new(&r.any(100)));
    let (x, y) = (r.next(), r.next());
    let (sa, ma) = Spake2::<Ed25519Group>::start_a_with_rng(&pw, &a, &b, Rng(x));
    let (sb, mb) = Spake2::<Ed25519Group>::start_b_with_rng(&pw, &a, &b, Rng(y));
    let (s1, m1) = Spake2::<Ed25519Group>::start_symmetric_with_rng(&pw, &a, Rng(x));
    let (s2, m2) = Spake2::<Ed25519Group>::start_symmetric_with_rng(&pw, &a, Rng(y));
    for (n, m) in [("A", &ma), ("B", &mb), ("S1", &m1), ("S2", &m2)] {
        l.ev(n, hex(m));
    }
    l.ev("debug", format!("{sa:?} {s1:?}"));
    let show = |x: Result<Vec<u8>, spake2::Error>| x.map(|k| hex(&k)).unwrap_or_else(|e| format!("{e} {e:?}"));
    l.ev("key-A", show(sa.finish(&mb)));
    l.ev("key-B", show(sb.finish(&ma)));
    l.ev("key-S1", show(s1.finish(&m2)));
    l.ev("key-S2", show(s2.finish(&m1)));
    for i in 0..3 {
        let mut m = if i == 0 { r.any(64) } else { r.bytes(33) };
        if i > 0 && !m.is_empty() {
            m[0] = [b'A', b'B', b'S', 0][r.below(4)];
        }
        l.ev(&format!("hostile-{i}"), show(Spake2::<Ed25519Group>::start_b_with_rng(&pw, &a, &b, Rng(y)).0.finish(&m)));
        m[..].first_mut().map(|x| *x = b'S');
        l.ev(&format!("hostile-sym-{i}"), show(Spake2::<Ed25519Group>::start_symmetric_with_rng(&pw, &a, Rng(y)).0.finish(&m)));
    }
}

// ---------------------------------------------------------------- aucpace
#[derive(Clone, Debug, Default)]
struct P {
    out: usize,
    bad: u8,
}
impl<'a> TryFrom<&'a PasswordHash<'a>> for P {
    type Error = password_hash::Error;
    fn try_from(_: &'a PasswordHash<'a>) -> Result<Self, Self::Error> {
        Ok(P { out: 32, bad: 0 })
    }
}
impl TryFrom<P> for ParamsString {
    type Error = password_hash::Error;
    fn try_from(p: P) -> Result<Self, Self::Error> {
        let mut s = ParamsString::new();
        s.add_decimal("n", p.out as Decimal)?;
        Ok(s)
    }
}
#[derive(Clone, Copy)]
struct H;
impl PasswordHasher for H {
    type Params = P;
    fn hash_password_customized<'a>(&self, password: &[u8], _: Option<Ident<'a>>, _: Option<Decimal>, params: P, salt: impl Into<Salt<'a>>) -> password_hash::Result<PasswordHash<'a>> {
        let salt = salt.into();
        if params.bad == 1 {
            return Err(password_hash::Error::Crypto);
        }
        let h = Sha512::new().chain_update(password).chain_update([0]).chain_update(salt.as_str()).finalize();
        let hash = if params.bad == 2 { None } else { Some(Output::new(&h[..params.out])?) };
        Ok(PasswordHash { algorithm: Ident::new("p").unwrap(), version: None, params: ParamsString::new(), salt: Some(salt), hash })
    }
}
#[derive(Default)]
struct Db {
    plain: HashMap<Vec<u8>, (Pt, SaltString, ParamsString)>,
    #[cfg(feature = "partial")]
    keys: HashMap<Vec<u8>, (Scalar, Pt)>,
    #[cfg(feature = "strong")]
    strong: HashMap<Vec<u8>, (Pt, Scalar, ParamsString)>,
}
impl Database for Db {
    type PasswordVerifier = Pt;
    fn lookup_verifier(&self, u: &[u8]) -> Option<(Pt, SaltString, ParamsString)> {
        self.plain.get(u).cloned()
    }
    fn store_verifier(&mut self, u: &[u8], s: SaltString, _: Option<&[u8]>, v: Pt, p: ParamsString) {
        self.plain.insert(u.to_vec(), (v, s, p));
    }
}
#[cfg(feature = "partial")]
impl aucpace::PartialAugDatabase for Db {
    type PrivateKey = Scalar;
    type PublicKey = Pt;
    fn lookup_long_term_keypair(&self, u: &[u8]) -> Option<(Scalar, Pt)> {
        self.keys.get(u).copied()
    }
    fn store_long_term_keypair(&mut self, u: &[u8], s: Scalar, p: Pt) -> aucpace::Result<()> {
        self.keys.insert(u.to_vec(), (s, p));
        Ok(())
    }
}
#[cfg(feature = "strong")]
impl aucpace::StrongDatabase for Db {
    type PasswordVerifier = Pt;
    type Exponent = Scalar;
    fn lookup_verifier_strong(&self, u: &[u8]) -> Option<(Pt, Scalar, ParamsString)> {
        self.strong.get(u).cloned()
    }
    fn store_verifier_strong(&mut self, u: &[u8], _: Option<&[u8]>, v: Pt, q: Scalar, p: ParamsString) {
        self.strong.insert(u.to_vec(), (v, q, p));
    }
}
const K: usize = 16;
const BUF: usize = 600;
fn cm(m: &ClientMessage<'_, K>) -> String {
    #[cfg(feature = "serde")]
    let w = {
        let b = bincode::serialize(m).unwrap();
        let mut buf = [0u8; 4096];
        let p = postcard::to_slice(m, &mut buf).unwrap();
        let back = |m: Result<ClientMessage<'_, K>, String>| m.map(|m| show_c(&m)).unwrap_or_else(|e| e);
        if back(bincode::deserialize(&b).map_err(|e| e.to_string())) != show_c(m) || back(postcard::from_bytes(p).map_err(|e| e.to_string())) != show_c(m) {
            panic!("a message changes on the wire");
        }
        String::new()
    };
    #[cfg(not(feature = "serde"))]
    let w = "";
    format!("{}{w}", show_c(m))
}
fn show_c(m: &ClientMessage<'_, K>) -> String {
    match m {
        ClientMessage::Nonce(n) => format!("nonce {}", hex(n)),
        ClientMessage::Username(u) => format!("user {}", hex(u)),
        ClientMessage::PublicKey(p) => format!("key {}", pt(p)),
        ClientMessage::Authenticator(a) => format!("auth {}", hex(a)),
        ClientMessage::Registration { username, salt, params, verifier } => format!("reg {} {salt} {params} {}", hex(username), pt(verifier)),
        #[cfg(feature = "strong")]
        ClientMessage::StrongUsername { username, blinded } => format!("user {} {}", hex(username), pt(blinded)),
        #[cfg(feature = "strong")]
        ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => {
            format!("reg {} {} {params} {}", hex(username), hex(secret_exponent.as_bytes()), pt(verifier))
        }
    }
}
fn smsg(m: &ServerMessage<'_, K>) -> String {
    #[cfg(feature = "serde")]
    {
        let b = bincode::serialize(m).unwrap();
        let r: ServerMessage<'_, K> = bincode::deserialize(&b).unwrap();
        if show_s(&r) != show_s(m) {
            panic!("a message changes on the wire");
        }
    }
    show_s(m)
}
fn show_s(m: &ServerMessage<'_, K>) -> String {
    match m {
        ServerMessage::Nonce(n) => format!("nonce {}", hex(n)),
        ServerMessage::AugmentationInfo { group, x_pub, salt, pbkdf_params } => format!("aug {group} {} {salt} {pbkdf_params}", pt(x_pub)),
        #[cfg(feature = "strong")]
        ServerMessage::StrongAugmentationInfo { group, x_pub, blinded_salt, pbkdf_params } => format!("aug {group} {} {} {pbkdf_params}", pt(x_pub), pt(blinded_salt)),
        ServerMessage::PublicKey(p) => format!("key {}", pt(p)),
        ServerMessage::Authenticator(a) => format!("auth {}", hex(a)),
    }
}
fn err<T>(r: Result<T, aucpace::Error>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(v) => f(v),
        Err(e) => format!("error {e:?} {e}"),
    }
}
fn weird(r: &mut Rng, honest: Pt, every: usize) -> Pt {
    match r.below(every * 3) {
        0 => Pt::identity(),
        1 => BASE * Scalar::from(r.next()),
        2 => -honest,
        _ => honest,
    }
}
type Cl = AuCPaceClient<Sha512, H, Rng, K>;
type Se = AuCPaceServer<Sha512, Rng, K>;
/// which form of a client call to use: the heap where there is one
#[derive(Clone, Copy, PartialEq)]
enum Form {
    Fixed,
    Auto,
}
fn auc_case(l: &mut Log, r: &mut Rng, partial: bool, strong: bool, form: Form) {
    let heap = form == Form::Auto && cfg!(feature = "alloc");
    // never longer together than the fixed buffer
    let (u, p) = (r.any(250), r.any(250));
    let params = P { out: [32, 32, 64, 64, 32, 64, 10, 48][r.below(8)], bad: [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2][r.below(12)] };
    let (s1, s2, s3, s4) = (r.next(), r.next(), r.next(), r.next());
    let mut db = Db::default();
    let mut se = Se::new(Rng(s1));
    let mut cl = Cl::new(Rng(s2));
    let registered = r.below(5) > 0;
    {
        let _ = heap;
        let m = match (strong, heap) {
            (false, false) => cl.register::<_, BUF>(&u, &p, params.clone(), H),
            #[cfg(feature = "alloc")]
            (false, true) => cl.register_alloc(&u, &p, params.clone(), H),
            #[cfg(feature = "strong")]
            (true, false) => cl.register_strong::<_, BUF>(&u, &p, params.clone(), H),
            #[cfg(all(feature = "strong", feature = "alloc"))]
            (true, true) => cl.register_alloc_strong(&u, &p, params.clone(), H),
            #[allow(unreachable_patterns)]
            _ => unreachable!(),
        };
        l.ev("registration", match &m {
            Ok(m) => cm(m),
            Err(e) => format!("error {e:?} {e}"),
        });
        if registered {
            match m {
                Ok(ClientMessage::Registration { username, salt, params, verifier }) => db.store_verifier(username, salt, None, verifier, params),
                #[cfg(feature = "strong")]
                Ok(ClientMessage::StrongRegistration { username, secret_exponent, params, verifier }) => {
                    use aucpace::StrongDatabase;
                    db.store_verifier_strong(username, None, verifier, secret_exponent, params)
                }
                _ => {}
            }
        }
    }
    #[cfg(feature = "partial")]
    if partial && registered {
        let (x, xp) = se.generate_long_term_keypair();
        l.ev("keypair", pt(&xp));
        db.keys.insert(u.clone(), (x, xp));
    }
    let _ = partial;
    let (cs, ss) = if r.below(2) == 0 {
        let id = r.any(80);
        let c = cl.begin_prestablished_ssid(&id);
        let s = se.begin_prestablished_ssid(&id);
        l.ev("preset", format!("{:?} {:?}", c.as_ref().err(), s.as_ref().err()));
        match (c, s) {
            (Ok(c), Ok(s)) => (c, s),
            _ => return,
        }
    } else {
        let (s, sm) = se.begin();
        let (c, m) = cl.begin();
        l.ev("nonces", format!("{} {}", cm(&m), smsg(&sm)));
        let (ClientMessage::Nonce(cn), ServerMessage::Nonce(sn)) = (m, sm) else { panic!("nonces") };
        (c.agree_ssid(sn), s.agree_ssid(cn))
    };
    let wrong = r.below(8) == 0;
    let pw = if wrong { r.any(100) } else { p.clone() };
    // augmentation
    let (cc, sc);
    let slot;
    if !strong {
        let (st, m) = cs.start_augmentation(&u, &pw);
        l.ev("start", cm(&m));
        let (n, m) = match partial {
            false => ss.generate_client_info(&u, &db, Rng(s3)),
            #[cfg(feature = "partial")]
            true => ss.generate_client_info_partial_aug(&u, &db, Rng(s3)),
            #[cfg(not(feature = "partial"))]
            true => unreachable!(),
        };
        l.ev("info", smsg(&m));
        sc = n;
        let ServerMessage::AugmentationInfo { x_pub, salt, .. } = m else { panic!("info") };
        slot = salt;
        let x_pub = weird(r, x_pub, 8);
        let c = match heap {
            false => st.generate_cpace::<_, BUF>(x_pub, &slot, params, H),
            #[cfg(feature = "alloc")]
            true => st.generate_cpace_alloc(x_pub, &slot, params, H),
            #[cfg(not(feature = "alloc"))]
            true => unreachable!(),
        };
        cc = match c {
            Ok(c) => c,
            Err(e) => return l.ev("cpace", format!("error {e:?} {e}")),
        };
    } else {
        #[cfg(feature = "strong")]
        {
            let mut br = Rng(s4 ^ 1);
            let (st, m) = cs.start_augmentation_strong(&u, &pw, &mut br);
            l.ev("start", cm(&m));
            let ClientMessage::StrongUsername { blinded, .. } = m else { panic!("start") };
            let blinded = weird(r, blinded, 8);
            let res = match partial {
                false => ss.generate_client_info_strong(&u, blinded, &db, Rng(s3)),
                #[cfg(feature = "partial")]
                true => ss.generate_client_info_partial_strong(&u, blinded, &db, Rng(s3)),
                #[cfg(not(feature = "partial"))]
                true => unreachable!(),
            };
            let (n, m) = match res {
                Ok(x) => x,
                Err(e) => return l.ev("info", format!("error {e:?} {e}")),
            };
            l.ev("info", smsg(&m));
            sc = n;
            let ServerMessage::StrongAugmentationInfo { x_pub, blinded_salt, .. } = m else { panic!("info") };
            let (x_pub, bs) = (weird(r, x_pub, 8), weird(r, blinded_salt, 8));
            let c = match heap {
                false => st.generate_cpace::<BUF>(x_pub, bs, params, H),
                #[cfg(feature = "alloc")]
                true => st.generate_cpace_alloc(x_pub, bs, params, H),
                #[cfg(not(feature = "alloc"))]
                true => unreachable!(),
            };
            cc = match c {
                Ok(c) => c,
                Err(e) => return l.ev("cpace", format!("error {e:?} {e}")),
            };
        }
        #[cfg(not(feature = "strong"))]
        unreachable!()
    }
    let ci = r.any(100);
    let (sk, sm) = sc.generate_public_key(&ci);
    let mut cr = Rng(s4);
    let (ck, m) = cc.generate_public_key(&ci, &mut cr);
    l.ev("keys", format!("{} {}", cm(&m), smsg(&sm)));
    let (ClientMessage::PublicKey(cp), ServerMessage::PublicKey(sp)) = (m, sm) else { panic!("keys") };
    let (cp, sp) = (weird(r, cp, 8), weird(r, sp, 8));
    if r.below(3) == 0 {
        l.ev("implicit-client", err(ck.implicit_auth(sp), |k| hex(&k)));
        l.ev("implicit-server", err(sk.implicit_auth(cp), |k| hex(&k)));
        return;
    }
    let (c, s) = (ck.receive_server_pubkey(sp), sk.receive_client_pubkey(cp));
    let (cx, tb) = match c {
        Ok((c, m)) => {
            l.ev("client-auth", cm(&m));
            let ClientMessage::Authenticator(a) = m else { panic!("auth") };
            (c, a)
        }
        Err(e) => return l.ev("client-auth", format!("error {e:?} {e}")),
    };
    let sx = match s {
        Ok(s) => s,
        Err(e) => return l.ev("server-recv", format!("error {e:?} {e}")),
    };
    let ta = match sx.receive_client_authenticator(tb) {
        Ok((k, m)) => {
            l.ev("server-key", format!("{} {}", hex(&k), smsg(&m)));
            let ServerMessage::Authenticator(a) = m else { panic!("auth") };
            a
        }
        Err(e) => {
            l.ev("server-key", format!("error {e:?} {e}"));
            let mut a = [0; 64];
            r.fill_bytes(&mut a);
            a
        }
    };
    l.ev("client-key", err(cx.receive_server_authenticator(ta), |k| hex(&k)));
}
#[cfg(feature = "serde")]
fn wire_case(l: &mut Log, r: &mut Rng) {
    let mut pts = [0u8; 64];
    r.fill_bytes(&mut pts);
    let m: ClientMessage<'_, K> = ClientMessage::PublicKey(Pt::from_uniform_bytes(&pts));
    let mut b = bincode::serialize(&m).unwrap();
    l.ev("bincode", hex(&b));
    let salt = SaltString::encode_b64(&r.bytes(16)).unwrap();
    let mut ps = ParamsString::new();
    ps.add_decimal("ln", r.next() as u32).unwrap();
    let name = r.any(60);
    let m2: ClientMessage<'_, K> = ClientMessage::Registration { username: &name, salt: salt.clone(), params: ps.clone(), verifier: BASE };
    l.ev("registration", hex(&bincode::serialize(&m2).unwrap()));
    let m3: ServerMessage<'_, K> = ServerMessage::AugmentationInfo { group: "ristretto255", x_pub: BASE, salt, pbkdf_params: ps };
    let mut buf = [0u8; 4096];
    l.ev("info", hex(postcard::to_slice(&m3, &mut buf).unwrap()));
    let i = r.below(b.len());
    b[i] ^= 1 << r.below(8);
    l.ev("corrupt", bincode::deserialize::<ClientMessage<'_, K>>(&b).map(|m| show_c(&m)).unwrap_or_else(|_| "refused".into()));
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let n: usize = a[2].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut l = Log { out: String::new(), pre: String::new() };
    let tiny = n < 10;
    for i in 0..n * 4 {
        let mut r = Rng::new(seed, &format!("srp{i}"));
        let big = i % 8 == 0 && !tiny;
        match i % 3 {
            0 => case(&mut l, format!("srp/{i}"), |l| srp_case::<Sha256>(l, &mut r, big)),
            1 => case(&mut l, format!("srp/{i}"), |l| srp_case::<Sha512>(l, &mut r, big)),
            _ => case(&mut l, format!("srp/{i}"), |l| srp_case::<sha2::Sha224>(l, &mut r, big)),
        }
    }
    for i in 0..n {
        let mut r = Rng::new(seed, &format!("spake{i}"));
        case(&mut l, format!("spake2/{i}"), |l| spake_case(l, &mut r));
    }
    for (name, partial, strong) in [("auc", false, false), ("auc-partial", true, false), ("auc-strong", false, true), ("auc-strong-partial", true, true)] {
        if (partial && !cfg!(feature = "partial")) || (strong && !cfg!(feature = "strong")) {
            continue;
        }
        for i in 0..n {
            for (f, fname) in [(Form::Fixed, "fixed"), (Form::Auto, "auto")] {
                // the same draws in both forms
                let mut r = Rng::new(seed, &format!("{name}{i}"));
                case(&mut l, format!("{name}/{i}/{fname}"), |l| auc_case(l, &mut r, partial, strong, f));
                if tiny {
                    break;
                }
            }
        }
    }
    #[cfg(feature = "serde")]
    for i in 0..n {
        let mut r = Rng::new(seed, &format!("wire{i}"));
        case(&mut l, format!("wire/{i}"), |l| wire_case(l, &mut r));
    }
    print!("{}", l.out);
}
