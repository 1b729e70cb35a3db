//! C33: what calls leave behind, how much memory they use and how long they work.
//! Every allocation of the process is counted. The operations are sessions,
//! refusals and abandoned sessions of the three crates; only the calls of the
//! crates are inside the measured zones.
//!
//!   mem list                           names of the operations
//!   mem keep OP SEED N                 does live memory grow with the number of uses?
//!   mem size OP SEED                   peak memory and work against the size of the inputs
use aucpace::{AuCPaceClient, AuCPaceServer, ClientMessage, Database, PartialAugDatabase, ServerMessage, StrongDatabase};
use curve25519_dalek::{ristretto::RistrettoPoint as Pt, scalar::Scalar, traits::Identity as _};
use num_bigint::BigUint;
use password_hash::{Decimal, Ident, Output, ParamsString, PasswordHash, PasswordHasher, Salt, SaltString};
use rand_core::{CryptoRng, RngCore};
use sha2::{Digest, Sha256, Sha512};
use spake2::{Ed25519Group, Group, Identity, Password, Spake2};
use srp::{client::SrpClient, server::SrpServer, types::SrpGroup};
use std::alloc::{GlobalAlloc, Layout, System};
use std::hint::black_box;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

// ---------------------------------------------------------------- the monitor
struct Count;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static BLOCKS: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static CALLS: AtomicUsize = AtomicUsize::new(0);
fn more(n: usize) {
    CALLS.fetch_add(1, Relaxed);
    PEAK.fetch_max(LIVE.fetch_add(n, Relaxed) + n, Relaxed);
}
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        more(l.size());
        BLOCKS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        more(l.size());
        BLOCKS.fetch_add(1, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // both blocks may exist for a moment
        more(n);
        LIVE.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Count = Count;
fn cpu() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
#[derive(Default)]
struct Z {
    ns: u64,
    peak: usize,
    zones: u64,
    quiet: u64,
    /// bytes of input the calls got
    input: usize,
    /// calls that should not allocate and did
    noisy: Option<(&'static str, usize)>,
}
impl Z {
    fn run<T>(&mut self, f: impl FnOnce() -> T) -> T {
        let live = LIVE.load(Relaxed);
        PEAK.store(live, Relaxed);
        let t = cpu();
        let r = f();
        self.ns += cpu() - t;
        self.peak = self.peak.max(PEAK.load(Relaxed) - live);
        self.zones += 1;
        r
    }
    fn quiet<T>(&mut self, what: &'static str, f: impl FnOnce() -> T) -> T {
        let n = CALLS.load(Relaxed);
        let r = self.run(f);
        let n = CALLS.load(Relaxed) - n;
        self.quiet += 1;
        if n > 0 && self.noisy.is_none() {
            self.noisy = Some((what, n));
        }
        r
    }
}

// ---------------------------------------------------------------- what the crates are given
#[derive(Clone)]
struct R(u64);
impl R {
    fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut b = vec![0; n];
        self.fill_bytes(&mut b);
        b
    }
    fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut b = [0; N];
        self.fill_bytes(&mut b);
        b
    }
    fn point(&mut self) -> Pt {
        Pt::mul_base(&self.scalar())
    }
    fn scalar(&mut self) -> Scalar {
        Scalar::from_bytes_mod_order_wide(&self.arr())
    }
    fn salt(&mut self) -> SaltString {
        SaltString::encode_b64(&self.arr::<16>()).unwrap()
    }
}
impl RngCore for R {
    fn next_u32(&mut self) -> u32 {
        self.u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let b = self.u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for R {}
#[derive(Clone, Debug, Default)]
struct P;
impl<'a> TryFrom<&'a PasswordHash<'a>> for P {
    type Error = password_hash::Error;
    fn try_from(_: &'a PasswordHash<'a>) -> Result<Self, Self::Error> {
        Ok(P)
    }
}
impl TryFrom<P> for ParamsString {
    type Error = password_hash::Error;
    fn try_from(_: P) -> Result<Self, Self::Error> {
        Ok(ParamsString::new())
    }
}
/// 0 hashes, others fail in one way each
#[derive(Clone, Copy)]
struct H(u8);
impl PasswordHasher for H {
    type Params = P;
    fn hash_password_customized<'a>(&self, password: &[u8], _: Option<Ident<'a>>, _: Option<Decimal>, _: P, salt: impl Into<Salt<'a>>) -> password_hash::Result<PasswordHash<'a>> {
        let salt = salt.into();
        if self.0 == 1 {
            return Err(password_hash::Error::Crypto);
        }
        let h = Sha512::new().chain_update(password).chain_update([0]).chain_update(salt.as_str()).finalize();
        let hash = if self.0 == 2 { None } else { Some(Output::new(&h[..if self.0 == 3 { 20 } else { 64 }])?) };
        Ok(PasswordHash { algorithm: Ident::new("p").unwrap(), version: None, params: ParamsString::new(), salt: Some(salt), hash })
    }
}
/// one user's records, in place
#[derive(Default)]
struct Db {
    known: bool,
    v: Option<(Pt, Option<SaltString>, Scalar)>,
    pair: Option<(Scalar, Pt)>,
}
impl Database for Db {
    type PasswordVerifier = Pt;
    fn lookup_verifier(&self, _: &[u8]) -> Option<(Pt, SaltString, ParamsString)> {
        let (v, s, _) = self.v.clone()?;
        self.known.then_some((v, s?, ParamsString::new()))
    }
    fn store_verifier(&mut self, _: &[u8], s: SaltString, _: Option<&[u8]>, v: Pt, _: ParamsString) {
        self.v = Some((v, Some(s), Scalar::ZERO));
    }
}
impl PartialAugDatabase for Db {
    type PrivateKey = Scalar;
    type PublicKey = Pt;
    fn lookup_long_term_keypair(&self, _: &[u8]) -> Option<(Scalar, Pt)> {
        self.pair.filter(|_| self.known)
    }
    fn store_long_term_keypair(&mut self, _: &[u8], x: Scalar, p: Pt) -> aucpace::Result<()> {
        self.pair = Some((x, p));
        Ok(())
    }
}
impl StrongDatabase for Db {
    type PasswordVerifier = Pt;
    type Exponent = Scalar;
    fn lookup_verifier_strong(&self, _: &[u8]) -> Option<(Pt, Scalar, ParamsString)> {
        let (v, _, q) = self.v.clone()?;
        self.known.then_some((v, q, ParamsString::new()))
    }
    fn store_verifier_strong(&mut self, _: &[u8], _: Option<&[u8]>, v: Pt, q: Scalar, _: ParamsString) {
        self.v = Some((v, None, q));
    }
}

// ---------------------------------------------------------------- SRP
fn srp_group(i: u64) -> SrpGroup {
    match i % 4 {
        0 => SrpGroup { n: (BigUint::from(1u8) << 127) - 1u8, g: BigUint::from(3u8) },
        1 => SrpGroup { n: BigUint::from(0xffff_ffff_ffff_ffc5u64), g: BigUint::from(2u8) },
        2 => SrpGroup { n: BigUint::from(2_147_483_647u64), g: BigUint::from(7u8) },
        _ => SrpGroup { n: (BigUint::from(1u8) << 255) - 19u8, g: BigUint::from(2u8) },
    }
}
fn srp<D: Digest>(z: &mut Z, r: &mut R, n: usize, i: u64) {
    let own;
    let g: &SrpGroup = match i % 64 {
        63 => &srp::groups::G_1024,
        31 if i < 256 => &srp::groups::G_2048,
        _ => {
            own = srp_group(i / 8);
            &own
        }
    };
    let (user, pw, salt) = (r.bytes(n), r.bytes(n), r.bytes(n));
    z.input += 3 * n;
    let fault = i % 8;
    let (a, b) = (r.bytes(16), r.bytes(16));
    let cl = z.run(|| SrpClient::<D>::new(g));
    let se = z.run(|| SrpServer::<D>::new(g));
    let v = z.run(|| cl.compute_verifier(&user, &pw, &salt));
    let a_pub = z.run(|| cl.compute_public_ephemeral(&a));
    let b_pub = z.run(|| se.compute_public_ephemeral(&b, &v));
    let (sent_a, sent_b) = match fault {
        1 => ((&g.n * r.u64()).to_bytes_be(), (&g.n * BigUint::from_bytes_be(&r.bytes(n))).to_bytes_be()),
        2 => (r.bytes(n), r.bytes(n)),
        _ => (a_pub, b_pub),
    };
    z.input += sent_a.len() + sent_b.len();
    if fault == 3 {
        return;
    }
    let c = z.run(|| cl.process_reply(&a, &user, &pw, &salt, &sent_b));
    let s = z.run(|| se.process_reply(&b, &v, &sent_a));
    let (Ok(c), Ok(s)) = (c, s) else { return };
    let proof = if fault == 4 { r.bytes(n) } else { c.proof().to_vec() };
    let reply = if fault == 5 { r.bytes(n) } else { s.proof().to_vec() };
    z.input += proof.len() + reply.len();
    let x = z.run(|| s.verify_client(&proof).is_ok());
    let y = z.run(|| c.verify_server(&reply).is_ok());
    if fault == 0 {
        assert!(x && y && c.key() == s.key());
    }
}

// ---------------------------------------------------------------- SPAKE2
/// numbers modulo a prime, added; five bytes each
struct Sum;
const Q: u64 = 1_099_511_627_689;
fn small(r: &[u8]) -> u64 {
    u64::from_le_bytes(Sha256::digest(r)[..8].try_into().unwrap()) % Q
}
impl Group for Sum {
    type Scalar = u64;
    type Element = u64;
    type TranscriptHash = Sha256;
    fn name() -> &'static str {
        "sum"
    }
    fn const_m() -> u64 {
        77
    }
    fn const_n() -> u64 {
        78
    }
    fn const_s() -> u64 {
        79
    }
    fn hash_to_scalar(s: &[u8]) -> u64 {
        small(s)
    }
    fn random_scalar<T: RngCore + CryptoRng>(r: &mut T) -> u64 {
        r.next_u64() % Q
    }
    fn scalar_neg(s: &u64) -> u64 {
        (Q - s) % Q
    }
    fn element_to_bytes(e: &u64) -> Vec<u8> {
        e.to_le_bytes()[..5].to_vec()
    }
    fn bytes_to_element(b: &[u8]) -> Option<u64> {
        let mut x = [0; 8];
        x[..5].copy_from_slice(b.get(..5)?);
        Some(u64::from_le_bytes(x)).filter(|x| *x < Q && b.len() == 5)
    }
    fn element_length() -> usize {
        5
    }
    fn basepoint_mult(s: &u64) -> u64 {
        Self::scalarmult(&12345, s)
    }
    fn scalarmult(e: &u64, s: &u64) -> u64 {
        (*e as u128 * *s as u128 % Q as u128) as u64
    }
    fn add(a: &u64, b: &u64) -> u64 {
        (a + b) % Q
    }
}
fn spake<G: Group>(z: &mut Z, r: &mut R, n: usize, i: u64) {
    let fault = i % 8;
    let (pw, ia, ib) = (r.bytes(n), r.bytes(n), r.bytes(n));
    z.input += 3 * n;
    let pw = z.run(|| Password::new(&pw));
    let (ia, ib) = z.run(|| (Identity::new(&ia), Identity::new(&ib)));
    let mut seeds = (R(r.u64()), R(r.u64()));
    let ((a, ma), (b, mb)) = if i / 8 % 2 == 0 {
        (z.run(|| Spake2::<G>::start_a_with_rng(&pw, &ia, &ib, &mut seeds.0)), z.run(|| Spake2::<G>::start_b_with_rng(&pw, &ia, &ib, &mut seeds.1)))
    } else {
        (z.run(|| Spake2::<G>::start_symmetric_with_rng(&pw, &ia, &mut seeds.0)), z.run(|| Spake2::<G>::start_symmetric_with_rng(&pw, &ia, &mut seeds.1)))
    };
    let bad = match fault {
        1 => r.bytes(n),
        2 => vec![],
        3 => [&mb[..1], &[0xff; 64][..mb.len() - 1]].concat(),
        4 => [b"?", &mb[1..]].concat(),
        5 => ma.clone(),
        6 => {
            // written into a buffer on the stack: what is printed is n bytes and more
            z.run(|| format!("{a:?}").len());
            return;
        }
        7 => return,
        _ => mb.clone(),
    };
    z.input += bad.len();
    let ka = z.run(|| a.finish(&bad));
    let kb = z.run(|| b.finish(&ma));
    if fault == 0 {
        assert!(ka.unwrap() == kb.unwrap());
    }
}
fn spake_system(z: &mut Z, r: &mut R, n: usize, i: u64) {
    let (pw, ia, ib) = (Password::new(r.bytes(n)), Identity::new(&r.bytes(n)), Identity::new(&r.bytes(n)));
    z.input += 3 * n;
    let ((a, ma), (b, mb)) = if i % 2 == 0 {
        (z.run(|| Spake2::<Ed25519Group>::start_a(&pw, &ia, &ib)), z.run(|| Spake2::<Ed25519Group>::start_b(&pw, &ia, &ib)))
    } else {
        (z.run(|| Spake2::<Ed25519Group>::start_symmetric(&pw, &ia)), z.run(|| Spake2::<Ed25519Group>::start_symmetric(&pw, &ia)))
    };
    assert!(z.run(|| a.finish(&mb)).unwrap() == z.run(|| b.finish(&ma)).unwrap());
}

// ---------------------------------------------------------------- AuCPace
type Cl = AuCPaceClient<Sha512, H, R, 16>;
type Se = AuCPaceServer<Sha512, R, 16>;
const BUF: usize = 1 << 18;
/// variants: 0 plain, 1 partial, 2 strong, 3 both
fn auc(z: &mut Z, r: &mut R, n: usize, i: u64, var: usize, heap: bool) {
    let (name, pw, ci) = (r.bytes(n), r.bytes(n), r.bytes(n));
    let ssid = r.bytes(n.max(if i % 16 == 9 { 0 } else { 16 }));
    z.input += 4 * n;
    let fault = i % 16;
    let strong = var >= 2;
    let mut db = Db { known: fault != 1, ..Db::default() };
    let seeds = [r.u64(), r.u64()];
    let mut cl = z.quiet("AuCPaceClient::new", || Cl::new(R(seeds[0])));
    let mut se = z.quiet("AuCPaceServer::new", || Se::new(R(seeds[1])));
    // registration
    let h = H(0);
    let m = match (strong, heap) {
        (false, true) => z.run(|| cl.register_alloc(&name, &pw, P, h)),
        (true, true) => z.run(|| cl.register_alloc_strong(&name, &pw, P, h)),
        (false, false) => z.quiet("register", || cl.register::<_, BUF>(&name, &pw, P, h)),
        (true, false) => z.quiet("register_strong", || cl.register_strong::<_, BUF>(&name, &pw, P, h)),
    };
    match m {
        Ok(ClientMessage::Registration { username, salt, params, verifier }) => db.store_verifier(username, salt, None, verifier, params),
        Ok(ClientMessage::StrongRegistration { username, secret_exponent, params, verifier }) => db.store_verifier_strong(username, None, verifier, secret_exponent, params),
        _ => panic!("registration"),
    }
    if var % 2 == 1 {
        let (x, p) = z.quiet("generate_long_term_keypair", || se.generate_long_term_keypair());
        db.store_long_term_keypair(&name, x, p).unwrap();
    }
    if fault == 15 && !heap {
        let long = if strong { z.quiet("register_strong", || cl.register_strong::<_, 0>(&name, &pw, P, h).is_err()) } else { z.quiet("register", || cl.register::<_, 0>(&name, &pw, P, h).is_err()) };
        assert!(long);
        return;
    }
    if fault == 2 {
        // refused by the hasher, or for what it returns
        let h = H(1 + (i / 16 % 3) as u8);
        let bad = match (strong, heap) {
            (false, true) => z.run(|| cl.register_alloc(&name, &pw, P, h).is_err()),
            (true, true) => z.run(|| cl.register_alloc_strong(&name, &pw, P, h).is_err()),
            (false, false) => z.quiet("register", || cl.register::<_, BUF>(&name, &pw, P, h).is_err()),
            (true, false) => z.quiet("register_strong", || cl.register_strong::<_, BUF>(&name, &pw, P, h).is_err()),
        };
        assert!(bad);
        return;
    }
    let (c, s) = if i / 16 % 2 == 0 {
        let (c, m1) = z.quiet("AuCPaceClient::begin", || cl.begin());
        let (s, m2) = z.quiet("AuCPaceServer::begin", || se.begin());
        let (ClientMessage::Nonce(t), ServerMessage::Nonce(u)) = (m1, m2) else { panic!() };
        (z.quiet("agree_ssid", || c.agree_ssid(u)), z.quiet("agree_ssid", || s.agree_ssid(t)))
    } else {
        let c = z.quiet("begin_prestablished_ssid", || cl.begin_prestablished_ssid(&ssid));
        let s = z.quiet("begin_prestablished_ssid", || se.begin_prestablished_ssid(&ssid));
        match (c, s) {
            (Ok(c), Ok(s)) => (c, s),
            _ => return,
        }
    };
    if fault == 3 {
        return;
    }
    let used: &[u8] = if fault == 4 { b"wrong" } else { &pw };
    let mut fresh = (R(r.u64()), R(r.u64()));
    let (s, c) = if strong {
        let (c, m) = z.quiet("start_augmentation_strong", || c.start_augmentation_strong(&name, used, &mut fresh.0));
        let ClientMessage::StrongUsername { username, blinded } = m else { panic!() };
        let blinded = if fault == 5 { Pt::identity() } else { blinded };
        let m = if var == 3 {
            z.quiet("generate_client_info_partial_strong", || s.generate_client_info_partial_strong(username, blinded, &db, &mut fresh.1))
        } else {
            z.quiet("generate_client_info_strong", || s.generate_client_info_strong(username, blinded, &db, &mut fresh.1))
        };
        let Ok((s, ServerMessage::StrongAugmentationInfo { x_pub, blinded_salt, .. })) = m else { return };
        let (x_pub, blinded_salt) = match fault {
            6 => (Pt::identity(), blinded_salt),
            7 => (x_pub, Pt::identity()),
            _ => (x_pub, blinded_salt),
        };
        let h = H(if fault == 8 { 1 + (i / 16 % 3) as u8 } else { 0 });
        let c = if heap { z.run(|| c.generate_cpace_alloc(x_pub, blinded_salt, P, h)) } else { if fault == 14 { z.quiet("generate_cpace", || c.generate_cpace::<0>(x_pub, blinded_salt, P, h)) } else { z.quiet("generate_cpace", || c.generate_cpace::<BUF>(x_pub, blinded_salt, P, h)) } };
        let Ok(c) = c else { return };
        (s, c)
    } else {
        let (c, m) = z.quiet("start_augmentation", || c.start_augmentation(&name, used));
        let ClientMessage::Username(username) = m else { panic!() };
        let (s, m) = if var == 1 {
            z.quiet("generate_client_info_partial_aug", || s.generate_client_info_partial_aug(username, &db, &mut fresh.1))
        } else {
            z.quiet("generate_client_info", || s.generate_client_info(username, &db, &mut fresh.1))
        };
        let ServerMessage::AugmentationInfo { x_pub, salt, .. } = m else { panic!() };
        let x_pub = if fault == 6 { Pt::identity() } else { x_pub };
        let h = H(if fault == 8 { 1 + (i / 16 % 3) as u8 } else { 0 });
        let c = if heap { z.run(|| c.generate_cpace_alloc(x_pub, &salt, P, h)) } else { if fault == 14 { z.quiet("generate_cpace", || c.generate_cpace::<_, 0>(x_pub, &salt, P, h)) } else { z.quiet("generate_cpace", || c.generate_cpace::<_, BUF>(x_pub, &salt, P, h)) } };
        let Ok(c) = c else { return };
        (s, c)
    };
    if fault == 10 {
        return;
    }
    let (c, m1) = z.quiet("client's generate_public_key", || c.generate_public_key(&ci, &mut fresh.0));
    let (s, m2) = z.quiet("server's generate_public_key", || s.generate_public_key(&ci));
    let (ClientMessage::PublicKey(pc), ServerMessage::PublicKey(ps)) = (m1, m2) else { panic!() };
    let (pc, ps) = if fault == 11 { (Pt::identity(), Pt::identity()) } else { (pc, ps) };
    if i / 32 % 2 == 0 {
        let a = z.quiet("client's implicit_auth", || c.implicit_auth(ps));
        let b = z.quiet("server's implicit_auth", || s.implicit_auth(pc));
        if fault == 0 {
            assert!(a.unwrap_or_else(|_| panic!()) == b.unwrap_or_else(|_| panic!()));
        }
        return;
    }
    let c = z.quiet("receive_server_pubkey", || c.receive_server_pubkey(ps));
    let s = z.quiet("receive_client_pubkey", || s.receive_client_pubkey(pc));
    let (Ok((c, m)), Ok(s)) = (c, s) else { return };
    let ClientMessage::Authenticator(t) = m else { panic!() };
    let t = if fault == 12 { [1; 64] } else { t };
    let Ok((k, m)) = z.quiet("receive_client_authenticator", || s.receive_client_authenticator(t)) else { return };
    let ServerMessage::Authenticator(t) = m else { panic!() };
    let t = if fault == 13 { [1; 64] } else { t };
    let l = z.quiet("receive_server_authenticator", || c.receive_server_authenticator(t));
    if fault == 0 {
        assert!(l.unwrap_or_else(|_| panic!()) == k);
    }
}
// ---------------------------------------------------------------- messages over the wire
fn wire(z: &mut Z, r: &mut R, n: usize, i: u64, card: bool) {
    let name = r.bytes(n);
    z.input += n + 300;
    let text = "g".repeat(n);
    let mut out = vec![0u8; n + 700];
    let (client, m): (Option<ClientMessage<'_, 16>>, Option<ServerMessage<'_, 16>>) = match i % 12 {
        0 => (Some(ClientMessage::Nonce(r.arr())), None),
        1 => (Some(ClientMessage::Username(&name)), None),
        2 => (Some(ClientMessage::PublicKey(r.point())), None),
        3 => (Some(ClientMessage::Authenticator(r.arr())), None),
        4 => (Some(ClientMessage::Registration { username: &name, salt: r.salt(), params: "l=9".parse().unwrap(), verifier: r.point() }), None),
        5 => (Some(ClientMessage::StrongUsername { username: &name, blinded: r.point() }), None),
        6 => (Some(ClientMessage::StrongRegistration { username: &name, secret_exponent: r.scalar(), params: "l=9".parse().unwrap(), verifier: r.point() }), None),
        7 => (None, Some(ServerMessage::Nonce(r.arr()))),
        8 => (None, Some(ServerMessage::AugmentationInfo { group: &text, x_pub: r.point(), salt: r.salt(), pbkdf_params: "l=9".parse().unwrap() })),
        9 => (None, Some(ServerMessage::PublicKey(r.point()))),
        10 => (None, Some(ServerMessage::Authenticator(r.arr()))),
        _ => (None, Some(ServerMessage::StrongAugmentationInfo { group: &text, x_pub: r.point(), blinded_salt: r.point(), pbkdf_params: "l=9".parse().unwrap() })),
    };
    let mut enc = if card {
        let e = z.quiet("encoding with postcard", || match (&client, &m) {
            (Some(m), _) => postcard::to_slice(m, &mut out).map(|e| e.len()),
            (_, Some(m)) => postcard::to_slice(m, &mut out).map(|e| e.len()),
            _ => unreachable!(),
        });
        out[..e.unwrap()].to_vec()
    } else {
        z.run(|| match (&client, &m) {
            (Some(m), _) => bincode::serialize(m),
            (_, Some(m)) => bincode::serialize(m),
            _ => unreachable!(),
        })
        .unwrap()
    };
    let ok = i / 12 % 4 == 0;
    match i / 12 % 4 {
        1 => {
            let k = r.below(enc.len());
            enc.truncate(k);
        }
        2 => {
            let k = r.below(enc.len().min(60));
            enc[k] ^= r.u64() as u8;
        }
        3 => {
            // a length nobody can hold
            let k = if card { 1 } else { 4 };
            enc.truncate(k);
            enc.extend_from_slice(if card { &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f] } else { &[0xff, 0xff, 0xff, 0xff, 0xff, 0x7f, 0, 0] });
            enc.extend(r.bytes(n));
        }
        _ => (),
    }
    let done = if card {
        z.quiet("decoding with postcard", || {
            if client.is_some() {
                postcard::from_bytes::<ClientMessage<'_, 16>>(&enc).map(|m| drop(black_box(m))).is_ok()
            } else {
                postcard::from_bytes::<ServerMessage<'_, 16>>(&enc).map(|m| drop(black_box(m))).is_ok()
            }
        })
    } else {
        z.run(|| {
            if client.is_some() {
                bincode::deserialize::<ClientMessage<'_, 16>>(&enc).map(|m| drop(black_box(m))).is_ok()
            } else {
                bincode::deserialize::<ServerMessage<'_, 16>>(&enc).map(|m| drop(black_box(m))).is_ok()
            }
        })
    };
    assert!(done || !ok);
}

// ---------------------------------------------------------------- operations and their measurement
type Op = Box<dyn Fn(&mut Z, &mut R, usize, u64)>;
/// name, operation, faults to measure sizes with, largest input
fn ops() -> Vec<(String, Op, u64, usize)> {
    let mut o: Vec<(String, Op, u64, usize)> = vec![
        ("srp/sha256".into(), Box::new(srp::<Sha256>), 8, 1 << 20),
        ("srp/sha1".into(), Box::new(srp::<sha1::Sha1>), 8, 1 << 20),
        ("spake2/ed25519".into(), Box::new(spake::<Ed25519Group>), 16, 1 << 20),
        ("spake2/own-group".into(), Box::new(spake::<Sum>), 16, 1 << 20),
        ("spake2/system-randomness".into(), Box::new(spake_system), 2, 1 << 20),
    ];
    for (v, name) in ["plain", "partial", "strong", "partial-strong"].into_iter().enumerate() {
        for heap in [true, false] {
            // name, colon and password fit into the buffer
            o.push((format!("aucpace/{name}/{}", if heap { "heap" } else { "buffer" }), Box::new(move |z, r, n, i| auc(z, r, n, i, v, heap)), 48, if heap { 1 << 20 } else { BUF / 4 }));
        }
    }
    o.push(("wire/bincode".into(), Box::new(|z, r, n, i| wire(z, r, n, i, false)), 48, 1 << 20));
    o.push(("wire/postcard".into(), Box::new(|z, r, n, i| wire(z, r, n, i, true)), 48, 1 << 20));
    o
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"")
}
struct Rep {
    viol: Vec<String>,
    counts: Vec<(String, u64)>,
    samples: Vec<String>,
}
fn main() {
    // the buffers are large, and the calls copy them
    std::thread::Builder::new().stack_size(256 << 20).spawn(work).unwrap().join().unwrap_or_else(|_| std::process::exit(101));
}
fn work() {
    let a: Vec<String> = std::env::args().collect();
    let all = ops();
    if a[1] == "list" {
        for o in &all {
            println!("{}", o.0);
        }
        return;
    }
    let (name, op, faults, max) = all.into_iter().find(|o| o.0 == a[2]).expect("operation");
    let seed: u64 = a[3].parse().unwrap();
    let key = seed ^ u64::from_le_bytes(Sha256::digest(&name)[..8].try_into().unwrap());
    let mut rep = Rep { viol: vec![], counts: vec![], samples: vec![] };
    if a[1] == "keep" {
        let n: u64 = a[4].parse().unwrap();
        let at = [n / 16, n / 4, n];
        let mut seen: Vec<(usize, usize)> = Vec::with_capacity(3);
        let mut z = Z::default();
        for i in 0..n {
            let mut r = R(key.wrapping_mul(31).wrapping_add(i));
            // most inputs short, a few of every size
            let len = match i % 61 {
                7 => 300 + r.below(2000),
                20 if i % 5 == 0 => max.min(70_000),
                // not below what a session id needs, so that all get through
                _ => r.below(60),
            };
            op(&mut z, &mut r, len, i);
            if at.contains(&(i + 1)) {
                seen.push((LIVE.load(Relaxed), BLOCKS.load(Relaxed)));
            }
            if let Some((what, k)) = z.noisy.take() {
                rep.viol.push(format!("{what} allocated {k} times in {name} (use {i}, inputs of about {len} bytes); it must do without the heap"));
                break;
            }
        }
        if let [s0, s1, s2] = seen[..] {
            for (what, x0, x1, x2) in [("bytes", s0.0, s1.0, s2.0), ("blocks", s0.1, s1.1, s2.1)] {
                if x1 > x0 && x2 > x1 {
                    rep.viol.push(format!("{name} leaves memory behind: {x0} live {what} after {} uses, {x1} after {}, {x2} after {n}", at[0], at[1]));
                }
            }
            rep.samples.push(format!("{name}: {} bytes in {} blocks live after {} uses, {} in {} after {n}", s0.0, s0.1, at[0], s2.0, s2.1));
        }
        rep.counts.push(("uses of operations".into(), n));
        rep.counts.push(("calls measured".into(), z.zones));
        rep.counts.push(("calls that must not allocate".into(), z.quiet));
    } else {
        let (base, factor) = (1usize << 18, 12usize);
        let mut calls = 0;
        for i in 0..faults {
            let mut last: Vec<(usize, u64)> = vec![];
            let mut n = 1 << 10;
            while n <= max {
                println!("at {name} variant {i} with inputs of {n} bytes");
                let mut ns = u64::MAX;
                let mut peak = 0;
                let mut input = 0;
                // repeated only while too slow for linear work
                for k in 0..6 {
                    let mut z = Z::default();
                    op(&mut z, &mut R(key ^ n as u64), n, i);
                    (ns, peak, input) = (ns.min(z.ns), z.peak, z.input);
                    calls += z.zones;
                    if let Some((what, k)) = z.noisy {
                        rep.viol.push(format!("{what} allocated {k} times in {name} (variant {i}, inputs of {n} bytes); it must do without the heap"));
                    }
                    if k >= 1 && last.iter().all(|(m, t)| *m * 16 != n || ns <= 40 * t + 2_000_000) {
                        break;
                    }
                }
                if peak > base + factor * input {
                    rep.viol.push(format!("a call in {name} (variant {i}) uses {peak} bytes of memory for {input} bytes of input"));
                }
                for (m, t) in &last {
                    if *m * 16 == n && ns > 40 * t + 2_000_000 {
                        rep.viol.push(format!("{name} (variant {i}) works {t} ns on inputs of {m} bytes and {ns} ns on {n} bytes, more than in proportion"));
                    }
                }
                if !rep.viol.is_empty() {
                    break;
                }
                last.push((n, ns));
                rep.counts.push((format!("largest peak of one call, {name}"), peak as u64));
                if n == max && i % 16 == 0 {
                    rep.samples.push(format!("{name}, variant {i}, {input} bytes of input: peak {peak} bytes, {ns} ns (inputs of {} bytes: {} ns)", last[0].0, last[0].1));
                }
                n *= 4;
            }
        }
        rep.counts.push(("calls measured at growing sizes".into(), calls));
    }
    let mut counts: std::collections::BTreeMap<String, u64> = Default::default();
    for (k, v) in rep.counts {
        let e = counts.entry(k.clone()).or_default();
        *e = if k.starts_with("largest") { (*e).max(v) } else { *e + v };
    }
    let q = |v: &[String]| v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",");
    println!("{{\"viol\":[{}],\"samples\":[{}],\"counts\":{{{}}}}}", q(&rep.viol), q(&rep.samples), counts.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect::<Vec<_>>().join(","));
}
