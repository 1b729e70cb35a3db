//! C30: one operation per process, on secrets that arrive on stdin. The monitor
//! outside compares the instructions and memory addresses of processes that
//! differ in nothing but those secrets; with "tainted" the secrets are marked
//! undefined for memcheck, which then reports every branch or address that
//! depends on them.
use aucpace::{AuCPaceClient, AuCPaceServer, ClientMessage, Database, PartialAugDatabase, ServerMessage, StrongDatabase};
use curve25519_dalek::{ristretto::RistrettoPoint as Pt, scalar::Scalar};
use password_hash::{Decimal, Ident, Output, ParamsString, PasswordHash, PasswordHasher, Salt, SaltString};
use rand_core::{CryptoRng, RngCore};
use sha2::{Digest, Sha512};
use std::hint::black_box;
use std::io::{Read, Write};

// ---------------------------------------------------------------- talking to valgrind
#[cfg(target_arch = "x86_64")]
fn request(code: u64, at: *const u8, len: usize) {
    let args = [code, at as u64, len as u64, 0, 0, 0];
    unsafe {
        std::arch::asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") &args, inout("rdx") 0u64 => _, options(nostack));
    }
}
#[cfg(not(target_arch = "x86_64"))]
fn request(_: u64, _: *const u8, _: usize) {}
/// a page at an address the monitor knows: a write to it separates the setting
/// up of the process, which the environment may change, from the operation
#[cfg(target_arch = "x86_64")]
fn mark_page() -> *mut u8 {
    let r: usize;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") 9usize => r, in("rdi") 0x3_0000_0000usize, in("rsi") 4096, in("rdx") 3,
            in("r10") 0x32, in("r8") usize::MAX, in("r9") 0, out("rcx") _, out("r11") _);
    }
    assert_eq!(r, 0x3_0000_0000);
    r as *mut u8
}
#[cfg(not(target_arch = "x86_64"))]
fn mark_page() -> *mut u8 {
    Box::leak(Box::new(0))
}
#[inline(never)]
fn mark(p: *mut u8, n: usize) {
    unsafe { p.add(n).write_volatile(1) };
}
fn hide(b: &[u8]) {
    request(0x4d43_0001, b.as_ptr(), b.len());
}
fn show(b: &[u8]) {
    request(0x4d43_0002, b.as_ptr(), b.len());
}

/// bytes handed out in order
#[derive(Clone)]
struct Rng {
    buf: [u8; 512],
    at: usize,
}
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        dest.copy_from_slice(&self.buf[self.at..self.at + dest.len()]);
        self.at += dest.len();
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Rng {}
/// `n` derived from a label: the public values of a run
fn public(label: &str) -> [u8; 64] {
    Sha512::digest(label).into()
}
fn public_rng(label: &str) -> Rng {
    let mut buf = [0; 512];
    for i in 0..8 {
        buf[i * 64..][..64].copy_from_slice(&public(&format!("{label}{i}")));
    }
    Rng { buf, at: 0 }
}

#[derive(Clone, Debug, Default)]
struct P;
impl<'a> TryFrom<&'a PasswordHash<'a>> for P {
    type Error = password_hash::Error;
    fn try_from(_: &'a PasswordHash<'a>) -> Result<Self, Self::Error> {
        Ok(P)
    }
}
impl TryFrom<P> for ParamsString {
    type Error = password_hash::Error;
    fn try_from(_: P) -> Result<Self, Self::Error> {
        Ok(ParamsString::new())
    }
}
/// a hasher of so many bytes of output
#[derive(Clone, Copy)]
struct H(usize);
impl PasswordHasher for H {
    type Params = P;
    fn hash_password_customized<'a>(&self, password: &[u8], _: Option<Ident<'a>>, _: Option<Decimal>, _: P, salt: impl Into<Salt<'a>>) -> password_hash::Result<PasswordHash<'a>> {
        let salt = salt.into();
        let h = Sha512::new().chain_update(password).chain_update([0]).chain_update(salt.as_str()).finalize();
        Ok(PasswordHash { algorithm: Ident::new("p").unwrap(), version: None, params: ParamsString::new(), salt: Some(salt), hash: Some(Output::new(&h[..self.0])?) })
    }
}
/// a database that answers with what it is given, whatever the name
struct Db {
    v: Option<Pt>,
    q: Scalar,
    x: Scalar,
    salt: SaltString,
}
impl Database for Db {
    type PasswordVerifier = Pt;
    fn lookup_verifier(&self, _: &[u8]) -> Option<(Pt, SaltString, ParamsString)> {
        self.v.map(|v| (v, self.salt.clone(), ParamsString::new()))
    }
    fn store_verifier(&mut self, _: &[u8], _: SaltString, _: Option<&[u8]>, _: Pt, _: ParamsString) {}
}
impl PartialAugDatabase for Db {
    type PrivateKey = Scalar;
    type PublicKey = Pt;
    fn lookup_long_term_keypair(&self, _: &[u8]) -> Option<(Scalar, Pt)> {
        self.v.map(|_| (self.x, Pt::mul_base(&self.x)))
    }
    fn store_long_term_keypair(&mut self, _: &[u8], _: Scalar, _: Pt) -> aucpace::Result<()> {
        Ok(())
    }
}
impl StrongDatabase for Db {
    type PasswordVerifier = Pt;
    type Exponent = Scalar;
    fn lookup_verifier_strong(&self, _: &[u8]) -> Option<(Pt, Scalar, ParamsString)> {
        self.v.map(|v| (v, self.q, ParamsString::new()))
    }
    fn store_verifier_strong(&mut self, _: &[u8], _: Option<&[u8]>, _: Pt, _: Scalar, _: ParamsString) {}
}

type Cl = AuCPaceClient<Sha512, H, Rng, 16>;
type Se = AuCPaceServer<Sha512, Rng, 16>;
const ID: [u8; 24] = [7; 24];

/// what the operation gave away: tells the monitor that the secrets mattered
struct Out(Vec<u8>);
impl Out {
    fn put(&mut self, b: &[u8]) {
        show(b);
        self.0.extend_from_slice(b);
    }
    fn point(&mut self, p: &Pt) {
        self.put(&p.compress().0);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (what, step) = a[1].split_once('/').unwrap();
    let tainted = a[2] == "tainted";
    let mut secret = [0u8; 512 + 64];
    std::io::stdin().read_exact(&mut secret).unwrap();
    let (pw, bytes) = secret.split_at(64);
    let pw: [u8; 64] = pw.try_into().unwrap();
    let pw = black_box(&pw[..24]);
    let mut rng = Rng { buf: bytes.try_into().unwrap(), at: 0 };
    // what is secret in which operation
    if tainted {
        hide(pw);
        hide(&rng.buf);
    }
    let h = H(if step == "buffer" { 32 } else { 64 });
    let page = mark_page();
    let mut out = Out(Vec::with_capacity(1024));
    mark(page, 0);
    match what {
        "register" => {
            // the salt is public: it comes first out of the generator
            let mut cl = Cl::new(public_rng("salt"));
            let m = match step {
                "buffer" => cl.register::<_, 64>(b"user", pw, P, h),
                _ => cl.register_alloc(b"user", pw, P, h),
            };
            let Ok(ClientMessage::Registration { verifier, .. }) = m else { panic!() };
            out.point(&verifier);
        }
        "client" => {
            let mut cl = Cl::new(public_rng("client"));
            let c = cl.begin_prestablished_ssid(ID).unwrap();
            let (c, _) = c.start_augmentation(b"user", pw);
            let x = Pt::from_uniform_bytes(&public("x"));
            let salt = SaltString::encode_b64(&public("salt")[..16]).unwrap();
            let c = match step {
                "buffer" => c.generate_cpace::<_, 64>(x, &salt, P, h),
                _ => c.generate_cpace_alloc(x, &salt, P, h),
            };
            let Ok(c) = c else { panic!() };
            let (c, m) = c.generate_public_key(b"ci", &mut rng);
            let ClientMessage::PublicKey(p) = m else { panic!() };
            out.point(&p);
            let peer = Pt::from_uniform_bytes(&public("peer"));
            match step {
                "implicit" => out.put(&c.implicit_auth(peer).unwrap_or_else(|_| panic!())),
                _ => {
                    let Ok((c, m)) = c.receive_server_pubkey(peer) else { panic!() };
                    let ClientMessage::Authenticator(t) = m else { panic!() };
                    out.put(&t);
                    if step == "auth" {
                        out.0.push(c.receive_server_authenticator(public("authenticator")).is_ok() as u8);
                    }
                }
            }
        }
        "blind" => {
            let mut cl = Cl::new(public_rng("client"));
            let c = cl.begin_prestablished_ssid(ID).unwrap();
            let (c, m) = c.start_augmentation_strong(b"user", pw, &mut rng);
            let ClientMessage::StrongUsername { blinded, .. } = m else { panic!() };
            let b = blinded.compress();
            out.put(&b.0);
            if step == "unblind" {
                let blinded = b.decompress().unwrap();
                let q = Scalar::from_bytes_mod_order_wide(&public("q"));
                // the salt depends on the password, and password_hash looks at its
                // characters: here only the generator's bytes differ
                let Ok(c) = c.generate_cpace_alloc(Pt::from_uniform_bytes(&public("x")), blinded * q, P, h) else { panic!() };
                let (_, m) = c.generate_public_key(b"ci", &mut rng);
                let ClientMessage::PublicKey(p) = m else { panic!() };
                out.point(&p);
            }
        }
        "server" | "server-partial" | "server-strong" | "server-partial-strong" | "server-unknown" => {
            // the verifier and the exponent come from the secret bytes too
            let mut wide = || {
                let mut b = [0; 64];
                rng.fill_bytes(&mut b);
                Scalar::from_bytes_mod_order_wide(&b)
            };
            let (v, q, x) = (Pt::mul_base(&wide()), wide(), wide());
            let db = Db { v: (what != "server-unknown").then_some(v), q, x, salt: SaltString::encode_b64(&public("salt")[..16]).unwrap() };
            let mut own = Rng { buf: rng.buf, at: 0 };
            own.buf.rotate_left(200);
            let mut se = Se::new(own);
            let s = se.begin_prestablished_ssid(ID).unwrap();
            let u = Pt::from_uniform_bytes(&public("blinded"));
            let (s, m) = match what {
                "server" | "server-unknown" => s.generate_client_info(b"user", &db, rng),
                "server-partial" => s.generate_client_info_partial_aug(b"user", &db, rng),
                "server-strong" => s.generate_client_info_strong(b"user", u, &db, rng).unwrap_or_else(|_| panic!()),
                _ => s.generate_client_info_partial_strong(b"user", u, &db, rng).unwrap_or_else(|_| panic!()),
            };
            match m {
                ServerMessage::AugmentationInfo { x_pub, .. } => out.point(&x_pub),
                ServerMessage::StrongAugmentationInfo { x_pub, blinded_salt, .. } => {
                    out.point(&x_pub);
                    out.point(&blinded_salt);
                }
                _ => panic!(),
            }
            let (s, m) = s.generate_public_key(b"ci");
            let ServerMessage::PublicKey(p) = m else { panic!() };
            out.point(&p);
            let peer = Pt::from_uniform_bytes(&public("peer"));
            match step {
                "implicit" => out.put(&s.implicit_auth(peer).unwrap_or_else(|_| panic!())),
                _ => {
                    let Ok(s) = s.receive_client_pubkey(peer) else { panic!() };
                    out.0.push(s.receive_client_authenticator(public("authenticator")).is_ok() as u8);
                }
            }
        }
        _ => panic!("{what}"),
    }
    mark(page, 1);
    let d = Sha512::digest(&out.0);
    let mut line = Vec::new();
    for b in &d[..16] {
        for n in [b >> 4, b & 15] {
            line.push(b'a' + n);
        }
    }
    line.push(b'\n');
    std::io::stdout().write_all(&line).unwrap();
}
