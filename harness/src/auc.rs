//! AuCPace workload machinery: instrumented hasher and database, wire-level drivers of the real
//! client and server, and independently written reference peers.
use crate::core::*;
use crate::toys::Twist512;
use aucpace::client::*;
use aucpace::server::*;
use aucpace::{AuCPaceClient, AuCPaceServer, ClientMessage, Database, PartialAugDatabase, ServerMessage, StrongDatabase};
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as BASE;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint as Pt};
use curve25519_dalek::scalar::Scalar;
use digest::consts::U64;
use digest::Digest;
use password_hash::{Decimal, Ident, Output as PhOutput, ParamsString, PasswordHash, PasswordHasher, Salt, SaltString};
use rand_core::RngCore;
use sha2::Sha512;
use std::sync::OnceLock;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, RwLock};

pub type AErr = aucpace::Error;

// ------------------------------------------------------------------ hash functions
pub trait Dg: Digest<OutputSize = U64> + Default + Clone + Send + Sync + 'static {
    const NAME: &'static str;
}
impl Dg for Sha512 {
    const NAME: &'static str = "Sha512";
}
impl Dg for Twist512 {
    const NAME: &'static str = "Twist512";
}
pub fn hh<D: Dg>(parts: &[&[u8]]) -> [u8; 64] {
    let mut d = <D as Digest>::new();
    for p in parts {
        d.update(p);
    }
    let mut o = [0; 64];
    o.copy_from_slice(&d.finalize());
    o
}
/// H0..H5 of the protocol table
pub fn hn<D: Dg>(n: u32, parts: &[&[u8]]) -> [u8; 64] {
    let pre = [n as u8, 0, 0, 0];
    let mut v: Vec<&[u8]> = vec![&pre];
    v.extend_from_slice(parts);
    hh::<D>(&v)
}
pub fn rand_scalar(r: &mut Prng) -> Scalar {
    Scalar::from_bytes_mod_order_wide(&r.arr())
}
pub fn rand_point(r: &mut Prng) -> Pt {
    BASE * rand_scalar(r)
}

// ------------------------------------------------------------------ instrumented password hasher
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    None,
    /// hash absent
    Absent,
    /// hasher returns this error
    Err(u8),
    /// params cannot be turned into a ParamsString
    ParamsErr,
}
pub fn ph_err(k: u8) -> password_hash::Error {
    use password_hash::Error as E;
    match k % 7 {
        0 => E::Algorithm,
        1 => E::Crypto,
        2 => E::ParamNameDuplicated,
        3 => E::ParamsMaxExceeded,
        4 => E::Password,
        5 => E::PhcStringField,
        _ => E::Version,
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MonParams {
    pub cost: u32,
    pub tag: u32,
    pub out: usize,
    pub fault: Fault,
}
impl Default for MonParams {
    fn default() -> Self {
        MonParams { cost: 1, tag: 0, out: 32, fault: Fault::None }
    }
}
impl<'a> TryFrom<&'a PasswordHash<'a>> for MonParams {
    type Error = password_hash::Error;
    fn try_from(_: &'a PasswordHash<'a>) -> Result<Self, Self::Error> {
        Ok(Self::default())
    }
}
impl TryFrom<MonParams> for ParamsString {
    type Error = password_hash::Error;
    fn try_from(p: MonParams) -> Result<ParamsString, Self::Error> {
        if p.fault == Fault::ParamsErr {
            return Err(password_hash::Error::ParamsMaxExceeded);
        }
        let mut s = ParamsString::new();
        s.add_decimal("c", p.cost)?;
        s.add_decimal("t", p.tag)?;
        s.add_decimal("o", p.out as u32)?;
        Ok(s)
    }
}
impl MonParams {
    pub fn from_wire(p: &ParamsString) -> Self {
        MonParams {
            cost: p.get_decimal("c").unwrap_or(1),
            tag: p.get_decimal("t").unwrap_or(0),
            out: p.get_decimal("o").unwrap_or(32) as usize,
            fault: Fault::None,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct HashCall {
    pub input: Vec<u8>,
    pub salt: String,
    pub params: MonParams,
    pub alg: Option<String>,
    pub version: Option<u32>,
}
/// records what it is asked to hash
#[derive(Clone, Default)]
pub struct MonHasher {
    pub rec: Option<Arc<Mutex<Vec<HashCall>>>>,
}
/// the hash this hasher computes, as the reference peer computes it
pub fn mon_hash(input: &[u8], salt: &str, p: &MonParams) -> Vec<u8> {
    let mut v = hh::<Sha512>(&[b"mon", &p.cost.to_le_bytes(), &p.tag.to_le_bytes(), &(salt.len() as u32).to_le_bytes(), salt.as_bytes(), input]).to_vec();
    v.truncate(p.out.min(64));
    v
}
impl PasswordHasher for MonHasher {
    type Params = MonParams;
    fn hash_password_customized<'a>(
        &self,
        password: &[u8],
        algorithm: Option<Ident<'a>>,
        version: Option<Decimal>,
        params: MonParams,
        salt: impl Into<Salt<'a>>,
    ) -> Result<PasswordHash<'a>, password_hash::Error> {
        let salt: Salt<'a> = salt.into();
        if let Some(r) = &self.rec {
            r.lock().unwrap().push(HashCall {
                input: password.to_vec(),
                salt: salt.as_str().to_string(),
                params: params.clone(),
                alg: algorithm.map(|a| a.to_string()),
                version,
            });
        }
        if let Fault::Err(k) = params.fault {
            return Err(ph_err(k));
        }
        let hash = if params.fault == Fault::Absent { None } else { Some(PhOutput::new(&mon_hash(password, salt.as_str(), &params))?) };
        Ok(PasswordHash { algorithm: Ident::new("mon").unwrap(), version: None, params: ParamsString::new(), salt: Some(salt), hash })
    }
}

// ------------------------------------------------------------------ hashers the peers are generic over
/// A password hasher together with what the reference needs to know about it
pub trait Hs: PasswordHasher + Clone + Send + Sync + 'static {
    fn make(rec: Option<Arc<Mutex<Vec<HashCall>>>>) -> Self;
    fn params(p: &MonParams) -> Self::Params;
    fn reference(input: &[u8], salt: &str, p: &MonParams) -> Vec<u8>;
    fn wire_params(p: &ParamsString) -> MonParams;
}
impl Hs for MonHasher {
    fn make(rec: Option<Arc<Mutex<Vec<HashCall>>>>) -> Self {
        MonHasher { rec }
    }
    fn params(p: &MonParams) -> MonParams {
        p.clone()
    }
    fn reference(input: &[u8], salt: &str, p: &MonParams) -> Vec<u8> {
        mon_hash(input, salt, p)
    }
    fn wire_params(p: &ParamsString) -> MonParams {
        MonParams::from_wire(p)
    }
}
impl Hs for scrypt::Scrypt {
    fn make(_: Option<Arc<Mutex<Vec<HashCall>>>>) -> Self {
        scrypt::Scrypt
    }
    fn params(p: &MonParams) -> scrypt::Params {
        scrypt::Params::new(1 + (p.cost % 3) as u8, 1 + p.tag % 2, 1, p.out).unwrap()
    }
    fn reference(input: &[u8], salt: &str, p: &MonParams) -> Vec<u8> {
        let mut buf = [0u8; 64];
        let s = SaltString::from_b64(salt).unwrap();
        let raw = s.decode_b64(&mut buf).unwrap();
        let mut out = vec![0; p.out];
        scrypt::scrypt(input, raw, &scrypt::Params::new(1 + (p.cost % 3) as u8, 1 + p.tag % 2, 1, 32).unwrap(), &mut out).unwrap();
        out
    }
    fn wire_params(p: &ParamsString) -> MonParams {
        // ln, r, p on the wire
        MonParams {
            cost: p.get_decimal("ln").map(|l| l.wrapping_sub(1)).unwrap_or(1),
            tag: p.get_decimal("r").map(|r| r.wrapping_sub(1)).unwrap_or(0),
            out: 32,
            fault: Fault::None,
        }
    }
}

// ------------------------------------------------------------------ databases
#[derive(Clone)]
pub struct Rec {
    pub verifier: Pt,
    pub salt: SaltString,
    pub params: ParamsString,
}
#[derive(Clone)]
pub struct StrongRec {
    pub verifier: Pt,
    pub q: Scalar,
    pub params: ParamsString,
}
#[derive(Default)]
pub struct MonDb {
    pub plain: HashMap<Vec<u8>, Rec>,
    pub strong: HashMap<Vec<u8>, StrongRec>,
    pub keys: HashMap<Vec<u8>, (Scalar, Pt)>,
    pub lookups: RwLock<Vec<Vec<u8>>>,
    pub log: bool,
}
impl MonDb {
    fn note(&self, u: &[u8]) {
        if self.log {
            self.lookups.write().unwrap().push(u.to_vec());
        }
    }
}
impl Database for MonDb {
    type PasswordVerifier = Pt;
    fn lookup_verifier(&self, u: &[u8]) -> Option<(Pt, SaltString, ParamsString)> {
        self.note(u);
        self.plain.get(u).map(|r| (r.verifier, r.salt.clone(), r.params.clone()))
    }
    fn store_verifier(&mut self, u: &[u8], salt: SaltString, _: Option<&[u8]>, verifier: Pt, params: ParamsString) {
        self.plain.insert(u.to_vec(), Rec { verifier, salt, params });
    }
}
impl PartialAugDatabase for MonDb {
    type PrivateKey = Scalar;
    type PublicKey = Pt;
    fn lookup_long_term_keypair(&self, u: &[u8]) -> Option<(Scalar, Pt)> {
        self.note(u);
        self.keys.get(u).copied()
    }
    fn store_long_term_keypair(&mut self, u: &[u8], s: Scalar, p: Pt) -> aucpace::Result<()> {
        self.keys.insert(u.to_vec(), (s, p));
        Ok(())
    }
}
impl StrongDatabase for MonDb {
    type PasswordVerifier = Pt;
    type Exponent = Scalar;
    fn lookup_verifier_strong(&self, u: &[u8]) -> Option<(Pt, Scalar, ParamsString)> {
        self.note(u);
        self.strong.get(u).map(|r| (r.verifier, r.q, r.params.clone()))
    }
    fn store_verifier_strong(&mut self, u: &[u8], _: Option<&[u8]>, verifier: Pt, q: Scalar, params: ParamsString) {
        self.strong.insert(u.to_vec(), StrongRec { verifier, q, params });
    }
}

// ------------------------------------------------------------------ wire values
#[derive(Clone, Debug, PartialEq)]
pub enum SaltMsg {
    Plain(SaltString),
    Blinded(Pt),
}
impl SaltMsg {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            SaltMsg::Plain(s) => s.as_str().as_bytes().to_vec(),
            SaltMsg::Blinded(p) => p.compress().to_bytes().to_vec(),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Aug {
    pub group: String,
    pub x_pub: Pt,
    pub salt: SaltMsg,
    pub params: ParamsString,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Reg {
    Plain { username: Vec<u8>, salt: SaltString, params: ParamsString, verifier: Pt },
    Strong { username: Vec<u8>, q: Scalar, params: ParamsString, verifier: Pt },
}
impl Reg {
    pub fn store(self, db: &mut MonDb) {
        match self {
            Reg::Plain { username, salt, params, verifier } => db.store_verifier(&username, salt, None, verifier, params),
            Reg::Strong { username, q, params, verifier } => db.store_verifier_strong(&username, None, verifier, q, params),
        }
    }
}
/// how messages travel
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Wire {
    Direct,
    Bincode,
    Postcard,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Variant {
    pub partial: bool,
    pub strong: bool,
}
pub const VARIANTS: [Variant; 4] = [
    Variant { partial: false, strong: false },
    Variant { partial: true, strong: false },
    Variant { partial: false, strong: true },
    Variant { partial: true, strong: true },
];
/// None: heap form; Some(i): fixed buffer of BUFS[i] bytes
pub const BUFS: [usize; 7] = [1, 2, 16, 33, 100, 256, 1200];
/// one more size, for lengths that 16 bits do not hold
pub const WIDE: usize = 7;
pub fn buf_size(i: usize) -> usize {
    if i == WIDE { 70_000 } else { BUFS[i] }
}
#[macro_export]
macro_rules! with_buf {
    ($i:expr, $B:ident => $body:expr) => {
        match $i {
            0 => { const $B: usize = 1; $body }
            1 => { const $B: usize = 2; $body }
            2 => { const $B: usize = 16; $body }
            3 => { const $B: usize = 33; $body }
            4 => { const $B: usize = 100; $body }
            5 => { const $B: usize = 256; $body }
            7 => { const $B: usize = 70_000; $body }
            _ => { const $B: usize = 1200; $body }
        }
    };
}

pub fn to_bin<T: serde::Serialize>(w: Wire, m: &T) -> Vec<u8> {
    match w {
        Wire::Bincode => bincode::serialize(m).expect("serialize"),
        _ => {
            for size in [2048, 1 << 19] {
                let mut buf = vec![0u8; size];
                match postcard::to_slice(m, &mut buf) {
                    Err(postcard::Error::SerializeBufferFull) => {}
                    r => return r.expect("serialize").to_vec(),
                }
            }
            panic!("a message of more than 512 KiB")
        }
    }
}
pub fn client_from<const K1: usize>(w: Wire, b: &[u8]) -> Result<ClientMessage<'_, K1>, String> {
    match w {
        Wire::Bincode => bincode::deserialize(b).map_err(|e| e.to_string()),
        _ => postcard::from_bytes(b).map_err(|e| e.to_string()),
    }
}
pub fn server_from<const K1: usize>(w: Wire, b: &[u8]) -> Result<ServerMessage<'_, K1>, String> {
    match w {
        Wire::Bincode => bincode::deserialize(b).map_err(|e| e.to_string()),
        _ => postcard::from_bytes(b).map_err(|e| e.to_string()),
    }
}
/// plain images of the message enums
#[derive(Clone, Debug, PartialEq)]
pub enum CMsg {
    Nonce(Vec<u8>),
    User(Vec<u8>),
    StrongUser(Vec<u8>, Pt),
    Key(Pt),
    Auth([u8; 64]),
    Reg(Reg),
}
#[derive(Clone, Debug, PartialEq)]
pub enum SMsg {
    Nonce(Vec<u8>),
    Aug(Aug),
    Key(Pt),
    Auth([u8; 64]),
}
pub fn cimg<const K1: usize>(m: &ClientMessage<'_, K1>) -> CMsg {
    match m {
        ClientMessage::Nonce(n) => CMsg::Nonce(n.to_vec()),
        ClientMessage::Username(u) => CMsg::User(u.to_vec()),
        ClientMessage::StrongUsername { username, blinded } => CMsg::StrongUser(username.to_vec(), *blinded),
        ClientMessage::PublicKey(p) => CMsg::Key(*p),
        ClientMessage::Authenticator(a) => CMsg::Auth(*a),
        ClientMessage::Registration { username, salt, params, verifier } => {
            CMsg::Reg(Reg::Plain { username: username.to_vec(), salt: salt.clone(), params: params.clone(), verifier: *verifier })
        }
        ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => {
            CMsg::Reg(Reg::Strong { username: username.to_vec(), q: *secret_exponent, params: params.clone(), verifier: *verifier })
        }
    }
}
pub fn simg<const K1: usize>(m: &ServerMessage<'_, K1>) -> SMsg {
    match m {
        ServerMessage::Nonce(n) => SMsg::Nonce(n.to_vec()),
        ServerMessage::AugmentationInfo { group, x_pub, salt, pbkdf_params } => {
            SMsg::Aug(Aug { group: group.to_string(), x_pub: *x_pub, salt: SaltMsg::Plain(salt.clone()), params: pbkdf_params.clone() })
        }
        ServerMessage::StrongAugmentationInfo { group, x_pub, blinded_salt, pbkdf_params } => {
            SMsg::Aug(Aug { group: group.to_string(), x_pub: *x_pub, salt: SaltMsg::Blinded(*blinded_salt), params: pbkdf_params.clone() })
        }
        ServerMessage::PublicKey(p) => SMsg::Key(*p),
        ServerMessage::Authenticator(a) => SMsg::Auth(*a),
    }
}
/// what arrives after the message travelled in the given form
pub fn csend<const K1: usize>(w: Wire, m: ClientMessage<'_, K1>) -> CMsg {
    if w == Wire::Direct {
        return cimg(&m);
    }
    let b = sut(|| to_bin(w, &m));
    let r = sut(|| client_from::<K1>(w, &b).map(|m| cimg(&m)));
    r.unwrap_or_else(|e| sut(|| panic!("message does not deserialize: {e}: {}", hex(&b))))
}
pub fn ssend<const K1: usize>(w: Wire, m: ServerMessage<'_, K1>) -> SMsg {
    if w == Wire::Direct {
        return simg(&m);
    }
    let b = sut(|| to_bin(w, &m));
    let r = sut(|| server_from::<K1>(w, &b).map(|m| simg(&m)));
    r.unwrap_or_else(|e| sut(|| panic!("message does not deserialize: {e}: {}", hex(&b))))
}

// ------------------------------------------------------------------ peers
pub trait ClientPeer<'a> {
    fn nonce(&mut self) -> Vec<u8>;
    fn agree(&mut self, server_nonce: &[u8]);
    fn preset(&mut self, ssid: &[u8]) -> Result<(), AErr>;
    /// username and, in the strong variant, the blinded point
    fn start(&mut self) -> (Vec<u8>, Option<Pt>);
    fn aug(&mut self, a: &Aug) -> Result<(), AErr>;
    fn public_key(&mut self, ci: &[u8]) -> Pt;
    fn recv_key(&mut self, k: Pt) -> Result<[u8; 64], AErr>;
    fn implicit(&mut self, k: Pt) -> Result<Vec<u8>, AErr>;
    fn recv_auth(&mut self, a: [u8; 64]) -> Result<Vec<u8>, AErr>;
}
pub trait ServerPeer {
    fn nonce(&mut self) -> Vec<u8>;
    fn agree(&mut self, client_nonce: &[u8]);
    fn preset(&mut self, ssid: &[u8]) -> Result<(), AErr>;
    fn info(&mut self, user: &[u8], blinded: Option<Pt>, db: &MonDb) -> Result<Aug, AErr>;
    fn public_key(&mut self, ci: &[u8]) -> Pt;
    fn recv_key(&mut self, k: Pt) -> Result<(), AErr>;
    fn implicit(&mut self, k: Pt) -> Result<Vec<u8>, AErr>;
    fn recv_auth(&mut self, a: [u8; 64]) -> Result<(Vec<u8>, [u8; 64]), AErr>;
}

fn protocol_bug<T>(what: &str, got: String) -> T {
    sut(|| panic!("unexpected message at {what}: {got}"))
}
fn arr<const N: usize>(b: &[u8]) -> [u8; N] {
    b.try_into().expect("nonce length")
}

pub struct RealClient<'a, D: Dg, H: Hs, const K1: usize> {
    c: Arc<Mutex<AuCPaceClient<D, H, LogRng, K1>>>,
    pub rng: LogRng,
    pub rec: Option<Arc<Mutex<Vec<HashCall>>>>,
    user: &'a [u8],
    pass: &'a [u8],
    slot: &'a OnceLock<SaltString>,
    strong: bool,
    buf: Option<usize>,
    wire: Wire,
    /// parameters to use instead of those on the wire
    pub force: Option<MonParams>,
    out: usize,
    s0: Option<AuCPaceClientSsidEstablish<D, H, K1>>,
    pre: Option<AuCPaceClientPreAug<D, H, K1>>,
    aug: Option<AuCPaceClientAugLayer<'a, D, H, K1>>,
    saug: Option<StrongAuCPaceClientAugLayer<'a, D, H, K1>>,
    sub: Option<AuCPaceClientCPaceSubstep<D, K1>>,
    rk: Option<AuCPaceClientRecvServerKey<D, K1>>,
    mu: Option<AuCPaceClientExpMutAuth<D, K1>>,
}
impl<'a, D: Dg, H: Hs, const K1: usize> RealClient<'a, D, H, K1> {
    #[allow(clippy::too_many_arguments)]
    fn new(dev: Arc<Mutex<AuCPaceClient<D, H, LogRng, K1>>>, rng: LogRng, user: &'a [u8], pass: &'a [u8], slot: &'a OnceLock<SaltString>, strong: bool, buf: Option<usize>, wire: Wire, out: usize, rec: Option<Arc<Mutex<Vec<HashCall>>>>) -> Self {
        RealClient {
            c: dev, rng, rec, user, pass, slot, strong, buf, wire, force: None, out,
            s0: None, pre: None, aug: None, saug: None, sub: None, rk: None, mu: None,
        }
    }
}
/// registration through the real client
#[allow(clippy::too_many_arguments)]
fn real_register<D: Dg, H: Hs, const K1: usize>(
    c: &mut AuCPaceClient<D, H, LogRng, K1>, user: &[u8], pass: &[u8], p: &MonParams, strong: bool, buf: Option<usize>, wire: Wire, rec: Recorder,
) -> Result<Reg, AErr> {
    let h = H::make(rec);
    let hp = H::params(p);
    let r = sut(|| match (strong, buf) {
        (false, None) => c.register_alloc(user, pass, hp, h),
        (true, None) => c.register_alloc_strong(user, pass, hp, h),
        (false, Some(i)) => with_buf!(i, B => c.register::<&[u8], B>(user, pass, hp, h)),
        (true, Some(i)) => with_buf!(i, B => c.register_strong::<&[u8], B>(user, pass, hp, h)),
    });
    match csend(wire, r?) {
        CMsg::Reg(r) => Ok(r),
        o => protocol_bug("registration", format!("{o:?}")),
    }
}
impl<'a, D: Dg, H: Hs, const K1: usize> ClientPeer<'a> for RealClient<'a, D, H, K1> {
    fn nonce(&mut self) -> Vec<u8> {
        let mut dev = self.c.lock().unwrap();
        let (s, m) = sut(|| dev.begin());
        self.s0 = Some(s);
        match csend(self.wire, m) {
            CMsg::Nonce(n) => n,
            o => protocol_bug("nonce", format!("{o:?}")),
        }
    }
    fn agree(&mut self, n: &[u8]) {
        let s = self.s0.take().unwrap();
        self.pre = Some(sut(|| s.agree_ssid(arr(n))));
    }
    fn preset(&mut self, ssid: &[u8]) -> Result<(), AErr> {
        self.pre = Some(sut(|| self.c.lock().unwrap().begin_prestablished_ssid(ssid))?);
        Ok(())
    }
    fn start(&mut self) -> (Vec<u8>, Option<Pt>) {
        let p = self.pre.take().unwrap();
        let m = if self.strong {
            let (s, m) = sut(|| p.start_augmentation_strong(self.user, self.pass, &mut self.rng));
            self.saug = Some(s);
            m
        } else {
            let (s, m) = sut(|| p.start_augmentation(self.user, self.pass));
            self.aug = Some(s);
            m
        };
        match csend(self.wire, m) {
            CMsg::User(u) if !self.strong => (u, None),
            CMsg::StrongUser(u, b) if self.strong => (u, Some(b)),
            o => protocol_bug("start", format!("{o:?}")),
        }
    }
    fn aug(&mut self, a: &Aug) -> Result<(), AErr> {
        let mut p = self.force.clone().unwrap_or_else(|| H::wire_params(&a.params));
        if self.force.is_none() && a.params.is_empty() {
            p.out = self.out;
        }
        if std::any::TypeId::of::<H>() == std::any::TypeId::of::<scrypt::Scrypt>() {
            p.out = self.out;
        }
        let hp = H::params(&p);
        let h = H::make(self.rec.clone());
        self.sub = Some(match &a.salt {
            SaltMsg::Plain(s) => {
                let _ = self.slot.set(s.clone());
                let salt: &'a SaltString = self.slot.get().unwrap();
                let st = self.aug.take().expect("plain salt for a strong client");
                sut(|| match self.buf {
                    None => st.generate_cpace_alloc(a.x_pub, salt, hp, h),
                    Some(i) => with_buf!(i, B => st.generate_cpace::<'a, &SaltString, B>(a.x_pub, salt, hp, h)),
                })?
            }
            SaltMsg::Blinded(b) => {
                let st = self.saug.take().expect("blinded salt for a plain client");
                sut(|| match self.buf {
                    None => st.generate_cpace_alloc(a.x_pub, *b, hp, h),
                    Some(i) => with_buf!(i, B => st.generate_cpace::<B>(a.x_pub, *b, hp, h)),
                })?
            }
        });
        Ok(())
    }
    fn public_key(&mut self, ci: &[u8]) -> Pt {
        let s = self.sub.take().unwrap();
        let (n, m) = sut(|| s.generate_public_key(ci, &mut self.rng));
        self.rk = Some(n);
        match csend(self.wire, m) {
            CMsg::Key(p) => p,
            o => protocol_bug("client public key", format!("{o:?}")),
        }
    }
    fn recv_key(&mut self, k: Pt) -> Result<[u8; 64], AErr> {
        let s = self.rk.take().unwrap();
        let (n, m) = sut(|| s.receive_server_pubkey(k))?;
        self.mu = Some(n);
        match csend(self.wire, m) {
            CMsg::Auth(a) => Ok(a),
            o => protocol_bug("client authenticator", format!("{o:?}")),
        }
    }
    fn implicit(&mut self, k: Pt) -> Result<Vec<u8>, AErr> {
        let s = self.rk.take().unwrap();
        sut(|| s.implicit_auth(k)).map(|k| k.to_vec())
    }
    fn recv_auth(&mut self, a: [u8; 64]) -> Result<Vec<u8>, AErr> {
        let s = self.mu.take().unwrap();
        sut(|| s.receive_server_authenticator(a)).map(|k| k.to_vec())
    }
}

/// the long-lived server object, shared by its sessions
pub struct RealServerHost<D: Dg, const K1: usize> {
    pub s: Arc<Mutex<AuCPaceServer<D, LogRng, K1>>>,
}
impl<D: Dg, const K1: usize> RealServerHost<D, K1> {
    pub fn new(rng: LogRng) -> Self {
        RealServerHost { s: Arc::new(Mutex::new(sut(|| AuCPaceServer::new(rng)))) }
    }
}
pub struct RealServer<D: Dg, const K1: usize> {
    host: Arc<Mutex<AuCPaceServer<D, LogRng, K1>>>,
    variant: Variant,
    wire: Wire,
    rng: LogRng,
    s0: Option<AuCPaceServerSsidEstablish<D, K1>>,
    aug: Option<AuCPaceServerAugLayer<D, K1>>,
    sub: Option<AuCPaceServerCPaceSubstep<D, LogRng, K1>>,
    rk: Option<AuCPaceServerRecvClientKey<D, K1>>,
    mu: Option<AuCPaceServerExpMutAuth<D, K1>>,
}
impl<D: Dg, const K1: usize> ServerPeer for RealServer<D, K1> {
    fn nonce(&mut self) -> Vec<u8> {
        let (s, m) = sut(|| self.host.lock().unwrap().begin());
        self.s0 = Some(s);
        match ssend(self.wire, m) {
            SMsg::Nonce(n) => n,
            o => protocol_bug("server nonce", format!("{o:?}")),
        }
    }
    fn agree(&mut self, n: &[u8]) {
        let s = self.s0.take().unwrap();
        self.aug = Some(sut(|| s.agree_ssid(arr(n))));
    }
    fn preset(&mut self, ssid: &[u8]) -> Result<(), AErr> {
        self.aug = Some(sut(|| self.host.lock().unwrap().begin_prestablished_ssid(ssid))?);
        Ok(())
    }
    fn info(&mut self, user: &[u8], blinded: Option<Pt>, db: &MonDb) -> Result<Aug, AErr> {
        let s = self.aug.take().unwrap();
        let rng = self.rng.clone();
        let (n, m) = match (self.variant.strong, self.variant.partial) {
            (false, false) => sut(|| s.generate_client_info(user, db, rng)),
            (false, true) => sut(|| s.generate_client_info_partial_aug(user, db, rng)),
            (true, false) => sut(|| s.generate_client_info_strong(user, blinded.unwrap(), db, rng))?,
            (true, true) => sut(|| s.generate_client_info_partial_strong(user, blinded.unwrap(), db, rng))?,
        };
        self.sub = Some(n);
        match ssend(self.wire, m) {
            SMsg::Aug(a) => {
                if matches!(a.salt, SaltMsg::Blinded(_)) != self.variant.strong {
                    protocol_bug("server info", format!("{a:?}"))
                } else {
                    Ok(a)
                }
            }
            o => protocol_bug("server info", format!("{o:?}")),
        }
    }
    fn public_key(&mut self, ci: &[u8]) -> Pt {
        let s = self.sub.take().unwrap();
        let (n, m) = sut(|| s.generate_public_key(ci));
        self.rk = Some(n);
        match ssend(self.wire, m) {
            SMsg::Key(p) => p,
            o => protocol_bug("server public key", format!("{o:?}")),
        }
    }
    fn recv_key(&mut self, k: Pt) -> Result<(), AErr> {
        let s = self.rk.take().unwrap();
        self.mu = Some(sut(|| s.receive_client_pubkey(k))?);
        Ok(())
    }
    fn implicit(&mut self, k: Pt) -> Result<Vec<u8>, AErr> {
        let s = self.rk.take().unwrap();
        sut(|| s.implicit_auth(k)).map(|k| k.to_vec())
    }
    fn recv_auth(&mut self, a: [u8; 64]) -> Result<(Vec<u8>, [u8; 64]), AErr> {
        let s = self.mu.take().unwrap();
        let (k, m) = sut(|| s.receive_client_authenticator(a))?;
        match ssend(self.wire, m) {
            SMsg::Auth(a) => Ok((k.to_vec(), a)),
            o => protocol_bug("server authenticator", format!("{o:?}")),
        }
    }
}

// ------------------------------------------------------------------ reference peers
pub fn ref_w(hash: &[u8]) -> Scalar {
    // little-endian integer modulo the group order
    if hash.len() == 32 {
        let mut w = [0u8; 64];
        w[..32].copy_from_slice(hash);
        Scalar::from_bytes_mod_order_wide(&w)
    } else {
        Scalar::from_bytes_mod_order_wide(hash.try_into().unwrap())
    }
}
pub fn ref_z<D: Dg>(user: &[u8], pass: &[u8]) -> Pt {
    Pt::from_uniform_bytes(&hn::<D>(1, &[user, pass]))
}
pub fn user_pass(user: &[u8], pass: &[u8]) -> Vec<u8> {
    [user, b":", pass].concat()
}
pub struct RefCommon<D: Dg> {
    ssid: [u8; 64],
    prs: [u8; 32],
    y: Scalar,
    sk1: [u8; 64],
    d: std::marker::PhantomData<D>,
}
impl<D: Dg> RefCommon<D> {
    fn new() -> Self {
        RefCommon { ssid: [0; 64], prs: [0; 32], y: Scalar::ZERO, sk1: [0; 64], d: std::marker::PhantomData }
    }
    fn key(&mut self, ci: &[u8], r: &mut Prng) -> Pt {
        let g = Pt::from_uniform_bytes(&hn::<D>(1, &[&self.ssid, &self.prs, ci]));
        self.y = rand_scalar(r);
        g * self.y
    }
    fn shared(&mut self, k: Pt) {
        self.sk1 = hn::<D>(2, &[&self.ssid, (k * self.y).compress().as_bytes()]);
    }
    fn ta(&self) -> [u8; 64] {
        hn::<D>(3, &[&self.ssid, &self.sk1])
    }
    fn tb(&self) -> [u8; 64] {
        hn::<D>(4, &[&self.ssid, &self.sk1])
    }
    fn sk(&self) -> Vec<u8> {
        hn::<D>(5, &[&self.ssid, &self.sk1]).to_vec()
    }
}
fn ident(p: &Pt) -> bool {
    p.compress().to_bytes() == [0; 32]
}
#[derive(Clone)]
pub enum Known {
    W(Scalar),
    Prs([u8; 32]),
}
pub struct RefClient<'a, D: Dg, H: Hs, const K1: usize> {
    r: Prng,
    user: &'a [u8],
    pass: &'a [u8],
    strong: bool,
    out: usize,
    nonce: Vec<u8>,
    blind: Scalar,
    /// an attacker's guess of the password related string instead of a password
    pub guess: Option<usize>,
    /// what a record's owner knows, instead of a password
    pub known: Option<Known>,
    c: RefCommon<D>,
    h: std::marker::PhantomData<H>,
}
impl<'a, D: Dg, H: Hs, const K1: usize> RefClient<'a, D, H, K1> {
    pub fn new(seed: u64, user: &'a [u8], pass: &'a [u8], strong: bool, out: usize) -> Self {
        RefClient { r: Prng::new(seed ^ 0xC11E27), user, pass, strong, out, nonce: vec![], blind: Scalar::ONE, guess: None, known: None, c: RefCommon::new(), h: std::marker::PhantomData }
    }
}
pub fn ref_register<D: Dg, H: Hs>(seed: u64, user: &[u8], pass: &[u8], p: &MonParams, strong: bool) -> Reg {
    let mut r = Prng::new(seed ^ 0x2E6);
    let params: ParamsString = match H::params(p).try_into() {
        Ok(s) => s,
        Err(_) => panic!("params"),
    };
    let up = user_pass(user, pass);
    if strong {
        let q = rand_scalar(&mut r);
        let salt = b64((ref_z::<D>(user, pass) * q).compress().as_bytes());
        let w = ref_w(&H::reference(&up, &salt, p));
        Reg::Strong { username: user.to_vec(), q, params, verifier: BASE * w }
    } else {
        let salt = b64(&r.bytes(16));
        let w = ref_w(&H::reference(&up, &salt, p));
        Reg::Plain { username: user.to_vec(), salt: SaltString::from_b64(&salt).unwrap(), params, verifier: BASE * w }
    }
}
impl<'a, D: Dg, H: Hs, const K1: usize> ClientPeer<'a> for RefClient<'a, D, H, K1> {
    fn nonce(&mut self) -> Vec<u8> {
        self.nonce = self.r.bytes(K1);
        self.nonce.clone()
    }
    fn agree(&mut self, s: &[u8]) {
        self.c.ssid = hn::<D>(0, &[s, &self.nonce]);
    }
    fn preset(&mut self, ssid: &[u8]) -> Result<(), AErr> {
        self.c.ssid = hn::<D>(0, &[ssid]);
        Ok(())
    }
    fn start(&mut self) -> (Vec<u8>, Option<Pt>) {
        if self.strong {
            self.blind = rand_scalar(&mut self.r);
            (self.user.to_vec(), Some(ref_z::<D>(self.user, self.pass) * self.blind))
        } else {
            (self.user.to_vec(), None)
        }
    }
    fn aug(&mut self, a: &Aug) -> Result<(), AErr> {
        if ident(&a.x_pub) {
            return Err(AErr::IllegalPointError);
        }
        let salt = match &a.salt {
            SaltMsg::Plain(s) => s.as_str().to_string(),
            SaltMsg::Blinded(p) => b64((p * self.blind.invert()).compress().as_bytes()),
        };
        if let Some(g) = self.guess {
            self.c.prs = guess_prs::<D>(g, a, self.user, self.pass, &self.c.ssid);
            return Ok(());
        }
        match &self.known {
            Some(Known::W(w)) => {
                self.c.prs = (a.x_pub * w).compress().to_bytes();
                return Ok(());
            }
            Some(Known::Prs(p)) => {
                self.c.prs = *p;
                return Ok(());
            }
            None => {}
        }
        let mut p = H::wire_params(&a.params);
        if a.params.is_empty() || std::any::TypeId::of::<H>() == std::any::TypeId::of::<scrypt::Scrypt>() {
            p.out = self.out;
        }
        let w = ref_w(&H::reference(&user_pass(self.user, self.pass), &salt, &p));
        self.c.prs = (a.x_pub * w).compress().to_bytes();
        Ok(())
    }
    fn public_key(&mut self, ci: &[u8]) -> Pt {
        self.c.key(ci, &mut self.r)
    }
    fn recv_key(&mut self, k: Pt) -> Result<[u8; 64], AErr> {
        if ident(&k) {
            return Err(AErr::IllegalPointError);
        }
        self.c.shared(k);
        Ok(self.c.tb())
    }
    fn implicit(&mut self, k: Pt) -> Result<Vec<u8>, AErr> {
        self.recv_key(k)?;
        Ok(self.c.sk())
    }
    fn recv_auth(&mut self, a: [u8; 64]) -> Result<Vec<u8>, AErr> {
        if a == self.c.ta() {
            Ok(self.c.sk())
        } else {
            Err(AErr::MutualAuthFail)
        }
    }
}
pub const N_GUESS: usize = 12;
/// password related strings an attacker could try without knowing a password
fn guess_prs<D: Dg>(g: usize, a: &Aug, user: &[u8], pass: &[u8], ssid: &[u8; 64]) -> [u8; 32] {
    let cut = |v: &[u8]| {
        let mut o = [0u8; 32];
        let n = v.len().min(32);
        o[..n].copy_from_slice(&v[..n]);
        o
    };
    match g {
        0 => [0; 32],
        1 => [0xff; 32],
        2 => pt_bytes(&a.x_pub),
        3 => pt_bytes(&BASE),
        4 => cut(ssid),
        5 => cut(&a.salt.bytes()),
        6 => cut(user),
        7 => cut(&hh::<D>(&[user])),
        8 => cut(pass),
        9 => cut(&hh::<D>(&[&user_pass(user, pass)])),
        10 => cut(&hn::<D>(1, &[user, pass])),
        _ => [1; 32],
    }
}
pub struct RefServer<D: Dg, const K1: usize> {
    r: Prng,
    variant: Variant,
    nonce: Vec<u8>,
    c: RefCommon<D>,
}
impl<D: Dg, const K1: usize> RefServer<D, K1> {
    pub fn new(seed: u64, variant: Variant) -> Self {
        RefServer { r: Prng::new(seed ^ 0x5E27E2), variant, nonce: vec![], c: RefCommon::new() }
    }
}
impl<D: Dg, const K1: usize> ServerPeer for RefServer<D, K1> {
    fn nonce(&mut self) -> Vec<u8> {
        self.nonce = self.r.bytes(K1);
        self.nonce.clone()
    }
    fn agree(&mut self, t: &[u8]) {
        self.c.ssid = hn::<D>(0, &[&self.nonce, t]);
    }
    fn preset(&mut self, ssid: &[u8]) -> Result<(), AErr> {
        self.c.ssid = hn::<D>(0, &[ssid]);
        Ok(())
    }
    fn info(&mut self, user: &[u8], blinded: Option<Pt>, db: &MonDb) -> Result<Aug, AErr> {
        let (x, x_pub) = if self.variant.partial {
            *db.keys.get(user).expect("registered users only")
        } else {
            let x = rand_scalar(&mut self.r);
            (x, BASE * x)
        };
        let group = "ristretto255".to_string();
        if self.variant.strong {
            let r = db.strong.get(user).expect("registered users only");
            self.c.prs = (r.verifier * x).compress().to_bytes();
            Ok(Aug { group, x_pub, salt: SaltMsg::Blinded(blinded.unwrap() * r.q), params: r.params.clone() })
        } else {
            let r = db.plain.get(user).expect("registered users only");
            self.c.prs = (r.verifier * x).compress().to_bytes();
            Ok(Aug { group, x_pub, salt: SaltMsg::Plain(r.salt.clone()), params: r.params.clone() })
        }
    }
    fn public_key(&mut self, ci: &[u8]) -> Pt {
        self.c.key(ci, &mut self.r)
    }
    fn recv_key(&mut self, k: Pt) -> Result<(), AErr> {
        if ident(&k) {
            return Err(AErr::IllegalPointError);
        }
        self.c.shared(k);
        Ok(())
    }
    fn implicit(&mut self, k: Pt) -> Result<Vec<u8>, AErr> {
        self.recv_key(k)?;
        Ok(self.c.sk())
    }
    fn recv_auth(&mut self, a: [u8; 64]) -> Result<(Vec<u8>, [u8; 64]), AErr> {
        if a == self.c.tb() {
            Ok((self.c.sk(), self.c.ta()))
        } else {
            Err(AErr::MutualAuthFail)
        }
    }
}

pub fn pt_bytes(p: &Pt) -> [u8; 32] {
    p.compress().to_bytes()
}
#[allow(dead_code)]
pub fn pt_from(b: [u8; 32]) -> Option<Pt> {
    CompressedRistretto(b).decompress()
}
#[allow(dead_code)]
pub fn skip(rng: &mut LogRng, n: usize) {
    let mut v = vec![0; n];
    rng.fill_bytes(&mut v);
}

// ------------------------------------------------------------------ a session over an interceptable channel
/// what may sit between the two parties
#[derive(Clone, Debug, Default)]
pub struct Transcript {
    pub cn: Vec<u8>,
    pub sn: Vec<u8>,
    pub user: Vec<u8>,
    pub blinded: Option<Pt>,
    pub aug: Option<Aug>,
    pub cpk: Option<Pt>,
    pub spk: Option<Pt>,
    pub tb: Option<[u8; 64]>,
    pub ta: Option<[u8; 64]>,
}
impl Transcript {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        v.extend(&self.cn);
        v.extend(&self.sn);
        v.extend(&self.user);
        if let Some(b) = &self.blinded {
            v.extend(pt_bytes(b));
        }
        if let Some(a) = &self.aug {
            v.extend(pt_bytes(&a.x_pub));
            v.extend(a.salt.bytes());
            v.extend(a.params.as_str().as_bytes());
        }
        for p in [&self.cpk, &self.spk].into_iter().flatten() {
            v.extend(pt_bytes(p));
        }
        for a in [&self.tb, &self.ta].into_iter().flatten() {
            v.extend(a);
        }
        v
    }
}
pub trait Channel {
    fn client_nonce(&mut self, _: &mut Vec<u8>) {}
    fn server_nonce(&mut self, _: &mut Vec<u8>) {}
    fn user(&mut self, _: &mut Vec<u8>, _: &mut Option<Pt>) {}
    fn aug(&mut self, _: &mut Aug) {}
    fn client_key(&mut self, _: &mut Pt, _server_key: &Pt) {}
    fn server_key(&mut self, _: &mut Pt, _client_key: &Pt) {}
    fn tb(&mut self, _: &mut [u8; 64]) {}
    fn ta(&mut self, _: &mut [u8; 64]) {}
}
pub struct Honest;
impl Channel for Honest {}

#[derive(Clone, Debug)]
pub enum Ssid {
    Negotiated,
    /// client's, server's
    Preset(Vec<u8>, Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct SessCfg {
    pub ssid: Ssid,
    pub implicit: bool,
    pub ci_c: Vec<u8>,
    pub ci_s: Vec<u8>,
}
#[derive(Debug, Default)]
pub struct Outcome {
    pub tr: Transcript,
    pub client: Option<Result<Vec<u8>, AErr>>,
    pub server: Option<Result<Vec<u8>, AErr>>,
}
impl Outcome {
    pub fn ck(&self) -> Option<&Vec<u8>> {
        self.client.as_ref().and_then(|r| r.as_ref().ok())
    }
    pub fn sk(&self) -> Option<&Vec<u8>> {
        self.server.as_ref().and_then(|r| r.as_ref().ok())
    }
}
/// Runs one session; a party that fails stops, the other one gets what an attacker could give it
/// (`ch.ta` is asked for a server authenticator when the server refused).
pub fn run<'a>(cfg: &SessCfg, c: &mut dyn ClientPeer<'a>, s: &mut dyn ServerPeer, db: &MonDb, ch: &mut dyn Channel) -> Outcome {
    let mut o = Outcome::default();
    match &cfg.ssid {
        Ssid::Negotiated => {
            let (mut cn, mut sn) = (c.nonce(), s.nonce());
            o.tr.cn = cn.clone();
            o.tr.sn = sn.clone();
            ch.client_nonce(&mut cn);
            ch.server_nonce(&mut sn);
            c.agree(&sn);
            s.agree(&cn);
        }
        Ssid::Preset(a, b) => {
            if let Err(e) = c.preset(a) {
                o.client = Some(Err(e));
            }
            if let Err(e) = s.preset(b) {
                o.server = Some(Err(e));
            }
            if o.client.is_some() || o.server.is_some() {
                return o;
            }
        }
    }
    let (mut user, mut bl) = c.start();
    o.tr.user = user.clone();
    o.tr.blinded = bl;
    ch.user(&mut user, &mut bl);
    let mut aug = match s.info(&user, bl, db) {
        Ok(a) => a,
        Err(e) => {
            o.server = Some(Err(e));
            return o;
        }
    };
    o.tr.aug = Some(aug.clone());
    ch.aug(&mut aug);
    if let Err(e) = c.aug(&aug) {
        o.client = Some(Err(e));
        return o;
    }
    let spk = s.public_key(&cfg.ci_s);
    let cpk = c.public_key(&cfg.ci_c);
    o.tr.cpk = Some(cpk);
    o.tr.spk = Some(spk);
    let (mut spk_d, mut cpk_d) = (spk, cpk);
    ch.client_key(&mut cpk_d, &spk);
    ch.server_key(&mut spk_d, &cpk);
    if cfg.implicit {
        o.client = Some(c.implicit(spk_d));
        o.server = Some(s.implicit(cpk_d));
        return o;
    }
    let tb = c.recv_key(spk_d);
    let sr = s.recv_key(cpk_d);
    let mut ta = [0u8; 64];
    match (&tb, sr) {
        (_, Err(e)) => o.server = Some(Err(e)),
        (Err(_), Ok(())) => {}
        (Ok(tb), Ok(())) => {
            let mut t = *tb;
            o.tr.tb = Some(t);
            ch.tb(&mut t);
            match s.recv_auth(t) {
                Ok((k, a)) => {
                    o.server = Some(Ok(k));
                    ta = a;
                    o.tr.ta = Some(a);
                }
                Err(e) => o.server = Some(Err(e)),
            }
        }
    }
    match tb {
        Err(e) => o.client = Some(Err(e)),
        Ok(own) => {
            o.tr.tb = Some(own);
            ch.ta(&mut ta);
            o.client = Some(c.recv_auth(ta));
        }
    }
    o
}

// ------------------------------------------------------------------ type combinations behind trait objects
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Combo(pub usize);
pub const N_COMBOS: usize = 10;
pub const N_MON: usize = 8; // the first ones use the instrumented hasher
impl Combo {
    pub fn k1(self) -> usize {
        [16, 1, 8, 17, 32, 64, 16, 129, 16, 33][self.0]
    }
    pub fn scrypt(self) -> bool {
        self.0 >= N_MON
    }
    pub fn twist(self) -> bool {
        matches!(self.0, 6 | 7 | 9)
    }
}
macro_rules! with_combo {
    ($c:expr, $D:ident, $H:ident, $K:ident => $body:expr) => {
        match $c.0 {
            0 => { type $D = Sha512; type $H = MonHasher; const $K: usize = 16; $body }
            1 => { type $D = Sha512; type $H = MonHasher; const $K: usize = 1; $body }
            2 => { type $D = Sha512; type $H = MonHasher; const $K: usize = 8; $body }
            3 => { type $D = Sha512; type $H = MonHasher; const $K: usize = 17; $body }
            4 => { type $D = Sha512; type $H = MonHasher; const $K: usize = 32; $body }
            5 => { type $D = Sha512; type $H = MonHasher; const $K: usize = 64; $body }
            6 => { type $D = Twist512; type $H = MonHasher; const $K: usize = 16; $body }
            7 => { type $D = Twist512; type $H = MonHasher; const $K: usize = 129; $body }
            8 => { type $D = Sha512; type $H = scrypt::Scrypt; const $K: usize = 16; $body }
            _ => { type $D = Twist512; type $H = scrypt::Scrypt; const $K: usize = 33; $body }
        }
    };
}
pub trait Host: Send + Sync {
    fn session(&self, variant: Variant, wire: Wire, rng: LogRng) -> Box<dyn ServerPeer + Send>;
    fn keypair(&self) -> (Scalar, Pt);
}
impl<D: Dg, const K1: usize> Host for RealServerHost<D, K1> {
    fn session(&self, variant: Variant, wire: Wire, rng: LogRng) -> Box<dyn ServerPeer + Send> {
        Box::new(RealServer { host: self.s.clone(), variant, wire, rng, s0: None, aug: None, sub: None, rk: None, mu: None })
    }
    fn keypair(&self) -> (Scalar, Pt) {
        sut(|| self.s.lock().unwrap().generate_long_term_keypair())
    }
}
pub type Recorder = Option<Arc<Mutex<Vec<HashCall>>>>;
pub fn mk_host(c: Combo, rng: LogRng) -> Box<dyn Host> {
    with_combo!(c, D, _H, K => Box::new(RealServerHost::<D, K>::new(rng)))
}
pub fn mk_ref_server(c: Combo, seed: u64, v: Variant) -> Box<dyn ServerPeer> {
    with_combo!(c, D, _H, K => Box::new(RefServer::<D, K>::new(seed, v)))
}
pub fn mk_ref_client<'a>(c: Combo, seed: u64, user: &'a [u8], pass: &'a [u8], strong: bool, out: usize) -> Box<dyn ClientPeer<'a> + 'a> {
    with_combo!(c, D, H, K => Box::new(RefClient::<'a, D, H, K>::new(seed, user, pass, strong, out)))
}
pub fn mk_known_client<'a>(c: Combo, seed: u64, user: &'a [u8], strong: bool, known: Known) -> Box<dyn ClientPeer<'a> + 'a> {
    with_combo!(c, D, H, K => {
        let mut k = RefClient::<'a, D, H, K>::new(seed, user, b"", strong, 32);
        k.known = Some(known);
        Box::new(k)
    })
}
pub fn mk_guess_client<'a>(c: Combo, seed: u64, user: &'a [u8], pass: &'a [u8], strong: bool, guess: usize) -> Box<dyn ClientPeer<'a> + 'a> {
    with_combo!(c, D, H, K => {
        let mut k = RefClient::<'a, D, H, K>::new(seed, user, pass, strong, 32);
        k.guess = Some(guess);
        Box::new(k)
    })
}
#[derive(Clone)]
pub struct ClientOpts {
    pub buf: Option<usize>,
    pub wire: Wire,
    pub out: usize,
    pub rec: Recorder,
    pub force: Option<MonParams>,
}
/// a client value shared by its sessions and registrations
pub trait Device: Send + Sync {
    #[allow(clippy::too_many_arguments)]
    fn session<'a>(&self, rng: LogRng, user: &'a [u8], pass: &'a [u8], slot: &'a OnceLock<SaltString>, strong: bool, o: &ClientOpts) -> Box<dyn ClientPeer<'a> + Send + 'a>;
    fn register(&self, user: &[u8], pass: &[u8], p: &MonParams, strong: bool, o: &ClientOpts) -> Result<Reg, AErr>;
}
struct RealDevice<D: Dg, H: Hs, const K1: usize>(Arc<Mutex<AuCPaceClient<D, H, LogRng, K1>>>);
impl<D: Dg, H: Hs, const K1: usize> Device for RealDevice<D, H, K1>
where
    H::Params: Send,
{
    fn session<'a>(&self, rng: LogRng, user: &'a [u8], pass: &'a [u8], slot: &'a OnceLock<SaltString>, strong: bool, o: &ClientOpts) -> Box<dyn ClientPeer<'a> + Send + 'a> {
        let mut k = RealClient::<'a, D, H, K1>::new(self.0.clone(), rng, user, pass, slot, strong, o.buf, o.wire, o.out, o.rec.clone());
        k.force = o.force.clone();
        Box::new(k)
    }
    fn register(&self, user: &[u8], pass: &[u8], p: &MonParams, strong: bool, o: &ClientOpts) -> Result<Reg, AErr> {
        real_register::<D, H, K1>(&mut self.0.lock().unwrap(), user, pass, p, strong, o.buf, o.wire, o.rec.clone())
    }
}
pub fn mk_device(c: Combo, rng: LogRng) -> Box<dyn Device> {
    with_combo!(c, D, H, K => Box::new(RealDevice::<D, H, K>(Arc::new(Mutex::new(sut(|| AuCPaceClient::new(rng)))))))
}
pub fn mk_client<'a>(c: Combo, rng: LogRng, user: &'a [u8], pass: &'a [u8], slot: &'a OnceLock<SaltString>, strong: bool, o: &ClientOpts) -> Box<dyn ClientPeer<'a> + Send + 'a> {
    mk_device(c, rng.clone()).session(rng, user, pass, slot, strong, o)
}
pub fn register(c: Combo, rng: &LogRng, user: &[u8], pass: &[u8], p: &MonParams, strong: bool, o: &ClientOpts) -> Result<Reg, AErr> {
    mk_device(c, rng.clone()).register(user, pass, p, strong, o)
}
pub fn ref_reg(c: Combo, seed: u64, user: &[u8], pass: &[u8], p: &MonParams, strong: bool) -> Reg {
    with_combo!(c, D, H, _K => ref_register::<D, H>(seed, user, pass, p, strong))
}
pub fn ref_hash(c: Combo, input: &[u8], salt: &str, p: &MonParams) -> Vec<u8> {
    with_combo!(c, _D, H, _K => H::reference(input, salt, p))
}
pub fn combo_hn(c: Combo, n: u32, parts: &[&[u8]]) -> [u8; 64] {
    if c.twist() { hn::<Twist512>(n, parts) } else { hn::<Sha512>(n, parts) }
}
pub fn combo_z(c: Combo, user: &[u8], pass: &[u8]) -> Pt {
    if c.twist() { ref_z::<Twist512>(user, pass) } else { ref_z::<Sha512>(user, pass) }
}
/// the parameters as registration sends them
pub fn wire_params_of(c: Combo, p: &MonParams) -> ParamsString {
    with_combo!(c, _D, H, _K => match H::params(p).try_into() { Ok(s) => s, Err(_) => panic!("params") })
}
