//! Monitor runtime: deterministic cases, panic attribution, observation counters, violations.
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use rand_core::{CryptoRng, RngCore};

// ---------------------------------------------------------------- deterministic randomness
#[derive(Clone)]
pub struct Prng {
    s: [u64; 4],
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
impl Prng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Prng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn for_case(seed: u64, prop: &str, stage: &str, idx: u64) -> Self {
        let mut b = Vec::new();
        b.extend_from_slice(&seed.to_le_bytes());
        b.extend_from_slice(prop.as_bytes());
        b.push(0);
        b.extend_from_slice(stage.as_bytes());
        b.push(0);
        b.extend_from_slice(&idx.to_le_bytes());
        Prng::new(fnv(&b))
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, one_in: usize) -> bool {
        self.below(one_in) == 0
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut v = [0; N];
        self.fill(&mut v);
        v
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// Hostile byte strings: empty, block-boundary lengths, binary, separators, unicode, long.
    pub fn hostile(&mut self, max: usize) -> Vec<u8> {
        const LENS: &[usize] = &[
            0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 47, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 255,
            256, 257, 1023,
        ];
        const FIXED: &[&[u8]] = &[
            b"", b"\0", b":", b"::", b"alice", b"alice:bob", b"A", b"\xff", b"\xff\xfe\x80", "pässwörd".as_bytes(),
            "用户".as_bytes(), b"\0\0\0\0", b"user\0name", b"a\n", b" ", b"$scrypt$ln=16", b"admin", b"0",
        ];
        let mut v = match self.below(10) {
            0 if self.chance(3) => {
                let i = self.below(4 * LOOKALIKES.len());
                self.lookalike(i).0
            }
            0..=2 => FIXED[self.below(FIXED.len())].to_vec(),
            3..=5 => {
                let n = LENS[self.below(LENS.len())];
                self.bytes(n.min(max))
            }
            6 => {
                let n = LENS[self.below(LENS.len())].min(max);
                vec![*self.pick(&[0u8, 0xff, b'a', b':', 0x80]); n]
            }
            7 => {
                let n = self.below(40);
                (0..n).map(|_| b'a' + self.below(26) as u8).collect()
            }
            8 => {
                // leading / trailing zero bytes
                let z = self.below(4);
                let n = self.below(20);
                let mut v = vec![0; z];
                v.extend(self.bytes(n));
                if self.chance(2) {
                    v.extend(vec![0; self.below(4)]);
                }
                v
            }
            _ => {
                let n = self.below(max + 1);
                self.bytes(n)
            }
        };
        v.truncate(max);
        v
    }
    /// The same, but once in a while longer than any buffer or length field one would think of.
    pub fn hostile_any(&mut self, max: usize) -> Vec<u8> {
        match self.below(400) {
            0 => {
                let n = *self.pick(&[65_535usize, 65_536, 65_537, 66_000, 131_073]);
                self.bytes(n)
            }
            1..=8 => {
                let n = *self.pick(&[1024usize, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10_000]);
                self.bytes(n)
            }
            _ => self.hostile(max),
        }
    }
    /// The same bytes, cut into as many parts at other places.
    pub fn resplit(&mut self, parts: &[&[u8]]) -> Vec<Vec<u8>> {
        let all = parts.concat();
        let mut cuts: Vec<usize> = (1..parts.len()).map(|_| self.below(all.len() + 1)).collect();
        cuts.sort_unstable();
        cuts.insert(0, 0);
        cuts.push(all.len());
        cuts.windows(2).map(|w| all[w[0]..w[1]].to_vec()).collect()
    }
    /// A neighbour of `v` that is certainly different from it.
    pub fn mutate(&mut self, v: &[u8]) -> Vec<u8> {
        for _ in 0..64 {
            let mut w = v.to_vec();
            match self.below(12) {
                11 => {
                    // what some normalisation would take for the same text
                    let (a, b) = *self.pick(LOOKALIKES);
                    for (a, b) in [(a, b), (b, a)] {
                        if let Some(i) = (0..v.len()).find(|i| !a.is_empty() && v[*i..].starts_with(a)) {
                            w = [&v[..i], b, &v[i + a.len()..]].concat();
                            break;
                        }
                    }
                }
                0 if !w.is_empty() => {
                    let i = self.below(w.len());
                    w[i] ^= 1 << self.below(8);
                }
                1 => w.push(*self.pick(&[0u8, b' ', b'\n', b':', 0xff])),
                2 => w.insert(0, *self.pick(&[0u8, b' ', b':', b'a'])),
                3 if !w.is_empty() => {
                    w.pop();
                }
                4 if !w.is_empty() => {
                    w.remove(0);
                }
                5 => w.make_ascii_uppercase(),
                6 => w.make_ascii_lowercase(),
                7 if w.len() > 1 => {
                    let i = self.below(w.len());
                    let j = self.below(w.len());
                    w.swap(i, j);
                }
                8 => w.extend_from_slice(&v.to_vec()),
                9 if w.len() > 1 => {
                    let k = self.below(w.len());
                    w.truncate(k);
                }
                10 if !w.is_empty() => {
                    let i = w.len() - 1;
                    w[i] ^= 1 << self.below(8);
                }
                _ => w = self.hostile(64),
            }
            if w != v {
                return w;
            }
        }
        let mut w = v.to_vec();
        w.push(1);
        w
    }
}

/// Texts that one normalisation or another would take for the same; to the
/// protocols they are different byte strings.
pub const LOOKALIKES: &[(&[u8], &[u8])] = &[
    // byte order marks, invisible and odd blanks
    (b"alice", b"\xef\xbb\xbfalice"), (b"alice", b"\xfe\xffalice"), (b"alice", b"\xff\xfealice"),
    (b"alice", b"al\xe2\x80\x8bice"), (b"alice", b"alice\xe2\x80\x8d"), (b"alice", b"\xe2\x80\x8ealice"), (b"alice", b"al\xc2\xadice"), (b"alice", b"alice\xe2\x81\xa0"),
    (b"al ice", b"al\xc2\xa0ice"), (b"al ice", b"al\xe3\x80\x80ice"), (b"al ice", b"al  ice"), (b"al ice", b"al\tice"), (b"al ice", b"al+ice"), (b"al ice", b"al%20ice"), (b"al ice", b"al_ice"), (b"al ice", b"alice"),
    // line ends, trimming, padding
    (b"al\nice", b"al\r\nice"), (b"alice", b"alice\n"), (b"alice", b"alice\r\n"), (b"alice", b"alice "), (b"alice", b" alice"), (b"alice", b"\talice"), (b"alice", b"alice\0"), (b"alice", b"\0alice"), (b"alice", b"al\0ice"),
    (b"alice", b"alice\0bob"), (b"alice", b"alice\x0c"), (b"alice", b"alice\x1a"), (b"alice", b"alice\x7f"), (b"alice", b"alice\x08"), (b"alice", b"\x1b[0malice"), (b"alice", b"alice\xc2\xa0"), (b"alice", b"alice\xff"), (b"alice", b"alice\x80"), (b"alice", b"alice="), (b"alice", b"alice==="), (b"alice", b"alice."),
    // letter case
    (b"alice", b"ALICE"), (b"alice", b"Alice"), (b"alice", b"alicE"), ("ä".as_bytes(), "Ä".as_bytes()), ("straße".as_bytes(), "STRASSE".as_bytes()), ("straße".as_bytes(), b"strasse"), ("ı".as_bytes(), b"i"), ("İ".as_bytes(), b"i"), ("ς".as_bytes(), "σ".as_bytes()), ("я".as_bytes(), "Я".as_bytes()), ("\u{212a}".as_bytes(), b"k"),
    // composition, compatibility, confusables
    ("é".as_bytes(), "e\u{301}".as_bytes()), ("é".as_bytes(), b"e"), ("\u{c5}".as_bytes(), "\u{212b}".as_bytes()), ("ﬁ".as_bytes(), b"fi"), ("ａ".as_bytes(), b"a"), ("１".as_bytes(), b"1"), ("²".as_bytes(), b"2"), ("…".as_bytes(), b"..."), ("–".as_bytes(), b"-"), ("’".as_bytes(), b"'"), ("а".as_bytes(), b"a"), ("ö".as_bytes(), b"oe"), ("가".as_bytes(), "\u{1100}\u{1161}".as_bytes()),
    // encodings
    ("é".as_bytes(), b"\xe9"), ("é".as_bytes(), b"\xc3\x83\xc2\xa9"), ("é".as_bytes(), b"\0\xe9"), (b"\xff", "\u{fffd}".as_bytes()), (b"\xff", b"\xfe"), (b"\x80", b"?"), (b"\xc0\x80", b"\0"), (b"\xc1\xa1", b"a"), (b"\xed\xa0\xbd\xed\xb8\x80", "😀".as_bytes()), (b"a\xffb", b"ab"), (b"a\xc3", b"a"), (b"\xe1", b"a"),
    // escapes
    (b"a", b"%61"), (b"a", b"\\x61"), (b"a", b"&#97;"), (b"&", b"&amp;"), (b"\\", b"\\\\"), (b"'", b"''"), (b"a", b"\"a\""), (b"a", b"'a'"), (b"a:b", b"a\\:b"), (b"a:b", b"a%3ab"), (b"\n", b"\\n"), (b"alice", b"YWxpY2U="), (b"alice", b"616c696365"), (b"616c696365", b"616C696365"), (b"616c696365", b"0x616c696365"), (b"YWxpY2U", b"YWxpY2U="), (b"+/+/", b"-_-_"),
    // names
    (b"alice", b"alice@example.org"), (b"alice@example.org", b"alice@EXAMPLE.ORG"), (b"alice@example.org", b"alice+x@example.org"), (b"alice@example.org", b"a.lice@example.org"), (b"alice", b"DOMAIN\\alice"), (b"alice", b"/alice"), (b"alice", b"./alice"), (b"a/b", b"a//b"), (b"a/b", b"a\\b"), (b"alice", b"alice#1"), (b"alice", b"alice;x"), (b"alice", b"alice?x"), (b"alice", b"alice,x"), (b"alice", b"alice:"), (b"alice", b":alice"),
    // numbers
    (b"7", b"07"), (b"7", b"+7"), (b"7", b"7.0"), (b"0", b"-0"), (b"0", b""), (b"1000", b"1,000"), (b"10", b"1e1"), (b"\0\x01", b"\x01"), (b"\x01\0", b"\x01"), (b"\0", b""), (b"\0\0", b"\0"), (b" ", b""), (b"null", b""), (b"\x30", b"\0"), (b"-", b""), (b"1.1.1.1", b"01.1.1.1"), (b"127.0.0.1:80", b"127.0.0.1:080"), (b"::1", b"0:0:0:0:0:0:0:1"), (b"127.0.0.1", b"::ffff:127.0.0.1"),
    // repetition and order
    (b"abcabc", b"abc"), (b"ab,cd", b"cd,ab"), (b"abc", b"cba"), (b"aabb", b"abab"), (b"aa", b"a"),
];
/// Lengths at which counters, length fields and size limits one might think of end.
pub const HUGE: [usize; 8] = [65_535, 65_536, 65_537, 1 << 20, (1 << 20) + 1, (4 << 20) + 3, 1 << 24, (1 << 24) + 1];
impl Prng {
    pub fn huge(&mut self, i: usize) -> Vec<u8> {
        let n = HUGE[i % HUGE.len()];
        let mut v = self.bytes(4096.min(n));
        while v.len() < n {
            let k = v.len().min(n - v.len());
            v.extend_from_within(..k);
        }
        let l = v.len();
        v[l - 1] = self.u64() as u8;
        v
    }
    /// The same but for a bit in the last byte or just behind a round length.
    pub fn huge_neighbour(&mut self, v: &[u8]) -> Vec<u8> {
        let mut w = v.to_vec();
        let at: Vec<usize> = [w.len() - 1, 65_535, 65_536, 1 << 20, 1 << 24].into_iter().filter(|i| *i < w.len()).collect();
        let i = if self.chance(2) { at[0] } else { *self.pick(&at) };
        w[i] ^= 1 << self.below(8);
        w
    }
    /// Number `i` of the lookalikes, alone or inside a longer text.
    pub fn lookalike(&mut self, i: usize) -> (Vec<u8>, Vec<u8>) {
        let (a, b) = LOOKALIKES[i % LOOKALIKES.len()];
        let n = self.range(1, 40);
        let fill: Vec<u8> = (0..n).map(|_| b'a' + self.below(26) as u8).collect();
        let w = |x: &[u8], k: usize| match k {
            0 => x.to_vec(),
            1 => [x, &fill].concat(),
            2 => [&fill[..], x].concat(),
            _ => [&fill[..n / 2], x, &fill[n / 2..]].concat(),
        };
        let k = i / LOOKALIKES.len() % 4;
        let (a, b) = (w(a, k), w(b, k));
        if self.chance(2) { (a, b) } else { (b, a) }
    }
}

// ---------------------------------------------------------------- instrumented generator
#[derive(Default)]
pub struct LogInner {
    pub log: Vec<u8>,
    pub calls: Vec<usize>,
    pub prefix: Vec<u8>,
    pub flips: Vec<(usize, u8)>,
}
/// Logs, perturbs and replays every byte the code under test draws.
#[derive(Clone)]
pub struct LogRng {
    pub st: Arc<Mutex<(Prng, LogInner)>>,
}
impl LogRng {
    pub fn new(seed: u64) -> Self {
        LogRng { st: Arc::new(Mutex::new((Prng::new(seed), LogInner::default()))) }
    }
    pub fn with_prefix(seed: u64, prefix: &[u8]) -> Self {
        let r = Self::new(seed);
        r.st.lock().unwrap().1.prefix = prefix.to_vec();
        r
    }
    pub fn with_flip(seed: u64, off: usize, mask: u8) -> Self {
        let r = Self::new(seed);
        r.st.lock().unwrap().1.flips.push((off, mask));
        r
    }
    pub fn drawn(&self) -> usize {
        self.st.lock().unwrap().1.log.len()
    }
    pub fn log(&self) -> Vec<u8> {
        self.st.lock().unwrap().1.log.clone()
    }
    /// serve these bytes next, whatever was drawn before
    pub fn inject(&self, b: &[u8]) {
        let mut g = self.st.lock().unwrap();
        let pos = g.1.log.len();
        let (p, i) = &mut *g;
        if i.prefix.len() < pos {
            let n = pos - i.prefix.len();
            i.prefix.extend(p.bytes(n)); // never served, only padding
        }
        i.prefix.truncate(pos);
        i.prefix.extend_from_slice(b);
    }
    fn serve(&self, out: &mut [u8]) {
        let mut g = self.st.lock().unwrap();
        let (p, i) = &mut *g;
        i.calls.push(out.len());
        for o in out.iter_mut() {
            let pos = i.log.len();
            let mut b = if pos < i.prefix.len() { i.prefix[pos] } else { (p.u64() >> 24) as u8 };
            for (off, m) in &i.flips {
                if *off == pos {
                    b ^= m;
                }
            }
            i.log.push(b);
            *o = b;
        }
    }
}
impl RngCore for LogRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.serve(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.serve(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.serve(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.serve(dest);
        Ok(())
    }
}
impl CryptoRng for LogRng {}

// ---------------------------------------------------------------- panic attribution
thread_local! {
    static IN_SUT: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: std::cell::RefCell<Option<(bool, String)>> = const { std::cell::RefCell::new(None) };
}
/// Runs code under test: a panic in here is the code's, elsewhere it is the harness's.
pub fn sut<T>(f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            let n = IN_SUT.with(|c| {
                c.set(c.get() - 1);
                c.get()
            });
            if n == 0 {
                SLOT.with(|s| s.seq.fetch_add(1, Ordering::Relaxed));
            }
        }
    }
    let n = IN_SUT.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n == 1 {
        SLOT.with(|s| s.seq.fetch_add(1, Ordering::Relaxed));
    }
    let _g = G;
    f()
}

// ---------------------------------------------------------------- bounded progress
/// odd `seq`: a call into the code under test is under way on thread `tid`
struct Slot {
    tid: String,
    seq: AtomicU64,
    at: Mutex<(String, u64)>,
}
static SLOTS: Mutex<Vec<std::sync::Weak<Slot>>> = Mutex::new(Vec::new());
static LAST_CASE: Mutex<(String, u64)> = Mutex::new((String::new(), 0));
thread_local! {
    static SLOT: std::sync::Arc<Slot> = {
        let tid = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned())).unwrap_or_default();
        let at = LAST_CASE.lock().unwrap().clone();
        let s = std::sync::Arc::new(Slot { tid, seq: AtomicU64::new(0), at: Mutex::new(at) });
        let mut v = SLOTS.lock().unwrap();
        v.retain(|w| w.strong_count() > 0);
        v.push(std::sync::Arc::downgrade(&s));
        s
    };
}
/// (state, ticks of processor time) of a thread of this process
fn thread_stat(tid: &str) -> Option<(char, u64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 2..].split(' ').collect();
    Some((f[0].chars().next()?, f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?))
}
/// One call that uses `cpu_secs` of processor time, or sleeps for that many
/// seconds without using any, will not return: calls take milliseconds.
pub fn start_watchdog(prop: String, seed: u64, cpu_secs: u64, out: Option<String>) {
    std::thread::spawn(move || {
        let mut seen: std::collections::HashMap<String, (u64, u64, u64)> = Default::default();
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let slots: Vec<_> = SLOTS.lock().unwrap().iter().filter_map(|w| w.upgrade()).collect();
            let mut now = std::collections::HashMap::new();
            for s in slots {
                let q = s.seq.load(Ordering::Relaxed);
                if q % 2 == 0 {
                    continue;
                }
                let Some((state, ticks)) = thread_stat(&s.tid) else { continue };
                let (q0, t0, idle) = seen.get(&s.tid).copied().unwrap_or((q, ticks, 0));
                let (t0, idle) = if q0 != q { (ticks, 0) } else { (t0, idle) };
                let idle = if ticks == t0 && state != 'R' { idle + 1 } else { 0 };
                now.insert(s.tid.clone(), (q, t0, idle));
                let burnt = ticks - t0 > cpu_secs * 100;
                if burnt || idle > cpu_secs {
                    let (stage, idx) = s.at.lock().unwrap().clone();
                    let what = if burnt {
                        format!("a call has used {cpu_secs} s of processor time and not returned")
                    } else {
                        format!("a call is blocked: no progress and no processor time used for {cpu_secs} s")
                    };
                    let j = format!(
                        "{{\"prop\":{},\"seed\":{},\"evals\":1,\"decided\":1,\"distinct\":1,\"counts\":{{}},\"samples\":[],\"known\":{{}},\"violations\":[{{\"stage\":{},\"idx\":{},\"what\":{}}}],\"errors\":[],\"stages\":[],\"rules\":[]}}",
                        jstr(&prop), seed, jstr(&stage), idx, jstr(&what)
                    );
                    match &out {
                        Some(p) => std::fs::write(p, j).unwrap(),
                        None => println!("{j}"),
                    }
                    std::process::exit(1);
                }
            }
            seen = now;
        }
    });
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let in_sut = IN_SUT.with(|c| c.get()) > 0;
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((in_sut, format!("{msg} at {loc}"))));
    }));
}
/// nobody has replaced the hook
pub fn hook_in_place() -> bool {
    let _ = LAST_PANIC.with(|p| p.borrow_mut().take());
    let _ = catch_unwind(|| panic!("tracer"));
    LAST_PANIC.with(|p| p.borrow_mut().take()).is_some_and(|m| m.1.contains("tracer"))
}
/// Ok(value) | Err(message) when the code under test panicked; a harness panic is propagated.
pub fn try_sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(|| sut(f))) {
        Ok(v) => Ok(v),
        Err(e) => match LAST_PANIC.with(|p| p.borrow_mut().take()) {
            Some((true, m)) => Err(m),
            _ => std::panic::resume_unwind(e),
        },
    }
}

// ---------------------------------------------------------------- observations
#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evals: u64,
    /// how often a monitor decided a case it calls non-trivial
    pub decided: u64,
    pub known: BTreeMap<String, (u64, String)>,
}
impl Obs {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n;
        } else {
            self.counts.insert(k.into(), n);
        }
    }
    /// a distinct, non-trivial case was decided
    pub fn seen(&mut self, key: &[u8]) {
        self.decided += 1;
        self.distinct.insert(fnv(key));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    /// a violation with an exact, listed-or-not signature (decided by the driver)
    pub fn known(&mut self, sig: &str, f: impl FnOnce() -> String) {
        if let Some(v) = self.known.get_mut(sig) {
            v.0 += 1;
        } else {
            self.known.insert(sig.into(), (1, f()));
        }
    }
    fn merge(&mut self, o: Obs) {
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 8 {
                self.samples.push(s);
            }
        }
        self.evals += o.evals;
        self.decided += o.decided;
        for (k, v) in o.known {
            let e = self.known.entry(k).or_insert((0, v.1));
            e.0 += v.0;
        }
    }
}
pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub struct Case<'a> {
    pub rng: Prng,
    pub obs: &'a mut Obs,
    pub idx: u64,
    pub thorough: bool,
    pub verbose: bool,
}
#[derive(Clone)]
pub struct Violation {
    pub stage: String,
    pub idx: u64,
    pub what: String,
}
pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub threads: usize,
    pub only: Option<(String, u64)>,
    pub stage_cap: Duration,
    pub obs: Obs,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub stages: Vec<(String, u64, u64, f64)>,
    pub rules: Vec<String>,
}
impl Ctx {
    /// quick and thorough case counts
    pub fn stage<F>(&mut self, name: &str, quick: u64, thorough: u64, f: F)
    where
        F: Fn(&mut Case<'_>) -> R + Sync,
    {
        let n = if self.thorough { thorough } else { quick };
        let n = ((n as f64) * self.scale).ceil() as u64;
        self.stage_n(name, n, f)
    }
    /// exactly n cases in any tier (enumerations)
    pub fn stage_n<F>(&mut self, name: &str, n: u64, f: F)
    where
        F: Fn(&mut Case<'_>) -> R + Sync,
    {
        if let Some((s, i)) = self.only.clone() {
            if s == name {
                let mut o = Obs::default();
                self.one(name, i, &f, &mut o, true);
                self.obs.merge(o);
            }
            return;
        }
        if n == 0 {
            return;
        }
        let start = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        let cap = self.stage_cap;
        let threads = self.threads.min(n as usize).max(1);
        let results: Mutex<Vec<(Obs, Vec<Violation>, Vec<String>)>> = Mutex::new(Vec::new());
        let me: &Ctx = self;
        let work = || {
            let mut obs = Obs::default();
            let mut viol = Vec::new();
            let mut errs = Vec::new();
            loop {
                if stop.load(Ordering::Relaxed) || start.elapsed() > cap {
                    break;
                }
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n {
                    break;
                }
                match me.run_case(name, i, &f, &mut obs, false) {
                    Ok(()) => {}
                    Err(Ok(what)) => {
                        viol.push(Violation { stage: name.into(), idx: i, what });
                        stop.store(true, Ordering::Relaxed);
                    }
                    Err(Err(e)) => {
                        errs.push(format!("{name}[{i}]: {e}"));
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                done.fetch_add(1, Ordering::Relaxed);
            }
            results.lock().unwrap().push((obs, viol, errs));
        };
        if threads == 1 {
            work();
        } else {
            std::thread::scope(|s| {
                for _ in 0..threads {
                    std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, work).unwrap();
                }
            });
        }
        for (o, v, e) in results.into_inner().unwrap() {
            self.obs.merge(o);
            self.violations.extend(v);
            self.errors.extend(e);
        }
        let d = done.load(Ordering::Relaxed);
        self.stages.push((name.into(), n, d, start.elapsed().as_secs_f64()));
    }
    fn one<F>(&mut self, name: &str, i: u64, f: &F, o: &mut Obs, verbose: bool)
    where
        F: Fn(&mut Case<'_>) -> R + Sync,
    {
        match self.run_case(name, i, f, o, verbose) {
            Ok(()) => {}
            Err(Ok(what)) => self.violations.push(Violation { stage: name.into(), idx: i, what }),
            Err(Err(e)) => self.errors.push(e),
        }
        self.stages.push((name.into(), 1, 1, 0.0));
    }
    fn run_case<F>(&self, name: &str, i: u64, f: &F, obs: &mut Obs, verbose: bool) -> Result<(), Result<String, String>>
    where
        F: Fn(&mut Case<'_>) -> R + Sync,
    {
        obs.evals += 1;
        *LAST_CASE.lock().unwrap() = (name.to_string(), i);
        SLOT.with(|s| *s.at.lock().unwrap() = (name.to_string(), i));
        let rng = Prng::for_case(self.seed, &self.prop, name, i);
        let thorough = self.thorough;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut c = Case { rng, obs, idx: i, thorough, verbose };
            f(&mut c)
        }));
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(v)) => Err(Ok(v)),
            Err(_) => {
                IN_SUT.with(|c| c.set(0));
                let (s, m) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or((false, "?".into()));
                if s {
                    Err(Ok(format!("panic in code under test: {m}")))
                } else {
                    Err(Err(format!("harness panic: {m}")))
                }
            }
        }
    }
    pub fn rule(&mut self, s: &str) {
        self.rules.push(s.into());
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s = if s.len() % 2 == 1 { format!("0{s}") } else { s.to_string() };
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// short printable form for evidence
pub fn sh(b: &[u8]) -> String {
    if b.len() <= 24 {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..20]), b.len())
    }
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl Ctx {
    pub fn json(&self) -> String {
        let mut o = String::from("{");
        o.push_str(&format!("\"prop\":{},\"seed\":{},\"evals\":{},\"decided\":{},\"distinct\":{}", jstr(&self.prop), self.seed, self.obs.evals, self.obs.decided, self.obs.distinct.len()));
        o.push_str(",\"counts\":{");
        o.push_str(&self.obs.counts.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
        o.push_str("},\"samples\":[");
        o.push_str(&self.obs.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
        o.push_str("],\"known\":{");
        o.push_str(&self.obs.known.iter().map(|(k, v)| format!("{}:[{},{}]", jstr(k), v.0, jstr(&v.1))).collect::<Vec<_>>().join(","));
        o.push_str("},\"violations\":[");
        o.push_str(
            &self.violations.iter().map(|v| format!("{{\"stage\":{},\"idx\":{},\"what\":{}}}", jstr(&v.stage), v.idx, jstr(&v.what))).collect::<Vec<_>>().join(","),
        );
        o.push_str("],\"errors\":[");
        o.push_str(&self.errors.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
        o.push_str("],\"stages\":[");
        o.push_str(&self.stages.iter().map(|(n, p, d, t)| format!("[{},{},{},{:.3}]", jstr(n), p, d, t)).collect::<Vec<_>>().join(","));
        o.push_str("],\"rules\":[");
        o.push_str(&self.rules.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
        o.push_str("]}");
        o
    }
}
impl Ctx {
    /// a run that never reached these situations is inconclusive, not quiet
    pub fn require(&mut self, keys: &[&str]) {
        if self.only.is_some() || !self.violations.is_empty() {
            return;
        }
        for k in keys {
            if self.obs.counts.get(*k).copied().unwrap_or(0) == 0 {
                self.errors.push(format!("inconclusive: never observed '{k}'"));
            }
        }
    }
}

// ---------------------------------------------------------------- looking for secrets in messages
pub struct Needle {
    pub name: &'static str,
    pub forms: Vec<Vec<u8>>,
}
pub fn b64(bytes: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in bytes.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..=c.len() {
            o.push(A[(v >> (18 - 6 * k)) as usize & 63] as char);
        }
    }
    o
}
/// a secret, reversed, in hexadecimal, and in base64 at each alignment
pub fn needle(name: &'static str, v: &[u8]) -> Needle {
    let mut forms = vec![v.to_vec()];
    let mut r = v.to_vec();
    r.reverse();
    forms.push(r);
    let h = hex(v);
    forms.push(h.to_uppercase().into_bytes());
    forms.push(h.into_bytes());
    // base64 at each of the three alignments, whole groups only
    for k in 0..3 {
        if v.len() < k + 9 {
            continue;
        }
        let n = (v.len() - k) / 3 * 3;
        let t = b64(&v[k..k + n]);
        forms.push(t.replace('+', "-").replace('/', "_").into_bytes());
        forms.push(t.into_bytes());
    }
    Needle { name, forms }
}
pub fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    if needle.is_empty() || hay.len() < needle.len() {
        return None;
    }
    (0..=hay.len() - needle.len()).find(|i| &hay[*i..*i + needle.len()] == needle)
}
/// the messages must not contain any of the secrets
pub fn scan(obs: &mut Obs, msgs: &[(String, Vec<u8>)], needles: &[Needle], desc: &dyn Fn() -> String) -> R {
    for (mn, m) in msgs {
        for nd in needles {
            for f in &nd.forms {
                if f.len() >= 8 && f.len() <= m.len() && find(m, f).is_some() {
                    return Err(format!("the {mn} message {} contains the {}: {}", hex(m), nd.name, desc()));
                }
            }
            obs.count("message and secret pairs searched");
        }
    }
    Ok(())
}
