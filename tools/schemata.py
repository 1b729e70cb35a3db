#!/usr/bin/env python3
"""Data-dependent faults, all in one build, to find inputs the monitors never
produce. Works on a copy: WORKDIR/repo gets a call at every function parameter
and every hash input, which can count which kinds of value pass there or spoil
the value when it is of one kind.

schemata.py build WORKDIR            instrument WORKDIR/repo (a copy of /repo), build WORKDIR/verif/harness (a copy)
schemata.py cover WORKDIR            run every monitor; which kinds of value never pass where?
schemata.py kill WORKDIR [N [SEED]]  spoil N (site, kind) pairs in turn; which does no monitor notice?"""
import json, os, random, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import ns, ORDER

BYTE_KINDS = ["empty", "one byte", ">32", ">64", ">128", ">255", ">1024", ">4096", ">65535", "leading 0", "trailing 0", "inner 0", "colon", "leading ff", "non-ASCII", "not UTF-8", "upper case", "outer blank",
              "all equal", "two leading 0", "multiple of 64", "ends equal", "line end", "16 bytes", "1/256", "1/4096", "call>1000", "call>10000", "1/1024 calls", "@", "low half", "32 bytes", "15 bytes"]
BIG_KINDS = ["zero", "one", "odd length", "top bit clear", "low byte 0", "even", "top byte ff", "<2^64", "<2^512", ">2^512", ">2^2048", ">2^4096", ">2^8192", "1/256", "power of 2", "length%8", "low word 0", "second byte 0", "1/4096", "call>1000"]

RT = r'''
#[allow(missing_docs, dead_code, unused)]
#[doc(hidden)]
pub mod __mu {
    extern crate std;
    use std::{boxed::Box, collections::HashMap, env, format, io::Write, string::String, sync::{atomic::{AtomicU64, Ordering::Relaxed}, Mutex, OnceLock}, vec::Vec, vec};
    const CRATE: &str = "@CRATE@";
    struct Conf { site: usize, kind: usize, cov: Option<Mutex<std::fs::File>>, on: bool }
    fn conf() -> &'static Conf {
        static C: OnceLock<Conf> = OnceLock::new();
        C.get_or_init(|| {
            let m = env::var("PAKEMUT").unwrap_or_default();
            let p: Vec<&str> = m.split('/').collect();
            let (mut site, mut kind) = (usize::MAX, 0);
            if p.len() == 3 && p[0] == CRATE { site = p[1].parse().unwrap(); kind = p[2].parse().unwrap(); }
            let cov = env::var("PAKECOV").ok().map(|f| Mutex::new(std::fs::OpenOptions::new().append(true).create(true).open(f).unwrap()));
            Conf { site, kind, on: cov.is_some() || site != usize::MAX, cov }
        })
    }
    static CALLS: [AtomicU64; 600] = [const { AtomicU64::new(0) }; 600];
    static HITS: [[AtomicU64; 40]; 600] = [const { [const { AtomicU64::new(0) }; 40] }; 600];
    fn bk(k: usize, x: &[u8], n: u64) -> bool {
        let l = x.len();
        match k {
            0 => l == 0, 1 => l == 1, 2 => l > 32, 3 => l > 64, 4 => l > 128, 5 => l > 255, 6 => l > 1024, 7 => l > 4096, 8 => l > 65535,
            9 => x.first() == Some(&0), 10 => x.last() == Some(&0), 11 => l > 2 && x[1..l - 1].contains(&0), 12 => x.contains(&b':'), 13 => x.first() == Some(&255),
            14 => !x.is_ascii(), 15 => std::str::from_utf8(x).is_err(), 16 => x.is_ascii() && x.iter().any(|c| c.is_ascii_uppercase()), 17 => x.first().map_or(false, |c| c.is_ascii_whitespace()) || x.last().map_or(false, |c| c.is_ascii_whitespace()),
            18 => l > 1 && x.iter().all(|c| *c == x[0]), 19 => l > 1 && x[0] == 0 && x[1] == 0, 20 => l > 0 && l % 64 == 0, 21 => l > 1 && x[0] == x[l - 1], 22 => x.contains(&b'\n') || x.contains(&b'\r'), 23 => l == 16,
            24 => l > 3 && x[1] == 0x5c, 25 => l > 3 && x[1] == 0x5c && x[2] & 15 == 3, 26 => n > 1000, 27 => n > 10000, 28 => n % 1024 == 1023, 29 => x.contains(&b'@'), 30 => l > 8 && x[l / 2..].iter().all(|c| *c == 0), 31 => l == 32, 32 => l == 15,
            _ => false,
        }
    }
    fn fires(s: usize, kinds: usize, is: impl Fn(usize, u64) -> bool) -> bool {
        let c = conf();
        if !c.on { return false; }
        let n = CALLS[s].fetch_add(1, Relaxed);
        if let Some(f) = &c.cov {
            for k in 0..kinds {
                if HITS[s][k].load(Relaxed) < 100 && is(k, n) {
                    let h = HITS[s][k].fetch_add(1, Relaxed) + 1;
                    if h == 1 || h == 10 || h == 100 { let _ = f.lock().unwrap().write_all(format!("{CRATE} {s} {k} {h}\n").as_bytes()); }
                }
            }
            return false;
        }
        s == c.site && is(c.kind, n)
    }
    fn spoil(x: &[u8]) -> Vec<u8> { let mut v = x.to_vec(); match v.last_mut() { Some(b) => *b ^= 1, None => v.push(0) }; v }
    pub fn b<'x>(s: usize, x: &'x [u8]) -> &'x [u8] { if fires(s, 33, |k, n| bk(k, x, n)) { Box::leak(spoil(x).into_boxed_slice()) } else { x } }
    pub fn o<T: AsRef<[u8]>>(s: usize, x: T) -> Vec<u8> { let x = x.as_ref(); if fires(s, 33, |k, n| bk(k, x, n)) { spoil(x) } else { x.to_vec() } }
    pub fn arr<T: AsMut<[u8]>>(s: usize, mut x: T) -> T { let v = x.as_mut().to_vec(); if fires(s, 33, |k, n| bk(k, &v, n)) { if let Some(l) = x.as_mut().last_mut() { *l ^= 1 } } x }
    @EXTRA@
}
'''
BIG = r'''
    pub fn big<'x>(s: usize, x: &'x num_bigint::BigUint) -> &'x num_bigint::BigUint {
        let v = x.to_bytes_be(); let l = v.len(); let bits = x.bits();
        let one = num_bigint::BigUint::from(1u32);
        let is = |k: usize, n: u64| match k {
            0 => bits == 0, 1 => *x == one, 2 => l % 2 == 1, 3 => bits % 8 != 0, 4 => v[l - 1] == 0, 5 => v[l - 1] % 2 == 0, 6 => v[0] == 255, 7 => bits <= 64, 8 => bits <= 512, 9 => bits > 512, 10 => bits > 2048, 11 => bits > 4096, 12 => bits > 8192,
            13 => v[l - 1] == 0x5c, 14 => bits > 1 && x & (x - &one) == num_bigint::BigUint::from(0u32), 15 => l % 8 != 0, 16 => l > 3 && v[l - 1] == 0 && v[l - 2] == 0, 17 => l > 1 && v[1] == 0, 18 => l > 1 && v[l - 1] == 0x5c && v[l - 2] & 15 == 3, 19 => n > 1000, _ => false };
        if fires(s, 20, is) { Box::leak(Box::new(x + 1u32)) } else { x }
    }
'''
PT = r'''
    use curve25519_dalek::{ristretto::RistrettoPoint, scalar::Scalar, constants::RISTRETTO_BASEPOINT_POINT};
    pub fn pt(s: usize, x: RistrettoPoint) -> RistrettoPoint { let v = x.compress().to_bytes(); if fires(s, 33, |k, n| bk(k, &v, n)) { x + RISTRETTO_BASEPOINT_POINT } else { x } }
    pub fn sc(s: usize, x: Scalar) -> Scalar { let v = x.to_bytes(); if fires(s, 33, |k, n| bk(k, &v, n)) { x + Scalar::ONE } else { x } }
'''
FILES = {"srp": ["client", "server", "utils"], "spake2": ["lib", "ed25519"], "aucpace": ["client", "server", "utils"]}

def close(s, i, a, b):
    d = 0
    while True:
        d += (s[i] == a) - (s[i] == b)
        if d == 0:
            return i
        i += 1

def instrument(w):
    sites = []
    for crate, files in FILES.items():
        n = 0
        for f in files:
            p = f"{w}/repo/{crate}/src/{f}.rs"
            s = open(f"/repo/{crate}/src/{f}.rs").read()
            end = re.search(r"#\[cfg\(.*\btest\b", s)
            tail = s[end.start():] if end else ""
            s = s[:end.start()] if end else s
            edits = []  # (position, text)
            code = re.sub(r"//[^\n]*", lambda m: " " * len(m[0]), s)
            fn = lambda at: (re.findall(r"\bfn (\w+)", code[:at]) or ["?"])[-1]
            for m in re.finditer(r"(\w+ )?fn (\w+)", code):
                if m[1] == "const " or not re.match(r"fn (\w+)\s*(<|\()", code[m.start(0) + len(m[1] or ""):]):
                    continue
                i = m.end()
                if code[i] == "<":
                    d = 0
                    while True:
                        if code[i] == "<": d += 1
                        if code[i] == ">" and code[i - 1] != "-": d -= 1
                        i += 1
                        if d == 0: break
                i = code.index("(", i)
                j = close(code, i, "(", ")")
                k = j
                while code[k] not in "{;": k += 1
                if code[k] == ";" or m[2] in ("fmt", "serialize", "deserialize", "expecting", "visit_str"):
                    continue
                add = ""
                for a in re.finditer(r"(?:mut )?(\w+):\s*(&'?\w* ?\[u8\]|&BigUint|RistrettoPoint|Scalar|\[u8; \w+\]|Output<D>)\s*(?=[,)\n])", code[i:j + 1]):
                    t = a[2]
                    h = "b" if t.startswith("&") and "u8" in t else "big" if "Big" in t else "pt" if "Ris" in t else "sc" if t == "Scalar" else "arr"
                    sites.append((crate, n, h, f"{f}.rs {m[2]}({a[1]})"))
                    add += f" let {a[1]} = crate::__mu::{h}({n}, {a[1]});"
                    n += 1
                edits.append((k + 1, add))
            for m in re.finditer(r"\.update\(", code):
                i = m.end() - 1
                j = close(code, i, "(", ")")
                sites.append((crate, n, "o", f"{f}.rs {fn(i)} update({s[i + 1:j]})"))
                edits += [(i + 1, f"crate::__mu::o({n}, "), (j, ")")]
                n += 1
            for m in re.finditer(r"BigUint::from_bytes_be\(", code):
                i = m.end() - 1
                j = close(code, i, "(", ")")
                sites.append((crate, n, "o", f"{f}.rs {fn(i)} from_bytes_be({s[i + 1:j]})"))
                edits += [(i + 1, f"&crate::__mu::o({n}, "), (j, ")")]
                n += 1
            for at, t in sorted(edits, reverse=True):
                s = s[:at] + t + s[at:]
            s += tail
            open(p, "w").write(s)
        p = f"{w}/repo/{crate}/src/lib.rs"
        s = open(p).read()
        extra = {"srp": BIG, "spake2": "", "aucpace": PT}[crate]
        open(p, "w").write(s.replace("unused_qualifications)]", "unused_qualifications)]\n#![allow(unused_mut, clippy::all)]", 1) + RT.replace("@CRATE@", crate).replace("@EXTRA@", extra))
    json.dump(sites, open(w + "/sites.json", "w"))
    print(len(sites), "sites")

def kinds(h): return BIG_KINDS if h == "big" else BYTE_KINDS
ALL = "C01 C02 C03 C04 C05 C06 C07 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C26 C27 C28 C31".split()
def check(w, c, env, scale="1", cap="2", timeout=400):
    pre = ["env"] + [f"{k}={v}" for k, v in env.items()]
    return ns(w, *pre, "/verif/target/rel/release/pakemon", c, "--seed", "1", "--scale", scale, "--out", "/verif/o.json", "--cap", cap, timeout=timeout)

def main():
    what, w = sys.argv[1:3]
    if what == "build":
        instrument(w)
        rc, out = ns(w, "cargo", "build", "--offline", "-q", "--release", "--manifest-path", "/verif/harness/Cargo.toml", "--target-dir", "/verif/target/rel")
        print(rc, out[-3000:])
    elif what == "cover":
        sys.path.insert(0, w + "/verif")
        plan = dict(re.findall(r'"(C\d\d)": \((\d+), 1\)', open("/verif/check.py").read()))
        os.makedirs(w + "/verif/cov", exist_ok=True)
        for c in sys.argv[3:] or ALL:
            f = f"{w}/verif/cov/{c}"
            if os.path.exists(f): os.remove(f)
            rc, out = check(w, c, {"PAKECOV": f"/verif/cov/{c}"}, plan.get(c, "1"), "60", 900)
            print(c, rc, out[-200:] if rc else "", flush=True)
        report(w)
    elif what == "report":
        report(w)
    elif what == "kill":
        sites = json.load(open(w + "/sites.json"))
        hit = load(w)
        pairs = [(c, n, k, h, d) for c, n, h, d in sites for k in range(len(kinds(h))) if hit.get((c, n, k))]
        random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1).shuffle(pairs)
        for c, n, k, h, d in pairs[:int(sys.argv[3]) if len(sys.argv) > 3 else 100]:
            order = sorted(hit[(c, n, k)], key=lambda p: ((ORDER[c] + ALL).index(p)))
            res = "SURVIVED"
            for p in order:
                rc, out = check(w, p, {"PAKEMUT": f"{c}/{n}/{k}"}, "2", "2", 240)
                if rc:
                    res = p + ("" if rc == 1 else f" ({rc})")
                    break
            print(f"{c} {d} | {kinds(h)[k]} | {res} | of {' '.join(order)}", flush=True)

def load(w):
    hit = {}
    for p in os.listdir(w + "/verif/cov"):
        for l in open(f"{w}/verif/cov/{p}"):
            c, n, k, h = l.split()
            hit.setdefault((c, int(n), int(k)), {})[p] = int(h)
    return hit

def report(w):
    hit = load(w)
    for c, n, h, d in json.load(open(w + "/sites.json")):
        never = [x for k, x in enumerate(kinds(h)) if (c, n, k) not in hit]
        rare = [x for k, x in enumerate(kinds(h)) if (c, n, k) in hit and max(hit[(c, n, k)].values()) < 10]
        print(f"{c} {d} | never: {', '.join(never)} | rare: {', '.join(rare)}")

if __name__ == "__main__":
    main()
