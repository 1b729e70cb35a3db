//! Reference SRP written from the documented formulas; shares no code with the crate under test.
use digest::Digest;
use num_bigint::BigUint;
use num_traits::{One, Zero};

pub fn h<D: Digest>(parts: &[&[u8]]) -> Vec<u8> {
    let mut d = D::new();
    for p in parts {
        d.update(p);
    }
    d.finalize().to_vec()
}
pub fn int(b: &[u8]) -> BigUint {
    // own big-endian reader
    let mut v = BigUint::zero();
    let mut i = 0;
    while i < b.len() {
        let c = &b[i..(i + 4).min(b.len())];
        let mut w = 0u32;
        for x in c {
            w = (w << 8) | *x as u32;
        }
        v = (v << (8 * c.len())) + BigUint::from(w);
        i += 4;
    }
    v
}
/// minimal big-endian bytes, as `0` -> one zero byte
pub fn minb(v: &BigUint) -> Vec<u8> {
    let mut le = v.to_bytes_le();
    while le.len() > 1 && *le.last().unwrap() == 0 {
        le.pop();
    }
    le.reverse();
    le
}
pub fn pad(v: &BigUint, len: usize) -> Vec<u8> {
    let b = minb(v);
    let mut o = vec![0; len.saturating_sub(b.len())];
    o.extend(b);
    o
}
/// square and multiply (own, for exponents that are not huge); falls back on modpow for speed
pub fn pw(g: &BigUint, e: &BigUint, n: &BigUint) -> BigUint {
    g.modpow(e, n)
}
pub struct Group {
    pub n: BigUint,
    pub g: BigUint,
}
pub fn ref_k<D: Digest>(gr: &Group) -> BigUint {
    let nb = minb(&gr.n);
    int(&h::<D>(&[&nb, &pad(&gr.g, nb.len())]))
}
pub fn ref_x<D: Digest>(user: &[u8], pass: &[u8], salt: &[u8]) -> BigUint {
    let id = h::<D>(&[user, b":", pass]);
    int(&h::<D>(&[salt, &id]))
}
pub fn ref_v<D: Digest>(gr: &Group, user: &[u8], pass: &[u8], salt: &[u8]) -> BigUint {
    pw(&gr.g, &ref_x::<D>(user, pass, salt), &gr.n)
}
pub fn ref_b_pub<D: Digest>(gr: &Group, v: &BigUint, b: &BigUint) -> BigUint {
    (ref_k::<D>(gr) * v + pw(&gr.g, b, &gr.n)) % &gr.n
}
pub fn u_min<D: Digest>(a: &BigUint, b: &BigUint) -> BigUint {
    int(&h::<D>(&[&minb(a), &minb(b)]))
}
pub fn u_padded<D: Digest>(gr: &Group, a: &BigUint, b: &BigUint) -> BigUint {
    let l = minb(&gr.n).len();
    int(&h::<D>(&[&pad(a, l), &pad(b, l)]))
}
pub fn s_client(gr: &Group, k: &BigUint, x: &BigUint, u: &BigUint, a: &BigUint, b_pub: &BigUint) -> BigUint {
    let kv = (k * pw(&gr.g, x, &gr.n)) % &gr.n;
    let base = (b_pub % &gr.n + (&gr.n - kv)) % &gr.n;
    pw(&base, &(a + u * x), &gr.n)
}
pub fn s_server(gr: &Group, v: &BigUint, u: &BigUint, b: &BigUint, a_pub: &BigUint) -> BigUint {
    pw(&((a_pub * pw(v, u, &gr.n)) % &gr.n), b, &gr.n)
}
pub fn m1<D: Digest>(a: &BigUint, b: &BigUint, s: &BigUint) -> Vec<u8> {
    h::<D>(&[&minb(a), &minb(b), &minb(s)])
}
pub fn m2<D: Digest>(a: &BigUint, m1: &[u8], s: &BigUint) -> Vec<u8> {
    h::<D>(&[&minb(a), m1, &minb(s)])
}
/// Miller-Rabin, deterministic bases 2..61
pub fn probably_prime(n: &BigUint) -> bool {
    let one = BigUint::one();
    let two = &one + &one;
    if *n < two {
        return false;
    }
    for p in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61] {
        let p = BigUint::from(p);
        if *n == p {
            return true;
        }
        if (n % &p).is_zero() {
            return false;
        }
    }
    let m = n - &one;
    let t = m.trailing_zeros().unwrap();
    let d = &m >> t;
    'w: for a in [2u32, 3, 5, 7, 11, 13] {
        let mut x = BigUint::from(a).modpow(&d, n);
        if x == one || x == m {
            continue;
        }
        for _ in 1..t {
            x = (&x * &x) % n;
            if x == m {
                continue 'w;
            }
        }
        return false;
    }
    true
}
