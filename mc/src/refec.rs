//! Reference secp256k1 / ECDSA, straight from the textbook definitions, on big integers.
use num::bigint::BigUint;
use num::{One, Zero};
use std::sync::OnceLock;

pub struct Cst {
    pub p: BigUint,
    pub n: BigUint,
    pub g: (BigUint, BigUint),
}
pub fn k() -> &'static Cst {
    static C: OnceLock<Cst> = OnceLock::new();
    let h = |s: &str| BigUint::parse_bytes(s.as_bytes(), 16).unwrap();
    C.get_or_init(|| Cst {
        p: h("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"),
        n: h("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
        g: (
            h("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
            h("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
        ),
    })
}
/// Jacobian coordinates; z = 0 is infinity.
#[derive(Clone)]
struct J(BigUint, BigUint, BigUint);
fn sub(a: &BigUint, b: &BigUint, p: &BigUint) -> BigUint {
    if a >= b {
        a - b
    } else {
        a + p - b
    }
}
fn dbl(a: &J) -> J {
    let p = &k().p;
    if a.2.is_zero() || a.1.is_zero() {
        return J(One::one(), One::one(), Zero::zero());
    }
    let y2 = &a.1 * &a.1 % p;
    let s = &a.0 * &y2 * 4u8 % p;
    let m = &a.0 * &a.0 * 3u8 % p;
    let x = sub(&(&m * &m % p), &(&s * 2u8 % p), p);
    let y = sub(&(&m * sub(&s, &x, p) % p), &(&y2 * &y2 * 8u8 % p), p);
    let z = &a.1 * &a.2 * 2u8 % p;
    J(x, y, z)
}
fn add(a: &J, b: &J) -> J {
    let p = &k().p;
    if a.2.is_zero() {
        return b.clone();
    }
    if b.2.is_zero() {
        return a.clone();
    }
    let (z1, z2) = (&a.2 * &a.2 % p, &b.2 * &b.2 % p);
    let (u1, u2) = (&a.0 * &z2 % p, &b.0 * &z1 % p);
    let (s1, s2) = (&a.1 * &z2 % p * &b.2 % p, &b.1 * &z1 % p * &a.2 % p);
    if u1 == u2 {
        return if s1 == s2 { dbl(a) } else { J(One::one(), One::one(), Zero::zero()) };
    }
    let h = sub(&u2, &u1, p);
    let r = sub(&s2, &s1, p);
    let h2 = &h * &h % p;
    let h3 = &h2 * &h % p;
    let v = &u1 * &h2 % p;
    let x = sub(&sub(&(&r * &r % p), &h3, p), &(&v * 2u8 % p), p);
    let y = sub(&(&r * sub(&v, &x, p) % p), &(&s1 * &h3 % p), p);
    let z = &a.2 * &b.2 % p * &h % p;
    J(x, y, z)
}
fn mul(e: &BigUint, pt: &(BigUint, BigUint)) -> J {
    let b = J(pt.0.clone(), pt.1.clone(), One::one());
    let mut r = J(One::one(), One::one(), Zero::zero());
    for i in (0..e.bits()).rev() {
        r = dbl(&r);
        if (e >> i) & BigUint::one() == BigUint::one() {
            r = add(&r, &b);
        }
    }
    r
}
fn affine(a: &J) -> Option<(BigUint, BigUint)> {
    let p = &k().p;
    if a.2.is_zero() {
        return None;
    }
    let zi = a.2.modpow(&(p - 2u8), p);
    let z2 = &zi * &zi % p;
    Some((&a.0 * &z2 % p, &a.1 * &z2 % p * &zi % p))
}
pub fn b32(x: &BigUint) -> [u8; 32] {
    let b = x.to_bytes_be();
    let mut r = [0; 32];
    r[32 - b.len()..].copy_from_slice(&b);
    r
}
pub fn pubkey(sk: &BigUint) -> Vec<u8> {
    let (x, y) = affine(&mul(sk, &k().g)).unwrap();
    let mut v = vec![if (&y & BigUint::one()).is_one() { 3 } else { 2 }];
    v.extend(b32(&x));
    v
}
pub fn uncompressed(sk: &BigUint) -> Vec<u8> {
    let (x, y) = affine(&mul(sk, &k().g)).unwrap();
    let mut v = vec![4];
    v.extend(b32(&x));
    v.extend(b32(&y));
    v
}
/// The point a compressed public key denotes.
pub fn point(pk: &[u8]) -> Option<(BigUint, BigUint)> {
    let p = &k().p;
    if pk.len() != 33 || (pk[0] != 2 && pk[0] != 3) {
        return None;
    }
    let x = BigUint::from_bytes_be(&pk[1..]);
    if x >= *p {
        return None;
    }
    let y2 = (&x * &x % p * &x + 7u8) % p;
    let y = y2.modpow(&((p + 1u8) >> 2), p);
    if &y * &y % p != y2 {
        return None;
    }
    let odd = (&y & BigUint::one()).is_one();
    Some((x, if odd == (pk[0] == 3) { y } else { p - y }))
}
/// The ECDSA equation (no demand on the size of s).
pub fn verify(pt: &(BigUint, BigUint), msg: &[u8], r: &BigUint, s: &BigUint) -> bool {
    let n = &k().n;
    if r.is_zero() || s.is_zero() || r >= n || s >= n {
        return false;
    }
    let w = s.modpow(&(n - 2u8), n);
    let u1 = BigUint::from_bytes_be(msg) * &w % n;
    let u2 = r * &w % n;
    match affine(&add(&mul(&u1, &k().g), &mul(&u2, pt))) {
        Some((x, _)) => x % n == *r,
        None => false,
    }
}
/// Strict DER: SEQUENCE of two minimally encoded, non-negative INTEGERs, nothing else.
pub fn parse_der(b: &[u8]) -> Option<(BigUint, BigUint)> {
    fn int(b: &[u8]) -> Option<(BigUint, &[u8])> {
        if b.len() < 2 || b[0] != 2 {
            return None;
        }
        let n = b[1] as usize;
        if n == 0 || n > 127 || b.len() < 2 + n {
            return None;
        }
        let v = &b[2..2 + n];
        if v[0] & 0x80 != 0 || (v[0] == 0 && n > 1 && v[1] & 0x80 == 0) {
            return None;
        }
        Some((BigUint::from_bytes_be(v), &b[2 + n..]))
    }
    if b.len() < 2 || b[0] != 0x30 || b[1] as usize != b.len() - 2 || b[1] > 127 {
        return None;
    }
    let (r, rest) = int(&b[2..])?;
    let (s, rest) = int(rest)?;
    if !rest.is_empty() {
        return None;
    }
    Some((r, s))
}
/// DER integers may also be negative: such a signature is well formed, but out of range.
pub fn well_formed(b: &[u8]) -> bool {
    fn int(b: &[u8]) -> Option<&[u8]> {
        if b.len() < 2 || b[0] != 2 || b[1] == 0 || b[1] > 127 || b.len() < 2 + b[1] as usize {
            return None;
        }
        let v = &b[2..2 + b[1] as usize];
        if v.len() > 1 && ((v[0] == 0 && v[1] & 0x80 == 0) || (v[0] == 0xff && v[1] & 0x80 != 0)) {
            return None;
        }
        Some(&b[2 + v.len()..])
    }
    b.len() >= 2 && b[0] == 0x30 && b[1] as usize == b.len() - 2 && b[1] < 128 && int(&b[2..]).and_then(int).map_or(false, |r| r.is_empty())
}
fn der_int(x: &BigUint) -> Vec<u8> {
    let mut v = x.to_bytes_be();
    if v[0] & 0x80 != 0 {
        v.insert(0, 0);
    }
    v
}
pub fn der_raw(r: &[u8], s: &[u8]) -> Vec<u8> {
    let mut v = vec![0x30, (4 + r.len() + s.len()) as u8, 2, r.len() as u8];
    v.extend_from_slice(r);
    v.extend([2, s.len() as u8]);
    v.extend_from_slice(s);
    v
}
pub fn der(r: &BigUint, s: &BigUint) -> Vec<u8> {
    der_raw(&der_int(r), &der_int(s))
}
pub fn is_low(s: &BigUint) -> bool {
    *s <= (&k().n >> 1)
}
