//! C20: the two ECDSA backends against a textbook reference.
use super::common::*;
use crate::engine::*;
use crate::refec as ec;
use crate::{ensure, ensure_eq};
use bitcoin_cash::*;
use num::bigint::BigUint;
use num::Zero;

type CEcc = bitcoin_cash_ecc::SelectedECC;
type REcc = bitcoin_cash_ecc_rust::SelectedECC;
pub struct Backends {
    c: CEcc,
    r: REcc,
}
const NAMES: [&str; 2] = ["C", "Rust"];
impl Backends {
    fn new() -> Self {
        Backends { c: bitcoin_cash_ecc::init_ecc(), r: bitcoin_cash_ecc_rust::init_ecc() }
    }
    fn sign(&self, b: usize, k: &[u8], m: impl Into<ByteArray>) -> std::result::Result<std::result::Result<ByteArray, String>, Fail> {
        guarded(&format!("sign ({} backend)", NAMES[b]), || if b == 0 { self.c.sign(k, m) } else { self.r.sign(k, m) }.map_err(|e| e.to_string()))
    }
    fn verify(&self, b: usize, p: &[u8], m: &[u8], s: &[u8]) -> std::result::Result<std::result::Result<bool, String>, Fail> {
        guarded(&format!("verify ({} backend)", NAMES[b]), || if b == 0 { self.c.verify(p, m, s) } else { self.r.verify(p, m, s) }.map_err(|e| e.to_string()))
    }
    fn derive(&self, b: usize, k: &[u8]) -> std::result::Result<std::result::Result<Pubkey, String>, Fail> {
        guarded(&format!("derive_pubkey ({} backend)", NAMES[b]), || if b == 0 { self.c.derive_pubkey(k) } else { self.r.derive_pubkey(k) }.map_err(|e| e.to_string()))
    }
    fn normalize(&self, b: usize, s: &[u8]) -> std::result::Result<std::result::Result<Vec<u8>, String>, Fail> {
        guarded(&format!("normalize_sig ({} backend)", NAMES[b]), || if b == 0 { self.c.normalize_sig(s) } else { self.r.normalize_sig(s) }.map_err(|e| e.to_string()))
    }
}
fn two(k: usize) -> BigUint {
    BigUint::from(1u8) << k
}
fn keys_all() -> Vec<BigUint> {
    let n = &ec::k().n;
    let mut v: Vec<BigUint> = vec![];
    for i in 0..256 {
        v.push(two(i));
        v.push(two(i) - 1u8);
        v.push(two(i) + 1u8);
        v.push(n - two(i) % n);
    }
    for d in 1..20u8 {
        v.push(n - d);
        v.push((n >> 1) + d - 10u8);
    }
    v.retain(|x| !x.is_zero() && x < n);
    v.sort();
    v.dedup();
    v
}
fn msgs_all() -> Vec<Vec<u8>> {
    let n = &ec::k().n;
    let mut v: Vec<BigUint> = vec![Zero::zero()];
    for i in 0..256 {
        v.push(two(i));
        v.push(two(i) - 1u8);
        v.push(two(256) - two(i));
    }
    for d in 0..6u8 {
        v.push(n - 3u8 + d);
        v.push((n >> 1) - 3u8 + d);
    }
    v.sort();
    v.dedup();
    let mut v: Vec<Vec<u8>> = v.iter().map(|x| ec::b32(x).to_vec()).collect();
    v.push(crate::refs::sha256(b"message"));
    v
}
fn reduce(m: &[u8]) -> BigUint {
    BigUint::from_bytes_be(m) % &ec::k().n
}
/// Signs with both backends and judges the signatures; returns them.
fn judge(b: &Backends, sk: &BigUint, m: &[u8]) -> std::result::Result<(Vec<u8>, Vec<Vec<u8>>), Fail> {
    let key = ec::b32(sk);
    let want = ec::pubkey(sk);
    let pt = ec::point(&want).unwrap();
    let mut sigs = vec![];
    for i in 0..2 {
        let p = b.derive(i, &key)?.map_err(|e| format!("{}: key {} rejected: {}", NAMES[i], sk, e))?;
        ensure!(p.as_slice() == &want[..], "{} backend derives {}, expected {}", NAMES[i], p, hexs(&want));
        let msg = ba(m).named("msg");
        let s = b.sign(i, &key, msg)?.map_err(|e| format!("{}: signing failed: {}", NAMES[i], e))?;
        ensure!(s.function() == Function::EcdsaSign && s.preimage().map_or(false, |p| p.len() == 1 && p[0].as_slice() == m && p[0].name() == Some("msg")), "origin of the signature");
        ensure!(s.len() <= 72, "{} signature of {} bytes", NAMES[i], s.len());
        let (r, sv) = ec::parse_der(&s).ok_or_else(|| format!("{} signature {} is not strict DER", NAMES[i], hexs(&s)))?;
        ensure!(ec::is_low(&sv), "{} signature {} has a high s", NAMES[i], hexs(&s));
        ensure!(ec::verify(&pt, m, &r, &sv), "{} signature {} violates the ECDSA equation", NAMES[i], hexs(&s));
        sigs.push(s.to_vec());
    }
    for s in &sigs {
        for i in 0..2 {
            ensure_eq!(b.verify(i, &want, m, s)?, Ok(true), "{} backend verifying {}", NAMES[i], hexs(s));
            ensure_eq!(b.normalize(i, s)?, Ok(s.clone()), "{} backend normalizing {}", NAMES[i], hexs(s));
        }
    }
    Ok((want, sigs))
}
/// Judges one signature encoding: never a panic; only accepted when strict DER and the equation
/// holds; certainly accepted when in addition s is low.
fn judge_sig(b: &Backends, pk: &[u8], pt: &(BigUint, BigUint), m: &[u8], sig: &[u8]) -> Res {
    let parsed = ec::parse_der(sig);
    let holds = parsed.as_ref().map_or(false, |(r, s)| ec::verify(pt, m, r, s));
    for i in 0..2 {
        let v = b.verify(i, pk, m, sig)?;
        ensure!(v != Ok(true) || holds, "{} backend verifies {} ({})", NAMES[i], hexs(sig), if parsed.is_none() { "not strict DER" } else { "equation violated" });
        ensure!(ec::well_formed(sig) || v.is_err(), "{} backend: malformed {} gives {:?}", NAMES[i], hexs(sig), v);
        if let Some((_, s)) = &parsed {
            ensure!(!(holds && ec::is_low(s)) || v == Ok(true), "{} backend: valid {} gives {:?}", NAMES[i], hexs(sig), v);
        }
        judge_norm(b, i, sig)?;
    }
    Ok(())
}
fn judge_norm(b: &Backends, i: usize, sig: &[u8]) -> Res {
    let n = &ec::k().n;
    let o = b.normalize(i, sig)?;
    if let Ok(o) = &o {
        let (r, s) = ec::parse_der(o).ok_or_else(|| format!("{} backend normalizes {} to {}, not DER", NAMES[i], hexs(sig), hexs(o)))?;
        ensure!(ec::is_low(&s), "{} backend normalizes {} to a high s", NAMES[i], hexs(sig));
        // a zero marks numbers out of range; the backends differ in whether they read that as a signature
        if !r.is_zero() && !s.is_zero() {
            ensure_eq!(b.normalize(i, o)?, Ok(o.clone()), "{} backend: normalizing twice", NAMES[i]);
        }
    }
    if let Some((r, s)) = ec::parse_der(sig) {
        if r < *n && s < *n && !r.is_zero() && !s.is_zero() {
            let want = ec::der(&r, &if ec::is_low(&s) { s } else { n - s });
            ensure_eq!(o.map(|x| hexs(&x)), Ok(hexs(&want)), "{} backend normalizing {}", NAMES[i], hexs(sig));
        }
    }
    Ok(())
}

pub fn c20(c: &Ctx) {
    let b = Backends::new();
    let n = ec::k().n.clone();
    let (ks, ms) = (keys_all(), msgs_all());
    c.bound(format!("both backends; {} boundary keys x 1 message, 1 key x {} boundary messages (powers of two, +-1, around the group order and its half)", ks.len(), ms.len()));
    let m0 = crate::refs::sha256(b"message");
    c.range("keys", ks.len() as u64, |i, ch| {
        ch.op();
        ch.note(|| format!("key {:x}", ks[i as usize]));
        let (p, s) = judge(&b, &ks[i as usize], &m0)?;
        ch.observe((p, s));
        Ok(())
    });
    c.range("messages", ms.len() as u64 * 2, |i, ch| {
        ch.op();
        let (k, m) = (&[BigUint::from(0xdeadbeefu32), &n - 5u8][i as usize % 2], &ms[i as usize / 2]);
        ch.note(|| format!("key {:x} message {}", k, hex::encode(m)));
        let (p, s) = judge(&b, k, m)?;
        ch.observe((p, s));
        Ok(())
    });

    // every signature against every other key and message
    let q = if c.thorough { 24 } else { 9 };
    let mut kk: Vec<BigUint> = vec![1u32.into(), 2u32.into(), 3u32.into(), &n - 1u8, &n - 2u8, &n >> 1, (&n >> 1) + 1u8];
    let mut mm: Vec<Vec<u8>> = [BigUint::zero(), 1u32.into(), n.clone(), &n - 1u8, &n + 1u8, two(256) - 1u8, two(255)].iter().map(|x| ec::b32(x).to_vec()).collect();
    let mut i = 0u32;
    while kk.len() < q {
        i += 1;
        kk.push(BigUint::from_bytes_be(&crate::refs::sha256(&i.to_le_bytes())) % &n);
        mm.push(crate::refs::sha256(&(i + 1000).to_le_bytes()));
    }
    c.bound(format!("every signature over {} keys x {} messages by each backend, verified by each backend under each of these keys and messages", q, q));
    c.range("cross", (q * q * 2) as u64, |x, ch| {
        let (ki, mi, sb) = (x as usize % q, x as usize / q % q, x as usize / q / q);
        let sig = b.sign(sb, &ec::b32(&kk[ki]), ba(&mm[mi]))?.map_err(|e| e.to_string())?;
        ch.note(|| format!("key {} message {} signed by {}", ki, mi, NAMES[sb]));
        for (kj, k2) in kk.iter().enumerate() {
            let pk = ec::pubkey(k2);
            for m2 in &mm {
                // ECDSA takes messages modulo n, and negating both key and message changes nothing
                let (a, b2) = (reduce(m2), reduce(&mm[mi]));
                let ok = (a == b2 && kj == ki) || ((&a + &b2) % &n == Zero::zero() && &kk[kj] + &kk[ki] == n);
                for i in 0..2 {
                    ch.op();
                    let v = b.verify(i, &pk, m2, &sig)?;
                    ensure!(v == Ok(ok), "{} backend: signature by key {} of message {} under key {} and message {}: {:?}", NAMES[i], ki, mi, kj, hex::encode(m2), v);
                }
            }
        }
        ch.observe(sig.as_slice());
        Ok(())
    });

    // bit flips
    let nf = if c.thorough { 24 } else { 3 };
    c.bound(format!("{} signatures: every single bit flipped in signature, message and public key; every byte of one replaced by every value; truncated and extended at every position; high-s twins", nf));
    let flips: Vec<(BigUint, Vec<u8>, Vec<u8>)> = (0..nf)
        .map(|i| {
            let k = BigUint::from_bytes_be(&crate::refs::sha256(&[i as u8, 7])) % &n;
            let m = crate::refs::sha256(&[i as u8, 8]);
            let s = b.sign(i % 2, &ec::b32(&k), ba(&m)).ok().unwrap().unwrap().to_vec();
            (k, m, s)
        })
        .collect();
    c.range("bit flips", (nf * 8 * (72 + 32 + 33)) as u64, |i, ch| {
        let (f, bit) = (&flips[i as usize % nf], i as usize / nf);
        let pk = ec::pubkey(&f.0);
        let (mut m, mut s, mut p) = (f.1.clone(), f.2.clone(), pk.clone());
        let what = if bit < 8 * 72 {
            if bit / 8 >= s.len() {
                return Ok(());
            }
            s[bit / 8] ^= 1 << (bit % 8);
            "signature"
        } else if bit < 8 * 104 {
            m[bit / 8 - 72] ^= 1 << (bit % 8);
            "message"
        } else {
            p[bit / 8 - 104] ^= 1 << (bit % 8);
            "public key"
        };
        ch.op();
        ch.note(|| format!("bit {} flipped in the {}", bit, what));
        for i in 0..2 {
            let v = b.verify(i, &p, &m, &s)?;
            ensure!(v != Ok(true), "{} backend verifies after bit {} of the {} changed", NAMES[i], bit, what);
            if what == "public key" {
                ensure!(v.is_err() == ec::point(&p).is_none(), "{} backend: public key {} gives {:?}", NAMES[i], hexs(&p), v);
            }
            if what == "message" {
                ensure!(v == Ok(false), "{} backend: {:?}", NAMES[i], v);
            }
        }
        if what == "signature" {
            judge_sig(&b, &pk, &ec::point(&pk).unwrap(), &m, &s)?;
        }
        ch.observe((what, &s));
        Ok(())
    });
    let (k1, m1, s1) = &flips[0];
    let pk1 = ec::pubkey(k1);
    let pt1 = ec::point(&pk1).unwrap();
    c.range("byte edits", (s1.len() * 256) as u64, |i, ch| {
        let mut s = s1.clone();
        s[i as usize / 256] = i as u8;
        ch.op();
        ch.note(|| format!("byte {} = {:#x}", i / 256, i % 256));
        judge_sig(&b, &pk1, &pt1, m1, &s)
    });
    c.tree("cuts and extensions", |ch| {
        let p = ch.pick(s1.len() + 1);
        let mut s = s1.clone();
        match ch.pick(12) {
            0 => s.truncate(p),
            1 => drop(s.drain(..p)),
            2 if p < s.len() => drop(s.remove(p)),
            2 => s.clear(),
            x @ 3..=9 => s.insert(p, [0, 1, 2, 0x30, 0x7f, 0x80, 0xff][x - 3]),
            10 => s.extend(vec![0; p]),
            _ => s.extend(s.clone()[..p].to_vec()),
        }
        ch.op();
        ch.note(|| hexs(&s));
        judge_sig(&b, &pk1, &pt1, m1, &s)
    });
    // (r, s) structure: all pairs of boundary scalars, in DER and in lax forms
    let (r1, sv1) = ec::parse_der(s1).unwrap();
    let sc: Vec<BigUint> = vec![Zero::zero(), 1u8.into(), 0x7fu8.into(), 0x80u8.into(), 0xffu8.into(), 0x100u32.into(), r1.clone(), sv1.clone(), &n - &sv1, &n - &r1, &n >> 1, (&n >> 1) + 1u8, &n - 1u8, n.clone(), &n + 1u8, two(256) - 1u8, &n + &r1 % two(120), two(256), two(264) - 1u8];
    c.bound("all pairs of 19 boundary values as r and s, each with 0..=3 leading zeros or sign bytes, short and long length forms");
    c.tree("scalars", |ch| {
        let (r, s) = (ch.of(&sc).clone(), ch.of(&sc).clone());
        ch.op();
        let e = ec::der(&r, &s);
        ch.note(|| hexs(&e));
        judge_sig(&b, &pk1, &pt1, m1, &e)?;
        ch.observe(&e);
        Ok(())
    });
    c.tree("lax forms", |ch| {
        let (r, s) = (ch.of(&sc).clone(), ch.of(&sc).clone());
        let pad = |ch: &mut Chooser, x: &BigUint| {
            let mut v = x.to_bytes_be();
            for _ in 0..ch.pick(4) {
                v.insert(0, 0);
            }
            v
        };
        let (rb, sb) = (pad(ch, &r), pad(ch, &s));
        let mut e = ec::der_raw(&rb, &sb);
        match ch.pick(5) {
            0 => {}
            1 => e[1] = 0x81, // long form of the sequence length (length byte swallowed as content by strict parsers)
            2 => {
                let l = e[1];
                e[1] = 0x81;
                e.insert(2, l)
            }
            3 => {
                let l = e[3];
                e[3] = 0x81;
                e.insert(4, l)
            }
            _ => e[1] = 0,
        }
        ch.op();
        ch.note(|| hexs(&e));
        judge_sig(&b, &pk1, &pt1, m1, &e)?;
        // what the encoding means is beyond doubt when only zeros were added
        if e[1] as usize == e.len() - 2 && e[3] as usize == rb.len() && r < n && s < n && !r.is_zero() && !s.is_zero() {
            let want = ec::der(&r, &if ec::is_low(&s) { s.clone() } else { &n - &s });
            for i in 0..2 {
                ensure_eq!(b.normalize(i, &e)?.map(|x| hexs(&x)), Ok(hexs(&want)), "{} backend normalizing {}", NAMES[i], hexs(&e));
            }
        }
        Ok(())
    });
    // arbitrary short strings
    c.bound("signature encodings: all strings of at most 2 bytes, all DER skeletons 30 a 02 b .. 02 c .. with a, b, c over boundary lengths");
    c.range("short encodings", 1 + 256 + 65536, |i, ch| {
        let s = match i {
            0 => vec![],
            1..=256 => vec![(i - 1) as u8],
            _ => ((i - 257) as u16).to_be_bytes().to_vec(),
        };
        ch.op();
        judge_sig(&b, &pk1, &pt1, m1, &s)
    });
    let lens = [0u8, 1, 2, 4, 6, 31, 32, 33, 34, 64, 68, 70, 72, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0x89, 0xfe, 0xff];
    c.tree("skeletons", |ch| {
        let (a, l1, l2) = (*ch.of(&lens), *ch.of(&lens), *ch.of(&lens));
        let fill = *ch.of(&[0u8, 1, 0x7f, 0x80, 0xff]);
        let body = *ch.of(&[0usize, 1, 5, 32, 33, 40]);
        let mut s = vec![0x30, a, 2, l1];
        s.extend(vec![fill; (l1 as usize).min(body)]);
        s.extend([2, l2]);
        s.extend(vec![fill; (l2 as usize).min(body)]);
        ch.op();
        ch.note(|| hexs(&s));
        judge_sig(&b, &pk1, &pt1, m1, &s)
    });

    // invalid keys and lengths
    c.bound("keys, messages and public keys of every length 0..=100 and 15 lengths up to 65569; secret keys 0, n, n+1, .., 2^256-1; every prefix byte of a public key; x beyond the field or off the curve");
    let lens: Vec<u64> = (0..=100).chain([128, 129, 255, 256, 257, 288, 289, 320, 520, 544, 545, 65535, 65536, 65568, 65569]).collect();
    c.range("lengths", lens.len() as u64, |i, ch| {
        let i = lens[i as usize];
        let v = seq_bytes(i as usize, 3);
        ch.op();
        ch.note(|| format!("{} bytes", i));
        let key = ec::b32(&5u8.into());
        for x in 0..2 {
            ensure!(b.derive(x, &v)?.is_ok() == (i == 32), "{}: secret key of {} bytes", NAMES[x], i);
            ensure!(b.sign(x, &v, ba(&m0))?.is_ok() == (i == 32), "{}: secret key of {} bytes", NAMES[x], i);
            ensure!(b.sign(x, &key, ba(&v))?.is_ok() == (i == 32), "{}: message of {} bytes", NAMES[x], i);
            let r = b.verify(x, &pk1, &v, s1)?;
            ensure!(if i == 32 { r == Ok(false) } else { r.is_err() }, "{}: message of {} bytes: {:?}", NAMES[x], i, r);
            let mut p = pk1.clone();
            p.resize(i as usize, 0);
            let r = b.verify(x, &p, m1, s1)?;
            ensure!(if i == 33 { r == Ok(true) } else { r.is_err() }, "{}: public key of {} bytes: {:?}", NAMES[x], i, r);
        }
        Ok(())
    });
    let bad: Vec<BigUint> = (0..40u8).map(|d| &n + d).chain((0..128).map(|k| &n + two(k))).chain((1..40u8).map(|d| two(256) - d)).filter(|x| x < &two(256)).chain([Zero::zero()]).collect();
    c.range("invalid secret keys", bad.len() as u64, |i, ch| {
        let k = ec::b32(&bad[i as usize]);
        ch.op();
        ch.note(|| hexs(&k));
        for x in 0..2 {
            ensure!(b.derive(x, &k)?.is_err(), "{}: derives a key from {}", NAMES[x], hexs(&k));
            ensure!(b.sign(x, &k, ba(&m0))?.is_err(), "{}: signs with {}", NAMES[x], hexs(&k));
        }
        Ok(())
    });
    c.range("public keys", 256 * 40, |i, ch| {
        let (pre, v) = (i as u8, i / 256);
        let mut p = pk1.clone();
        p[0] = pre;
        match v {
            0 => {}
            1..=20 => p[32] = p[32].wrapping_add(v as u8),
            21..=30 => p[1..].copy_from_slice(&ec::b32(&(&ec::k().p + v as u8 - 25u8))),
            31..=35 => p[1..].copy_from_slice(&ec::b32(&(v as u8 - 31).into())),
            _ => p[1..].copy_from_slice(&ec::b32(&(two(256) - (v as u8 - 35)))),
        }
        ch.op();
        ch.note(|| hexs(&p));
        let pt = ec::point(&p);
        for x in 0..2 {
            let r = b.verify(x, &p, m1, s1)?;
            match &pt {
                None => ensure!(r.is_err(), "{}: public key {}: {:?}", NAMES[x], hexs(&p), r),
                Some(q) => ensure!(r == Ok(*q == pt1), "{}: public key {}: {:?}", NAMES[x], hexs(&p), r),
            }
        }
        Ok(())
    });
    c.range("uncompressed public keys", 65 * 256, |i, ch| {
        let full = ec::uncompressed(k1);
        let mut p = full.clone();
        p[i as usize / 256] = i as u8;
        ch.op();
        ch.note(|| hexs(&p));
        for x in 0..2 {
            // the backends may or may not know this form, and its hybrid twin
            let r = b.verify(x, &p, m1, s1)?;
            ensure!(r != Ok(true) || p[1..] == full[1..], "{}: public key {}: {:?}", NAMES[x], hexs(&p), r);
        }
        Ok(())
    });
}
