//! C10/C11: cash addresses; C12: script classification.
use super::common::*;
use crate::engine::*;
use crate::refs::*;
use crate::{ensure, ensure_eq};
use bitcoin_cash::*;

const TYPES: [(AddressType, u8); 2] = [(AddressType::P2PKH, 0), (AddressType::P2SH, 8)];
const PREFIXES: [&str; 12] =
    ["bitcoincash", "simpleledger", "bchtest", "slptest", "bchreg", "bitcoincas", "bitcoincashh", "b", "z", "", "abcdefghijklmnopqrstuvwxyz", "bitcoincasi"];

fn kind_of(p: &str) -> Option<Prefix> {
    match p {
        "bitcoincash" => Some(Prefix::BitcoinCash),
        "simpleledger" => Some(Prefix::SimpleLedger),
        _ => None,
    }
}
fn h160(h: &[u8]) -> Hash160 {
    Hash160::from_slice(h).unwrap()
}
fn same(a: &Address, prefix: &str, version: u8, hash: &[u8], s: Option<&str>) -> Res {
    ensure_eq!(a.prefix_str(), prefix, "prefix");
    ensure_eq!(a.prefix_kind(), kind_of(prefix), "prefix kind");
    ensure_eq!(a.addr_type() as u8, version, "address type");
    ensure!(a.hash().as_slice() == hash, "hash {} instead of {}", hexs(a.hash().as_slice()), hexs(hash));
    if let Some(s) = s {
        ensure_eq!(a.cash_addr(), s, "address string");
    }
    Ok(())
}
fn check_address(prefix: &'static str, t: AddressType, v: u8, h: &[u8]) -> Res {
    let want = cash_addr(prefix, v, h);
    let a = guarded("from_hash", || Address::from_hash(prefix, t, h160(h)))?;
    same(&a, prefix, v, h, Some(&want))?;
    ensure_eq!(Address::from_hash(prefix.to_string(), t, h160(h)).cash_addr().to_string(), want, "address string (owned prefix)");
    if let Some(k) = kind_of(prefix) {
        same(&Address::from_hash(k, t, h160(h)), prefix, v, h, Some(&want))?;
        ensure_eq!(k.prefix_str(), prefix, "prefix of the kind");
        ensure!(Prefix::from_prefix_str(prefix) == Some(k), "kind of the prefix {}", prefix);
    }
    // every way of writing it decodes to the same
    let d = guarded("from_cash_addr", || Address::from_cash_addr(want.clone()))?.map_err(|e| format!("decoding {}: {}", want, e))?;
    same(&d, prefix, v, h, Some(&want))?;
    ensure!(d == a && a == d, "the decoded address differs from the encoded one");
    let d = Address::from_cash_addr(&want[..]).map_err(|e| format!("decoding {}: {}", want, e))?;
    same(&d, prefix, v, h, Some(&want))?;
    let up = want.to_ascii_uppercase();
    let d = Address::from_cash_addr(up.clone()).map_err(|e| format!("decoding {}: {}", up, e))?;
    same(&d, prefix, v, h, None)?;
    let bare = &want[prefix.len() + 1..];
    match Address::from_cash_addr(bare) {
        Ok(d) => {
            ensure!(prefix == "bitcoincash", "{} without its prefix was accepted", want);
            same(&d, "bitcoincash", v, h, None)?;
        }
        Err(e) => ensure!(prefix != "bitcoincash", "{} without its prefix was rejected: {}", want, e),
    }
    // owned copies and other prefixes
    same(&a.to_owned_address(), prefix, v, h, Some(&want))?;
    same(&d.clone().into_owned_address(), prefix, v, h, Some(&up))?;
    same(&d.to_owned_address(), prefix, v, h, Some(&up))?;
    for p in PREFIXES {
        same(&a.with_prefix(p), p, v, h, Some(&cash_addr(p, v, h)))?;
        same(&d.with_prefix(p), p, v, h, Some(&cash_addr(p, v, h)))?;
    }
    same(&a.with_prefix(Prefix::SimpleLedger), "simpleledger", v, h, Some(&cash_addr("simpleledger", v, h)))?;
    same(&a.with_prefix(Prefix::default()), "bitcoincash", v, h, Some(&cash_addr("bitcoincash", v, h)))?;
    Ok(())
}

pub fn c10(c: &Ctx) {
    // the encoding is linear in the bits of the hash: single bits and pairs of bits are enumerated
    // completely, besides repeated bytes and ramps
    let mut hashes: Vec<Vec<u8>> = vec![];
    for b in 0..=255u8 {
        hashes.push(vec![b; 20]);
        hashes.push(seq_bytes(20, b));
    }
    let bit = |h: &mut Vec<u8>, i: usize| h[i / 8] ^= 0x80 >> (i % 8);
    for i in 0..160 {
        for j in i..160 {
            if c.thorough || j <= i + 16 || j % 20 == 0 {
                for base in [0u8, 0xff] {
                    let mut h = vec![base; 20];
                    bit(&mut h, i);
                    if j != i {
                        bit(&mut h, j);
                    }
                    hashes.push(h);
                }
            }
        }
    }
    hashes.sort();
    hashes.dedup();
    let n = hashes.len() as u64;
    c.bound(format!("{} hashes (repeated bytes, ramps, one and two bits set or cleared) x 2 types x {} lower-case letter prefixes", n, PREFIXES.len()));
    c.range("addresses", n * 2 * PREFIXES.len() as u64, |i, ch| {
        let h = &hashes[(i % n) as usize];
        let (t, v) = TYPES[(i / n % 2) as usize];
        let p = PREFIXES[(i / n / 2) as usize];
        ch.note(|| format!("{} {} {}", p, v, hexs(h)));
        ch.observe(i);
        ch.ops += 20;
        check_address(p, t, v, h)
    });
    // prefixes next to the known ones, and all short ones
    let mut near: Vec<String> = vec![];
    for k in ["bitcoincash", "simpleledger", "bchtest"] {
        for i in 0..=k.len() {
            near.extend([k[..i].to_string(), k[i..].to_string(), format!("{}{}", k, &k[i..]), format!("{}{}", &k[..i], k)]);
            for l in b'a'..=b'z' {
                near.push(format!("{}{}{}", &k[..i], l as char, &k[i..]));
                if i < k.len() {
                    near.push(format!("{}{}{}", &k[..i], l as char, &k[i + 1..]));
                    near.push(format!("{}{}", &k[..i], &k[i + 1..]));
                }
            }
        }
    }
    for (a, b) in [("bitcoincash", "simpleledger"), ("simpleledger", "bitcoincash"), ("simple", "cash"), ("bitcoin", "ledger")] {
        near.push(format!("{}{}", a, b));
    }
    let letters: Vec<String> = (b'a'..=b'z').map(|l| (l as char).to_string()).collect();
    let mut short = letters.clone();
    for _ in 1..if c.thorough { 3 } else { 2 } {
        short = short.iter().flat_map(|s| letters.iter().map(move |l| format!("{}{}", s, l))).collect();
        near.extend(short.iter().cloned());
    }
    near.extend((1..=120).flat_map(|n| ["a".repeat(n), "zq".repeat(n)]));
    near.sort();
    near.dedup();
    let near: Vec<&'static str> = near.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect();
    c.bound(format!("{} prefixes: all single letter edits, cuts and doublings of the known ones, all of up to {} letters, up to 240 letters", near.len(), if c.thorough { 3 } else { 2 }));
    c.range("prefixes", near.len() as u64 * 4, |i, ch| {
        let p = near[i as usize / 4];
        let (t, v) = TYPES[i as usize % 2];
        let h = if i % 4 < 2 { seq_bytes(20, 0x35) } else { vec![0xff; 20] };
        ch.note(|| format!("prefix {} {} {}", p, v, hexs(&h)));
        ch.observe(i);
        ch.ops += 20;
        check_address(p, t, v, &h)
    });
    c.bound("public keys: 2 x 34 patterns; redeem scripts: all sequences of up to 3 operations over 14 operations; x prefixes");
    c.tree("derived", |ch| {
        let p = *ch.of(&PREFIXES);
        if ch.flag() {
            let mut k = [0u8; 33];
            let i = ch.pick(34);
            if i < 33 {
                k[i] = 0x80 | i as u8;
            } else {
                k = [0xff; 33];
            }
            if ch.flag() {
                k[0] = 2;
            }
            let pk = Pubkey::new(k);
            ch.note(|| format!("pubkey {}", hexs(&k)));
            ch.observe(k.to_vec());
            let h = hash160(&k);
            same(&Address::from_pk(p, &pk), p, 0, &h, Some(&cash_addr(p, 0, &h)))
        } else {
            let alpha = [
                op_code(0x51), op_code(0xac), op_code(0x76), op_code(0xab), op_code(0), op_code(0x63), op_code(0x68), op_min(&[1]), op_min(&[5, 6]), op_plain(&[1]), op_plain(&[]),
                op_min(&[7; 76]), Op::from_int(17), Op::PushBoolean(false),
            ];
            let n = ch.pick(4);
            let ops: Vec<Op> = (0..n).map(|_| ch.of(&alpha).clone()).collect();
            ch.note(|| format!("redeem {:?}", ops));
            let h = hash160(&ref_ser_ops(&ops));
            ch.observe(h.clone());
            let s = Script::from_ops(ops.iter().cloned());
            let a = Address::from_redeem_script(p, s).map_err(|e| e.to_string())?;
            same(&a, p, 8, &h, Some(&cash_addr(p, 8, &h)))
        }
    });
}

// ---------------------------------------------------------------- C11

/// The real decoder accepts exactly what the strict reference decoder accepts.
fn check_string(s: &str, ch: &mut Chooser) -> Result<bool, Fail> {
    let want = decode_addr(s, "bitcoincash");
    let got = guarded("from_cash_addr", || Address::from_cash_addr(s))?;
    ch.op();
    match (&want, &got) {
        (None, Err(_)) => Ok(false),
        (Some((p, v, h)), Ok(a)) => {
            same(a, p, *v, h, None)?;
            // up to case and a left out prefix it is the canonical encoding
            let canon = cash_addr(p, *v, h);
            let l = s.to_ascii_lowercase();
            ensure!(l == canon || (p == "bitcoincash" && format!("bitcoincash:{}", l) == canon), "{} is not the canonical {}", s, canon);
            ensure!(Address::from_hash(a.prefix_str(), a.addr_type(), a.hash().clone()).cash_addr() == canon, "encoding the decoded {} again", s);
            Ok(true)
        }
        (None, Ok(a)) => Err(format!("{:?} was accepted as {:?}", s, a).into()),
        (Some(w), Err(e)) => Err(format!("{:?} was rejected ({}) but is the valid {:?}", s, e, w).into()),
    }
}
fn must_reject(s: &str, orig: &str, ch: &mut Chooser) -> Res {
    if check_string(s, ch)? {
        return Err(format!("{} (from {}) was accepted", s, orig).into());
    }
    Ok(())
}

pub fn c11(c: &Ctx) {
    let bases: Vec<String> = vec![
        cash_addr("bitcoincash", 0, &seq_bytes(20, 0x35)),
        cash_addr("bitcoincash", 8, &[0; 20]),
        cash_addr("simpleledger", 0, &[0xff; 20]),
        cash_addr("bchtest", 8, &seq_bytes(20, 0x11)),
    ];
    let set = |s: &mut Vec<u8>, i: usize, g: u8| s[i] = g;
    // one substitution: any character anywhere
    let chars: Vec<char> = (0u32..128).filter_map(char::from_u32).chain(['\u{e9}', '\u{130}', '\u{212a}', '\u{1f4b0}', '\u{ff}']).collect();
    c.bound("4 addresses: every ASCII character (and 5 non-ASCII ones) at every position, with and without the prefix");
    c.tree("substitute any character", |ch| {
        let b = ch.of(&bases).clone();
        let b = if ch.flag() { b.split(':').nth(1).unwrap().to_string() } else { b };
        let i = ch.pick(b.len());
        let x = *ch.of(&chars);
        let s: String = b.chars().enumerate().map(|(j, y)| if i == j { x } else { y }).collect();
        ch.note(|| s.clone());
        let ok = check_string(&s, ch)?;
        ch.observe(ok);
        let orig_ok = b.contains(':') || b == bases[0].split(':').nth(1).unwrap() || b == bases[1].split(':').nth(1).unwrap();
        if s.to_lowercase() != b && ok {
            return Err(format!("{} (one character from {}) was accepted", s, b).into());
        }
        ensure!(s != b || ok == orig_ok, "{} itself: accepted = {}", b, ok);
        Ok(())
    });
    // 2 (3) substitutions in the payload by any other letters: complete enumeration
    let pos: Vec<(usize, usize)> = (0..42).flat_map(|i| (i + 1..42).map(move |j| (i, j))).collect();
    let nb = if c.thorough { bases.len() } else { 2 };
    c.bound(format!("all two-character substitutions in the 42 payload characters of {} addresses", nb));
    c.range("substitute two", (nb * pos.len()) as u64 * 31 * 31, |i, ch| {
        let (k, i) = (i % 961, i / 961);
        let b = &bases[i as usize / pos.len()];
        let (p, q) = pos[i as usize % pos.len()];
        let start = b.find(':').unwrap() + 1;
        let mut s = b.clone().into_bytes();
        for (x, d) in [(p, k % 31 + 1), (q, k / 31 + 1)] {
            let g = CHARSET.iter().position(|c| *c == s[start + x]).unwrap() as u8;
            set(&mut s, start + x, CHARSET[(g ^ d as u8) as usize]);
        }
        let s = String::from_utf8(s).unwrap();
        ch.note(|| s.clone());
        ch.observe(&s);
        must_reject(&s, b, ch)
    });
    let trip: Vec<(usize, usize, usize)> = (0..42).flat_map(|i| (i + 1..42).flat_map(move |j| (j + 1..42).map(move |k| (i, j, k)))).collect();
    let deltas: Vec<u8> = if c.thorough { (1..32).collect() } else { vec![1, 2, 4, 8, 16, 31] };
    let nd = deltas.len() as u64;
    c.bound(format!("all three-character substitutions in the payload of one address, letters differing by any of {:?}", deltas));
    c.range("substitute three", trip.len() as u64 * nd * nd * nd, |i, ch| {
        let b = &bases[0];
        let (p, q, r) = trip[(i / (nd * nd * nd)) as usize];
        let start = b.find(':').unwrap() + 1;
        let mut s = b.clone().into_bytes();
        let k = i % (nd * nd * nd);
        for (x, d) in [(p, k % nd), (q, k / nd % nd), (r, k / nd / nd)] {
            let g = CHARSET.iter().position(|c| *c == s[start + x]).unwrap() as u8;
            set(&mut s, start + x, CHARSET[(g ^ deltas[d as usize]) as usize]);
        }
        let s = unsafe { String::from_utf8_unchecked(s) };
        ch.note(|| s.clone());
        ch.op();
        // the reference decoder is not needed: distance 3 is below the minimum distance of the code
        let r = guarded("from_cash_addr", || Address::from_cash_addr(&s[..]))?;
        ensure!(r.is_err(), "{} (from {}) was accepted", s, b);
        ch.observe(p * 42 + q);
        Ok(())
    });
    // prefixes: letters substituted (also together with payload letters), swapped, cut, extended
    let letters: Vec<u8> = (b'a'..=b'z').collect();
    c.bound("1 or 2 letters of the prefix substituted by any letters, alone or with any one payload character changed by 1, 2, 4, 8, 16");
    c.tree("substitute in prefix", |ch| {
        let b = ch.of(&bases).clone();
        let colon = b.find(':').unwrap();
        let mut s = b.clone().into_bytes();
        let i = ch.pick(colon);
        s[i] = *ch.of(&letters);
        match ch.pick(3) {
            0 => {}
            1 => {
                let j = ch.pick(colon);
                s[j] = *ch.of(&letters);
            }
            _ => {
                let j = colon + 1 + ch.pick(42);
                let g = CHARSET.iter().position(|c| *c == s[j]).unwrap() as u8;
                s[j] = CHARSET[(g ^ *ch.of(&[1u8, 2, 4, 8, 16])) as usize];
            }
        }
        let s = String::from_utf8(s).unwrap();
        ch.note(|| s.clone());
        ch.observe(&s);
        if s == b {
            return Ok(());
        }
        must_reject(&s, &b, ch)
    });
    c.bound("every prefix of 12 exchanged for every other; prefix cut or extended at every position; separators moved, doubled or removed");
    c.tree("swapped prefix", |ch| {
        let p = *ch.of(&PREFIXES);
        let (_, v) = *ch.of(&TYPES);
        let h = match ch.pick(3) {
            0 => seq_bytes(20, 0x35),
            1 => vec![0; 20],
            _ => vec![0xff; 20],
        };
        let a = cash_addr(p, v, &h);
        let body = a.split(':').nth(1).unwrap();
        let s = match ch.pick(5) {
            0 => {
                let q = *ch.of(&PREFIXES);
                format!("{}:{}", q, body)
            }
            1 => {
                let i = ch.pick(a.len() + 1);
                let x = *ch.of(&[':', 'q', 'b', '1', '\0', ' ', '\u{e9}']);
                format!("{}{}{}", &a[..i], x, &a[i..])
            }
            2 => {
                let i = ch.pick(a.len());
                let l = 1 + ch.pick((a.len() - i).min(12));
                format!("{}{}", &a[..i], &a[i + l..])
            }
            3 => {
                let i = ch.pick(a.len());
                let x = if ch.flag() { a[..i].to_string() } else { a[i..].to_string() };
                x
            }
            _ => {
                let i = ch.pick(a.len());
                let mut b = a.clone().into_bytes();
                if ch.flag() {
                    b.reverse();
                }
                b.rotate_left(i);
                String::from_utf8(b).unwrap()
            }
        };
        ch.note(|| s.clone());
        ch.observe(&s);
        check_string(&s, ch)?;
        Ok(())
    });
    // arbitrary payloads with a correct checksum
    let vers: Vec<u8> = (0..=255).collect();
    c.bound("correctly checksummed payloads: all 256 version bytes x 0..=70 payload bytes x 3 fills x every value of the padding bits; 0..=120 arbitrary 5-bit groups x 5 fills x 3 prefixes; every payload of at most 2 groups");
    c.tree("checksummed payload", |ch| {
        let v = *ch.of(&vers);
        let n = ch.pick(71);
        let mut d = vec![v];
        d.extend(match ch.pick(3) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            _ => seq_bytes(n, 0x21),
        });
        let mut g = to5(&d);
        let pad = g.len() * 5 - d.len() * 8;
        let k = ch.pick(1 << pad);
        *g.last_mut().unwrap() |= k as u8;
        let p = if v & 1 == 0 { "bitcoincash" } else { "simpleledger" };
        let s = addr5(p, &g);
        ch.note(|| s.clone());
        let ok = check_string(&s, ch)?;
        ch.observe((ok, v, n, k));
        ensure!(ok == ((v == 0 || v == 8) && n == 20 && k == 0), "ENGINE: reference accepts {}", s);
        let bare = s.split(':').nth(1).unwrap();
        check_string(bare, ch)?;
        Ok(())
    });
    c.tree("checksummed groups", |ch| {
        let p = *ch.of(&["bitcoincash", "bchtest", ""]);
        let n = ch.pick(121);
        let g: Vec<u8> = match ch.pick(6) {
            0 => vec![0; n],
            1 => vec![31; n],
            2 => vec![1; n],
            3 => (0..n).map(|i| (i * 7 % 32) as u8).collect(),
            4 => (0..n).map(|i| if i + 1 == n { 1 } else { 0 }).collect(),
            _ => {
                let n = n.min(2);
                (0..n).map(|_| ch.pick(32) as u8).collect()
            }
        };
        let s = addr5(p, &g);
        ch.note(|| s.clone());
        let ok = check_string(&s, ch)?;
        ch.observe((ok, s));
        Ok(())
    });
    let odd: Vec<&str> = vec!["", ":", "::", "q", "b", "1", "bitcoincash", "bitcoincash:", ":q", "\u{e9}", " ", "qqqqqqqq", "l", "simpleledger:", "Q", "\0"];
    c.bound("all concatenations of up to 4 fragments of addresses");
    c.tree("fragments", |ch| {
        let n = ch.pick(5);
        let s: String = (0..n).map(|_| *ch.of(&odd)).collect();
        ch.note(|| format!("{:?}", s));
        let ok = check_string(&s, ch)?;
        ch.observe((ok, s));
        Ok(())
    });
}

// ---------------------------------------------------------------- C12

fn std_script(v: u8, h: &[u8]) -> Vec<u8> {
    if v == 0 {
        [&[0x76, 0xa9, 0x14][..], h, &[0x88, 0xac]].concat()
    } else {
        [&[0xa9, 0x14][..], h, &[0x87]].concat()
    }
}
fn std_of(b: &[u8]) -> Option<(u8, Vec<u8>)> {
    match b {
        [0x76, 0xa9, 0x14, h @ .., 0x88, 0xac] if h.len() == 20 => Some((0, h.to_vec())),
        [0xa9, 0x14, h @ .., 0x87] if h.len() == 20 => Some((8, h.to_vec())),
        _ => None,
    }
}
/// `bytes`: the bytes this script was parsed from, or its serialization if it was built.
fn check_class(s: &Script, bytes: &[u8], built_plain: bool, ch: &mut Chooser) -> Res {
    let d = guarded("script_destination", || script_destination("bitcoincash", s))?;
    ch.op();
    let ops = script_ops(s);
    let std = std_of(bytes);
    match (&d, &std) {
        (Destination::Address(a), Some((v, h))) => {
            same(a, "bitcoincash", *v, h, Some(&cash_addr("bitcoincash", *v, h)))?;
            ensure!(d.address() == Some(a), "address() of an address destination");
        }
        (Destination::Address(a), None) => return Err(format!("{} is reported as paying to {}", hexs(bytes), a.cash_addr()).into()),
        (x, Some(_)) => ensure!(built_plain, "the standard script {} is classified as {:?}", hexs(bytes), x),
        (Destination::P2PK(pk), None) => {
            let ok = ops.len() == 2 && effect(&ops[1]) == Effect::Exec(0xac) && pushed(&ops[0]).as_ref() == Some(pk);
            ensure!(ok, "{} is classified as paying to the public key {}", hexs(bytes), hexs(pk));
        }
        (Destination::Nulldata(o), None) => {
            ensure!(effect(&ops[0]) == Effect::Exec(0x6a), "{} is classified as a data carrier", hexs(bytes));
            ensure!(effects(o) == effects(&ops[1..]) && o == &ops[1..], "the data of {} is {:?}", hexs(bytes), o);
        }
        (Destination::Unknown(u), None) => ensure!(u == s && script_ops(u) == ops, "the unknown script changed"),
    }
    if d.address().is_some() && std.is_none() {
        return Err("address() without an address".into());
    }
    // what has to be recognised
    if ops.len() == 2 && effect(&ops[1]) == Effect::Exec(0xac) {
        if let Op::PushByteArray { array, .. } = &ops[0] {
            let key = (array.len() == 33 && (array[0] == 2 || array[0] == 3)) || (array.len() == 65 && array[0] == 4);
            if key {
                ensure!(matches!(&d, Destination::P2PK(p) if p[..] == array[..]), "{} is classified as {:?}", hexs(bytes), d);
            }
        }
    }
    if ops.first().map(effect) == Some(Effect::Exec(0x6a)) {
        ensure!(matches!(&d, Destination::Nulldata(_)), "{} is classified as {:?}", hexs(bytes), d);
    }
    check_spend(s, &ops, bytes, ch)?;
    ch.observe((std::mem::discriminant(&d), std));
    Ok(())
}
fn check_spend(s: &Script, ops: &[Op], bytes: &[u8], ch: &mut Chooser) -> Res {
    let sp = guarded("script_p2pkh_spend", || script_p2pkh_spend(s))?;
    ch.op();
    let want = match ops {
        [Op::PushByteArray { array: sig, .. }, Op::PushByteArray { array: pk, .. }] if pk.len() == 33 => sig.last().filter(|f| **f & 0x20 == 0).map(|f| (pk.to_vec(), *f as u32)),
        _ => None,
    };
    let got = sp.map(|s| (s.pubkey.as_slice().to_vec(), s.sig_hash_flags.bits()));
    ensure!(got == want, "spending script {}: recognised {:?}, expected {:?}", hexs(bytes), got, want);
    Ok(())
}

pub fn c12(c: &Ctx) {
    let hs: Vec<Vec<u8>> = (0..=255u8).flat_map(|b| [vec![b; 20], seq_bytes(20, b)]).chain((0..160).map(|i| { let mut h = vec![0u8; 20]; h[i / 8] = 1 << (i % 8); h })).collect();
    let n = hs.len() as u64;
    c.bound(format!("{} hashes x 2 types x {} prefixes: locking script bytes, parsed back, classified", n, PREFIXES.len()));
    c.range("addresses", n * 2 * PREFIXES.len() as u64, |i, ch| {
        let h = &hs[(i % n) as usize];
        let (t, v) = TYPES[(i / n % 2) as usize];
        let p = PREFIXES[(i / n / 2) as usize];
        let a = Address::from_hash(p, t, h160(h));
        ch.note(|| a.cash_addr().to_string());
        let want = std_script(v, h);
        let s: Script = (&a).into();
        let s2: Script = a.clone().into();
        let ser = guarded("ser_ops", || s.ser_ops())?;
        ensure!(ser.as_slice() == &want[..] && s2.ser_ops() == ser, "locking script of {} is {}", a.cash_addr(), hexs(&ser));
        match a.p2pkh_script() {
            Ok(t) => ensure!(v == 0 && t.script().ser_ops().as_slice() == &want[..], "p2pkh_script of {}", a.cash_addr()),
            Err(_) => ensure!(v == 8, "p2pkh_script failed for {}", a.cash_addr()),
        }
        let parsed = Script::deser_ops(ser).map_err(|e| e.to_string())?;
        for x in [&s, &s2, &parsed] {
            match guarded("script_destination", || script_destination(p, x))? {
                Destination::Address(b) => {
                    same(&b, p, v, h, Some(a.cash_addr()))?;
                    ensure!(b == a, "classified as another address");
                }
                d => return Err(format!("{} is classified as {:?}", a.cash_addr(), d).into()),
            }
            check_class(x, &want, false, ch)?;
        }
        ch.observe(i);
        Ok(())
    });
    // one operation of a standard script replaced, removed, inserted
    let mut edits: Vec<Op> = (0..=255u8).filter(|b| *b == 0 || *b > 0x4e).map(op_code).collect();
    for l in 0..=80 {
        edits.push(op_min(&seq_bytes(l, 2)));
        edits.push(op_plain(&seq_bytes(l, 2)));
    }
    for l in [255, 256, 520, 65535, 65536] {
        edits.push(op_min(&vec![1; l]));
    }
    for i in [-1i64, 0, 1, 16, 17, 20, 118, 169, 136, 172, 0x7fffffff, -0x7fffffff] {
        edits.push(Op::from_int(i));
    }
    edits.push(Op::PushBoolean(true));
    edits.push(Op::PushBoolean(false));
    let h20 = seq_bytes(20, 0x35);
    let pk33 = [&[2u8][..], &seq_bytes(32, 9)].concat();
    let pk65 = [&[4u8][..], &seq_bytes(64, 9)].concat();
    let sig = [&[0x30u8][..], &seq_bytes(70, 9), &[0x41]].concat();
    let forms: Vec<Vec<Op>> = vec![
        vec![op_code(0x76), op_code(0xa9), op_min(&h20), op_code(0x88), op_code(0xac)],
        vec![op_code(0xa9), op_min(&h20), op_code(0x87)],
        vec![op_min(&pk33), op_code(0xac)],
        vec![op_min(&pk65), op_code(0xac)],
        vec![op_code(0x6a), op_min(b"SLP"), op_plain(&[1]), op_min(&h20)],
        vec![op_code(0x6a)],
        vec![op_min(&sig), op_min(&pk33)],
        vec![],
    ];
    c.bound(format!("{} standard scripts: every one-operation replacement, insertion and removal over {} operations (thorough: every two)", forms.len(), edits.len()));
    let two = c.thorough;
    c.tree("operation edits", |ch| {
        let mut ops = ch.of(&forms).clone();
        let rounds = if two { 1 + ch.pick(2) } else { 1 };
        for round in 0..rounds {
            let n = ops.len();
            match ch.pick(4) {
                0 => {}
                1 if n > 0 => {
                    let i = ch.pick(n);
                    ops[i] = if round == 0 { ch.of(&edits).clone() } else { ch.of(&edits[edits.len() - 190..]).clone() };
                }
                2 => {
                    let i = ch.pick(n + 1);
                    ops.insert(i, if round == 0 { ch.of(&edits).clone() } else { ch.of(&edits[edits.len() - 190..]).clone() });
                }
                3 if n > 0 => {
                    let i = ch.pick(n);
                    ops.remove(i);
                }
                _ => {}
            }
        }
        ch.note(|| format!("{:?}", ops));
        let s = Script::from_ops(ops.iter().cloned());
        let bytes = ref_ser_ops(&ops);
        let plain = ops.iter().any(|o| matches!(o, Op::PushByteArray { array, is_minimal: false } if array.len() == 20));
        check_class(&s, &bytes, plain, ch)?;
        let parsed = Script::deser_ops(ba(&bytes)).map_err(|e| e.to_string())?;
        check_class(&parsed, &bytes, false, ch)
    });
    let alpha = vec![
        op_code(0x76), op_code(0xa9), op_min(&h20), op_min(&seq_bytes(21, 1)), op_min(&seq_bytes(19, 1)), op_code(0x88), op_code(0xac), op_code(0x87), op_code(0x6a), op_min(&pk33), op_code(0), op_plain(&h20), Op::from_int(20),
    ];
    let depth = if c.thorough { 6 } else { 5 };
    c.bound(format!("all sequences of up to {} operations over {} operations", depth, alpha.len()));
    c.tree("sequences", |ch| {
        let n = ch.pick(depth + 1);
        let ops: Vec<Op> = (0..n).map(|_| ch.of(&alpha).clone()).collect();
        ch.note(|| format!("{:?}", ops));
        let plain = ops.iter().any(|o| matches!(o, Op::PushByteArray { is_minimal: false, .. }));
        check_class(&Script::from_ops(ops.iter().cloned()), &ref_ser_ops(&ops), plain, ch)
    });
    // byte level edits of the standard scripts, as parsed from bytes
    c.bound("serialized standard scripts: every byte replaced by every value, removed, every value inserted anywhere, cut and doubled; two bytes replaced by 14 critical values (thorough: all 16 bit values next to each other)");
    let crit: Vec<u8> = vec![0, 1, 0x13, 0x14, 0x15, 0x4c, 0x4d, 0x4e, 0x51, 0x6a, 0x76, 0x87, 0x88, 0xa9, 0xac, 0xff];
    c.tree("byte edits", |ch| {
        let mut b = ref_ser_ops(ch.of(&forms));
        let n = b.len();
        let k = ch.pick(6);
        match k {
            0 if n > 0 => {
                let i = ch.pick(n);
                b[i] = ch.pick(256) as u8;
            }
            1 => {
                let i = ch.pick(n + 1);
                b.insert(i, ch.pick(256) as u8);
            }
            2 if n > 0 => {
                let i = ch.pick(n);
                b.remove(i);
            }
            3 => {
                let i = ch.pick(n + 1);
                b.truncate(i);
            }
            4 if n > 1 => {
                let i = ch.pick(n);
                let j = ch.pick(n);
                b[i] = *ch.of(&crit);
                b[j] = *ch.of(&crit);
            }
            5 if n > 1 && two => {
                let i = ch.pick(n - 1);
                b[i] = ch.pick(256) as u8;
                b[i + 1] = ch.pick(256) as u8;
            }
            _ => {}
        }
        ch.note(|| hexs(&b));
        match guarded("deser_ops", || Script::deser_ops(ba(&b)))? {
            Ok(s) => check_class(&s, &b, false, ch),
            Err(_) => {
                ensure!(parse_script(&b).is_none(), "parsing {} failed", hexs(&b));
                Ok(())
            }
        }
    });
    c.bound("hash pushes of 0..=100 bytes in all four push forms inside both standard scripts");
    c.tree("push forms", |ch| {
        let l = ch.pick(101);
        let d = seq_bytes(l, 0x35);
        let p = match ch.pick(4) {
            0 if (1..=75).contains(&l) => [&[l as u8][..], &d].concat(),
            1 => [&[0x4c, l as u8][..], &d].concat(),
            2 => [&[0x4d, l as u8, 0][..], &d].concat(),
            3 => [&[0x4e, l as u8, 0, 0, 0][..], &d].concat(),
            _ => return Ok(()),
        };
        let b = if ch.flag() { [&[0x76, 0xa9][..], &p, &[0x88, 0xac]].concat() } else { [&[0xa9][..], &p, &[0x87]].concat() };
        ch.note(|| hexs(&b));
        let s = Script::deser_ops(ba(&b)).map_err(|e| e.to_string())?;
        check_class(&s, &b, false, ch)
    });
    c.bound("spending scripts: all 256 hash-type bytes x signature lengths 0..=75 x public key lengths 32..=34, 65");
    c.tree("spends", |ch| {
        let f = ch.pick(256) as u8;
        let l = ch.pick(76);
        let mut sig = seq_bytes(l, 0x30);
        if let Some(x) = sig.last_mut() {
            *x = f;
        }
        let pk = seq_bytes(*ch.of(&[32usize, 33, 34, 65]), 2);
        let ops = vec![if ch.flag() { op_min(&sig) } else { op_plain(&sig) }, op_min(&pk)];
        ch.note(|| format!("{:?}", ops));
        let s = Script::from_ops(ops.iter().cloned());
        let b = ref_ser_ops(&ops);
        ch.observe((f, l, pk.len()));
        check_spend(&s, &ops, &b, ch)
    });
}
