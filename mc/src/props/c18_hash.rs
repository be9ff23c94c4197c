//! C18: hash values.
use super::common::*;
use crate::engine::*;
use crate::refs::*;
use crate::{ensure, ensure_eq};
use bitcoin_cash::*;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn rev(b: &[u8]) -> Vec<u8> {
    b.iter().rev().cloned().collect()
}
fn hash_of(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// Every observation of a hash value that must hold `want`.
fn all_forms<H>(h: &H, want: &[u8], full: bool) -> Res
where
    H: Hashed + Clone + Hash + Serialize + DeserializeOwned + BitcoinCode + BitcoinDataType<Type = BitcoinByteArray> + Into<ByteArray>,
{
    let back = rev(want);
    let (hx, hxr) = (hex::encode(want), hex::encode(&back));
    ensure!(h.as_slice() == want, "as_slice {}", hex::encode(h.as_slice()));
    ensure!(h.as_byte_array().as_slice() == want, "as_byte_array");
    ensure!(h.to_vec_le() == back, "to_vec_le");
    ensure_eq!(h.to_hex_le(), hxr, "to_hex_le");
    ensure_eq!(h.to_hex_be(), hx, "to_hex_be");
    ensure_eq!(format!("{}", h), hxr, "display");
    ensure!(format!("{:?}", h).contains(&hxr), "debug form {:?} doesn't show {}", h, hxr);
    ensure!(h.clone() == *h, "clone differs");
    if !full {
        return Ok(());
    }
    ensure!(h.clone().into_byte_array().as_slice() == want, "into_byte_array");
    let b: ByteArray = h.clone().into();
    ensure!(b.as_slice() == want, "into ByteArray");
    ensure!(h.ser().as_slice() == want, "wire form");
    ensure!(h.to_data().0.as_slice() == want, "to_data");
    ensure!(pushed(&h.to_pushop()) == Some(want.to_vec()), "to_pushop");
    ensure!(matches!(h.to_data_type(), DataType::ByteArray(Some(n)) if n == want.len()), "to_data_type");
    let mut c = want.to_vec();
    c.extend_from_slice(b"xy");
    ensure!(h.clone().concat(&b"xy"[..]).as_slice() == &c[..], "concat");
    let js = serde_json::to_string(h).map_err(|e| e.to_string())?;
    ensure_eq!(js, format!("\"{}\"", hxr), "serde json");
    let bi = bincode::serialize(h).map_err(|e| e.to_string())?;
    ensure!(bi == want, "serde binary {}", hex::encode(&bi));
    let e = |e: String| Fail::Violation(format!("rejected its own form: {}", e));
    let again = [
        H::from_slice(want).map_err(|x| e(x.to_string()))?,
        H::from_slice_le(&back).map_err(|x| e(x.to_string()))?,
        H::from_hex_be(&hx).map_err(|x| e(x.to_string()))?,
        H::from_hex_le(&hxr).map_err(|x| e(x.to_string()))?,
        H::from_hex_be(&hx.to_uppercase()).map_err(|x| e(x.to_string()))?,
        H::from_byte_array(ba(want)).map_err(|x| e(x.to_string()))?,
        H::deser(ba(want)).map_err(|x| e(x.to_string()))?,
        serde_json::from_str(&js).map_err(|x| e(x.to_string()))?,
        serde_json::from_reader(js.as_bytes()).map_err(|x| e(x.to_string()))?,
        bincode::deserialize(&bi).map_err(|x| e(x.to_string()))?,
        bincode::deserialize_from(&bi[..]).map_err(|x| e(x.to_string()))?,
        h.clone().named("n"),
    ];
    for (i, a) in again.iter().enumerate() {
        ensure!(a == h && a.as_slice() == want, "form {} gives {}", i, hex::encode(a.as_slice()));
        ensure!(hash_of(a) == hash_of(h), "equal values hash differently (form {})", i);
    }
    ensure!(again[11].as_byte_array().name() == Some("n"), "named");
    ensure!(again[11].as_byte_array().function() == h.as_byte_array().function() && again[11].as_byte_array().preimage().map(|p| p.len()) == h.as_byte_array().preimage().map(|p| p.len()), "naming changes the origin");
    Ok(())
}
fn same_meta(a: &ByteArray, b: &ByteArray) -> bool {
    a.data() == b.data()
        && a.name() == b.name()
        && a.function() == b.function()
        && match (a.preimage(), b.preimage()) {
            (None, None) => true,
            (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_meta(a, b)),
            _ => false,
        }
}

fn one<H>(c: &Ctx, name: &str, len: usize, f: Function, reference: fn(&[u8]) -> Vec<u8>, new: fn(&[u8]) -> H)
where
    H: Hashed + Clone + Hash + Default + Serialize + DeserializeOwned + BitcoinCode + BitcoinDataType<Type = BitcoinByteArray> + Into<ByteArray>,
{
    // digests
    let mut lens: Vec<usize> = (0..if c.thorough { 4200 } else { 520 }).collect();
    lens.extend(pow2_lens().into_iter().filter(|n| *n >= 520));
    c.range(&format!("{} digests", name), lens.len() as u64 * 4, |i, ch| {
        let (n, kind) = (lens[(i / 4) as usize], i % 4);
        let msg = match kind {
            0 => ba(seq_bytes(n, 3)),
            1 => ba(vec![0u8; n]).named("zeros"),
            2 => ba(vec![0xffu8; n / 2]).concat(ba(seq_bytes(n - n / 2, 9)).named("second")),
            _ => ba(b"inner").apply_function(seq_bytes(n, 5), Function::Sha1).named("hashed"),
        };
        ch.note(|| format!("{} of a message of {} bytes, kind {}", name, n, kind));
        let h = guarded("digest", || H::digest(msg.clone()))?;
        ch.op();
        let want = reference(&msg);
        ensure!(H::digest_slice(&msg).as_ref() == &want[..], "digest_slice of {} bytes", n);
        all_forms(&h, &want, n < 4)?;
        for b in [h.as_byte_array().clone(), h.clone().into_byte_array(), h.clone().into(), h.to_data().0] {
            ensure!(b.function() == f && H::function() == f, "origin function {:?}, expected {:?}", b.function(), f);
            ensure!(b.preimage().map_or(false, |p| p.len() == 1 && same_meta(&p[0], &msg)), "origin of the digest {:?}, expected {:?}", b.preimage(), msg);
        }
        ch.observe(&want);
        Ok(())
    });
    // values: every byte value at every position
    c.range(&format!("{} values", name), (len * 256 * 2) as u64, |i, ch| {
        let (pos, v, bg) = ((i as usize / 512), (i / 2 % 256) as u8, i % 2);
        let mut b = if bg == 0 { vec![0u8; len] } else { seq_bytes(len, 17) };
        let base = b.clone();
        b[pos] = v;
        ch.op();
        ch.note(|| format!("{} {}", name, hex::encode(&b)));
        let h = guarded("from_slice", || H::from_slice(&b))?.map_err(|e| e.to_string())?;
        guarded("forms of a value", || all_forms(&h, &b, true))??;
        let arr = new(&b);
        ensure!(arr == h && arr.as_slice() == &b[..] && arr.as_byte_array().name().is_none(), "new([..]) gives {}", arr);
        ensure!(h.as_byte_array().preimage().is_none(), "a plain hash has an origin");
        let o = H::from_slice(&base).map_err(|e| e.to_string())?;
        ensure!((h == o) == (b == base), "equality of {} and {}", h, o);
        ch.observe(&b);
        Ok(())
    });
    // lengths
    c.range(&format!("{} lengths", name), 300, |i, ch| {
        let n = i as usize;
        let b = seq_bytes(n, 1);
        let (r, hx) = (rev(&b), hex::encode(&b));
        let js = format!("\"{}\"", hx);
        ch.op();
        ch.note(|| format!("{} from {} bytes", name, n));
        let rs: Vec<(&str, std::result::Result<H, String>, bool)> = guarded("construction", || {
            vec![
                ("from_slice", H::from_slice(&b).map_err(|e| e.to_string()), true),
                ("from_byte_array", H::from_byte_array(ba(&b)).map_err(|e| e.to_string()), true),
                ("from_slice_le", H::from_slice_le(&r).map_err(|e| e.to_string()), true),
                ("from_hex_be", H::from_hex_be(&hx).map_err(|e| e.to_string()), true),
                ("from_hex_le", H::from_hex_le(&hex::encode(&r)).map_err(|e| e.to_string()), true),
                ("json", serde_json::from_str(&format!("\"{}\"", hex::encode(&r))).map_err(|e| e.to_string()), true),
                ("json value", serde_json::from_value(serde_json::json!(hex::encode(&r))).map_err(|e| e.to_string()), true),
                ("deser", H::deser(ba(&b)).map_err(|e| e.to_string()), true),
                // trailing bytes are the binary format's own affair
                ("binary", bincode::deserialize(&b).map_err(|e| e.to_string()), n <= len),
                ("binary reader", bincode::deserialize_from(&b[..]).map_err(|e| e.to_string()), n <= len),
            ]
        })?;
        for (what, r, judge) in rs {
            if judge {
                ensure!(r.is_ok() == (n == len), "{} of {} bytes: {:?}", what, n, r);
                if let Ok(h) = r {
                    ensure!(h.as_slice() == &b[..], "{} gives {}", what, h.to_hex_be());
                }
            }
        }
        // odd number of digits, at both ends
        for s in [format!("{}0", hx), hx.get(1..).unwrap_or("0").to_string()] {
            let s = if s.len() % 2 == 0 { s + "1" } else { s };
            let r = guarded("from_hex", || (H::from_hex_be(&s).is_ok(), H::from_hex_le(&s).is_ok(), serde_json::from_str::<H>(&format!("\"{}\"", s)).is_ok()))?;
            ensure!(r == (false, false, false), "{} hex digits accepted: {:?}", s.len(), r);
        }
        for j in [js.clone() + "x", hx.clone(), "null".into(), "[]".into(), format!("[{}]", js), "{}".into(), "12".into()] {
            ensure!(!guarded("json", || serde_json::from_str::<H>(&j).is_ok())?, "accepted {}", j);
        }
        Ok(())
    });
    // characters
    let chars: Vec<char> = (0u32..=0x17f).chain([0x660, 0x2460, 0xff10, 0xff21, 0x1d7ce, 0xfeff, 0x10ffff]).map(|c| char::from_u32(c).unwrap()).collect();
    c.range(&format!("{} characters", name), (2 * len * chars.len()) as u64, |i, ch| {
        let (pos, k) = (i as usize / chars.len(), chars[i as usize % chars.len()]);
        let b = seq_bytes(len, 29);
        let mut s: Vec<char> = hex::encode(&b).chars().collect();
        s[pos] = k;
        let s: String = s.into_iter().collect();
        ch.op();
        ch.note(|| format!("{} from {:?}", name, s));
        let ok = k.is_ascii_hexdigit();
        let js = serde_json::to_string(&s).unwrap();
        let rs = guarded("from_hex", || {
            vec![
                (H::from_hex_be(&s).map_err(|e| e.to_string()), false),
                (H::from_hex_le(&s).map_err(|e| e.to_string()), true),
                (serde_json::from_str::<H>(&js).map_err(|e| e.to_string()), true),
            ]
        })?;
        for (w, (r, reversed)) in rs.into_iter().enumerate() {
            ensure!(r.is_ok() == ok, "{} for {:?} (form {}): {:?}", name, s, w, r);
            if let Ok(h) = r {
                ensure!(if reversed { h.to_hex_le() } else { h.to_hex_be() } == s.to_lowercase(), "{} read as {}", s, h);
            }
        }
        Ok(())
    });
    c.tree(&format!("{} default", name), |ch| {
        ch.op();
        all_forms(&H::default(), &vec![0; len], true)
    });
}

fn fixed<const N: usize>(c: &Ctx)
where
    [u8; N]: Default + Serialize + DeserializeOwned,
{
    c.range(&format!("fixed arrays of {}", N), (3 * N + 40) as u64, |i, ch| {
        let n = i as usize;
        let b = seq_bytes(n, 3);
        ch.op();
        ch.note(|| format!("{} bytes into fixed arrays of {}", n, N));
        let r = guarded("from_slice", || FixedByteArrayBE::<[u8; N]>::from_slice("x", &b))?;
        let u = guarded("from_slice_unnamed", || FixedByteArrayLE::<[u8; N]>::from_slice_unnamed(&b))?;
        let v = guarded("from_byte_array", || FixedByteArrayLE::<[u8; N]>::from_byte_array(ba(&b)))?;
        ensure!(r.is_ok() == (n == N) && u.is_ok() == (n == N) && v.is_ok() == (n == N), "{} bytes", n);
        let js = format!("\"{}\"", hex::encode(&b));
        let je = guarded("json", || (serde_json::from_str::<FixedByteArrayBE<[u8; N]>>(&js), serde_json::from_str::<FixedByteArrayLE<[u8; N]>>(&js)))?;
        ensure!(je.0.is_ok() == (n == N) && je.1.is_ok() == (n == N), "{} bytes as json", n);
        if n == N {
            let (r, u) = (r.unwrap(), u.unwrap());
            ensure!(r[..] == b[..] && u[..] == b[..] && v.unwrap() == u, "contents");
            ensure!(r.as_byte_array().name() == Some("x"), "name");
            ensure!(je.0.unwrap()[..] == b[..] && je.1.unwrap()[..] == rev(&b)[..], "json order");
            ensure!(serde_json::to_string(&r).unwrap() == js && serde_json::to_string(&u).unwrap() == format!("\"{}\"", hex::encode(rev(&b))), "json text");
            ensure!(bincode::serialize(&r).unwrap() == b && bincode::serialize(&u).unwrap() == b, "binary");
            ensure!(bincode::deserialize::<FixedByteArrayLE<[u8; N]>>(&b).unwrap() == u && bincode::deserialize_from::<_, FixedByteArrayBE<[u8; N]>>(&b[..]).unwrap() == r, "binary round trip");
            let arr: [u8; N] = b[..].try_into().unwrap();
            let (w, x) = (FixedByteArrayBE::<[u8; N]>::new("nm", arr), FixedByteArrayLE::<[u8; N]>::new_unnamed(arr));
            ensure!(w == r && x == u && w[..] == b[..] && x[..] == b[..], "new");
            ensure!(w.as_byte_array().name() == Some("nm") && x.as_byte_array().name().is_none(), "name given to new");
            let d = FixedByteArrayBE::<[u8; N]>::default();
            ensure!(d[..] == [0u8; N][..], "default");
        }
        ch.observe(n == N);
        Ok(())
    });
}

pub fn c18(c: &Ctx) {
    c.bound(format!("5 hash types; digests of messages of 0..{} bytes and around all powers of two to 2^17 in 4 kinds (plain, named, concatenated, derived); every byte value at every position over two backgrounds; all lengths 0..300; every position x U+0000..U+017F and 7 further characters", if c.thorough { 4200 } else { 520 }));
    one::<Sha1>(c, "Sha1", 20, Function::Sha1, sha1, |b| Sha1::new(b.try_into().unwrap()));
    one::<Ripemd160>(c, "Ripemd160", 20, Function::Ripemd160, ripemd, |b| Ripemd160::new(b.try_into().unwrap()));
    one::<Sha256>(c, "Sha256", 32, Function::Sha256, sha256, |b| Sha256::new(b.try_into().unwrap()));
    one::<Sha256d>(c, "Sha256d", 32, Function::Hash256, sha256d, |b| Sha256d::new(b.try_into().unwrap()));
    one::<Hash160>(c, "Hash160", 20, Function::Hash160, hash160, |b| Hash160::new(b.try_into().unwrap()));
    fixed::<0>(c);
    fixed::<1>(c);
    fixed::<4>(c);
    fixed::<20>(c);
    fixed::<31>(c);
    fixed::<32>(c);
}
