//! C09: tracked byte arrays.
use super::common::*;
use crate::engine::*;
use crate::refs::*;
use crate::ensure;
use bitcoin_cash::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// Deterministic stand-in for functions the array only records: what they produce from an input.
fn produce(f: Function, input: &[u8]) -> Option<Vec<u8>> {
    let mut tagged = |t: u8| {
        let mut v = vec![t];
        v.extend(&sha256(input)[..3]);
        v
    };
    Some(match f {
        Function::Sha1 => sha1(input),
        Function::Ripemd160 => ripemd(input),
        Function::Sha256 => sha256(input),
        Function::Hash256 => sha256d(input),
        Function::Hash160 => hash160(input),
        Function::EcdsaSign => tagged(1),
        Function::SchnorrSign => tagged(2),
        Function::ToDataSig => tagged(3),
        Function::Reverse => input.iter().rev().copied().collect(),
        Function::Plain => input.to_vec(),
        // the number's minimal form, extended by two bytes
        Function::Num2Bin => {
            let mut v = minimal_num(input);
            let sign = v.last().map_or(0, |b| b & 0x80);
            if let Some(l) = v.last_mut() {
                *l &= 0x7f;
            }
            v.extend([0, sign]);
            v
        }
        Function::UnexpectedSplit => return None,
    })
}
/// Functions whose results mean nothing in part: what is cut from one is marked.
fn intact(f: Function) -> bool {
    !matches!(f, Function::Plain | Function::Num2Bin | Function::EcdsaSign | Function::SchnorrSign | Function::ToDataSig)
}
fn hash_of(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn consistent(a: &ByteArray) -> Res {
    let Some(pre) = a.preimage() else { return Ok(()) };
    let input: Vec<u8> = pre.iter().flat_map(|p| p.to_vec()).collect();
    match produce(a.function(), &input) {
        Some(out) => ensure!(
            out == a.as_slice(),
            "an array of {:?} holds {} but its recorded inputs {:?} produce {}",
            a.function(),
            hexs(a),
            pre.iter().map(|p| hexs(p)).collect::<Vec<_>>(),
            hexs(&out)
        ),
        None => return Err(format!("an array of {:?} ({}) keeps recorded inputs", a.function(), hexs(a)).into()),
    }
    for p in pre {
        consistent(p)?;
    }
    Ok(())
}

/// The atomic parts of an array: plain concatenations dissolved, results of functions kept whole;
/// data, function, recorded inputs, name.
pub type Atom = (Vec<u8>, Function, String, Option<String>);
fn atoms(a: &ByteArray) -> Vec<Atom> {
    match (a.function(), a.preimage()) {
        (Function::Plain, Some(p)) => p.iter().flat_map(atoms).collect(),
        (f, p) => {
            if a.is_empty() && f == Function::Plain {
                return vec![];
            }
            vec![(a.to_vec(), f, p.map_or(String::new(), |p| p.iter().map(tree).collect()), a.name().map(|n| n.to_string()))]
        }
    }
}
fn tree(a: &ByteArray) -> String {
    format!("{}:{:?}:{}", hex::encode(a.as_slice()), a.function(), a.preimage().map_or("-".into(), |p| format!("[{}]", p.iter().map(tree).collect::<Vec<_>>().join(","))))
}
fn pieces_ok(orig: &ByteArray, at: usize, l: &ByteArray, r: &ByteArray) -> Res {
    // a half is never presented as the result of the function that produced the whole
    for (n, x) in [("left", l), ("right", r)] {
        ensure!(
            matches!(x.function(), Function::Plain | Function::UnexpectedSplit),
            "the {} half of a split {:?} array is recorded as {:?}",
            n,
            orig.function(),
            x.function()
        );
    }
    if orig.function() != Function::Plain || orig.preimage().is_none() {
        for (n, x) in [("left", l), ("right", r)] {
            ensure!(
                !intact(orig.function()) || orig.preimage().is_none() || x.function() == Function::UnexpectedSplit,
                "the {} half of {} split at {} is recorded as a plain array",
                n,
                tree(orig),
                at
            );
        }
        return Ok(());
    }
    // atoms that were not cut are still there, unchanged and in order; the one that was cut became
    // two pieces that claim no origin
    let mut pos = 0;
    let (mut wl, mut wr): (Vec<Atom>, Vec<Atom>) = (vec![], vec![]);
    for a in atoms(orig) {
        let n = a.0.len();
        if n == 0 {
            continue;
        }
        if pos + n <= at {
            wl.push(a);
        } else if pos >= at {
            wr.push(a);
        } else {
            let f = if intact(a.1) { Function::UnexpectedSplit } else { Function::Plain };
            wl.push((a.0[..at - pos].to_vec(), f, String::new(), None));
            wr.push((a.0[at - pos..].to_vec(), f, String::new(), None));
        }
        pos += n;
    }
    for (n, half, want) in [("left", l, wl), ("right", r, wr)] {
        let got: Vec<Atom> = atoms(half).into_iter().filter(|a| !a.0.is_empty()).collect();
        ensure!(got == want, "splitting {} at {}: the {} half is made of {:?}, expected {:?}", tree(orig), at, n, got, want);
    }
    Ok(())
}
fn check(a: &ByteArray, data: &[u8]) -> Res {
    ensure!(a.as_slice() == data && a.len() == data.len() && &a[..] == data, "holds {}, expected {}", hexs(a), hexs(data));
    consistent(a)?;
    ensure!(&a.data()[..] == data && a.hex() == hex::encode(data) && AsRef::<[u8]>::as_ref(a) == data && a.is_empty() == data.is_empty(), "the views of {} differ", hexs(data));
    ensure!(a.preimage_arc().map(|p| p.iter().map(tree).collect::<Vec<_>>()) == a.preimage().map(|p| p.iter().map(tree).collect()), "the recorded inputs of {} differ", hexs(data));
    ensure!(a.name_arc().map(|n| n.to_string()).as_deref() == a.name(), "the names of {} differ", hexs(data));
    let plain = ByteArray::new("other name", data.to_vec());
    ensure!(*a == plain && plain == *a && hash_of(a) == hash_of(&plain), "not equal to (or hashing unlike) an untracked array of the same bytes {}", hexs(data));
    let mut other = data.to_vec();
    other.push(0);
    ensure!(*a != ba(&other), "{} equals {}", hexs(data), hexs(&other));
    if !data.is_empty() {
        let mut other = data.to_vec();
        other[data.len() / 2] ^= 1;
        ensure!(*a != ba(&other), "{} equals {}", hexs(data), hexs(&other));
    }
    Ok(())
}
fn concat(a: ByteArray, b: ByteArray, named: bool) -> Result<ByteArray, Fail> {
    let mut want: Vec<u8> = a.to_vec();
    want.extend_from_slice(&b);
    let mut wa = atoms(&a);
    wa.extend(atoms(&b));
    let cat = std::sync::Arc::new(std::borrow::Cow::from("cat"));
    for name in [None, Some(cat.clone())] {
        let r = a.clone().concat_named_option(b.clone(), name.clone());
        ensure!(r.as_slice() == &want[..] && atoms(&r) == wa && r.name() == name.as_ref().map(|n| &n[..]), "concat_named_option gives {:?}", atoms(&r));
        let n = r.clone().named_option(name.clone());
        ensure!(tree(&n) == tree(&r) && n.name() == name.as_ref().map(|n| &n[..]) && n == r, "naming {} gives {}", tree(&r), tree(&n));
        let n = n.named("again");
        ensure!(tree(&n) == tree(&r) && n.name() == Some("again"), "naming {} gives {}", tree(&r), tree(&n));
    }
    let r = if named { a.concat_named(cat, b) } else { a.concat(b) };
    check(&r, &want)?;
    let ga = atoms(&r);
    ensure!(ga == wa, "the concatenation is recorded as {:?}, expected {:?}", ga, wa);
    Ok(r)
}
fn split(a: &ByteArray, at: usize) -> Result<(ByteArray, ByteArray), Fail> {
    let d = a.to_vec();
    let r = guarded("split", || a.clone().split(at))?;
    match r {
        Ok((l, r)) => {
            ensure!(at <= d.len(), "splitting {} bytes at {} succeeded", d.len(), at);
            check(&l, &d[..at])?;
            check(&r, &d[at..])?;
            pieces_ok(a, at, &l, &r)?;
            Ok((l, r))
        }
        Err(e) => {
            ensure!(at > d.len(), "splitting {} bytes at {} failed: {}", d.len(), at, e);
            Err(Fail::Violation("ENGINE: split past the end".into()))
        }
    }
}
fn leaves() -> Vec<ByteArray> {
    vec![
        ba([0xaa]),
        ByteArray::new("bc", vec![0xb, 0xc]),
        ba([]),
        Sha256::digest(ba([1, 2])).into_byte_array(),
        ba([9, 9, 9]).apply_function(produce(Function::EcdsaSign, &[9, 9, 9]).unwrap(), Function::EcdsaSign),
        ByteArray::from_int(Integer::new(-300).unwrap(), Integer::new(3).unwrap()).unwrap(),
    ]
}
fn apply(a: ByteArray, f: Function) -> Result<ByteArray, Fail> {
    let input = a.to_vec();
    let out = produce(f, &input).unwrap();
    let t = tree(&a);
    let r = match f {
        Function::Sha256 => Sha256::digest(a).into_byte_array(),
        Function::Sha1 => Sha1::digest(a).into_byte_array(),
        Function::Ripemd160 => Ripemd160::digest(a).into_byte_array(),
        Function::Hash160 => Hash160::digest(a).into_byte_array(),
        Function::Hash256 => Sha256d::digest(a).into_byte_array(),
        f => a.apply_function(out.clone(), f),
    };
    check(&r, &out)?;
    ensure!(r.function() == f, "the result of {:?} is recorded as {:?}", f, r.function());
    let p = r.preimage().unwrap_or(&[]);
    ensure!(p.len() == 1 && tree(&p[0]) == t, "the result of {:?} of {} records the inputs {:?}", f, t, p.iter().map(tree).collect::<Vec<_>>());
    Ok(r)
}

const FUNCS: [Function; 10] = [
    Function::Sha256,
    Function::Num2Bin,
    Function::Hash160,
    Function::EcdsaSign,
    Function::ToDataSig,
    Function::Reverse,
    Function::Sha1,
    Function::Ripemd160,
    Function::Hash256,
    Function::SchnorrSign,
];

pub fn c09(c: &Ctx) {
    // histories: one current array and one register
    let ls = leaves();
    let nf = if c.thorough { 10 } else { 6 };
    let depth = if c.thorough { 5 } else { 4 };
    let maxlen = 48;
    c.bound(format!("histories of up to {} operations (concatenate any of {} leaves or the register on either side, split at 0/1/2/mid/len-1/len keeping either half, swap the halves, name, {} functions, store, from_parts) on arrays of up to {} bytes", depth, ls.len(), nf, maxlen));
    let nl = ls.len();
    let nops = 2 * nl + 3 + 6 * 3 + 1 + nf + 2;
    c.bfs("histories", depth, |h, ch| {
        let mut cur = ba([]);
        let mut reg = ba([0xee, 0xef]);
        let mut desc = String::new();
        for (step, k) in h.iter().enumerate() {
            let mut k = *k as usize;
            ch.op();
            if step > 0 {
                desc.push_str(", ");
            }
            if k < 2 * nl {
                let l = ls[k / 2].clone();
                cur = if k % 2 == 0 {
                    desc += &format!("append leaf {}", k / 2);
                    concat(cur, l, k == 0)?
                } else {
                    desc += &format!("prepend leaf {}", k / 2);
                    concat(l, cur, false)?
                };
                continue;
            }
            k -= 2 * nl;
            match k {
                0 => {
                    desc += "append register";
                    cur = concat(cur, reg.clone(), false)?;
                    continue;
                }
                1 => {
                    desc += "prepend register";
                    cur = concat(reg.clone(), cur, true)?;
                    continue;
                }
                2 => {
                    desc += "append itself";
                    cur = concat(cur.clone(), cur, false)?;
                    continue;
                }
                _ => k -= 3,
            }
            if k < 18 {
                let n = cur.len();
                let at = [0, 1, 2, n / 2, n.saturating_sub(1), n][k % 6];
                if at <= n {
                    desc += &format!("split at {} ({})", at, k / 6);
                    let (l, r) = split(&cur, at)?;
                    cur = match k / 6 {
                        0 => l,
                        1 => r,
                        _ => concat(r, l, false)?,
                    };
                } else {
                    ensure!(guarded("split", || cur.clone().split(at))?.is_err(), "split past the end succeeded");
                }
                ensure!(guarded("split", || cur.clone().split(cur.len() + 1))?.is_err(), "split past the end succeeded");
                continue;
            }
            k -= 18;
            if k == 0 {
                desc += "name";
                let d = cur.to_vec();
                let t = tree(&cur);
                cur = cur.named("a name");
                check(&cur, &d)?;
                ensure!(tree(&cur) == t, "naming changed {} to {}", t, tree(&cur));
                continue;
            }
            k -= 1;
            if k < nf {
                desc += &format!("apply {:?}", FUNCS[k]);
                cur = apply(cur, FUNCS[k])?;
                continue;
            }
            k -= nf;
            if k == 0 {
                desc += "store";
                reg = cur.clone();
            } else {
                desc += "from_parts";
                let parts = vec![cur.clone(), ls[3].clone(), reg.clone()];
                let want: Vec<u8> = parts.iter().flat_map(|p| p.to_vec()).collect();
                cur = ByteArray::from_parts(parts);
                check(&cur, &want)?;
            }
        }
        check(&cur, &cur.to_vec())?;
        let key = format!("{}|{}|{:?}", tree(&cur), tree(&reg), cur.name()).into_bytes();
        let d2 = desc;
        ch.note(|| d2);
        Ok((key, if cur.len() > maxlen { 0 } else { nops }))
    });
    // wide arrays split twice at every position, and put together again
    let parts = {
        let mut p = leaves();
        p.truncate(5);
        p.push(ba([3, 4]).concat(ba([5])));
        p.push(ba([8]).concat(ba([7, 6])).apply_function(produce(Function::ToDataSig, &[8, 7, 6]).unwrap(), Function::ToDataSig).concat(ba([1])));
        p.push(Ripemd160::digest(ba([5]).concat(ba([6]))).into_byte_array());
        p
    };
    let np = if c.thorough { 4 } else { 3 };
    c.bound(format!("every array of up to {} parts of {} kinds, split at every position, each half split again at every position, and rejoined", np, parts.len()));
    c.tree("splits", |ch| {
        let n = ch.pick(np + 1);
        let ps: Vec<ByteArray> = (0..n).map(|_| ch.of(&parts).clone()).collect();
        let want: Vec<u8> = ps.iter().flat_map(|p| p.to_vec()).collect();
        ch.note(|| ps.iter().map(tree).collect::<Vec<_>>().join(" + "));
        let a = ByteArray::from_parts(ps.clone());
        check(&a, &want)?;
        let at = ch.pick(a.len() + 1);
        ch.note(|| format!("split at {}", at));
        let (l, r) = split(&a, at)?;
        ch.op();
        for half in [&l, &r] {
            for at2 in 0..=half.len() {
                let (x, y) = split(half, at2)?;
                ch.op();
                concat(x, y, false)?;
            }
        }
        let j = concat(l, r, false)?;
        ch.observe(tree(&j));
        ensure!(guarded("split", || a.clone().split(a.len() + 1))?.is_err() && guarded("split", || a.clone().split(usize::MAX))?.is_err(), "split past the end succeeded");
        Ok(())
    });
    // many and long parts
    let wide: &[usize] = if c.thorough { &[5, 7, 8, 9, 10, 16, 17, 31, 33, 64, 65, 100] } else { &[5, 8, 9, 17, 33, 40] };
    c.bound(format!("arrays of {:?} parts (of 1, of 0..=3 and of up to 300 bytes; plain, named, hashes, signatures), split at every position, rejoined, hashed, and compared", wide));
    c.tree("wide", |ch| {
        let n = *ch.of(wide);
        let kind = ch.pick(4);
        let ps: Vec<ByteArray> = (0..n)
            .map(|i| match kind {
                0 => ba([i as u8]),
                1 => ByteArray::new(format!("p{}", i), seq_bytes((i * 3 + 1) % 4, i as u8)),
                2 if i % 3 == 1 => Hash160::digest(ba([i as u8])).into_byte_array(),
                2 => ByteArray::new("z", vec![i as u8; 1 + i % 2]),
                _ if i % 8 == 5 => ba(seq_bytes(300, i as u8)),
                _ if i % 2 == 1 => ba([1, i as u8]).apply_function(produce(Function::EcdsaSign, &[1, i as u8]).unwrap(), Function::EcdsaSign),
                _ => ba([i as u8; 2]),
            })
            .collect();
        let want: Vec<u8> = ps.iter().flat_map(|p| p.to_vec()).collect();
        ch.note(|| format!("{} parts of kind {} ({} bytes)", n, kind, want.len()));
        // put together from the left, from the right, and in halves
        let a = match ch.pick(3) {
            0 => ByteArray::from_parts(ps.clone()),
            1 => {
                let mut a = ps[n - 1].clone();
                for p in ps[..n - 1].iter().rev() {
                    a = p.clone().concat(a);
                }
                a
            }
            _ => ByteArray::from_parts(ps[..n / 2].to_vec()).concat(ByteArray::from_parts(ps[n / 2..].to_vec())),
        };
        check(&a, &want)?;
        let w: Vec<Atom> = ps.iter().flat_map(atoms).collect();
        ensure!(atoms(&a) == w, "{} parts are recorded as {} parts", w.len(), atoms(&a).len());
        let d = apply(a.clone(), Function::Hash256)?;
        for at in 0..=want.len() {
            if want.len() > 400 && at % 7 > 1 {
                continue;
            }
            let (l, r) = split(&a, at)?;
            ch.op();
            let j = if at % 2 == 0 { concat(l, r, false)? } else { concat(r, l, true)? };
            if at % 2 == 0 {
                ensure!(j == a && hash_of(&j) == hash_of(&a) && apply(j, Function::Hash256)? == d, "rejoined halves differ from the whole");
            }
        }
        ch.observe((n, kind, tree(&a)));
        Ok(())
    });
    c.tree("fixed arrays", |ch| {
        let x = ch.pick(3) as u8;
        let y = ch.pick(3) as u8;
        let (a, b) = ([x; 20], [y; 20]);
        type F = FixedByteArrayBE<[u8; 20]>;
        let all = |d: [u8; 20]| -> Vec<F> {
            vec![
                F::new_unnamed(d),
                F::new("name", d),
                F::new_unnamed(d).named("other"),
                F::from_byte_array(ba(&d[..9]).named("l").concat(ba(&d[9..]))).unwrap(),
                F::from_byte_array(ByteArray::from_preimage(d.to_vec().into(), None, Function::Hash160, None)).unwrap(),
                F::from_slice("s", &d).unwrap(),
                F::from_slice_unnamed(&d).unwrap(),
            ]
        };
        let hashes = |d: [u8; 20]| -> Vec<Hash160> {
            all(d).into_iter().map(|f| Hash160::from_byte_array(f.into_byte_array()).unwrap()).chain([Hash160::new(d), Hash160::new(d).named("h"), Hash160::from_slice(&d).unwrap()]).collect()
        };
        ch.note(|| format!("{} {}", x, y));
        for p in all(a) {
            for q in all(b) {
                ch.op();
                ensure!((p == q) == (a == b), "{:?} == {:?} is {}", p, q, p == q);
                ensure!((p.as_byte_array() == q.as_byte_array()) == (a == b), "{:?} == {:?}", p.as_byte_array(), q.as_byte_array());
                ensure!((hash_of(&p) == hash_of(&q)) == (a == b), "hashes of {:?} and {:?}", p, q);
                ensure!(p[..] == a && p[3] == x && p.as_ref() == a && p.clone().into_byte_array().as_slice() == a, "{:?} holds other bytes", p);
            }
        }
        for p in hashes(a) {
            for q in hashes(b) {
                ch.op();
                ensure!((p == q) == (a == b) && (hash_of(&p) == hash_of(&q)) == (a == b), "{:?} and {:?}: equal {}", p, q, p == q);
                ensure!(p.as_slice() == a && p.as_byte_array().as_slice() == a, "{:?} holds other bytes", p);
            }
        }
        ch.observe((x, y));
        Ok(())
    });
    // results of functions as a whole
    c.tree("functions", |ch| {
        let f = *ch.of(&FUNCS);
        let g = *ch.of(&FUNCS);
        let x = ch.of(&parts).clone();
        let y = ch.of(&parts).clone();
        ch.note(|| format!("{:?} of {:?} of {} + {}", g, f, tree(&x), tree(&y)));
        let a = apply(concat(x, y, false)?, f)?;
        for at in 0..=a.len() {
            split(&a, at)?;
        }
        let b = apply(a.clone(), g)?;
        let w = concat(a, b, false)?;
        for at in 0..=w.len() {
            let (l, r) = split(&w, at)?;
            concat(r, l, false)?;
        }
        ch.observe(tree(&w));
        Ok(())
    });
}
