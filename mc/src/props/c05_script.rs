//! C05/C06: script serialization and parsing; C24: script code.
use super::common::*;
use crate::engine::*;
use crate::refs::*;
use crate::{ensure, ensure_eq};
use bitcoin_cash::*;

/// Opcode bytes that denote one operation on their own (everything but the push prefixes).
pub fn is_plain_opcode(b: u8) -> bool {
    b == 0 || b > 0x4e
}

fn effects_of_bytes(b: &[u8]) -> Option<Vec<Effect>> {
    Some(
        parse_script(b)?
            .into_iter()
            .map(|t| match (t.data, t.code) {
                (Some(d), _) => Effect::Push(d),
                (None, 0) => Effect::Push(vec![]),
                (None, 0x4f) => Effect::Push(vec![0x81]),
                (None, c @ 0x51..=0x60) => Effect::Push(vec![c - 0x50]),
                (None, c) => Effect::Exec(c),
            })
            .collect(),
    )
}

fn check_ops(ops: &[Op], ch: &mut Chooser) -> Res {
    let want = ref_ser_ops(ops);
    let s = Script::from_ops(ops.iter().cloned());
    let got = s.ser_ops();
    ch.op();
    if got.as_slice() != &want[..] {
        return Err(format!("serialized {} instead of {}", hexs(&got), hexs(&want)).into());
    }
    let got2 = serialize_ops(ops).map_err(|e| e.to_string())?;
    ensure!(got2 == got, "serialize_ops gives {}", hexs(&got2));
    let mut one = vec![];
    for o in ops {
        one.extend_from_slice(&serialize_op(o).map_err(|e| e.to_string())?);
    }
    ensure!(one == want, "serialize_op gives {}", hexs(&one));
    if ops.len() < 2000 {
        ensure!(s.ser().as_slice() == &var_bytes(&want)[..], "length-prefixed serialization gives {}", hexs(&s.ser()));
    }
    ch.op();
    let eff = effects(ops);
    // the bytes mean what the operations mean
    ensure!(effects_of_bytes(&want).as_ref() == Some(&eff), "ENGINE: reference serializer and parser disagree");
    let a = deserialize_ops(&got).map_err(|e| format!("deserialize_ops({}): {}", hexs(&want), e))?;
    ch.op();
    let b = deserialize_ops_byte_array(got.clone()).map_err(|e| format!("deserialize_ops_byte_array({}): {}", hexs(&want), e))?;
    ch.op();
    let c = script_ops(&Script::deser_ops(got.clone()).map_err(|e| e.to_string())?);
    let d = script_ops(&Script::deser(ba(var_bytes(&want))).map_err(|e| e.to_string())?);
    for (n, x) in [("deserialize_ops", &a), ("deserialize_ops_byte_array", &b), ("Script::deser_ops", &c), ("Script::deser", &d)] {
        ensure!(effects(x) == eff, "{} of {} gives {:?}, expected {:?}", n, hexs(&want), effects(x), eff);
        let re = serialize_ops(x).map_err(|e| e.to_string())?;
        ensure!(re.as_slice() == &want[..], "{} and serializing again gives {} instead of {}", n, hexs(&re), hexs(&want));
    }
    ch.observe(&want);
    Ok(())
}

pub fn ints(limit: i64, near: i64) -> Vec<i64> {
    let mut v: Vec<i64> = (-limit..=limit).collect();
    for b in 0..31 {
        for d in -near..=near {
            for s in [1i64, -1] {
                v.push(s * ((1i64 << b) + d));
            }
        }
    }
    v.extend([0x7fffffff, -0x7fffffff]);
    for d in 0..near {
        v.push(0x7fffffff - d);
        v.push(-0x7fffffff + d);
    }
    v.retain(|x| x.abs() <= 0x7fffffff);
    v.sort();
    v.dedup();
    v
}

fn lens(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if thorough { 2000 } else { 600 }).collect();
    v.extend(pow2_lens());
    v.extend([65530, 65531, 65532, 65533, 65534, 65538, 100000]);
    if thorough {
        v.extend([0xff_fffe, 0xff_ffff, 0x100_0000, 0x100_0001]);
    }
    v.sort();
    v.dedup();
    v
}

pub fn c05(c: &Ctx) {
    c.range("opcodes", 256, |i, ch| {
        let b = i as u8;
        if !is_plain_opcode(b) {
            return Ok(());
        }
        ch.note(|| format!("opcode {:02x}", b));
        check_ops(&[op_code(b)], ch)?;
        check_ops(&[op_code(b), op_min(&[b]), op_code(b)], ch)
    });
    let iv = ints(if c.thorough { 1 << 22 } else { 70_000 }, if c.thorough { 2000 } else { 200 });
    c.bound(format!("{} integers: |n| <= {}, and the neighbourhoods of all powers of two and of both ends", iv.len(), if c.thorough { 1 << 22 } else { 70_000 }));
    c.range("integers", iv.len() as u64, |i, ch| {
        let n = iv[i as usize];
        ch.note(|| n.to_string());
        let o = Op::PushInteger(Integer::new(n).map_err(|e| e.to_string())?);
        ensure_eq!(serialize_op(&o).map_err(|e| e.to_string())?.to_vec(), push_minimal(&num(n)), "serialized {}", n);
        check_ops(&[o], ch)
    });
    c.bound("all byte strings of at most 2 bytes, minimal and plain");
    c.range("short pushes", 2 * (1 + 256 + 65536), |i, ch| {
        let k = i / 2;
        let d: Vec<u8> = if k == 0 { vec![] } else if k < 257 { vec![(k - 1) as u8] } else { vec![((k - 257) >> 8) as u8, (k - 257) as u8] };
        ch.note(|| format!("{} minimal={}", hexs(&d), i % 2 == 0));
        check_ops(&[if i % 2 == 0 { op_min(&d) } else { op_plain(&d) }], ch)
    });
    let ls = lens(c.thorough);
    c.bound(format!("{} push lengths x 3 contents x minimal/plain", ls.len()));
    c.tree("push lengths", |ch| {
        let l = *ch.of(&ls);
        let d = match ch.pick(3) {
            0 => vec![0u8; l],
            1 => seq_bytes(l, 0x81),
            _ => vec![0x4e; l],
        };
        let m = ch.flag();
        ch.note(|| format!("{} bytes minimal={}", l, m));
        let o = if m { op_min(&d) } else { op_plain(&d) };
        if ch.flag() {
            check_ops(&[op_code(0x76), o, Op::from_int(1000)], ch)
        } else {
            check_ops(&[o], ch)
        }
    });
    let mut alpha: Vec<Op> = vec![
        op_code(0), op_code(0x4f), op_code(0x51), op_code(0x60), op_code(0x61), op_code(0x63), op_code(0x6a), op_code(0xab), op_code(0xac), op_code(0x50),
        Op::Invalid(0xff), Op::Invalid(0xee), Op::PushBoolean(true), Op::PushBoolean(false),
        Op::from_int(-1), Op::from_int(0), Op::from_int(1), Op::from_int(16), Op::from_int(17), Op::from_int(-2), Op::from_int(128), Op::from_int(-128), Op::from_int(0x7fffffff), Op::from_int(-0x7fffffff),
        op_min(&[]), op_min(&[0]), op_min(&[1]), op_min(&[0x10]), op_min(&[0x11]), op_min(&[0x81]), op_min(&[0x80]), op_min(&[0x4c, 0x4d]),
        op_plain(&[]), op_plain(&[1]), op_plain(&[0x10]), op_plain(&[0x81]), op_plain(&[0]),
        op_min(&[7; 75]), op_min(&[7; 76]), op_plain(&[7; 76]), op_min(&[0x4e; 255]), op_min(&[1; 256]),
    ];
    // every operation of the alphabet has to denote itself only
    alpha.retain(|o| !matches!(o, Op::Invalid(b) if is_known(*b)));
    let depth = if c.thorough { 4 } else { 3 };
    c.bound(format!("all sequences of up to {} operations over {} operations", depth, alpha.len()));
    c.tree("sequences", |ch| {
        let n = ch.pick(depth + 1);
        let ops: Vec<Op> = (0..n).map(|_| ch.of(&alpha).clone()).collect();
        ch.note(|| format!("{:?}", ops));
        check_ops(&ops, ch)
    });
    // what is known about the origin of pushed bytes doesn't matter
    let funcs = [Function::Plain, Function::Sha1, Function::Sha256, Function::Hash256, Function::Ripemd160, Function::Hash160, Function::EcdsaSign, Function::SchnorrSign, Function::Num2Bin, Function::ToDataSig, Function::Reverse, Function::UnexpectedSplit];
    c.bound("pushes of 0..=80, 255 and 256 bytes that are named, made of parts, or the result of any function, alone and between others");
    c.tree("tracked pushes", |ch| {
        let l = match ch.pick(83) {
            81 => 255,
            82 => 256,
            k => k,
        };
        let first = *ch.of(&[0u8, 1, 0x10, 0x81, 0xff]);
        let d = seq_bytes(l, first);
        let parts = |x: &[u8]| Some(vec![ByteArray::from_slice_unnamed(x)].into());
        let a = match ch.pick(4) {
            0 => ByteArray::new("x", d.clone()),
            1 => ByteArray::from_slice_unnamed(&d[..l / 2]).named("left").concat(ByteArray::from_slice_unnamed(&d[l / 2..])),
            2 => ByteArray::from_preimage(d.clone().into(), None, *ch.of(&funcs), parts(&[1, 2, 3])),
            _ => ByteArray::from_preimage(d.clone().into(), Some(std::sync::Arc::new("y".into())), *ch.of(&funcs), None),
        };
        let o = Op::PushByteArray { array: a, is_minimal: ch.flag() };
        ch.note(|| format!("{:?}", o));
        check_ops(&[o.clone()], ch)?;
        check_ops(&[op_code(0xa9), o.clone(), op_plain(&[3]), o], ch)
    });
    c.tree("long scripts", |ch| {
        let n = *ch.of(&[100usize, 252, 253, 600]);
        let a = ch.of(&alpha).clone();
        let b = ch.of(&alpha[..8]).clone();
        let ops: Vec<Op> = (0..n).map(|i| if i % 3 == 1 { b.clone() } else { a.clone() }).collect();
        if n > 300 && pushed(&a).map_or(0, |d| d.len()) > 4 {
            return Ok(());
        }
        ch.note(|| format!("{} x {:?} {:?}", n, a, b));
        check_ops(&ops, ch)
    });
}
pub fn is_known(b: u8) -> bool {
    !matches!(op_code(b), Op::Invalid(_)) || !is_plain_opcode(b)
}

/// Expected parse: (operations' effects, minimality marks of data pushes, bytes expected when
/// serializing again, whether a push used a non-shortest prefix).
fn expect_parse(b: &[u8]) -> Option<(Vec<Effect>, Vec<Option<bool>>, Vec<u8>, bool)> {
    let toks = parse_script(b)?;
    let mut marks = vec![];
    let mut re = vec![];
    let mut odd = false;
    let mut i = 0;
    for t in &toks {
        let orig_len = match (&t.data, t.code) {
            (Some(d), 76) => 2 + d.len(),
            (Some(d), 77) => 3 + d.len(),
            (Some(d), 78) => 5 + d.len(),
            (Some(d), _) => 1 + d.len(),
            (None, _) => 1,
        };
        let orig = &b[i..i + orig_len];
        i += orig_len;
        match &t.data {
            None => {
                marks.push(None);
                re.extend_from_slice(orig);
            }
            Some(d) => {
                let min = push_minimal(d);
                marks.push(Some(orig == &min[..]));
                if orig == &min[..] || orig == &push_plain(d)[..] {
                    re.extend_from_slice(orig);
                } else {
                    odd = true;
                    re.extend(push_plain(d));
                }
            }
        }
    }
    Some((effects_of_bytes(b)?, marks, re, odd))
}
fn marks_of(ops: &[Op]) -> Vec<Option<bool>> {
    ops.iter()
        .map(|o| match o {
            Op::PushByteArray { is_minimal, .. } => Some(*is_minimal),
            _ => None,
        })
        .collect()
}

pub fn check_bytes(arr: ByteArray, ch: &mut Chooser) -> Res {
    let b = arr.to_vec();
    let exp = expect_parse(&b);
    let r1 = guarded("deserialize_ops", || deserialize_ops(&b))?;
    ch.op();
    let r2 = guarded("deserialize_ops_byte_array", || deserialize_ops_byte_array(arr.clone()))?;
    ch.op();
    let r3 = guarded("Script::deser_ops", || Script::deser_ops(arr.clone()))?.map(|s| script_ops(&s));
    let r4 = guarded("Script::deser", || Script::deser(ba(var_bytes(&b))))?.map(|s| script_ops(&s));
    ch.op();
    let mut finding = None;
    for (n, r) in [("deserialize_ops", &r1), ("deserialize_ops_byte_array", &r2), ("Script::deser_ops", &r3), ("Script::deser", &r4)] {
        match (&exp, r) {
            (None, Ok(o)) => return Err(format!("{} accepted the truncated script {} as {:?}", n, hexs(&b), o).into()),
            (Some(_), Err(e)) => return Err(format!("{} rejected the script {}: {}", n, hexs(&b), e).into()),
            (None, Err(_)) => {}
            (Some((eff, marks, re, odd)), Ok(o)) => {
                ensure!(effects(o) == *eff, "{} of {} gives {:?}, expected {:?}", n, hexs(&b), effects(o), eff);
                ensure!(marks_of(o) == *marks, "{} of {}: minimality marks {:?}, expected {:?}", n, hexs(&b), marks_of(o), marks);
                let s = serialize_ops(o).map_err(|e| format!("serializing {} again: {}", hexs(&b), e))?;
                ch.op();
                if s.as_slice() != &b[..] {
                    let m = format!("{} of {} serializes back to {}", n, hexs(&b), hexs(&s));
                    if *odd && s.as_slice() == &re[..] {
                        finding = Some(m);
                    } else {
                        return Err(m.into());
                    }
                }
            }
        }
    }
    if let (Ok(a), Ok(b2)) = (&r1, &r2) {
        ensure!(a == b2, "the parsers disagree on {}: {:?} / {:?}", hexs(&b), a, b2);
    }
    ch.observe((exp.as_ref().map(|e| (e.0.clone(), e.1.clone())), finding.is_some()));
    match finding {
        Some(msg) => Err(Fail::Finding { key: "nonshortest-pushdata", msg }),
        None => Ok(()),
    }
}

pub fn c06(c: &Ctx) {
    let l = if c.thorough { 3 } else { 2 };
    c.bound(format!("every byte string of at most {} bytes", l));
    let n: u64 = (0..=l).map(|k| 1u64 << (8 * k)).sum();
    c.range("short strings", n, |i, ch| {
        let mut k = i;
        let mut len = 0;
        while k >= 1u64 << (8 * len) {
            k -= 1u64 << (8 * len);
            len += 1;
        }
        let b: Vec<u8> = (0..len).map(|j| (k >> (8 * j)) as u8).collect();
        ch.note(|| hexs(&b));
        check_bytes(ba(&b), ch)
    });
    let alpha: &[u8] = &[0, 1, 2, 3, 0x10, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x51, 0x6a, 0x81, 0xab, 0xff];
    let maxl = if c.thorough { 6 } else { 5 };
    c.bound(format!("every string of at most {} bytes over {:02x?}", maxl, alpha));
    c.tree("critical bytes", |ch| {
        let l = ch.pick(maxl + 1);
        let b: Vec<u8> = (0..l).map(|_| *ch.of(alpha)).collect();
        ch.note(|| hexs(&b));
        check_bytes(ba(&b), ch)
    });
    // every push form for every length around the boundaries, complete or cut short
    let mut ls: Vec<usize> = (0..=300).collect();
    ls.extend(pow2_lens());
    ls.push(65534);
    c.bound("all four push forms x lengths 0..=300, next to every power of two up to 2^16 x 3 contents x (complete, one byte short, one byte over, two pushes)");
    c.tree("push forms", |ch| {
        let l = *ch.of(&ls);
        let d = match ch.pick(3) {
            0 => vec![0u8; l],
            1 => seq_bytes(l, 0x81),
            _ => vec![0x05; l],
        };
        let mut b = match ch.pick(4) {
            0 if l >= 1 && l <= 75 => vec![l as u8],
            1 if l <= 255 => vec![0x4c, l as u8],
            2 if l <= 65535 => [&[0x4d][..], &(l as u16).to_le_bytes()].concat(),
            3 => [&[0x4e][..], &(l as u32).to_le_bytes()].concat(),
            _ => return Ok(()),
        };
        b.extend(&d);
        match ch.pick(4) {
            0 => {}
            1 => {
                b.pop();
            }
            2 => b.push(0xac),
            _ => {
                if l > 1000 {
                    return Ok(());
                }
                b = [b.clone(), b].concat();
            }
        }
        ch.note(|| hexs(&b));
        check_bytes(ba(&b), ch)
    });
    // many operations: the number of operations and the length of the script around every power of two
    let lens: Vec<usize> = pow2_lens().into_iter().filter(|l| *l >= 500 && (*l <= if c.thorough { 17_000 } else { 4_200 })).chain([9_999, 10_001]).collect();
    c.bound(format!("scripts of {:?} operations, one byte each or in turn with one-byte pushes, complete or cut inside the last", lens));
    c.range("long scripts", lens.len() as u64 * 6, |i, ch| {
        let l = lens[(i / 6) as usize];
        let mut b = match i % 3 {
            0 => vec![0x61; l],
            1 => (0..l).flat_map(|k| if k % 2 == 0 { vec![0x51] } else { vec![0x01, 0x2a] }).collect::<Vec<u8>>(),
            _ => (0..l).map(|k| [0x00, 0x76, 0xff, 0x4f, 0x60][k % 5]).collect(),
        };
        if i % 6 >= 3 {
            b.extend([0x4c, 3, 1, 2]);
        }
        ch.note(|| format!("{} operations, variant {}", l, i % 6));
        check_bytes(ba(&b), ch)
    });
    // scripts kept as tracked arrays: any division into parts, parts that are hashes or signatures
    let scripts: Vec<Vec<u8>> = vec![
        vec![0x76, 0xa9, 0x03, 1, 2, 3, 0x88, 0xac],
        vec![0x4c, 2, 9, 9, 0x51, 0x00],
        vec![0x4d, 1, 0, 7, 0x4e, 2, 0, 0, 0, 7, 7],
        vec![1, 5, 2, 1, 5, 0x4f],
        vec![0x03, 1, 2],
        push_plain(&seq_bytes(80, 3)),
    ];
    c.bound("6 scripts as tracked arrays, divided at every 1 or 2 positions, each part plain / named / marked with every function");
    let funcs = [Function::Plain, Function::Sha256, Function::EcdsaSign, Function::Num2Bin, Function::UnexpectedSplit, Function::Reverse];
    c.tree("tracked parts", |ch| {
        let s = ch.of(&scripts);
        let i = ch.pick(s.len() + 1);
        let j = i + ch.pick(s.len() + 1 - i);
        let mut arr: Option<ByteArray> = None;
        for p in [&s[..i], &s[i..j], &s[j..]] {
            let f = *ch.of(&funcs);
            let input = ByteArray::new("input", vec![1u8, 2, 3, 4, 5, 6]);
            let part = if f == Function::Plain { ByteArray::new("part", p.to_vec()) } else { input.apply_function(p.to_vec(), f) };
            arr = Some(match arr {
                None => part,
                Some(a) => a.concat(part),
            });
        }
        let arr = arr.unwrap();
        ensure!(arr.as_slice() == &s[..], "concatenating the parts of {} gives {}", hexs(s), hexs(&arr));
        ch.note(|| format!("{} split at {} {}", hexs(s), i, j));
        check_bytes(arr, ch)
    });
}

pub fn c24(c: &Ctx) {
    let sep = op_code(0xab);
    let alpha: Vec<Op> = vec![
        sep.clone(), op_code(0x61), op_min(&[0xab]), op_min(&[0xab; 3]), op_plain(&[5]), Op::from_int(0xab), Op::PushBoolean(true), Op::Invalid(0xff), op_code(0xac),
    ];
    let depth = if c.thorough { 7 } else { 5 };
    c.bound(format!("all scripts of up to {} operations over {} operations (several with the byte 0xab in pushed data) x every separator index present, no index, default", depth, alpha.len()));
    c.tree("script code", |ch| {
        let n = ch.pick(depth + 1);
        let ops: Vec<Op> = (0..n).map(|_| ch.of(&alpha).clone()).collect();
        ch.note(|| format!("{:?}", ops));
        let tagged: Vec<TaggedOp> = ops.iter().map(|o| TaggedOp::from_op(o.clone())).collect();
        let s = Script::new(tagged);
        let seps: Vec<usize> = ops.iter().enumerate().filter(|(_, o)| **o == sep).map(|(i, _)| i).collect();
        let cmp = |what: &str, got: &Script, want: &[Op]| -> Res {
            let g = script_ops(got);
            ensure!(g == want && effects(&g) == effects(want), "{}: {:?}, expected {:?}", what, g, want);
            ensure!(got.ser_ops().as_slice() == &ref_ser_ops(want)[..], "{}: serialized {}", what, hexs(&got.ser_ops()));
            Ok(())
        };
        cmp("without an index", &s.to_script_code(None), &ops)?;
        ch.op();
        cmp("default (first separator)", &s.to_script_code_first(), seps.first().map_or(&ops[..], |i| &ops[i + 1..]))?;
        ch.op();
        for (k, i) in seps.iter().enumerate() {
            cmp(&format!("separator {}", k), &s.to_script_code(Some(k)), &ops[i + 1..])?;
            ch.op();
        }
        // the script code used in signature preimages
        let p = TxPreimage::empty_with_script(&s);
        cmp("preimage", &p.script_code, seps.first().map_or(&ops[..], |i| &ops[i + 1..]))?;
        cmp("original", &s, &ops)?;
        ch.observe(ref_ser_ops(&ops));
        Ok(())
    });
    // many separators, and what is noted about the operations
    let lens: &[usize] = if c.thorough { &[1, 2, 7, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300, 600] } else { &[1, 2, 8, 9, 17, 33, 65, 129, 256, 257, 300] };
    c.bound(format!("scripts of {:?} operations with a separator at every 1st, 2nd, 3rd, 5th, 16th, only the last or only the last two operations, every index, tagged operations compared in full", lens));
    c.tree("long scripts", |ch| {
        let n = *ch.of(lens);
        let step = *ch.of(&[1usize, 2, 3, 5, 16, 0, 1000]);
        let at = |i: usize| match step {
            0 => i + 1 == n,
            1000 => i + 2 >= n,
            s => i % s == s - 1,
        };
        ch.note(|| format!("{} operations, step {}", n, step));
        let ops: Vec<TaggedOp> = (0..n)
            .map(|i| {
                let op = if at(i) { sep.clone() } else { alpha[1 + i % (alpha.len() - 1)].clone() };
                let mut t = TaggedOp::from_op(op);
                t.src_file = format!("f{}", i % 3).into();
                t.src_line = i as u32;
                t.src_column = i as u32 * 3;
                t.src_code = vec![(i as u32, format!("src {}", i).into())];
                t.pushed_names = Some(vec![Some(format!("p{}", i).into()), None]);
                t.alt_pushed_names = if i % 2 == 0 { None } else { Some(vec![Some("q".into())]) };
                t
            })
            .collect();
        let s = Script::new(ops.clone());
        let seps: Vec<usize> = (0..n).filter(|i| at(*i)).collect();
        let cmp = |what: String, got: Script, from: usize| -> Res {
            let f = |t: &TaggedOp| (t.op.clone(), effect(&t.op), t.src_code.clone(), t.pushed_names.clone(), t.alt_pushed_names.clone(), (t.src_file.clone(), t.src_line, t.src_column));
            let g: Vec<_> = got.ops().iter().map(f).collect();
            let w: Vec<_> = ops[from..].iter().map(f).collect();
            ensure!(g.len() == w.len(), "{}: {} operations, expected {}", what, g.len(), w.len());
            ensure!(g == w, "{}: {}, expected {}", what, trunc(&format!("{:?}", g), 300), trunc(&format!("{:?}", w), 300));
            Ok(())
        };
        cmp("without an index".into(), s.to_script_code(None), 0)?;
        cmp("default".into(), s.to_script_code_first(), seps.first().map_or(0, |i| i + 1))?;
        for (k, i) in seps.iter().enumerate() {
            cmp(format!("separator {}", k), s.to_script_code(Some(k)), i + 1)?;
            ch.op();
        }
        ch.observe((n, step));
        Ok(())
    });
    // the same on scripts parsed from bytes
    let bytes: &[u8] = &[0xab, 0x61, 1, 2, 0x4c, 0x51, 0xac];
    let maxl = if c.thorough { 7 } else { 6 };
    c.bound(format!("all byte scripts of up to {} bytes over {:02x?}", maxl, bytes));
    c.tree("parsed scripts", |ch| {
        let l = ch.pick(maxl + 1);
        let b: Vec<u8> = (0..l).map(|_| *ch.of(bytes)).collect();
        ch.note(|| hexs(&b));
        let Some(toks) = parse_script(&b) else { return Ok(()) };
        let Ok(s) = Script::deser_ops(ba(&b)) else { return Ok(()) };
        let mut pos = 0;
        let mut first = None;
        let mut k = 0;
        for t in &toks {
            let len = 1 + match t.code { 76 => 1, 77 => 2, 78 => 4, _ => 0 } + t.data.as_ref().map_or(0, |d| d.len());
            pos += len;
            if t.code == 0xab && t.data.is_none() {
                first = first.or(Some(pos));
                let got = s.to_script_code(Some(k));
                ch.op();
                ensure!(effects(&script_ops(&got)) == effects_of_bytes(&b[pos..]).unwrap(), "separator {} of {}: got {}", k, hexs(&b), hexs(&got.ser_ops()));
                k += 1;
            }
        }
        let got = s.to_script_code_first();
        ch.op();
        ensure!(effects(&script_ops(&got)) == effects_of_bytes(&b[first.unwrap_or(0)..]).unwrap(), "first separator of {}: got {}", hexs(&b), hexs(&got.ser_ops()));
        ch.observe((first, k, got.ser_ops().to_vec()));
        Ok(())
    });
}
