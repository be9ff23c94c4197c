//! C27: reading script operations as values, and turning values into push operations.
use super::common::*;
use crate::engine::*;
use crate::refs::*;
use crate::{ensure, ensure_eq};
use bitcoin_cash::encoding_utils::{encode_bool, encode_int};
use bitcoin_cash::*;

/// Reading of one pushed item as a script number, as far as script integers go.
fn number(item: &[u8]) -> Option<i64> {
    unnum(item).filter(|n| n.abs() < 1 << 31).map(|n| n as i64)
}
/// What executing the serialized operation leaves on an empty stack: one item, or (None) something
/// that isn't a push.
fn executed(op: &Op) -> Option<Vec<u8>> {
    effect_of(&ref_ser_op(op))
}
/// Interpretation of serialized bytes, independent of the library's operations.
fn effect_of(b: &[u8]) -> Option<Vec<u8>> {
    Some(match b[0] {
        0 => vec![],
        n @ 1..=0x4b if b.len() == 1 + n as usize => b[1..].to_vec(),
        0x4c if b.len() > 1 => b[2..].to_vec(),
        0x4d if b.len() > 1 => b[3..].to_vec(),
        0x4e if b.len() > 1 => b[5..].to_vec(),
        0x4f => vec![0x81],
        n @ 0x51..=0x60 => vec![n - 0x50],
        _ => return None,
    })
}
fn views(op: &Op) -> Res {
    let item = executed(op);
    let ser = serialize_op(op).map_err(|e| e.to_string())?;
    ensure!(effect_of(&ser) == item, "{:?} serializes to {}, which doesn't leave {:?}", op, hexs(&ser), item);
    let want = match op {
        Op::Invalid(_) => None,
        _ => item.as_ref().and_then(|i| number(i)),
    };
    let got = guarded("to_integer", || op.to_integer())?;
    ensure!(got.map(|i| i.value() as i64) == want, "{:?} leaves {:?}: to_integer gives {:?}, expected {:?}", op, item.as_ref().map(|i| hexs(i)), got, want);
    let arr = guarded("to_byte_array", || op.to_byte_array().map(|b| b.to_vec()))?;
    match op {
        Op::PushByteArray { .. } => ensure!(arr == item, "{:?}: to_byte_array gives {:?}", op, arr),
        _ => ensure!(arr.is_none(), "{:?}: to_byte_array gives {:?}", op, arr),
    }
    match op {
        Op::Code(_) | Op::Invalid(_) => {}
        _ => {
            let d: StackItemData = guarded("StackItemData", || op.clone().into())?;
            let b = match d {
                StackItemData::Integer(i) => encode_int(i.value()),
                StackItemData::Boolean(b) => encode_bool(b),
                StackItemData::ByteArray(b) => b.to_vec(),
            };
            ensure!(Some(&b) == item.as_ref(), "stack item data of {:?} is {}", op, hexs(&b));
        }
    }
    Ok(())
}
/// Text of an operation: opcode name, hexadecimal digits, or number.
fn text(op: &Op) -> String {
    match op {
        Op::Code(c) => super::c23_opcodes::name_of(*c as u8).unwrap_or_else(|| format!("{:?}", c)),
        Op::Invalid(b) => format!("{:02x}", b),
        Op::PushByteArray { array, .. } => format!("0x{}", hex::encode(array.as_slice())),
        Op::PushBoolean(true) => "OP_TRUE".into(),
        Op::PushBoolean(false) => "OP_FALSE".into(),
        Op::PushInteger(i) => i.value().to_string(),
    }
}
fn arrays() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    let b = [0u8, 1, 2, 0x10, 0x11, 0x7f, 0x80, 0x81, 0xff];
    for n in 1..=5usize {
        for k in 0..b.len().pow(n.min(3) as u32) {
            let mut a: Vec<u8> = (0..n.min(3)).map(|i| b[k / b.len().pow(i as u32) % b.len()]).collect();
            while a.len() < n {
                a.insert(0, 0x55);
            }
            v.push(a);
        }
    }
    v.extend([6usize, 7, 8, 20, 32, 33, 74, 75, 76, 77, 255, 256, 257, 65535, 65536].map(|n| seq_bytes(n, 3)));
    v.extend([5usize, 8, 75, 76, 256].map(|n| vec![0; n]));
    v.extend([5usize, 8, 75, 76, 256].map(|n| { let mut a = vec![0; n]; a[n - 1] = 0x80; a[0] = 9; a }));
    v
}
fn alphabet() -> Vec<Op> {
    let mut v: Vec<Op> = (0..=255u8).map(op_code).collect();
    v.extend((0..=255u8).map(Op::Invalid));
    v.extend([Op::PushBoolean(true), Op::PushBoolean(false)]);
    for n in [0i32, 1, 2, 15, 16, 17, -1, -2, 127, 128, 129, -127, -128, -129, 255, 256, 0x7fff, 0x8000, -0x8000, 0x7fffffff, -0x7fffffff, 0x800000, 0x7fffff] {
        v.push(Op::PushInteger(Integer::new(n).unwrap()));
    }
    for a in [vec![], vec![0], vec![1], vec![2], vec![16], vec![17], vec![0x80], vec![0x81], vec![0xff], vec![1, 0], vec![0xff, 0], seq_bytes(75, 0), seq_bytes(76, 0), seq_bytes(256, 0)] {
        v.push(op_min(&a));
        v.push(op_plain(&a));
        v.push(Op::PushByteArray { array: ByteArray::new("named", a.clone()), is_minimal: true });
        v.push(Op::PushByteArray { array: ba(b"x").apply_function(a, Function::Sha256), is_minimal: true });
    }
    v
}
fn same(a: &Op, b: &Op) -> bool {
    match (a, b) {
        (Op::Code(a), Op::Code(b)) => *a as u8 == *b as u8,
        (Op::Invalid(a), Op::Invalid(b)) => a == b,
        (Op::PushBoolean(a), Op::PushBoolean(b)) => a == b,
        (Op::PushInteger(a), Op::PushInteger(b)) => a.value() == b.value(),
        (Op::PushByteArray { array: a, .. }, Op::PushByteArray { array: b, .. }) => a.as_slice() == b.as_slice(),
        _ => false,
    }
}
fn pushes<T: BitcoinDataType + ?Sized>(what: &str, v: &T, want: &[u8], ty: DataType, data: impl Fn(&T::Type) -> Vec<u8>) -> Res {
    let op = guarded("to_pushop", || v.to_pushop())?;
    let ser = serialize_op(&op).map_err(|e| e.to_string())?;
    ensure!(effect_of(&ser).as_deref() == Some(want), "{} becomes {:?} ({}), expected a push of {}", what, op, hexs(&ser), hexs(want));
    ensure!(ser.as_slice() == &push_minimal(want)[..], "{} isn't pushed minimally: {}", what, hexs(&ser));
    let d = guarded("to_data", || data(&v.to_data()))?;
    ensure!(d == want, "{}: to_data gives {}, expected {}", what, hexs(&d), hexs(want));
    ensure!(v.to_data_type() == ty, "{}: data type {:?}, expected {:?}", what, v.to_data_type(), ty);
    Ok(())
}

pub fn c27(c: &Ctx) {
    c.bound("every opcode byte as a known and as an unknown operation, both booleans, 1700 byte arrays (all combinations of 9 boundary bytes up to length 5, pushes around every length limit) in both push forms: number view, byte view, stack data, text");
    let mut ops: Vec<Op> = alphabet();
    for a in arrays() {
        ops.push(op_min(&a));
        ops.push(op_plain(&a));
    }
    c.range("views", ops.len() as u64, |i, ch| {
        let op = &ops[i as usize];
        ch.op();
        ch.note(|| trunc(&format!("{:?}", op), 200));
        views(op)?;
        ensure_eq!(guarded("Display", || op.to_string())?, text(op), "text of {:?}", op);
        ch.observe(ref_ser_op(op));
        Ok(())
    });
    let all2 = 65536u64;
    c.range("all arrays of up to 2 bytes", 1 + 256 + all2, |i, ch| {
        let a: Vec<u8> = match i {
            0 => vec![],
            i if i <= 256 => vec![(i - 1) as u8],
            i => ((i - 257) as u16).to_be_bytes().to_vec(),
        };
        ch.op();
        ch.note(|| hexs(&a));
        ch.observe(&a);
        views(&op_min(&a))?;
        views(&op_plain(&a))
    });
    let dense: i64 = if c.thorough { 4_000_000 } else { 300_000 };
    let mut ints: Vec<i64> = vec![];
    for k in 0..32 {
        for d in -3..=3 {
            ints.push((1i64 << k) + d);
            ints.push(-(1i64 << k) + d);
        }
    }
    ints.retain(|x| x.abs() < 1 << 31);
    let n_edge = ints.len() as u64;
    c.bound(format!("every script integer of magnitude up to {} and all powers of two within 3, as pushes, and turned into push operations from 32-bit and 64-bit integers, Integer and IntegerResult", dense / 2));
    c.range("integers", dense as u64 + n_edge, |i, ch| {
        let n = if i < n_edge { ints[i as usize] } else { (i - n_edge) as i64 - dense / 2 };
        ch.op();
        ch.note(|| n.to_string());
        ch.observe(n);
        let int = Integer::new(n).map_err(|e| e.to_string())?;
        views(&Op::PushInteger(int))?;
        let w = num(n);
        let enc = |x: &BitcoinInteger| encode_int(x.0.value());
        let ty = DataType::Integer;
        pushes("Integer", &int, &w, ty, enc)?;
        pushes("IntegerResult", &IntegerResult::new(n), &w, ty, enc)?;
        pushes("i32", &(n as i32), &w, ty, enc)?;
        let f = guarded("from_int", || Op::from_int(n as i32))?;
        ensure!(f == Op::PushInteger(int), "from_int({}) = {:?}", n, f);
        ensure!(Op::from_int(n) == Op::PushInteger(int), "from_int({}i64)", n);
        Ok(())
    });
    let vals = arrays();
    c.bound("byte arrays, slices, booleans, public keys, hashes and transaction preimages turned into push operations");
    c.range("byte arrays", vals.len() as u64, |i, ch| {
        let a = &vals[i as usize];
        ch.op();
        ch.note(|| hexs(a));
        ch.observe(a);
        let bytes = |x: &BitcoinByteArray| x.0.to_vec();
        pushes("slice", &a[..], a, DataType::ByteArray(None), bytes)?;
        for v in [ba(a), ByteArray::new("named", a.clone()), ba(b"x").apply_function(a.clone(), Function::Sha256)] {
            pushes("ByteArray", &v, a, DataType::ByteArray(Some(a.len())), bytes)?;
            let d = v.to_data().0;
            let p = match v.to_pushop() {
                Op::PushByteArray { array, .. } => array,
                o => return Err(format!("pushed by {:?}", o).into()),
            };
            for d in [d, p] {
                ensure!(d.name() == v.name() && d.function() == v.function() && d.preimage().map(|p| p.len()) == v.preimage().map(|p| p.len()), "conversion loses the origin: {:?} instead of {:?}", d, v);
            }
        }
        Ok(())
    });
    c.tree("booleans", |ch| {
        let b = ch.flag();
        ch.op();
        let w: Vec<u8> = if b { vec![1] } else { vec![] };
        ensure_eq!(encode_bool(b), w, "encode_bool({})", b);
        pushes("bool", &b, &w, DataType::Boolean, |x| if x.0 { vec![1] } else { vec![] })?;
        views(&Op::PushBoolean(b))
    });
    c.range("public keys", 33 * 256, |i, ch| {
        let mut k = [7u8; 33];
        k[i as usize / 256] = (i % 256) as u8;
        ch.op();
        let p = Pubkey::new(k);
        pushes("Pubkey", &p, &k, DataType::ByteArray(Some(33)), |x| x.0.to_vec())?;
        ensure!(p.as_slice() == &k[..] && p.as_byte_array().as_slice() == &k[..], "bytes");
        ensure_eq!(p.to_string(), hex::encode(&k[..]), "text");
        ensure!(Pubkey::from_slice_checked(&k) == Some(p) && Pubkey::from_slice(&k) == p, "from_slice");
        ch.observe(&k[..]);
        Ok(())
    });
    c.range("array conversions", 33, |i, ch| {
        ch.op();
        let n = i as usize;
        let b = seq_bytes(n, 5);
        macro_rules! conv { ($($n:literal)*) => { $( if n == $n {
            let a: [u8; $n] = b[..].try_into().unwrap();
            let (x, y): (ByteArray, ByteArray) = (a.into(), (&a).into());
            ensure!(x.as_slice() == &b[..] && y.as_slice() == &b[..], "arrays of {}", n);
        } )* } }
        conv!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
        let (x, y): (ByteArray, ByteArray) = (b.clone().into(), (&b[..]).into());
        ensure!(x.as_slice() == &b[..] && y.as_slice() == &b[..], "vector of {}", n);
        ensure!(Op::from(x) == op_min(&b) && Op::from_array(y) == op_min(&b), "operation");
        Ok(())
    });
    // equality of operations, tagged operations, patterns and scripts
    let al = alphabet();
    let n = al.len() as u64;
    c.bound(format!("equality of all pairs of {} operations (also inside tagged operations, scripts and patterns); it ignores names, origins and push forms", n));
    c.range("equality", n * n, |i, ch| {
        let (a, b) = (&al[(i / n) as usize], &al[(i % n) as usize]);
        let want = same(a, b);
        ch.note(|| trunc(&format!("{:?} and {:?}", a, b), 300));
        ch.op();
        ensure!((a == b) == want, "{:?} == {:?} is {}", a, b, a == b);
        ensure!((PatternOp::from(a) == PatternOp::from(b)) == want, "patterns of {:?} and {:?}", a, b);
        let ta = TaggedOp::from_op(a.clone()).named("one");
        let tb = TaggedOp::from_op(b.clone());
        ensure!((ta == tb) == want, "tagged {:?} and {:?}", a, b);
        ensure!(ta.op == *a && ta.pushed_names == Some(vec![Some("one".into())]), "named");
        ensure!((Script::from_ops(vec![a.clone()]) == Script::new(vec![tb.clone()])) == want, "scripts of {:?} and {:?}", a, b);
        let (x, y) = (Script::from_ops(vec![a.clone(), b.clone()]), Script::from_ops(vec![b.clone(), a.clone()]));
        ensure!((x == y) == want && x != Script::from_ops(vec![a.clone()]) && x != Script::default(), "scripts of two");
        ensure_eq!(x.to_string().split_whitespace().map(|s| s.to_string()).collect::<Vec<_>>(), vec![text(a), text(b)], "text of a script");
        ensure!(script_ops(&x).iter().zip([a, b]).all(|(p, q)| same(p, q)), "operations of a script");
        let t = TaggedScript::<Script>::new(vec![ta.clone(), tb.clone()]);
        ensure!(t.script_ops().count() == 2 && t.script_ops().zip([a, b]).all(|(p, q)| same(p, q)), "script_ops");
        ensure!(t.clone().ops().len() == 2 && t.clone().script() == x && Script::from(t.clone()) == x && t.ops()[0] == ta, "tagged script");
        ch.observe((i, want));
        Ok(())
    });
    let mut lens: Vec<usize> = (1..=if c.thorough { 600 } else { 90 }).collect();
    lens.extend([254, 255, 256, 257, 519, 520, 521, 522]);
    lens.extend(pow2_lens());
    lens.sort();
    lens.dedup();
    c.bound(format!("equality of byte arrays of {} lengths up to {} which differ in one bit of one byte (first, last, middle, around every power of two and 520) or in one byte more", lens.len(), lens[lens.len() - 1]));
    c.tree("equality of long arrays", |ch| {
        let n = *ch.of(&lens);
        let mut at: Vec<usize> = (0..17u32).flat_map(|k| [(1usize << k) - 1, 1 << k]).chain([2, 19, 20, 32, 33, 519, 520, 521, n / 2, n - 1]).filter(|&x| x < n).collect();
        at.sort();
        at.dedup();
        let how = ch.pick(at.len() + 2);
        let a = seq_bytes(n, 3);
        let mut b = a.clone();
        match at.get(how) {
            Some(&p) => b[p] ^= *ch.of(&[0x80u8, 1]),
            None if how == at.len() => b.push(0),
            None => {}
        }
        ch.note(|| format!("{} bytes, change {:?}", n, at.get(how)));
        ch.op();
        let want = a == b;
        for (x, y) in [(&a, &b), (&b, &a)] {
            let (x, y) = (ba(x), ByteArray::new("named", y.clone()));
            ensure!((x == y) == want, "byte arrays");
            let (p, q) = (Op::from_array(x.clone()), Op::PushByteArray { array: y.clone(), is_minimal: false });
            ensure!((p == q) == want, "operations");
            ensure!((PatternOp::from(&p) == PatternOp::from(&q)) == want, "patterns");
            let (s, t) = (Script::from_ops(vec![p.clone()]), Script::from_ops(vec![q.clone()]));
            ensure!((s == t) == want, "scripts");
            let (s, t) = (TxOutput { value: 1, script: s }, TxOutput { value: 1, script: t });
            ensure!((s == t) == want, "outputs");
            ensure!((BitcoinByteArray(x) == BitcoinByteArray(y)) == want, "values");
        }
        ch.observe((n, how));
        Ok(())
    });
    c.bound("scripts of 1..=300 operations which differ in one of them, or in their number");
    c.range("equality of long scripts", 300 * 8, |i, ch| {
        let (n, k) = (i as usize / 8 + 1, i as usize % 8);
        let a: Vec<Op> = (0..n).map(|j| op_min(&[j as u8, 77])).collect();
        let mut b = a.clone();
        match k {
            0 => b.push(op_code(0x61)),
            1 => drop(b.pop()),
            k => b[(n - 1) * (k - 2) / 5] = op_min(&[1, 2, 3]),
        }
        ch.op();
        let (s, t) = (Script::from_ops(a.clone()), Script::from_ops(b));
        ensure!(s != t && t != s && s == Script::from_ops(a), "{} operations, change {}", n, k);
        ch.observe((n, k));
        Ok(())
    });
    c.bound("integer results that are errors, and numbers that are no script integers, don't turn into operations or values");
    c.tree("no numbers", |ch| {
        let big = IntegerResult::new(i32::MAX);
        let small = IntegerResult::new(-i32::MAX);
        let bad: Vec<IntegerResult> = vec![
            IntegerResult::new(i32::MIN),
            IntegerResult::new(1i64 << 31),
            IntegerResult::new(1i64 << 32),
            IntegerResult::new(u64::MAX),
            IntegerResult::new(u128::MAX),
            big + 1,
            small - 1,
            big * 2,
            small * big,
            big / 0,
            big % 0,
            big + 1 - 1,
        ];
        let k = ch.pick(bad.len() + 5);
        ch.op();
        ch.note(|| format!("{:?}", bad.get(k)));
        ch.observe(k);
        match bad.get(k) {
            Some(&r) => {
                ensure!(guarded("", || r.to_pushop()).is_err(), "{:?} turns into an operation", r);
                ensure!(guarded("", || r.to_data()).is_err(), "{:?} turns into a value", r);
            }
            None => {
                let n = [-(1i64 << 31), 1 << 31, 1 << 32, (1 << 32) + 5, i64::MIN][k - bad.len()];
                ensure!(guarded("", || Op::from_int(n)).is_err(), "{} turns into an operation", n);
                if n == i32::MIN as i64 {
                    ensure!(guarded("", || i32::MIN.to_pushop()).is_err() && guarded("", || i32::MIN.to_data()).is_err(), "{} turns into an operation or a value", n);
                }
            }
        }
        Ok(())
    });
    c.range("preimages", 300, |i, ch| {
        ch.op();
        let code = Script::from_ops(vec![op_code(0x61); i as usize]);
        let p = TxPreimage::empty_with_script(&code);
        let want = p.ser();
        pushes("TxPreimage", &p, &want, DataType::ByteArray(None), |x| x.0.to_vec())
    });
    defaults(c);
}
fn defaults(c: &Ctx) {
    c.tree("defaults", |ch| {
        ch.op();
        ensure!(Script::default().ops().is_empty() && Script::default().ser_ops().is_empty() && Script::default().ser().as_slice() == [0], "empty script");
        ensure!(Pubkey::default().as_slice() == [0; 33], "default public key");
        let t = UnhashedTx::default();
        ensure!(t.inputs.is_empty() && t.outputs.is_empty() && t.lock_time == 0, "default transaction");
        ensure!(UnhashedTx::deser(t.ser()).map_err(|e| e.to_string())? == t, "default transaction read back");
        Ok(())
    });
}

/// BIP 68: the age an input of this sequence number has to have, as (kind, amount).
fn bip68(sequence: u32) -> Option<(bool, u16)> {
    if sequence & 1 << 31 != 0 {
        None
    } else {
        Some((sequence & 1 << 22 != 0, sequence as u16))
    }
}
/// BIP 112: whether `operand OP_CHECKSEQUENCEVERIFY` succeeds in an input of this sequence number.
fn csv_ok(operand: u32, sequence: u32) -> bool {
    const MASK: u32 = 1 << 22 | 0xffff;
    operand & 1 << 31 != 0 || sequence & 1 << 31 == 0 && (operand & MASK < 1 << 22) == (sequence & MASK < 1 << 22) && operand & MASK <= sequence & MASK
}
pub fn c28(c: &Ctx) {
    let make = |k: bool, n: u16| if k { CsvTimedelta::Seconds512(n) } else { CsvTimedelta::Blockheight(n) };
    c.bound("all 131072 relative lock times: decoded by BIP 68, compared with their neighbours, kept by the builder, the transaction encoding and the signature preimage");
    c.range("lock times", 2 * 65536, |i, ch| {
        let (k, n) = (i >= 65536, i as u16);
        let t = make(k, n);
        ch.op();
        ch.note(|| format!("{:?}", t));
        let s = guarded("sequence", || t.sequence())?;
        ensure!(bip68(s) == Some((k, n)), "{:?} gives sequence {:#x}, which BIP 68 reads as {:?}", t, s, bip68(s));
        ensure!(s & !(1 << 22 | 0xffff) == 0, "{:?} gives sequence {:#x} with bits without meaning", t, s);
        ensure_eq!(s & CSV_TYPE_FLAG != 0, k, "type flag");
        if n < 65535 {
            let o = make(k, n + 1);
            ensure!(t < o && o > t && t != o && t.sequence() < o.sequence(), "order of {:?} and {:?}", t, o);
        }
        ensure!(make(!k, n) != t, "kinds are equal");
        // as an operand it is pushed as the number it is
        let w = serialize_op(&Op::from_int(s as i32)).map_err(|e| e.to_string())?;
        ensure!(w.as_slice() == &push_minimal(&num(s as i64))[..], "operand {}", hexs(&w));
        if n % 257 == 0 || n < 300 || n > 65000 {
            let pk = Pubkey::new([2; 33]);
            let addr = Address::from_pk("bitcoincash", &pk);
            let mut b = TxBuilder::new(2, 0);
            let r = b.add_input(UnsignedTxInput { prev_out: TxOutpoint { tx_hash: Sha256d::new([1; 32]), vout: 0 }, sequence: s, value: 9 }, addr.p2pkh_script().unwrap(), P2PKHSignatory { pubkey: pk, sig_hash_flags: SigHashFlags::DEFAULT });
            let mut u = b.build().map_err(|e| e.to_string())?;
            let pre = u.preimages()[0][0].ser();
            ensure!(pre.len() > 52 && pre[pre.len() - 44..pre.len() - 40] == s.to_le_bytes(), "sequence in the preimage {}", hexs(&pre));
            u.sign_input(r, ba([1])).map_err(|e| e.to_string())?;
            let tx = u.complete_tx();
            let raw = tx.ser();
            ensure!(raw[raw.len() - 9..raw.len() - 5] == s.to_le_bytes(), "sequence in the transaction {}", hexs(&raw));
            let back = UnhashedTx::deser(raw).map_err(|e| e.to_string())?;
            ensure!(bip68(back.inputs[0].sequence) == Some((k, n)), "sequence read back");
        }
        ch.observe(s);
        Ok(())
    });
    let mut ns: Vec<u16> = vec![0, 1, 2, 3, 100, 144, 1000, 65533, 65534, 65535];
    for k in 1..16 {
        ns.extend([(1u16 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    if c.thorough {
        ns.extend((0..1000).map(|i| i * 65));
    }
    ns.sort();
    ns.dedup();
    let m = 2 * ns.len() as u64;
    c.bound(format!("all pairs of {} relative lock times as OP_CHECKSEQUENCEVERIFY operand and input sequence, judged by BIP 112", m));
    c.range("pairs", m * m, |i, ch| {
        let pick = |j: u64| make(j % 2 == 1, ns[(j / 2) as usize]);
        let (a, b) = (pick(i / m), pick(i % m));
        ch.op();
        ch.note(|| format!("script demands {:?}, input has {:?}", a, b));
        let want = match (a, b) {
            (CsvTimedelta::Blockheight(x), CsvTimedelta::Blockheight(y)) => x <= y,
            (CsvTimedelta::Seconds512(x), CsvTimedelta::Seconds512(y)) => x <= y,
            _ => false,
        };
        ensure_eq!(csv_ok(a.sequence(), b.sequence()), want, "OP_CHECKSEQUENCEVERIFY of {:?} in an input of {:?}", a, b);
        ensure_eq!(a == b, a.sequence() == b.sequence(), "equality");
        ch.observe((i, want));
        Ok(())
    });
}
