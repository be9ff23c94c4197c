//! C01: transactions <-> wire bytes; C03: integers, compact sizes, item lists.
use super::common::*;
use crate::engine::*;
use crate::refs::*;
use crate::{ensure, ensure_eq};
use bitcoin_cash::encoding_utils::*;
use bitcoin_cash::*;

pub fn hash_n(i: usize) -> [u8; 32] {
    let mut h = [0u8; 32];
    match i {
        0 => {}
        1 => h = [0xff; 32],
        _ => h.copy_from_slice(&sha256(&[i as u8])),
    }
    h
}

/// A script of the alphabet: the library's operations and the bytes they must have on the wire.
pub fn scripts(thorough: bool) -> Vec<Vec<Op>> {
    let mut v: Vec<Vec<Op>> = vec![
        vec![],
        vec![op_code(0x51)],
        vec![op_code(0x76), op_code(0xa9), op_min(&[7; 20]), op_code(0x88), op_code(0xac)],
        vec![Op::from_int(16), Op::from_int(17), Op::from_int(-1), Op::PushBoolean(true)],
        vec![Op::Invalid(0xfe), op_code(0x61)],
        vec![op_plain(&[]), op_plain(&[5]), op_min(&[5]), op_min(&[0x81])],
        vec![op_min(&seq_bytes(76, 3))],
        vec![op_min(&seq_bytes(256, 3)), op_code(0xab)],
        vec![op_code(0x6a), op_plain(b"SLP\0"), op_plain(&[1])],
    ];
    if thorough {
        v.push(vec![op_min(&[0]); 84]);
        v.push(vec![op_min(&seq_bytes(251, 1))]);
        v.push(vec![op_min(&[9; 75]), op_min(&[9; 75])]);
    }
    v
}
pub fn mk_in(hash: [u8; 32], vout: u32, ops: &[Op], seq: u32) -> TxInput {
    TxInput::new(TxOutpoint { tx_hash: Sha256d::new(hash), vout }, Script::from_ops(ops.iter().cloned()), seq)
}
pub fn mk_out(value: u64, ops: &[Op]) -> TxOutput {
    TxOutput { value, script: Script::from_ops(ops.iter().cloned()) }
}

/// Encodes `tx`, compares with the reference bytes, decodes and compares every field.
pub fn check_wire(tx: &UnhashedTx, ch: &mut Chooser) -> Res {
    check_encode(tx, ch)?;
    let r = to_rtx(tx);
    check_decode(&r.ser(), &r, ch)
}
pub fn check_encode(tx: &UnhashedTx, ch: &mut Chooser) -> Res {
    let r = to_rtx(tx);
    let want = r.ser();
    let got = tx.ser();
    ch.op();
    if got.as_slice() != &want[..] {
        return Err(format!("encoded transaction: got {}, expected {}", hexs(&got), hexs(&want)).into());
    }
    ch.observe((want.len(), r.ins.len(), r.outs.len(), sha256(&want)));
    Ok(())
}
pub fn check_decode(bytes: &[u8], r: &RTx, ch: &mut Chooser) -> Res {
    ch.op();
    let tx = match UnhashedTx::deser(bytes.to_vec().into()) {
        Ok(t) => t,
        Err(e) => return Err(format!("decoding {} failed: {}", hexs(bytes), e).into()),
    };
    let back = to_rtx(&tx);
    ensure!(back == *r, "decoded transaction differs: got {:?}, expected {:?}", trunc(&format!("{:?}", back), 600), trunc(&format!("{:?}", r), 600));
    let re = tx.ser();
    ensure!(re.as_slice() == bytes, "re-encoding the decoded transaction gives {} instead of {}", hexs(&re), hexs(bytes));
    Ok(())
}
fn desc(tx: &UnhashedTx) -> String {
    trunc(&format!("{:?}", to_rtx(tx)), 700)
}

pub fn c01(c: &Ctx) {
    let scr = scripts(c.thorough);
    let ni = if c.thorough { 3 } else { 2 };
    c.bound(format!("shape: 0..={} inputs x 0..={} outputs drawn from 6 inputs / 5 outputs, all versions x lock times", ni, ni));
    let ins: Vec<TxInput> = vec![
        mk_in(hash_n(0), 0xffffffff, &scr[0], 0xffffffff),
        mk_in(hash_n(2), 0, &scr[2], 0),
        mk_in(hash_n(3), 0x01020304, &scr[5], 0x05060708),
        mk_in(hash_n(1), 1, &scr[6], 0xfffffffe),
        mk_in(hash_n(4), 256, &scr[7], 1),
        mk_in(hash_n(5), 0x80000000, &scr[4], 0x80000000),
    ];
    let outs: Vec<TxOutput> = vec![
        mk_out(0, &scr[0]),
        mk_out(546, &scr[2]),
        mk_out(0x0102030405060708, &scr[3]),
        mk_out(u64::MAX, &scr[7]),
        mk_out(2_100_000_000_000_000, &scr[5]),
    ];
    c.tree("shape", |ch| {
        let version = *ch.of(&I32S);
        let lock_time = *ch.of(&U32S);
        let n = ch.pick(ni + 1);
        let inputs = (0..n).map(|_| ch.of(&ins).clone()).collect();
        let n = ch.pick(ni + 1);
        let outputs = (0..n).map(|_| ch.of(&outs).clone()).collect();
        let tx = UnhashedTx { version, inputs, outputs, lock_time };
        ch.note(|| desc(&tx));
        check_wire(&tx, ch)
    });
    c.bound("fields: one input over 6 hashes x 8 vouts x 8 sequences x all scripts; one output over 9 values x all scripts");
    c.tree("input fields", |ch| {
        let h = hash_n(ch.pick(6));
        let vout = *ch.of(&U32S);
        let seq = *ch.of(&U32S);
        let s = ch.of(&scr).clone();
        let tx = UnhashedTx { version: 2, inputs: vec![mk_in(h, vout, &s, seq)], outputs: vec![], lock_time: 7 };
        ch.note(|| desc(&tx));
        check_wire(&tx, ch)?;
        // the parts alone
        let i = &tx.inputs[0];
        ensure_eq!(i.ser().to_vec(), to_rtx(&tx).ins[0].ser(), "encoded input");
        ensure_eq!(i.prev_out.ser().to_vec(), to_rtx(&tx).ins[0].outpoint(), "encoded outpoint");
        let (b, rest) = TxOutpoint::deser_rest(i.prev_out.ser().concat(ba([9u8, 8]))).map_err(|e| e.to_string())?;
        ensure!(b == i.prev_out && rest.as_slice() == [9, 8], "outpoint round trip");
        Ok(())
    });
    c.tree("output fields", |ch| {
        let v = *ch.of(&U64S);
        let s = ch.of(&scr).clone();
        let v2 = *ch.of(&U64S);
        let tx = UnhashedTx { version: -5, inputs: vec![], outputs: vec![mk_out(v, &s), mk_out(v2, &[])], lock_time: 0xfffffffe };
        ch.note(|| desc(&tx));
        check_wire(&tx, ch)?;
        ensure_eq!(tx.outputs[0].ser().to_vec(), to_rtx(&tx).outs[0].ser(), "encoded output");
        Ok(())
    });
    let counts: &[usize] = &[0, 1, 2, 251, 252, 253, 254, 255, 256, 257, 300];
    c.bound(format!("counts: inputs and outputs in {:?} (encoding and decoding take time quadratic in the number of items; larger counts are checked on lists in C03)", counts));
    c.tree("counts", |ch| {
        let a = *ch.of(counts);
        let b = *ch.of(counts);
        let tx = UnhashedTx {
            version: 1,
            inputs: (0..a).map(|i| mk_in(hash_n(i % 7), i as u32, &[], !(i as u32))).collect(),
            outputs: (0..b).map(|i| mk_out(i as u64 * 3, &[op_code(0x51)])).collect(),
            lock_time: 1,
        };
        ch.note(|| format!("{} inputs, {} outputs", a, b));
        check_wire(&tx, ch)
    });
    if c.thorough {
        c.bound("decoding only: 65535 / 65536 outputs");
        c.tree("huge output counts", |ch| {
            let n = *ch.of(&[65535usize, 65536]);
            let r = RTx { version: 1, ins: vec![], outs: (0..n).map(|i| ROut { value: i as u64, script: vec![] }).collect(), lock: 5 };
            let b = r.ser();
            ch.op();
            let tx = UnhashedTx::deser(b.into()).map_err(|e| e.to_string())?;
            ensure!(to_rtx(&tx) == r, "{} outputs decoded differently", n);
            ch.observe(n);
            Ok(())
        });
    }
    // script lengths, as one push or as many one-byte operations, on both sides
    let mut lens: Vec<usize> = (0..=if c.thorough { 800 } else { 520 }).collect();
    lens.extend(pow2_lens());
    lens.extend([65531, 65532, 65533, 65534, 65538, 65539, 65540, 65541, 65542]);
    lens.sort();
    lens.dedup();
    c.bound(format!("script lengths: {} lengths incl. all around 252/253 and 65535/65536, as single pushes and as single-byte operations", lens.len()));
    c.tree("script lengths", |ch| {
        let l = *ch.of(&lens);
        let kind = ch.pick(2);
        let in_input = ch.flag();
        if kind == 1 && l > 1000 && (l > 10000 || !c.thorough) {
            return Ok(()); // encoding takes time quadratic in the number of operations
        }
        let ops: Vec<Op> = if kind == 0 { vec![op_min(&seq_bytes(l, 1))] } else { vec![op_code(0x61); l] };
        let tx = UnhashedTx {
            version: 1,
            inputs: vec![mk_in(hash_n(2), 3, if in_input { &ops } else { &[] }, 4)],
            outputs: vec![mk_out(5, if in_input { &[] } else { &ops }), mk_out(6, &[op_code(0x6a)])],
            lock_time: 0x11223344,
        };
        ch.note(|| format!("len {} kind {} input {}", l, kind, in_input));
        check_wire(&tx, ch)
    });
}

macro_rules! ints {
    ($c:expr, $name:expr, $t:ty, $small:expr) => {{
        let vals: Vec<$t> = $small;
        let n = vals.len() as u64;
        $c.range(concat!("int ", $name), n, |i, ch| {
            let v = vals[i as usize];
            ch.note(|| format!("{}{}", v, $name));
            let e = v.ser();
            ch.op();
            ensure_eq!(e.to_vec(), v.to_le_bytes().to_vec(), "encoding of {}{}", v, $name);
            let (d, rest) = <$t>::deser_rest(e.clone().concat(ba([0xaau8, 0xbb]))).map_err(|e| e.to_string())?;
            ch.op();
            ensure!(d == v && rest.as_slice() == [0xaa, 0xbb], "{}{} decoded to {} rest {:?}", v, $name, d, rest.to_vec());
            if v as u128 & 0xf0 == 0 || $name.len() > 3 {
                strict(&<$t>::deser, &|x| *x == v, &e.to_vec())?;
            }
            ensure!(<$t>::deser(e.clone()).ok() == Some(v), "strict decoding of {}", v);
            for k in 0..e.len() {
                ensure!(<$t>::deser_rest(e.as_slice()[..k].to_vec().into()).is_err(), "{} bytes decoded as a {}", k, $name);
            }
            ch.observe(e.to_vec());
            Ok(())
        });
    }};
}
fn boundary_u128(bits: u32) -> Vec<u128> {
    let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let mut v = vec![];
    for b in 0..bits {
        let p = 1u128 << b;
        for d in 0..3u128 {
            v.push((p.wrapping_add(d)) & mask);
            v.push(p.wrapping_sub(d) & mask);
            v.push(!(p.wrapping_add(d)) & mask);
        }
    }
    for i in 0..16u32 {
        // every byte distinct
        let mut x = 0u128;
        for k in 0..16 {
            x = x << 8 | ((i * 16 + k) as u128 & 0xff);
        }
        v.push(x & mask);
        v.push((x.rotate_left(64)) & mask);
    }
    v.push(0);
    v.push(mask);
    v.sort();
    v.dedup();
    v
}
fn check_compact(n: u64, ch: &mut Chooser) -> Res {
    let e = encode_var_int(n);
    ch.op();
    ensure_eq!(e, compact(n), "compact size of {}", n);
    let mut w = vec![1u8, 2];
    write_var_int(&mut w, n).map_err(|e| e.to_string())?;
    ensure_eq!(w[2..].to_vec(), compact(n), "compact size of {} appended", n);
    let mut b = e.clone();
    b.extend([0xee, 0xff, 1, 2, 3, 4, 5, 6, 7, 8]);
    let mut cur = std::io::Cursor::new(&b[..]);
    let r = read_var_int(&mut cur).map_err(|e| e.to_string())?;
    ch.op();
    ensure!(r == n && cur.position() as usize == e.len(), "compact size {} read back as {} ({} bytes used)", n, r, cur.position());
    for k in 0..e.len() {
        ensure!(read_var_int(&mut std::io::Cursor::new(&e[..k])).is_err(), "truncated compact size {:?} was read", &e[..k]);
    }
    ch.observe((e.len(), n));
    Ok(())
}

/// A strict decoder takes exactly the encoding: whatever follows it is an error.
fn strict<T>(deser: &dyn Fn(ByteArray) -> bitcoin_cash::error::Result<T>, same: &dyn Fn(&T) -> bool, e: &[u8]) -> Res {
    ensure!(deser(e.to_vec().into()).as_ref().map_or(false, |x| same(x)), "strict decoding of {}", trunc(&hexs(e), 100));
    for extra in [&[0u8][..], &[1], &[0x51], &[0xff], &[0, 0], &[0, 1], &[0; 32], &[0xff; 300], e] {
        if e.len() <= 1000 || extra == [0] {
            ensure!(deser([e, extra].concat().into()).is_err(), "{} followed by {} was decoded strictly", trunc(&hexs(e), 100), trunc(&hexs(extra), 100));
        }
    }
    Ok(())
}
fn check_list<T: BitcoinCode + PartialEq + std::fmt::Debug + Clone>(xs: &[T], enc: &dyn Fn(&T) -> Vec<u8>, ch: &mut Chooser) -> Res {
    let mut body = vec![];
    for x in xs {
        body.extend(enc(x));
    }
    let mut want = compact(xs.len() as u64);
    want.extend(&body);
    let e = xs.to_vec().ser();
    ch.op();
    ensure!(e.as_slice() == &want[..], "encoded list: got {}, expected {}", hexs(&e), hexs(&want));
    let mut ext = want.clone();
    ext.extend([0x77, 0x66]);
    let (d, rest) = Vec::<T>::deser_rest(ext.into()).map_err(|e| e.to_string())?;
    ch.op();
    ensure!(d == xs && rest.as_slice() == [0x77, 0x66], "list decoded to {} items, rest {:?}", d.len(), rest.to_vec());
    strict(&Vec::<T>::deser, &|x| x == xs, &want)?;
    ch.op();
    // cut inside or between the items
    let mut cuts: Vec<usize> = if want.len() < 600 { (0..want.len()).collect() } else { vec![0, want.len() - 1] };
    let mut p = want.len() - body.len();
    for x in xs {
        if want.len() < 30_000 && cuts.len() < 900 {
            cuts.push(p);
        }
        p += enc(x).len();
    }
    for k in cuts {
        if k < want.len() {
            ensure!(Vec::<T>::deser_rest(want[..k].to_vec().into()).is_err(), "the first {} of {} bytes of a list of {} items decoded as a list", k, want.len(), xs.len());
            if want.len() < 600 {
                ensure!(Vec::<T>::deser(want[..k].to_vec().into()).is_err(), "the first {} of {} bytes of a list of {} items decoded strictly", k, want.len(), xs.len());
            }
        }
    }
    let all = encode_bitcoin_code_all(xs.iter());
    ensure!(all.as_slice() == &body[..], "encode_bitcoin_code_all: got {}, expected {}", hexs(&all), hexs(&body));
    let d = decode_bitcoin_code_all::<T>(body.clone().into()).map_err(|e| format!("decode_bitcoin_code_all({}) failed: {}", hexs(&body), e))?;
    ch.op();
    ensure!(d == xs, "decode_bitcoin_code_all gave {} items: {}", d.len(), trunc(&format!("{:?}", d), 300));
    if body.len() > 1 {
        // a cut inside an item is an error, never a shorter list
        let mut cuts = vec![0usize];
        let mut p = 0;
        for x in xs {
            p += enc(x).len();
            cuts.push(p);
        }
        for k in (1..body.len()).filter(|_| body.len() < 600) {
            let r = decode_bitcoin_code_all::<T>(body[..k].to_vec().into());
            match cuts.iter().position(|c| *c == k) {
                None => ensure!(r.is_err(), "items cut at byte {} decoded", k),
                Some(i) => ensure!(r.as_ref().ok().map(|v| v.as_slice()) == Some(&xs[..i]), "first {} items not decoded", i),
            }
        }
    }
    ch.observe((want.len(), sha256(&want)));
    Ok(())
}

pub fn c03(c: &Ctx) {
    c.bound("u8,i8,u16,i16: every value; wider widths: every power of two +-2, complements and all-distinct-byte patterns");
    ints!(c, "u8", u8, (0..=u8::MAX).collect());
    ints!(c, "i8", i8, (i8::MIN..=i8::MAX).collect());
    ints!(c, "u16", u16, (0..=u16::MAX).collect());
    ints!(c, "i16", i16, (i16::MIN..=i16::MAX).collect());
    ints!(c, "u32", u32, boundary_u128(32).into_iter().map(|x| x as u32).collect());
    ints!(c, "i32", i32, boundary_u128(32).into_iter().map(|x| x as u32 as i32).collect());
    ints!(c, "u64", u64, boundary_u128(64).into_iter().map(|x| x as u64).collect());
    ints!(c, "i64", i64, boundary_u128(64).into_iter().map(|x| x as u64 as i64).collect());
    ints!(c, "u128", u128, boundary_u128(128));
    ints!(c, "i128", i128, boundary_u128(128).into_iter().map(|x| x as i128).collect());
    c.range("bool", 256, |i, ch| {
        let v = i as u8;
        let (b, rest) = bool::deser_rest(vec![v, 5].into()).map_err(|e| e.to_string())?;
        ensure!(rest.as_slice() == [5], "rest after bool");
        ch.op();
        if v < 2 {
            ensure_eq!(b, v == 1, "bool byte {}", v);
            ensure_eq!((v == 1).ser().to_vec(), vec![v], "encoding of {}", v == 1);
        }
        ensure!(bool::deser_rest(Vec::<u8>::new().into()).is_err(), "bool from nothing");
        strict(&bool::deser, &|x| *x == b, &[v])?;
        ch.observe((v, b));
        Ok(())
    });
    let n = if c.thorough { 1u64 << 24 } else { 1 << 18 };
    c.bound(format!("compact sizes: every number below {} plus neighbourhoods of +-300 around every power of two", n));
    c.range("compact sizes (small)", n, |i, ch| check_compact(i, ch));
    let mut near: Vec<u64> = vec![];
    for b in 16..65u32 {
        let p = if b == 64 { 0u64 } else { 1 << b };
        for d in 0..300u64 {
            near.push(p.wrapping_add(d));
            near.push(p.wrapping_sub(d));
        }
    }
    for v in boundary_u128(64) {
        near.push(v as u64);
    }
    c.range("compact sizes (boundaries)", near.len() as u64, |i, ch| check_compact(near[i as usize], ch));

    let lens: Vec<usize> = (0..=if c.thorough { 3000 } else { 600 }).chain(pow2_lens()).chain([65534]).collect();
    c.range("byte strings", lens.len() as u64, |i, ch| {
        let d = seq_bytes(lens[i as usize], 9);
        let e = ByteArray::from(d.clone()).ser();
        ch.op();
        ensure!(e.as_slice() == &var_bytes(&d)[..], "encoding of a {}-byte string: {}", d.len(), hexs(&e));
        let (b, rest) = ByteArray::deser_rest([var_bytes(&d), vec![3, 2, 1]].concat().into()).map_err(|e| e.to_string())?;
        ch.op();
        ensure!(b.as_slice() == &d[..] && rest.as_slice() == [3, 2, 1], "byte string of {} decoded to {} bytes", d.len(), b.len());
        strict(&ByteArray::deser, &|x| x.as_slice() == &d[..], &var_bytes(&d))?;
        if d.len() > 0 {
            ensure!(ByteArray::deser_rest(var_bytes(&d)[..var_bytes(&d).len() - 1].to_vec().into()).is_err(), "truncated byte string decoded");
        }
        ch.observe((e.len(), e.to_vec().first().copied()));
        Ok(())
    });
    let big: &[usize] = if c.thorough { &[252, 253, 254, 65535, 65536, 65537] } else { &[252, 253, 254, 65535, 65536] };
    c.bound(format!("lists: all u16/bool/byte-string/nested/outpoint/script lists of up to {} items from small alphabets, and one-byte item lists of {:?} items", if c.thorough { 5 } else { 4 }, big));
    let nl = if c.thorough { 5 } else { 4 };
    c.tree("lists", |ch| {
        match ch.pick(7) {
            0 => {
                let n = ch.pick(nl + 1);
                let v: Vec<u16> = (0..n).map(|_| *ch.of(&[0u16, 1, 0x1234, 0xffff])).collect();
                ch.note(|| format!("u16 {:?}", v));
                check_list(&v, &|x| x.to_le_bytes().to_vec(), ch)
            }
            1 => {
                let n = ch.pick(nl + 1);
                let v: Vec<bool> = (0..n).map(|_| ch.flag()).collect();
                ch.note(|| format!("bool {:?}", v));
                check_list(&v, &|x| vec![*x as u8], ch)
            }
            2 => {
                let n = ch.pick(nl + 1);
                let v: Vec<ByteArray> = (0..n).map(|_| ByteArray::from(ch.of(&[vec![], vec![0u8], vec![1, 2, 3], vec![4; 253]]).clone())).collect();
                ch.note(|| format!("bytes {:?}", v.iter().map(|x| x.len()).collect::<Vec<_>>()));
                check_list(&v, &|x| var_bytes(x), ch)
            }
            3 => {
                let n = ch.pick(nl);
                let v: Vec<Vec<u8>> = (0..n).map(|_| { let k = ch.pick(3); (0..k).map(|_| *ch.of(&[0u8, 255])).collect() }).collect();
                ch.note(|| format!("nested {:?}", v));
                check_list(&v, &|x: &Vec<u8>| var_bytes(x), ch)
            }
            4 => {
                let n = ch.pick(nl);
                let v: Vec<TxOutpoint> = (0..n).map(|_| TxOutpoint { tx_hash: Sha256d::new(hash_n(ch.pick(3))), vout: *ch.of(&[0u32, 0x01020304]) }).collect();
                ch.note(|| format!("outpoints {}", v.len()));
                check_list(&v, &|x| [x.tx_hash.as_slice(), &x.vout.to_le_bytes()[..]].concat(), ch)
            }
            5 => {
                let n = ch.pick(nl);
                let sc = scripts(false);
                // only scripts that decode to equal operations
                let v: Vec<Script> = (0..n).map(|_| Script::from_ops(sc[*ch.of(&[0usize, 1, 2, 7])].iter().cloned())).collect();
                ch.note(|| format!("scripts {}", v.len()));
                check_list(&v, &|x| var_bytes(&ref_ser_ops(&script_ops(x))), ch)
            }
            _ => {
                // encoding is quadratic in the number of plain items (each one extends the recorded
                // parts), so the items are marked as function results, which it keeps whole
                let n = *ch.of(big);
                type One = FixedByteArrayBE<[u8; 1]>;
                let v: Vec<One> = (0..n)
                    .map(|i| One::from_byte_array(ByteArray::from_preimage(vec![(i * 7) as u8].into(), None, Function::Sha256, None)).unwrap())
                    .collect();
                ch.note(|| format!("{} items", n));
                check_list(&v, &|x| x.to_vec(), ch)
            }
        }
    });
}
