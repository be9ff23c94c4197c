//! C17: annotated JSON.
use super::c01_wire::{hash_n, mk_in, mk_out};
use super::common::*;
use crate::engine::*;
use crate::refs::*;
use crate::{ensure, ensure_eq};
use bitcoin_cash::*;
use serde_json::{json, Value};
use std::borrow::Cow;
use std::sync::Arc;

const FUNCTIONS: [Function; 12] = [
    Function::Plain,
    Function::Sha1,
    Function::Ripemd160,
    Function::Sha256,
    Function::Hash256,
    Function::Hash160,
    Function::Num2Bin,
    Function::EcdsaSign,
    Function::SchnorrSign,
    Function::ToDataSig,
    Function::UnexpectedSplit,
    Function::Reverse,
];
type Str = Cow<'static, str>;
fn names() -> Vec<Option<Str>> {
    vec![None, Some("a".into()), Some("".into()), Some("b \"\\\n\u{1F600}\u{0}".into())]
}
fn mk(data: &[u8], name: Option<Str>, f: Function, pre: Option<Vec<ByteArray>>) -> ByteArray {
    ByteArray::from_preimage(data.to_vec().into(), name.map(Arc::new), f, pre.map(Into::into))
}
pub fn same_array(a: &ByteArray, b: &ByteArray) -> bool {
    a.as_slice() == b.as_slice()
        && a.name() == b.name()
        && a.function() == b.function()
        && match (a.preimage(), b.preimage()) {
            (None, None) => true,
            (Some(x), Some(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_array(p, q)),
            _ => false,
        }
}
fn same_op(a: &TaggedOp, b: &TaggedOp) -> bool {
    let op = match (&a.op, &b.op) {
        (Op::PushByteArray { array: x, is_minimal: m }, Op::PushByteArray { array: y, is_minimal: n }) => m == n && same_array(x, y),
        (x, y) => x == y,
    };
    op && a.src_file == b.src_file
        && a.src_line == b.src_line
        && a.src_column == b.src_column
        && a.src_code == b.src_code
        && a.pushed_names == b.pushed_names
        && a.alt_pushed_names == b.alt_pushed_names
}
fn same_script(a: &Script, b: &Script) -> bool {
    let (x, y) = (a.ops(), b.ops());
    x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same_op(p, q))
}
pub fn same_tx(a: &UnhashedTx, b: &UnhashedTx) -> bool {
    a.version == b.version
        && a.lock_time == b.lock_time
        && a.inputs.len() == b.inputs.len()
        && a.outputs.len() == b.outputs.len()
        && a.inputs.iter().zip(&b.inputs).all(|(x, y)| {
            same_array(x.prev_out.tx_hash.as_byte_array(), y.prev_out.tx_hash.as_byte_array())
                && x.prev_out.vout == y.prev_out.vout
                && x.sequence == y.sequence
                && same_script(&x.script, &y.script)
                && match (&x.lock_script, &y.lock_script) {
                    (None, None) => true,
                    (Some(p), Some(q)) => same_script(p, q),
                    _ => false,
                }
                && x.value == y.value
                && x.is_p2sh == y.is_p2sh
                && x.sig_hash_flags == y.sig_hash_flags
        })
        && a.outputs.iter().zip(&b.outputs).all(|(x, y)| x.value == y.value && same_script(&x.script, &y.script))
}
fn round(tx: &UnhashedTx, ch: &mut Chooser) -> Result<String, Fail> {
    let j = guarded("tx_to_json", || tx_to_json(tx))?.map_err(|e| e.to_string())?;
    ch.op();
    let back = guarded("json_to_tx", || json_to_tx(&j))?.map_err(|e| format!("json_to_tx of its own output: {} in {}", e, trunc(&j, 500)))?;
    ch.op();
    ensure!(same_tx(tx, &back), "read back differently: {:?} / {:?} via {}", tx, back, trunc(&j, 900));
    ch.observe(sha256(j.as_bytes()));
    Ok(j)
}
fn tagged(op: Op) -> TaggedOp {
    TaggedOp::from_op(op)
}
fn push(a: ByteArray, is_minimal: bool) -> Op {
    Op::PushByteArray { array: a, is_minimal }
}
fn one(ops: Vec<TaggedOp>) -> UnhashedTx {
    UnhashedTx { version: 1, inputs: vec![], outputs: vec![TxOutput { value: 1, script: Script::new(ops) }], lock_time: 0 }
}
/// A rich transaction exercising every part of the format.
pub fn rich(k: usize) -> UnhashedTx {
    let a = mk(&[1, 2], Some("a".into()), Function::Plain, None);
    let h = mk(&[3; 20], None, Function::Hash160, Some(vec![a.clone()]));
    let cc = a.clone().concat(h.clone()).named("cat");
    let mut t1 = tagged(push(cc, true));
    t1.src_file = "f.rs".into();
    t1.src_line = 7;
    t1.src_column = 9;
    t1.src_code = vec![(3, "x = y".into()), (4, "a".into())];
    t1.pushed_names = Some(vec![Some("a".into()), None]);
    t1.alt_pushed_names = Some(vec![]);
    let mut i0 = mk_in(hash_n(2), 5, &[], 6);
    i0.prev_out.tx_hash = Sha256d::digest(ba([1u8, 2])).named("txid");
    i0.script = Script::new(vec![t1.clone(), tagged(Op::PushInteger(Integer::new(-17).unwrap())), tagged(Op::PushBoolean(true))]);
    i0.lock_script = Some(Script::new(vec![tagged(op_code(0x76)), tagged(push(h, false))]));
    i0.value = Some(u64::MAX);
    i0.is_p2sh = Some(true);
    i0.sig_hash_flags = Some(vec![SigHashFlags::DEFAULT, SigHashFlags::from_u8(0xe3)]);
    match k {
        0 => UnhashedTx { version: -1, inputs: vec![i0], outputs: vec![TxOutput { value: 5, script: Script::new(vec![tagged(Op::Invalid(0xff)), t1]) }], lock_time: 3 },
        1 => UnhashedTx { version: 1, inputs: vec![mk_in(hash_n(2), 1, &[], 2), mk_in(hash_n(3), 1, &[op_code(0x51)], 2)], outputs: vec![], lock_time: 0 },
        _ => UnhashedTx { version: 1, inputs: vec![], outputs: vec![mk_out(1, &[op_min(&[1]), op_plain(&[2]), op_min(&[])])], lock_time: 0 },
    }
}

pub fn c17(c: &Ctx) {
    let nm = names();
    // ---- lossless
    c.bound("byte arrays: 12 functions x 4 names x 3 datas x (no inputs, none, one, two, shared, nested) x minimality");
    c.tree("byte arrays", |ch| {
        let leaf = |ch: &mut Chooser| {
            let d: &[u8] = [&[][..], &[1, 2, 3], &[0xff; 33]][ch.pick(3)];
            d.to_vec()
        };
        let f = *ch.of(&FUNCTIONS);
        let n = ch.of(&nm).clone();
        let d = leaf(ch);
        let pre = match ch.pick(6) {
            0 => None,
            1 => Some(vec![]),
            2 => Some(vec![mk(&d, n.clone(), Function::Plain, None)]),
            3 => {
                let g = *ch.of(&FUNCTIONS);
                Some(vec![mk(&[9], None, g, None), mk(&[], Some("z".into()), f, Some(vec![]))])
            }
            4 => {
                let x = mk(&[4], ch.of(&nm).clone(), Function::Plain, None);
                Some(vec![x.clone(), x.clone(), mk(&[4], None, Function::Sha1, Some(vec![x.clone(), x]))])
            }
            _ => {
                let mut x = mk(&d, None, Function::Plain, None);
                for g in FUNCTIONS {
                    x = mk(&d, Some("n".into()), g, Some(vec![x]));
                }
                Some(vec![x])
            }
        };
        let a = mk(&d, n, f, pre);
        let m = ch.flag();
        ch.note(|| format!("{:?}", a));
        let tx = one(vec![tagged(push(a.clone(), m)), tagged(push(a, !m))]);
        round(&tx, ch)?;
        Ok(())
    });
    let ops: Vec<Op> = {
        let mut v: Vec<Op> = (0..=255u8).map(op_code).collect();
        v.extend((0..=255u8).map(Op::Invalid));
        for i in [0, 1, -1, 16, 17, 127, 128, -128, 255, 256, 32767, 32768, i32::MAX, -i32::MAX] {
            v.push(Op::PushInteger(Integer::new(i).unwrap()));
        }
        v.push(Op::PushBoolean(true));
        v.push(Op::PushBoolean(false));
        for d in [&[][..], &[0], &[1], &[16], &[17], &[0x81], &[0x80; 75], &[1; 76], &[1; 300]] {
            v.push(push(ba(d), true));
            v.push(push(ba(d), false));
        }
        v
    };
    c.bound(format!("operations: {} operations (all opcodes, all invalid codes, integers, booleans, pushes), alone and in pairs with 8 others", ops.len()));
    let n = ops.len() as u64;
    c.range("operations", n * 9, |i, ch| {
        let mut l = vec![tagged(ops[(i % n) as usize].clone())];
        if i / n > 0 {
            l.push(tagged(ops[(i / n * 37 % n) as usize].clone()));
        }
        ch.note(|| format!("{:?}", l));
        round(&one(l), ch)?;
        Ok(())
    });
    c.bound("source annotations: 4 file names x 3 lines x 3 columns x 5 source lists x 5 pushed x 5 alt-pushed name lists, two operations sharing strings");
    let nl: Vec<Option<Vec<Option<Str>>>> = vec![None, Some(vec![]), Some(vec![None]), Some(vec![Some("a".into()), None, Some("".into())]), Some(vec![Some("f".into()), Some("f".into())])];
    let sc: Vec<Vec<(u32, Str)>> = vec![vec![], vec![(0, "".into())], vec![(u32::MAX, "a".into()), (1, "a".into())], vec![(2, "f".into())], vec![(2, "\"\\\u{7f}".into())]];
    c.tree("annotations", |ch| {
        let mut t = tagged(op_code(0x51));
        t.src_file = ["f", "", "<unknown>", "\u{1F600}\t"][ch.pick(4)].into();
        t.src_line = [0, 1, u32::MAX][ch.pick(3)];
        t.src_column = [0, 1, u32::MAX][ch.pick(3)];
        t.src_code = ch.of(&sc).clone();
        t.pushed_names = ch.of(&nl).clone();
        t.alt_pushed_names = ch.of(&nl).clone();
        let mut u = t.clone();
        u.src_code = ch.of(&sc).clone();
        ch.note(|| format!("{:?}", t));
        round(&one(vec![t, u]), ch)?;
        Ok(())
    });
    c.bound("spend data: presence x values of lock script, value, p2sh, flags (0, 1, 2 of 256), 2 inputs; header values");
    c.tree("spend data", |ch| {
        let mut inputs = vec![];
        for k in 0..2 {
            let mut i = mk_in(hash_n(2 + k), *ch.of(&[0, u32::MAX]), &[], 3);
            i.lock_script = match ch.pick(3) {
                0 => None,
                1 => Some(Script::new(vec![])),
                _ => Some(Script::from_ops(vec![op_code(0xac), Op::from_int(3)])),
            };
            i.value = [None, Some(0), Some(u64::MAX)][ch.pick(3)];
            i.is_p2sh = [None, Some(false), Some(true)][ch.pick(3)];
            i.sig_hash_flags = match if k == 0 { ch.pick(4) } else { 1 } {
                0 => None,
                1 => Some(vec![]),
                2 => Some(vec![SigHashFlags::DEFAULT]),
                _ => Some(vec![SigHashFlags::from_u8(0x20), SigHashFlags::from_u8(0xff)]),
            };
            inputs.push(i);
        }
        let tx = UnhashedTx { version: *ch.of(&[1, -1]), inputs, outputs: vec![], lock_time: 1 };
        ch.note(|| format!("{:?}", tx));
        round(&tx, ch)?;
        Ok(())
    });
    c.bound("headers: all versions x lock times x 9 output values; 256 flag bytes");
    c.tree("headers", |ch| {
        let mut tx = rich(ch.pick(3));
        tx.version = *ch.of(&I32S);
        tx.lock_time = *ch.of(&U32S);
        tx.outputs.push(mk_out(*ch.of(&U64S), &[]));
        ch.note(|| format!("{} {} {}", tx.version, tx.lock_time, tx.outputs[0].value));
        round(&tx, ch)?;
        Ok(())
    });
    c.range("flags", 256, |i, ch| {
        let mut tx = rich(1);
        tx.inputs[0].sig_hash_flags = Some(vec![SigHashFlags::from_u8(i as u8)]);
        ch.note(|| format!("flags {:02x}", i));
        round(&tx, ch)?;
        Ok(())
    });
    c.bound("nesting: recorded inputs nested 0..=1000 deep, lists of 0..=300 inputs");
    c.tree("nesting", |ch| {
        let deep = *ch.of(&[0usize, 1, 2, 10, 126, 127, 128, 129, 300, 1000]);
        let wide = *ch.of(&[0usize, 1, 300]);
        let mut x = mk(&[1], None, Function::Plain, None);
        for i in 0..deep {
            x = mk(&[(i % 7) as u8], None, FUNCTIONS[i % 12], Some(vec![x]));
        }
        x = mk(&[8], None, Function::Plain, Some(vec![x; if deep > 200 { wide.min(3) } else { wide }]));
        ch.note(|| format!("depth {} width {}", deep, wide));
        round(&one(vec![tagged(push(x, true))]), ch)?;
        Ok(())
    });
    // what grows: tables of arrays, data and strings, inputs, outputs, operations
    let mut ns = vec![3usize, 17, 65, 127, 128, 129, 255, 256, 257, 300, 1000];
    if c.thorough {
        ns.extend([4095, 4096, 4097, 32768, 65535, 65536, 65537]);
    }
    c.bound(format!("many: {:?} arrays with other data or other names or the same, recorded inputs, strings, inputs, outputs; arrays of all lengths up to 70 and around all powers of two up to 2^16", ns));
    c.tree("many", |ch| {
        let n = *ch.of(&ns);
        let kind = ch.pick(9);
        if n > 20_000 && ![0, 5, 7].contains(&kind) {
            return Ok(());
        }
        let id = |k: usize| (k as u32).to_le_bytes();
        let nm = |k: usize| -> Option<Str> { Some(format!("n{}", k).into()) };
        let tx = match kind {
            0 => one((0..n).map(|k| tagged(push(mk(&id(k), nm(k), FUNCTIONS[k % 12], None), true))).collect()),
            1 => one((0..n).map(|k| tagged(push(mk(&[1, 2], nm(k), Function::Plain, None), k % 3 > 0))).collect()),
            2 => one((0..n).map(|k| tagged(push(mk(&id(k), nm(0), Function::Plain, None), true))).collect()),
            3 => UnhashedTx {
                version: 1,
                inputs: (0..n)
                    .map(|k| {
                        let mut i = mk_in(sha256(&id(k)).try_into().unwrap(), k as u32, &[], k as u32);
                        i.value = if k % 2 == 0 { Some(k as u64) } else { None };
                        i.lock_script = if k % 3 == 0 { Some(Script::new(vec![tagged(op_min(&id(k)))])) } else { None };
                        i.sig_hash_flags = if k % 5 == 0 { Some((0..k % 4).map(|x| SigHashFlags::from_u8(x as u8)).collect()) } else { None };
                        i.is_p2sh = [None, Some(true), Some(false)][k % 3];
                        i
                    })
                    .collect(),
                outputs: (0..n / 2).map(|k| mk_out(k as u64, &[op_min(&id(k))])).collect(),
                lock_time: 0,
            },
            4 => UnhashedTx { version: 1, inputs: vec![], outputs: (0..n).map(|k| mk_out(n as u64 - k as u64, &[op_code(0x51 + (k % 16) as u8)])).collect(), lock_time: 0 },
            5 => one(
                (0..n)
                    .map(|k| {
                        let mut t = tagged(op_code(0x61));
                        t.src_file = format!("f{}", k).into();
                        t.src_line = k as u32;
                        t.src_column = (n - k) as u32;
                        t.src_code = vec![(k as u32, format!("x{} = y", k).into()), (1, nm(k).unwrap())];
                        t.pushed_names = Some(vec![nm(k), None, Some(format!("p{}", k).into())]);
                        t.alt_pushed_names = Some(vec![Some(format!("f{}", n - k).into())]);
                        t
                    })
                    .collect(),
            ),
            6 => {
                let items: Vec<ByteArray> = (0..n).map(|k| mk(&id(k), nm(k), FUNCTIONS[k % 12], if k % 2 == 0 { Some(vec![mk(&id(k + n), None, Function::Plain, None)]) } else { None })).collect();
                one(vec![tagged(push(mk(&[7], None, Function::Plain, Some(items)), true))])
            }
            7 => {
                let a = mk(&[5; 5], nm(1), Function::Sha256, Some(vec![mk(&[6], None, Function::Plain, None)]));
                one((0..n).map(|k| tagged(push(if k % 7 == 6 { mk(&[5; 5], nm(1), Function::Sha256, None) } else { a.clone() }, true))).collect())
            }
            _ => {
                let mut t = tagged(op_code(0x61));
                t.src_code = (0..n).map(|k| (k as u32 ^ 3, format!("c{}", k % 100).into())).collect();
                t.pushed_names = Some((0..n).map(|k| if k % 10 == 9 { None } else { nm(k % 200) }).collect());
                t.alt_pushed_names = Some((0..n).map(|k| nm(n - k)).collect());
                one(vec![t])
            }
        };
        ch.note(|| format!("kind {} of {}", kind, n));
        round(&tx, ch)?;
        Ok(())
    });
    c.tree("data lengths", |ch| {
        let lens: Vec<usize> = (0..=70).chain(pow2_lens()).collect();
        let n = *ch.of(&lens);
        let a = mk(&seq_bytes(n, 7), if ch.flag() { Some("x".repeat(n).into()) } else { None }, Function::Plain, None);
        ch.note(|| format!("{} bytes", n));
        round(&one(vec![tagged(push(a, ch.flag()))]), ch)?;
        Ok(())
    });
    c.bound("pairs of arrays of 36 lengths up to 70000 that agree but for their length, first or last byte, in one transaction in either order, as pushes or recorded inputs; names alike in the same way");
    c.tree("similar data", |ch| {
        let lens: Vec<usize> = [1usize, 2, 8, 15, 16, 17, 31, 32, 33, 64].into_iter().chain(pow2_lens()).collect();
        let n = *ch.of(&lens);
        let base = seq_bytes(n, 7);
        let others: Vec<Vec<u8>> = {
            let mut v: Vec<Vec<u8>> = [1usize, 2, 4, 8, 16, 20, 32, 64, 75, 127, 128, 255, 256, 512, 520, 1024, 4096, 65535, n / 2, n - 1].iter().filter(|k| **k < n).map(|k| base[..*k].to_vec()).collect();
            v.push(base[1..].to_vec());
            let mut l = base.clone();
            *l.last_mut().unwrap() ^= 1;
            v.push(l);
            let mut l = base.clone();
            l[0] ^= 0x80;
            v.push(l);
            let mut l = base.clone();
            l[n / 2] ^= 0x10;
            v.push(l);
            let mut l = base.clone();
            l.push(0);
            v.push(l);
            let mut l = base.clone();
            l.reverse();
            v.push(l);
            v
        };
        let o = ch.of(&others).clone();
        let text = |b: &[u8]| -> Option<Str> { Some(b.iter().map(|x| (b'a' + x % 26) as char).collect::<String>().into()) };
        let names = ch.pick(3);
        let a = mk(if names == 2 { &[1] } else { &base }, if names > 0 { text(&base) } else { None }, Function::Plain, None);
        let b = mk(if names == 2 { &[1] } else { &o }, if names > 0 { text(&o) } else { None }, Function::Plain, None);
        let (x, y) = if ch.flag() { (a, b) } else { (b, a) };
        ch.note(|| format!("{} and {} bytes", x.len(), y.len()));
        let mut t = tagged(op_code(0x61));
        if names > 0 {
            t.src_file = text(&o).unwrap();
            t.pushed_names = Some(vec![text(&base), text(&o)]);
            t.src_code = vec![(1, text(&base).unwrap())];
        }
        let tx = if ch.flag() {
            one(vec![tagged(push(x, true)), tagged(push(y, true)), t])
        } else {
            one(vec![t, tagged(push(mk(&[9], None, Function::Sha256, Some(vec![x, y])), true))])
        };
        round(&tx, ch)?;
        Ok(())
    });
    c.bound("operation codes in documents: all 256, as known and as unknown codes");
    c.range("codes", 512, |i, ch| {
        let x = (i / 2) as u8;
        let mut v: Value = serde_json::from_str(&tx_to_json(&one(vec![tagged(Op::Invalid(0xff))])).unwrap()).unwrap();
        *v.pointer_mut("/outputs/0/script/0/op").unwrap() = if i % 2 == 0 { json!({ "Code": x }) } else { json!({ "Invalid": x }) };
        ch.note(|| v["outputs"].to_string());
        let Some(tx) = read(&v.to_string(), ch)? else { return Ok(()) };
        let ops = script_ops(&tx.outputs[0].script);
        ensure!(ops.len() == 1 && ref_ser_op(&ops[0]) == [x], "code {:#x} is read as {:?}", x, ops);
        ch.observe(x);
        round(&tx, ch)?;
        Ok(())
    });
    malformed(c);
}

/// Reading `j`: no panic, bounded; if accepted, the result must convert again.
fn read(j: &str, ch: &mut Chooser) -> Result<Option<UnhashedTx>, Fail> {
    ch.op();
    let (r, _) = metered(64 << 20, || guarded("json_to_tx", || json_to_tx(j)));
    match r? {
        Ok(tx) => Ok(Some(tx)),
        Err(e) => {
            ch.observe(std::mem::discriminant(&e));
            Ok(None)
        }
    }
}
fn paths(v: &Value, p: &str, out: &mut Vec<String>) {
    out.push(p.to_string());
    match v {
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| paths(x, &format!("{}/{}", p, i), out)),
        Value::Object(o) => o.iter().for_each(|(k, x)| paths(x, &format!("{}/{}", p, k), out)),
        _ => {}
    }
}
/// Reference validity of a document obtained by replacing one number in a valid document:
/// Some(false) must be rejected, Some(true) must be accepted, None either.
fn valid(doc: &Value) -> Option<bool> {
    let arrays = doc["data"]["byte_arrays"].as_array()?;
    let (nd, ns) = (doc["data"]["data_b64"].as_array()?.len() as u64, doc["data"]["strings"].as_array()?.len() as u64);
    let na = arrays.len() as u64;
    let mut verdict = Some(true);
    let mut graph: Vec<Vec<u64>> = vec![];
    for a in arrays {
        let t: Vec<Value> = match a {
            Value::Array(t) => t.clone(),
            x => vec![x.clone()],
        };
        if t[0].as_u64()? >= nd {
            return Some(false);
        }
        if let Some(n) = t.get(2) {
            if !n.is_null() && n.as_u64()? >= ns {
                return Some(false);
            }
        }
        let mut e = vec![];
        if let Some(Value::Array(l)) = t.get(3) {
            for x in l {
                let x = x.as_u64()?;
                if x >= na {
                    return Some(false);
                }
                if x >= graph.len() as u64 {
                    verdict = None; // refers forward: fine unless cyclic, but need not be supported
                }
                e.push(x);
            }
        }
        graph.push(e);
    }
    // cycles
    let mut state = vec![0u8; graph.len()];
    fn dfs(i: usize, g: &[Vec<u64>], s: &mut [u8]) -> bool {
        if s[i] != 0 {
            return s[i] == 2;
        }
        s[i] = 1;
        let ok = g[i].iter().all(|x| dfs(*x as usize, g, s));
        s[i] = 2;
        ok
    }
    for i in 0..graph.len() {
        if !dfs(i, &graph, &mut state) {
            return Some(false);
        }
    }
    let len_of = |i: u64| -> Option<usize> {
        let d = match &arrays[i as usize] {
            Value::Array(t) => t[0].as_u64()?,
            x => x.as_u64()?,
        };
        base64::decode(doc["data"]["data_b64"][d as usize].as_str()?).ok().map(|v| v.len())
    };
    let mut scripts: Vec<&Value> = vec![];
    for i in doc["inputs"].as_array()? {
        let h = i["prev_out_hash"].as_u64()?;
        if h >= na || len_of(h)? != 32 {
            return Some(false);
        }
        scripts.push(&i["script"]);
        if !i["lock_script"].is_null() {
            scripts.push(&i["lock_script"]);
        }
    }
    for o in doc["outputs"].as_array()? {
        scripts.push(&o["script"]);
    }
    for s in scripts {
        for t in s.as_array()? {
            if t["src_file"].as_u64()? >= ns || t["src_code"].as_array()?.iter().any(|x| x[1].as_u64().map_or(true, |x| x >= ns)) {
                return Some(false);
            }
            for k in ["pushed_names", "alt_pushed_names"] {
                if let Value::Array(l) = &t[k] {
                    if l.iter().any(|x| !x.is_null() && x.as_u64().map_or(true, |x| x >= ns)) {
                        return Some(false);
                    }
                }
            }
            if let Some(i) = t["op"]["PushByteArray"]["array_idx"].as_u64() {
                if i >= na {
                    return Some(false);
                }
            }
            if t["op"]["PushInteger"].as_i64() == Some(-0x8000_0000) {
                return Some(false);
            }
        }
    }
    verdict
}

fn malformed(c: &Ctx) {
    let docs: Vec<(String, Value)> = (0..3)
        .map(|k| {
            let j = tx_to_json(&rich(k)).unwrap();
            let v = serde_json::from_str(&j).unwrap();
            (j, v)
        })
        .collect();
    // every index replaced by every other index (and beyond)
    let sites: Vec<(usize, String)> = docs
        .iter()
        .enumerate()
        .flat_map(|(k, (_, v))| {
            let mut p = vec![];
            paths(v, "", &mut p);
            p.into_iter().filter(move |p| v.pointer(p).unwrap().is_number()).map(move |p| (k, p))
        })
        .collect();
    c.bound(format!("indices: all {} numbers in 3 documents replaced by 0..=20, and by -2^31, 2^31-1, 2^31, 2^32, 2^64-1; thorough: all pairs of numbers within the byte array table", sites.len()));
    let repl: Vec<i128> = (0..=20).chain([-0x8000_0000i128, 0x7fff_ffff, 0x8000_0000, 1 << 32, u64::MAX as i128]).collect();
    let n = repl.len() as u64;
    c.range("indices", sites.len() as u64 * n, |i, ch| {
        let (k, p) = &sites[(i / n) as usize];
        let r = repl[(i % n) as usize];
        let mut v = docs[*k].1.clone();
        *v.pointer_mut(p).unwrap() = if r < 0 { json!(r as i64) } else { json!(r as u64) };
        ch.note(|| format!("document {} {} := {}", k, p, r));
        judge(&v, p, ch)
    });
    // pairs of edits in the byte array table: references building longer cycles
    let tbl: Vec<String> = sites.iter().filter(|(k, p)| *k == 0 && p.contains("byte_arrays")).map(|x| x.1.clone()).collect();
    let m = docs[0].1["data"]["byte_arrays"].as_array().unwrap().len() as u64 + 1;
    let pairs = tbl.len() as u64 * tbl.len() as u64;
    let lim = if c.thorough { pairs * m * m } else { pairs * m * m };
    c.bound(format!("pairs of edits: all {}^2 pairs of numbers in the byte array table x {}^2 values", tbl.len(), m));
    c.range("pairs of indices", lim, |i, ch| {
        let (x, y) = (i % m, i / m % m);
        let q = i / m / m;
        let (a, b) = (&tbl[(q % tbl.len() as u64) as usize], &tbl[(q / tbl.len() as u64) as usize]);
        if a >= b {
            return Ok(());
        }
        let mut v = docs[0].1.clone();
        *v.pointer_mut(a).unwrap() = json!(x);
        *v.pointer_mut(b).unwrap() = json!(y);
        ch.note(|| format!("{} := {}, {} := {}", a, x, b, y));
        judge(&v, a, ch)
    });
    // every reference graph over 4 byte arrays
    let g = if c.thorough { 5 } else { 4 };
    c.bound(format!("reference graphs: all graphs of one or two references over {} byte arrays", g));
    c.tree("reference graphs", |ch| {
        let arrays: Vec<Value> = (0..g)
            .map(|_| match ch.pick(g + 1 + if g == 4 { g * g } else { 0 }) {
                0 => json!(0),
                k if k <= g => json!([0, "Sha256", null, [k - 1]]),
                k => json!([0, "Plain", null, [(k - g - 1) / g, (k - g - 1) % g]]),
            })
            .collect();
        let doc = json!({"data": {"data_b64": ["AQI="], "byte_arrays": arrays, "strings": ["s"]}, "version": 1, "inputs": [], "outputs": [
            {"value": 1, "script": [{"op": {"PushByteArray": {"array_idx": g - 1, "is_minimal": true}}, "src_file": 0, "src_line": 0, "src_column": 0, "src_code": [], "pushed_names": null, "alt_pushed_names": null}]}], "lock_time": 0});
        ch.note(|| doc["data"]["byte_arrays"].to_string());
        judge(&doc, "", ch)
    });
    // any value replaced by something of another type, removed, or duplicated
    let all: Vec<(usize, String)> = docs
        .iter()
        .enumerate()
        .flat_map(|(k, (_, v))| {
            let mut p = vec![];
            paths(v, "", &mut p);
            p.into_iter().map(move |p| (k, p))
        })
        .collect();
    let weird = [json!(null), json!(true), json!(-1), json!(1.5), json!(1e300), json!("x"), json!(""), json!("AQ"), json!("\u{e9}"), json!([]), json!([[]]), json!({}), json!({"a": 1}), json!({"Code": 81}), json!([0, "Nope"]), json!([0, "Plain", 0, [], 5]), json!({"bits": 70000})];
    c.bound(format!("wrong types: all {} values of 3 documents replaced by 17 values of other types, removed, duplicated, or swapped with a neighbour", all.len()));
    let w = weird.len() as u64 + 3;
    c.range("wrong types", all.len() as u64 * w, |i, ch| {
        let (k, p) = &all[(i / w) as usize];
        let e = (i % w) as usize;
        let mut v = docs[*k].1.clone();
        if e < weird.len() {
            *v.pointer_mut(p).unwrap() = weird[e].clone();
        } else {
            let Some(cut) = p.rfind('/') else { return Ok(()) };
            let last = p[cut + 1..].to_string();
            match v.pointer_mut(&p[..cut]).unwrap() {
                Value::Array(a) => {
                    let i: usize = last.parse().unwrap();
                    match e - weird.len() {
                        0 => {
                            a.remove(i);
                        }
                        1 => {
                            let x = a[i].clone();
                            a.insert(i, x);
                        }
                        _ => {
                            let j = (i + 1) % a.len();
                            a.swap(i, j);
                        }
                    }
                }
                Value::Object(o) => match e - weird.len() {
                    0 => {
                        o.remove(&last);
                    }
                    1 => {
                        let x = o.get(&last).unwrap().clone();
                        o.insert("other".into(), x);
                    }
                    _ => {
                        let ks: Vec<String> = o.keys().cloned().collect();
                        let j = ks[(ks.iter().position(|x| *x == last).unwrap() + 1) % ks.len()].clone();
                        let (x, y) = (o[&last].clone(), o[&j].clone());
                        o.insert(last, y);
                        o.insert(j, x);
                    }
                },
                _ => {}
            }
        }
        ch.note(|| format!("document {} {} edit {}: {}", k, p, e, trunc(&v.to_string(), 300)));
        if let Some(tx) = read(&v.to_string(), ch)? {
            round(&tx, ch)?;
        }
        Ok(())
    });
    // text level
    let lens: Vec<usize> = docs.iter().map(|d| d.0.len()).collect();
    let total: usize = lens.iter().sum();
    c.bound(format!("text: every truncation and every byte of {} replaced by 12 characters or removed", total));
    c.range("text", total as u64 * 14, |i, ch| {
        let mut at = (i / 14) as usize;
        let mut k = 0;
        while at >= lens[k] {
            at -= lens[k];
            k += 1;
        }
        let e = (i % 14) as usize;
        let mut b = docs[k].0.clone().into_bytes();
        match e {
            0 => b.truncate(at),
            1 => {
                b.remove(at);
            }
            _ => b[at] = b"{}[]\",:9-e\\="[e - 2],
        }
        let Ok(s) = String::from_utf8(b) else { return Ok(()) };
        ch.note(|| format!("document {} byte {} edit {}", k, at, e));
        if let Some(tx) = read(&s, ch)? {
            round(&tx, ch)?;
        }
        Ok(())
    });
    // base64
    c.bound("base64 entries: all strings of up to 4 characters over {A, B, /, =, -, space}");
    c.tree("base64", |ch| {
        let n = ch.pick(5);
        let s: String = (0..n).map(|_| *ch.of(&['A', 'B', '/', '=', '-', ' '])).collect();
        let mut v = docs[2].1.clone();
        v["data"]["data_b64"][0] = json!(s);
        ch.note(|| format!("{:?}", s));
        let want = b64(&s);
        match (read(&v.to_string(), ch)?, want) {
            (Some(tx), Some(w)) => {
                let a = match &tx.outputs[0].script.ops()[0].op {
                    Op::PushByteArray { array, .. } => array.to_vec(),
                    o => return Err(format!("{:?}", o).into()),
                };
                ensure_eq!(a, w, "data of {:?}", s);
            }
            (None, None) => {}
            // unused low bits set or padding left out: not canonical, may be rejected
            (None, Some(_)) if s.contains('B') => {}
            (r, w) => return Err(format!("base64 {:?}: accepted {}, expected {:?}", s, r.is_some(), w).into()),
        }
        Ok(())
    });
    // long chains and shared references
    let chain = |n: usize, f: &dyn Fn(usize) -> Vec<usize>| -> String {
        let arrays: Vec<Value> = (0..n).map(|i| { let l = f(i); if l.is_empty() { json!(0) } else { json!([0, "Plain", null, l]) } }).collect();
        json!({"data": {"data_b64": ["AQI="], "byte_arrays": arrays, "strings": ["s"]}, "version": 1, "inputs": [], "outputs": [
            {"value": 1, "script": [{"op": {"PushByteArray": {"array_idx": n - 1, "is_minimal": true}}, "src_file": 0, "src_line": 0, "src_column": 0, "src_code": [], "pushed_names": null, "alt_pushed_names": null}]}], "lock_time": 0}).to_string()
    };
    c.bound("long reference chains (up to 200000), doubly shared references (up to 1000 levels), long cycles");
    c.tree("chains", |ch| {
        let n = *ch.of(&[2usize, 20, 64, 100, 1000, 20_000, 200_000]);
        let kind = ch.pick(5);
        if kind == 1 && n > 1000 {
            return Ok(());
        }
        let j = match kind {
            0 => chain(n, &|i| if i == 0 { vec![] } else { vec![i - 1] }),
            1 => chain(n, &|i| if i == 0 { vec![] } else { vec![i - 1, i - 1] }),
            2 => chain(n, &|i| vec![(i + 1) % n]),
            3 => chain(n, &|i| vec![(i + n - 1) % n]),
            _ => chain(n, &|i| if i + 1 == n { vec![] } else { vec![i + 1] }),
        };
        ch.note(|| format!("{} entries, kind {}", n, kind));
        ch.op();
        let (r, _) = metered(2 << 30, || guarded("json_to_tx", || json_to_tx(&j)));
        let r = r?;
        // reading, writing and dropping fits on the stack a thread has by default
        let j2 = j.clone();
        let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            json_to_tx(&j2).ok().map(|tx| if kind == 1 { 0 } else { tx_to_json(&tx).map_or(0, |j| j.len()) })
        });
        let small = t.map_err(|e| format!("ENGINE: {}", e))?.join();
        ensure!(small.is_ok(), "reading or writing panicked");
        ch.observe(r.is_ok());
        if kind == 2 || kind == 3 {
            ensure!(r.is_err(), "a cycle of {} references was accepted", n);
        }
        if kind <= 1 && n <= 1000 {
            ensure!(r.is_ok(), "{} nested references were rejected: {:?}", n, r.err().map(|e| e.to_string()));
        }
        Ok(())
    });
}
/// Strict or unpadded base64; None if a character is invalid or the length impossible.
fn b64(s: &str) -> Option<Vec<u8>> {
    base64::decode(s).ok()
}
fn judge(v: &Value, what: &str, ch: &mut Chooser) -> Res {
    let j = v.to_string();
    let got = read(&j, ch)?;
    // only numbers changed: values out of the range of their field are judged by serde alone
    match (valid(v), &got) {
        (Some(false), Some(_)) => return Err(format!("{} was accepted: {}", what, trunc(&j, 1500)).into()),
        (Some(true), None) => {
            let small = {
                // out of range of the field's own type?
                let e = json_to_tx(&j).err().map(|e| e.to_string()).unwrap_or_default();
                e.contains("invalid value") || e.contains("out of range")
            };
            ensure!(small, "{} was rejected although it is valid: {}", what, trunc(&j, 1500));
        }
        _ => {}
    }
    if let Some(tx) = got {
        round(&tx, ch)?;
    }
    Ok(())
}
