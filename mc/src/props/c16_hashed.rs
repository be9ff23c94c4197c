//! C16: hashed transactions keep their fields, bytes and id through every conversion.
use super::c01_wire::{hash_n, mk_in, mk_out, scripts};
use super::common::*;
use crate::engine::*;
use crate::refs::*;
use crate::{ensure, ensure_eq};
use bitcoin_cash::*;

pub fn txs(thorough: bool) -> Vec<UnhashedTx> {
    let s = scripts(false);
    let mut v = vec![
        UnhashedTx { version: 1, inputs: vec![], outputs: vec![], lock_time: 0 },
        UnhashedTx { version: -7, inputs: vec![mk_in(hash_n(2), 5, &s[2], 0xffffffff)], outputs: vec![mk_out(u64::MAX, &s[3])], lock_time: 0xfedcba98 },
        UnhashedTx { version: 2, inputs: vec![mk_in(hash_n(3), 0, &s[6], 1), mk_in(hash_n(0), 0xffffffff, &s[4], 0)], outputs: vec![mk_out(0, &s[8]), mk_out(546, &s[2]), mk_out(1, &[])], lock_time: 1 },
    ];
    let mut a = mk_in(hash_n(4), 9, &s[3], 77);
    a.lock_script = Some(Script::from_ops(s[2].iter().cloned()));
    a.value = Some(123456789012);
    a.is_p2sh = Some(true);
    a.sig_hash_flags = Some(vec![SigHashFlags::DEFAULT, SigHashFlags::from_u8(0xc3)]);
    let mut b = mk_in(hash_n(5), 1, &[], 76);
    b.sig_hash_flags = Some(vec![]);
    b.is_p2sh = Some(false);
    v.push(UnhashedTx { version: 1, inputs: vec![a, b], outputs: vec![mk_out(600, &s[7])], lock_time: 3 });
    v.push(UnhashedTx { version: 1, inputs: (0..253).map(|i| mk_in(hash_n(i % 9), i as u32, &[], 5)).collect(), outputs: vec![mk_out(1, &[])], lock_time: 0 });
    v.push(UnhashedTx { version: 2, inputs: vec![mk_in(hash_n(3), 7, &[op_min(&seq_bytes(70_000, 1)), op_min(&seq_bytes(300, 2))], 5)], outputs: (0..300).map(|i| mk_out(i * 0x0101_0101_0101, &[op_min(&seq_bytes(i as usize % 80, 3))])).collect(), lock_time: 77 });
    if thorough {
        for a in &s {
            for b in &s {
                v.push(UnhashedTx { version: 3, inputs: vec![mk_in(hash_n(6), 3, a, 4)], outputs: vec![mk_out(7, b)], lock_time: 9 });
            }
        }
    }
    v
}
enum S {
    U(UnhashedTx),
    H(Tx),
}
fn check_h(h: &Tx, r: &RTx) -> Res {
    let raw = r.ser();
    ensure!(h.raw().as_slice() == &raw[..], "raw bytes {}, expected {}", hexs(h.raw()), hexs(&raw));
    let id = sha256d(&raw);
    ensure!(h.hash().as_slice() == &id[..], "id {}, expected {}", hexs(h.hash().as_slice()), hexs(&id));
    let mut rev = id.clone();
    rev.reverse();
    ensure_eq!(h.hash().to_hex_le(), hex::encode(&rev), "reversed hex id");
    ensure_eq!(format!("{}", h.hash()), hex::encode(&rev), "displayed id");
    ensure!(to_rtx(h.unhashed_tx()) == *r, "fields {:?}", to_rtx(h.unhashed_tx()));
    ensure!(h.version() == r.version && h.lock_time() == r.lock && h.inputs().len() == r.ins.len() && h.outputs().len() == r.outs.len(), "accessors");
    ensure!(h.inputs() == &h.unhashed_tx().inputs[..] && h.outputs() == &h.unhashed_tx().outputs[..], "accessors");
    Ok(())
}
const NOPS: usize = 9;
fn step(s: S, op: usize) -> Result<(S, &'static str), Fail> {
    let e = |x: String| Fail::from(x);
    Ok(match (s, op) {
        (S::U(u), 0) => (S::H(u.hashed()), "hashed"),
        (S::U(u), 1) => {
            let (a, b) = (u.clone().hashed(), u.hashed());
            ensure!(a == b, "hashing twice differs");
            (S::U(b.into_unhashed_tx()), "hash and convert back")
        }
        (S::U(u), 2) => (S::U(UnhashedTx::deser(u.ser()).map_err(|x| e(x.to_string()))?), "binary"),
        (S::U(u), 3) => {
            let (v, rest) = UnhashedTx::deser_rest(u.ser().concat(ba([1u8, 2]))).map_err(|x| e(x.to_string()))?;
            ensure!(rest.as_slice() == [1, 2], "rest");
            (S::U(v), "binary with rest")
        }
        (S::U(u), 4) => (S::U(serde_json::from_str(&serde_json::to_string(&u).unwrap()).map_err(|x| e(x.to_string()))?), "serde json"),
        (S::U(u), 5) => (S::U(bincode::deserialize(&bincode::serialize(&u).unwrap()).map_err(|x| e(x.to_string()))?), "serde binary"),
        (S::U(u), 6) => (S::U(json_to_tx(&tx_to_json(&u).unwrap()).map_err(|x| e(x.to_string()))?), "annotated json"),
        (S::U(u), 7) => (S::H(Tx::deser(u.hashed().ser()).map_err(|x| e(x.to_string()))?), "hashed and binary"),
        (S::U(u), _) => (S::H(u.hashed().clone()), "hashed and cloned"),
        (S::H(h), 0) => (S::U(h.into_unhashed_tx()), "into unhashed"),
        (S::H(h), 1) => (S::U(h.unhashed_tx().clone()), "unhashed"),
        (S::H(h), 2) => {
            let b = h.ser();
            ensure!(b.as_slice() == &var_bytes(h.raw())[..], "binary form of the hashed transaction {}", hexs(&b));
            let (v, rest) = Tx::deser_rest(b.concat(ba([7u8]))).map_err(|x| e(x.to_string()))?;
            ensure!(rest.as_slice() == [7], "rest");
            (S::H(v), "binary")
        }
        (S::H(h), 3) => {
            let t: Tx = serde_json::from_str(&serde_json::to_string(&h).unwrap()).map_err(|x| e(x.to_string()))?;
            ensure!(t.hash() == h.hash() && t.raw() == h.raw(), "serde round trip of the hashed transaction");
            (S::H(t), "serde json")
        }
        (S::H(h), 4) => {
            let t: Tx = bincode::deserialize(&bincode::serialize(&h).unwrap()).map_err(|x| e(x.to_string()))?;
            ensure!(t.hash() == h.hash() && t.raw() == h.raw(), "serde round trip of the hashed transaction");
            (S::H(t), "serde binary")
        }
        (S::H(h), 5) => (S::H(h.into_unhashed_tx().hashed()), "hashed again"),
        (S::H(h), 6) => (S::H(UnhashedTx::deser(h.raw().clone()).map_err(|x| e(x.to_string()))?.hashed()), "raw decoded and hashed"),
        (S::H(h), 7) => {
            let l: Vec<Tx> = decode_bitcoin_code_all(encode_bitcoin_code_all([h.clone(), h.clone()].iter())).map_err(|x| e(x.to_string()))?;
            ensure!(l.len() == 2 && l[0] == l[1], "list of hashed transactions");
            (S::H(l.into_iter().next().unwrap()), "list")
        }
        (S::H(h), _) => (S::H(Tx::deser(h.ser()).map_err(|x| e(x.to_string()))?), "binary"),
    })
}

pub fn c16(c: &Ctx) {
    let list = txs(c.thorough);
    let depth = if c.thorough { 5 } else { 5 };
    c.bound(format!("{} transactions (0..=253 inputs, up to 300 outputs, scripts up to 70000 bytes, all script kinds, with and without spend data) x all histories of up to {} of 9 conversions from the unhashed and from the hashed form", list.len(), depth));
    for (i, tx) in list.iter().enumerate() {
        let r = to_rtx(tx);
        if i == 4 && !c.thorough || i == 5 {
            // large: two conversions each
            c.tree(&format!("large {}", i - 3), |ch| {
                let s = S::U(tx.clone());
                let (a, b) = (ch.pick(NOPS), ch.pick(NOPS));
                let (s, d1) = step(s, a)?;
                let (s, d2) = step(s, b)?;
                ch.op();
                ch.note(|| format!("{} then {}", d1, d2));
                match &s {
                    S::U(u) => ensure!(to_rtx(u) == r, "fields"),
                    S::H(h) => check_h(h, &r)?,
                }
                ch.observe(b);
                Ok(())
            });
            continue;
        }
        c.bfs(&format!("conversions of transaction {}", i), depth, |h, ch| {
            let mut s = S::U(tx.clone());
            let mut d = String::new();
            for op in h {
                let (n, name) = guarded("conversion", || step(s, *op as usize))??;
                s = n;
                d += name;
                d += "; ";
                ch.op();
                match &s {
                    S::U(u) => ensure!(to_rtx(u) == r, "after {}fields are {:?}, expected {:?}", d, to_rtx(u), r),
                    S::H(h) => check_h(h, &r).map_err(|f| Fail::Violation(format!("after {}{:?}", d, f)))?,
                }
            }
            ch.note(|| d.clone());
            // what can differ between states: kind, form of the operations, spend data
            let (kind, u) = match &s {
                S::U(u) => (0u8, u),
                S::H(h) => (1, h.unhashed_tx()),
            };
            let mut key = vec![kind];
            key.extend(sha256(format!("{:?}", u).as_bytes()));
            Ok((key, NOPS))
        });
    }
    // the binary form is only accepted when its bytes are exactly a transaction
    c.bound("binary forms with every byte string length around the transaction: raw cut at every position, or followed by 1..=3 bytes");
    let tx = &list[2];
    let raw = to_rtx(tx).ser();
    c.range("inexact raw bytes", raw.len() as u64 + 4, |i, ch| {
        let n = i as usize;
        let mut b = raw.clone();
        if n <= raw.len() {
            b.truncate(n);
        } else {
            b.extend(vec![0u8; n - raw.len()]);
        }
        ch.op();
        ch.note(|| format!("{} of {} bytes", n, raw.len()));
        let r = guarded("Tx::deser", || Tx::deser(var_bytes(&b).into()))?;
        ensure!(r.is_ok() == (n == raw.len()), "{} of {} bytes: {:?}", n, raw.len(), r.map(|t| hexs(t.raw())));
        Ok(())
    });
}
