//! Shared alphabets and conversions between reference values and library values.
use crate::refs::*;
use bitcoin_cash::*;

pub fn op_plain(d: &[u8]) -> Op {
    Op::PushByteArray { array: ByteArray::new_unnamed(d.to_vec()), is_minimal: false }
}
pub fn op_min(d: &[u8]) -> Op {
    Op::PushByteArray { array: ByteArray::new_unnamed(d.to_vec()), is_minimal: true }
}
pub fn op_code(b: u8) -> Op {
    match num::FromPrimitive::from_u8(b) {
        Some(c) => Op::Code(c),
        None => Op::Invalid(b),
    }
}

/// Reference serialization of one operation of the library's data model.
pub fn ref_ser_op(op: &Op) -> Vec<u8> {
    match op {
        Op::Code(c) => vec![*c as u8],
        Op::Invalid(b) => vec![*b],
        Op::PushBoolean(b) => vec![if *b { 0x51 } else { 0 }],
        Op::PushInteger(i) => push_minimal(&num(i.value() as i64)),
        Op::PushByteArray { array, is_minimal: true } => push_minimal(array),
        Op::PushByteArray { array, is_minimal: false } => push_plain(array),
    }
}
pub fn ref_ser_ops<'a>(ops: impl IntoIterator<Item = &'a Op>) -> Vec<u8> {
    ops.into_iter().flat_map(ref_ser_op).collect()
}
/// Bytes an operation pushes (None: it is a non-push opcode).
pub fn pushed(op: &Op) -> Option<Vec<u8>> {
    match op {
        Op::Code(c) => match *c as u8 {
            0 => Some(vec![]),
            0x4f => Some(vec![0x81]),
            b @ 0x51..=0x60 => Some(vec![b - 0x50]),
            _ => None,
        },
        Op::Invalid(_) => None,
        Op::PushBoolean(b) => Some(if *b { vec![1] } else { vec![] }),
        Op::PushInteger(i) => Some(num(i.value() as i64)),
        Op::PushByteArray { array, .. } => Some(array.to_vec()),
    }
}
/// Canonical meaning of an operation: pushed bytes, or the opcode byte.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Effect {
    Push(Vec<u8>),
    Exec(u8),
}
pub fn effect(op: &Op) -> Effect {
    match pushed(op) {
        Some(d) => Effect::Push(d),
        None => Effect::Exec(match op {
            Op::Code(c) => *c as u8,
            Op::Invalid(b) => *b,
            _ => unreachable!(),
        }),
    }
}
pub fn effects<'a>(ops: impl IntoIterator<Item = &'a Op>) -> Vec<Effect> {
    ops.into_iter().map(effect).collect()
}
pub fn script_ops(s: &Script) -> Vec<Op> {
    s.ops().iter().map(|o| o.op.clone()).collect()
}

/// Library transaction -> reference transaction, reading only public fields and serializing the
/// scripts with the reference serializer.
pub fn to_rtx(tx: &UnhashedTx) -> RTx {
    RTx {
        version: tx.version,
        ins: tx
            .inputs
            .iter()
            .map(|i| RIn {
                hash: i.prev_out.tx_hash.as_slice().try_into().unwrap(),
                vout: i.prev_out.vout,
                script: ref_ser_ops(&script_ops(&i.script)),
                seq: i.sequence,
            })
            .collect(),
        outs: tx.outputs.iter().map(|o| ROut { value: o.value, script: ref_ser_ops(&script_ops(&o.script)) }).collect(),
        lock: tx.lock_time,
    }
}

pub fn hexs(b: &[u8]) -> String {
    let h = hex::encode(b);
    crate::engine::trunc(&h, 400)
}

pub const U32S: [u32; 8] = [0, 1, 0x7f, 0xff, 0x100, 0x7fffffff, 0x80000000, 0xffffffff];
pub const U64S: [u64; 9] = [0, 1, 546, 0xff, 0x100, 0xffffffff, 0x100000000, 2_100_000_000_000_000, u64::MAX];
pub const I32S: [i32; 6] = [1, 2, 0, -1, i32::MIN, i32::MAX];

pub fn seq_bytes(n: usize, start: u8) -> Vec<u8> {
    (0..n).map(|i| start.wrapping_add((i as u8).wrapping_mul(7))).collect()
}

pub fn ba(d: impl AsRef<[u8]>) -> ByteArray {
    ByteArray::new_unnamed(d.as_ref().to_vec())
}

/// Lengths next to every power of two from 2^10 to 2^16, and some round ones.
pub fn pow2_lens() -> Vec<usize> {
    let mut v: Vec<usize> = (10..=16u32).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
    v.extend([521, 1000, 1650, 10000, 20000, 50000, 70000]);
    v.sort();
    v
}
