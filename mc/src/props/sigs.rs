//! Signatories of the harness: their scripts are simple enough to be written down independently.
use super::common::*;
use crate::refs::*;
use bitcoin_cash::*;
use std::borrow::Cow;
use std::sync::{Arc, Mutex};

/// A script given by its operations.
#[derive(Clone, Debug)]
pub struct Raw(pub Vec<Op>);
impl Ops for Raw {
    fn ops(&self) -> Cow<[TaggedOp]> {
        self.0.iter().cloned().map(TaggedOp::from_op).collect::<Vec<_>>().into()
    }
}
/// What a signatory was asked to build its script from.
#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub preimages: Vec<Vec<u8>>,
    pub size: Option<usize>,
    pub sigs: Vec<u8>,
    pub lock: Vec<u8>,
    pub outs: Vec<u8>,
}
pub type Log = Arc<Mutex<Vec<Call>>>;

/// The script it builds: the signature bytes, then one 32-byte push committing to everything else it was given
/// (both in one push for some lengths of the signature, so that the script is a single operation).
pub fn ref_script_parts(sigs: &[u8], preimages: &[Vec<u8>], outs: &[u8]) -> Vec<Vec<u8>> {
    let mut all = vec![];
    for p in preimages {
        all.extend(sha256(p));
    }
    all.extend(sha256(outs));
    if sigs.len() % 3 == 1 {
        vec![[sigs, &sha256(&all)[..]].concat()]
    } else {
        vec![sigs.to_vec(), sha256(&all)]
    }
}
pub fn ref_sig_script(sigs: &[u8], preimages: &[Vec<u8>], outs: &[u8], p2sh: bool, lock: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = ref_script_parts(sigs, preimages, outs).iter().flat_map(|p| push_minimal(p)).collect();
    if p2sh {
        v.extend(push_minimal(lock));
    }
    v
}
fn build(log: &Log, preimages: Vec<Vec<u8>>, size: Option<usize>, sigs: Vec<u8>, lock: &Script, outs: &[TxOutput]) -> Raw {
    let outs: Vec<u8> = outs.iter().flat_map(|o| o.ser().to_vec()).collect();
    let parts = ref_script_parts(&sigs, &preimages, &outs);
    log.lock().unwrap().push(Call { preimages, size, sigs, lock: ref_ser_ops(&script_ops(lock)), outs });
    Raw(parts.iter().map(|p| op_min(p)).collect())
}

#[derive(Clone)]
pub struct One {
    pub flags: SigHashFlags,
    pub p2sh: bool,
    pub placeholder: usize,
    pub log: Log,
}
impl Signatory for One {
    type Script = Raw;
    type Signatures = Vec<u8>;
    type Kind = SignatoryKindOne;
    fn sig_hash_flags(&self) -> SigHashFlags {
        self.flags
    }
    fn placeholder_signatures(&self) -> Vec<u8> {
        vec![0; self.placeholder]
    }
    fn build_script(&self, p: &TxPreimage, size: Option<usize>, sigs: Vec<u8>, lock: &Script, outs: &[TxOutput]) -> Raw {
        build(&self.log, vec![p.ser().to_vec()], size, sigs, lock, outs)
    }
    fn is_p2sh(&self) -> bool {
        self.p2sh
    }
}
#[derive(Clone)]
pub struct Multi {
    pub flags: Vec<SigHashFlags>,
    pub p2sh: bool,
    pub placeholder: usize,
    pub log: Log,
}
impl Signatory for Multi {
    type Script = Raw;
    type Signatures = Vec<u8>;
    type Kind = SignatoryKindMultiple;
    fn sig_hash_flags(&self) -> Vec<SigHashFlags> {
        self.flags.clone()
    }
    fn placeholder_signatures(&self) -> Vec<u8> {
        vec![0; self.placeholder]
    }
    fn build_script(&self, p: &[TxPreimage], size: Option<usize>, sigs: Vec<u8>, lock: &Script, outs: &[TxOutput]) -> Raw {
        build(&self.log, p.iter().map(|p| p.ser().to_vec()).collect(), size, sigs, lock, outs)
    }
    fn is_p2sh(&self) -> bool {
        self.p2sh
    }
}
pub fn new_log() -> Log {
    Arc::new(Mutex::new(vec![]))
}

/// An input of a transaction under construction, as the harness specifies it.
#[derive(Clone, Debug)]
pub struct Inp {
    pub hash: [u8; 32],
    pub vout: u32,
    pub seq: u32,
    pub value: u64,
    pub lock: Vec<Op>,
    /// None: single kind with flags[0].
    pub flags: Vec<u32>,
    pub multi: bool,
    pub p2sh: bool,
    pub placeholder: usize,
}
impl Inp {
    pub fn sig_flags(&self) -> Vec<SigHashFlags> {
        self.flags.iter().map(|f| SigHashFlags::from_u8(*f as u8)).collect()
    }
    pub fn one(&self, log: &Log) -> One {
        One { flags: self.sig_flags()[0], p2sh: self.p2sh, placeholder: self.placeholder, log: log.clone() }
    }
    pub fn multi(&self, log: &Log) -> Multi {
        Multi { flags: self.sig_flags(), p2sh: self.p2sh, placeholder: self.placeholder, log: log.clone() }
    }
    pub fn unsigned(&self) -> UnsignedTxInput {
        UnsignedTxInput {
            prev_out: TxOutpoint { tx_hash: Sha256d::new(self.hash), vout: self.vout },
            sequence: self.seq,
            value: self.value,
        }
    }
    pub fn lock_ops(&self) -> Vec<TaggedOp> {
        self.lock.iter().cloned().map(TaggedOp::from_op).collect()
    }
    pub fn lock_bytes(&self) -> Vec<u8> {
        ref_ser_ops(&self.lock)
    }
    pub fn rin(&self, script: Vec<u8>) -> RIn {
        RIn { hash: self.hash, vout: self.vout, script, seq: self.seq }
    }
    pub fn add<'b>(&self, b: &mut TxBuilder<'b>, log: &Log) -> usize {
        if self.multi {
            b.add_input(self.unsigned(), TaggedScript::<Raw>::new(self.lock_ops()), self.multi(log)).input_idx()
        } else {
            b.add_input(self.unsigned(), TaggedScript::<Raw>::new(self.lock_ops()), self.one(log)).input_idx()
        }
    }
    /// entry: 0 sign_input, 1 sign_input_dyn, 2 sign_input_signatory
    pub fn sign(&self, u: &mut UnsignedTx, i: usize, entry: usize, sigs: Vec<u8>, log: &Log) -> error::Result<()> {
        match (self.multi, entry) {
            (_, 1) => u.sign_input_dyn(i, Box::new(sigs)),
            (true, 0) => u.sign_input(InputReference::<Multi>::new(i), sigs),
            (false, 0) => u.sign_input(InputReference::<One>::new(i), sigs),
            (true, _) => u.sign_input_signatory(InputReference::new(i), self.multi(log), sigs),
            (false, _) => u.sign_input_signatory(InputReference::new(i), self.one(log), sigs),
        }
    }
    pub fn input_preimages(&self, u: &UnsignedTx, i: usize) -> Vec<Vec<u8>> {
        if self.multi {
            u.input_preimages(InputReference::<Multi>::new(i)).iter().map(|p| p.ser().to_vec()).collect()
        } else {
            vec![u.input_preimages(InputReference::<One>::new(i)).ser().to_vec()]
        }
    }
    /// Bytes of the script with `n` placeholder signature bytes.
    pub fn script_len(&self, n: usize) -> usize {
        ref_sig_script(&vec![0u8; n], &[], &[], self.p2sh, &self.lock_bytes()).len()
    }
}

/// Script code: what follows the first executed separator (or everything).
pub fn ref_script_code(lock: &[Op]) -> Vec<u8> {
    match lock.iter().position(|o| effect(o) == Effect::Exec(0xab)) {
        Some(i) => ref_ser_ops(&lock[i + 1..]),
        None => ref_ser_ops(lock),
    }
}
pub fn ref_tx(version: i32, ins: &[Inp], outs: &[ROut], lock: u32) -> RTx {
    RTx { version, ins: ins.iter().map(|i| i.rin(vec![])).collect(), outs: outs.to_vec(), lock }
}
pub fn ref_preimages(tx: &RTx, ins: &[Inp]) -> Vec<Vec<Vec<u8>>> {
    ins.iter()
        .enumerate()
        .map(|(i, n)| n.flags.iter().map(|f| tx.preimage(i, &ref_script_code(&n.lock), n.value, *f)).collect())
        .collect()
}
pub fn sers(p: &[Vec<TxPreimage>]) -> Vec<Vec<Vec<u8>>> {
    p.iter().map(|v| v.iter().map(|p| p.ser().to_vec()).collect()).collect()
}
