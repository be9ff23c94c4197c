//! C26: what the builder and the signatories produce, executed by consensus rules.
use super::c01_wire::hash_n;
use super::common::*;
use super::sigs::Raw;
use crate::engine::*;
use crate::refs::*;
use crate::refvm::{self, Checker};
use crate::{ensure, refec};
use bitcoin_cash::Opcode::*;
use bitcoin_cash::*;
use bitcoin_cash_ecc::SelectedECC;
use num::bigint::BigUint;
use std::sync::OnceLock;

// ---------------------------------------------------------------- consensus

struct Chk<'a> {
    tx: &'a RTx,
    idx: usize,
    value: u64,
    own_ec: bool,
}
fn ec_verify(pk: &[u8], msg: &[u8], der: &[u8], own: bool) -> Result<bool, &'static str> {
    if !refec::well_formed(der) {
        return Err("signature encoding");
    }
    let (r, s) = refec::parse_der(der).ok_or("signature encoding")?;
    if !refec::is_low(&s) {
        return Err("high s");
    }
    static CTX: OnceLock<secp256k1::Secp256k1<secp256k1::VerifyOnly>> = OnceLock::new();
    let ctx = CTX.get_or_init(secp256k1::Secp256k1::verification_only);
    let good = match (secp256k1::PublicKey::from_slice(pk), secp256k1::Signature::from_der(der)) {
        (Ok(p), Ok(s)) => ctx.verify(&secp256k1::Message::from_slice(msg).unwrap(), &s, &p).is_ok(),
        _ => false,
    };
    if own {
        let mine = refec::point(pk).map_or(false, |p| refec::verify(&p, msg, &r, &s));
        if mine != good {
            return Err("ENGINE: two verifiers disagree");
        }
    }
    Ok(good)
}
fn pubkey_ok(pk: &[u8]) -> bool {
    (pk.len() == 33 && (pk[0] == 2 || pk[0] == 3)) || (pk.len() == 65 && pk[0] == 4)
}
impl Checker for Chk<'_> {
    fn sig(&mut self, sig: &[u8], pk: &[u8], code: &[u8]) -> Result<bool, &'static str> {
        if !pubkey_ok(pk) {
            return Err("public key encoding");
        }
        let (flag, der) = match sig.split_last() {
            None => return Ok(false),
            Some(x) => x,
        };
        if ![0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3].contains(flag) {
            return Err("hash type");
        }
        let p = self.tx.preimage(self.idx, code, self.value, *flag as u32);
        ec_verify(pk, &sha256d(&p), der, self.own_ec)
    }
    fn data_sig(&mut self, sig: &[u8], msg: &[u8], pk: &[u8]) -> Result<bool, &'static str> {
        if !pubkey_ok(pk) {
            return Err("public key encoding");
        }
        if sig.is_empty() {
            return Ok(false);
        }
        ec_verify(pk, &sha256(msg), sig, self.own_ec)
    }
    fn lock_time(&mut self, n: i128) -> bool {
        let l = self.tx.lock as i128;
        n >= 0 && (n < 500_000_000) == (l < 500_000_000) && n <= l && self.tx.ins[self.idx].seq != 0xffffffff
    }
    fn sequence(&mut self, n: i128) -> bool {
        if n < 0 {
            return false;
        }
        let n = n as u64;
        if n & 1 << 31 != 0 {
            return true;
        }
        let s = self.tx.ins[self.idx].seq as u64;
        if (self.tx.version as u32) < 2 || s & 1 << 31 != 0 {
            return false;
        }
        let m = 0x40ffff;
        ((n & m) < 1 << 22) == ((s & m) < 1 << 22) && n & m <= s & m
    }
}
/// Consensus and standardness of one spend.
fn spend(tx: &RTx, idx: usize, prev_script: &[u8], value: u64, own_ec: bool) -> Result<(), &'static str> {
    let script = &tx.ins[idx].script;
    let toks = refvm::parse_tokens(script).ok_or("input script cut short")?;
    if toks.iter().any(|t| t.code > 0x60) {
        return Err("input script isn't push only");
    }
    if script.len() > 1650 {
        return Err("input script too long");
    }
    let mut chk = Chk { tx, idx, value, own_ec };
    let mut st = vec![];
    refvm::exec(script, &mut st, &mut vec![], &mut chk)?;
    let before = st.clone();
    refvm::exec(prev_script, &mut st, &mut vec![], &mut chk)?;
    if !st.last().map_or(false, |x| refvm::truth(x)) {
        return Err("locking script leaves false");
    }
    let p2sh = prev_script.len() == 23 && prev_script[0] == 0xa9 && prev_script[1] == 0x14 && prev_script[22] == 0x87;
    if p2sh {
        st = before;
        let redeem = st.pop().ok_or("no redeem script")?;
        refvm::exec(&redeem, &mut st, &mut vec![], &mut chk)?;
        if !st.last().map_or(false, |x| refvm::truth(x)) {
            return Err("redeem script leaves false");
        }
    }
    if st.len() != 1 {
        return Err("items left on the stack");
    }
    Ok(())
}

// ---------------------------------------------------------------- keys and kinds of inputs

struct Key {
    sk: Vec<u8>,
    pk: Vec<u8>,
}
fn keys() -> &'static Vec<Key> {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    K.get_or_init(|| {
        let n = &refec::k().n;
        [BigUint::from(1u32), n - 2u32, BigUint::from_bytes_be(&sha256(b"a")), BigUint::from_bytes_be(&sha256(b"b"))].iter().map(|s| Key { sk: refec::b32(s).to_vec(), pk: refec::pubkey(s) }).collect()
    })
}
pub struct CovParams {
    pk: ByteArray,
}
#[bitcoin_cash::script(CovInputs)]
fn covenant(params: CovParams, data_sig: ByteArray, preimage: ByteArray, sig: ByteArray) {
    let pk = params.pk;
    OP_CHECKSIGVERIFY(sig, pk);
    let hash = OP_SHA256(preimage);
    let pk = params.pk;
    let success = OP_CHECKDATASIG(data_sig, hash, pk);
}
#[derive(Clone)]
struct CovSignatory {
    flags: SigHashFlags,
}
impl Signatory for CovSignatory {
    type Script = CovInputs;
    type Signatures = ByteArray;
    type Kind = SignatoryKindOne;
    fn sig_hash_flags(&self) -> SigHashFlags {
        self.flags
    }
    fn placeholder_signatures(&self) -> ByteArray {
        vec![0; 72].into()
    }
    fn build_script(&self, p: &TxPreimage, _: Option<usize>, sig: ByteArray, _: &Script, _: &[TxOutput]) -> CovInputs {
        CovInputs { data_sig: sig.clone(), preimage: p.ser(), sig: sig.concat([self.flags.bits() as u8]) }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    P2pkh(usize),
    /// bare public key
    P2pk(usize),
    Key(usize),
    /// two signatures with different hash types
    Two,
    Separator,
    /// IF key 2 ELSE lock time, key 3 ENDIF
    Branch(bool),
    Multisig,
    Sequence,
    Covenant,
    /// padded redeem script of this length
    Padded(usize),
    /// no signature at all
    Empty,
}
use Kind::*;
const KINDS: [Kind; 12] = [P2pkh(0), P2pk(3), Key(1), Two, Separator, Branch(true), Branch(false), Multisig, Sequence, Covenant, P2pkh(2), Empty];
const LOCK: u32 = 500;

impl Kind {
    fn is_p2sh(self) -> bool {
        !matches!(self, P2pkh(_) | P2pk(_))
    }
    /// The script the signatory is given, as operations.
    fn lock_ops(self) -> Vec<Op> {
        let pk = |i: usize| op_min(&keys()[i].pk);
        let o = op_code;
        match self {
            P2pkh(k) => vec![o(0x76), o(0xa9), op_min(&hash160(&keys()[k].pk)), o(0x88), o(0xac)],
            P2pk(k) | Key(k) => vec![pk(k), o(0xac)],
            Two => vec![pk(0), o(0xad), pk(3), o(0xac)],
            Separator => vec![pk(2), o(0x76), o(0x75), o(0xab), o(0xac)],
            Branch(_) => vec![o(0x63), pk(2), o(0x67), Op::from_int(LOCK as i32), o(0xb1), o(0x75), pk(3), o(0x68), o(0xac)],
            Multisig => vec![Op::from_int(2), pk(0), pk(2), pk(3), Op::from_int(3), o(0xae)],
            Sequence => vec![Op::from_int(7), o(0xb2), o(0x75), pk(1), o(0xac)],
            Covenant => script_ops(&CovParams { pk: keys()[1].pk.clone().into() }.covenant().into()),
            Padded(n) => {
                // push, OP_DROP, key, OP_CHECKSIG
                let rest = n - 36;
                let head = [1, 2, 3].into_iter().find(|h| push_minimal(&vec![9; rest - h]).len() == rest).unwrap();
                vec![op_min(&vec![9; rest - head]), o(0x75), pk(2), o(0xac)]
            }
            Empty => vec![],
        }
    }
    fn flags(self, f: u32) -> Vec<u32> {
        match self {
            Two => vec![f, FLAGS[(FLAGS.iter().position(|x| *x == f).unwrap() + 1) % 6]],
            Empty => vec![],
            _ => vec![f],
        }
    }
    /// Keys signing, one per hash type (the multisig signs twice with the same hash type).
    fn signers(self) -> Vec<usize> {
        match self {
            P2pkh(k) | P2pk(k) | Key(k) => vec![k],
            Two => vec![0, 3],
            Separator | Branch(true) | Padded(_) => vec![2],
            Branch(false) => vec![3],
            Multisig => vec![0, 3],
            Sequence | Covenant => vec![1],
            Empty => vec![],
        }
    }
    fn seq(self) -> u32 {
        match self {
            Branch(_) => 0xfffffffe,
            Sequence => 9,
            Key(_) => 0,
            _ => 0xffffffff,
        }
    }
    /// The script of the output being spent.
    fn prev_script(self) -> Vec<u8> {
        let l = ref_ser_ops(&self.lock_ops());
        if self.is_p2sh() {
            [&[0xa9, 0x14][..], &hash160(&l), &[0x87]].concat()
        } else {
            l
        }
    }
    fn separator(self) -> usize {
        if self == Separator { 4 } else { 0 }
    }
}
const FLAGS: [u32; 6] = [0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3];

#[derive(Clone)]
struct Gen {
    kind: Kind,
    flags: Vec<SigHashFlags>,
}
/// The input script from complete signatures.
fn gen_script(kind: Kind, flags: &[SigHashFlags], sigs: Vec<Vec<u8>>) -> Raw {
    let f = |i: usize| flags[i.min(flags.len() - 1)].bits() as u8;
    let full: Vec<Op> = sigs.iter().enumerate().map(|(i, s)| op_min(&[&s[..], &[f(i)]].concat())).collect();
    Raw(match kind {
        Two => vec![full[1].clone(), full[0].clone()],
        Branch(b) => vec![full[0].clone(), Op::PushBoolean(b)],
        Multisig => vec![Op::from_int(0), full[0].clone(), full[1].clone()],
        Empty => vec![Op::from_int(1)],
        _ => full,
    })
}
impl Signatory for Gen {
    type Script = Raw;
    type Signatures = Vec<Vec<u8>>;
    type Kind = SignatoryKindMultiple;
    fn sig_hash_flags(&self) -> Vec<SigHashFlags> {
        self.flags.clone()
    }
    fn placeholder_signatures(&self) -> Vec<Vec<u8>> {
        self.kind.signers().iter().map(|_| vec![0; 71]).collect()
    }
    fn build_script(&self, _: &[TxPreimage], _: Option<usize>, sigs: Vec<Vec<u8>>, _: &Script, _: &[TxOutput]) -> Raw {
        gen_script(self.kind, &self.flags, sigs)
    }
    fn is_p2sh(&self) -> bool {
        self.kind.is_p2sh()
    }
}
#[derive(Clone)]
struct GenOne(Gen);
impl Signatory for GenOne {
    type Script = Raw;
    type Signatures = Vec<Vec<u8>>;
    type Kind = SignatoryKindOne;
    fn sig_hash_flags(&self) -> SigHashFlags {
        self.0.flags[0]
    }
    fn placeholder_signatures(&self) -> Vec<Vec<u8>> {
        self.0.placeholder_signatures()
    }
    fn build_script(&self, _: &TxPreimage, _: Option<usize>, sigs: Vec<Vec<u8>>, _: &Script, _: &[TxOutput]) -> Raw {
        gen_script(self.0.kind, &self.0.flags, sigs)
    }
    fn is_p2sh(&self) -> bool {
        self.0.kind.is_p2sh()
    }
}

#[derive(Clone)]
struct In {
    kind: Kind,
    flags: Vec<u32>,
    value: u64,
    i: usize,
}
fn sh(f: u32) -> SigHashFlags {
    SigHashFlags::from_u8(f as u8)
}
fn sign_raw(key: usize, preimage: &TxPreimage) -> Result<Vec<u8>, Fail> {
    let ecc: SelectedECC = Default::default();
    let hash = Sha256d::digest(preimage.ser());
    let s = guarded("sign", || ecc.sign(&keys()[key].sk, hash.as_byte_array().clone()))?.map_err(|e| format!("sign: {}", e))?;
    Ok(s.to_vec())
}
impl In {
    fn single(&self) -> bool {
        !matches!(self.kind, Two | Empty)
    }
    fn gen(&self) -> Gen {
        Gen { kind: self.kind, flags: self.flags.iter().map(|f| sh(*f)).collect() }
    }
    fn p2pkh(&self, k: usize) -> P2PKHSignatory {
        P2PKHSignatory { pubkey: Pubkey::from_slice_checked(&keys()[k].pk).unwrap(), sig_hash_flags: sh(self.flags[0]) }
    }
    fn add(&self, b: &mut TxBuilder) -> usize {
        let u = UnsignedTxInput { prev_out: TxOutpoint { tx_hash: Sha256d::new(hash_n(self.i + 1)), vout: self.i as u32 }, sequence: self.kind.seq(), value: self.value };
        let raw = || TaggedScript::<Raw>::new(self.kind.lock_ops().into_iter().map(TaggedOp::from_op).collect::<Vec<_>>());
        match self.kind {
            P2pkh(k) => {
                let pk = Pubkey::from_slice_checked(&keys()[k].pk).unwrap();
                b.add_input(u, Address::from_pk(Prefix::default(), &pk).p2pkh_script().unwrap(), self.p2pkh(k)).input_idx()
            }
            Covenant => b.add_input(u, CovParams { pk: keys()[1].pk.clone().into() }.covenant(), CovSignatory { flags: sh(self.flags[0]) }).input_idx(),
            _ if self.single() => b.add_input(u, raw(), GenOne(self.gen())).input_idx(),
            _ => b.add_input(u, raw(), self.gen()).input_idx(),
        }
    }
    /// entry: 0 sign_input, 1 sign_input_dyn, 2 sign_input_signatory
    fn sign(&self, u: &mut UnsignedTx, i: usize, entry: usize) -> Res {
        let keys = self.kind.signers();
        let r = match self.kind {
            P2pkh(k) => {
                let r = InputReference::<P2PKHSignatory>::new(i);
                let s: ByteArray = sign_raw(k, u.input_preimages(r))?.into();
                match entry {
                    0 => u.sign_input(r, s),
                    1 => u.sign_input_dyn(i, Box::new(s)),
                    _ => u.sign_input_signatory(r, self.p2pkh(k), s),
                }
            }
            Covenant => {
                let r = InputReference::<CovSignatory>::new(i);
                let s: ByteArray = sign_raw(1, u.input_preimages(r))?.into();
                match entry {
                    0 => u.sign_input(r, s),
                    1 => u.sign_input_dyn(i, Box::new(s)),
                    _ => u.sign_input_signatory(r, CovSignatory { flags: sh(self.flags[0]) }, s),
                }
            }
            _ if self.single() => {
                let r = InputReference::<GenOne>::new(i);
                let p = u.input_preimages(r).clone();
                let s = keys.iter().map(|k| sign_raw(*k, &p)).collect::<Result<Vec<_>, _>>()?;
                match entry {
                    0 => u.sign_input(r, s),
                    1 => u.sign_input_dyn(i, Box::new(s)),
                    _ => u.sign_input_signatory(r, GenOne(self.gen()), s),
                }
            }
            _ => {
                let r = InputReference::<Gen>::new(i);
                let p = u.input_preimages(r).to_vec();
                ensure!(p.len() == keys.len(), "{} preimages for {} hash types", p.len(), keys.len());
                let s = keys.iter().zip(&p).map(|(k, p)| sign_raw(*k, p)).collect::<Result<Vec<_>, _>>()?;
                match entry {
                    0 => u.sign_input(r, s),
                    1 => u.sign_input_dyn(i, Box::new(s)),
                    _ => u.sign_input_signatory(r, self.gen(), s),
                }
            }
        };
        r.map_err(|e| format!("signing input {}: {}", i, e).into())
    }
}

// ---------------------------------------------------------------- alterations

#[derive(Clone, Copy, Debug)]
enum Alt {
    Version,
    Lock,
    Hash(usize),
    Vout(usize),
    Seq(usize),
    Value(usize),
    OutValue(usize),
    OutScript(usize),
    OutAdd,
    OutRemove,
    OutSwap,
    InAdd,
    InRemove,
}
fn alterations(n_in: usize, n_out: usize) -> Vec<Alt> {
    use Alt::*;
    let mut v = vec![Version, Lock, OutAdd, InAdd];
    for i in 0..n_in {
        v.extend([Hash(i), Vout(i), Seq(i), Value(i)]);
    }
    for i in 0..n_out {
        v.extend([OutValue(i), OutScript(i)]);
    }
    if n_out > 0 {
        v.push(OutRemove);
    }
    if n_out > 1 {
        v.push(OutSwap);
    }
    if n_in > 1 {
        v.push(InRemove);
    }
    v
}
fn alter(a: Alt, tx: &mut RTx, values: &mut [u64]) {
    use Alt::*;
    match a {
        Version => tx.version ^= 4,
        Lock => tx.lock += 1,
        Hash(i) => tx.ins[i].hash[31] ^= 0x80,
        Vout(i) => tx.ins[i].vout ^= 1 << 31,
        Seq(i) => tx.ins[i].seq ^= 16,
        Value(i) => values[i] ^= 1 << 40,
        OutValue(i) => tx.outs[i].value ^= 1,
        OutScript(i) => tx.outs[i].script.push(0x51),
        OutAdd => tx.outs.push(ROut { value: 1, script: vec![0x51] }),
        OutRemove => {
            tx.outs.pop();
        }
        OutSwap => {
            let l = tx.outs.len();
            tx.outs.swap(l - 1, l - 2)
        }
        InAdd => tx.ins.push(RIn { hash: [0xee; 32], vout: 1, script: vec![], seq: 5 }),
        InRemove => {
            tx.ins.pop();
        }
    }
}
/// Whether a signature of input `i` with hash type `f` covers what `a` changes, by definition of the hash types.
fn committed(a: Alt, i: usize, f: u32, n_in: usize, n_out: usize) -> bool {
    use Alt::*;
    let (base, acp) = (f & 0x1f, f & 0x80 != 0);
    match a {
        Version | Lock => true,
        Hash(j) | Vout(j) => j == i || !acp,
        Seq(j) => j == i || (!acp && base == 1),
        Value(j) => j == i,
        OutValue(j) | OutScript(j) => base == 1 || (base == 3 && j == i),
        OutAdd => base == 1 || (base == 3 && i == n_out),
        OutRemove => base == 1 || (base == 3 && i == n_out - 1),
        OutSwap => base == 1 || (base == 3 && (i == n_out - 1 || i == n_out - 2)),
        InAdd => !acp,
        InRemove => !acp || i == n_in - 1,
    }
}

// ---------------------------------------------------------------- the check

struct Case {
    ins: Vec<In>,
    outs: usize,
    change: bool,
    entry: usize,
    /// suspend after signing the first input: 0 no, 1 directly, 2 annotated JSON, 3 serde
    resume: usize,
    own_ec: bool,
    alter: bool,
}
fn run_case(case: &Case, ch: &mut Chooser) -> Res {
    let n = case.ins.len();
    ch.note(|| format!("inputs {:?}, {} outputs, change {}, entry {}, resume {}", case.ins.iter().map(|i| (i.kind, i.flags.clone())).collect::<Vec<_>>(), case.outs, case.change, case.entry, case.resume));
    let mut b = TxBuilder::new_with_fee(2, LOCK, 1000);
    for x in &case.ins {
        x.add(&mut b);
    }
    let pay = [
        Address::from_pk(Prefix::default(), &Pubkey::from_slice_checked(&keys()[3].pk).unwrap()).into(),
        Script::from_ops([op_code(0x6a), op_min(b"SLP\0")]),
        Address::from_redeem_script("bchtest", Script::from_ops([op_code(0x51)])).unwrap().into(),
    ];
    for k in 0..case.outs {
        b.add_output(TxOutput { value: 600 + k as u64, script: pay[k % 3].clone() });
    }
    if case.change {
        b.add_leftover_output(pay[0].clone());
    }
    let mut u = guarded("build", || b.build())?.map_err(|e| e.to_string())?;
    for (i, x) in case.ins.iter().enumerate() {
        ch.op();
        // an imported input has lost its signatory
        let entry = if case.resume > 0 && i > 0 { 2 } else { case.entry };
        x.sign(&mut u, i, entry)?;
        if case.resume > 0 && i == 0 {
            let p = u.partial_tx();
            let p = match case.resume {
                1 => p,
                2 => json_to_tx(&tx_to_json(&p).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?,
                _ => serde_json::from_str(&serde_json::to_string(&p).unwrap()).map_err(|e| e.to_string())?,
            };
            let b = TxBuilder::from_tx(p);
            u = b.build_without_estimation().map_err(|e| e.to_string())?;
        }
    }
    let tx = u.complete_tx();
    let rtx = to_rtx(&tx);
    ensure!(rtx.outs.len() == case.outs + case.change as usize, "{} outputs", rtx.outs.len());
    // what goes over the wire is what the network executes
    let wire = guarded("encode", || tx.ser())?;
    ensure!(wire.as_slice() == &rtx.ser()[..], "wire form");
    let values: Vec<u64> = case.ins.iter().map(|x| x.value).collect();
    for (i, x) in case.ins.iter().enumerate() {
        let script = &rtx.ins[i].script;
        ensure!(rtx.ins[i].hash == hash_n(x.i + 1) && rtx.ins[i].vout == x.i as u32 && rtx.ins[i].seq == x.kind.seq(), "input {} doesn't spend what was added", i);
        let toks = refvm::parse_tokens(script).ok_or("input script")?;
        let lock = ref_ser_ops(&x.kind.lock_ops());
        if x.kind.is_p2sh() {
            ensure!(toks.last().map_or(false, |t| t.data.as_ref() == Some(&lock) || (lock.is_empty() && t.code == 0)), "input {} ends with {:?}, expected a push of {}", i, toks.last().map(|t| t.data.clone()), hexs(&lock));
        }
        if let P2pkh(k) = x.kind {
            let d: Vec<_> = toks.iter().map(|t| t.data.clone().unwrap_or_default()).collect();
            ensure!(d.len() == 2 && d[1] == keys()[k].pk && d[0].last() == Some(&(x.flags[0] as u8)), "public key hash input {} is {}", i, hexs(script));
        }
        // the spent output, as the library would have written it
        let written: Option<Script> = match x.kind {
            P2pkh(k) => Some(Address::from_pk("simpleledger", &Pubkey::from_slice_checked(&keys()[k].pk).unwrap()).into()),
            P2pk(_) => None,
            _ => Some(Address::from_redeem_script(Prefix::default(), Script::from_ops(x.kind.lock_ops())).unwrap().into()),
        };
        if let Some(w) = written {
            ensure!(w.ser_ops().as_slice() == &x.kind.prev_script()[..], "locking script {} of the spent output, expected {}", hexs(&w.ser_ops()), hexs(&x.kind.prev_script()));
        }
        ch.op();
        if let Err(e) = spend(&rtx, i, &x.kind.prev_script(), x.value, case.own_ec) {
            return Err(format!("spending input {} ({:?}, hash types {:x?}) fails: {}; input script {}", i, x.kind, x.flags, e, hexs(script)).into());
        }
    }
    ch.observe(sha256(&rtx.ser()));
    if !case.alter {
        return Ok(());
    }
    let ecc: SelectedECC = Default::default();
    for a in alterations(n, rtx.outs.len()) {
        let (mut r, mut v) = (rtx.clone(), values.clone());
        alter(a, &mut r, &mut v);
        for (i, x) in case.ins.iter().enumerate().take(r.ins.len()) {
            if x.kind == Empty {
                continue;
            }
            let com: Vec<bool> = x.flags.iter().map(|f| committed(a, i, *f, n, rtx.outs.len())).collect();
            let want = !com.iter().any(|c| *c);
            // reducing the sequence or raising the lock time may also trip the lock conditions
            let time = matches!(a, Alt::Seq(j) if j == i) || matches!(a, Alt::Lock | Alt::Version);
            let got = spend(&r, i, &x.kind.prev_script(), v[i], false);
            ch.op();
            if !(time && !want) {
                ensure!(got.is_ok() == want, "after {:?} the spend of input {} ({:?}, hash types {:x?}) gives {:?}, expected {}", a, i, x.kind, x.flags, got, if want { "success" } else { "failure" });
            } else {
                ensure!(got.is_err(), "after {:?} the spend of input {} still succeeds", a, i);
            }
        }
        // the same judged through the library's own hashing
        let mut altered = UnhashedTx::deser(r.ser().into()).map_err(|e| e.to_string())?;
        for (i, x) in altered.inputs.iter_mut().enumerate() {
            x.value = Some(v.get(i).cloned().unwrap_or(0));
            x.lock_script = Some(case.ins.get(i).map_or(Script::default(), |y| Script::from_ops(y.kind.lock_ops())));
        }
        for (i, x) in case.ins.iter().enumerate().take(r.ins.len()) {
            if x.kind == Empty {
                continue;
            }
            let (skey, f) = (x.kind.signers()[0], x.flags[0]);
            let sig = signature(&rtx.ins[i].script, x.kind);
            let p = guarded("preimages", || altered.preimages(&[sh(f)]))?;
            let h = Sha256d::digest(p[i][0].ser());
            let ok = ecc.verify(&keys()[skey].pk, h.as_slice(), &sig[..sig.len() - 1]).map_err(|e| format!("verify: {}", e))?;
            let want = !committed(a, i, f, n, rtx.outs.len());
            ch.op();
            ensure!(ok == want, "after {:?} the signature of input {} (hash type {:x}) is {}, judged by the library's preimage", a, i, f, if ok { "still valid" } else { "invalid" });
        }
    }
    // altered signatures: hash type, each kind of byte, public key of someone else
    for (i, x) in case.ins.iter().enumerate() {
        if x.kind == Empty {
            continue;
        }
        let sig = signature(&rtx.ins[i].script, x.kind);
        let pos = rtx.ins[i].script.windows(sig.len()).position(|w| w == &sig[..]).ok_or("ENGINE: signature")?;
        for (k, by) in [(sig.len() - 1, 0x80u8), (sig.len() - 1, 0x03), (sig.len() - 2, 1), (5, 1)] {
            let mut r = rtx.clone();
            r.ins[i].script[pos + k] ^= by;
            ch.op();
            ensure!(spend(&r, i, &x.kind.prev_script(), x.value, false).is_err(), "the spend of input {} succeeds with byte {} of its signature changed", i, k);
        }
    }
    Ok(())
}
/// The first signer's signature (with hash type) in an input script.
fn signature(script: &[u8], kind: Kind) -> Vec<u8> {
    let toks = refvm::parse_tokens(script).unwrap();
    let i = match kind {
        Two => 1,
        Multisig => 1,
        Covenant => 2,
        _ => 0,
    };
    toks[i].data.clone().unwrap()
}
fn mk(i: usize, kind: Kind, f: u32) -> In {
    In { kind, flags: kind.flags(f), value: 10_000 + 1000 * i as u64, i }
}

pub fn c26(c: &Ctx) {
    bitcoin_cash_ecc::init_ecc();
    keys();
    c.bound("12 kinds of inputs (public key hash, bare key, script hash with: one key, two signatures of different hash types, executed OP_CODESEPARATOR, both branches of a conditional with a lock time, 2-of-3 multisig, relative lock time, preimage covenant written with #[script], empty redeem script) x 6 hash types x 0..=3 outputs with and without change x 3 signing entry points, in transactions of 1 and 2 inputs (all pairs of kinds) and 3 inputs, and of 4..=60, 254 inputs of all kinds with 0..=255 outputs; resumed from a partial transaction directly, through annotated JSON and through serde; real ECDSA; consensus judged by an independent interpreter");
    c.bound("every single alteration of version, lock time, outpoint, sequence, value, output value and script, added, removed or swapped outputs and inputs, 4 bytes of each signature, for every 1 and 2 input transaction above");
    let nk = KINDS.len() as u64;
    // single inputs, everything
    c.tree("one input", |ch| {
        let kind = *ch.of(&KINDS);
        let f = *ch.of(&FLAGS);
        let case = Case { ins: vec![mk(0, kind, f)], outs: ch.pick(4), change: ch.flag(), entry: ch.pick(3), resume: 0, own_ec: true, alter: true };
        run_case(&case, ch)
    });
    c.bound("public key hash inputs: the input script of 256 hash types x 2 keys x 3 signing entry points");
    c.range("public key hash scripts", 256 * 6, |i, ch| {
        let (f, k, entry) = ((i % 256) as u32, (i / 256 % 2) as usize, (i / 512) as usize);
        ch.note(|| format!("hash type {:#x}, key {}, entry {}", f, k, entry));
        let x = mk(0, P2pkh(k), f);
        let mut b = TxBuilder::new_with_fee(2, LOCK, 1000);
        x.add(&mut b);
        b.add_output(TxOutput { value: 1000, script: Script::from_ops(vec![op_code(0x51)]) });
        let mut u = guarded("build", || b.build())?.map_err(|e| format!("build: {}", e))?;
        let hash = Sha256d::digest(u.input_preimages(InputReference::<P2PKHSignatory>::new(0)).ser()).as_slice().to_vec();
        x.sign(&mut u, 0, entry)?;
        let tx = guarded("complete", || u.complete_tx())?;
        ch.op();
        let r = to_rtx(&tx);
        let toks = refvm::parse_tokens(&r.ins[0].script).ok_or("input script")?;
        let mut sig = toks.first().and_then(|t| t.data.clone()).unwrap_or_default();
        ensure!(sig.pop() == Some(f as u8), "the signature of {} doesn't end with the hash type", hexs(&r.ins[0].script));
        ensure!(SelectedECC::default().verify(&keys()[k].pk, &hash, &sig).ok() == Some(true), "the signature of {} isn't valid", hexs(&r.ins[0].script));
        let want = [push_plain(&[&sig[..], &[f as u8]].concat()), push_plain(&keys()[k].pk)].concat();
        ensure!(r.ins[0].script == want, "input script {}, expected {}", hexs(&r.ins[0].script), hexs(&want));
        ch.observe(want);
        Ok(())
    });
    c.tree("redeem script lengths", |ch| {
        let n = *ch.of(&[39usize, 75, 76, 77, 112, 254, 255, 256, 257, 519, 520]);
        let f = *ch.of(&FLAGS);
        run_case(&Case { ins: vec![mk(0, Padded(n), f)], outs: 1, change: ch.flag(), entry: ch.pick(3), resume: 0, own_ec: false, alter: true }, ch)
    });
    c.range("two inputs", nk * nk * 36 * 6, |i, ch| {
        let (k, i) = (i % (nk * nk), i / (nk * nk));
        let (fl, o) = (i % 36, (i / 36) as usize);
        let ins = vec![mk(0, KINDS[(k % nk) as usize], FLAGS[(fl % 6) as usize]), mk(1, KINDS[(k / nk) as usize], FLAGS[(fl / 6) as usize])];
        let entry = (k + fl) as usize % 3;
        if !c.thorough && (k + fl + o as u64) % 4 != 0 {
            return Ok(());
        }
        run_case(&Case { ins, outs: o % 3, change: o >= 3, entry, resume: 0, own_ec: false, alter: c.thorough || (k + fl) % 3 == 0 }, ch)
    });
    c.range("resumed", nk * nk * 6 * 3 * 2, |i, ch| {
        let (k, i) = (i % (nk * nk), i / (nk * nk));
        let (f, i) = ((i % 6) as usize, i / 6);
        let ins = vec![mk(0, KINDS[(k % nk) as usize], FLAGS[f]), mk(1, KINDS[(k / nk) as usize], FLAGS[(f + 1) % 6])];
        run_case(&Case { ins, outs: 2, change: i / 3 == 1, entry: (k % 3) as usize, resume: 1 + (i % 3) as usize, own_ec: false, alter: c.thorough }, ch)
    });
    c.range("three inputs", nk * nk * nk * 6 * if c.thorough { 6 } else { 1 }, |i, ch| {
        let (k, i) = (i % (nk * nk * nk), i / (nk * nk * nk));
        let (f, o) = ((i % 6) as usize, (i / 6) as usize);
        let o = if c.thorough { o } else { (k as usize + f) % 6 };
        if !c.thorough && (k / 7 + f as u64) % 3 != 0 {
            return Ok(());
        }
        let ins = (0..3).map(|j| mk(j, KINDS[(k / nk.pow(j as u32) % nk) as usize], FLAGS[(f + 2 * j + j / 2) % 6])).collect();
        run_case(&Case { ins, outs: o % 4, change: o > 2, entry: (k % 3) as usize, resume: 0, own_ec: false, alter: false }, ch)
    });
    c.tree("many inputs", |ch| {
        let n = *ch.of(if c.thorough { &[4usize, 5, 12, 26, 60, 120, 254, 300][..] } else { &[4, 26, 254][..] });
        let big = n > 60;
        let outs = *ch.of(if big { &[0usize, 255][..] } else if c.thorough { &[0, 1, 11, 12, 26][..] } else { &[0, 11, 27][..] });
        let change = ch.flag();
        let first = if big { 5 } else { ch.pick(KINDS.len()) };
        let step = if big { 1 } else { *ch.of(&[1usize, 0, 7][..if c.thorough { 3 } else { 2 }]) };
        let ins = (0..n).map(|j| mk(j, KINDS[(first + j * step) % KINDS.len()], FLAGS[(j + j / 12 + first) % 6])).collect();
        let resume = if big { ch.pick(2) } else { (first + step + change as usize) % 4 };
        run_case(&Case { ins, outs, change, entry: (first + outs) % 3, resume, own_ec: false, alter: false }, ch)
    });
}
