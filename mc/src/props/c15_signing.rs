//! C15: signing histories.
use super::c01_wire::{hash_n, mk_out};
use super::common::*;
use super::sigs::*;
use crate::engine::*;
use crate::refs::*;
use crate::{ensure, ensure_eq};
use bitcoin_cash::*;

fn inputs(n: usize, variant: usize) -> Vec<Inp> {
    (0..n)
        .map(|i| Inp {
            hash: hash_n(i + 2),
            vout: i as u32 * 3,
            seq: [0xffffffff, 0, 0xfffffffe][i % 3],
            value: [10000, 2_100_000_000_000_001, 0][i % 3],
            lock: [vec![op_code(0x76), op_code(0xab), op_min(&[1, 2, 3])], vec![op_code(0xac)], vec![op_plain(&[7]), op_code(0xab), Op::from_int(5), op_code(0xab), op_code(0x93)]][(i + variant) % 3].clone(),
            flags: [vec![0x41], vec![0xc3], vec![0x42, 0x41, 0x41], vec![], vec![0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3]][(i + variant) % 5].clone(),
            multi: (i + variant) % 5 >= 2,
            p2sh: (i + variant) % 2 == 0,
            placeholder: 20,
        })
        .collect()
}
fn sig(i: usize) -> Vec<u8> {
    vec![i as u8 + 0x40; 10 + i * 5]
}
fn resume(u: UnsignedTx, form: usize, with_build: bool) -> Result<UnsignedTx<'static>, Fail> {
    let p = u.partial_tx();
    let p = match form {
        0 => p,
        1 => {
            let j = tx_to_json(&p).map_err(|e| format!("tx_to_json: {}", e))?;
            let q = json_to_tx(&j).map_err(|e| format!("json_to_tx: {}", e))?;
            ensure!(p == q, "the JSON form of the partial transaction reads back differently: {:?} / {:?}", p, q);
            q
        }
        _ => {
            let j = serde_json::to_string(&p).map_err(|e| e.to_string())?;
            serde_json::from_str(&j).map_err(|e| format!("serde: {}", e))?
        }
    };
    let b = TxBuilder::from_tx(p);
    if with_build { b.build() } else { b.build_without_estimation() }.map_err(|e| format!("rebuilding: {}", e).into())
}

pub fn c15(c: &Ctx) {
    let n = if c.thorough { 4 } else { 3 };
    let depth = if c.thorough { 9 } else { 7 };
    c.bound(format!("histories of up to {} operations over {} inputs: 3 signing entry points per input (also repeated), suspend/resume directly, through annotated JSON or serde, rebuilt with or without estimation; 4 input mixes x with/without change output", depth, n));
    for variant in 0..4 {
        for change in [false, true] {
            if !c.thorough && change && variant == 1 {
                continue;
            }
            histories(c, n, depth, variant, change);
        }
    }
    orders(c);
    many(c);
    foreign(c);
    small(c);
}

/// Signs with whatever operations it is given.
struct AsGiven(bool);
impl Signatory for AsGiven {
    type Script = Raw;
    type Signatures = Vec<Op>;
    type Kind = SignatoryKindOne;
    fn sig_hash_flags(&self) -> SigHashFlags {
        SigHashFlags::DEFAULT
    }
    fn placeholder_signatures(&self) -> Vec<Op> {
        vec![]
    }
    fn build_script(&self, _: &TxPreimage, _: Option<usize>, sigs: Vec<Op>, _: &Script, _: &[TxOutput]) -> Raw {
        Raw(sigs)
    }
    fn is_p2sh(&self) -> bool {
        self.0
    }
}
/// The smallest scripts there are are signatures as well.
fn small(c: &Ctx) {
    let scripts: Vec<Vec<Op>> = vec![
        vec![],
        vec![op_code(0x00)],
        vec![op_min(&[])],
        vec![op_code(0x51)],
        vec![op_code(0x61)],
        vec![op_code(0x6a)],
        vec![op_code(0x4f)],
        vec![op_min(&[0])],
        vec![op_plain(&[0x81])],
        vec![Op::from_int(0)],
        vec![Op::from_int(-1)],
        vec![op_code(0x00), op_code(0x00)],
        vec![op_code(0x00), op_code(0x51), op_code(0x51)],
        vec![op_min(&[0; 20])],
        vec![op_min(&[0; 80]), op_code(0x00)],
    ];
    c.bound(format!("{} scripts of one to three small operations on either of 2 inputs (P2SH with an empty locking script or not), suspended in 4 forms between the two and afterwards", scripts.len()));
    c.tree("small scripts", |ch| {
        let s: Vec<Vec<Op>> = (0..2).map(|_| ch.of(&scripts).clone()).collect();
        let p2sh = ch.flag();
        let form = ch.pick(4);
        let first = ch.pick(2);
        let after = ch.flag();
        // an empty script is signed until the transaction is suspended
        if s.iter().any(|s| s.is_empty()) && !p2sh && (after || s[first].is_empty()) {
            return Ok(());
        }
        ch.note(|| format!("scripts {:?}, p2sh {}, form {}, first {}, also afterwards {}", s, p2sh, form, first, after));
        let mut b = TxBuilder::new(1, 0);
        for i in 0..2 {
            b.add_input(
                UnsignedTxInput { prev_out: TxOutpoint { tx_hash: Sha256d::new(hash_n(i)), vout: 1 }, sequence: 5, value: 1000 },
                TaggedScript::<Raw>::new(if i == 0 { vec![TaggedOp::from_op(op_code(0x51))] } else { vec![] }),
                AsGiven(p2sh),
            );
        }
        b.add_output(mk_out(20, &[op_code(0x6a)]));
        let mut u = b.build().map_err(|e| e.to_string())?;
        for (k, i) in [first, 1 - first].into_iter().enumerate() {
            if k == 0 {
                u.sign_input(InputReference::<AsGiven>::new(i), s[i].clone()).map_err(|e| e.to_string())?;
            } else {
                u.sign_input_signatory(InputReference::new(i), AsGiven(p2sh), s[i].clone()).map_err(|e| e.to_string())?;
            }
            ch.op();
            if k == 0 || after {
                u = resume(u, [1, 0, 2, 0][form], form == 3)?;
            }
            for j in 0..2 {
                let signed = j == first || k == 1;
                if signed {
                    let r = u.sign_input_signatory(InputReference::new(j), AsGiven(p2sh), vec![op_code(0x55)]);
                    ensure!(matches!(r, Err(error::Error::InputAlreadySigned { input_idx }) if input_idx == j), "the signed input {} could be signed again: {:?}", j, r);
                }
            }
        }
        let tx = u.complete_tx();
        let rtx = RTx {
            version: 1,
            ins: (0..2)
                .map(|i| {
                    let lock: &[u8] = if i == 0 { &[0x51] } else { &[] };
                    let mut script = ref_ser_ops(&s[i]);
                    if p2sh {
                        script.extend(push_minimal(lock));
                    }
                    RIn { hash: hash_n(i), vout: 1, script, seq: 5 }
                })
                .collect(),
            outs: vec![ROut { value: 20, script: vec![0x6a] }],
            lock: 0,
        };
        ensure!(tx.ser().as_slice() == &rtx.ser()[..], "final transaction is {}, expected {}", hexs(&tx.ser()), hexs(&rtx.ser()));
        ch.observe(sha256(&rtx.ser()));
        Ok(())
    });
}

/// Many inputs, in a few orders, suspended at several points.
fn many(c: &Ctx) {
    let ns: &[usize] = if c.thorough { &[5, 8, 9, 16, 17, 33, 65, 254, 300] } else { &[5, 9, 17, 33, 66] };
    c.bound(format!("{:?} inputs signed ascending, descending, inside out or in strides, suspended (4 forms) before every k-th input, with repeated attempts on all signed inputs", ns));
    c.tree("many inputs", |ch| {
        let n = *ch.of(ns);
        let order: Vec<usize> = match ch.pick(4) {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            2 => (0..n).map(|i| if i % 2 == 0 { n / 2 - i / 2 } else { n / 2 + (i + 1) / 2 }).map(|i| i % n).collect(),
            _ => (0..n).map(|i| i * 7 % n).collect(),
        };
        let mut order = order;
        for i in 0..n {
            if !order.contains(&i) {
                order.push(i);
            }
        }
        let mut seen = vec![];
        order.retain(|i| !seen.contains(i) && { seen.push(*i); true });
        let form = ch.pick(5);
        let every = *ch.of(&[1usize, 4, n / 2 + 1]);
        if n > 60 && (form == 2 || every == 1) || form == 4 && every > 1 {
            return Ok(());
        }
        ch.note(|| format!("{} inputs, order {:?}.., form {} before every {}", n, &order[..5], form, every));
        let ins = inputs(n, 1);
        let log = new_log();
        let mut b = TxBuilder::new(1, 0);
        for i in &ins {
            i.add(&mut b, &log);
        }
        b.add_output(mk_out(20, &[op_code(0x6a)]));
        b.add_output(mk_out(21, &[op_code(0x51)]));
        let mut u = b.build_without_estimation().map_err(|e| e.to_string())?;
        let mut resumed = false;
        for (k, &i) in order.iter().enumerate() {
            if form < 4 && k % every == every - 1 {
                u = resume(u, [1, 0, 2, 0][form], form == 3 && ins.iter().map(|i| i.value as u128).sum::<u128>() < 1 << 62)?;
                resumed = true;
            }
            ins[i].sign(&mut u, i, if resumed { 2 } else { k % 3 }, vec![i as u8; 10 + i % 7], &log).map_err(|e| e.to_string())?;
            ch.op();
            for &j in &order[k.saturating_sub(6)..=k] {
                ensure!(matches!(ins[j].sign(&mut u, j, (j + k) % 3, vec![1, 2], &log), Err(error::Error::InputAlreadySigned { input_idx }) if input_idx == j), "input {} could be signed twice", j);
            }
        }
        let tx = u.complete_tx();
        let outs = vec![ROut { value: 20, script: vec![0x6a] }, ROut { value: 21, script: vec![0x51] }];
        let rtx = ref_tx(1, &ins, &outs, 0);
        let pre = ref_preimages(&rtx, &ins);
        let ser = [outs[0].ser(), outs[1].ser()].concat();
        let f = RTx { ins: ins.iter().enumerate().map(|(i, n)| n.rin(ref_sig_script(&vec![i as u8; 10 + i % 7], &pre[i], &ser, n.p2sh, &n.lock_bytes()))).collect(), ..rtx };
        ensure!(to_rtx(&tx) == f && tx.ser().as_slice() == &f.ser()[..], "final transaction is {}, expected {}", hexs(&tx.ser()), hexs(&f.ser()));
        ch.observe(sha256(&f.ser()));
        Ok(())
    });
}

fn histories(c: &Ctx, n: usize, depth: usize, variant: usize, change: bool) {
    let ver = [2, -1, i32::MIN, 0][variant];
    let ins = inputs(n, variant);
    let nops = 3 * n + 4;
    let lk = [op_code(0x51), op_min(&[9; 30])];
    c.bfs(&format!("histories {}{}", variant, if change { " change" } else { "" }), depth, |h, ch| {
        let log = new_log();
        let mut b = TxBuilder::new_with_fee(ver, 99, 1000);
        for i in &ins {
            i.add(&mut b, &log);
        }
        b.add_output(mk_out(1500, &lk[..1]));
        if change {
            b.add_leftover_output(Script::from_ops(lk.iter().cloned()));
        }
        let mut u = b.build().map_err(|e| e.to_string())?;
        let outs0: Vec<ROut> = {
            // what the transaction will contain, independent of signing
            let mut o = vec![ROut { value: 1500, script: ref_ser_ops(&lk[..1]) }];
            if change {
                let total: u64 = ins.iter().map(|i| i.value).sum::<u64>() - 1500;
                o.push(ROut { value: total - u.estimated_size() as u64, script: ref_ser_ops(&lk) });
            }
            o
        };
        let rtx = ref_tx(ver, &ins, &outs0, 99);
        let want_pre = ref_preimages(&rtx, &ins);
        let outs_ser: Vec<u8> = outs0.iter().flat_map(|o| o.ser()).collect();
        let want_script: Vec<Vec<u8>> = ins.iter().enumerate().map(|(i, n)| ref_sig_script(&sig(i), &want_pre[i], &outs_ser, n.p2sh, &n.lock_bytes())).collect();
        let mut signed = vec![false; ins.len()];
        let mut resumed = false;
        let mut serde = false;
        let mut d = String::new();
        for op in h {
            let op = *op as usize;
            ch.op();
            if op < 3 * n {
                let (i, e) = (op / 3, op % 3);
                d += &format!("sign {} via {}; ", i, ["sign_input", "sign_input_dyn", "sign_input_signatory"][e]);
                // a repeated signing uses other signatures, so that overwriting would show
                let s = if signed[i] { vec![0x99; 12] } else { sig(i) };
                let r = guarded("signing", || ins[i].sign(&mut u, i, e, s, &log))?;
                if signed[i] {
                    match r {
                        Err(error::Error::InputAlreadySigned { input_idx }) => ensure_eq!(input_idx, i, "index of the already signed input"),
                        r => return Err(format!("signing input {} again returned {:?}", i, r).into()),
                    }
                } else if resumed && e != 2 {
                    ensure!(r.is_err(), "signing the imported input {} without its signatory succeeded", i);
                } else {
                    r.map_err(|e| format!("signing input {} failed: {}", i, e))?;
                    signed[i] = true;
                    // what the signatory was told
                    let want = Call { preimages: want_pre[i].clone(), size: Some(u.estimated_size()), sigs: sig(i), lock: ins[i].lock_bytes(), outs: outs_ser.clone() };
                    let got = log.lock().unwrap().last().cloned();
                    ensure!(got.as_ref() == Some(&want), "the signatory of input {} was given {:?}, expected {:?}", i, got, want);
                }
            } else {
                let k = op - 3 * n;
                d += &format!("resume {}; ", k);
                u = match guarded("suspend/resume", || resume(u, if k == 3 { 0 } else { k }, k == 3))? {
                    Ok(u) => u,
                    Err(e) => return Err(e),
                };
                resumed = true;
                serde |= k == 2;
            }
            ensure!(sers(u.preimages()) == want_pre, "the preimages changed");
        }
        ch.note(|| d.clone());
        let all = signed.iter().all(|s| *s);
        if !all {
            let log = new_log();
            let mut b = TxBuilder::new(ver, 99);
            for i in &ins {
                i.add(&mut b, &log);
            }
            let mut u = b.build_without_estimation().map_err(|e| e.to_string())?;
            for i in 0..ins.len() {
                if signed[i] {
                    ins[i].sign(&mut u, i, i % 3, sig(i), &log).map_err(|e| e.to_string())?;
                }
            }
            ensure!(guarded("complete_tx", || u.complete_tx()).is_err(), "the transaction was completed with inputs unsigned: {:?}", signed);
        }
        let tx = if all { guarded("complete_tx", || u.complete_tx())? } else { u.partial_tx() };
        ensure!(tx.version == ver && tx.lock_time == 99, "header changed");
        ensure!(to_rtx(&tx).outs == outs0, "outputs changed");
        ensure_eq!(tx.inputs.len(), ins.len(), "number of inputs");
        for (i, n) in ins.iter().enumerate() {
            let w = n.rin(if signed[i] { want_script[i].clone() } else { vec![] });
            ensure!(to_rtx(&tx).ins[i] == w, "input {} is {:?}, expected {:?}", i, to_rtx(&tx).ins[i], w);
            let x = &tx.inputs[i];
            ensure!(x.lock_script.as_ref().map(|l| ref_ser_ops(&script_ops(l))) == Some(n.lock_bytes()), "lock script of input {}", i);
            // the serde form keeps scripts as bytes only
            ensure!(serde || x.lock_script.as_ref().map(|l| script_ops(l)) == Some(n.lock.clone()), "operations of the lock script of input {}", i);
            ensure!(x.value == Some(n.value) && x.is_p2sh == Some(n.p2sh) && x.sig_hash_flags == Some(n.sig_flags()), "spend data of input {}: {:?}", i, x);
        }
        if all {
            let f = RTx { ins: ins.iter().zip(&want_script).map(|(n, s)| n.rin(s.clone())).collect(), ..rtx };
            ensure!(tx.ser().as_slice() == &f.ser()[..], "final transaction bytes");
            ch.observe("complete");
        }
        let mut key: Vec<u8> = signed.iter().map(|s| *s as u8).collect();
        key.push(resumed as u8);
        key.push(serde as u8);
        key.extend(sha256(format!("{:?}", to_rtx(&tx)).as_bytes()));
        Ok((key, nops))
    });
}

/// Partial transactions from elsewhere, which lack some of what is recorded about an input: the signatory decides.
fn foreign(c: &Ctx) {
    c.bound("partial transactions without the P2SH marks or locking scripts of some of 1..=3 inputs, exported again unchanged,, read from 3 forms, in 4 input mixes, every order");
    c.tree("foreign partial transactions", |ch| {
        let n = 1 + ch.pick(3);
        let variant = ch.pick(4);
        let ins = inputs(n, variant);
        let ver = [2, -5, 1, i32::MAX][variant];
        let mut tx = UnhashedTx {
            version: ver,
            inputs: ins
                .iter()
                .map(|i| TxInput {
                    prev_out: i.unsigned().prev_out,
                    script: Script::from_ops(vec![]),
                    sequence: i.seq,
                    lock_script: Some(Script::new(i.lock_ops())),
                    value: Some(i.value),
                    is_p2sh: Some(i.p2sh),
                    sig_hash_flags: Some(i.sig_flags()),
                })
                .collect(),
            outputs: vec![mk_out(20, &[op_code(0x6a)])],
            lock_time: 5,
        };
        let mut gone = vec![];
        for (k, i) in tx.inputs.iter_mut().enumerate() {
            if ch.flag() {
                i.is_p2sh = None;
            }
            // nothing needs the locking script here
            if ins[k].flags.is_empty() && !ins[k].p2sh && ch.flag() {
                i.lock_script = if ch.flag() { None } else { Some(Script::new(vec![])) };
            }
            gone.push((i.is_p2sh.is_none(), i.lock_script.as_ref().map_or(0, |l| l.ops().len())));
        }
        let tx = match ch.pick(3) {
            0 => tx,
            1 => json_to_tx(&tx_to_json(&tx).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?,
            _ => serde_json::from_str(&serde_json::to_string(&tx).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?,
        };
        ch.note(|| format!("{} inputs of mix {}, P2SH marks and locking scripts missing: {:?}", n, variant, gone));
        let log = new_log();
        let back = TxBuilder::from_tx(tx.clone()).build_without_estimation().map_err(|e| e.to_string())?.partial_tx();
        ensure!(back == tx, "importing and exporting made {:?} of {:?}", back, tx);
        ensure_eq!(TxBuilder::from_tx(tx.clone()).input_sum(), ins.iter().map(|i| i.value).sum::<u64>(), "input_sum of the imported transaction");
        let mut u = TxBuilder::from_tx(tx).build_without_estimation().map_err(|e| e.to_string())?;
        let mut left: Vec<usize> = (0..n).collect();
        while !left.is_empty() {
            let i = left.remove(ch.pick(left.len()));
            for e in 0..2 {
                ensure!(ins[i].sign(&mut u, i, e, sig(i), &log).is_err(), "signing the imported input {} without its signatory succeeded", i);
            }
            ins[i].sign(&mut u, i, 2, sig(i), &log).map_err(|e| e.to_string())?;
            ch.op();
        }
        let tx = u.complete_tx();
        let outs = vec![ROut { value: 20, script: vec![0x6a] }];
        let rtx = ref_tx(ver, &ins, &outs, 5);
        let pre = ref_preimages(&rtx, &ins);
        let f = RTx { ins: ins.iter().enumerate().map(|(i, n)| n.rin(ref_sig_script(&sig(i), &pre[i], &outs[0].ser(), n.p2sh, &n.lock_bytes()))).collect(), ..rtx };
        ensure!(tx.ser().as_slice() == &f.ser()[..], "final transaction is {}, expected {}", hexs(&tx.ser()), hexs(&f.ser()));
        ch.observe(sha256(&f.ser()));
        Ok(())
    });
}

/// Every complete order x entry point x suspension pattern (state merging off).
fn orders(c: &Ctx) {
    let nmax = if c.thorough { 4 } else { 3 };
    c.bound(format!("complete runs: every order of signing 1..={} inputs, every entry point, suspension (4 forms) before any step, with a repeated attempt after each", nmax));
    c.tree("complete runs", |ch| {
        let n = 1 + ch.pick(nmax);
        let variant = ch.pick(4);
        let ins = inputs(n, variant);
        let (ver, lock) = ([1, -2, 0, i32::MIN][variant], [0, 500_000_000, u32::MAX, 1][variant]);
        let log = new_log();
        let mut b = TxBuilder::new(ver, lock);
        for i in &ins {
            i.add(&mut b, &log);
        }
        b.add_output(mk_out(20, &[op_code(0x6a)]));
        let mut u = b.build_without_estimation().map_err(|e| e.to_string())?;
        let mut left: Vec<usize> = (0..n).collect();
        let mut resumed = false;
        let mut d = String::new();
        while !left.is_empty() {
            if n <= 3 {
                let r = ch.pick(if n == 3 && !c.thorough { 3 } else { 5 });
                if r > 0 {
                    d += &format!("resume {}; ", r - 1);
                    u = resume(u, [1, 0, 2, 0][r - 1], r == 4)?;
                    resumed = true;
                }
            }
            let i = left.remove(ch.pick(left.len()));
            let e = if resumed { 2 } else { ch.pick(3) };
            d += &format!("sign {} via {}; ", i, e);
            ins[i].sign(&mut u, i, e, sig(i), &log).map_err(|e| e.to_string())?;
            ch.op();
            ensure!(matches!(ins[i].sign(&mut u, i, (e + 1) % 3, vec![1, 2], &log), Err(error::Error::InputAlreadySigned { input_idx }) if input_idx == i), "input {} could be signed twice", i);
        }
        ch.note(|| d.clone());
        let tx = u.complete_tx();
        let outs = vec![ROut { value: 20, script: vec![0x6a] }];
        let rtx = ref_tx(ver, &ins, &outs, lock);
        let pre = ref_preimages(&rtx, &ins);
        let f = RTx { ins: ins.iter().enumerate().map(|(i, n)| n.rin(ref_sig_script(&sig(i), &pre[i], &outs[0].ser(), n.p2sh, &n.lock_bytes()))).collect(), ..rtx };
        ensure!(tx.ser().as_slice() == &f.ser()[..], "final transaction is {}, expected {}", hexs(&tx.ser()), hexs(&f.ser()));
        ch.observe(sha256(&f.ser()));
        Ok(())
    });
}
