//! C13: signature-hash preimages.
use super::c01_wire::{hash_n, mk_in, mk_out};
use super::common::*;
use super::sigs::*;
use crate::engine::*;
use crate::refs::*;
use crate::ensure;
use bitcoin_cash::*;

fn locks() -> Vec<Vec<Op>> {
    let sep = || op_code(0xab);
    vec![
        vec![op_code(0x51)],
        vec![op_code(0x76), op_code(0xa9), op_min(&[0xab; 20]), op_code(0x88), op_code(0xac)],
        vec![sep(), op_code(0xac)],
        vec![op_code(0x76), sep(), op_code(0xac), op_min(&[0xab, 1, 2])],
        vec![op_min(&[0xab]), op_code(0xac), sep(), op_plain(&[5]), sep(), op_code(0x52)],
        vec![op_code(0xac), sep()],
        vec![op_min(&[0xab, 0xab]), op_code(0xac)],
        vec![],
        vec![op_min(&seq_bytes(249, 5)), op_code(0x75)],
        vec![op_min(&seq_bytes(248, 5)), op_code(0x75), op_code(0x51)],
        vec![op_min(&seq_bytes(250, 5)), op_code(0x75), sep(), op_min(&seq_bytes(251, 5))],
        vec![op_min(&seq_bytes(65532, 5)), op_code(0x51)],
        vec![op_min(&seq_bytes(65535, 5)), op_code(0x51)],
    ]
}
fn hexd(w: &[u8], g: &[u8]) -> String {
    let i = w.iter().zip(g).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len()));
    format!("differs at byte {} of {}/{}: got ..{}, expected ..{}", i, g.len(), w.len(), hexs(&g[i.min(g.len())..(i + 40).min(g.len())]), hexs(&w[i.min(w.len())..(i + 40).min(w.len())]))
}
/// All 256 flags for all inputs of a transaction with known values and locking scripts.
fn check_tx(version: i32, lock_time: u32, ins: &[(TxInput, Vec<Op>, u64)], outs: Vec<TxOutput>, flags: &[u32], ch: &mut Chooser) -> Res {
    let tx = UnhashedTx {
        version,
        inputs: ins
            .iter()
            .map(|(i, l, v)| {
                let mut i = i.clone();
                i.lock_script = Some(Script::from_ops(l.iter().cloned()));
                i.value = Some(*v);
                i
            })
            .collect(),
        outputs: outs,
        lock_time,
    };
    let r = to_rtx(&tx);
    let fl: Vec<SigHashFlags> = flags.iter().map(|f| SigHashFlags::from_u8(*f as u8)).collect();
    let got = guarded("preimages", || tx.preimages(&fl))?;
    ch.op();
    ensure!(got.len() == ins.len(), "{} preimage lists for {} inputs", got.len(), ins.len());
    for (i, g) in got.iter().enumerate() {
        ensure!(g.len() == flags.len(), "{} preimages for {} flags", g.len(), flags.len());
        let code = ref_script_code(&ins[i].1);
        for (k, p) in g.iter().enumerate() {
            let want = r.preimage(i, &code, ins[i].2, flags[k]);
            let ser = p.ser();
            ch.op();
            ensure!(ser.as_slice() == &want[..], "preimage of input {} with flags {:02x} {}", i, flags[k], hexd(&want, &ser));
            ch.observe((i, flags[k], sha256(&want)));
        }
    }
    if ins.len() + tx.outputs.len() < 20 {
        let h = tx.clone().hashed();
        let again = h.preimages(&fl);
        ensure!(sers(&again) == sers(&got), "preimages of the hashed transaction differ");
    }
    Ok(())
}

pub fn c13(c: &Ctx) {
    let all: Vec<u32> = (0..256).collect();
    let lk = locks();
    let ins: Vec<(TxInput, Vec<Op>, u64)> = vec![
        (mk_in(hash_n(2), 0, &[], 0xffffffff), lk[1].clone(), 5000),
        (mk_in(hash_n(3), 7, &[op_code(0x51)], 0), lk[4].clone(), 0x0102030405060708),
        (mk_in(hash_n(0), 0xffffffff, &[], 0x01020304), lk[0].clone(), 0),
    ];
    let outs = vec![mk_out(546, &lk[1]), mk_out(0, &[op_code(0x6a), op_plain(&[])]), mk_out(u64::MAX, &[])];
    let mi = if c.thorough { 3 } else { 3 };
    c.bound(format!("shapes: 1..={} inputs from 3, 0..=3 outputs from 3 (every sequence, also repeated), all inputs, all 256 flags", mi));
    c.tree("shapes", |ch| {
        let n = 1 + ch.pick(mi);
        let i: Vec<_> = (0..n).map(|_| ch.of(&ins).clone()).collect();
        let m = ch.pick(4);
        let o: Vec<_> = (0..m).map(|_| ch.of(&outs).clone()).collect();
        ch.note(|| format!("{:?} outputs {:?}", i.iter().map(|x| (x.0.prev_out.vout, x.2)).collect::<Vec<_>>(), o.iter().map(|o| o.value).collect::<Vec<_>>()));
        check_tx(2, 0x11223344, &i, o, &all, ch)
    });
    let some: Vec<u32> = vec![0x41, 0xc1, 0x42, 0x43, 0xc2, 0xc3, 0x01, 0x00, 0xff, 0x60];
    c.bound("fields: 6 versions x 8 lock times x 8 sequences x 8 output indices x 9 values, 10 flag bytes (thorough: 6 hashes)");
    c.tree("fields", |ch| {
        let v = *ch.of(&I32S);
        let lt = *ch.of(&U32S);
        let seq = *ch.of(&U32S);
        let vo = *ch.of(&U32S);
        let val = *ch.of(&U64S);
        let h = hash_n(if c.thorough { ch.pick(6) } else { 3 });
        ch.note(|| format!("version {} lock {} seq {} vout {} value {}", v, lt, seq, vo, val));
        let i = vec![(mk_in(h, vo, &[], seq), lk[0].clone(), val), (mk_in(hash_n(2), 3, &[], !seq), lk[0].clone(), 1)];
        check_tx(v, lt, &i, vec![mk_out(val, &lk[0])], &some, ch)
    });
    c.bound("script codes: every pair of 13 locking scripts (no, first, several, last separators; separator bytes in data; lengths around 252/253/65535), all 256 flags");
    c.tree("script codes", |ch| {
        let a = ch.of(&lk).clone();
        let b = ch.of(&lk).clone();
        if a.len() + b.len() == 0 {
            ch.observe(0);
        }
        let i = vec![(mk_in(hash_n(2), 0, &[], 9), a, 77), (mk_in(hash_n(3), 1, &[], 8), b, 78)];
        ch.note(|| format!("locks {} {}", hexs(&ref_ser_ops(&i[0].1)), hexs(&ref_ser_ops(&i[1].1))));
        let big = i.iter().any(|x| ref_ser_ops(&x.1).len() > 5000);
        check_tx(1, 0, &i, vec![mk_out(5, &[])], if big { &some } else { &all }, ch)
    });
    // every separator position among 4 (5) operations
    let alpha = [op_code(0xab), op_code(0xac), op_min(&[0xab]), op_code(0x63), op_plain(&[0xab; 80])];
    let depth = if c.thorough { 6 } else { 4 };
    c.bound(format!("separator positions: all locking scripts of up to {} operations over {{separator, CHECKSIG, IF, separator byte in data (2)}}", depth));
    c.tree("separator positions", |ch| {
        let n = ch.pick(depth + 1);
        let l: Vec<Op> = (0..n).map(|_| ch.of(&alpha).clone()).collect();
        ch.note(|| hexs(&ref_ser_ops(&l)));
        check_tx(1, 0, &[(mk_in(hash_n(2), 0, &[], 9), l, 77)], vec![mk_out(5, &[])], &[0x41, 0xc3], ch)
    });
    let counts: &[usize] = if c.thorough { &[1, 2, 3, 8, 16, 252, 253, 254, 300, 512] } else { &[1, 8, 252, 253, 300] };
    c.bound(format!("counts: inputs x outputs in {:?}, first/middle/last and past-the-outputs inputs", counts));
    c.tree("counts", |ch| {
        let a = *ch.of(counts);
        let b = *ch.of(counts) - ch.pick(2).min(1);
        ch.note(|| format!("{} inputs {} outputs", a, b));
        let i: Vec<_> = (0..a).map(|i| (mk_in(hash_n(i % 9), i as u32, &[], !(i as u32)), vec![op_code(0x51)], i as u64)).collect();
        check_tx(1, 3, &i, (0..b).map(|i| mk_out(i as u64, &[op_code(0x52)])).collect(), &[0x41, 0x43, 0xc2, 0xc3], ch)
    });
    // output scripts in SINGLE / ALL hashing
    c.tree("output scripts", |ch| {
        let a = ch.of(&lk).clone();
        let b = ch.of(&lk).clone();
        let n = 1 + ch.pick(3);
        let i: Vec<_> = (0..n).map(|k| (mk_in(hash_n(k + 2), k as u32, &[], 5), lk[0].clone(), 6)).collect();
        ch.note(|| format!("output scripts {} {}", hexs(&ref_ser_ops(&a)), hexs(&ref_ser_ops(&b))));
        check_tx(1, 0, &i, vec![mk_out(1, &a), mk_out(2, &b)], &some, ch)
    });
    builder(c);
}

fn builder(c: &Ctx) {
    let lk = locks();
    let fl1: Vec<Vec<u32>> = vec![vec![0x41], vec![0xc1], vec![0x43], vec![0x42], vec![0xc3]];
    let flm: Vec<Vec<u32>> = vec![vec![0x41, 0xc3], vec![], vec![0x43, 0x41, 0x42], vec![0xc2]];
    let nmax = if c.thorough { 3 } else { 2 };
    c.bound(format!("builder: 1..={} inputs over 9 flag sets (a single one also over all 13 locking scripts, 3 values, 3 versions and 2 lock times) (one or several per input) x p2sh or not x build / build_without_estimation / re-imported; 0..=2 known outputs and an optional change output", nmax));
    c.tree("builder", |ch| {
        let n = 1 + ch.pick(nmax);
        // a single input: every locking script, extreme values, versions and lock times
        let (only, value0, version, lock_time) = if n == 1 {
            (Some(ch.pick(lk.len())), *ch.of(&[1_000_000, 2_100_000_000_000_000, 1 << 62]), *ch.of(&[2, -1, i32::MIN + 1]), *ch.of(&[77, u32::MAX]))
        } else {
            (None, 10000, 2, 77)
        };
        let ins: Vec<Inp> = (0..n)
            .map(|i| {
                let f = ch.pick(fl1.len() + flm.len());
                let multi = f >= fl1.len();
                Inp {
                    hash: hash_n(i + 2),
                    vout: i as u32 * 5,
                    seq: 0xfffffff0 + i as u32,
                    value: value0 + i as u64 * 0x1_0000_0001,
                    lock: lk[only.unwrap_or([4, 3, 10][i])].clone(),
                    flags: if multi { flm[f - fl1.len()].clone() } else { fl1[f].clone() },
                    multi,
                    p2sh: ch.flag(),
                    placeholder: 5,
                }
            })
            .collect();
        let nout = ch.pick(3);
        let how = ch.pick(3);
        let change = how == 1;
        ch.note(|| format!("{:?} outputs {} how {}", ins.iter().map(|i| (&i.flags, i.multi, i.p2sh)).collect::<Vec<_>>(), nout, ["build_without_estimation", "build with change", "build"][how]));
        let log = new_log();
        let mut b = TxBuilder::new(version, lock_time);
        for i in &ins {
            i.add(&mut b, &log);
        }
        let known: Vec<TxOutput> = (0..nout).map(|k| mk_out(1000 + k as u64, &lk[k])).collect();
        b.add_outputs(known.iter().cloned());
        if change {
            b.add_leftover_output(Script::from_ops(lk[1].iter().cloned()));
        }
        let mut u = if how == 0 { b.build_without_estimation() } else { b.build() }.map_err(|e| e.to_string())?;
        ch.op();
        let size = u.estimated_size();
        let got = sers(u.preimages());
        let got_i: Vec<_> = ins.iter().enumerate().filter(|(_, n)| !n.flags.is_empty()).map(|(i, n)| (i, n.input_preimages(&u, i))).collect();
        log.lock().unwrap().clear();
        for (i, n) in ins.iter().enumerate() {
            n.sign(&mut u, i, 0, vec![i as u8 + 1, 9, 9], &log).map_err(|e| e.to_string())?;
            ch.op();
        }
        let calls = log.lock().unwrap().clone();
        let tx = u.complete_tx();
        let rtx = to_rtx(&tx);
        ensure!(rtx.outs.len() == nout + change as usize, "{} outputs", rtx.outs.len());
        let want = ref_preimages(&rtx, &ins);
        ensure!(got == want, "UnsignedTx::preimages differ from the specification");
        for (i, g) in got_i {
            ensure!(g == want[i], "input_preimages of input {} differ from the specification", i);
        }
        for (i, n) in ins.iter().enumerate() {
            let w = Call { preimages: want[i].clone(), size: Some(size), sigs: vec![i as u8 + 1, 9, 9], lock: n.lock_bytes(), outs: rtx.outs.iter().flat_map(|o| o.ser()).collect() };
            ensure!(calls[i] == w, "the signatory of input {} was given {:?}, expected {:?}", i, calls[i], w);
        }
        for (i, n) in ins.iter().enumerate() {
            let g = sers(&tx.preimages(&n.sig_flags()));
            ensure!(g[i] == want[i], "preimages of the finished transaction differ for input {}", i);
        }
        // imported again
        let b = TxBuilder::from_tx(tx.clone());
        let u = b.build_without_estimation().map_err(|e| e.to_string())?;
        ensure!(sers(u.preimages()) == want, "preimages of the imported transaction differ");
        ch.observe(sha256(&want.concat().concat()));
        Ok(())
    });
}
