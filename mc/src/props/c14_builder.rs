//! C14: value conservation, fees and change.
use super::c01_wire::{hash_n, mk_out};
use super::common::*;
use super::sigs::*;
use crate::engine::*;
use crate::refs::*;
use crate::{ensure, ensure_eq};
use bitcoin_cash::*;

#[derive(Clone, Debug)]
enum O {
    Known(u64, usize),
    Change { lower: u64, upper: u64, prec: i32, len: usize, simple: bool },
}
fn oscript(len: usize) -> Vec<Op> {
    vec![op_code(0x61); len]
}
struct Built {
    outs: Vec<ROut>,
    size: usize,
    fee_ok: bool,
}
fn tx_size(ins: &[usize], outs: &[usize]) -> usize {
    8 + compact(ins.len() as u64).len()
        + ins.iter().map(|s| 40 + compact(*s as u64).len() + s).sum::<usize>()
        + compact(outs.len() as u64).len()
        + outs.iter().map(|s| 8 + compact(*s as u64).len() + s).sum::<usize>()
}
/// The specification of `build`.
fn model(script_lens: &[usize], total_in: u128, outs: &[O], fee_per_kb: u64) -> Result<Built, u128> {
    let known: u128 = outs.iter().map(|o| if let O::Known(v, _) = o { *v as u128 } else { 0 }).sum();
    if known > total_in {
        return Err(known - total_in);
    }
    let mut rest = total_in - known;
    let mut given: Vec<Option<u128>> = outs.iter().map(|o| if let O::Known(v, _) = o { Some(*v as u128) } else { None }).collect();
    let lens = |given: &[Option<u128>]| -> Vec<usize> {
        outs.iter().zip(given).filter(|(_, g)| g.is_some()).map(|(o, _)| match o { O::Known(_, l) => *l, O::Change { len, .. } => *len }).collect()
    };
    let mut precs: Vec<i32> = outs.iter().filter_map(|o| if let O::Change { prec, .. } = o { Some(*prec) } else { None }).collect();
    precs.sort();
    precs.dedup();
    for p in precs {
        for i in 0..outs.len() {
            if let O::Change { lower, upper, prec, .. } = &outs[i] {
                if *prec != p {
                    continue;
                }
                given[i] = Some(0);
                let size = tx_size(script_lens, &lens(&given));
                let fee = size as u128 * fee_per_kb as u128 / 1000;
                given[i] = None;
                if rest < fee {
                    continue;
                }
                let amount = (rest - fee).min(*upper as u128);
                if amount > *lower as u128 {
                    given[i] = Some(amount);
                    rest -= amount;
                }
            }
        }
    }
    let size = tx_size(script_lens, &lens(&given));
    let fee = size as u128 * fee_per_kb as u128 / 1000;
    Ok(Built {
        outs: outs
            .iter()
            .zip(&given)
            .filter_map(|(o, g)| g.map(|g| ROut { value: g as u64, script: match o { O::Known(_, l) => vec![0x61; *l], O::Change { len, .. } => vec![0x61; *len] } }))
            .collect(),
        size,
        fee_ok: rest >= fee,
    })
}
fn inp(i: usize, value: u64, placeholder: usize, lock_len: usize, p2sh: bool) -> Inp {
    Inp { hash: hash_n(i + 2), vout: i as u32, seq: 0xffffffff, value, lock: vec![op_code(0x61); lock_len], flags: vec![0x41], multi: i % 2 == 1, p2sh, placeholder }
}
/// Builds with the library, compares with the model, signs with `sig_len(i)` signature bytes.
fn check(ins: &[Inp], outs: &[O], fee: u64, sign: bool, ch: &mut Chooser) -> Res {
    let log = new_log();
    // every way of making a builder
    let mut b = match (outs.len() + ins.len()) % 3 {
        0 => TxBuilder::new_with_fee(1, 5, fee),
        1 => TxBuilder::new(1, 5),
        _ => TxBuilder::new_with_fee(1, 5, fee ^ 1),
    };
    ensure!(b.lock_time() == 5 && b.version() == 1, "lock time {} and version {}", b.lock_time(), b.version());
    match (outs.len() + ins.len()) % 3 {
        1 if fee == 1000 => {}
        1 | 2 => b.set_fee_per_kb(fee),
        _ => {}
    }
    for i in ins {
        i.add(&mut b, &log);
    }
    for o in outs {
        match o {
            O::Known(v, l) => b.add_output(mk_out(*v, &oscript(*l))),
            O::Change { len, simple: true, .. } => b.add_leftover_output(Script::from_ops(oscript(*len))),
            O::Change { lower, upper, prec, len, .. } => b.add_leftover_output_bounded(*lower, *upper, *prec, Script::from_ops(oscript(*len))),
        }
    }
    let lens: Vec<usize> = ins.iter().map(|i| i.script_len(i.placeholder)).collect();
    let total: u128 = ins.iter().map(|i| i.value as u128).sum();
    ensure_eq!(b.input_sum() as u128, total, "input_sum");
    ensure_eq!(b.known_output_sum() as u128, outs.iter().map(|o| if let O::Known(v, _) = o { *v as u128 } else { 0 }).sum::<u128>(), "known_output_sum");
    ch.op();
    let got = guarded("build", || b.build())?;
    match (got, model(&lens, total, outs, fee)) {
        (Err(error::Error::InsufficientInputAmount { amount }), Err(m)) => {
            ensure_eq!(amount as u128, m, "missing amount reported");
            ch.observe(("missing", m as u64));
            Ok(())
        }
        (Ok(u), Ok(m)) => {
            ensure_eq!(u.estimated_size(), m.size, "estimated size");
            let mut u = u;
            if total % 2 == 1 {
                // taking the builder back and building again changes nothing
                let again = guarded("build again", || u.into_tx_builder().build())?;
                u = again.map_err(|e| format!("building again failed: {}", e))?;
                ensure_eq!(u.estimated_size(), m.size, "estimated size after building again");
            }
            for (i, n) in ins.iter().enumerate() {
                let l = if sign && n.placeholder > 0 { [n.placeholder, n.placeholder - 1, 0, n.placeholder / 2][ch.pick(4)] } else { n.placeholder };
                n.sign(&mut u, i, i % 2, vec![0x80; l], &log).map_err(|e| e.to_string())?;
                ch.op();
            }
            let est = u.estimated_size();
            let tx = u.complete_tx();
            let r = to_rtx(&tx);
            ensure!(r.outs == m.outs, "outputs {:?}, expected {:?}", r.outs.iter().map(|o| (o.value, o.script.len())).collect::<Vec<_>>(), m.outs.iter().map(|o| (o.value, o.script.len())).collect::<Vec<_>>());
            let sum: u128 = r.outs.iter().map(|o| o.value as u128).sum();
            ensure!(sum <= total, "outputs {} exceed inputs {}", sum, total);
            let n_known = outs.iter().filter(|o| matches!(o, O::Known(..))).count();
            if r.outs.len() > n_known {
                ensure!(m.fee_ok && total - sum >= est as u128 * fee as u128 / 1000, "fee {} for {} bytes at {}/kB", total - sum, est, fee);
            }
            let real = r.ser().len();
            ensure!(real <= est, "signed size {} exceeds the estimate {}", real, est);
            ensure!(tx.ser().len() == real, "encoding");
            ch.observe((r.outs.iter().map(|o| o.value).collect::<Vec<_>>(), est, real));
            Ok(())
        }
        (Ok(_), Err(m)) => Err(format!("built although {} are missing", m).into()),
        (Err(e), _) => Err(format!("build failed: {}", e).into()),
    }
}

/// A signatory which puts its preimages and the outputs in its script, as covenants do.
#[derive(Clone)]
struct Whole {
    flags: Vec<SigHashFlags>,
    p2sh: bool,
    outs: bool,
}
impl Signatory for Whole {
    type Script = Raw;
    type Signatures = Vec<u8>;
    type Kind = SignatoryKindMultiple;
    fn sig_hash_flags(&self) -> Vec<SigHashFlags> {
        self.flags.clone()
    }
    fn placeholder_signatures(&self) -> Vec<u8> {
        vec![0; 72]
    }
    fn build_script(&self, p: &[TxPreimage], _: Option<usize>, sigs: Vec<u8>, _: &Script, outs: &[TxOutput]) -> Raw {
        let mut v = vec![op_min(&sigs)];
        v.extend(p.iter().map(|p| op_min(&p.ser())));
        if self.outs {
            v.push(op_min(&outs.iter().flat_map(|o| o.ser().to_vec()).collect::<Vec<u8>>()));
        }
        Raw(v)
    }
    fn is_p2sh(&self) -> bool {
        self.p2sh
    }
}
/// Inputs whose scripts contain their preimages: the estimate is the size of what comes out.
fn covenants(c: &Ctx) {
    let lens: &[(usize, usize)] = &[(0, 0), (0, 1), (0, 99), (0, 100), (3, 72), (0, 252), (0, 253), (40, 300), (1, 65_379), (0, 65_535)];
    c.bound("scripts of preimages: 1..=2 inputs with 0..=3 hash types over 10 lock scripts (script codes at all push and compact-size boundaries, with and without separator), p2sh or not, with the outputs or not, 1..=3 outputs of which up to 2 change, 4 fee rates");
    c.tree("scripts of preimages", |ch| {
        let n = 1 + ch.pick(2);
        let fee = *ch.of(&[0u64, 1, 1000, 3333]);
        let n_change = ch.pick(3);
        let mut b = TxBuilder::new_with_fee(2, 9, fee);
        let mut refs = vec![];
        let mut sizes = vec![];
        let mut out_lens = vec![25usize];
        out_lens.extend(&[23, 40][..n_change]);
        let out_size: usize = out_lens.iter().map(|l| 8 + compact(*l as u64).len() + l).sum();
        for i in 0..n {
            let (sep, len) = if i == 0 { *ch.of(lens) } else { (0, 25) };
            let mut lock = if len < 1000 { vec![op_code(0x61); len] } else { vec![op_min(&vec![0x61; len - 3])] };
            if sep > 0 {
                lock.insert(sep - 1, op_code(0xab));
            }
            let code = if sep > 0 { len + 1 - sep } else { len };
            let nf = if i == 0 { ch.pick(4) } else { 2 };
            let flags: Vec<u32> = [0x41u32, 0xc3, 0x42][..nf].to_vec();
            let s = Whole { flags: flags.iter().map(|f| SigHashFlags::from_u8(*f as u8)).collect(), p2sh: ch.flag(), outs: ch.flag() };
            let pre = 4 + 32 + 32 + 36 + compact(code as u64).len() + code + 8 + 4 + 32 + 4 + 4;
            let p = |n: usize| push_minimal(&vec![0x61u8; n]).len();
            sizes.push(p(72) + nf * p(pre) + if s.outs { p(out_size) } else { 0 } + if s.p2sh { p(len + (sep > 0) as usize) } else { 0 });
            refs.push(b.add_input(
                UnsignedTxInput { prev_out: TxOutpoint { tx_hash: Sha256d::new(hash_n(i)), vout: 1 }, sequence: 5, value: 1_000_000 },
                TaggedScript::<Raw>::new(lock.into_iter().map(TaggedOp::from_op).collect()),
                s,
            ));
        }
        b.add_output(mk_out(100, &oscript(25)));
        if n_change > 0 {
            b.add_leftover_output_bounded(0, if n_change > 1 { 100_000 } else { u64::MAX }, 0, Script::from_ops(oscript(23)));
        }
        if n_change > 1 {
            b.add_leftover_output_bounded(0, u64::MAX, 1, Script::from_ops(oscript(40)));
        }
        let want = tx_size(&sizes, &out_lens);
        let mut u = guarded("build", || b.build())?.map_err(|e| e.to_string())?;
        ensure_eq!(u.estimated_size(), want, "estimated size");
        for r in refs {
            u.sign_input(r, vec![5u8; 72]).map_err(|e| e.to_string())?;
            ch.op();
        }
        let r = to_rtx(&u.complete_tx());
        ensure_eq!(r.ser().len(), want, "size when signed with signatures as long as the placeholders");
        ensure_eq!(r.outs.len(), 1 + n_change, "outputs");
        if n_change > 0 {
            let paid = 1_000_000 * n as u64 - r.outs.iter().map(|o| o.value).sum::<u64>();
            ensure_eq!(paid, want as u64 * fee / 1000, "fee for {} bytes", want);
        }
        ch.observe((n, want));
        Ok(())
    });
}

/// A transaction some of whose inputs are signed already is continued with more inputs and outputs.
fn imported(c: &Ctx) {
    c.bound("imported transactions: 0..=2 signed inputs (scripts of 1, 107 or 253 bytes, with or without their amounts) and 0..=2 outputs, continued with 0..=2 inputs, an output and 0..=2 change outputs, at the default or another fee rate; built with estimation, or without if there is no change");
    let marks: &[u64] = &[0, 1, 99, 100, 546, 547, 1000, 5000];
    c.tree("imported transactions", |ch| {
        let n_old = ch.pick(3);
        let mut lens = vec![];
        let mut total = 0u128;
        let mut old = vec![];
        for i in 0..n_old {
            let len = *ch.of(&[1usize, 107, 253]);
            let mut script = vec![op_code(0x61); len];
            if len > 200 {
                script = vec![op_min(&vec![7; len - 2])];
            }
            let value = if ch.flag() { Some(2000 + i as u64) } else { None };
            total += value.unwrap_or(0) as u128;
            lens.push(len);
            old.push(TxInput {
                prev_out: TxOutpoint { tx_hash: Sha256d::new(hash_n(i)), vout: 5 },
                script: Script::from_ops(script),
                sequence: 3 + i as u32,
                lock_script: None,
                value,
                is_p2sh: None,
                sig_hash_flags: None,
            });
        }
        let n_out = ch.pick(3);
        let n_new = ch.pick(3);
        let n_change = ch.pick(3);
        let mut outs: Vec<O> = (0..n_out).map(|i| O::Known(600 * i as u64, 20 + i)).collect();
        let tx = UnhashedTx { version: 7, inputs: old.clone(), outputs: (0..n_out).map(|i| mk_out(600 * i as u64, &oscript(20 + i))).collect(), lock_time: 11 };
        let mut b = TxBuilder::from_tx(tx);
        let log = new_log();
        let news: Vec<Inp> = (0..n_new).map(|i| inp(i + 3, if i == 0 { *ch.of(marks) } else { 900 }, 72, 25, i == 1)).collect();
        for n in &news {
            n.add(&mut b, &log);
            lens.push(n.script_len(72));
            total += n.value as u128;
        }
        let fee = if ch.flag() {
            b.set_fee_per_kb(777);
            777
        } else {
            1000
        };
        outs.push(O::Known(100, 1));
        b.add_output(mk_out(100, &oscript(1)));
        if n_change > 0 {
            outs.push(O::Change { lower: 546, upper: u64::MAX, prec: 0, len: 25, simple: true });
            b.add_leftover_output(Script::from_ops(oscript(25)));
        }
        if n_change > 1 {
            outs.push(O::Change { lower: 10, upper: 300, prec: -1, len: 9, simple: false });
            b.add_leftover_output_bounded(10, 300, -1, Script::from_ops(oscript(9)));
        }
        ensure_eq!(b.input_sum() as u128, total, "input_sum");
        let m = model(&lens, total, &outs, fee);
        let estimated = n_change > 0 || ch.flag();
        ch.op();
        let m = match m {
            Err(missing) if estimated => {
                let r = guarded("build", || b.build())?;
                ensure!(matches!(r, Err(error::Error::InsufficientInputAmount { amount }) if amount as u128 == missing), "{} are missing", missing);
                return Ok(());
            }
            Err(_) => return Ok(()),
            Ok(m) => m,
        };
        let mut u = guarded("build", || if estimated { b.build() } else { b.build_without_estimation() })?.map_err(|e| e.to_string())?;
        ensure_eq!(u.estimated_size(), m.size, "estimated size");
        for i in 0..n_old {
            ensure!(u.sign_input_dyn(i, Box::new(vec![1u8; 3])).is_err(), "the imported signed input {} could be signed", i);
        }
        for (i, n) in news.iter().enumerate() {
            n.sign(&mut u, n_old + i, i % 2, vec![0x80; 72], &log).map_err(|e| e.to_string())?;
        }
        let tx = u.complete_tx();
        ensure!(tx.inputs[..n_old] == old[..], "imported inputs became {:?}", &tx.inputs[..n_old]);
        let r = to_rtx(&tx);
        ensure!(r.outs == m.outs, "outputs {:?}, expected {:?}", r.outs, m.outs);
        ensure!(r.ser().len() == m.size && tx.version == 7 && tx.lock_time == 11, "size {} for {}, or header", r.ser().len(), m.size);
        ch.observe(sha256(&r.ser()));
        Ok(())
    });
}

pub fn c14(c: &Ctx) {
    covenants(c);
    const MAX: u64 = 2_100_000_000_000_000;
    // input amounts at every threshold the specification has, for up to 3 change outputs
    let lowers = [0u64, 546, 2000];
    let uppers = [u64::MAX, 700, 0];
    let fees: &[u64] = if c.thorough { &[0, 1, 500, 999, 1000, 1001, 100_000, 1_000_000_000] } else { &[0, 1, 1000, 1001, 100_000] };
    let nmax = if c.thorough { 3 } else { 2 };
    c.bound(format!("thresholds: 1 input, 0..=1 known output anywhere, 1..={} change outputs over 3 lower bounds x 3 upper bounds x precedences -1/0/1, fee rates {:?}, input amount -1/0/+1 around every threshold", nmax, fees));
    c.tree("thresholds", |ch| {
        let n = 1 + ch.pick(nmax);
        let mut outs: Vec<O> = (0..n)
            .map(|i| {
                let lower = *ch.of(&lowers);
                let upper = *ch.of(&uppers);
                let prec = if n > 1 { ch.pick(3) as i32 - 1 } else { 0 };
                O::Change { lower, upper, prec, len: [25, 23, 300][i], simple: false }
            })
            .collect();
        let known = if ch.flag() { 3000 } else { 0 };
        if known > 0 {
            let at = ch.pick(n + 1);
            outs.insert(at, O::Known(known, 25));
        }
        let fee = *ch.of(fees);
        let i0 = inp(0, 0, 72, 25, false);
        let len = i0.script_len(72);
        // thresholds: fee for every set of present outputs, plus sums of bounds
        let olens: Vec<usize> = outs.iter().filter_map(|o| if let O::Change { len, .. } = o { Some(*len) } else { None }).collect();
        let mut marks: Vec<u64> = vec![0];
        for set in 0..1 << n {
            let mut o: Vec<usize> = (0..n).filter(|k| set >> k & 1 == 1).map(|k| olens[k]).collect();
            if known > 0 {
                o.push(25);
            }
            let f = tx_size(&[len], &o) as u64 * fee / 1000;
            let mut bounds = vec![0];
            for o in &outs {
                if let O::Change { lower, upper, .. } = o {
                    bounds.push(*lower);
                    if *upper < 10000 {
                        bounds.push(*upper);
                        bounds.push(*upper + *lower);
                    }
                }
            }
            for b in bounds {
                marks.push(f + b);
                if c.thorough {
                    marks.push(f + b + 700);
                }
            }
            marks.push(f + 50_000);
        }
        marks.sort();
        marks.dedup();
        let m = *ch.of(&marks) + known;
        let v = match ch.pick(3) {
            0 => m.saturating_sub(1),
            1 => m,
            _ => m + 1,
        };
        let ins = vec![Inp { value: v, ..i0 }];
        ch.note(|| format!("input {} outputs {:?} fee {}", v, outs, fee));
        check(&ins, &outs, fee, false, ch)
    });
    let top = if c.thorough { 3000 } else { 1600 };
    c.bound(format!("dense: every input amount 0..{} against 8 output sets at 4 fee rates", top));
    let ch_ = |lower, upper, prec, len| O::Change { lower, upper, prec, len, simple: false };
    let sets: Vec<Vec<O>> = vec![
        vec![O::Change { lower: 546, upper: u64::MAX, prec: 0, len: 25, simple: true }],
        vec![O::Known(546, 25), O::Change { lower: 546, upper: u64::MAX, prec: 0, len: 25, simple: true }],
        vec![ch_(0, 300, 1, 25), O::Known(100, 5), ch_(10, u64::MAX, 0, 23)],
        vec![ch_(0, 300, 0, 25), ch_(10, u64::MAX, 0, 23), O::Known(0, 0)],
        vec![O::Known(700, 25)],
        vec![ch_(0, 100, i32::MAX, 1), ch_(0, 200, i32::MIN, 2), ch_(99, 300, 0, 3), ch_(1, 1000, 0, 4)],
        vec![],
        vec![ch_(500, 500, 0, 25), ch_(500, 501, 0, 25), ch_(546, 545, 0, 25)],
    ];
    c.range("dense", top * sets.len() as u64 * 4, |i, ch| {
        let v = i % top;
        let s = &sets[(i / top) as usize % sets.len()];
        let fee = [0, 1000, 1234, 5000][(i / top) as usize / sets.len()];
        ch.note(|| format!("input {} outputs {:?} fee {}", v, s, fee));
        check(&[inp(0, v, 20, 5, true)], s, fee, false, ch)
    });
    c.bound("permutations: 4 change outputs, every assignment of precedences -2..=1, several budgets");
    c.tree("precedence", |ch| {
        let n = if c.thorough { 4 } else { 3 };
        let outs: Vec<O> = (0..n).map(|i| ch_(100, 1000 + i as u64, ch.pick(4) as i32 - 2, 20 + i)).collect();
        let v = [0u64, 400, 1200, 1399, 2300, 3300, 4200, 9000][ch.pick(8)];
        ch.note(|| format!("input {} outputs {:?}", v, outs));
        check(&[inp(0, v, 20, 5, true)], &outs, 1000, false, ch)
    });
    c.bound("change outputs with and without bounds: 3 change outputs, the unbounded one (which stands at precedence 0) at any place, the others at precedences -1/0/1, a known output at any place, several budgets");
    c.tree("unbounded change", |ch| {
        let at = ch.pick(3);
        let mut outs: Vec<O> = (0..3)
            .map(|i| if i == at { O::Change { lower: 546, upper: u64::MAX, prec: 0, len: 25, simple: true } } else { ch_(100, 1000 + i as u64, ch.pick(3) as i32 - 1, 20 + i) })
            .collect();
        let k = ch.pick(5);
        if k < 4 {
            outs.insert(k, O::Known(50, 7));
        }
        let v = [400u64, 1200, 1399, 2300, 3300, 9000][ch.pick(6)];
        ch.note(|| format!("input {} outputs {:?}", v, outs));
        check(&[inp(0, v, 20, 5, true)], &outs, 1000, false, ch)
    });
    imported(c);
    let many: &[usize] = if c.thorough { &[5, 16, 20, 21, 22, 25, 32, 33, 40, 50, 64, 100] } else { &[8, 20, 21, 25, 33, 50] };
    c.bound(format!("{:?} change outputs: precedences all equal, alternating, descending, in three or seven classes (mixed up), extremes of i32; budgets for none, a few, half, all but one and all of them", many));
    c.tree("many change outputs", |ch| {
        let n = *ch.of(many);
        let kind = ch.pick(6);
        let outs: Vec<O> = (0..n)
            .map(|i| {
                let prec = match kind {
                    0 => 0,
                    1 => (i % 2) as i32,
                    2 => (n - i) as i32,
                    3 => (i * 5 % 3) as i32 - 1,
                    4 => (i * 11 % 7) as i32,
                    _ => [i32::MAX, i32::MIN, 0][i * 2 % 3],
                };
                ch_(100, 1000 + i as u64, prec, 1 + i % 9)
            })
            .collect();
        let k = [0, 2, 5, n / 2, n - 1, n][ch.pick(6)] as u64;
        let known = ch.flag();
        let mut outs = outs;
        if known {
            outs.insert(n / 2, O::Known(77, 3));
            outs.insert(0, O::Known(0, 1));
            outs.push(O::Known(1, 0));
        }
        let v = 1030 * k + 120 + 78 * known as u64 + [0, 500, 1000][ch.pick(3)];
        ch.note(|| format!("input {} outputs {:?}", v, outs));
        check(&[inp(0, v, 20, 5, true)], &outs, 300, false, ch)
    });
    c.bound("signing: 1..=3 inputs over 10 placeholder/lock-script/p2sh kinds crossing every push and compact-size boundary, signatures of 0, half, one less and all placeholder bytes");
    let kinds = [(0usize, 1usize, true), (20, 0, true), (0, 0, false), (72, 25, false), (75, 255, true), (76, 76, true), (73, 110, true), (181, 3, true), (255, 256, true), (1, 75, true)];
    let ns = if c.thorough { 3 } else { 2 };
    c.tree("signing", |ch| {
        let n = 1 + ch.pick(ns);
        let ins: Vec<Inp> = (0..n)
            .map(|i| {
                let (p, l, s) = *ch.of(&kinds);
                inp(i, 5000, p, l, s)
            })
            .collect();
        let outs = [O::Known(1000, 25), ch_(546, u64::MAX, 0, 25)];
        ch.note(|| format!("{:?}", ins.iter().map(|i| (i.placeholder, i.lock.len(), i.p2sh)).collect::<Vec<_>>()));
        check(&ins, &outs, 1000, true, ch)
    });
    let counts: &[usize] = if c.thorough { &[1, 2, 251, 252, 253, 254] } else { &[1, 252, 253] };
    c.bound(format!("counts: {:?} inputs x (0, 250..=254) known outputs, with change", counts));
    c.tree("counts", |ch| {
        let n = *ch.of(counts);
        let k = *ch.of(&[0usize, 250, 251, 252, 253, 254]);
        let two = ch.flag();
        let d = ch.pick(3) as u64;
        let ins: Vec<Inp> = (0..n).map(|i| inp(i % 20, 1000, 10, 3, false)).collect();
        let mut outs: Vec<O> = (0..k).map(|_| O::Known(1, 1)).collect();
        outs.insert(k / 2, ch_(0, if two { 600 } else { u64::MAX }, 0, 2));
        if two {
            outs.push(ch_(0, u64::MAX, 5, 2));
        }
        let lens: Vec<usize> = ins.iter().map(|i| i.script_len(i.placeholder)).collect();
        let f = tx_size(&lens, &vec![1; k + 1]) as u64 * 1000 / 1000 + k as u64;
        let mut ins = ins;
        let others: u64 = 1000 * (n as u64 - 1);
        ins[0].value = (f + d).saturating_sub(others) + 1000 * two as u64;
        ch.note(|| format!("{} inputs, {} known outputs, first value {}", n, k, ins[0].value));
        check(&ins, &outs, 1000, false, ch)
    });
    c.bound("large amounts up to the money supply with fee rates up to 10^9");
    c.tree("large amounts", |ch| {
        let a = *ch.of(&[0, 1, MAX / 2, MAX - 1]);
        let b = *ch.of(&[0, 1, MAX / 2]);
        let k = *ch.of(&[0, 1, MAX / 2, MAX / 2 + 1, MAX - 1, MAX]);
        let fee = *ch.of(&[0, 1, 1000, 1_000_000_000u64]);
        let up = *ch.of(&[u64::MAX, MAX, MAX / 2]);
        let lo = *ch.of(&[0, 546, MAX / 2, u64::MAX]);
        let ins = [inp(0, a, 72, 25, false), inp(1, b, 72, 25, true)];
        ch.note(|| format!("inputs {} {} known {} fee {} bounds {}..{}", a, b, k, fee, lo, up));
        check(&ins, &[O::Known(k, 25), ch_(lo, up, 0, 25), ch_(0, u64::MAX, 0, 3)], fee, false, ch)
    });
    c.bound("build_without_estimation: 0..=2 known outputs with or without a change output, also when outputs exceed inputs");
    c.tree("without estimation", |ch| {
        let n = ch.pick(3);
        let change = ch.flag();
        let ins = [inp(0, *ch.of(&[0, 10, 1000]), 72, 25, ch.flag())];
        let log = new_log();
        let mut b = TxBuilder::new_simple();
        ins[0].add(&mut b, &log);
        let at = if change { ch.pick(n + 1) } else { 9 };
        for i in 0..=n {
            if i == at {
                match ch.pick(7) {
                    0 => b.add_leftover_output(Script::from_ops(oscript(3))),
                    k => {
                        let (lower, upper, precedence) = [(0, 0, 0), (0, u64::MAX, 1), (1, 1, -1), (1000, 2000, i32::MAX), (u64::MAX, 0, i32::MIN), (u64::MAX, u64::MAX, 0)][k - 1];
                        b.add_leftover_output_bounded(lower, upper, precedence, Script::from_ops(oscript(k - 1)))
                    }
                }
            }
            if i < n {
                b.add_output(mk_out(7 * i as u64, &oscript(i)));
            }
        }
        b.set_fee_per_kb(77);
        let r = guarded("build_without_estimation", || b.build_without_estimation())?;
        ch.op();
        if change {
            ensure!(r.is_err(), "a change output was accepted");
            return Ok(());
        }
        let mut u = r.map_err(|e| e.to_string())?;
        let want = tx_size(&[ins[0].script_len(72)], &(0..n).collect::<Vec<_>>());
        ensure_eq!(u.estimated_size(), want, "estimated size");
        ins[0].sign(&mut u, 0, 0, vec![1; 72], &log).map_err(|e| e.to_string())?;
        let tx = to_rtx(&u.complete_tx());
        ensure!(tx.outs == (0..n).map(|i| ROut { value: 7 * i as u64, script: vec![0x61; i] }).collect::<Vec<_>>(), "outputs {:?}", tx.outs);
        ensure!(tx.ser().len() == want && tx.version == 1 && tx.lock == 0, "size or header");
        ch.observe((n, want));
        Ok(())
    });
    // P2PKH with the library's own signatory
    c.bound("P2PKH: every signature length 0..=72 for 1..=2 inputs");
    c.tree("p2pkh", |ch| {
        let n = 1 + ch.pick(2);
        let pk = Pubkey::new({ let mut k = [3u8; 33]; k[0] = 2; k });
        let addr = Address::from_pk("bitcoincash", &pk);
        let mut b = TxBuilder::new_simple();
        let mut refs = vec![];
        for i in 0..n {
            let s = P2PKHSignatory { pubkey: pk.clone(), sig_hash_flags: SigHashFlags::DEFAULT };
            refs.push(b.add_input(UnsignedTxInput { prev_out: TxOutpoint { tx_hash: Sha256d::new(hash_n(i)), vout: 1 }, sequence: 5, value: 10_000 }, addr.p2pkh_script().unwrap(), s));
        }
        b.add_output(mk_out(100, &[op_code(0x51)]));
        b.add_leftover_output((&addr).into());
        let mut u = b.build().map_err(|e| e.to_string())?;
        let lens = vec![1 + 73 + 1 + 33; n];
        let want = tx_size(&lens, &[1, 25]);
        ensure_eq!(u.estimated_size(), want, "estimated size");
        for (i, r) in refs.into_iter().enumerate() {
            let l = if i == 0 { ch.pick(73) } else { 72 };
            u.sign_input(r, ba(vec![0x30u8; l])).map_err(|e| e.to_string())?;
        }
        let tx = u.complete_tx();
        let r = to_rtx(&tx);
        ensure!(r.ser().len() <= want, "signed size {} exceeds the estimate {}", r.ser().len(), want);
        let fee = 10_000 * n as u64 - r.outs.iter().map(|o| o.value).sum::<u64>();
        ensure_eq!(fee, want as u64, "fee");
        ch.observe(r.ser().len());
        Ok(())
    });
}
