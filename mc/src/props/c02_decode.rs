//! C02: decoding untrusted bytes.
use super::c01_wire::{hash_n, mk_in, mk_out, scripts};
use super::common::*;
use crate::ensure;
use crate::engine::*;
use crate::refs::*;
use bitcoin_cash::*;
use std::fmt::Write;

/// Reference parser state: bytes left, plus whether some length was written non-canonically (then
/// the decoder may also refuse).
struct P<'a> {
    b: &'a [u8],
    odd: bool,
}
impl<'a> P<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.b.len() < n {
            return None;
        }
        let (a, r) = self.b.split_at(n);
        self.b = r;
        Some(a)
    }
    fn size(&mut self) -> Option<u64> {
        let (v, n) = read_compact(self.b)?;
        if !is_canonical_compact(self.b) {
            self.odd = true;
        }
        self.b = &self.b[n..];
        Some(v)
    }
    fn bytes(&mut self) -> Option<&'a [u8]> {
        let n = self.size()?;
        if n > self.b.len() as u64 {
            return None;
        }
        self.take(n as usize)
    }
    fn script(&mut self) -> Option<String> {
        let b = self.bytes()?;
        ref_script(b)
    }
    fn list(&mut self, f: &mut dyn FnMut(&mut P<'a>) -> Option<String>) -> Option<String> {
        let n = self.size()?;
        let mut s = String::from("[");
        for _ in 0..n {
            s.push_str(&f(self)?);
            s.push(',');
        }
        Some(s + "]")
    }
    fn outpoint(&mut self) -> Option<String> {
        Some(format!("{}:{}", hex::encode(self.take(32)?), le(self.take(4)?)))
    }
    fn input(&mut self) -> Option<String> {
        Some(format!("in({} {} {})", self.outpoint()?, self.script()?, le(self.take(4)?)))
    }
    fn output(&mut self) -> Option<String> {
        Some(format!("out({} {})", le(self.take(8)?), self.script()?))
    }
    fn tx(&mut self) -> Option<String> {
        Some(format!(
            "tx({} {} {} {})",
            le(self.take(4)?) as u32 as i32,
            self.list(&mut |p| p.input())?,
            self.list(&mut |p| p.output())?,
            le(self.take(4)?)
        ))
    }
}
fn le(b: &[u8]) -> u128 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u128)
}
fn ref_script(b: &[u8]) -> Option<String> {
    let mut s = String::from("<");
    for t in parse_script(b)? {
        match (t.data, t.code) {
            (Some(d), _) => write!(s, "p{} ", hex::encode(d)).unwrap(),
            (None, 0) => s.push_str("p "),
            (None, 0x4f) => s.push_str("p81 "),
            (None, c @ 0x51..=0x60) => write!(s, "p{:02x} ", c - 0x50).unwrap(),
            (None, c) => write!(s, "x{:02x} ", c).unwrap(),
        }
    }
    Some(s + ">")
}
fn real_ops<'a>(ops: impl IntoIterator<Item = &'a Op>) -> String {
    let mut s = String::from("<");
    for e in effects(ops) {
        match e {
            Effect::Push(d) => write!(s, "p{} ", hex::encode(d)).unwrap(),
            Effect::Exec(c) => write!(s, "x{:02x} ", c).unwrap(),
        }
    }
    s + ">"
}
fn real_script(x: &Script) -> String {
    real_ops(script_ops(x).iter())
}
fn real_outpoint(x: &TxOutpoint) -> String {
    format!("{}:{}", hex::encode(x.tx_hash.as_slice()), x.vout)
}
fn real_input(x: &TxInput) -> String {
    format!("in({} {} {})", real_outpoint(&x.prev_out), real_script(&x.script), x.sequence)
}
fn real_output(x: &TxOutput) -> String {
    format!("out({} {})", x.value, real_script(&x.script))
}
fn real_tx(x: &UnhashedTx) -> String {
    format!("tx({} {} {} {})", x.version, list(&x.inputs, real_input), list(&x.outputs, real_output), x.lock_time)
}
fn list<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    let mut s = String::from("[");
    for x in v {
        s.push_str(&f(x));
        s.push(',');
    }
    s + "]"
}

type Real = fn(&[u8]) -> Result<(String, Vec<u8>), String>;
type Strict = fn(&[u8]) -> Result<String, String>;
type Refp = for<'a> fn(&mut P<'a>) -> Option<String>;
pub struct Dec {
    name: &'static str,
    real: Real,
    strict: Strict,
    reference: Refp,
}
macro_rules! dec {
    ($name:expr, $t:ty, $render:expr, $refp:expr) => {
        Dec {
            name: $name,
            real: |b| <$t>::deser_rest(b.to_vec().into()).map(|(v, r)| { let f: fn(&$t) -> String = $render; (f(&v), r.to_vec()) }).map_err(|e| e.to_string()),
            strict: |b| <$t>::deser(b.to_vec().into()).map(|v| { let f: fn(&$t) -> String = $render; f(&v) }).map_err(|e| e.to_string()),
            reference: $refp,
        }
    };
}
macro_rules! dec_int {
    ($name:expr, $t:ty, $n:expr) => {
        dec!($name, $t, |v| v.to_string(), |p| Some((le(p.take($n)?) as $t).to_string()))
    };
}
macro_rules! dec_hash {
    ($name:expr, $t:ty, $n:expr) => {
        dec!($name, $t, |v| hex::encode(v.as_slice()), |p| Some(hex::encode(p.take($n)?)))
    };
}
pub fn decoders() -> Vec<Dec> {
    vec![
        dec!("UnhashedTx", UnhashedTx, real_tx, |p| p.tx()),
        dec!("Tx", Tx, |t| real_tx(t.unhashed_tx()), |p| {
            let b = p.bytes()?;
            let mut q = P { b, odd: false };
            let s = q.tx()?;
            p.odd |= q.odd;
            if q.b.is_empty() { Some(s) } else { None }
        }),
        dec!("TxInput", TxInput, real_input, |p| p.input()),
        dec!("TxOutput", TxOutput, real_output, |p| p.output()),
        dec!("TxOutpoint", TxOutpoint, real_outpoint, |p| p.outpoint()),
        dec!("Script", Script, real_script, |p| p.script()),
        dec!(
            "TxPreimage", TxPreimage,
            |x| format!("{} {} {} {} {} {} {} {} {} {}", x.version, hex::encode(x.hash_prevouts.as_slice()), hex::encode(x.hash_sequence.as_slice()), real_outpoint(&x.outpoint), real_script(&x.script_code), x.value, x.sequence, hex::encode(x.hash_outputs.as_slice()), x.lock_time, x.sig_hash_type),
            |p| Some(format!("{} {} {} {} {} {} {} {} {} {}", le(p.take(4)?) as u32 as i32, hex::encode(p.take(32)?), hex::encode(p.take(32)?), p.outpoint()?, p.script()?, le(p.take(8)?), le(p.take(4)?), hex::encode(p.take(32)?), le(p.take(4)?), le(p.take(4)?)))
        ),
        dec!("ByteArray", ByteArray, |v| hex::encode(v), |p| Some(hex::encode(p.bytes()?))),
        dec!("Vec<u8>", Vec<u8>, |v| list(v, |x| x.to_string()), |p| p.list(&mut |p| Some(p.take(1)?[0].to_string()))),
        dec!("Vec<u32>", Vec<u32>, |v| list(v, |x| x.to_string()), |p| p.list(&mut |p| Some(le(p.take(4)?).to_string()))),
        dec!("Vec<ByteArray>", Vec<ByteArray>, |v| list(v, |x| hex::encode(x)), |p| p.list(&mut |p| Some(hex::encode(p.bytes()?)))),
        dec!("Vec<Script>", Vec<Script>, |v| list(v, real_script), |p| p.list(&mut |p| p.script())),
        dec!("Vec<TxOutput>", Vec<TxOutput>, |v| list(v, real_output), |p| p.list(&mut |p| p.output())),
        dec!("Vec<TxInput>", Vec<TxInput>, |v| list(v, real_input), |p| p.list(&mut |p| p.input())),
        dec!("Vec<Vec<u16>>", Vec<Vec<u16>>, |v| list(v, |w| list(w, |x| x.to_string())), |p| p.list(&mut |p| p.list(&mut |p| Some(le(p.take(2)?).to_string())))),
        dec_hash!("Sha256d", Sha256d, 32),
        dec_hash!("Sha256", Sha256, 32),
        dec_hash!("Hash160", Hash160, 20),
        dec_hash!("Sha1", Sha1, 20),
        dec_hash!("Ripemd160", Ripemd160, 20),
        dec!("bool", bool, |v| v.to_string(), |p| Some((p.take(1)?[0] != 0).to_string())),
        dec_int!("u8", u8, 1),
        dec_int!("i8", i8, 1),
        dec_int!("u16", u16, 2),
        dec_int!("i32", i32, 4),
        dec_int!("u64", u64, 8),
        dec_int!("i128", i128, 16),
        // the two bare script parsers: no length in front, all bytes are consumed
        Dec {
            name: "deserialize_ops",
            real: |b| deserialize_ops(b).map(|o| (real_ops(o.iter()), vec![])).map_err(|e| e.to_string()),
            strict: |b| deserialize_ops(b).map(|o| real_ops(o.iter())).map_err(|e| e.to_string()),
            reference: |p| {
                let r = ref_script(p.b);
                p.b = &[];
                r
            },
        },
        Dec {
            name: "deser_ops",
            real: |b| Script::deser_ops(ba(b)).map(|o| (real_script(&o), vec![])).map_err(|e| e.to_string()),
            strict: |b| Script::deser_ops(ba(b)).map(|o| real_script(&o)).map_err(|e| e.to_string()),
            reference: |p| {
                let r = ref_script(p.b);
                p.b = &[];
                r
            },
        },
        Dec {
            name: "decode_bitcoin_code_all<TxOutput>",
            real: |b| decode_bitcoin_code_all::<TxOutput>(ba(b)).map(|v| (list(&v, real_output), vec![])).map_err(|e| e.to_string()),
            strict: |b| decode_bitcoin_code_all::<TxOutput>(ba(b)).map(|v| list(&v, real_output)).map_err(|e| e.to_string()),
            reference: |p| {
                let mut s = String::from("[");
                while !p.b.is_empty() {
                    s.push_str(&p.output()?);
                    s.push(',');
                }
                Some(s + "]")
            },
        },
    ]
}

/// Memory allowed for decoding `n` bytes: proportional, with room for the per-operation overhead.
fn allowed(n: usize) -> u64 {
    32 * 1024 + 1024 * n as u64
}

pub fn check(d: &Dec, b: &[u8], ch: &mut Chooser) -> Res {
    let mut p = P { b, odd: false };
    let want = (d.reference)(&mut p);
    let (rest, odd) = (p.b.to_vec(), p.odd);
    let (got, peak) = metered(1 << 30, || guarded(d.name, || (d.real)(b)));
    let got = got?;
    ch.op();
    let fail = |m: String| -> Res { Err(format!("decoding {} as {}: {}", hexs(b), d.name, m).into()) };
    if peak > allowed(b.len()) {
        return fail(format!("{} bytes of input made the decoder allocate {} bytes", b.len(), peak));
    }
    match (&want, &got) {
        (None, Ok(v)) => return fail(format!("succeeded with {:?}, but the input is cut short or malformed", v)),
        (Some(w), Err(e)) if !odd => return fail(format!("failed ({}), expected {}", e, w)),
        (Some(w), Ok((v, r))) => {
            if v != w {
                return fail(format!("got {}, expected {}", v, w));
            }
            if r != &rest {
                return fail(format!("left over {} instead of {}", hexs(r), hexs(&rest)));
            }
        }
        _ => {}
    }
    let s = guarded(d.name, || (d.strict)(b))?;
    ch.op();
    match (&want, &s) {
        (Some(w), Ok(v)) if rest.is_empty() => {
            if w != v {
                return fail(format!("strict decoding gave {}, expected {}", v, w));
            }
        }
        (Some(w), Err(e)) if rest.is_empty() && !odd => return fail(format!("strict decoding failed ({}), expected {}", e, w)),
        (_, Ok(v)) => return fail(format!("strict decoding accepted it as {} (unread bytes: {})", v, hexs(&rest))),
        _ => {}
    }
    ch.observe((want.clone(), rest.len(), got.is_ok()));
    Ok(())
}

/// Valid encodings, with the decoders they are meant for.
pub fn corpus(thorough: bool) -> Vec<(&'static str, Vec<u8>)> {
    let sc = scripts(thorough);
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![];
    let tx = |ins: &[usize], outs: &[usize]| RTx {
        version: 2,
        ins: ins.iter().map(|i| RIn { hash: hash_n(i + 2), vout: *i as u32, script: ref_ser_ops(&sc[*i]), seq: 0xfffffffe }).collect(),
        outs: outs.iter().map(|i| ROut { value: 1000 + *i as u64, script: ref_ser_ops(&sc[*i]) }).collect(),
        lock: 99,
    };
    let txs: Vec<RTx> = vec![tx(&[], &[]), tx(&[0], &[1]), tx(&[2, 5], &[2, 8]), tx(&[3], &[4, 0, 6]), tx(&[0, 1, 2], &[])];
    for t in &txs {
        v.push(("UnhashedTx", t.ser()));
        v.push(("Tx", var_bytes(&t.ser())));
        for i in &t.ins {
            v.push(("TxInput", i.ser()));
            v.push(("TxOutpoint", i.outpoint()));
            v.push(("Sha256d", i.hash.to_vec()));
        }
        for o in &t.outs {
            v.push(("TxOutput", o.ser()));
        }
        v.push(("Vec<TxOutput>", [compact(t.outs.len() as u64), t.outs.iter().flat_map(|o| o.ser()).collect()].concat()));
        v.push(("decode_bitcoin_code_all<TxOutput>", t.outs.iter().flat_map(|o| o.ser()).collect()));
        v.push(("Vec<TxInput>", [compact(t.ins.len() as u64), t.ins.iter().flat_map(|o| o.ser()).collect()].concat()));
    }
    for s in &sc {
        let b = ref_ser_ops(s);
        v.push(("Script", var_bytes(&b)));
        v.push(("deserialize_ops", b.clone()));
        v.push(("deser_ops", b.clone()));
        v.push(("ByteArray", var_bytes(&b)));
        v.push(("Vec<Script>", [vec![2], var_bytes(&b), var_bytes(&b)].concat()));
        v.push(("TxPreimage", txs[1].preimage(0, &b, 1000, 0x41)));
    }
    for d in [&[0x4e, 5, 0, 0, 0, 1, 2, 3, 4, 5][..], &[0x4d, 3, 0, 1, 2, 3], &[0x4c, 0], &[0x4e, 0, 0, 0, 0], &[0x4c, 1, 7], &[1, 5], &[1, 0x81], &[0xba, 0xff, 0x50]] {
        v.push(("deserialize_ops", d.to_vec()));
        v.push(("deser_ops", d.to_vec()));
        v.push(("Script", var_bytes(d)));
    }
    v.push(("Vec<u8>", var_bytes(&seq_bytes(20, 1))));
    v.push(("Vec<u32>", [vec![5], seq_bytes(20, 1)].concat()));
    v.push(("Vec<ByteArray>", [vec![3], var_bytes(&[1, 2]), var_bytes(&[]), var_bytes(&[3; 40])].concat()));
    v.push(("Vec<Vec<u16>>", vec![2, 1, 9, 9, 2, 1, 2, 3, 4]));
    v.push(("Hash160", seq_bytes(20, 2)));
    v.push(("Sha1", seq_bytes(20, 2)));
    v.push(("Ripemd160", seq_bytes(20, 2)));
    v.push(("Sha256", seq_bytes(32, 2)));
    v.push(("i128", seq_bytes(16, 2)));
    v.sort();
    v.dedup();
    v
}

pub fn c02(c: &Ctx) {
    let decs = decoders();
    let by = |n: &str| decs.iter().find(|d| d.name == n).unwrap();
    // every short string
    let full = 2usize;
    let n_full = 1 + 256 + 65536u64 + if c.thorough { 1 << 24 } else { 0 };
    c.bound(format!("every byte string of at most {} bytes, with each of {} decoders", if c.thorough { 3 } else { full }, decs.len()));
    c.range("all short strings", n_full * decs.len() as u64, |i, ch| {
        let d = &decs[(i % decs.len() as u64) as usize];
        let mut k = i / decs.len() as u64;
        let mut len = 0;
        while k >= 1u64 << (8 * len) {
            k -= 1u64 << (8 * len);
            len += 1;
        }
        let b: Vec<u8> = (0..len).map(|j| (k >> (8 * j)) as u8).collect();
        ch.note(|| format!("{} {}", d.name, hexs(&b)));
        check(d, &b, ch)
    });
    let alpha: &[u8] = if c.thorough { &[0, 1, 2, 3, 0x4b, 0x4c, 0x4d, 0x4e, 0x51, 0x80, 0xfd, 0xfe, 0xff] } else { &[0, 1, 2, 0x4c, 0x4d, 0x4e, 0x51, 0xfd, 0xff] };
    let maxl = if c.thorough { 6 } else { 5 };
    c.bound(format!("every string of at most {} bytes over {:02x?}", maxl, alpha));
    c.tree("strings over the critical bytes", |ch| {
        let d = ch.of(&decs);
        let l = 3 + ch.pick(maxl - 2);
        let b: Vec<u8> = (0..l).map(|_| *ch.of(alpha)).collect();
        ch.note(|| format!("{} {}", d.name, hexs(&b)));
        check(d, &b, ch)
    });
    let cor = corpus(c.thorough);
    c.bound(format!("{} valid encodings: every prefix, every suffix extension, every single-byte substitution (all 256 values), every insertion of and overwriting with 14 hostile lengths, every deletion of 1..4 bytes", cor.len()));
    c.tree("truncations and extensions", |ch| {
        let (n, b) = ch.of(&cor);
        let d = by(n);
        let k = ch.pick(b.len() + 4);
        let mut x = b.clone();
        if k <= b.len() {
            x.truncate(k);
            if k < b.len() && !n.starts_with("des") && !n.starts_with("dec") {
                let s = guarded(d.name, || (d.strict)(&x))?;
                ensure!(s.is_err(), "the {}-byte prefix of the {} {} was accepted: {:?}", k, n, hexs(b), s);
            }
        } else {
            for j in b.len()..k {
                x.push(if j == b.len() { *ch.of(&[0, 1, 0xff]) } else { 0 });
            }
        }
        ch.note(|| format!("{} {}", n, hexs(&x)));
        check(d, &x, ch)
    });
    let cor2: Vec<_> = cor.iter().filter(|(_, b)| b.len() < if c.thorough { 1000 } else { 260 }).collect();
    c.tree("single byte substitutions", |ch| {
        let (n, b) = *ch.of(&cor2);
        if b.is_empty() {
            return Ok(());
        }
        let d = by(n);
        let pos = ch.pick(b.len());
        let mut x = b.clone();
        x[pos] = ch.pick(256) as u8;
        ch.note(|| format!("{} {} (byte {})", n, hexs(&x), pos));
        check(d, &x, ch)
    });
    let hostile: Vec<Vec<u8>> = [
        &[0xfd, 0xff, 0xff][..], &[0xfd, 0, 0], &[0xfd, 1, 0], &[0xfe, 0xff, 0xff, 0xff, 0xff], &[0xfe, 1, 0, 0, 0], &[0xfe, 0, 0, 0, 0x80],
        &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], &[0xff, 0, 0, 0, 0, 0, 0, 0, 0x80], &[0xff, 0, 0, 0, 0, 1, 0, 0, 0],
        &[0xff, 2, 0, 0, 0, 0, 0, 0, 0], &[0x4e, 0xff, 0xff, 0xff, 0xff], &[0x4e, 0xff, 0xff, 0xff, 0x7f], &[0x4d, 0xff, 0xff], &[0x4c, 0xff],
    ]
    .iter()
    .map(|s| s.to_vec())
    .collect();
    c.tree("hostile lengths", |ch| {
        let (n, b) = ch.of(&cor);
        let d = by(n);
        let pos = ch.pick(b.len() + 1);
        let h = ch.of(&hostile);
        let mut x = b[..pos].to_vec();
        x.extend(h);
        match ch.pick(3) {
            0 => x.extend(&b[pos..]),                                  // inserted
            1 => x.extend(&b[(pos + 1).min(b.len())..]),               // instead of one byte
            _ => x.extend(&b[(pos + h.len()).min(b.len())..]),         // overwriting
        }
        ch.note(|| format!("{} {} (at {})", n, hexs(&x), pos));
        check(d, &x, ch)
    });
    c.tree("deletions", |ch| {
        let (n, b) = ch.of(&cor);
        let d = by(n);
        let pos = ch.pick(b.len() + 1);
        let k = 1 + ch.pick(4);
        let mut x = b[..pos].to_vec();
        x.extend(&b[(pos + k).min(b.len())..]);
        ch.note(|| format!("{} {} (deleted at {})", n, hexs(&x), pos));
        check(d, &x, ch)
    });
    // memory growth with size: long hostile and long valid inputs
    let sizes: &[usize] = if c.thorough { &[1000, 5000, 20000, 60000] } else { &[1000, 5000] };
    c.tree("long inputs", |ch| {
        let d = ch.of(&decs);
        let n = *ch.of(sizes);
        let fill = *ch.of(&[0u8, 1, 0x51, 0x4c, 0xff]);
        let mut b = match ch.pick(4) {
            0 => vec![],
            1 => compact(n as u64 - 3),
            2 => compact(u64::MAX),
            _ => compact(n as u64 * 9),
        };
        b.resize(n, fill);
        ch.note(|| format!("{} {} x {:02x}", d.name, n, fill));
        check(d, &b, ch)
    });
}
