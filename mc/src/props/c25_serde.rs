//! C25: the serde forms of the public types.
use super::c01_wire::{hash_n, scripts};
use super::common::*;
use crate::engine::*;
use crate::node::*;
use crate::refs::*;
use crate::ensure;
use bitcoin_cash::*;
use bitcoin_cash_slp::*;
use serde::{de::DeserializeOwned, Serialize};
use std::borrow::Cow;

/// A value of a public type: what has to survive, and what every value satisfies.
trait Val: Serialize + DeserializeOwned + Clone + Send + Sync {
    const SCRIPTS: bool = false;
    fn norm(&self, readable: bool) -> String;
    fn valid(&self) -> Res {
        Ok(())
    }
    fn same(&self, o: &Self, readable: bool) -> bool {
        self.norm(readable) == o.norm(readable)
    }
}
macro_rules! bytes_val {
    ($($t:ty, $len:expr, $f:expr;)*) => { $(impl Val for $t {
        fn norm(&self, _: bool) -> String { hex::encode($f(self)) }
        fn valid(&self) -> Res {
            let n: Option<usize> = $len;
            ensure!(n.map_or(true, |n| $f(self).len() == n), "value of {} bytes", $f(self).len());
            Ok(())
        }
        fn same(&self, o: &Self, _: bool) -> bool { self == o && $f(self) == $f(o) }
    })* };
}
bytes_val! {
    ByteArray, None, |x: &ByteArray| x.to_vec();
    Sha1, Some(20), |x: &Sha1| x.as_slice().to_vec();
    Ripemd160, Some(20), |x: &Ripemd160| x.as_slice().to_vec();
    Sha256, Some(32), |x: &Sha256| x.as_slice().to_vec();
    Sha256d, Some(32), |x: &Sha256d| x.as_slice().to_vec();
    Hash160, Some(20), |x: &Hash160| x.as_slice().to_vec();
    TokenId, Some(32), |x: &TokenId| x.as_slice_be().to_vec();
    Pubkey, Some(33), |x: &Pubkey| x.as_slice().to_vec();
    FixedByteArrayBE<[u8; 1]>, Some(1), |x: &FixedByteArrayBE<[u8; 1]>| x.as_ref().to_vec();
    FixedByteArrayBE<[u8; 4]>, Some(4), |x: &FixedByteArrayBE<[u8; 4]>| x.as_ref().to_vec();
    FixedByteArrayBE<[u8; 32]>, Some(32), |x: &FixedByteArrayBE<[u8; 32]>| x.as_ref().to_vec();
    FixedByteArrayLE<[u8; 1]>, Some(1), |x: &FixedByteArrayLE<[u8; 1]>| x.as_ref().to_vec();
    FixedByteArrayLE<[u8; 4]>, Some(4), |x: &FixedByteArrayLE<[u8; 4]>| x.as_ref().to_vec();
    FixedByteArrayLE<[u8; 20]>, Some(20), |x: &FixedByteArrayLE<[u8; 20]>| x.as_ref().to_vec();
}
impl Val for Integer {
    fn norm(&self, _: bool) -> String {
        self.value().to_string()
    }
    fn valid(&self) -> Res {
        ensure!(self.value() != i32::MIN, "integer {}", self.value());
        Ok(())
    }
    fn same(&self, o: &Self, _: bool) -> bool {
        self == o && self.value() == o.value()
    }
}
impl Val for UInteger {
    fn norm(&self, _: bool) -> String {
        self.value().to_string()
    }
    fn valid(&self) -> Res {
        ensure!(self.value() >= 0, "unsigned integer {}", self.value());
        Ok(())
    }
}
impl Val for SigHashFlags {
    fn norm(&self, _: bool) -> String {
        self.bits().to_string()
    }
}
impl Val for AddressType {
    fn norm(&self, _: bool) -> String {
        format!("{:?}", self)
    }
}
impl Val for Address<'static> {
    fn norm(&self, readable: bool) -> String {
        let full = if readable { self.cash_addr().to_string() } else { String::new() };
        format!("{:?} {} {} {:?} {}", self.addr_type(), hex::encode(self.hash().as_slice()), self.prefix_str(), self.prefix_kind(), full)
    }
    fn valid(&self) -> Res {
        match decode_addr(self.cash_addr(), "bitcoincash") {
            None => return Err(format!("{:?} is no address", self.cash_addr()).into()),
            Some((p, t, h)) => ensure!(p == self.prefix_str() && t == self.addr_type() as u8 && h == self.hash().as_slice(), "fields of {} are {} {:?} {}", self.cash_addr(), self.prefix_str(), self.addr_type(), self.hash()),
        }
        ensure!(self.prefix_kind() == Prefix::from_prefix_str(self.prefix_str()), "kind {:?} of prefix {}", self.prefix_kind(), self.prefix_str());
        Ok(())
    }
    fn same(&self, o: &Self, readable: bool) -> bool {
        self.norm(readable) == o.norm(readable) && (!readable || self == o)
    }
}
fn sc(s: &Script) -> String {
    hex::encode(s.ser())
}
impl Val for Script {
    const SCRIPTS: bool = true;
    fn norm(&self, _: bool) -> String {
        sc(self)
    }
}
impl Val for TxOutpoint {
    fn norm(&self, r: bool) -> String {
        format!("{}:{}", self.tx_hash.norm(r), self.vout)
    }
    fn valid(&self) -> Res {
        self.tx_hash.valid()
    }
    fn same(&self, o: &Self, r: bool) -> bool {
        self == o && self.norm(r) == o.norm(r)
    }
}
impl Val for TxInput {
    const SCRIPTS: bool = true;
    fn norm(&self, r: bool) -> String {
        format!("{} {} {} {:?} {:?} {:?} {:?}", self.prev_out.norm(r), sc(&self.script), self.sequence, self.lock_script.as_ref().map(sc), self.value, self.is_p2sh, self.sig_hash_flags.as_ref().map(|f| f.iter().map(|f| f.bits()).collect::<Vec<_>>()))
    }
    fn valid(&self) -> Res {
        self.prev_out.valid()
    }
}
impl Val for TxOutput {
    const SCRIPTS: bool = true;
    fn norm(&self, _: bool) -> String {
        format!("{} {}", self.value, sc(&self.script))
    }
}
impl<T: Val> Val for Vec<T> {
    const SCRIPTS: bool = T::SCRIPTS;
    fn norm(&self, r: bool) -> String {
        self.iter().map(|x| x.norm(r)).collect::<Vec<_>>().join("; ")
    }
    fn valid(&self) -> Res {
        self.iter().try_for_each(|x| x.valid())
    }
}
impl<T: Val> Val for Option<T> {
    const SCRIPTS: bool = T::SCRIPTS;
    fn norm(&self, r: bool) -> String {
        self.as_ref().map_or("none".into(), |x| x.norm(r))
    }
    fn valid(&self) -> Res {
        self.iter().try_for_each(|x| x.valid())
    }
}
impl Val for UnhashedTx {
    const SCRIPTS: bool = true;
    fn norm(&self, r: bool) -> String {
        format!("{} [{}] [{}] {}", self.version, self.inputs.norm(r), self.outputs.norm(r), self.lock_time)
    }
    fn valid(&self) -> Res {
        self.inputs.valid()
    }
}
impl Val for Tx {
    const SCRIPTS: bool = true;
    fn norm(&self, r: bool) -> String {
        format!("{} {} {}", self.hash().norm(r), self.raw().norm(r), self.unhashed_tx().norm(r))
    }
    fn valid(&self) -> Res {
        ensure!(self.hash().as_slice() == &sha256d(self.raw())[..], "transaction with id {} of raw bytes {}", self.hash(), hexs(self.raw()));
        ensure!(self.unhashed_tx().ser().as_slice() == self.raw().as_slice(), "transaction with fields {:?} and raw bytes {}", to_rtx(self.unhashed_tx()), hexs(self.raw()));
        self.unhashed_tx().valid()
    }
}
impl Val for UnsignedTxInput {
    fn norm(&self, r: bool) -> String {
        format!("{} {} {}", self.prev_out.norm(r), self.sequence, self.value)
    }
    fn valid(&self) -> Res {
        self.prev_out.valid()
    }
}
impl Val for SlpToken {
    fn norm(&self, _: bool) -> String {
        format!("{} {} {:?}", self.amount, self.is_mint_baton, self.action)
    }
    fn same(&self, o: &Self, _: bool) -> bool {
        self == o
    }
}
impl Val for SlpTokenType {
    fn norm(&self, _: bool) -> String {
        format!("{:?}", self)
    }
}
impl Val for SlpTx {
    const SCRIPTS: bool = true;
    fn norm(&self, r: bool) -> String {
        format!(
            "{} {:?} {:?} {} {:?} {}",
            self.version,
            self.inputs.iter().map(|i| format!("{} {} {} {}", i.index, i.token.norm(r), i.input.norm(r), sc(&i.prev_script))).collect::<Vec<_>>(),
            self.outputs.iter().map(|o| format!("{} {}", o.token.norm(r), o.output.norm(r))).collect::<Vec<_>>(),
            self.lock_time,
            self.slp_data.as_ref().map(|d| d.token_id.norm(r)),
            self.tx_hash.norm(r)
        )
    }
}

// ---------------------------------------------------------------- round trips

fn e<T, X: std::fmt::Display>(what: &str, r: Result<T, X>) -> Result<T, Fail> {
    r.map_err(|x| Fail::Violation(format!("{}: {}", what, x)))
}
fn round_trips<T: Val>(v: &T, ch: &mut Chooser) -> Res {
    guarded("round trip", || round_trips_(v, ch))?
}
fn round_trips_<T: Val>(v: &T, ch: &mut Chooser) -> Res {
    v.valid()?;
    let js = e("to json", serde_json::to_string(v))?;
    let pretty = e("to json", serde_json::to_string_pretty(v))?;
    let value = e("to json value", serde_json::to_value(v))?;
    ch.note(|| format!("value {}", trunc(&js, 300)));
    ch.observe(&js);
    let back: Vec<(&str, T)> = vec![
        ("json text", e("json text", serde_json::from_str(&js))?),
        ("json bytes", e("json bytes", serde_json::from_slice(pretty.as_bytes()))?),
        ("json reader", e("json reader", serde_json::from_reader(js.as_bytes()))?),
        ("json value", e("json value", serde_json::from_value(value.clone()))?),
    ];
    for (w, b) in &back {
        ch.op();
        ensure!(v.same(b, true), "{}: {} became {}", w, v.norm(true), b.norm(true));
        b.valid()?;
    }
    use bincode::Options;
    let bin = e("to binary", bincode::serialize(v))?;
    let big = bincode::options().with_big_endian().with_fixint_encoding();
    let var = bincode::options();
    ch.observe(&bin);
    let back: Vec<(&str, T)> = vec![
        ("binary slice", e("binary slice", bincode::deserialize(&bin))?),
        ("binary reader", e("binary reader", bincode::deserialize_from(&bin[..]))?),
        ("big endian binary", e("big endian binary", e("to big endian", big.serialize(v)).and_then(|b| e("big endian", big.deserialize(&b))).map_err(|x| format!("{:?}", x)))?),
        ("compact binary", e("compact binary", e("to compact", var.serialize(v)).and_then(|b| e("compact", var.deserialize(&b))).map_err(|x| format!("{:?}", x)))?),
    ];
    for (w, b) in &back {
        ch.op();
        ensure!(v.same(b, false), "{}: {} became {}", w, v.norm(false), b.norm(false));
        b.valid()?;
    }
    for o in ALL_OPTS {
        let n = e("to tree", to_node(v, o))?;
        let b: T = e("from tree", from_node(&n, o))?;
        ch.op();
        ensure!(v.same(&b, o.readable), "tree {:?}: {} became {}", o, v.norm(o.readable), b.norm(o.readable));
        b.valid()?;
        if o.readable && !o.compact {
            ensure!(n.json() == value, "forms in two readable formats differ: {:?} and {}", n, value);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- invalid forms

fn replacements(n: &Node) -> Vec<Node> {
    use Node::*;
    let s = |x: &str| Str(x.into());
    let mut v = vec![Null, Bool(true), Int(0), Int(1), Int(-1), Int(255), Int(256), Int(0x7fffffff), Int(0x80000000), Int(-0x7fffffff), Int(-0x80000000), Int(-0x80000001), Int(0xffffffff), Int(0x100000000), Int(1 << 63), Int(-(1 << 63)), Int(u64::MAX as i128), Int(1 << 70), Float(0.5), s(""), s("0"), s("00"), s("zz"), s("\u{e9}\u{e9}"), Seq(vec![]), Map(vec![])];
    match n {
        Str(t) => {
            for cut in 1..=2.min(t.len()) {
                v.push(s(&t[..t.len() - cut]));
                v.push(s(&t[cut..]));
            }
            v.extend([s(&format!("{}0", t)), s(&format!("{}00", t)), s(&format!("00{}", t)), s(&format!("0x{}", t)), s(&format!(" {}", t)), s(&format!("{} ", t)), s(&format!("{}\0", t)), s(&t.to_uppercase()), s(&format!("{}{}", t, t))]);
            if t.len() > 2 {
                v.extend([s(&format!("g{}", &t[1..])), s(&format!("{}g", &t[..t.len() - 1])), s(&format!("1{}", &t[1..])), s(&format!("{}q", &t[..t.len() - 1]))]);
            }
        }
        Seq(x) => {
            for i in 0..x.len() {
                for dup in [false, true] {
                    let mut y = x.clone();
                    if dup {
                        y.insert(i, x[i].clone());
                    } else {
                        y.remove(i);
                    }
                    v.push(Seq(y));
                }
            }
        }
        Map(x) => {
            for i in 0..x.len() {
                for dup in [false, true] {
                    let mut y = x.clone();
                    if dup {
                        y.insert(i, x[i].clone());
                    } else {
                        y.remove(i);
                    }
                    v.push(Map(y));
                }
            }
        }
        Int(x) => v.extend([Int(x + 1), Int(x - 1), Int(x + (1 << 8)), Int(x + (1 << 32)), s(&x.to_string()), Float(*x as f64)]),
        _ => {}
    }
    v
}
/// An edited form is either rejected or means exactly what it says.
fn judge_form<T: Val>(m: &Node, r: Result<T, String>, o: Opts, exact: bool) -> Result<bool, Fail> {
    let v = match r {
        Err(m) if m.contains("ENGINE:") => return Err(m.into()),
        Err(_) => return Ok(false),
        Ok(v) => v,
    };
    v.valid()?;
    let n = e("accepted value can't be encoded", to_node(&v, o))?;
    if exact {
        ensure!(n.canon() == m.canon(), "accepted {:?} as {:?}", m.canon(), n.canon());
    }
    let b: T = e("form of an accepted value is rejected", from_node(&n, o))?;
    ensure!(b.same(&v, o.readable), "accepted value changes: {} became {}", v.norm(o.readable), b.norm(o.readable));
    Ok(true)
}
fn edited_forms<T: Val>(c: &Ctx, name: &str, v: &T) {
    use bincode::Options;
    for o in [ALL_OPTS[0], ALL_OPTS[1], ALL_OPTS[2], ALL_OPTS[3]] {
        let base = to_node(v, o).expect("to_node");
        let n = base.count();
        c.tree(&format!("{} edited, readable {} compact {}", name, o.readable, o.compact), |ch| {
            let i = ch.pick(n);
            let mut b = base.clone();
            let at = b.at(i);
            let reps = replacements(at);
            let rep = ch.of(&reps).clone();
            let text = matches!(at, Node::Str(_)) || (T::SCRIPTS && !o.readable);
            ch.op();
            *at = rep.clone();
            ch.note(|| format!("{}: node {} of {:?} replaced by {:?}", name, i, base, rep));
            let exact = !(T::SCRIPTS && text);
            let mut took = vec![];
            for strings in 0..3u8 {
                let o = Opts { strings, ..o };
                let r: Result<T, String> = guarded("deserialize", || from_node(&b, o).map_err(|x: Er| x.0))?;
                took.push(judge_form(&b, r, o, exact)?);
            }
            ensure!(took[0] == took[1] && took[0] == took[2], "accepted depending on how strings are presented: {:?}", took);
            if o.readable && !o.compact {
                let js = b.json();
                let txt = js.to_string();
                for k in 0..3 {
                    let r: Result<T, String> = guarded("deserialize", || match k {
                        0 => serde_json::from_value(js.clone()).map_err(|x| x.to_string()),
                        1 => serde_json::from_str(&txt).map_err(|x| x.to_string()),
                        _ => serde_json::from_reader(txt.as_bytes()).map_err(|x| x.to_string()),
                    })?;
                    judge_form(&b, r, o, false)?;
                }
            }
            ch.observe((i, took[0]));
            Ok(())
        });
    }
    // the reader of this format trusts lengths unless it is given a limit
    let limited = || bincode::options().with_fixint_encoding().allow_trailing_bytes().with_limit(1 << 20);
    // binary: every truncation, every byte changed
    let bin = bincode::serialize(v).expect("bincode");
    const EDITS: u64 = 8;
    c.range(&format!("{} edited binary", name), bin.len() as u64 * EDITS, |i, ch| {
        let (p, k) = ((i / EDITS) as usize, i % EDITS);
        let mut b = bin.clone();
        match k {
            0 => b.truncate(p),
            1 => b[p] = 0,
            2 => b[p] = 0xff,
            3 => b[p] ^= 1,
            4 => b[p] ^= 0x80,
            5 => b[p] = 0xfd,
            6 => {
                b.remove(p);
            }
            _ => b.insert(p, b[p]),
        }
        ch.op();
        ch.note(|| format!("{}: binary {} with edit {} at {}", name, hex::encode(&bin), k, p));
        let (r, _) = metered(1 << 26, || guarded("deserialize", || bincode::deserialize::<T>(&b)));
        let (r2, _) = metered(1 << 26, || guarded("deserialize", || limited().deserialize_from::<_, T>(&b[..])));
        let r = r?;
        let r2 = r2?;
        if k == 0 {
            ensure!(r.is_err() && r2.is_err(), "accepted after {} of {} bytes", p, bin.len());
        }
        if let Ok(x) = &r2 {
            x.valid()?;
        }
        if let Ok(x) = &r {
            x.valid()?;
            let again = e("to binary", bincode::serialize(x))?;
            if !T::SCRIPTS {
                ensure!(b.starts_with(&again), "accepted {} as {}", hex::encode(&b), hex::encode(&again));
            }
            let y: T = e("from binary", bincode::deserialize(&again))?;
            ensure!(y.same(x, false), "accepted value changes");
        }
        ch.observe((p, k, r.is_ok(), r2.is_ok()));
        Ok(())
    });
}
fn all<T: Val>(c: &Ctx, name: &str, vals: Vec<T>) {
    if c.only.as_ref().map_or(false, |o| !name.contains(o.as_str()) && !o.contains(name)) {
        return;
    }
    c.range(name, vals.len() as u64, |i, ch| round_trips(&vals[i as usize], ch));
    c.range(&format!("{} lists", name), vals.len() as u64, |i, ch| {
        let v = &vals[i as usize];
        let w = &vals[(i as usize + 1) % vals.len()];
        round_trips(&vec![v.clone(), w.clone(), v.clone()], ch)?;
        round_trips(&Some(w.clone()), ch)
    });
    let limit = if c.thorough { 700 } else { 130 };
    let mut seen = std::collections::HashSet::new();
    for (i, v) in vals.iter().enumerate() {
        let n = to_node(v, ALL_OPTS[1]).expect("to_node");
        if n.count() > limit || (!c.thorough && seen.len() > 5) || !seen.insert(format!("{:?}", n)) {
            continue;
        }
        edited_forms(c, &format!("{} {}", name, i), v);
    }
}

/// Strings: every length, and every character at every position, accepted exactly if `ok` says so.
fn strings<T: Val>(c: &Ctx, name: &str, good: &str, pad: &str, max: usize, ok: impl Fn(&str) -> bool + Sync) {
    let pad: Vec<char> = pad.chars().collect();
    let g: Vec<char> = good.chars().collect();
    let n_len = max as u64 + 1;
    let n_chr = g.len() as u64 * 131;
    c.range(&format!("{} strings", name), n_len + n_chr, |i, ch| {
        let s: String = if i < n_len {
            (0..i as usize).map(|k| g.get(k).cloned().unwrap_or(pad[k % pad.len()])).collect()
        } else {
            let j = i - n_len;
            let (p, x) = ((j / 131) as usize, (j % 131) as u32);
            let chr = match x {
                128 => '\u{e9}',
                129 => '\u{ff10}',
                130 => '\u{1f600}',
                x => char::from_u32(x).unwrap(),
            };
            let mut g = g.clone();
            g[p] = chr;
            g.into_iter().collect()
        };
        let want = ok(&s);
        ch.op();
        ch.note(|| format!("{} from {:?}", name, s));
        for o in [ALL_OPTS[0], ALL_OPTS[4], ALL_OPTS[8]] {
            let n = Node::Str(s.clone());
            let r: Result<T, String> = guarded("deserialize", || from_node(&n, o).map_err(|x: Er| x.0))?;
            ensure!(r.is_ok() == want, "{:?} {}", s, if want { "rejected" } else { "accepted" });
            judge_form(&n, r, o, true)?;
        }
        let txt = serde_json::to_string(&s).unwrap();
        let a = guarded("deserialize", || serde_json::from_str::<T>(&txt))?;
        let b = guarded("deserialize", || serde_json::from_reader::<_, T>(txt.as_bytes()))?;
        ensure!(a.is_ok() == want && b.is_ok() == want, "json {} {}", txt, if want { "rejected" } else { "accepted" });
        ch.observe((s.len(), want));
        Ok(())
    });
}
fn is_hex(s: &str) -> bool {
    s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_hexdigit())
}
fn hex_fixed<T: Val>(c: &Ctx, name: &str, n: usize) {
    let good = hex::encode(seq_bytes(n, 0x9a));
    strings::<T>(c, name, &good, "0aF", 2 * n + 70, |s| s.len() == 2 * n && is_hex(s));
    // binary: every length
    c.range(&format!("{} sequences", name), 2 * n as u64 + 40, |len, ch| {
        let bytes = seq_bytes(len as usize, 3);
        ch.op();
        ch.note(|| format!("{} from a sequence of {} bytes", name, len));
        let node = Node::Seq(bytes.iter().map(|b| Node::Int(*b as i128)).collect());
        let want = len as usize == n;
        let r: Result<T, String> = guarded("deserialize", || from_node(&node, ALL_OPTS[1]).map_err(|x: Er| x.0))?;
        ensure!(r.is_ok() == want, "sequence of {} bytes {}", len, if want { "rejected" } else { "accepted" });
        judge_form(&node, r, ALL_OPTS[1], true)?;
        ch.observe(len);
        Ok(())
    });
}
fn script_bytes_ok(b: &[u8]) -> bool {
    let (n, used) = match read_compact(b) {
        Some(x) => x,
        None => return false,
    };
    b.len() - used == n as usize && parse_script(&b[used..]).is_some()
}

pub fn c25(c: &Ctx) {
    c.bound("every public type with a serde form x boundary values x 20 formats (JSON text, bytes, reader, value; bincode slice, reader, big endian, variable length; 12 modes of a self-made tree format: readable or not, records as maps or sequences, borrowed, transient or owned strings), alone, in lists and optional");
    c.bound("every single edit (26 replacement values, element removed or repeated, string cut, extended or altered) at every node of these forms; 8 edits of every byte of the binary form; strings of every length and every ASCII character (and three others) at every position; byte sequences of every length around the valid ones");
    let f = |n: usize, k: usize| -> Vec<u8> {
        match k {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => seq_bytes(n, 1),
            3 => seq_bytes(n, 0x7d),
            _ => {
                let mut v = vec![0; n];
                if n > 0 {
                    v[(k - 4) % n] = 0x80;
                }
                v
            }
        }
    };
    let ks = 4 + 33;
    all(c, "byte array", {
        let mut v: Vec<ByteArray> = [0usize, 1, 2, 3, 20, 32, 33, 75, 76, 252, 253, 255, 256, 1000].iter().flat_map(|n| (0..6).map(move |k| ba(f(*n, k)))).collect();
        v.push(ba(b"abc").named("name"));
        v.push(ba(b"abc").concat(ba(b"d").named("x")));
        v.push(ba(b"abc").apply_function(vec![9; 32], Function::Sha256));
        v
    });
    all(c, "sha1", (0..ks).map(|k| Sha1::from_slice(&f(20, k)).unwrap()).collect());
    all(c, "ripemd160", (0..ks).map(|k| Ripemd160::from_slice(&f(20, k)).unwrap()).collect());
    all(c, "sha256", (0..ks).map(|k| Sha256::from_slice(&f(32, k)).unwrap()).collect());
    all(c, "sha256d", (0..ks).map(|k| Sha256d::from_slice(&f(32, k)).unwrap()).collect());
    all(c, "hash160", (0..ks).map(|k| Hash160::from_slice(&f(20, k)).unwrap()).collect());
    all(c, "token id", (0..ks).map(|k| TokenId::from_hash(Sha256d::from_slice(&f(32, k)).unwrap())).collect());
    all(c, "pubkey", (0..ks).map(|k| Pubkey::from_slice_checked(&f(33, k)).unwrap()).collect());
    all(c, "fixed be 1", (0..8).map(|k| FixedByteArrayBE::<[u8; 1]>::from_slice_unnamed(&f(1, k)).unwrap()).collect());
    all(c, "fixed be 4", (0..8).map(|k| FixedByteArrayBE::<[u8; 4]>::from_slice_unnamed(&f(4, k)).unwrap()).collect());
    all(c, "fixed be 32", (0..8).map(|k| FixedByteArrayBE::<[u8; 32]>::from_slice_unnamed(&f(32, k)).unwrap()).collect());
    all(c, "fixed le 1", (0..8).map(|k| FixedByteArrayLE::<[u8; 1]>::from_slice_unnamed(&f(1, k)).unwrap()).collect());
    all(c, "fixed le 4", (0..8).map(|k| FixedByteArrayLE::<[u8; 4]>::from_slice_unnamed(&f(4, k)).unwrap()).collect());
    all(c, "fixed le 20", (0..8).map(|k| FixedByteArrayLE::<[u8; 20]>::from_slice_unnamed(&f(20, k)).unwrap()).collect());
    let ints: Vec<i32> = (0..31).flat_map(|b| [(1i32 << b) - 1, 1 << b, -(1 << b)]).chain([i32::MAX, -i32::MAX]).collect();
    all(c, "integer", ints.iter().map(|i| Integer::new(*i).unwrap()).collect());
    all(c, "uinteger", ints.iter().filter(|i| **i >= 0).map(|i| UInteger::new(*i).unwrap()).collect());
    all(c, "sig hash flags", (0..=255u8).map(SigHashFlags::from_u8).collect());
    all(c, "address type", vec![AddressType::P2PKH, AddressType::P2SH]);
    let mut addrs: Vec<Address<'static>> = vec![];
    for p in ["bitcoincash", "simpleledger", "bchtest", "a", "redridinghood"] {
        for t in [AddressType::P2PKH, AddressType::P2SH] {
            for k in 0..5 {
                addrs.push(Address::from_hash(p, t, Hash160::from_slice(&f(20, k)).unwrap()).into_owned_address());
            }
        }
        let own = Address::from_hash(p, AddressType::P2SH, Hash160::from_slice(&f(20, 2)).unwrap()).into_owned_address();
        addrs.push(Address::from_cash_addr(own.cash_addr().to_string()).unwrap());
        addrs.push(Address::from_cash_addr(own.cash_addr().to_uppercase()).unwrap());
        if p == "bitcoincash" {
            addrs.push(Address::from_cash_addr(own.cash_addr()[12..].to_string()).unwrap());
        }
        let own2 = own.with_prefix("simpleledger").into_owned_address();
        addrs.push(own2);
    }
    all(c, "address", addrs);
    let ops = scripts(c.thorough);
    let scs: Vec<Script> = ops.iter().map(|o| Script::from_ops(o.iter().cloned())).collect();
    let mut more = scs.clone();
    for a in &ops {
        for b in &ops {
            more.push(Script::from_ops(a.iter().chain(b).cloned()));
        }
    }
    for b in 0..=255u8 {
        more.push(Script::from_ops([Op::from(ba([b])), Op::from_int(b as i32 - 128)]));
        if b == 0 || b > 0x4e {
            more.push(Script::deser_ops(ba([b])).unwrap());
        }
    }
    all(c, "script", more);
    let outpoints: Vec<TxOutpoint> = (0..4).flat_map(|k| U32S.iter().map(move |v| TxOutpoint { tx_hash: Sha256d::new(hash_n(k)), vout: *v })).collect();
    all(c, "outpoint", outpoints.clone());
    all(c, "output", U64S.iter().enumerate().flat_map(|(i, v)| [i, i + 3].map(|j| TxOutput { value: *v, script: scs[j % scs.len()].clone() })).collect());
    let mut inputs = vec![];
    for (i, seq) in U32S.iter().enumerate() {
        let mut x = TxInput::new(outpoints[i % outpoints.len()].clone(), scs[i % scs.len()].clone(), *seq);
        inputs.push(x.clone());
        x.value = Some(U64S[i % U64S.len()]);
        inputs.push(x);
    }
    for lock in [None, Some(0), Some(2), Some(5)] {
        for value in [None, Some(0), Some(u64::MAX)] {
            for p2sh in [None, Some(false), Some(true)] {
                for flags in [None, Some(vec![]), Some(vec![0x41u8]), Some(vec![0xc3, 0x42])] {
                    let mut x = TxInput::new(outpoints[1].clone(), scs[2].clone(), 7);
                    x.lock_script = lock.map(|i: usize| scs[i].clone());
                    x.value = value;
                    x.is_p2sh = p2sh;
                    x.sig_hash_flags = flags.clone().map(|f| f.into_iter().map(SigHashFlags::from_u8).collect());
                    inputs.push(x);
                }
            }
        }
    }
    inputs.rotate_right(1);
    all(c, "input", inputs.clone());
    all(c, "unsigned input", U64S.iter().map(|v| UnsignedTxInput { prev_out: outpoints[2].clone(), sequence: *v as u32, value: *v }).collect());
    let txs = super::c16_hashed::txs(c.thorough);
    all(c, "unhashed transaction", txs.clone());
    all(c, "transaction", txs.iter().map(|t| t.clone().hashed()).collect());
    let tokens: Vec<SlpToken> = {
        use SlpAction::*;
        [NonSlp, NonSlpBurn, SlpParseError, SlpUnsupportedVersion, SlpV1Genesis, SlpV1Mint, SlpV1Send, SlpNft1GroupGenesis, SlpNft1GroupMint, SlpNft1GroupSend, SlpNft1UniqueChildGenesis, SlpNft1UniqueChildSend].iter().enumerate().map(|(i, a)| SlpToken { amount: U64S[i % U64S.len()], is_mint_baton: i % 2 == 1, action: *a }).collect()
    };
    all(c, "slp token", tokens.clone());
    all(c, "slp token type", vec![SlpTokenType::Fungible, SlpTokenType::Nft1Child, SlpTokenType::Nft1Group]);
    all(
        c,
        "slp transaction",
        txs.iter()
            .take(4)
            .map(|t| SlpTx {
                version: t.version,
                inputs: t.inputs.iter().enumerate().map(|(i, x)| SlpTxInput { index: i, token: tokens[i % 12], input: x.clone(), prev_script: scs[i % scs.len()].clone() }).collect(),
                outputs: t.outputs.iter().enumerate().map(|(i, x)| SlpTxOutput { token: tokens[(i + 5) % 12], output: x.clone() }).collect(),
                lock_time: t.lock_time,
                slp_data: if t.lock_time == 1 { None } else { Some(SlpData { token_id: TokenId::from_hash(Sha256d::new(hash_n(7))) }) },
                tx_hash: Sha256d::new(hash_n(8)),
            })
            .collect(),
    );
    let lens = pow2_lens();
    c.bound("byte arrays and scripts of 29 lengths of 1023..=70000 bytes, lists of up to 1000 hashes, outputs and tokens, in the same formats");
    c.range("large", lens.len() as u64 * 3, |i, ch| {
        let (n, k) = (lens[i as usize / 3], i % 3);
        match k {
            0 => round_trips(&ba(seq_bytes(n, 5)), ch),
            1 => round_trips(&Script::from_ops([op_min(&seq_bytes(n, 5)), op_code(0xa9), op_min(&seq_bytes(n % 300, 9))]), ch),
            _ if n > 4100 => Ok(()),
            _ => {
                let n = n.min(1000);
                round_trips(&(0..n).map(|k| Sha256d::new(hash_n(k))).collect::<Vec<_>>(), ch)?;
                round_trips(&(0..n).map(|k| TxOutput { value: U64S[k % U64S.len()].wrapping_add(k as u64), script: scs[k % scs.len()].clone() }).collect::<Vec<_>>(), ch)?;
                round_trips(&(0..n).map(|k| tokens[k % tokens.len()]).collect::<Vec<_>>(), ch)
            }
        }
    });
    // strings and sequences
    strings::<ByteArray>(c, "byte array", "00ff7a", "0aF", 300, is_hex);
    hex_fixed::<Sha1>(c, "sha1", 20);
    hex_fixed::<Ripemd160>(c, "ripemd160", 20);
    hex_fixed::<Sha256>(c, "sha256", 32);
    hex_fixed::<Sha256d>(c, "sha256d", 32);
    hex_fixed::<Hash160>(c, "hash160", 20);
    hex_fixed::<TokenId>(c, "token id", 32);
    hex_fixed::<Pubkey>(c, "pubkey", 33);
    hex_fixed::<FixedByteArrayBE<[u8; 4]>>(c, "fixed be 4", 4);
    hex_fixed::<FixedByteArrayLE<[u8; 4]>>(c, "fixed le 4", 4);
    let a = Address::from_hash("bitcoincash", AddressType::P2PKH, Hash160::from_slice(&f(20, 2)).unwrap()).cash_addr().to_string();
    strings::<Address>(c, "address", &a, "q", 120, |s| decode_addr(s, "bitcoincash").is_some());
    let b = Address::from_hash("bitcoincash", AddressType::P2SH, Hash160::from_slice(&f(20, 3)).unwrap()).cash_addr()[12..].to_string();
    strings::<Address>(c, "bare address", &b, "q", 120, |s| decode_addr(s, "bitcoincash").is_some());
    // scripts: every byte string of up to two bytes behind a length, every hex digit
    strings::<Script>(c, "script", "0676a902aabb88", "0aF", 40, |s| is_hex(s) && script_bytes_ok(&hex::decode(s).unwrap()));
    c.range("script bytes", 0x10000 * 3, |i, ch| {
        let (k, x) = (i / 0x10000, i % 0x10000);
        let body = [[x as u8, (x >> 8) as u8, 0], [0x01, x as u8, (x >> 8) as u8], [x as u8, (x >> 8) as u8, 0x51]][k as usize];
        let body = if k == 0 { &body[..2] } else { &body[..] };
        let mut b = vec![body.len() as u8];
        b.extend_from_slice(body);
        ch.op();
        ch.note(|| format!("script {}", hex::encode(&b)));
        let want = script_bytes_ok(&b);
        let r: Result<Script, String> = guarded("deserialize", || serde_json::from_value(hex::encode(&b).into()).map_err(|x| x.to_string()))?;
        let bin = bincode::serialize(&b).unwrap();
        let r2: Result<Script, String> = guarded("deserialize", || bincode::deserialize(&bin).map_err(|x| x.to_string()))?;
        ensure!(r.is_ok() == want && r2.is_ok() == want, "script {} readable {} binary {}, expected {}", hex::encode(&b), r.is_ok(), r2.is_ok(), want);
        ch.observe((x, want));
        Ok(())
    });
    // integers
    let bounds: Vec<i128> = (0..66).flat_map(|b| [(1i128 << b) - 1, 1 << b, (1 << b) + 1, -(1 << b) - 1, -(1 << b), -(1 << b) + 1]).collect();
    c.range("integer forms", bounds.len() as u64, |i, ch| {
        let x = bounds[i as usize];
        ch.note(|| format!("integer {}", x));
        let (want_i, want_u) = (x.abs() <= 0x7fffffff, x >= 0 && x <= 0x7fffffff);
        for o in ALL_OPTS {
            let n = Node::Int(x);
            ch.op();
            let a: Result<Integer, Er> = guarded("deserialize", || from_node(&n, o))?;
            let b: Result<UInteger, Er> = guarded("deserialize", || from_node(&n, o))?;
            ensure!(a.as_ref().ok().map(|a| a.value() as i128) == Some(x).filter(|_| want_i), "integer {} becomes {:?}", x, a);
            ensure!(b.as_ref().ok().map(|a| a.value() as i128) == Some(x).filter(|_| want_u), "unsigned integer {} becomes {:?}", x, b);
        }
        let a: Result<Integer, _> = serde_json::from_str(&x.to_string());
        let b: Result<UInteger, _> = serde_json::from_str(&x.to_string());
        ensure!(a.is_ok() == want_i && b.is_ok() == want_u, "json {}", x);
        if x >= i32::MIN as i128 && x <= i32::MAX as i128 {
            let bin = bincode::serialize(&(x as i32)).unwrap();
            let a: Result<Integer, _> = bincode::deserialize(&bin);
            let b: Result<UInteger, _> = bincode::deserialize(&bin);
            ensure!(a.is_ok() == want_i && b.is_ok() == want_u, "binary {}", x);
        }
        ch.observe(x);
        Ok(())
    });
    // binary addresses: every prefix character, prefixes of every length
    c.range("address prefixes", 3 * 131 + 40, |i, ch| {
        let p: String = if i < 393 {
            let (pos, x) = ((i / 131) as usize, (i % 131) as u32);
            let chr = match x {
                128 => '\u{e9}',
                129 => '\u{ff41}',
                130 => '\u{1f600}',
                x => char::from_u32(x).unwrap(),
            };
            let mut p: Vec<char> = "abc".chars().collect();
            p[pos] = chr;
            p.into_iter().collect()
        } else {
            "abcdefghijklmnopqrstuvwxyz".chars().cycle().take(i as usize - 393).collect()
        };
        let want = p.bytes().all(|b| b.is_ascii_lowercase());
        ch.note(|| format!("binary address with prefix {:?}", p));
        let hash: [u8; 20] = f(20, 2)[..].try_into().unwrap();
        for t in [AddressType::P2PKH, AddressType::P2SH] {
            ch.op();
            let bin = bincode::serialize(&(t, hash, Cow::Borrowed(p.as_str()))).unwrap();
            let r = guarded("deserialize", || bincode::deserialize::<Address>(&bin))?;
            ensure!(r.is_ok() == want, "binary address with prefix {:?} {}", p, if want { "rejected" } else { "accepted" });
            if let Ok(a) = r {
                a.valid()?;
                ensure!(bincode::serialize(&a).unwrap() == bin, "changed");
            }
        }
        ch.observe(&p);
        Ok(())
    });
}
