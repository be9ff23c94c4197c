//! C07: script number encodings; C08: script integer arithmetic.
use super::c05_script::ints;
use super::common::*;
use crate::engine::*;
use crate::refs::*;
use crate::{ensure, ensure_eq};
use bitcoin_cash::encoding_utils::*;
use bitcoin_cash::*;

const MAX: i128 = 0x7fffffff;

fn check_int(n: i64, ch: &mut Chooser) -> Res {
    let want = num(n);
    let e = encode_int(n as i32);
    ensure_eq!(e, want, "encode_int({})", n);
    ensure_eq!(vec_to_int(&e).map_err(|e| format!("vec_to_int of encode_int({}): {}", n, e))? as i64, n, "vec_to_int(encode_int({}))", n);
    let i = Integer::new(n).map_err(|e| format!("Integer::new({}): {}", n, e))?;
    ensure_eq!(i.value() as i64, n, "value of Integer::new({})", n);
    ensure_eq!(Op::PushInteger(i).to_integer().map(|x| x.value() as i64), Some(n), "to_integer of a push of {}", n);
    ch.op();
    // the pushed form means the same number
    let ser = serialize_op(&Op::PushInteger(i)).map_err(|e| e.to_string())?;
    let back = deserialize_ops(&ser).map_err(|e| e.to_string())?;
    ensure!(back.len() == 1, "{} is not pushed by one operation", n);
    ensure_eq!(back[0].to_integer().map(|x| x.value() as i64), Some(n), "number of the parsed push of {}", n);
    for w in 1..=9i64 {
        check_from_int(n, w)?;
    }
    ch.observe(n);
    Ok(())
}
fn check_from_int(n: i64, w: i64) -> Res {
    let r = guarded("ByteArray::from_int", || ByteArray::from_int(Integer::new(n).unwrap(), Integer::new(w).unwrap()))?;
    let limit: i128 = if w <= 0 { -1 } else if w >= 5 { MAX } else { (1i128 << (8 * w - 1)) - 1 };
    let fits = (n as i128).abs() <= limit;
    match r {
        Ok(b) => {
            ensure!(fits, "from_int({}, {}) gives {} though it does not fit", n, w, hexs(&b));
            ensure!(b.len() as i64 == w, "from_int({}, {}) has {} bytes", n, w, b.len());
            if w <= 16 {
                ensure_eq!(unnum(&b), Some(n as i128), "value of from_int({}, {}) = {}", n, w, hexs(&b));
                ensure_eq!(minimal_num(&b), num(n), "minimal form of from_int({}, {})", n, w);
            } else {
                // value bytes, zeroes, sign
                let mut m = b.to_vec();
                let sign = m.pop().unwrap();
                ensure!(sign == if n < 0 { 0x80 } else { 0 }, "from_int({}, {}) ends in {:02x}", n, w, sign);
                let v = m.iter().take(8).rev().fold(0u64, |a, x| a << 8 | *x as u64);
                ensure!(v == n.unsigned_abs() && m[8..].iter().all(|x| *x == 0), "from_int({}, {}) has another value", n, w);
            }
        }
        Err(e) => ensure!(!fits, "from_int({}, {}) failed: {}", n, w, e),
    }
    Ok(())
}
fn check_bytes(b: &[u8], ch: &mut Chooser) -> Res {
    let want = unnum(b).filter(|v| v.abs() <= MAX);
    let got = guarded("vec_to_int", || vec_to_int(b))?.ok().map(|x| x as i128);
    ensure_eq!(got, want, "vec_to_int({})", hexs(b));
    ch.op();
    if b.len() <= 4 {
        ensure!(got.is_some(), "vec_to_int({}) failed", hexs(b));
    }
    ensure_eq!(op_min(b).to_integer().map(|x| x.value() as i128), want, "to_integer of the pushed bytes {}", hexs(b));
    let mut m = b.to_vec();
    guarded("encode_minimally", || encode_minimally(&mut m))?;
    ensure_eq!(m, minimal_num(b), "encode_minimally({})", hexs(b));
    let mut m2 = m.clone();
    encode_minimally(&mut m2);
    ensure!(m2 == m, "encode_minimally is not idempotent on {}", hexs(b));
    if let Some(w) = want {
        ensure_eq!(encode_int(w as i32), m, "encode_int of the value of {}", hexs(b));
    }
    ch.op();
    ch.observe((m, want));
    Ok(())
}

pub fn c07(c: &Ctx) {
    let lim = if c.thorough { 1 << 23 } else { 1 << 18 };
    let iv = ints(lim, if c.thorough { 5000 } else { 300 });
    c.bound(format!("{} integers (all |n| <= {}, neighbourhoods of all powers of two and both ends) x widths 1..=9", iv.len(), lim));
    c.range("integers", iv.len() as u64, |i, ch| {
        let n = iv[i as usize];
        ch.note(|| n.to_string());
        check_int(n, ch)
    });
    let l = if c.thorough { 4 } else { 3 };
    c.bound(format!("every byte string of at most {} bytes", l));
    let n: u64 = (0..=l).map(|k| 1u64 << (8 * k)).sum();
    c.range("short strings", n, |i, ch| {
        let mut k = i;
        let mut len = 0;
        while k >= 1u64 << (8 * len) {
            k -= 1u64 << (8 * len);
            len += 1;
        }
        let b: Vec<u8> = (0..len).map(|j| (k >> (8 * j)) as u8).collect();
        ch.note(|| hexs(&b));
        check_bytes(&b, ch)
    });
    let alpha: &[u8] = if c.thorough { &[0, 1, 0x7f, 0x80, 0x81, 0xff] } else { &[0, 1, 0x7f, 0x80, 0xff] };
    let maxl = if c.thorough { 9 } else { 7 };
    c.bound(format!("every string of 4 to {} bytes over {:02x?}", maxl, alpha));
    c.tree("longer strings", |ch| {
        let l = 4 + ch.pick(maxl - 3);
        let b: Vec<u8> = (0..l).map(|_| *ch.of(alpha)).collect();
        ch.note(|| hexs(&b));
        check_bytes(&b, ch)
    });
    c.bound("every string of up to 40 (and 252..=520) bytes that is zero but for up to two bytes from 00 01 7f 80 81 ff at any positions");
    c.tree("padded strings", |ch| {
        let ls: Vec<usize> = (1..=40).chain([252, 253, 254, 255, 256, 519, 520]).collect();
        let l = *ch.of(&ls);
        let mut b = vec![0u8; l];
        let pos: Vec<usize> = if l <= 40 { (0..l).collect() } else { vec![0, 3, 4, l / 2, l - 2, l - 1] };
        let p = *ch.of(&pos);
        let q = *ch.of(&pos);
        b[p] = *ch.of(&[0u8, 1, 0x7f, 0x80, 0x81, 0xff]);
        b[q] = *ch.of(&[0u8, 1, 0x7f, 0x80, 0x81, 0xff]);
        ch.note(|| hexs(&b));
        check_bytes(&b, ch)
    });
    let vals = ints(3, 2);
    let mut ws: Vec<i64> = (-2..=40).collect();
    ws.extend([255, 256, 519, 520, 521, 65535, 65536, -0x7fffffff, -256]);
    if c.thorough {
        ws.extend([0xfff_ffff, 0x1000_0000, 0x1000_0001]);
    }
    c.bound(format!("from_int: {} values x {} widths (also of 2^28 bytes, where the number of bits passes 2^31)", vals.len(), ws.len()));
    c.tree("widths", |ch| {
        let w = *ch.of(&ws);
        let n = *ch.of(&vals);
        if w > 100_000 && ![0, 1, -1, 0x7fffffff].contains(&n) {
            return Ok(());
        }
        ch.note(|| format!("from_int({}, {})", n, w));
        ch.observe((n, w));
        check_from_int(n, w)
    });
    c.tree("huge width", |ch| {
        let w = *ch.of(&[0x1000_0000i64, 0x1000_0001]);
        let n = *ch.of(&[5i64]);
        ch.note(|| format!("from_int({}, {})", n, w));
        ch.observe((n, w));
        check_from_int(n, w)
    });
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Bin {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    And,
    Or,
    Xor,
}
const BINS: [Bin; 8] = [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div, Bin::Rem, Bin::And, Bin::Or, Bin::Xor];

fn in_range(v: i128) -> Option<i128> {
    Some(v).filter(|v| (-MAX..=MAX).contains(v))
}
/// Exact result on unbounded integers.
fn exact(op: Bin, a: Option<i128>, b: Option<i128>) -> Option<i128> {
    let (a, b) = (a?, b?);
    in_range(match op {
        Bin::Add => a + b,
        Bin::Sub => a - b,
        Bin::Mul => a * b,
        Bin::Div | Bin::Rem => {
            if b == 0 {
                return None;
            }
            let q = a.abs() / b.abs() * if (a < 0) != (b < 0) { -1 } else { 1 };
            if op == Bin::Div {
                q
            } else {
                a - q * b
            }
        }
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
    })
}
fn judge(what: impl Fn() -> String, r: IntegerResult, want: Option<i128>) -> Res {
    let got = r.value().ok().map(|x| x as i128);
    if got != want {
        return Err(format!("{}: got {:?}, expected {:?}", what(), got, want).into());
    }
    let gi = r.integer().ok().map(|x| x.value() as i128);
    if gi != want {
        return Err(format!("{}: integer() is {:?}, expected {:?}", what(), gi, want).into());
    }
    Ok(())
}

macro_rules! ops_on {
    ($l:expr, $lv:expr, $r:expr, $rv:expr) => {{
        let (l, lv, rv): (_, Option<i128>, Option<i128>) = ($l, $lv, $rv);
        for op in BINS {
            let res: IntegerResult = match op {
                Bin::Add => l + $r,
                Bin::Sub => l - $r,
                Bin::Mul => l * $r,
                Bin::Div => l / $r,
                Bin::Rem => l % $r,
                Bin::And => l & $r,
                Bin::Or => l | $r,
                Bin::Xor => l ^ $r,
            };
            judge(|| format!("{} {:?} {} ({})", stringify!($l), op, stringify!($r), format!("{:?} and {:?}", lv, rv)), res, exact(op, lv, rv))?;
        }
    }};
}
macro_rules! cmp_on {
    ($l:expr, $lv:expr, $r:expr, $rv:expr) => {{
        let (lv, rv): (Option<i128>, Option<i128>) = ($lv, $rv);
        let both = lv.is_some() && rv.is_some();
        let got = [$l == $r, $l != $r, $l < $r, $l <= $r, $l > $r, $l >= $r];
        let want = [both && lv == rv, !(both && lv == rv), both && lv < rv, both && lv <= rv, both && lv > rv, both && lv >= rv];
        if got != want {
            return Err(format!("comparing {} with {} ({:?} and {:?}): == != < <= > >= give {:?}", stringify!($l), stringify!($r), lv, rv, got).into());
        }
    }};
}
macro_rules! typed {
    ($a:expr, $av:expr, $b:expr, $($t:ident)*) => { $(
        if let Ok($t) = $t::try_from($b) {
            let bv = in_range($b);
            if let Ok(int) = Integer::new($a) {
                ops_on!(int, $av, $t, bv);
            }
            let res = IntegerResult::new($a);
            ops_on!(res, $av, $t, bv);
            cmp_on!(res, $av, $t, bv);
            judge(|| format!("IntegerResult::from({} {})", $b, stringify!($t)), IntegerResult::from($t), bv)?;
            judge(|| format!("IntegerResult::new({} {})", $b, stringify!($t)), IntegerResult::new($t), bv)?;
            let n = Integer::new($t).ok().map(|x| x.value() as i128);
            if n != bv { return Err(format!("Integer::new({} {}) = {:?}", $b, stringify!($t), n).into()); }
            let n = Integer::try_from($t).ok().map(|x| x.value() as i128);
            if n != bv { return Err(format!("Integer::try_from({} {}) = {:?}", $b, stringify!($t), n).into()); }
            let n = UInteger::new($t).ok().map(|x| x.value() as i128);
            if n != bv.filter(|v| *v >= 0) { return Err(format!("UInteger::new({} {}) = {:?}", $b, stringify!($t), n).into()); }
        }
    )* };
}

#[allow(clippy::eq_op)]
fn check_pair(a: i128, b: i128) -> Res {
    let av = in_range(a);
    let bv = in_range(b);
    typed!(a, av, b, i8 u8 i16 u16 i32 u32 i64 u64 isize usize i128 u128);
    let ra = IntegerResult::new(a);
    let rb = IntegerResult::new(b);
    ops_on!(ra, av, rb, bv);
    cmp_on!(ra, av, rb, bv);
    if let Ok(ib) = Integer::new(b) {
        ops_on!(ra, av, ib, bv);
        cmp_on!(ra, av, ib, bv);
        if let Ok(ia) = Integer::new(a) {
            ops_on!(ia, av, ib, bv);
            cmp_on!(ia, av, ib, bv);
            ensure!(ia.cmp(&ib) == a.cmp(&b), "Integer::cmp({}, {}) = {:?}", a, b, ia.cmp(&ib));
            macro_rules! small { ($($t:ident)*) => { $( if let Ok(x) = $t::try_from(b) { cmp_on!(ia, av, x, bv); } )* } }
            small!(i8 u8 i16 u16);
        }
    }
    if let Ok(ia) = Integer::new(a) {
        ops_on!(ia, av, rb, bv);
    }
    Ok(())
}
fn check_unary(a: i128) -> Res {
    let av = in_range(a);
    let r = IntegerResult::new(a);
    judge(|| format!("new({})", a), r, av)?;
    judge(|| format!("-{}", a), -r, av.map(|x| -x))?;
    let i32v = i32::try_from(r).ok().map(|x| x as i128);
    ensure_eq!(i32v, av, "i32 from IntegerResult {}", a);
    if let Ok(i) = Integer::new(a) {
        ensure_eq!(-((-i).value() as i128), a, "-Integer({})", a);
        ensure_eq!(*i as i128, a, "*Integer({})", a);
        ensure_eq!(i32::from(i) as i128, a, "i32::from(Integer({}))", a);
        ensure_eq!(i.to_string(), a.to_string(), "display");
        judge(|| format!("IntegerResult::from(Integer {})", a), IntegerResult::from(i), av)?;
    }
    if let Ok(u) = UInteger::new(a) {
        ensure!(a >= 0 && u.value() as i128 == a && u.integer().value() as i128 == a, "UInteger::new({}) = {}", a, u.value());
    }
    for s in (0..=70u32).chain([127, 128, 255, 256, 1 << 31, (1 << 31) + 1, u32::MAX]) {
        let want = av.filter(|_| s < 32).map(|x| x >> s);
        judge(|| format!("{} >> {}", a, s), r >> s, want)?;
        if let Ok(i) = Integer::new(a) {
            judge(|| format!("Integer {} >> {}", a, s), i >> s, want)?;
        }
        // left shifts drop the bits shifted out of 32-bit two's complement
        let want = av.filter(|_| s < 32).map(|x| ((x << s) as u32 as i32) as i128).and_then(in_range);
        judge(|| format!("{} << {}", a, s), r << s, want)?;
        if let Ok(i) = Integer::new(a) {
            judge(|| format!("Integer {} << {}", a, s), i << s, want)?;
        }
    }
    ensure!(r.to_string() == a.to_string() || av.is_none(), "IntegerResult {} prints as {}", a, r);
    ensure!(Integer::default().value() == 0 && IntegerResult::default().value() == Ok(0) && Integer::ZERO.value() == 0 && UInteger::ZERO.value() == 0, "zero");
    // a failed value equals nothing, not even itself
    cmp_on!(r, av, r, av);
    Ok(())
}
fn boundary(thorough: bool) -> Vec<i128> {
    let mut v: Vec<i128> = vec![0, 3, 7, 10, 255, 256, 46340, 46341, 46342, 0x5555_5555, 0x2aaa_aaaa, 715_827_882, 715_827_883];
    for k in 0..32 {
        for d in if thorough { -3..=3 } else { -1..=1 } {
            v.push((1 << k) + d);
        }
    }
    v.extend([MAX - 2, MAX + 3, 1 << 32, (1 << 32) - 1, (1 << 32) + 1, (1 << 32) + MAX, 1 << 62, (1 << 63) - 1, 1 << 63, u64::MAX as i128, 1 << 64, (1 << 64) + 5]);
    let neg: Vec<i128> = v.iter().map(|x| -x).collect();
    v.extend(neg);
    v.sort();
    v.dedup();
    v
}

pub fn c08(c: &Ctx) {
    let bs = boundary(c.thorough);
    let n = bs.len() as u64;
    let mut un = bs.clone();
    un.extend([i128::MAX, i128::MIN, i128::MIN + 1, i64::MIN as i128, i64::MIN as i128 - 1]);
    un.extend(ints(if c.thorough { 100_000 } else { 5000 }, 50).into_iter().map(|x| x as i128));
    c.bound(format!("{} values: construction, negation, right shifts by 0..=70 and extremes (a shift by 32 or more is an error)", un.len()));
    c.range("unary", un.len() as u64, |i, ch| {
        let a = un[i as usize];
        ch.note(|| a.to_string());
        ch.observe(a);
        check_unary(a)
    });
    c.bound(format!("all pairs of {} boundary values (all powers of two and neighbours, square-root and 64/128-bit ends) x 8 operations x 6 comparisons x 14 operand types", n));
    c.range("boundary pairs", n * n, |i, ch| {
        let (a, b) = (bs[(i / n) as usize], bs[(i % n) as usize]);
        ch.note(|| format!("{} and {}", a, b));
        ch.observe((a, b));
        ch.ops += 200;
        check_pair(a, b)
    });
    c.range("extreme operands", n * 6, |i, ch| {
        let a = bs[(i / 6) as usize];
        let b = [i128::MAX, i128::MIN, i64::MIN as i128, i64::MAX as i128 + 1, u64::MAX as i128 + 1, i128::MIN + 1][(i % 6) as usize];
        ch.note(|| format!("{} and {}", a, b));
        ch.observe((a, b));
        if in_range(a).is_some() {
            check_pair(a, b)?;
        }
        // u128 values beyond i128
        let r = IntegerResult::new(u128::MAX);
        judge(|| "u128::MAX".into(), r, None)?;
        judge(|| "u128::MAX + 1".into(), r + 1, None)
    });
    let s: i128 = if c.thorough { 4000 } else { 500 };
    let w = (2 * s + 1) as u64;
    c.bound(format!("all pairs of integers of magnitude at most {}", s));
    c.range("small pairs", w * w, |i, ch| {
        let (a, b) = ((i / w) as i128 - s, (i % w) as i128 - s);
        ch.note(|| format!("{} and {}", a, b));
        ch.observe((a, b));
        ch.ops += 200;
        check_pair(a, b)
    });
    // chains of operations, in lockstep with unbounded integers that fail once and for all
    let ops: Vec<i128> = vec![0, 1, -1, 2, -3, 46341, -65536, MAX, -MAX, MAX + 1];
    let depth = if c.thorough { 7 } else { 5 };
    c.bound(format!("all chains of up to {} operations (binary with operands {:?}, negation, right shift) from those values", depth, ops));
    let nops = BINS.len() * ops.len() + 3;
    c.bfs("chains", depth + 1, |h, ch| {
        if h.is_empty() {
            return Ok((vec![], ops.len()));
        }
        let a = ops[h[0] as usize];
        let mut r = IntegerResult::new(a);
        let mut m = in_range(a);
        let mut desc = format!("{}", a);
        for k in &h[1..] {
            let k = *k as usize;
            let was = m;
            if k < BINS.len() * ops.len() {
                let op = BINS[k % BINS.len()];
                let b = ops[k / BINS.len()];
                desc += &format!(" {:?} {}", op, b);
                let rb = IntegerResult::new(b);
                r = match op {
                    Bin::Add => r + rb,
                    Bin::Sub => r - rb,
                    Bin::Mul => r * rb,
                    Bin::Div => r / rb,
                    Bin::Rem => r % rb,
                    Bin::And => r & rb,
                    Bin::Or => r | rb,
                    Bin::Xor => r ^ rb,
                };
                m = exact(op, m, in_range(b));
            } else {
                let s = [0, 1, 31][k - BINS.len() * ops.len()];
                if s == 0 {
                    desc += " neg";
                    r = -r;
                    m = m.map(|x| -x);
                } else {
                    desc += &format!(" >> {}", s);
                    r = r >> s;
                    m = m.map(|x| x >> s);
                }
            }
            ensure!(was.is_some() || m.is_none(), "ENGINE: model recovered from an error");
            ch.op();
        }
        let d2 = desc.clone();
        ch.note(|| d2);
        judge(|| desc.clone(), r, m)?;
        if m.is_none() {
            for x in [0i32, 1, -1, i32::MAX] {
                ensure!(!(r == x) && !(r < x) && !(r > x) && !(r <= x) && !(r >= x), "the failed {} compares with {}", desc, x);
            }
            ensure!(!(r == r), "the failed {} equals itself", desc);
        }
        let key = format!("{:?}", m).into_bytes();
        Ok((key, if m.is_none() && h.len() > 3 { 0 } else { nops }))
    });
}
