//! Reference script interpreter: Bitcoin Cash consensus (plus the standardness rules a wallet must
//! follow) as of the May 2020 upgrade, the rule set the repository's opcode table describes.
use crate::refs::*;

pub type E = &'static str;
pub trait Checker {
    /// `code`: the part of the script after the last executed OP_CODESEPARATOR.
    fn sig(&mut self, sig: &[u8], pk: &[u8], code: &[u8]) -> Result<bool, E>;
    fn data_sig(&mut self, sig: &[u8], msg: &[u8], pk: &[u8]) -> Result<bool, E>;
    fn lock_time(&mut self, n: i128) -> bool;
    fn sequence(&mut self, n: i128) -> bool;
}
/// Accepts exactly the signature `good`.
pub struct Stub {
    pub good: Vec<u8>,
    pub locks: bool,
}
impl Checker for Stub {
    fn sig(&mut self, sig: &[u8], _: &[u8], _: &[u8]) -> Result<bool, E> {
        Ok(sig == &self.good[..])
    }
    fn data_sig(&mut self, sig: &[u8], _: &[u8], _: &[u8]) -> Result<bool, E> {
        Ok(sig == &self.good[..])
    }
    fn lock_time(&mut self, _: i128) -> bool {
        self.locks
    }
    fn sequence(&mut self, _: i128) -> bool {
        self.locks
    }
}
pub type Item = Vec<u8>;

pub fn truth(b: &[u8]) -> bool {
    b.iter().enumerate().any(|(i, x)| *x != 0 && !(i == b.len() - 1 && *x == 0x80))
}
fn number(b: &[u8], max: usize) -> Result<i128, E> {
    if b.len() > max {
        return Err("number too long");
    }
    if minimal_num(b) != b {
        return Err("number not minimal");
    }
    Ok(unnum(b).unwrap())
}
fn boolean(b: bool) -> Item {
    if b { vec![1] } else { vec![] }
}

pub const DISABLED: [u8; 6] = [0x83, 0x8d, 0x8e, 0x95, 0x98, 0x99];
pub const RESERVED: [u8; 6] = [0x50, 0x62, 0x65, 0x66, 0x89, 0x8a];

/// Runs a script on the given stacks.
pub fn exec(script: &[u8], st: &mut Vec<Item>, alt: &mut Vec<Item>, chk: &mut dyn Checker) -> Result<(), E> {
    if script.len() > 10_000 {
        return Err("script too long");
    }
    let toks = parse_tokens(script).ok_or("push cut short")?;
    let mut conds: Vec<bool> = vec![];
    let mut code_from = 0usize;
    let mut count = 0;
    for t in toks {
        let run = conds.iter().all(|c| *c);
        if t.data.as_ref().map_or(false, |d| d.len() > 520) {
            return Err("push too long");
        }
        if t.code > 0x60 {
            count += 1;
            if count > 201 {
                return Err("too many opcodes");
            }
        }
        if DISABLED.contains(&t.code) {
            return Err("disabled opcode");
        }
        if t.code <= 0x4e {
            if run {
                let d = t.data.clone().unwrap();
                if push_minimal(&d) != script[t.start..t.end] {
                    return Err("push not minimal");
                }
                st.push(d);
            }
            continue;
        }
        if !run && !(0x63..=0x68).contains(&t.code) {
            continue;
        }
        op(t.code, t.end, script, run, st, alt, &mut conds, &mut code_from, chk)?;
        if st.len() + alt.len() > 1000 {
            return Err("stack size");
        }
    }
    if !conds.is_empty() {
        return Err("unbalanced conditional");
    }
    Ok(())
}

pub struct Tok {
    pub code: u8,
    pub data: Option<Vec<u8>>,
    pub start: usize,
    pub end: usize,
}
pub fn parse_tokens(s: &[u8]) -> Option<Vec<Tok>> {
    let (mut i, mut v) = (0, vec![]);
    while i < s.len() {
        let start = i;
        let code = s[i];
        i += 1;
        let n = match code {
            0..=0x4b => Some(code as usize),
            0x4c => {
                i += 1;
                Some(*s.get(i - 1)? as usize)
            }
            0x4d => {
                i += 2;
                Some(u16::from_le_bytes(s.get(i - 2..i)?.try_into().unwrap()) as usize)
            }
            0x4e => {
                i += 4;
                Some(u32::from_le_bytes(s.get(i - 4..i)?.try_into().unwrap()) as usize)
            }
            _ => None,
        };
        let data = match n {
            Some(n) => {
                let d = s.get(i..i.checked_add(n)?)?.to_vec();
                i += n;
                Some(d)
            }
            None => None,
        };
        v.push(Tok { code, data, start, end: i });
    }
    Some(v)
}

fn pop(st: &mut Vec<Item>) -> Result<Item, E> {
    st.pop().ok_or("stack underflow")
}
fn need(st: &[Item], n: usize) -> Result<(), E> {
    if st.len() < n { Err("stack underflow") } else { Ok(()) }
}

#[allow(clippy::too_many_arguments)]
fn op(code: u8, end: usize, script: &[u8], run: bool, st: &mut Vec<Item>, alt: &mut Vec<Item>, conds: &mut Vec<bool>, code_from: &mut usize, chk: &mut dyn Checker) -> Result<(), E> {
    let l = st.len();
    match code {
        0x4f => st.push(vec![0x81]),
        0x51..=0x60 => st.push(vec![code - 0x50]),
        0x61 | 0xb0 | 0xb3..=0xb9 => {}
        0x63 | 0x64 => {
            let mut v = false;
            if run {
                let a = pop(st)?;
                if a.len() > 1 || (a.len() == 1 && a[0] != 1) {
                    return Err("minimal if");
                }
                v = truth(&a) == (code == 0x63);
            }
            conds.push(v);
        }
        0x67 => {
            let c = conds.last_mut().ok_or("unbalanced conditional")?;
            *c = !*c;
        }
        0x68 => {
            conds.pop().ok_or("unbalanced conditional")?;
        }
        0x69 => {
            if !truth(&pop(st)?) {
                return Err("verify");
            }
        }
        0x6a => return Err("return"),
        0x6b => alt.push(pop(st)?),
        0x6c => st.push(alt.pop().ok_or("alt stack underflow")?),
        0x6d => {
            need(st, 2)?;
            st.truncate(l - 2);
        }
        0x6e => {
            need(st, 2)?;
            st.extend_from_within(l - 2..);
        }
        0x6f => {
            need(st, 3)?;
            st.extend_from_within(l - 3..);
        }
        0x70 => {
            need(st, 4)?;
            st.extend_from_within(l - 4..l - 2);
        }
        0x71 => {
            need(st, 6)?;
            st[l - 6..].rotate_left(2);
        }
        0x72 => {
            need(st, 4)?;
            st[l - 4..].rotate_left(2);
        }
        0x73 => {
            need(st, 1)?;
            if truth(&st[l - 1]) {
                st.extend_from_within(l - 1..);
            }
        }
        0x74 => st.push(num(l as i64)),
        0x75 => {
            pop(st)?;
        }
        0x76 => {
            need(st, 1)?;
            st.extend_from_within(l - 1..);
        }
        0x77 => {
            need(st, 2)?;
            st.remove(l - 2);
        }
        0x78 => {
            need(st, 2)?;
            st.extend_from_within(l - 2..l - 1);
        }
        0x79 | 0x7a => {
            need(st, 2)?;
            let n = number(&pop(st)?, 4)?;
            let l = st.len();
            if n < 0 || n >= l as i128 {
                return Err("stack underflow");
            }
            let i = l - 1 - n as usize;
            let it = if code == 0x7a { st.remove(i) } else { st[i].clone() };
            st.push(it);
        }
        0x7b => {
            need(st, 3)?;
            st[l - 3..].rotate_left(1);
        }
        0x7c => {
            need(st, 2)?;
            st.swap(l - 1, l - 2);
        }
        0x7d => {
            need(st, 2)?;
            let t = st[l - 1].clone();
            st.insert(l - 2, t);
        }
        0x7e => {
            need(st, 2)?;
            let b = pop(st)?;
            let mut a = pop(st)?;
            a.extend(b);
            if a.len() > 520 {
                return Err("push too long");
            }
            st.push(a);
        }
        0x7f => {
            need(st, 2)?;
            let n = number(&pop(st)?, 4)?;
            let a = pop(st)?;
            if n < 0 || n > a.len() as i128 {
                return Err("split range");
            }
            st.push(a[..n as usize].to_vec());
            st.push(a[n as usize..].to_vec());
        }
        0x80 => {
            need(st, 2)?;
            let n = number(&pop(st)?, 4)?;
            if !(0..=520).contains(&n) {
                return Err("push too long");
            }
            let n = n as usize;
            let mut a = minimal_num(&pop(st)?);
            if a.len() > n {
                return Err("impossible encoding");
            }
            if a.len() < n {
                let mut sign = 0;
                if let Some(x) = a.last_mut() {
                    sign = *x & 0x80;
                    *x &= 0x7f;
                }
                a.resize(n, 0);
                a[n - 1] |= sign;
            }
            st.push(a);
        }
        0x81 => {
            let a = minimal_num(&pop(st)?);
            if a.len() > 4 {
                return Err("number too long");
            }
            st.push(a);
        }
        0x82 => {
            need(st, 1)?;
            let n = st[l - 1].len();
            st.push(num(n as i64));
        }
        0x84..=0x86 => {
            need(st, 2)?;
            let b = pop(st)?;
            let a = pop(st)?;
            if a.len() != b.len() {
                return Err("operand size");
            }
            st.push(
                a.iter()
                    .zip(&b)
                    .map(|(a, b)| match code {
                        0x84 => a & b,
                        0x85 => a | b,
                        _ => a ^ b,
                    })
                    .collect(),
            );
        }
        0x87 | 0x88 => {
            need(st, 2)?;
            let b = pop(st)?;
            let a = pop(st)?;
            if code == 0x87 {
                st.push(boolean(a == b));
            } else if a != b {
                return Err("equalverify");
            }
        }
        0x8b | 0x8c | 0x8f..=0x92 => {
            let a = number(&pop(st)?, 4)?;
            st.push(num(match code {
                0x8b => a + 1,
                0x8c => a - 1,
                0x8f => -a,
                0x90 => a.abs(),
                0x91 => (a == 0) as i128,
                _ => (a != 0) as i128,
            } as i64));
        }
        0x93 | 0x94 | 0x96 | 0x97 | 0x9a..=0xa4 => {
            need(st, 2)?;
            let b = number(&pop(st)?, 4)?;
            let a = number(&pop(st)?, 4)?;
            if (code == 0x96 || code == 0x97) && b == 0 {
                return Err("division by zero");
            }
            let r = match code {
                0x93 => a + b,
                0x94 => a - b,
                0x96 => a / b,
                0x97 => a % b,
                0x9a => (a != 0 && b != 0) as i128,
                0x9b => (a != 0 || b != 0) as i128,
                0x9c | 0x9d => (a == b) as i128,
                0x9e => (a != b) as i128,
                0x9f => (a < b) as i128,
                0xa0 => (a > b) as i128,
                0xa1 => (a <= b) as i128,
                0xa2 => (a >= b) as i128,
                0xa3 => a.min(b),
                _ => a.max(b),
            };
            if code != 0x9d {
                st.push(num(r as i64));
            } else if r == 0 {
                return Err("numequalverify");
            }
        }
        0xa5 => {
            need(st, 3)?;
            let c = number(&pop(st)?, 4)?;
            let b = number(&pop(st)?, 4)?;
            let a = number(&pop(st)?, 4)?;
            st.push(boolean(b <= a && a < c));
        }
        0xa6..=0xaa => {
            let a = pop(st)?;
            st.push(match code {
                0xa6 => ripemd(&a).to_vec(),
                0xa7 => sha1(&a).to_vec(),
                0xa8 => sha256(&a).to_vec(),
                0xa9 => hash160(&a).to_vec(),
                _ => sha256d(&a).to_vec(),
            });
        }
        0xab => *code_from = end,
        0xac | 0xad => {
            need(st, 2)?;
            let pk = pop(st)?;
            let sig = pop(st)?;
            let ok = chk.sig(&sig, &pk, &script[*code_from..])?;
            if !ok && !sig.is_empty() {
                return Err("null fail");
            }
            if code == 0xac {
                st.push(boolean(ok));
            } else if !ok {
                return Err("checksigverify");
            }
        }
        0xae | 0xaf => {
            let n = number(&pop(st)?, 4)?;
            if !(0..=20).contains(&n) {
                return Err("pubkey count");
            }
            let mut pks = vec![];
            for _ in 0..n {
                pks.push(pop(st)?);
            }
            let m = number(&pop(st)?, 4)?;
            if !(0..=n).contains(&m) {
                return Err("sig count");
            }
            let mut sigs = vec![];
            for _ in 0..m {
                sigs.push(pop(st)?);
            }
            if !pop(st)?.is_empty() {
                return Err("null dummy");
            }
            let (mut i, mut ok) = (0, true);
            for s in &sigs {
                loop {
                    if i == pks.len() {
                        ok = false;
                        break;
                    }
                    i += 1;
                    if chk.sig(s, &pks[i - 1], &script[*code_from..])? {
                        break;
                    }
                }
            }
            if !ok && sigs.iter().any(|s| !s.is_empty()) {
                return Err("null fail");
            }
            if code == 0xae {
                st.push(boolean(ok));
            } else if !ok {
                return Err("checkmultisigverify");
            }
        }
        0xb1 | 0xb2 => {
            need(st, 1)?;
            let n = number(&st[l - 1], 5)?;
            if n < 0 || !(if code == 0xb1 { chk.lock_time(n) } else { chk.sequence(n) }) {
                return Err("lock time");
            }
        }
        0xba | 0xbb => {
            need(st, 3)?;
            let pk = pop(st)?;
            let msg = pop(st)?;
            let sig = pop(st)?;
            let ok = chk.data_sig(&sig, &msg, &pk)?;
            if !ok && !sig.is_empty() {
                return Err("null fail");
            }
            if code == 0xba {
                st.push(boolean(ok));
            } else if !ok {
                return Err("checkdatasigverify");
            }
        }
        0xbc => {
            let mut a = pop(st)?;
            a.reverse();
            st.push(a);
        }
        0x65 | 0x66 => return Err("bad opcode"),
        _ => return Err("bad opcode"),
    }
    Ok(())
}
