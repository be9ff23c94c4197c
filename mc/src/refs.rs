//! Reference models, written independently of the code under test (only the hash primitives are
//! shared with it, as trusted libraries).

use sha2::Digest;

pub fn sha256(b: &[u8]) -> Vec<u8> {
    sha2::Sha256::digest(b).to_vec()
}
pub fn sha256d(b: &[u8]) -> Vec<u8> {
    sha256(&sha256(b))
}
pub fn ripemd(b: &[u8]) -> Vec<u8> {
    ripemd160::Ripemd160::digest(b).to_vec()
}
pub fn hash160(b: &[u8]) -> Vec<u8> {
    ripemd(&sha256(b))
}
pub fn sha1(b: &[u8]) -> Vec<u8> {
    sha1::Sha1::digest(b).to_vec()
}

pub fn compact(n: u64) -> Vec<u8> {
    if n < 253 {
        vec![n as u8]
    } else if n < 1 << 16 {
        [&[253u8][..], &(n as u16).to_le_bytes()[..]].concat()
    } else if n < 1 << 32 {
        [&[254u8][..], &(n as u32).to_le_bytes()[..]].concat()
    } else {
        [&[255u8][..], &n.to_le_bytes()[..]].concat()
    }
}
/// Reads any (also non canonical) compact size: (value, bytes used).
pub fn read_compact(b: &[u8]) -> Option<(u64, usize)> {
    let f = *b.first()?;
    let n = match f {
        253 => 2,
        254 => 4,
        255 => 8,
        x => return Some((x as u64, 1)),
    };
    let s = b.get(1..1 + n)?;
    let mut v = 0u64;
    for (i, x) in s.iter().enumerate() {
        v |= (*x as u64) << (8 * i);
    }
    Some((v, 1 + n))
}
pub fn is_canonical_compact(b: &[u8]) -> bool {
    match read_compact(b) {
        Some((v, n)) => compact(v).len() == n,
        None => false,
    }
}
pub fn var_bytes(b: &[u8]) -> Vec<u8> {
    let mut v = compact(b.len() as u64);
    v.extend_from_slice(b);
    v
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RIn {
    pub hash: [u8; 32],
    pub vout: u32,
    pub script: Vec<u8>,
    pub seq: u32,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ROut {
    pub value: u64,
    pub script: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RTx {
    pub version: i32,
    pub ins: Vec<RIn>,
    pub outs: Vec<ROut>,
    pub lock: u32,
}
impl ROut {
    pub fn ser(&self) -> Vec<u8> {
        let mut v = self.value.to_le_bytes().to_vec();
        v.extend(var_bytes(&self.script));
        v
    }
}
impl RIn {
    pub fn outpoint(&self) -> Vec<u8> {
        let mut v = self.hash.to_vec();
        v.extend_from_slice(&self.vout.to_le_bytes());
        v
    }
    pub fn ser(&self) -> Vec<u8> {
        let mut v = self.outpoint();
        v.extend(var_bytes(&self.script));
        v.extend_from_slice(&self.seq.to_le_bytes());
        v
    }
}
impl RTx {
    pub fn ser(&self) -> Vec<u8> {
        let mut v = self.version.to_le_bytes().to_vec();
        v.extend(compact(self.ins.len() as u64));
        for i in &self.ins {
            v.extend(i.ser());
        }
        v.extend(compact(self.outs.len() as u64));
        for o in &self.outs {
            v.extend(o.ser());
        }
        v.extend_from_slice(&self.lock.to_le_bytes());
        v
    }
    /// Signature hash preimage as specified for Bitcoin Cash (BIP143 digest algorithm, fork id).
    pub fn preimage(&self, idx: usize, script_code: &[u8], value: u64, flags: u32) -> Vec<u8> {
        let base = flags & 0x1f;
        let anyone = flags & 0x80 != 0;
        let mut v = self.version.to_le_bytes().to_vec();
        if anyone {
            v.extend([0u8; 32]);
        } else {
            v.extend(sha256d(&self.ins.iter().flat_map(|i| i.outpoint()).collect::<Vec<_>>()));
        }
        if anyone || base == 2 || base == 3 {
            v.extend([0u8; 32]);
        } else {
            v.extend(sha256d(&self.ins.iter().flat_map(|i| i.seq.to_le_bytes()).collect::<Vec<_>>()));
        }
        v.extend(self.ins[idx].outpoint());
        v.extend(var_bytes(script_code));
        v.extend_from_slice(&value.to_le_bytes());
        v.extend_from_slice(&self.ins[idx].seq.to_le_bytes());
        if base != 2 && base != 3 {
            v.extend(sha256d(&self.outs.iter().flat_map(|o| o.ser()).collect::<Vec<_>>()));
        } else if base == 3 && idx < self.outs.len() {
            v.extend(sha256d(&self.outs[idx].ser()));
        } else {
            v.extend([0u8; 32]);
        }
        v.extend_from_slice(&self.lock.to_le_bytes());
        v.extend_from_slice(&flags.to_le_bytes());
        v
    }
}

// ---------------------------------------------------------------- scripts

/// One parsed script element: opcode byte, and the data if it is a push with data.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RTok {
    pub code: u8,
    pub data: Option<Vec<u8>>,
}
pub fn parse_script(b: &[u8]) -> Option<Vec<RTok>> {
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let code = b[i];
        i += 1;
        let (ll, n) = match code {
            1..=75 => (0, code as usize),
            76 => (1, *b.get(i)? as usize),
            77 => (2, u16::from_le_bytes(b.get(i..i + 2)?.try_into().unwrap()) as usize),
            78 => (4, u32::from_le_bytes(b.get(i..i + 4)?.try_into().unwrap()) as usize),
            _ => {
                out.push(RTok { code, data: None });
                continue;
            }
        };
        i += ll;
        let d = b.get(i..i.checked_add(n)?)?;
        i += n;
        out.push(RTok { code, data: Some(d.to_vec()) });
    }
    Some(out)
}
/// Plain (length prefixed) push, shortest prefix.
pub fn push_plain(d: &[u8]) -> Vec<u8> {
    let n = d.len();
    let mut v = if n == 0 {
        vec![0x4c, 0]
    } else if n <= 75 {
        vec![n as u8]
    } else if n <= 255 {
        vec![0x4c, n as u8]
    } else if n <= 65535 {
        vec![0x4d, n as u8, (n >> 8) as u8]
    } else {
        let l = (n as u32).to_le_bytes();
        vec![0x4e, l[0], l[1], l[2], l[3]]
    };
    v.extend_from_slice(d);
    v
}
/// The unique push form consensus MINIMALDATA demands.
pub fn push_minimal(d: &[u8]) -> Vec<u8> {
    match d {
        [] => vec![0],
        [x @ 1..=16] => vec![0x50 + x],
        [0x81] => vec![0x4f],
        _ => push_plain(d),
    }
}
/// Number encoding of CScriptNum.
pub fn num(n: i64) -> Vec<u8> {
    let neg = n < 0;
    let mut a = n.unsigned_abs();
    let mut v = vec![];
    while a > 0 {
        v.push((a & 0xff) as u8);
        a >>= 8;
    }
    if let Some(l) = v.last().copied() {
        if l & 0x80 != 0 {
            v.push(if neg { 0x80 } else { 0 });
        } else if neg {
            *v.last_mut().unwrap() |= 0x80;
        }
    }
    v
}
/// Value denoted by a little endian sign-magnitude byte string; None if beyond i128.
pub fn unnum(b: &[u8]) -> Option<i128> {
    let mut v: i128 = 0;
    for (i, x) in b.iter().enumerate() {
        let x = if i == b.len() - 1 { x & 0x7f } else { *x };
        if x != 0 {
            if i >= 15 {
                return None;
            }
            v |= (x as i128) << (8 * i);
        }
    }
    if b.last().map_or(false, |l| l & 0x80 != 0) {
        v = -v;
    }
    Some(v)
}
/// Strips a number encoding to its minimal form (textbook definition).
pub fn minimal_num(b: &[u8]) -> Vec<u8> {
    if b.is_empty() {
        return vec![];
    }
    let sign = b[b.len() - 1] & 0x80;
    let mut mag = b.to_vec();
    *mag.last_mut().unwrap() &= 0x7f;
    while mag.last() == Some(&0) {
        mag.pop();
    }
    if mag.is_empty() {
        return vec![];
    }
    if mag[mag.len() - 1] & 0x80 != 0 {
        mag.push(sign);
    } else {
        *mag.last_mut().unwrap() |= sign;
    }
    mag
}

// ---------------------------------------------------------------- cash addresses

pub const CHARSET: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
pub fn polymod(v: &[u8]) -> u64 {
    let g = [0x98f2bc8e61u64, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470];
    let mut c: u64 = 1;
    for d in v {
        let c0 = c >> 35;
        c = ((c & 0x07ffffffff) << 5) ^ (*d as u64);
        for (i, x) in g.iter().enumerate() {
            if c0 >> i & 1 == 1 {
                c ^= x;
            }
        }
    }
    c ^ 1
}
pub fn prefix5(prefix: &str) -> Vec<u8> {
    let mut v: Vec<u8> = prefix.bytes().map(|b| b & 31).collect();
    v.push(0);
    v
}
/// 5-bit groups (zero padded) of a payload.
pub fn to5(data: &[u8]) -> Vec<u8> {
    let mut bits: Vec<u8> = data.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1)).collect();
    while bits.len() % 5 != 0 {
        bits.push(0);
    }
    bits.chunks(5).map(|c| c.iter().fold(0, |a, b| a * 2 + b)).collect()
}
/// Address string with a valid checksum for arbitrary 5-bit payload groups.
pub fn addr5(prefix: &str, groups: &[u8]) -> String {
    let mut v = prefix5(prefix);
    v.extend_from_slice(groups);
    v.extend([0u8; 8]);
    let p = polymod(&v);
    let mut s = format!("{}:", prefix);
    for g in groups {
        s.push(CHARSET[*g as usize] as char);
    }
    for i in 0..8 {
        s.push(CHARSET[(p >> (5 * (7 - i)) & 31) as usize] as char);
    }
    s
}
pub fn cash_addr(prefix: &str, version: u8, hash: &[u8]) -> String {
    let mut d = vec![version];
    d.extend_from_slice(hash);
    addr5(prefix, &to5(&d))
}
/// Strict decoder for 20-byte addresses: (prefix, version, hash).
pub fn decode_addr(s: &str, default_prefix: &str) -> Option<(String, u8, Vec<u8>)> {
    let l = s.to_ascii_lowercase();
    let (prefix, body) = match l.find(':') {
        Some(i) => (l[..i].to_string(), &l[i + 1..]),
        None => (default_prefix.to_string(), &l[..]),
    };
    if !prefix.bytes().all(|c| (b'a'..=b'z').contains(&c)) {
        return None;
    }
    let mut g = vec![];
    for c in body.bytes() {
        g.push(CHARSET.iter().position(|x| *x == c)? as u8);
    }
    let mut v = prefix5(&prefix);
    v.extend_from_slice(&g);
    if polymod(&v) != 0 || g.len() != 42 {
        return None;
    }
    let bits: Vec<u8> = g[..34].iter().flat_map(|b| (0..5).rev().map(move |i| b >> i & 1)).collect();
    if bits[168..].iter().any(|b| *b != 0) {
        return None;
    }
    let by: Vec<u8> = bits[..168].chunks(8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | b)).collect();
    if by[0] != 0 && by[0] != 8 {
        return None;
    }
    Some((prefix, by[0], by[1..].to_vec()))
}
