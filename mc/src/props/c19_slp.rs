//! C19: SLP token outputs, judged by an independent parser of the SLP type 1 data script.
use super::common::*;
use crate::engine::*;
use crate::{ensure, ensure_eq};
use bitcoin_cash::*;
use bitcoin_cash_slp::*;

/// SLP token type 1 / NFT1 specification: OP_RETURN, then pushes made only with the length prefixed
/// forms 0x01..=0x4b, OP_PUSHDATA1, OP_PUSHDATA2, OP_PUSHDATA4; nothing else.
fn slp_chunks(s: &[u8]) -> std::result::Result<Vec<Vec<u8>>, String> {
    if s.first() != Some(&0x6a) {
        return Err("doesn't start with OP_RETURN".into());
    }
    let (mut i, mut v) = (1, vec![]);
    while i < s.len() {
        let (n, h) = match s[i] {
            n @ 1..=0x4b => (n as usize, 1),
            0x4c => (*s.get(i + 1).ok_or("cut")? as usize, 2),
            0x4d => (u16::from_le_bytes(s.get(i + 1..i + 3).ok_or("cut")?.try_into().unwrap()) as usize, 3),
            0x4e => (u32::from_le_bytes(s.get(i + 1..i + 5).ok_or("cut")?.try_into().unwrap()) as usize, 5),
            x => return Err(format!("opcode {:#x} at {} is not a push SLP allows", x, i)),
        };
        v.push(s.get(i + h..i + h + n).ok_or("push beyond the end")?.to_vec());
        i += h + n;
    }
    Ok(v)
}
#[derive(Debug, PartialEq)]
enum Slp {
    Genesis { ty: u16, ticker: Vec<u8>, name: Vec<u8>, url: Vec<u8>, hash: Vec<u8>, decimals: u8, baton: Option<u8>, qty: u64 },
    Send { ty: u16, id: Vec<u8>, amounts: Vec<u64> },
}
fn parse_slp(s: &[u8]) -> std::result::Result<Slp, String> {
    let c = slp_chunks(s)?;
    if c.len() < 3 {
        return Err("too few fields".into());
    }
    if c[0] != b"SLP\0" {
        return Err("lokad id".into());
    }
    let ty = match c[1][..] {
        [a] => a as u16,
        [a, b] => (a as u16) << 8 | b as u16,
        _ => return Err("token type length".into()),
    };
    let be = |b: &[u8]| -> std::result::Result<u64, String> { Ok(u64::from_be_bytes(b.try_into().map_err(|_| format!("amount of {} bytes", b.len()))?)) };
    match &c[2][..] {
        b"GENESIS" => {
            if c.len() != 10 {
                return Err(format!("genesis of {} fields", c.len()));
            }
            if c[7].len() != 1 || c[8].len() > 1 {
                return Err("decimals or baton length".into());
            }
            Ok(Slp::Genesis { ty, ticker: c[3].clone(), name: c[4].clone(), url: c[5].clone(), hash: c[6].clone(), decimals: c[7][0], baton: c[8].first().cloned(), qty: be(&c[9])? })
        }
        b"SEND" => {
            if c.len() < 4 || c[3].len() != 32 {
                return Err("token id".into());
            }
            Ok(Slp::Send { ty, id: c[3].clone(), amounts: c[4..].iter().map(|a| be(a)).collect::<std::result::Result<_, _>>()? })
        }
        x => Err(format!("transaction type {:?}", x)),
    }
}
fn judge(out: &TxOutput, want: &Slp) -> Res {
    ensure!(out.value == 0, "value {}", out.value);
    // as it would be broadcast
    let w = out.ser();
    let script = ref_ser_ops(&script_ops(&out.script));
    ensure!(w[..8] == [0; 8] && w.ends_with(&script), "wire form {}", hexs(&w));
    let got = parse_slp(&w[w.len() - script.len()..]).map_err(|e| Fail::Violation(format!("not a valid SLP script: {} in {}", e, hexs(&script))))?;
    ensure_eq!(got, *want, "SLP fields of {}", hexs(&script));
    ensure!(out.script.ser_ops().as_slice() == &script[..], "script bytes");
    Ok(())
}

const TYPES: [(SlpTokenType, u16); 3] = [(SlpTokenType::Fungible, 1), (SlpTokenType::Nft1Child, 0x41), (SlpTokenType::Nft1Group, 0x81)];
const AMOUNTS: [u64; 12] = [0, 1, 2, 0xff, 0x100, 0x8000, 0x0102030405060708, i64::MAX as u64, 1 << 63, 0xff00000000000000, u64::MAX - 1, u64::MAX];

fn gen(ch: &mut Chooser, ty: usize, t: [&str; 4], decimals: u8, baton: Option<u8>, qty: u64) -> Res {
    ch.op();
    ch.note(|| format!("genesis type {:#x}, fields of {:?} bytes {:?}, decimals {}, baton {:?}, quantity {}", TYPES[ty].1, t.map(|x| x.len()), t.map(|x| trunc(x, 12)), decimals, baton, qty));
    let p = SlpGenesisParams { slp_token_type: TYPES[ty].0, token_ticker: t[0], token_name: t[1], token_document_url: t[2], token_document_hash: t[3], decimals, mint_baton_vout: baton, initial_token_mint_quantity: qty };
    let out = guarded("slp_genesis_output", || slp_genesis_output(p))?;
    let b = |i: usize| t[i].as_bytes().to_vec();
    judge(&out, &Slp::Genesis { ty: TYPES[ty].1, ticker: b(0), name: b(1), url: b(2), hash: b(3), decimals, baton, qty })?;
    ch.observe(out.ser().as_slice());
    Ok(())
}
fn send(ch: &mut Chooser, ty: usize, display: &[u8], amounts: &[u64]) -> Res {
    ch.op();
    ch.note(|| format!("send type {:#x} of token {} amounts {:?}", TYPES[ty].1, hex::encode(display), amounts));
    let mut raw = display.to_vec();
    raw.reverse();
    let id = TokenId::from_hash(Sha256d::from_hex_le(&hex::encode(display)).map_err(|e| e.to_string())?);
    #[allow(deprecated)]
    let id2 = TokenId::from_slice(display).map_err(|e| e.to_string())?;
    ensure!(id == id2, "ids from the display form differ");
    ensure!(id.to_vec() == display && id.as_slice_be() == &raw[..] && id.hash().as_slice() == &raw[..], "forms of the id");
    let out = guarded("slp_send_output", || slp_send_output(TYPES[ty].0, &id, amounts))?;
    judge(&out, &Slp::Send { ty: TYPES[ty].1, id: display.to_vec(), amounts: amounts.to_vec() })?;
    ch.observe(out.ser().as_slice());
    Ok(())
}

pub fn c19(c: &Ctx) {
    let one: Vec<String> = (0..128u8).map(|b| (b as char).to_string()).collect();
    let lens: Vec<String> = [0usize, 1, 2, 74, 75, 76, 77, 254, 255, 256, 257, 65535, 65536].iter().map(|n| (0..*n).map(|i| (b'a' + (i % 26) as u8) as char).collect()).collect();
    c.bound("genesis: every 1-byte string in every text field; every combination of text fields over {empty, 1 byte, U+0001, U+0010, UTF-8, 75, 76, 255, 256 bytes} x 3 types x baton; all decimals x all batons; 12 amounts; single fields of every length up to 600 and 65535, 65536");
    c.range("genesis one byte fields", 4 * 128 * 3, |i, ch| {
        let (f, b, ty) = (i as usize % 4, i as usize / 4 % 128, i as usize / 512);
        let mut t = [""; 4];
        t[f] = &one[b];
        gen(ch, ty, t, 0, None, 1)
    });
    let texts: Vec<String> = vec!["".into(), "A".into(), "\u{1}".into(), "\u{10}".into(), "\u{0}".into(), "bït€".into(), lens[4].clone(), lens[5].clone(), lens[8].clone(), lens[9].clone()];
    let (n, bat) = (texts.len(), [None, Some(0), Some(1), Some(2), Some(0x10), Some(0x81), Some(255)]);
    c.range("genesis text fields", (n * n * n * n * 3 * bat.len()) as u64, |i, ch| {
        let mut i = i as usize;
        let mut next = |n: usize| {
            let x = i % n;
            i /= n;
            x
        };
        let t = [&texts[next(n)][..], &texts[next(n)][..], &texts[next(n)][..], &texts[next(n)][..]];
        let (ty, b) = (next(3), bat[next(bat.len())]);
        gen(ch, ty, t, 8, b, 21_000_000)
    });
    c.range("genesis lengths", 600 * 4, |i, ch| {
        let s: String = (0..i / 4).map(|x| (b'a' + (x % 26) as u8) as char).collect();
        let mut t = ["TK", "", "u", "h"];
        t[i as usize % 4] = &s;
        gen(ch, 0, t, 2, Some(2), 5)
    });
    c.tree("genesis long fields", |ch| {
        let f = ch.pick(4);
        let mut t = ["TK", "", "u", "h"];
        t[f] = ch.of(&lens);
        gen(ch, 1, t, 2, Some(2), 5)
    });
    c.range("genesis numbers", 256 * 257 * 3, |i, ch| {
        let (d, b, ty) = ((i % 256) as u8, i / 256 % 257, (i / 256 / 257) as usize);
        gen(ch, ty, ["A", "B", "C", "D"], d, if b == 256 { None } else { Some(b as u8) }, i)
    });
    c.tree("genesis quantities", |ch| {
        let (ty, q) = (ch.pick(3), *ch.of(&AMOUNTS));
        gen(ch, ty, ["A", "", "", ""], 0, None, q)
    });
    // sending
    let maxl = if c.thorough { 5 } else { 4 };
    c.bound(format!("send: every list of at most {} of 12 amounts, lists of 0..=40 amounts and 12 sizes up to 1500, every byte value at every position of the token id, every single bit amount", maxl));
    let base = seq_bytes(32, 0x31);
    c.tree("send amounts", |ch| {
        let ty = ch.pick(3);
        let n = ch.pick(maxl + 1);
        let a: Vec<u64> = (0..n).map(|_| *ch.of(&AMOUNTS)).collect();
        send(ch, ty, &base, &a)
    });
    c.range("send token ids", 32 * 256 * 2, |i, ch| {
        let (p, v, z) = ((i / 512) as usize, (i / 2 % 256) as u8, i % 2);
        let mut d = if z == 0 { vec![0; 32] } else { base.clone() };
        d[p] = v;
        send(ch, i as usize % 3, &d, &[v as u64])
    });
    c.range("send many", 41 * 64, |i, ch| {
        let (n, b) = ((i / 64) as u32, i % 64);
        let a: Vec<u64> = (0..n).map(|k| (1u64 << b).rotate_left(k) | k as u64).collect();
        let ops = slp_amount_ops(a.iter());
        ensure!(ops.len() == a.len(), "slp_amount_ops");
        for (o, x) in ops.iter().zip(&a) {
            ensure!(pushed(o) == Some(x.to_be_bytes().to_vec()) && ref_ser_op(o).len() == 9, "slp_amount_ops {:?}", o);
        }
        send(ch, i as usize % 3, &base, &a)
    });
    c.range("send very many", 12 * 3, |i, ch| {
        let n = [41usize, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600, 1500][i as usize / 3];
        let a: Vec<u64> = (0..n as u64).map(|k| k.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> (k % 64)).collect();
        send(ch, i as usize % 3, &base, &a)
    });
    // annotated transactions
    use SlpAction::*;
    const ACTIONS: [SlpAction; 13] = [NonSlp, NonSlpBurn, SlpParseError, SlpUnsupportedVersion, SlpV1Genesis, SlpV1Mint, SlpV1Send, SlpNft1GroupGenesis, SlpNft1GroupMint, SlpNft1GroupSend, SlpNft1UniqueChildGenesis, SlpNft1UniqueChildSend, NonSlp];
    c.bound("annotated transactions: 0..=2 inputs x 0..=3 outputs and 9 larger sizes up to 260 inputs x 13 actions x 3 amounts x baton x token id, versions and lock times; turned into plain transactions, and through JSON, JSON values and a binary format");
    c.tree("annotated transactions", |ch| {
        let (ni, no) = if ch.flag() { (ch.pick(3), ch.pick(4)) } else { *ch.of(&[(3, 9), (5, 17), (9, 4), (12, 1), (17, 33), (33, 33), (65, 66), (130, 0), (260, 257)]) };
        let token = SlpToken { amount: *ch.of(&[0, 5, u64::MAX]), is_mint_baton: ch.flag(), action: *ch.of(&ACTIONS) };
        let id = if ch.flag() { Some(SlpData { token_id: TokenId::from_hash(Sha256d::new([9; 32])) }) } else { None };
        let (version, lock_time) = *ch.of(&[(1, 0u32), (-2, 0xfffffffe), (i32::MIN, 500_000_000)]);
        let other = SlpToken { amount: 77, is_mint_baton: !token.is_mint_baton, action: SlpV1Mint };
        let tx = UnhashedTx {
            version,
            inputs: (0..ni)
                .map(|k| TxInput {
                    prev_out: TxOutpoint { tx_hash: Sha256d::new([k as u8 ^ 0x41; 32]), vout: 700 - k as u32 },
                    script: Script::from_ops(vec![op_min(&seq_bytes(k, 70)), op_code(0x61)]),
                    sequence: 0xfffffffe - k as u32,
                    lock_script: if k % 3 == 1 { Some(Script::from_ops(vec![op_code(0x51)])) } else { None },
                    value: if k % 3 == 1 { Some(12 + k as u64) } else { None },
                    is_p2sh: if k % 3 == 1 { Some(k == 1) } else { None },
                    sig_hash_flags: None,
                })
                .collect(),
            outputs: (0..no).map(|k| TxOutput { value: [1000, 0, 546, 0, u64::MAX, 1][k % 6] + (k as u64 >> 3) % 2 * (k % 6 != 4) as u64, script: Script::from_ops(if k % 5 == 3 { vec![] } else { vec![op_code(0x51 + (k % 16) as u8)] }) }).collect(),
            lock_time,
        };
        let want = tx.ser();
        let slp = SlpTx {
            version,
            lock_time,
            inputs: tx.inputs.iter().enumerate().map(|(i, x)| SlpTxInput { index: i, token: if i == 0 { token } else { other }, input: x.clone(), prev_script: Script::default() }).collect(),
            outputs: tx.outputs.iter().enumerate().map(|(i, x)| SlpTxOutput { token: if i == 0 { other } else { token }, output: x.clone() }).collect(),
            slp_data: id,
            tx_hash: Sha256d::digest(want.clone()),
        };
        ch.op();
        ch.note(|| trunc(&format!("{:?}", slp), 300));
        ensure!(SlpToken::default() == SlpToken { amount: 0, is_mint_baton: false, action: NonSlp }, "default token");
        let js = serde_json::to_string(&slp).map_err(|e| e.to_string())?;
        let copies = guarded("serialization", || -> std::result::Result<Vec<SlpTx>, String> {
            Ok(vec![
                slp.clone(),
                serde_json::from_str(&js).map_err(|e| e.to_string())?,
                serde_json::from_value(serde_json::to_value(&slp).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?,
                bincode::deserialize(&bincode::serialize(&slp).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?,
            ])
        })??;
        for (n, s) in copies.into_iter().enumerate() {
            ensure!(s.tx_hash == slp.tx_hash && s.slp_data.as_ref().map(|d| d.token_id.to_vec()) == slp.slp_data.as_ref().map(|d| d.token_id.to_vec()), "form {}: hash or token id", n);
            ensure!(s.inputs.len() == ni && s.outputs.len() == no, "form {}: counts", n);
            ensure!(s.inputs.iter().zip(&slp.inputs).all(|(a, b)| a.index == b.index && a.token == b.token && a.prev_script == b.prev_script), "form {}: input annotations", n);
            ensure!(s.outputs.iter().zip(&slp.outputs).all(|(a, b)| a.token == b.token), "form {}: output annotations", n);
            let u = guarded("into_unhashed_tx", || s.into_unhashed_tx())?;
            ensure!(u.ser() == want, "form {}: transaction {} instead of {}", n, hexs(&u.ser()), hexs(&want));
            ensure!(u.version == tx.version && u.lock_time == tx.lock_time && u.inputs.iter().zip(&tx.inputs).all(|(a, b)| a.value == b.value && a.lock_script == b.lock_script && a.is_p2sh == b.is_p2sh && a.prev_out == b.prev_out), "form {}: spend data", n);
        }
        ch.observe(want.as_slice());
        Ok(())
    });
    c.range("token id lengths", 80, |i, ch| {
        ch.op();
        #[allow(deprecated)]
        let r = guarded("TokenId::from_slice", || TokenId::from_slice(&seq_bytes(i as usize, 1)))?;
        ensure!(r.is_ok() == (i == 32), "{} bytes: {:?}", i, r);
        Ok(())
    });
}
