//! C23: the opcode table against a table of consensus opcodes and the reference script interpreter.
use super::common::*;
use crate::engine::*;
use crate::refvm::{self, *};
use crate::{ensure, ensure_eq};
use bitcoin_cash::func;
use bitcoin_cash::*;
use std::collections::HashSet;

const NAMES: &str = "0 4c:PUSHDATA1 PUSHDATA2 PUSHDATA4 1NEGATE RESERVED 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 NOP VER IF NOTIF VERIF VERNOTIF ELSE ENDIF VERIFY RETURN \
TOALTSTACK FROMALTSTACK 2DROP 2DUP 3DUP 2OVER 2ROT 2SWAP IFDUP DEPTH DROP DUP NIP OVER PICK ROLL ROT SWAP TUCK CAT SPLIT NUM2BIN BIN2NUM SIZE INVERT AND OR XOR \
EQUAL EQUALVERIFY RESERVED1 RESERVED2 1ADD 1SUB 2MUL 2DIV NEGATE ABS NOT 0NOTEQUAL ADD SUB MUL DIV MOD LSHIFT RSHIFT BOOLAND BOOLOR NUMEQUAL NUMEQUALVERIFY \
NUMNOTEQUAL LESSTHAN GREATERTHAN LESSTHANOREQUAL GREATERTHANOREQUAL MIN MAX WITHIN RIPEMD160 SHA1 SHA256 HASH160 HASH256 CODESEPARATOR CHECKSIG CHECKSIGVERIFY \
CHECKMULTISIG CHECKMULTISIGVERIFY NOP1 CHECKLOCKTIMEVERIFY CHECKSEQUENCEVERIFY NOP4 NOP5 NOP6 NOP7 NOP8 NOP9 NOP10 CHECKDATASIG CHECKDATASIGVERIFY REVERSEBYTES";

/// Consensus name of an opcode byte.
pub fn name_of(b: u8) -> Option<String> {
    if b == 0 {
        return Some("OP_0".into());
    }
    let v: Vec<&str> = NAMES.split_whitespace().skip(1).collect();
    let i = (b as usize).checked_sub(0x4c)?;
    v.get(i).map(|s| format!("OP_{}", s.trim_start_matches("4c:")))
}
fn opcode(b: u8) -> Option<Opcode> {
    num::FromPrimitive::from_u8(b).filter(|o| *o != Opcode::FIRST_UNDEFINED_OP_VALUE)
}
/// Stack effects that depend on the data or remove a variable number of items.
fn inexpressible(b: u8) -> bool {
    matches!(b, 0x73 | 0xae | 0xaf)
}
fn is_push_prefix(b: u8) -> bool {
    matches!(b, 0x4c..=0x4e)
}

trait Mock {
    fn mock(i: u32) -> Self;
    fn dt() -> DataType;
    fn marker(&self) -> Option<u32> {
        None
    }
}
impl Mock for BitcoinInteger {
    fn mock(_: u32) -> Self {
        BitcoinInteger(Integer::ZERO)
    }
    fn dt() -> DataType {
        DataType::Integer
    }
}
impl Mock for BitcoinBoolean {
    fn mock(_: u32) -> Self {
        BitcoinBoolean(false)
    }
    fn dt() -> DataType {
        DataType::Boolean
    }
}
impl Mock for BitcoinByteArray {
    fn mock(_: u32) -> Self {
        BitcoinByteArray(ba(b"m"))
    }
    fn dt() -> DataType {
        DataType::ByteArray(None)
    }
}
#[derive(Clone)]
struct M(u32);
impl Mock for M {
    fn mock(i: u32) -> Self {
        M(i)
    }
    fn dt() -> DataType {
        DataType::Generic
    }
    fn marker(&self) -> Option<u32> {
        Some(self.0)
    }
}
type Outs = Vec<(DataType, Option<u32>)>;
trait OutT {
    fn outs(self) -> Outs;
}
impl OutT for () {
    fn outs(self) -> Outs {
        vec![]
    }
}
macro_rules! one { ($($t:ty),*) => { $(impl OutT for $t { fn outs(self) -> Outs { vec![(<$t>::dt(), self.marker())] } })* } }
one!(BitcoinInteger, BitcoinBoolean, BitcoinByteArray, M);
macro_rules! tup { ($($n:ident),*) => {
    impl<$($n: Mock),*> OutT for ($($n),*) {
        #[allow(non_snake_case)]
        fn outs(self) -> Outs { let ($($n),*) = self; vec![$(($n::dt(), $n.marker())),*] }
    }
} }
tup!(A, B);
tup!(A, B, C);
tup!(A, B, C, D);
tup!(A, B, C, D, F);
tup!(A, B, C, D, F, G);
trait Callable<Args> {
    fn call_mock(self) -> (Vec<DataType>, Outs);
}
macro_rules! callable { ($($n:ident $i:expr),*) => {
    impl<Fun: FnOnce($($n),*) -> R, R: OutT, $($n: Mock),*> Callable<($($n,)*)> for Fun {
        fn call_mock(self) -> (Vec<DataType>, Outs) { (vec![$($n::dt()),*], self($($n::mock($i)),*).outs()) }
    }
} }
callable!();
callable!(A 0);
callable!(A 0, B 1);
callable!(A 0, B 1, C 2);
callable!(A 0, B 1, C 2, D 3);
callable!(A 0, B 1, C 2, D 3, H 4, G 5);

/// (opcode byte, declared types of the type checking function, its results)
fn funcs() -> Vec<(u8, Vec<DataType>, Outs)> {
    let mut v: Vec<(u8, Vec<DataType>, Outs)> = vec![];
    macro_rules! f { ($($b:literal $f:expr);* $(;)?) => { $( let (i, o) = ($f).call_mock(); v.push(($b, i, o)); )* } }
    f! {
        0x00 func::OP_0; 0x4f func::OP_1NEGATE; 0x51 func::OP_1; 0x52 func::OP_2; 0x53 func::OP_3; 0x54 func::OP_4; 0x55 func::OP_5; 0x56 func::OP_6; 0x57 func::OP_7;
        0x58 func::OP_8; 0x59 func::OP_9; 0x5a func::OP_10; 0x5b func::OP_11; 0x5c func::OP_12; 0x5d func::OP_13; 0x5e func::OP_14; 0x5f func::OP_15; 0x60 func::OP_16;
        0x61 func::OP_NOP; 0xb0 func::OP_NOP1; 0xb3 func::OP_NOP4; 0xb4 func::OP_NOP5; 0xb5 func::OP_NOP6; 0xb6 func::OP_NOP7; 0xb7 func::OP_NOP8; 0xb8 func::OP_NOP9; 0xb9 func::OP_NOP10;
        0x63 func::OP_IF::<M>; 0x67 func::OP_ELSE; 0x68 func::OP_ENDIF; 0x69 func::OP_VERIFY::<M>;
        0x6d func::OP_2DROP::<M, M>; 0x6e func::OP_2DUP::<M, M>; 0x6f func::OP_3DUP::<M, M, M>; 0x70 func::OP_2OVER::<M, M, M, M>;
        0x71 func::OP_2ROT::<M, M, M, M, M, M>; 0x72 func::OP_2SWAP::<M, M, M, M>; 0x74 func::OP_DEPTH; 0x75 func::OP_DROP::<M>; 0x76 func::OP_DUP::<M>; 0x77 func::OP_NIP::<M, M>;
        0x78 func::OP_OVER::<M, M>; 0x7b func::OP_ROT::<M, M, M>; 0x7c func::OP_SWAP::<M, M>; 0x7d func::OP_TUCK::<M, M>;
        0x7e func::OP_CAT; 0x7f func::OP_SPLIT; 0x80 func::OP_NUM2BIN; 0x81 func::OP_BIN2NUM; 0x82 func::OP_SIZE; 0x84 func::OP_AND; 0x85 func::OP_OR; 0x86 func::OP_XOR;
        0x87 func::OP_EQUAL::<M>; 0x88 func::OP_EQUALVERIFY::<M>; 0x8b func::OP_1ADD; 0x8c func::OP_1SUB; 0x8f func::OP_NEGATE; 0x90 func::OP_ABS; 0x91 func::OP_NOT; 0x92 func::OP_0NOTEQUAL;
        0x93 func::OP_ADD; 0x94 func::OP_SUB; 0x96 func::OP_DIV; 0x97 func::OP_MOD; 0x9a func::OP_BOOLAND; 0x9b func::OP_BOOLOR; 0x9c func::OP_NUMEQUAL; 0x9d func::OP_NUMEQUALVERIFY;
        0x9e func::OP_NUMNOTEQUAL; 0x9f func::OP_LESSTHAN; 0xa0 func::OP_GREATERTHAN; 0xa1 func::OP_LESSTHANOREQUAL; 0xa2 func::OP_GREATERTHANOREQUAL; 0xa3 func::OP_MIN; 0xa4 func::OP_MAX;
        0xa5 func::OP_WITHIN; 0xa6 func::OP_RIPEMD160; 0xa7 func::OP_SHA1; 0xa8 func::OP_SHA256; 0xa9 func::OP_HASH160; 0xaa func::OP_HASH256; 0xab func::OP_CODESEPARATOR;
        0xac func::OP_CHECKSIG; 0xad func::OP_CHECKSIGVERIFY; 0xb1 func::OP_CHECKLOCKTIMEVERIFY; 0xb2 func::OP_CHECKSEQUENCEVERIFY; 0xba func::OP_CHECKDATASIG; 0xbb func::OP_CHECKDATASIGVERIFY; 0xbc func::OP_REVERSEBYTES;
        0x6a func::OP_RETURN; 0x79 func::OP_PICK; 0x7a func::OP_ROLL; 0x6b func::OP_TOALTSTACK::<M>; 0x6c func::OP_FROMALTSTACK::<M>;
    }
    v
}

fn loose(t: DataType) -> DataType {
    match t {
        DataType::ByteArray(_) => DataType::ByteArray(None),
        t => t,
    }
}

/// Values an operand is drawn from: truths, small and boundary numbers, non-numbers, wrong encodings.
fn domain() -> Vec<Item> {
    vec![
        vec![],
        vec![1],
        vec![2],
        vec![0x81],
        vec![0xff, 0xff, 0xff, 0x7f],
        vec![0, 0, 0, 0, 0x80],
        vec![0x00],
        vec![0x02, 0x00],
        vec![0x80],
        vec![1, 2, 3, 4, 5, 6],
        vec![7; 33],
    ]
}
const GOOD: usize = 10; // index of the signature the stub accepts

/// Fewest items with which `b` can succeed, from the interpreter alone.
fn run_op(b: u8, inputs: &[Item], below: &[Item], alt: &[Item], inside: bool) -> Result<(Vec<Item>, Vec<Item>), E> {
    let mut st: Vec<Item> = below.iter().chain(inputs).cloned().collect();
    let mut al = alt.to_vec();
    // ELSE and ENDIF need an open conditional, IF and NOTIF need closing
    let script = match b {
        0x63 | 0x64 => vec![b, 0x68],
        0x67 if inside => vec![0x51, 0x63, 0x67, 0x68],
        0x68 if inside => vec![0x51, 0x63, 0x68],
        _ => vec![b],
    };
    let mut chk = Stub { good: domain()[GOOD].clone(), locks: true };
    refvm::exec(&script, &mut st, &mut al, &mut chk)?;
    Ok((st, al))
}

pub fn c23(c: &Ctx) {
    c.bound("all 256 opcode bytes; every operand of an opcode with k <= 4 inputs from an 11 value alphabet (numbers, booleans, non-minimal and oversized numbers, byte strings), k = 6: distinct markers and a 4 value alphabet; 0, 1 and 3 further items (markers or ones) below and on the alt stack");

    c.range("opcode names and bytes", 256, |i, ch| {
        let b = i as u8;
        ch.op();
        let want = name_of(b);
        let got = opcode(b);
        ensure_eq!(got.is_some(), want.is_some(), "FromPrimitive::from_u8({:#x})", b);
        ensure_eq!(<Opcode as num::FromPrimitive>::from_u64(i), num::FromPrimitive::from_u8(b), "from_u64({:#x})", b);
        ensure_eq!(<Opcode as num::FromPrimitive>::from_i64(i as i64), num::FromPrimitive::from_u8(b), "from_i64({:#x})", b);
        // 0xbd names the end of the table, as in the node's source
        ensure_eq!(Opcode::FIRST_UNDEFINED_OP_VALUE as u8, 0xbd, "first undefined opcode");
        let Some(op) = got else { return Ok(()) };
        let want = want.unwrap();
        ch.note(|| want.clone());
        ensure_eq!(op as u8, b, "byte of {}", want);
        ensure_eq!(format!("{:?}", op), want, "debug name of {:#x}", b);
        ensure_eq!(op.to_string(), want, "display name of {:#x}", b);
        let s: &'static str = op.into();
        ensure_eq!(s, &want[..], "static name of {:#x}", b);
        // the names usable in scripts
        let known = MAP_NAME_TO_ENUM.get(&want).copied();
        let usable = b == 0 || b == 0x4f || b >= 0x51;
        ensure_eq!(known, if usable { Some(op) } else { None }, "lookup of the name {}", want);
        ensure!(b < Opcode::FIRST_UNDEFINED_OP_VALUE as u8, "{} is beyond FIRST_UNDEFINED_OP_VALUE", want);
        let ser = Script::from_ops(vec![Op::Code(op)].into_iter());
        ensure_eq!(&ser.ser_ops()[..], &[b][..], "serialization of {}", want);
        Ok(())
    });
    c.range("values beyond a byte are no opcodes", 4096, |i, ch| {
        ch.op();
        let v = 256 + i;
        ensure!(<Opcode as num::FromPrimitive>::from_u64(v).is_none(), "from_u64({}) is an opcode", v);
        ensure!(<Opcode as num::FromPrimitive>::from_i64(-(v as i64 - 255)).is_none(), "from_i64({}) is an opcode", -(v as i64 - 255));
        Ok(())
    });
    c.range("name table holds nothing else", 1, |_, ch| {
        ch.op();
        let want: HashSet<String> = (0..=255u8).filter(|b| *b == 0 || *b == 0x4f || *b >= 0x51).filter_map(name_of).collect();
        let got: HashSet<String> = MAP_NAME_TO_ENUM.keys().cloned().collect();
        ensure_eq!(got, want, "names in MAP_NAME_TO_ENUM");
        Ok(())
    });
    c.range("disabled opcodes", 256, |i, ch| {
        let b = i as u8;
        let Some(op) = opcode(b) else { return Ok(()) };
        ch.op();
        ensure_eq!(op.is_disabled(), DISABLED.contains(&b) || RESERVED.contains(&b), "is_disabled of {}", op);
        // the interpreter agrees: a disabled opcode fails on every stack, any other one succeeds on some
        let dom = domain();
        let mut ok = false;
        for m in 0..dom.len().pow(3) {
            let inp: Vec<Item> = (0..3).map(|j| dom[m / dom.len().pow(j) % dom.len()].clone()).collect();
            let below = [vec![], vec![], vec![], vec![], vec![]];
            ok |= run_op(b, &inp, &below, &[vec![1]], true).is_ok();
        }
        if !is_push_prefix(b) && b != 0x6a {
            ensure_eq!(!ok, op.is_disabled(), "{} fails on every stack", op);
        }
        Ok(())
    });
    c.range("behavior never panics", 256, |i, ch| {
        let b = i as u8;
        let Some(op) = opcode(b) else { return Ok(()) };
        ch.op();
        if inexpressible(b) || DISABLED.contains(&b) || RESERVED.contains(&b) {
            return Ok(());
        }
        let beh = guarded("behavior", || op.behavior())?;
        ensure_eq!(beh.delta.len(), beh.output_types.len(), "{}: one delta per output", op);
        if let Some(o) = beh.output_order {
            ensure_eq!(o.len(), beh.output_types.len(), "{}: one position per output", op);
            ensure!(o.iter().all(|x| *x < beh.input_types.len()), "{}: an output is taken from input {:?}, but there are {} inputs", op, o, beh.input_types.len());
        }
        ensure_eq!(op.retains_input(), matches!(b, 0x82 | 0xb1 | 0xb2), "retains_input of {}", op);
        Ok(())
    });
    c.tree("stack effects against the interpreter", |ch| {
        let b = ch.pick(256) as u8;
        let Some(op) = opcode(b) else { return Ok(()) };
        if inexpressible(b) || DISABLED.contains(&b) || RESERVED.contains(&b) || is_push_prefix(b) || b == 0x6a {
            return Ok(());
        }
        let beh = guarded("behavior", || op.behavior())?;
        let k = beh.input_types.len();
        let dom = domain();
        ensure!(k <= 6, "{} takes {} inputs", op, k);
        let small = [0usize, 1, 3, 9];
        let inputs: Vec<Item> = if k > 4 {
            let markers = ch.flag();
            (0..k).map(|j| if markers { vec![0x40 + j as u8; 2] } else { dom[*ch.of(&small)].clone() }).collect()
        } else {
            (0..k).map(|_| dom[ch.pick(dom.len())].clone()).collect()
        };
        let nb = *ch.of(&[0usize, 1, 3]);
        let ones = ch.flag();
        let below: Vec<Item> = (0..nb).map(|j| if ones { vec![1] } else { vec![0x60 + j as u8; 3] }).collect();
        let alt: Vec<Item> = (0..nb).map(|j| vec![0x70 + j as u8; 3]).collect();
        ch.op();
        ch.note(|| format!("{} on {:?} above {} items", op, inputs.iter().map(|x| hex::encode(x)).collect::<Vec<_>>(), nb));
        // fewer items than declared (and nothing below) must fail, for non-zero k
        if k > 0 && nb == 0 {
            ensure!(run_op(b, &inputs[1..], &[], &alt, true).is_err(), "{} declares {} inputs but succeeds on {}", op, k, k - 1);
        }
        let r = run_op(b, &inputs, &below, &alt, true);
        let truth_like = |t: DataType, x: &Item| match t {
            DataType::Integer => x.len() <= 4 && crate::refs::minimal_num(x) == *x,
            DataType::Boolean => x.is_empty() || x == &[1],
            _ => true,
        };
        let well_typed = inputs.iter().zip(beh.input_types).all(|(x, t)| truth_like(*t, x));
        match &r {
            Err(e) => {
                ch.observe((b, *e));
                // inputs of the declared types may only fail for what they say, never for their type
                if well_typed && nb == 3 {
                    ensure!(!e.starts_with("number") || b == 0x81 || b == 0xb1 || b == 0xb2, "{} rejects the declared input types {:?}: {}", op, beh.input_types, e);
                    // PICK, ROLL and SPLIT indices may be out of range
                    ensure!(*e != "stack underflow" || matches!(b, 0x79 | 0x7a), "{} needs more than the {} declared inputs", op, k);
                    ensure!(*e != "alt stack underflow", "{} finds nothing on the alt stack", op);
                }
            }
            Ok((st, al)) => {
                // where a number is declared, only numbers succeed (NUM2BIN takes any bytes as its number)
                for (j, (x, t)) in inputs.iter().zip(beh.input_types).enumerate() {
                    if *t == DataType::Integer && !(b == 0x80 && j == 0) {
                        ensure!(x.len() <= 5, "{} declares input {} a number but accepts {}", op, j, hex::encode(x));
                    }
                    if *t == DataType::Boolean && truth(x) {
                        let mut other = inputs.clone();
                        other[j] = if x == &[2] { vec![1] } else { vec![2] };
                        ensure_eq!(run_op(b, &other, &below, &alt, true), Ok((st.clone(), al.clone())), "{}: boolean input {} is read as its truth", op, j);
                    }
                }
                let n = beh.output_types.len();
                // PICK and ROLL reach below their declared input
                if b == 0x79 || b == 0x7a {
                    let i = crate::refs::unnum(&inputs[0]).unwrap() as usize;
                    let mut want = below.clone();
                    let it = if b == 0x7a { want.remove(nb - 1 - i) } else { want[nb - 1 - i].clone() };
                    want.push(it);
                    ensure_eq!(st, &want, "{}: stack", op);
                    let d = if b == 0x79 { StackItemDelta::Added } else { StackItemDelta::Moved };
                    ensure_eq!(beh.delta, &[d][..], "{}: delta", op);
                    ensure_eq!(n, 1, "{}: outputs", op);
                    return Ok(());
                }
                ensure_eq!(st.len(), nb + n, "{}: stack depth after {} inputs became {} outputs", op, k, n);
                ensure_eq!(&st[..nb], &below[..], "{}: items below the inputs", op);
                let out = &st[nb..];
                let mut want_alt = alt.clone();
                match b {
                    0x6b => want_alt.push(inputs[0].clone()),
                    0x6c => {
                        want_alt.pop();
                    }
                    _ => {}
                }
                ensure_eq!(al, &want_alt, "{}: alt stack", op);
                if let Some(order) = beh.output_order {
                    for (j, o) in order.iter().enumerate() {
                        ensure_eq!(&out[j], &inputs[*o], "{}: output {} is input {}", op, j, o);
                    }
                } else if k > 0 && n > 0 && b != 0x82 && b != 0xb1 && b != 0xb2 {
                    ensure!(n <= 2, "{}: more outputs than a computing opcode has", op);
                }
                if op.retains_input() {
                    ensure_eq!(&out[0], &inputs[0], "{}: retained input", op);
                }
                for (j, t) in beh.output_types.iter().enumerate() {
                    let x = &out[j];
                    let ok = match t {
                        DataType::Integer => x.len() <= 5 && crate::refs::minimal_num(x) == *x,
                        DataType::Boolean => x.is_empty() || x == &[1],
                        DataType::ByteArray(Some(n)) => x.len() == *n,
                        _ => true,
                    };
                    ensure!(ok, "{}: output {} = {} is no {:?}", op, j, hex::encode(x), t);
                    if matches!(beh.delta[j], StackItemDelta::Untouched | StackItemDelta::Observed) {
                        ensure!(inputs.get(j) == Some(x), "{}: output {} is described as {:?} but isn't the input there", op, j, beh.delta[j]);
                    }
                }
                ch.observe((b, st));
            }
        }
        Ok(())
    });
    // what the output types promise is as precise as it can be: over all inputs, outputs described as
    // numbers are not always booleans, and byte arrays described without a length don't always have one
    c.range("output types are the right kind", 256, |i, ch| {
        let b = i as u8;
        let Some(op) = opcode(b) else { return Ok(()) };
        if inexpressible(b) || DISABLED.contains(&b) || RESERVED.contains(&b) || is_push_prefix(b) || b == 0x6a {
            return Ok(());
        }
        ch.op();
        let beh = guarded("behavior", || op.behavior())?;
        let want_out: &[DataType] = match b {
            0 | 0x4f | 0x51..=0x60 | 0x74 | 0x81 | 0x8b | 0x8c | 0x8f | 0x90 | 0x93 | 0x94 | 0x96 | 0x97 | 0xa3 | 0xa4 | 0xb1 | 0xb2 => &[DataType::Integer],
            0x87 | 0x91 | 0x92 | 0x9a | 0x9b | 0x9c | 0x9e..=0xa2 | 0xa5 | 0xac | 0xba => &[DataType::Boolean],
            0x7e | 0x80 | 0x84..=0x86 | 0xbc => &[DataType::ByteArray(None)],
            0x7f => &[DataType::ByteArray(None), DataType::ByteArray(None)],
            0x82 => &[DataType::ByteArray(None), DataType::Integer],
            0xa6 | 0xa7 | 0xa9 => &[DataType::ByteArray(Some(20))],
            0xa8 | 0xaa => &[DataType::ByteArray(Some(32))],
            _ => {
                ensure!(beh.output_types.iter().all(|t| *t == DataType::Generic), "{} keeps the types of the items it moves", op);
                return Ok(());
            }
        };
        ensure_eq!(beh.output_types, want_out, "output types of {}", op);
        Ok(())
    });
    c.range("type checking functions agree with the interpreter", 1, |_, ch| {
        for (b, ins, outs) in funcs() {
            ch.op();
            let op = opcode(b).unwrap();
            let beh = guarded("behavior", || op.behavior())?;
            let mut want_in: Vec<DataType> = beh.input_types.iter().map(|t| loose(*t)).collect();
            let mut want_out: Vec<DataType> = beh.output_types.iter().map(|t| loose(*t)).collect();
            match b {
                0x6b => want_out = vec![DataType::Generic],
                0x6c => want_in = vec![DataType::Generic],
                0x79 | 0x7a => want_out = vec![],
                0x69 => want_in = vec![DataType::Generic],
                _ => {}
            }
            ensure_eq!(ins, want_in, "func::{}: argument types", op);
            ensure_eq!(outs.iter().map(|o| o.0).collect::<Vec<_>>(), want_out, "func::{}: result types", op);
            if outs.iter().all(|o| o.1.is_some()) && !matches!(b, 0x6b | 0x6c) && !outs.is_empty() {
                let inputs: Vec<Item> = (0..ins.len()).map(|j| vec![0x40 + j as u8; 2]).collect();
                let (st, _) = run_op(b, &inputs, &[], &[], true).unwrap();
                let got: Vec<Item> = outs.iter().map(|o| inputs[o.1.unwrap() as usize].clone()).collect();
                ensure_eq!(got, st, "func::{}: order of the results", op);
            }
        }
        Ok(())
    });
}
