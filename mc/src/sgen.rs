//! Script functions for the `#[script]` macro: their syntax, what they mean (an independent model of the named
//! stack), and the comparison of a compiled script with that meaning.
use crate::engine::*;
use crate::genrun::Out;
use crate::refs::*;
use crate::refvm::{exec, Stub};
use crate::{ensure, ensure_eq};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ty {
    Int,
    Bool,
    Bytes,
    /// an item taken from an unknown depth
    Unk,
}
use Ty::*;

#[derive(Clone, Debug)]
pub struct PushVal {
    pub text: String,
    pub ty: Ty,
    pub bytes: Vec<u8>,
    /// value, if the source says it (a literal)
    pub known: Option<i64>,
}
pub fn lit(n: i64) -> PushVal {
    PushVal { text: n.to_string(), ty: Int, bytes: num(n), known: Some(n) }
}
pub fn blit(s: &str) -> PushVal {
    PushVal { text: format!("b\"{}\"", s), ty: Bytes, bytes: s.as_bytes().to_vec(), known: None }
}
pub fn tlit(b: bool) -> PushVal {
    PushVal { text: b.to_string(), ty: Bool, bytes: if b { vec![1] } else { vec![] }, known: None }
}
pub fn expr(text: &str, ty: Ty, bytes: Vec<u8>) -> PushVal {
    PushVal { text: text.into(), ty, bytes, known: None }
}
pub const P_INT: i64 = 1;
pub const P_BYTES: &[u8] = b"param";
pub fn param(ty: Ty) -> PushVal {
    match ty {
        Int => expr("params.p_int", Int, num(P_INT)),
        Bool => expr("params.p_bool", Bool, vec![1]),
        _ => expr("params.p_bytes", Bytes, P_BYTES.to_vec()),
    }
}

pub type Names = Option<Vec<String>>;
#[derive(Clone, Debug)]
pub enum Stmt {
    Push { v: PushVal, name: Option<String> },
    Op { code: u8, args: Names, outs: Names },
    Depth { of: String, off: Option<PushVal>, name: Option<String> },
    Transmute { name: String, to: Ty, bound: bool },
    If { not: bool, args: Names, then: Vec<Stmt>, els: Option<Vec<Stmt>>, braces: bool },
    /// A `{}` block around statements.
    Block(Vec<Stmt>),
    /// Something no script may contain.
    Bad(String),
}
pub fn some(v: &[&str]) -> Names {
    Some(v.iter().map(|s| s.to_string()).collect())
}
pub fn op(code: u8, args: &[&str]) -> Stmt {
    Stmt::Op { code, args: some(args), outs: None }
}
pub fn bare(code: u8) -> Stmt {
    Stmt::Op { code, args: None, outs: None }
}
pub fn lop(outs: &[&str], code: u8, args: &[&str]) -> Stmt {
    Stmt::Op { code, args: some(args), outs: some(outs) }
}
pub fn push(name: &str, v: PushVal) -> Stmt {
    Stmt::Push { v, name: if name.is_empty() { None } else { Some(name.into()) } }
}

#[derive(Clone, Debug)]
pub struct Input {
    pub name: String,
    pub rust_ty: String,
    pub ty: Ty,
    pub variants: Names,
    /// expression for its value and what it pushes
    pub value: String,
    pub bytes: Vec<u8>,
}
/// An input whose value is different for every `i`.
pub fn input(name: &str, ty: Ty, i: usize) -> Input {
    let (rust_ty, value, bytes) = match ty {
        Int => ("i32", format!("{}", 2 + i), num(2 + i as i64)),
        Bool => ("bool", format!("{}", i % 2 == 0), if i % 2 == 0 { vec![1] } else { vec![] }),
        _ => {
            let b: Vec<u8> = (0..5).map(|k| 0xa0u8.wrapping_add((i * 7 + k) as u8)).collect();
            ("ByteArray", format!("bytes(&{:?})", b), b)
        }
    };
    Input { name: name.into(), rust_ty: rust_ty.into(), ty, variants: None, value, bytes }
}
pub type Conj = Vec<(String, bool)>;
#[derive(Clone, Debug)]
pub struct Prog {
    pub inputs: Vec<Input>,
    pub variants: Vec<(String, Vec<Conj>)>,
    pub body: Vec<Stmt>,
    pub debug: Option<bool>,
    pub by_ref: bool,
}
pub fn prog(inputs: Vec<Input>, body: Vec<Stmt>) -> Prog {
    Prog { inputs, variants: vec![], body, debug: None, by_ref: true }
}
/// Inputs named a, b, c… of the given types.
pub fn abc(t: &[Ty]) -> Vec<Input> {
    t.iter().enumerate().map(|(i, t)| input(&((b'a' + i as u8) as char).to_string(), *t, i)).collect()
}

pub const PRELUDE: &str = r##"
pub use bitcoin_cash::{ByteArray, Hashed, Integer, Op, Opcode::*, Ops, Script, TaggedOp};
pub fn bytes(h: &[u8]) -> ByteArray { ByteArray::from_slice_unnamed(h) }
fn names(n: &Option<Vec<Option<std::borrow::Cow<'static, str>>>>) -> String {
    match n { None => "-".into(), Some(v) => v.iter().map(|x| x.as_ref().map_or("?".to_string(), |x| x.to_string())).collect::<Vec<_>>().join(",") }
}
pub fn show(ops: &[TaggedOp]) -> String {
    ops.iter().map(|o| {
        let ser = hex::encode(Script::new(vec![o.clone()]).ser_ops().to_vec());
        let same = o.src_code.iter().all(|(_, c)| c == &o.src_code[0].1);
        let src = o.src_code.get(0).map_or(String::new(), |(_, c)| c.chars().filter(|c| !c.is_whitespace()).collect());
        format!("{}\u{1}{}\u{1}{}\u{1}{}{}{}", ser, names(&o.pushed_names), names(&o.alt_pushed_names), o.src_code.len(), if same { "=" } else { "#" }, src)
    }).collect::<Vec<_>>().join("\u{2}")
}
"##;

pub fn name_of(code: u8) -> String {
    crate::props::c23_opcodes::name_of(code).map(|s| s.to_string()).unwrap_or_else(|| format!("OP_UNKNOWN{}", code))
}
fn ty_expr(t: Ty) -> &'static str {
    match t {
        Int => "i32",
        Bool => "bool",
        _ => "ByteArray",
    }
}
fn pat(outs: &Names) -> String {
    match outs {
        None => String::new(),
        Some(v) if v.len() == 1 => format!("let {} = ", v[0]),
        Some(v) => format!("let ({}) = ", v.join(", ")),
    }
}
fn call(args: &Names) -> String {
    args.as_ref().map_or(String::new(), |a| format!("({})", a.join(", ")))
}

impl Stmt {
    /// Source texts of the operations in order; `{}` blocks are separate texts.
    fn texts(&self, out: &mut Vec<(String, bool)>) {
        match self {
            Stmt::Push { v, name } => out.push((format!("{}{};", name.as_ref().map_or(String::new(), |n| format!("let {} = ", n)), v.text), true)),
            Stmt::Op { code, args, outs } => out.push((format!("{}{}{};", pat(outs), name_of(*code), call(args)), true)),
            Stmt::Depth { of, off, name } => {
                let l = name.as_ref().map_or(String::new(), |n| format!("let {} = ", n));
                out.push((
                    match off {
                        None => format!("{}depth_of({});", l, of),
                        Some(o) => format!("{}depth_of_offset({}, {});", l, of, o.text),
                    },
                    true,
                ))
            }
            Stmt::Transmute { name, to, bound } => out.push((format!("{}transmute({}, {});", if *bound { format!("let {} = ", name) } else { String::new() }, name, ty_expr(*to)), false)),
            Stmt::If { not, args, then, els, braces } => {
                let wrap = |b: &Vec<Stmt>, out: &mut Vec<(String, bool)>| {
                    if *braces {
                        out.push(("{".into(), false));
                    }
                    b.iter().for_each(|s| s.texts(out));
                    if *braces {
                        out.push(("}".into(), false));
                    }
                };
                out.push((format!("{}{};", if *not { "OP_NOTIF" } else { "OP_IF" }, call(args)), true));
                wrap(then, out);
                if let Some(e) = els {
                    out.push(("OP_ELSE;".into(), true));
                    wrap(e, out);
                }
                out.push(("OP_ENDIF;".into(), true));
            }
            Stmt::Block(b) => {
                out.push(("{".into(), false));
                b.iter().for_each(|s| s.texts(out));
                out.push(("}".into(), false));
            }
            Stmt::Bad(t) => out.push((t.clone(), true)),
        }
    }
}

/// An operation as written: what it must compile to.
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Push(Vec<u8>),
    Code(u8),
    AnyPush,
}
impl Prog {
    pub fn head(&self) -> String {
        let mut s = "#[bitcoin_cash::script(I".to_string();
        for (n, p) in &self.variants {
            s += &format!(
                ", {} = \"{}\"",
                n,
                p.iter().map(|c| c.iter().map(|(v, pos)| format!("{}{}", if *pos { "" } else { "!" }, v)).collect::<Vec<_>>().join("&&")).collect::<Vec<_>>().join("||")
            );
        }
        if let Some(d) = self.debug {
            s += &format!(", debug = {}", d);
        }
        s += &format!(")]\nfn prog(params: {}Params", if self.by_ref { "&" } else { "" });
        for i in &self.inputs {
            s += ", ";
            if let Some(v) = &i.variants {
                s += &format!("#[variant({})] ", v.join(", "));
            }
            s += &format!("{}: {}", i.name, i.rust_ty);
        }
        s + ")"
    }
    pub fn text(&self) -> String {
        let mut t = vec![];
        self.body.iter().for_each(|s| s.texts(&mut t));
        format!("{} {{\n{}}}", self.head(), t.iter().map(|(l, _)| format!("    {}\n", l)).collect::<String>())
    }
    pub fn source(&self) -> String {
        let mut s = format!("pub struct Params {{ pub p_int: i32, pub p_bool: bool, pub p_bytes: Vec<u8> }}\n{}\n", self.text());
        s += "pub fn run() -> String {\n    let p = Params { p_int: 1, p_bool: true, p_bytes: b\"param\".to_vec() };\n    let mut s = show(&p.prog().ops());\n";
        let n_v = self.variants.len();
        for v in 0..n_v.max(1) {
            let ins = self.inputs_of(v);
            let ctor = if n_v == 0 { "I".to_string() } else { format!("I::{}", self.variants[v].0) };
            s += &format!(
                "    s += \"\\u{{3}}\"; s += &show(&{} {{ {} }}.ops());\n",
                ctor,
                ins.iter().map(|i| format!("{}: {}", i.name, i.value)).collect::<Vec<_>>().join(", ")
            );
        }
        s + "    s\n}"
    }
    pub fn inputs_of(&self, v: usize) -> Vec<&Input> {
        self.inputs.iter().filter(|i| self.variants.is_empty() || i.variants.as_ref().map_or(true, |l| l.contains(&self.variants[v].0))).collect()
    }
    /// The operations as written, in order.
    pub fn wants(&self) -> Vec<(Want, String)> {
        fn go(b: &[Stmt], out: &mut Vec<Want>) {
            for s in b {
                match s {
                    Stmt::Push { v, .. } => out.push(Want::Push(v.bytes.clone())),
                    Stmt::Op { code, .. } => out.push(Want::Code(*code)),
                    Stmt::Depth { .. } => out.push(Want::AnyPush),
                    Stmt::Transmute { .. } => {}
                    Stmt::If { not, then, els, .. } => {
                        out.push(Want::Code(if *not { 0x64 } else { 0x63 }));
                        go(then, out);
                        if let Some(e) = els {
                            out.push(Want::Code(0x67));
                            go(e, out);
                        }
                        out.push(Want::Code(0x68));
                    }
                    Stmt::Block(b) => go(b, out),
                    Stmt::Bad(_) => out.push(Want::AnyPush),
                }
            }
        }
        let mut w = vec![];
        go(&self.body, &mut w);
        let mut t = vec![];
        self.body.iter().for_each(|s| s.texts(&mut t));
        let t: Vec<String> = t.into_iter().filter(|x| x.1).map(|x| x.0).collect();
        assert_eq!(w.len(), t.len(), "ENGINE: texts and operations differ in number");
        w.into_iter().zip(t).collect()
    }
}

// ---- what opcodes do to the named stack --------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum In {
    T(Ty),
    Any,
    /// same type as input k
    Same(usize),
    /// documented as a boolean, but any item is allowed
    Truth,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum OutT {
    Mv(usize),
    New(Ty),
    /// the number an opcode like OP_5 pushes
    Num(i64),
}
/// Inputs and outputs, bottom first. None: not a plain opcode.
pub fn sem(code: u8) -> Option<(Vec<In>, Vec<OutT>)> {
    use In::{Any, Same, Truth, T};
    use OutT::*;
    let i = T(Int);
    let b = T(Bytes);
    let o = T(Bool);
    let any = |n: usize, m: &[usize]| (vec![Any; n], m.iter().map(|k| Mv(*k)).collect());
    Some(match code {
        0x00 => (vec![], vec![Num(0)]),
        0x4f => (vec![], vec![Num(-1)]),
        0x51..=0x60 => (vec![], vec![Num(code as i64 - 0x50)]),
        0x61 | 0xb0 | 0xb3..=0xb9 | 0x6a | 0xab => (vec![], vec![]),
        0x69 => (vec![Truth], vec![]),
        0x6d => any(2, &[]),
        0x6e => any(2, &[0, 1, 0, 1]),
        0x6f => any(3, &[0, 1, 2, 0, 1, 2]),
        0x70 => any(4, &[0, 1, 2, 3, 0, 1]),
        0x71 => any(6, &[2, 3, 4, 5, 0, 1]),
        0x72 => any(4, &[2, 3, 0, 1]),
        0x74 => (vec![], vec![New(Int)]),
        0x75 => any(1, &[]),
        0x76 => any(1, &[0, 0]),
        0x77 => any(2, &[1]),
        0x78 => any(2, &[0, 1, 0]),
        0x7b => any(3, &[1, 2, 0]),
        0x7c => any(2, &[1, 0]),
        0x7d => any(2, &[1, 0, 1]),
        0x7e | 0x84 | 0x85 | 0x86 => (vec![b, b], vec![New(Bytes)]),
        0x7f => (vec![b, i], vec![New(Bytes), New(Bytes)]),
        0x80 => (vec![i, i], vec![New(Bytes)]),
        0x81 => (vec![b], vec![New(Int)]),
        0x82 => (vec![b], vec![Mv(0), New(Int)]),
        0x87 => (vec![Any, Same(0)], vec![New(Bool)]),
        0x88 => (vec![Any, Same(0)], vec![]),
        0x8b | 0x8c | 0x8f | 0x90 => (vec![i], vec![New(Int)]),
        0x91 => (vec![o], vec![New(Bool)]),
        0x92 => (vec![i], vec![New(Bool)]),
        0x93 | 0x94 | 0x96 | 0x97 | 0xa3 | 0xa4 => (vec![i, i], vec![New(Int)]),
        0x9a | 0x9b => (vec![o, o], vec![New(Bool)]),
        0x9c | 0x9e | 0x9f..=0xa2 => (vec![i, i], vec![New(Bool)]),
        0x9d => (vec![i, i], vec![]),
        0xa5 => (vec![i, i, i], vec![New(Bool)]),
        0xa6..=0xaa | 0xbc => (vec![b], vec![New(Bytes)]),
        0xac => (vec![b, b], vec![New(Bool)]),
        0xad => (vec![b, b], vec![]),
        0xb1 | 0xb2 => (vec![i], vec![Mv(0)]),
        0xba => (vec![b, b, b], vec![New(Bool)]),
        0xbb => (vec![b, b, b], vec![]),
        _ => return None,
    })
}
pub fn plain_codes() -> Vec<u8> {
    (0..=255u8).filter(|c| sem(*c).is_some()).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Name {
    Is(String),
    Un,
    /// depends on the branch or its depth isn't known
    Fuzzy,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IntK {
    Known(i64),
    Unknown,
    /// differs between variants
    Fuzzy,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Slot {
    pub name: Name,
    pub ty: Ty,
    pub int: IntK,
    /// value, when executing (None: the opcode's result, taken from the interpreter)
    pub val: Option<Vec<u8>>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct State {
    pub stack: Vec<Slot>,
    pub alt: Vec<Slot>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// the script must be rejected
    Reject(String),
    /// nothing is claimed
    Care(String),
}
fn rej<T>(m: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Reject(m.into()))
}
fn care<T>(m: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Care(m.into()))
}
fn nm(n: &Option<String>) -> Name {
    n.as_ref().map_or(Name::Un, |n| Name::Is(n.clone()))
}
fn check_arg(arg: &str, s: &Slot) -> Result<(), Stop> {
    if arg == "__" {
        return Ok(());
    }
    match &s.name {
        Name::Is(n) if n == arg => Ok(()),
        Name::Fuzzy => care("fuzzy name"),
        n => rej(format!("argument {} is {:?}", arg, n)),
    }
}
/// What a statement did, as far as variants must agree on it.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Did {
    /// names of the items it touched
    pub touched: Vec<Name>,
    pub pushed: Vec<Name>,
    pub alt_pushed: Vec<Name>,
    /// value pushed by depth_of
    pub depth: Option<Vec<u8>>,
}
fn pop(st: &mut Vec<Slot>) -> Result<Slot, Stop> {
    st.pop().map_or_else(|| rej("stack underflow"), Ok)
}
/// Applies a statement without branches.
pub fn step(st: &mut State, s: &Stmt) -> Result<Did, Stop> {
    let mut did = Did::default();
    match s {
        Stmt::Push { v, name } => {
            if name.as_deref() == Some("__") {
                return care("item named __");
            }
            let name = nm(name);
            did.pushed.push(name.clone());
            st.stack.push(Slot { name, ty: v.ty, int: v.known.map_or(IntK::Unknown, IntK::Known), val: Some(v.bytes.clone()) });
        }
        Stmt::Depth { of, off, name } => {
            let Some(d) = st.stack.iter().rev().position(|x| x.name == Name::Is(of.clone())) else {
                if st.stack.iter().any(|x| x.name == Name::Fuzzy) {
                    return care("fuzzy name");
                }
                return rej(format!("no item {}", of));
            };
            if st.stack[st.stack.len() - d..].iter().any(|x| x.name == Name::Fuzzy) {
                return care("fuzzy name");
            }
            let o = off.as_ref().map_or(0, |o| unnum(&o.bytes).unwrap() as i64);
            let known = off.as_ref().map_or(true, |o| o.known.is_some());
            let v = num(d as i64 + o);
            did.depth = Some(v.clone());
            let name = nm(name);
            did.pushed.push(name.clone());
            st.stack.push(Slot { name, ty: Int, int: if known { IntK::Known(d as i64 + o) } else { IntK::Unknown }, val: Some(v) });
        }
        Stmt::Transmute { name, to, .. } => match st.stack.iter().rposition(|x| x.name == Name::Is(name.clone())) {
            Some(k) if !st.stack[k..].iter().any(|x| x.name == Name::Fuzzy) => st.stack[k].ty = *to,
            None if !st.stack.iter().any(|x| x.name == Name::Fuzzy) => return rej(format!("no item {}", name)),
            _ => return care("fuzzy name"),
        },
        Stmt::Op { code: code @ (0x6b | 0x6c | 0x79 | 0x7a), args, outs } => {
            let top = match code {
                0x6c => st.alt.pop().map_or_else(|| rej("altstack underflow"), Ok)?,
                _ => pop(&mut st.stack)?,
            };
            if let Some(a) = args {
                if a.len() != 1 {
                    return rej("number of arguments");
                }
                check_arg(&a[0], &top)?;
            }
            did.touched.push(top.name.clone());
            let mut item = top.clone();
            if let 0x79 | 0x7a = code {
                match top.ty {
                    Int => {}
                    Unk => return care("unknown type"),
                    t => return rej(format!("depth is a {:?}", t)),
                }
                match top.int {
                    IntK::Known(d) => {
                        if d < 0 || d as usize >= st.stack.len() {
                            return rej("depth is outside of the stack");
                        }
                        let k = st.stack.len() - 1 - d as usize;
                        item = if *code == 0x7a { st.stack.remove(k) } else { st.stack[k].clone() };
                    }
                    IntK::Fuzzy => return care("depth differs between variants"),
                    IntK::Unknown if *code == 0x7a => return rej("unknown depth"),
                    IntK::Unknown => {
                        if st.stack.is_empty() {
                            return care("unknown depth on an empty stack");
                        }
                        item = Slot { name: Name::Un, ty: Unk, int: IntK::Unknown, val: None };
                    }
                }
                did.touched.push(item.name.clone());
            }
            if let Some(o) = outs {
                if o.len() != 1 {
                    return rej("number of outputs");
                }
                if o[0] != "__" {
                    item.name = Name::Is(o[0].clone());
                }
            }
            if *code == 0x6b {
                did.alt_pushed.push(item.name.clone());
                st.alt.push(item);
            } else {
                did.pushed.push(item.name.clone());
                st.stack.push(item);
            }
        }
        Stmt::Op { code, args, outs } => {
            let Some((ins, out_t)) = sem(*code) else {
                return care("not a plain opcode");
            };
            if st.stack.len() < ins.len() {
                return rej("stack underflow");
            }
            let items = st.stack.split_off(st.stack.len() - ins.len());
            if let Some(a) = args {
                if a.len() != items.len() {
                    return rej("number of arguments");
                }
                // a wrong name is wrong even if another one can't be judged
                let r: Vec<_> = a.iter().zip(&items).map(|(a, s)| check_arg(a, s)).collect();
                if let Some(e) = r.iter().find(|e| matches!(e, Err(Stop::Reject(_)))).or(r.iter().find(|e| e.is_err())) {
                    e.clone()?;
                }
            }
            let mut unsure = None;
            for (k, t) in ins.iter().enumerate() {
                let have = items[k].ty;
                let want = match t {
                    In::T(t) => *t,
                    In::Any => continue,
                    In::Truth if have == Bool => continue,
                    In::Truth => {
                        unsure = Some("truth of a non-boolean");
                        continue;
                    }
                    In::Same(j) => items[*j].ty,
                };
                if have == Unk || want == Unk {
                    unsure = Some("unknown type");
                } else if have != want {
                    return rej(format!("argument {} is a {:?}, not a {:?}", k, have, want));
                }
            }
            if outs.as_ref().map_or(false, |o| o.len() != out_t.len()) {
                return rej("number of outputs");
            }
            if let Some(u) = unsure {
                return care(u);
            }
            did.touched = items.iter().map(|s| s.name.clone()).collect();
            for (k, t) in out_t.iter().enumerate() {
                let mut s = match t {
                    OutT::Mv(j) => items[*j].clone(),
                    OutT::New(ty) => Slot { name: Name::Un, ty: *ty, int: IntK::Unknown, val: None },
                    OutT::Num(n) => Slot { name: Name::Un, ty: Int, int: IntK::Known(*n), val: Some(num(*n)) },
                };
                if let Some(o) = outs {
                    if o[k] != "__" {
                        s.name = Name::Is(o[k].clone());
                    } else if !matches!(t, OutT::Mv(_)) {
                        return care("placeholder for a new item");
                    }
                }
                did.pushed.push(s.name.clone());
                st.stack.push(s);
            }
        }
        Stmt::Bad(t) => return rej(t.clone()),
        Stmt::If { .. } | Stmt::Block(_) => unreachable!("ENGINE: step on a block"),
    }
    Ok(did)
}

/// What an accepted script's operation must look like.
#[derive(Clone, Debug)]
pub struct Info {
    pub pushed: Vec<Name>,
    pub alt: Vec<Name>,
    pub depth: Option<Vec<u8>>,
}
fn live(p: &[Conj], dec: &[(String, bool)]) -> bool {
    p.is_empty() || p.iter().any(|c| c.iter().all(|(n, b)| dec.iter().all(|(m, d)| m != n || d == b)))
}
impl Prog {
    fn n_variants(&self) -> usize {
        self.variants.len().max(1)
    }
    fn live(&self, v: usize, dec: &[(String, bool)]) -> bool {
        self.variants.is_empty() || live(&self.variants[v].1, dec)
    }
    pub fn start(&self, v: usize) -> State {
        State {
            stack: self.inputs_of(v).iter().map(|i| Slot { name: Name::Is(i.name.clone()), ty: i.ty, int: IntK::Unknown, val: Some(i.bytes.clone()) }).collect(),
            alt: vec![],
        }
    }
    /// Whether the script must be accepted, and then the names its operations push.
    pub fn verdict(&self) -> Result<Vec<Info>, Stop> {
        for i in &self.inputs {
            for v in i.variants.iter().flatten() {
                if !self.variants.iter().any(|x| x.0 == *v) {
                    return rej("undefined variant");
                }
            }
        }
        let mut states: Vec<State> = (0..self.n_variants()).map(|v| self.start(v)).collect();
        let mut infos = vec![];
        self.check(&self.body, &mut states, &mut vec![], &mut infos)?;
        Ok(infos)
    }
    /// The state of each variant after the script.
    pub fn states(&self) -> Result<Vec<State>, Stop> {
        let mut states: Vec<State> = (0..self.n_variants()).map(|v| self.start(v)).collect();
        self.check(&self.body, &mut states, &mut vec![], &mut vec![])?;
        Ok(states)
    }
    fn check(&self, body: &[Stmt], states: &mut Vec<State>, dec: &mut Vec<(String, bool)>, infos: &mut Vec<Info>) -> Result<(), Stop> {
        for s in body {
            if let Stmt::Block(b) = s {
                self.check(b, states, dec, infos)?;
                continue;
            }
            let here: Vec<usize> = (0..states.len()).filter(|v| self.live(*v, dec)).collect();
            if here.is_empty() {
                return care("no variant gets here");
            }
            // the condition is consumed like an argument
            let cond;
            let plain = match s {
                Stmt::If { args, .. } => {
                    cond = Stmt::Op { code: 0x75, args: args.clone(), outs: None };
                    &cond
                }
                s => s,
            };
            let mut dids: Vec<Result<Did, Stop>> = vec![];
            for v in &here {
                dids.push(step(&mut states[*v], plain));
            }
            if let Some(e) = dids.iter().find(|d| matches!(d, Err(Stop::Reject(_)))).or(dids.iter().find(|d| d.is_err())) {
                e.clone()?;
            }
            let dids: Vec<Did> = dids.into_iter().map(|d| d.unwrap()).collect();
            for d in &dids {
                if d.depth != dids[0].depth {
                    return rej("depth differs between variants");
                }
                if d.touched != dids[0].touched {
                    return care("variants have different items here");
                }
            }
            // compile-time values that differ between variants are unclear
            let n = states[here[0]].stack.len();
            for k in 0..dids[0].pushed.len().min(n) {
                let at = |st: &State| st.stack[st.stack.len() - 1 - k].int;
                let first = at(&states[here[0]]);
                if here.iter().any(|v| at(&states[*v]) != first) {
                    for v in &here {
                        let m = states[*v].stack.len();
                        states[*v].stack[m - 1 - k].int = IntK::Fuzzy;
                    }
                }
            }
            if let Stmt::Transmute { .. } = s {
                continue;
            }
            let d = &dids[0];
            infos.push(Info { pushed: d.pushed.clone(), alt: d.alt_pushed.clone(), depth: d.depth.clone() });
            let Stmt::If { not, args, then, els, .. } = s else { continue };
            infos.last_mut().unwrap().pushed.clear();
            let Some(name) = args.as_ref().map(|a| a[0].clone()) else {
                return care("condition without a name");
            };
            if dec.iter().any(|d| d.0 == name && name != "__") && !self.variants.is_empty() {
                return care("the same condition twice");
            }
            let empty = || Info { pushed: vec![], alt: vec![], depth: None };
            let before = states.clone();
            dec.push((name.clone(), !not));
            let in_then: Vec<bool> = (0..states.len()).map(|v| self.live(v, dec)).collect();
            self.check(then, states, dec, infos)?;
            dec.pop();
            if els.is_some() {
                infos.push(empty());
            }
            let after_then = std::mem::replace(states, before);
            dec.push((name, *not));
            let in_else: Vec<bool> = (0..states.len()).map(|v| self.live(v, dec)).collect();
            self.check(els.as_deref().unwrap_or(&[]), states, dec, infos)?;
            dec.pop();
            infos.push(empty());
            for (v, t) in after_then.into_iter().enumerate() {
                match (in_then[v], in_else[v]) {
                    (true, false) => states[v] = t,
                    (true, true) => {
                        let e = &mut states[v];
                        merge(&mut e.stack, &t.stack)?;
                        merge(&mut e.alt, &t.alt)?;
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    }

    /// All ways through the script: for each the variant and the decisions in order.
    pub fn paths(&self) -> Vec<(usize, Vec<bool>)> {
        fn go(p: &Prog, v: usize, body: &[Stmt], dec: &mut Vec<(String, bool)>) -> Vec<Vec<bool>> {
            let mut out = vec![vec![]];
            for s in body {
                let nexts: Vec<Vec<bool>> = match s {
                    Stmt::Block(b) => go(p, v, b, dec),
                    Stmt::If { not, args, then, els, .. } => {
                        let name = args.as_ref().and_then(|a| a.get(0).cloned()).unwrap_or_default();
                        let mut n = vec![];
                        for (d, b) in [(true, Some(then)), (false, els.as_ref())] {
                            dec.push((name.clone(), d != *not));
                            if p.live(v, dec) {
                                let empty = vec![];
                                for r in go(p, v, b.unwrap_or(&empty), dec) {
                                    n.push([vec![d], r].concat());
                                }
                            }
                            dec.pop();
                        }
                        n
                    }
                    _ => continue,
                };
                out = out.iter().flat_map(|o| nexts.iter().map(move |n| [o.clone(), n.clone()].concat())).collect();
            }
            out
        }
        (0..self.n_variants()).flat_map(|v| go(self, v, &self.body, &mut vec![]).into_iter().map(move |d| (v, d))).collect()
    }

    /// Runs the compiled operations along one way through the script, comparing the stack with the model after each.
    pub fn walk(&self, ops: &[Vec<u8>], ins: &[Vec<u8>], v: usize, dec: &[bool], ch: &mut Chooser) -> Res {
        let mut chk = Stub { good: vec![], locks: true };
        let (mut st, mut alt) = (vec![], vec![]);
        for o in ins {
            exec(o, &mut st, &mut alt, &mut chk).map_err(|e| Fail::Violation(format!("pushing the inputs of variant {} failed: {}", v, e)))?;
        }
        let mut m = self.start(v);
        let mut w = Walk { st, alt, chk, dec, d: 0, at: 0, done: false };
        compare(&mut m, &w.st, &w.alt, "after the inputs", ops.len())?;
        w.body(&self.body, ops, &mut m, ch)?;
        ensure!(w.done || w.at == ops.len(), "the script has {} operations, {} were written", ops.len(), w.at);
        Ok(())
    }
}
fn merge(e: &mut Vec<Slot>, t: &[Slot]) -> Result<(), Stop> {
    if e.len() != t.len() {
        return rej("branches leave different numbers of items");
    }
    let mut unsure = None;
    for (e, t) in e.iter_mut().zip(t) {
        match (&e.name, &t.name) {
            (Name::Un, Name::Un) => {}
            (Name::Is(a), Name::Is(b)) if a == b => {}
            (Name::Is(a), Name::Is(b)) if a.trim_start_matches('_') == b.trim_start_matches('_') => e.name = Name::Fuzzy,
            (Name::Is(a), Name::Is(b)) => return rej(format!("branches leave {} and {}", b, a)),
            _ => unsure = Some("one branch leaves an unnamed item"),
        }
        match (e.ty, t.ty) {
            (a, b) if a == b => {}
            (Unk, _) | (_, Unk) => unsure = Some("unknown type"),
            (a, b) => return rej(format!("branches leave {:?} and {:?}", b, a)),
        }
        if e.int != t.int {
            e.int = if e.int == IntK::Fuzzy || t.int == IntK::Fuzzy { IntK::Fuzzy } else { IntK::Unknown };
        }
    }
    unsure.map_or(Ok(()), care)
}
struct Walk<'a> {
    st: Vec<Vec<u8>>,
    alt: Vec<Vec<u8>>,
    chk: Stub,
    dec: &'a [bool],
    d: usize,
    at: usize,
    /// the execution failed, e.g. in OP_VERIFY: the rest isn't executed
    done: bool,
}
fn compare(m: &mut State, st: &[Vec<u8>], alt: &[Vec<u8>], what: &str, _n: usize) -> Res {
    for (which, m, st) in [("stack", &mut m.stack, st), ("altstack", &mut m.alt, alt)] {
        ensure!(m.len() == st.len(), "{}: the {} holds {} items, but the names stand for {}: {:?}", what, which, st.len(), m.len(), m.iter().map(|s| &s.name).collect::<Vec<_>>());
        for (s, v) in m.iter_mut().zip(st) {
            match &s.val {
                Some(x) => ensure!(x == v, "{}: {} item {:?} should be {} but {} is there", what, which, s.name, hex::encode(x), hex::encode(v)),
                None => s.val = Some(v.clone()),
            }
        }
    }
    Ok(())
}
impl<'a> Walk<'a> {
    fn skip(&mut self, b: &[Stmt]) {
        for s in b {
            match s {
                Stmt::Transmute { .. } => {}
                Stmt::Block(b) => self.skip(b),
                Stmt::If { then, els, .. } => {
                    self.at += 1;
                    self.skip(then);
                    if let Some(e) = els {
                        self.at += 1;
                        self.skip(e);
                    }
                    self.at += 1;
                }
                _ => self.at += 1,
            }
        }
    }
    fn body(&mut self, b: &[Stmt], ops: &[Vec<u8>], m: &mut State, ch: &mut Chooser) -> Res {
        for s in b {
            if self.done {
                return Ok(());
            }
            match s {
                Stmt::Block(b) => self.body(b, ops, m, ch)?,
                Stmt::Transmute { .. } => {
                    let _ = step(m, s);
                }
                Stmt::If { then, els, args, .. } => {
                    self.at += 1;
                    if self.st.pop().is_none() {
                        return Err(Fail::Violation(format!("no condition on the stack for operation {}", self.at)));
                    }
                    ch.op();
                    if step(m, &Stmt::Op { code: 0x75, args: args.clone(), outs: None }).is_err() {
                        self.done = true;
                        return Ok(());
                    }
                    let d = self.dec[self.d];
                    self.d += 1;
                    if d {
                        self.body(then, ops, m, ch)?;
                    } else {
                        self.skip(then);
                    }
                    if let Some(e) = els {
                        self.at += 1;
                        if d {
                            self.skip(e);
                        } else {
                            self.body(e, ops, m, ch)?;
                        }
                    }
                    self.at += 1;
                }
                s => {
                    let Some(o) = ops.get(self.at) else { return Err(Fail::Violation("the script is shorter than written".into())) };
                    self.at += 1;
                    ch.op();
                    if step(m, s).is_err() {
                        self.done = true; // a name from another branch; nothing to compare with
                        return Ok(());
                    }
                    if exec(o, &mut self.st, &mut self.alt, &mut self.chk).is_err() {
                        self.done = true;
                        return Ok(());
                    }
                    compare(m, &self.st, &self.alt, &format!("after operation {}", self.at), ops.len())?;
                }
            }
        }
        Ok(())
    }
}

/// One operation as the generated program printed it.
#[derive(Clone, Debug)]
pub struct Got {
    pub ser: Vec<u8>,
    pub pushed: Option<Vec<Option<String>>>,
    pub alt: Option<Vec<Option<String>>>,
    pub n_src: String,
    pub src: String,
}
fn parse_ops(s: &str) -> Result<Vec<Got>, String> {
    let names = |t: &str| match t {
        "-" => None,
        "" => Some(vec![]),
        t => Some(t.split(',').map(|x| (x != "?").then(|| x.to_string())).collect()),
    };
    s.split('\u{2}')
        .filter(|x| !x.is_empty())
        .map(|o| {
            let f: Vec<&str> = o.split('\u{1}').collect();
            if f.len() != 4 {
                return Err(format!("ENGINE: bad line {:?}", o));
            }
            let (n, src) = f[3].split_at(f[3].find(|c| c == '=' || c == '#').ok_or("ENGINE: no source")?);
            Ok(Got { ser: hex::decode(f[0]).map_err(|e| e.to_string())?, pushed: names(f[1]), alt: names(f[2]), n_src: n.into(), src: src.into() })
        })
        .collect()
}
pub fn parse_out(text: &str) -> Result<Vec<Vec<Got>>, Fail> {
    text.split('\u{3}').map(parse_ops).collect::<Result<_, _>>().map_err(Fail::Violation)
}
fn effect_of(ser: &[u8]) -> Option<Want> {
    let t = crate::refvm::parse_tokens(ser)?;
    if t.len() != 1 {
        return None;
    }
    Some(match (&t[0].data, t[0].code) {
        (_, c @ (0x4f | 0x51..=0x60)) => Want::Push(num(if c == 0x4f { -1 } else { c as i64 - 0x50 })),
        (Some(d), _) => Want::Push(d.clone()),
        (None, c) => Want::Code(c),
    })
}
impl Prog {
    /// C21: the compiled operations are those written, the input structs push the inputs.
    pub fn judge_ops(&self, o: &Out, ch: &mut Chooser) -> Res {
        ch.note(|| self.text());
        let text = match o {
            Out::Ran(t) => t,
            Out::Rejected(m) => {
                if self.verdict().is_ok() {
                    return Err(Fail::Violation(format!("a correct script isn't compiled at all: {}", trunc(m, 300))));
                }
                return Ok(());
            }
            Out::Panicked(m) => return Err(Fail::Violation(format!("building the script panicked: {}", m))),
            Out::Died(m) => return Err(Fail::Violation(format!("building the script ended the program: {}", m))),
        };
        let got = parse_out(text)?;
        let want = self.wants();
        ensure_eq!(got.len(), 1 + self.n_variants(), "number of input structs");
        ensure!(got[0].len() == want.len(), "the script has {} operations but {} were written: {:?}", got[0].len(), want.len(), got[0].iter().map(|g| hex::encode(&g.ser)).collect::<Vec<_>>());
        for (k, (g, (w, t))) in got[0].iter().zip(&want).enumerate() {
            ch.op();
            let ok = match w {
                // a written opcode is that byte, not some other way to push the same
                Want::Code(c) => g.ser == [*c],
                Want::Push(_) => effect_of(&g.ser).as_ref() == Some(w),
                Want::AnyPush => matches!(effect_of(&g.ser), Some(Want::Push(_))),
            };
            ensure!(ok, "operation {} (`{}`) compiled to {}", k, t, hex::encode(&g.ser));
            if self.debug != Some(false) {
                let strip = |s: &str| s.chars().filter(|c| !c.is_whitespace() && *c != ';').collect::<String>();
                ensure!(g.n_src == "4" && strip(&g.src) == format!("={}", strip(t)), "operation {} (`{}`) is said to come from `{}` ({} widths)", k, t, g.src, g.n_src);
            }
        }
        for v in 0..self.n_variants() {
            let ins = self.inputs_of(v);
            let g = &got[1 + v];
            ensure!(g.len() == ins.len(), "input struct {} pushes {} items instead of {}", v, g.len(), ins.len());
            for (k, (g, i)) in g.iter().zip(ins).enumerate() {
                ch.op();
                ensure!(effect_of(&g.ser) == Some(Want::Push(i.bytes.clone())), "input {} of variant {} (`{}` = {}) is pushed as {}", k, v, i.name, i.value, hex::encode(&g.ser));
                if self.debug != Some(false) {
                    ensure_eq!(g.pushed, Some(vec![Some(i.name.clone())]), "name of input {} of variant {}", k, v);
                }
            }
        }
        Ok(())
    }
    /// C22: accepted exactly if the names line up, and then they name what is really there.
    pub fn judge_names(&self, o: &Out, ch: &mut Chooser) -> Res {
        ch.note(|| self.text());
        let verdict = self.verdict();
        let text = match o {
            Out::Ran(t) => t,
            Out::Rejected(m) => {
                ensure!(verdict.is_err(), "a correct script is rejected: {}", trunc(m, 300));
                return Ok(());
            }
            Out::Panicked(m) => return Err(Fail::Violation(format!("building the script panicked: {}", m))),
            Out::Died(m) => return Err(Fail::Violation(format!("building the script ended the program: {}", m))),
        };
        let infos = match verdict {
            Ok(i) => i,
            Err(Stop::Care(_)) => return Ok(()),
            Err(Stop::Reject(m)) => return Err(Fail::Violation(format!("a wrong script is accepted ({})", m))),
        };
        let got = parse_out(text)?;
        ensure!(got[0].len() == infos.len(), "the script has {} operations but {} were written", got[0].len(), infos.len());
        let names_ok = |g: &Option<Vec<Option<String>>>, w: &[Name]| match g {
            None => self.debug == Some(false),
            Some(g) => {
                g.len() == w.len()
                    && g.iter().zip(w).all(|(g, w)| match w {
                        Name::Is(n) => g.as_deref() == Some(n.as_str()),
                        Name::Un => g.is_none(),
                        Name::Fuzzy => true,
                    })
            }
        };
        for (k, (g, i)) in got[0].iter().zip(&infos).enumerate() {
            ch.op();
            ensure!(names_ok(&g.pushed, &i.pushed), "operation {} (`{}`) is said to push {:?}, it pushes {:?}", k, g.src, g.pushed, i.pushed);
            ensure!(names_ok(&g.alt, &i.alt), "operation {} (`{}`) is said to push {:?} to the altstack, it pushes {:?}", k, g.src, g.alt, i.alt);
            if let Some(d) = &i.depth {
                ensure!(effect_of(&g.ser) == Some(Want::Push(d.clone())), "operation {} (`{}`) pushes {}, the depth is {}", k, g.src, hex::encode(&g.ser), hex::encode(d));
            }
        }
        let ops: Vec<Vec<u8>> = got[0].iter().map(|g| g.ser.clone()).collect();
        for (v, d) in self.paths() {
            let ins: Vec<Vec<u8>> = got[1 + v].iter().map(|g| g.ser.clone()).collect();
            self.walk(&ops, &ins, v, &d, ch)?;
        }
        Ok(())
    }
}
