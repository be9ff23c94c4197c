//! C04: structs with the derived codec, generated, compiled by rustc with the real derive macro and run.
use crate::engine::*;
use crate::genrun::*;
use crate::refs::*;
use crate::{ensure, ensure_eq};

/// A field type: its name, two values with their encodings, and an expression for its default.
#[derive(Clone)]
struct Ty {
    name: &'static str,
    vals: Vec<(String, Vec<u8>)>,
}
fn types() -> Vec<Ty> {
    let t = |name, vals: Vec<(&str, Vec<u8>)>| Ty { name, vals: vals.into_iter().map(|(a, b)| (a.to_string(), b)).collect() };
    let h1: Vec<u8> = (0..32).collect();
    vec![
        t("u8", vec![("0xa1", vec![0xa1]), ("0x07", vec![7])]),
        t("ByteArray", vec![("ByteArray::from_slice_unnamed(b\"xyz\")", var_bytes(b"xyz")), ("ByteArray::from_slice_unnamed(&[9u8; 300])", var_bytes(&[9; 300]))]),
        t("Vec<u16>", vec![("vec![0x0102, 0x0304]", vec![2, 2, 1, 4, 3]), ("vec![0xffee]", vec![1, 0xee, 0xff])]),
        t("i64", vec![("-2", (-2i64).to_le_bytes().to_vec()), ("0x0102030405060708", 0x0102030405060708i64.to_le_bytes().to_vec())]),
        t("Inner", vec![("Inner { a: 0x0b0a, b: 0, c: true }", vec![0x0a, 0x0b, 1]), ("Inner { a: 1, b: 0, c: false }", vec![1, 0, 0])]),
        t("Sneaky", vec![("Sneaky(3)", vec![3]), ("Sneaky(250)", vec![250])]),
        t("bool", vec![("true", vec![1]), ("false", vec![0])]),
        t("Script", vec![("Script::deser_ops(bytes(&[0x76])).unwrap()", vec![1, 0x76]), ("Script::deser_ops(bytes(&[2, 5, 6, 0x87])).unwrap()", vec![4, 2, 5, 6, 0x87])]),
        t("Sha256d", vec![("Sha256d::from_slice(&(0..32).collect::<Vec<u8>>()).unwrap()", h1), ("Sha256d::from_slice(&[8u8; 32]).unwrap()", vec![8; 32])]),
        t("u32", vec![("0x01020304", vec![4, 3, 2, 1]), ("9", vec![9, 0, 0, 0])]),
        t("Vec<Vec<u8>>", vec![("vec![vec![1u8, 2], vec![]]", vec![2, 2, 1, 2, 0]), ("vec![vec![5u8]]", vec![1, 1, 5])]),
        t("Seven", vec![("Seven(1, vec![2])", vec![1, 1, 2]), ("Seven(7, vec![])", vec![7, 0])]),
        t("bitcoin_cash::ByteArray", vec![("b\"q\".as_ref().into()", vec![1, b'q']), ("b\"rstu\".as_ref().into()", vec![4, b'r', b's', b't', b'u'])]),
    ]
}
const PRELUDE: &str = r##"
pub use bitcoin_cash::{ByteArray, Hashed, Op, Opcode, Script, Sha256d};
#[derive(bitcoin_cash::BitcoinCode, Clone, Debug, PartialEq, Default)]
pub struct Inner { pub a: u16, #[bitcoin_code(skip)] pub b: u8, pub c: bool }
// its own methods have the names of the codec's, but aren't the codec
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Sneaky(pub u8);
impl Sneaky {
    pub fn ser(&self) -> ByteArray { panic!("inherent ser") }
    pub fn deser_rest(_: ByteArray) -> Result<(Self, ByteArray), bitcoin_cash::error::Error> { panic!("inherent deser_rest") }
}
impl bitcoin_cash::BitcoinCode for Sneaky {
    fn ser(&self) -> ByteArray { bitcoin_cash::BitcoinCode::ser(&self.0) }
    fn deser_rest(data: ByteArray) -> Result<(Self, ByteArray), bitcoin_cash::error::Error> {
        let (x, r) = <u8 as bitcoin_cash::BitcoinCode>::deser_rest(data)?; Ok((Sneaky(x), r))
    }
}
// a default that isn't all zeroes
#[derive(Clone, Debug, PartialEq)]
pub struct Seven(pub u8, pub Vec<u8>);
impl Default for Seven { fn default() -> Self { Seven(7, vec![7, 7]) } }
impl bitcoin_cash::BitcoinCode for Seven {
    fn ser(&self) -> ByteArray { bitcoin_cash::BitcoinCode::ser(&self.0).concat(bitcoin_cash::BitcoinCode::ser(&self.1)) }
    fn deser_rest(data: ByteArray) -> Result<(Self, ByteArray), bitcoin_cash::error::Error> {
        let (x, r) = <u8 as bitcoin_cash::BitcoinCode>::deser_rest(data)?;
        let (y, r) = <Vec<u8> as bitcoin_cash::BitcoinCode>::deser_rest(r)?;
        Ok((Seven(x, y), r))
    }
}
pub fn bytes(h: &[u8]) -> ByteArray { ByteArray::from_slice_unnamed(h) }
"##;

#[derive(Clone)]
struct Field {
    name: String,
    ty: usize,
    skip: bool,
    /// attributes before and after the skip marker
    pre: String,
    post: String,
    vis: &'static str,
}
#[derive(Clone)]
struct Decl {
    attrs: String,
    /// what stands in front of the struct instead of the plain derive
    derive: String,
    uses: &'static str,
    fields: Vec<Field>,
    name: String,
    must_compile: bool,
}
fn field(name: &str, ty: usize, skip: bool) -> Field {
    Field { name: name.into(), ty, skip, pre: String::new(), post: String::new(), vis: "pub " }
}
fn decl(fields: Vec<Field>) -> Decl {
    Decl {
        attrs: String::new(),
        derive: "#[derive(BitcoinCode, Clone, Debug, PartialEq)]".into(),
        uses: "use bitcoin_cash::BitcoinCode;",
        fields,
        name: "S".into(),
        must_compile: true,
    }
}
const TAILS: [&[u8]; 2] = [&[], &[0x00, 0xff, 0x01]];

/// All assignments of the fields' values (up to `cap` fields vary).
fn assignments(d: &Decl) -> Vec<Vec<usize>> {
    let n = d.fields.len().min(4);
    (0..1usize << n).map(|m| (0..d.fields.len()).map(|i| if i < 4 { m >> i & 1 } else { i & 1 }).collect()).collect()
}
impl Decl {
    fn show(&self) -> String {
        let t = types();
        let mut s = format!("{}\n{}\npub struct {} {{\n", self.attrs, self.derive, self.name);
        for f in &self.fields {
            s += &format!("    {} {} {}\n    {}{}: {},\n", f.pre, if f.skip { "#[bitcoin_code(skip)]" } else { "" }, f.post, f.vis, f.name, t[f.ty].name);
        }
        s + "}"
    }
    fn source(&self) -> String {
        let t = types();
        let mut s = format!("{}\n{}\npub fn run() -> String {{\n    let mut out: Vec<String> = Vec::new();\n", self.uses, self.show());
        for a in assignments(self) {
            let lit = |dfl: bool| {
                self.fields
                    .iter()
                    .zip(&a)
                    .map(|(f, &v)| format!("{}: {}", f.name, if dfl && f.skip { "std::default::Default::default()".into() } else { t[f.ty].vals[v].0.clone() }))
                    .collect::<Vec<_>>()
                    .join(", ")
            };
            s += &format!(
                "    {{ let __v = {n} {{ {} }}; let __w = {n} {{ {} }}; let __e = bitcoin_cash::BitcoinCode::ser(&__v).to_vec();\n    let mut __o = hex::encode(&__e);\n",
                lit(false),
                lit(true),
                n = self.name
            );
            for tail in TAILS {
                s += &format!(
                    "    {{ let mut __b = hex::decode(\"{}\").unwrap(); __b.extend_from_slice(&{:?}); __o += &match <{} as bitcoin_cash::BitcoinCode>::deser_rest(bytes(&__b)) {{ Ok((x, r)) => if x == __w && r.to_vec() == {:?} as [u8; {}] {{ \" ok\".to_string() }} else {{ format!(\" WRONG:{{:?}}:rest={{}}\", x, hex::encode(r.to_vec())) }}, Err(e) => format!(\" ERR:{{}}\", e) }}; }}\n",
                    hex::encode(self.expected(&a)),
                    tail,
                    self.name,
                    tail,
                    tail.len()
                );
            }
            s += "    out.push(__o); }\n";
        }
        s + "    out.join(\"|\")\n}"
    }
    fn expected(&self, a: &[usize]) -> Vec<u8> {
        let t = types();
        self.fields.iter().zip(a).filter(|(f, _)| !f.skip).flat_map(|(f, &v)| t[f.ty].vals[v].1.clone()).collect()
    }
    fn judge(&self, o: Out, ch: &mut Chooser) -> Res {
        ch.note(|| self.show());
        let text = match o {
            Out::Rejected(m) => {
                ensure!(!self.must_compile, "a valid struct with the derived codec does not compile: {}", m);
                return Ok(());
            }
            Out::Panicked(m) => return Err(Fail::Violation(format!("the derived codec panicked: {}", m))),
            Out::Died(m) => return Err(Fail::Violation(format!("the program with the derived codec died: {}", m))),
            Out::Ran(t) => t,
        };
        let want: Vec<String> = assignments(self)
            .iter()
            .map(|a| {
                ch.op();
                format!("{}{}", hex::encode(self.expected(a)), " ok".repeat(TAILS.len()))
            })
            .collect();
        for (w, g) in want.iter().zip(text.split('|')) {
            ensure_eq!(g, w, "encoding and decoding of one value (ok: fields and rest as expected)");
        }
        ensure_eq!(text.split('|').count(), want.len(), "number of values");
        Ok(())
    }
}

/// Every sequence of field types and skip markers.
fn shapes(thorough: bool) -> Vec<Decl> {
    let names = ["a", "b", "c", "d", "e", "f"];
    let mut v = vec![];
    let mut gen = |n: usize, ts: &[usize]| {
        let base = ts.len() * 2;
        for m in 0..base.pow(n as u32) {
            let mut m = m;
            let fs = (0..n)
                .map(|i| {
                    let k = m % base;
                    m /= base;
                    field(names[i], ts[k / 2], k % 2 == 1)
                })
                .collect();
            v.push(decl(fs));
        }
    };
    let all: Vec<usize> = (0..types().len()).collect();
    gen(0, &all[..1]);
    gen(1, &all);
    // wide structs: nothing skipped, one field skipped, every other one, all but one
    for n in if thorough { vec![7, 8, 9, 10, 12, 13, 16, 17, 26, 33, 65, 130] } else { vec![7, 10, 12, 17, 33] } {
        let mut masks: Vec<Box<dyn Fn(usize) -> bool>> = vec![Box::new(|_| false), Box::new(|i| i % 2 == 1), Box::new(|i| i % 2 == 0), Box::new(|_| true)];
        for k in (0..n).filter(|k| n < 18 && thorough || k % 5 == 0 || k + 1 == n) {
            masks.push(Box::new(move |i| i == k));
            if thorough {
                masks.push(Box::new(move |i| i != k));
            }
        }
        for m in &masks {
            v.push(decl((0..n).map(|i| field(&format!("f{}", i), [0, 1, 9, 11, 6][i % 5], m(i))).collect()));
            // names in an order that isn't the alphabetical one
            v.push(decl((0..n).map(|i| field(&format!("g{}", (i * 7) % n.max(8) * 100 + i), [3, 0, 2, 4, 1][i % 5], m(i))).collect()));
        }
    }
    let mut gen = |n: usize, ts: &[usize]| {
        let base = ts.len() * 2;
        for m in 0..base.pow(n as u32) {
            let mut m = m;
            let fs = (0..n)
                .map(|i| {
                    let k = m % base;
                    m /= base;
                    field(names[i], ts[k / 2], k % 2 == 1)
                })
                .collect();
            v.push(decl(fs));
        }
    };
    if thorough {
        gen(2, &all);
        gen(3, &all[..6]);
        gen(4, &all[..2]);
        gen(6, &all[..1]);
    } else {
        gen(2, &all[..6]);
        gen(3, &[0, 1, 11]);
        gen(3, &all[..3]);
        gen(5, &all[..1]);
    }
    v
}

const NAMES: [&str; 36] = [
    "data", "raw", "rest", "parts", "__serialize_parts", "result", "value", "r#type", "r#fn", "r#struct", "_x", "__data", "item", "ser", "deser_rest", "deser", "bitcoin_cash", "std", "Vec",
    "Ok", "Some", "None", "Err", "field0", "field1", "field2", "u8", "Default", "default", "ByteArray", "BitcoinCode", "error", "S", "é", "byte_array", "named",
];
fn names(thorough: bool) -> Vec<Decl> {
    let mut v = vec![];
    for (k, n) in NAMES.iter().enumerate() {
        for pos in 0..3 {
            for mask in 0..8usize {
                if !thorough && (mask.count_ones() > 2 || (k + pos + mask) % 2 == 1 && *n != "data") {
                    continue;
                }
                let tys: &[[usize; 3]] = if thorough { &[[0, 0, 0], [1, 1, 1], [1, 0, 1], [0, 1, 0]] } else { &[[1, 1, 1], [0, 1, 0]] };
                for t in tys {
                    let fs = (0..3).map(|i| field(if i == pos { n } else { ["aa", "bb", "cc"][i] }, t[i], mask >> i & 1 == 1)).collect();
                    v.push(decl(fs));
                }
            }
        }
        // two special names at once, in both orders
        if thorough {
            for m in NAMES.iter().take(k) {
                v.push(decl(vec![field(n, 1, false), field(m, 1, false)]));
                v.push(decl(vec![field(m, 0, false), field(n, 1, true)]));
            }
        }
    }
    for n in ["Data", "ByteArray2", "__Parts", "r#Struct", "Ok_", "s"] {
        let mut d = decl(vec![field("a", 0, false), field("data", 1, false)]);
        d.name = n.into();
        v.push(d);
    }
    v
}

const FOREIGN: [&str; 16] = [
    "#[doc = concat!(\"bitcoin_code\", \"(skip)\")]",
    "/// documented\n",
    "#[doc(hidden)]",
    "#[doc = \"skip\"]",
    "#[allow(dead_code)]",
    "#[serde(skip)]",
    "#[serde(default)]",
    "#[serde(rename = \"skip\")]",
    "#[serde(skip_serializing)]",
    "#[cfg_attr(all(), allow(unused))]",
    "#[cfg_attr(all(), doc = \"bitcoin_code(skip)\")]",
    "#[deprecated]",
    "#[cfg(all())]",
    "#[rustfmt::skip]",
    "#[deny(missing_docs)]",
    "#[other(skip)]",
];
const STRUCT_FOREIGN: [&str; 10] = [
    "",
    "#[doc = concat!(\"a\", \"b\")]",
    "/// documented\n",
    "#[serde(rename_all = \"camelCase\")]",
    "#[allow(dead_code)]",
    "#[repr(C)]",
    "#[serde(default)]",
    "#[must_use = \"it\"]",
    "#[rustfmt::skip]",
    "#[other]",
];
/// Attributes of other macros around (or without) the skip marker.
fn attributes(thorough: bool) -> Vec<Decl> {
    let mut v = vec![];
    // the derive that owns `serde` and `other` attributes also has to be there
    let with = |fs: Vec<Field>, sa: &str| {
        let mut d = decl(fs);
        let mut dv = "#[derive(Clone, Debug, PartialEq, Default)]".to_string();
        let text = format!("{}{}", sa, d.fields.iter().map(|f| format!("{}{}", f.pre, f.post)).collect::<String>());
        if text.contains("serde") {
            dv = format!("#[derive(serde::Serialize, serde::Deserialize)]{}", dv);
        }
        if text.contains("other") {
            return None;
        }
        d.attrs = sa.into();
        d.derive = format!("#[derive(BitcoinCode)]{}", dv);
        Some(d)
    };
    for a in FOREIGN.iter() {
        for b in [""].iter().chain(FOREIGN.iter()) {
            for skip in [false, true] {
                for place in 0..3 {
                    let at = |i: usize| {
                        let mut f = field(["a", "b", "c"][i], [0, 1, 9][i], skip && i == 1);
                        if i == 1 {
                            let (pre, post) = match place {
                                0 => (format!("{}{}", a, b), String::new()),
                                1 => (a.to_string(), b.to_string()),
                                _ => (String::new(), format!("{}{}", a, b)),
                            };
                            f.pre = pre;
                            f.post = post;
                        }
                        f
                    };
                    // compiler-checked duplicates: serde refuses the same or conflicting attributes twice
                    if a.contains("serde") && b.contains("serde") || *a == "#[deprecated]" && a == b {
                        continue;
                    }
                    if !skip && place > 0 || (!thorough && place != 1 && !b.is_empty() && skip) {
                        continue;
                    }
                    v.extend(with(vec![at(0), at(1), at(2)], ""));
                }
            }
        }
        // the same on every field, with the skip marker at each
        for m in 0..4usize {
            let fs = (0..3)
                .map(|i| {
                    let mut f = field(["a", "b", "c"][i], [1, 0, 3][i], m == i);
                    if *a != "#[deprecated]" || true {
                        f.pre = a.to_string();
                    }
                    f
                })
                .collect();
            v.extend(with(fs, ""));
        }
    }
    for a in STRUCT_FOREIGN {
        for b in STRUCT_FOREIGN {
            if a == b || a.contains("serde") && b.contains("serde") && !thorough {
                continue;
            }
            v.extend(with(vec![field("a", 0, false), field("b", 1, true), field("c", 9, false)], &format!("{}{}", a, b)));
        }
    }
    // where the macro and the crate come from
    let fs = || vec![field("a", 0, false), field("b", 1, true), field("c", 5, false), field("d", 1, false)];
    for (uses, derive) in [
        ("", "#[derive(bitcoin_cash::BitcoinCode, Clone, Debug, PartialEq)]"),
        ("use bitcoin_cash::BitcoinCode;", "#[derive(Clone, Debug, PartialEq)]#[derive(BitcoinCode)]"),
        ("use bitcoin_cash as bc;", "#[derive(bc::BitcoinCode, Clone, Debug, PartialEq)]#[bitcoin_code(crate = \"bc\")]"),
        ("use bitcoin_cash::BitcoinCode as Codec;", "#[derive(Codec, Clone, Debug, PartialEq)]"),
        ("use bitcoin_cash::*;", "#[derive(BitcoinCode, Clone, Debug, PartialEq)]"),
    ] {
        for vis in ["pub ", "", "pub(crate) "] {
            let mut d = decl(fs());
            d.fields.iter_mut().for_each(|f| f.vis = vis);
            d.uses = uses;
            d.derive = derive.into();
            v.push(d);
        }
    }
    // near misses of the skip marker: if they compile at all, the field isn't skipped
    for m in ["#[bitcoin_code]", "#[bitcoin_code(skipp)]", "#[bitcoin_code(default)]", "#[bitcoin_code()]", "#[bitcoin_code(Skip)]", "#[bitcoin_codes(skip)]", "#[skip]"] {
        for pos in 0..3 {
            let mut d = decl((0..3).map(|i| field(["a", "b", "c"][i], [0, 1, 9][i], false)).collect());
            d.fields[pos].pre = m.into();
            d.must_compile = false;
            v.push(d);
        }
    }
    v
}

pub fn c04(c: &Ctx) {
    let mut total = 0;
    for (tag, ds, ok) in [("c04-shapes", shapes(c.thorough), true), ("c04-names", names(c.thorough), true), ("c04-attributes", attributes(c.thorough), true)] {
        let src: Vec<String> = ds.iter().map(|d| d.source()).collect();
        total += ds.len();
        let outs = Lazy::new(c, tag, PRELUDE, &src, (ds.len() / 8 + 1).min(200), ok);
        c.range(tag, ds.len() as u64, |i, ch| ds[i as usize].judge(outs.get(i as usize), ch));
    }
    c.bound(format!(
        "{} structs compiled with the real derive: all sequences of up to {} fields over {} types x skip markers (more fields over fewer types), structs of up to {} fields with none, each, every other and all fields skipped, {} field names at every position and skip placement, all pairs of {} foreign field attributes before/around/after the skip marker, struct attributes, import styles; each with all combinations of two values per field, each decoded alone and followed by other bytes",
        total,
        if c.thorough { 3 } else { 2 },
        types().len(),
        if c.thorough { 130 } else { 33 },
        NAMES.len(),
        FOREIGN.len()
    ));
}
