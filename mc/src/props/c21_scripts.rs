//! C21 and C22: script functions, generated, compiled by rustc with the real `#[script]` macro and run.
use crate::engine::*;
use crate::genrun::*;
use crate::sgen::{Stmt, Ty::*, *};

const TYS: [Ty; 3] = [Int, Bool, Bytes];
/// A literal of the type; `k` makes it different from others.
fn val(t: Ty, k: usize) -> PushVal {
    match t {
        Int => lit(40 + k as i64),
        Bool => tlit(k % 2 == 0),
        _ => blit(&format!("v{}", k)),
    }
}
fn drop(n: &str) -> Stmt {
    op(0x75, &[n])
}
fn iff(not: bool, c: &str, then: Vec<Stmt>, els: Option<Vec<Stmt>>) -> Stmt {
    Stmt::If { not, args: some(&[c]), then, els, braces: false }
}

/// Types an opcode's inputs can have.
fn good_types(code: u8) -> Vec<Ty> {
    let (ins, _) = sem(code).unwrap();
    let mut t: Vec<Ty> = vec![];
    for (k, i) in ins.iter().enumerate() {
        t.push(match i {
            In::T(t) => *t,
            In::Any => [Int, Bytes, Bool, Bytes, Int, Bool][k],
            In::Same(j) => t[*j],
            In::Truth => Bool,
        });
    }
    t
}
/// One opcode on inputs of the right types, with all right and wrong argument and output namings.
fn single(thorough: bool) -> Vec<Prog> {
    let mut v = vec![];
    for code in plain_codes().into_iter().chain([0x6b]) {
        let (types, n_out) = if code == 0x6b { (vec![Bytes], 1) } else { (good_types(code), sem(code).unwrap().1.len()) };
        let n = types.len();
        let mut ins = vec![input("z", Int, 9)];
        ins.extend(abc(&types));
        let right: Vec<String> = ins[1..].iter().map(|i| i.name.clone()).collect();
        let mut argss: Vec<Names> = vec![None, Some(right.clone()), Some(vec!["__".into(); n]), Some(vec![])];
        let mut wrong: Vec<&str> = vec!["__", "z", "undefined", "a_", "_a"];
        for (i, r) in ["a", "b", "c", "d", "e", "f"][..n].iter().enumerate() {
            if n <= 3 || thorough || i == 0 || i + 1 == n {
                wrong.push(r);
            }
        }
        for k in 0..n {
            for w in &wrong {
                let mut a = right.clone();
                a[k] = w.to_string();
                argss.push(Some(a));
            }
            // an argument left out
            let mut a = right.clone();
            a.remove(k);
            argss.push(Some(a));
        }
        for extra in ["z", "__"] {
            argss.push(Some([right.clone(), vec![extra.to_string()]].concat()));
            argss.push(Some([vec![extra.to_string()], right.clone()].concat()));
        }
        // two arguments exchanged
        for k in 1..n {
            let mut a = right.clone();
            a.swap(k - 1, k);
            argss.push(Some(a));
        }
        let fresh: Vec<String> = (0..n_out).map(|k| format!("o{}", k)).collect();
        let mut outss: Vec<Names> = vec![None, Some([fresh.clone(), vec!["extra".into()]].concat())];
        if n_out > 0 {
            outss.push(Some(fresh.clone()));
            outss.push(Some(vec!["__".into(); n_out]));
            outss.push(Some(vec!["same".into(); n_out]));
            if n_out > 1 {
                outss.push(Some(fresh[1..].to_vec()));
                outss.push(Some(fresh[..n_out - 1].to_vec()));
            }
            // names of the inputs, shifted
            outss.push(Some((0..n_out).map(|k| ["b", "a", "z", "c", "d", "e"][k].to_string()).collect()));
            for k in 0..n_out {
                let mut o = fresh.clone();
                o[k] = "__".into();
                outss.push(Some(o));
            }
        }
        let mut pairs: Vec<(Names, Names)> = argss.iter().map(|a| (a.clone(), None)).collect();
        pairs.extend(outss.iter().flat_map(|o| [(None, o.clone()), (Some(right.clone()), o.clone())]));
        if thorough {
            pairs.extend(argss.iter().flat_map(|a| outss.iter().map(move |o| (a.clone(), o.clone()))));
        } else {
            pairs.extend(argss.iter().map(|a| (a.clone(), Some(fresh.clone()))));
        }
        pairs.retain(|p| p.1.as_ref().map_or(true, |o| !o.is_empty()));
        pairs.sort();
        pairs.dedup();
        for (args, outs) in pairs {
            v.push(prog(ins.clone(), vec![Stmt::Op { code, args, outs }]));
        }
        // not enough items
        for k in 0..n {
            for args in [None, Some(right[n - k..].to_vec()), Some(right.clone()), Some(vec!["__".to_string(); n])] {
                v.push(prog(ins[1 + n - k..].to_vec(), vec![Stmt::Op { code, args, outs: None }]));
            }
        }
    }
    v
}
/// One opcode on inputs of all types, and all typed uses of what it leaves.
fn types(thorough: bool) -> Vec<Prog> {
    let mut v = vec![];
    for code in plain_codes() {
        let (ins, outs) = sem(code).unwrap();
        let n = ins.len();
        let mut tys: Vec<Vec<Ty>> = vec![];
        if n <= 3 || thorough && n <= 4 {
            for m in 0..3usize.pow(n as u32) {
                tys.push((0..n).map(|k| TYS[m / 3usize.pow(k as u32) % 3]).collect());
            }
        } else {
            for r in 0..3 {
                tys.push((0..n).map(|k| TYS[(k + r) % 3]).collect());
                tys.push((0..n).map(|k| TYS[(k * 2 + k / 3 + r) % 3]).collect());
            }
        }
        for t in tys {
            let ok = abc(&t);
            let p = prog(ok.clone(), vec![Stmt::Op { code, args: None, outs: None }]);
            let accepted = p.verdict().is_ok();
            v.push(p);
            if !accepted || outs.is_empty() {
                continue;
            }
            // at most six assignments for the uses
            if n > 1 && !thorough && t.iter().enumerate().any(|(k, t)| k + 2 < n && *t != TYS[k % 3]) {
                continue;
            }
            let names: Vec<String> = (0..outs.len()).map(|k| format!("o{}", k)).collect();
            for k in 0..outs.len() {
                for user in [0x8b, 0x91, 0xa8] {
                    for named in [true, false] {
                        let mut body = vec![Stmt::Op { code, args: None, outs: named.then(|| names.clone()) }];
                        for j in (k + 1..outs.len()).rev() {
                            body.push(if named { drop(&names[j]) } else { bare(0x75) });
                        }
                        body.push(if named { op(user, &[&names[k]]) } else { bare(user) });
                        v.push(prog(ok.clone(), body));
                    }
                }
            }
        }
    }
    // the types rust types stand for
    for (rust_ty, ty, value, bytes) in [
        ("Integer", Int, "Integer::new(300).unwrap()", vec![0x2c, 1]),
        ("i32", Int, "-2", vec![0x82]),
        ("bool", Bool, "true", vec![1]),
        ("bool", Bool, "false", vec![]),
        ("[u8; 3]", Bytes, "[1, 2, 3]", vec![1, 2, 3]),
        ("[u8; 0]", Bytes, "[]", vec![]),
        ("[u8; 32]", Bytes, "[7; 32]", vec![7; 32]),
        ("ByteArray", Bytes, "bytes(b\"ab\")", b"ab".to_vec()),
        ("Vec<u8>", Bytes, "vec![9, 9]", vec![9, 9]),
        ("bitcoin_cash::Pubkey", Bytes, "bitcoin_cash::Pubkey::new([2; 33])", vec![2; 33]),
        ("bitcoin_cash::Sha256d", Bytes, "bitcoin_cash::Sha256d::new([5; 32])", vec![5; 32]),
    ] {
        for user in [0x8b, 0x91, 0xa8, 0x76] {
            let i = Input { name: "a".into(), rust_ty: rust_ty.into(), ty, variants: None, value: value.into(), bytes: bytes.clone() };
            if rust_ty.contains("Pubkey") {
                continue; // has no default value
            }
            v.push(prog(vec![i], vec![op(user, &["a"])]));
        }
    }
    // a type stays with its item when another one gets the same name, and through moves
    for t in TYS {
        for u in TYS {
            for user in [0x8b, 0x91, 0xa8] {
                v.push(prog(abc(&[t]), vec![push("a", val(u, 0)), drop("a"), op(user, &["a"])]));
                v.push(prog(abc(&[t]), vec![push("a", val(u, 0)), op(user, &["a"])]));
                v.push(prog(abc(&[t, u]), vec![lop(&["b", "a"], 0x7c, &["a", "b"]), op(user, &["a"])]));
                v.push(prog(abc(&[t, u]), vec![bare(0x7c), op(user, &["a"])]));
                v.push(prog(abc(&[t, u]), vec![bare(0x6b), push("b", val(t, 0)), bare(0x6c), op(user, &["b"])]));
                v.push(prog(abc(&[t, u]), vec![bare(0x6b), bare(0x6c), op(user, &["b"])]));
                for bound in [false, true] {
                    v.push(prog(abc(&[t]), vec![Stmt::Transmute { name: "a".into(), to: u, bound }, op(user, &["a"])]));
                    v.push(prog(abc(&[t, u]), vec![Stmt::Transmute { name: "a".into(), to: u, bound }, op(user, &["b"])]));
                    v.push(prog(abc(&[t, u]), vec![push("a", val(t, 3)), Stmt::Transmute { name: "a".into(), to: u, bound }, drop("a"), drop("b"), op(user, &["a"])]));
                    v.push(prog(abc(&[t, u]), vec![bare(0x6e), Stmt::Transmute { name: "a".into(), to: u, bound }, drop("b"), drop("a"), drop("b"), op(user, &["a"])]));
                }
            }
        }
    }
    v
}

/// Statements that make sense in a state.
fn natural(st: &State, k: usize, level: usize) -> Vec<Stmt> {
    let mut v = vec![];
    let n = st.stack.len();
    let fresh = |i: usize| format!("n{}{}", k, (b'a' + i as u8) as char);
    v.push(push(&fresh(0), lit(1)));
    v.push(push(&fresh(0), blit("xyz")));
    let rich = level == 2;
    if rich {
        v.push(push("", param(Bytes)));
        v.push(push("a", lit(2))); // an already used name
        v.push(push(&fresh(0), tlit(true)));
        v.push(lop(&[&fresh(0)], 0x52, &[]));
    }
    let mut codes: Vec<u8> = vec![0x76, 0x75, 0x7c, 0x78, 0x7b, 0x77, 0x7d, 0x6e, 0x8b, 0x93, 0x82, 0x7e, 0x87, 0x6b, 0x6c, 0x79, 0x7a];
    if level == 0 {
        codes = vec![0x76, 0x75, 0x7c, 0x7b, 0x93, 0x82, 0x7e, 0x6b, 0x6c, 0x79, 0x7a];
    }
    if rich {
        codes.extend([0x6d, 0x6f, 0x70, 0x72, 0x7f, 0x80, 0x81, 0xa8, 0x92, 0x91, 0x88, 0x69, 0x74, 0xac, 0xb1]);
    }
    for code in codes {
        let (n_in, n_out) = match code {
            0x6b | 0x6c => (1, 1),
            0x79 | 0x7a => (1, 1),
            c => {
                let (i, o) = sem(c).unwrap();
                (i.len(), o.len())
            }
        };
        let from = if code == 0x6c { &st.alt } else { &st.stack };
        if from.len() < n_in {
            continue;
        }
        let args: Vec<String> = from[from.len() - n_in..].iter().map(|s| if let Name::Is(n) = &s.name { n.clone() } else { "__".into() }).collect();
        let outs: Vec<String> = (0..n_out).map(fresh).collect();
        v.push(Stmt::Op { code, args: Some(args.clone()), outs: None });
        if n_out > 0 && (level > 0 || code != 0x7a && code != 0x6c) {
            v.push(Stmt::Op { code, args: if rich { Some(args) } else { None }, outs: Some(outs) });
        }
    }
    // depths of the top and the bottom item
    for i in if n > 1 { vec![n - 1, 0] } else { (0..n).collect() } {
        if let Name::Is(x) = &st.stack[i].name {
            v.push(Stmt::Depth { of: x.clone(), off: None, name: if i == 0 { None } else { Some(fresh(0)) } });
        }
    }
    // only what is right
    v.retain(|s| step(&mut st.clone(), s).is_ok());
    v
}
/// A statement with one argument wrong.
fn mutations(st: &State, s: &Stmt, gone: &[String], level: usize) -> Vec<Stmt> {
    let mut v = vec![];
    if let Stmt::Op { code, args: Some(a), outs } = s {
        let mut cand: Vec<String> = st.stack.iter().chain(&st.alt).filter_map(|s| if let Name::Is(n) = &s.name { Some(n.clone()) } else { None }).collect();
        if level == 0 {
            cand.truncate(1);
            cand.extend(gone.iter().take(1).cloned());
        } else {
            cand.extend_from_slice(gone);
            cand.push("undefined".to_string());
        }
        cand.push("__".to_string());
        cand.sort();
        cand.dedup();
        for k in 0..a.len() {
            for c in &cand {
                if *c != a[k] {
                    let mut b = a.clone();
                    b[k] = c.clone();
                    v.push(Stmt::Op { code: *code, args: Some(b), outs: outs.clone() });
                }
            }
        }
        v.push(Stmt::Op { code: *code, args: None, outs: None });
    }
    v
}
/// All sequences of sensible statements, the last one also with every wrong argument.
fn sequences(depth: usize, level: usize, wrong: bool, inputs: Vec<Input>) -> Vec<Prog> {
    let mut out = vec![];
    let mut layer = vec![prog(inputs, vec![])];
    let mut known: Vec<String> = layer[0].inputs.iter().map(|i| i.name.clone()).collect();
    known.truncate(4);
    for k in 0..depth {
        let mut next = vec![];
        for p in &layer {
            let st = p.states().unwrap().remove(0);
            for s in natural(&st, k, level) {
                if k + 1 == depth && wrong {
                    let gone: Vec<String> = known.iter().filter(|n| !st.stack.iter().any(|s| s.name == Name::Is(n.to_string()))).cloned().collect();
                    for m in mutations(&st, &s, &gone, level) {
                        let mut q = p.clone();
                        q.body.push(m);
                        out.push(q);
                    }
                }
                let mut q = p.clone();
                q.body.push(s);
                next.push(q);
            }
        }
        layer = next;
    }
    out.extend(layer);
    out
}

// ---- conditionals ------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Shape {
    If(bool, Vec<Shape>, Option<Vec<Shape>>),
}
/// All bodies with exactly n conditionals.
fn bodies(n: usize) -> Vec<Vec<Shape>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for first in 1..=n {
        for i in ifs(first) {
            for mut rest in bodies(n - first) {
                rest.insert(0, i.clone());
                v.push(rest);
            }
        }
    }
    v
}
fn ifs(n: usize) -> Vec<Shape> {
    let mut v = vec![];
    for not in [false, true] {
        for t in bodies(n - 1) {
            v.push(Shape::If(not, t, None));
        }
        for k in 0..n {
            for t in bodies(k) {
                for e in bodies(n - 1 - k) {
                    v.push(Shape::If(not, t.clone(), Some(e)));
                }
            }
        }
    }
    v
}
/// How much stands around the conditionals.
#[derive(Clone, Copy, PartialEq)]
enum Fill {
    /// a statement at every place
    Full,
    /// nothing but the conditionals
    Empty,
    /// statements behind the conditionals
    Behind,
    /// statements in front of the conditionals
    Before,
}
fn fill(shape: &[Shape], f: Fill, braces: bool, n: &mut i64) -> Vec<Stmt> {
    let mut v = vec![];
    let leaf = |v: &mut Vec<Stmt>, n: &mut i64| {
        *n += 1;
        let name = format!("k{}", n);
        v.push(push(&name, lit(100 + *n)));
        v.push(drop(&name));
    };
    let mut any = false;
    if matches!(f, Fill::Full | Fill::Before) {
        leaf(&mut v, n);
        any = true;
    }
    for s in shape {
        let Shape::If(not, t, e) = s;
        *n += 1;
        let c = format!("c{}", n);
        v.push(push(&c, if *n % 2 == 0 { tlit(true) } else { param(Bool) }));
        let then = fill(t, f, braces, n);
        let els = e.as_ref().map(|e| fill(e, f, braces, n));
        v.push(Stmt::If { not: *not, args: some(&[&c]), then, els, braces });
        if matches!(f, Fill::Full | Fill::Behind) {
            leaf(&mut v, n);
            any = true;
        }
    }
    if !any && f == Fill::Behind {
        leaf(&mut v, n);
    }
    v
}
fn nestings(thorough: bool) -> Vec<Prog> {
    let mut v = vec![];
    let all = [Fill::Full, Fill::Empty, Fill::Behind, Fill::Before];
    for n in 1..=if thorough { 4 } else { 3 } {
        for s in bodies(n) {
            for f in &all[..match n {
                1 | 2 => 4,
                3 if thorough => 4,
                3 => 2,
                _ => 1,
            }] {
                for braces in [false, true] {
                    if braces && n > 2 && !(thorough && n == 3 && *f == Fill::Full) {
                        continue;
                    }
                    v.push(prog(vec![], fill(&s, *f, braces, &mut 0)));
                }
            }
        }
    }
    // deep ones
    for d in [5usize, 8] {
        for m in 0..(if thorough { 1 << d.min(8) } else { 1 << d.min(4) }) {
            let mut s: Vec<Shape> = vec![];
            for k in 0..d {
                s = vec![match m >> (k % 8) & 1 {
                    0 => Shape::If(k % 3 == 0, s, Some(vec![])),
                    _ => Shape::If(k % 3 == 0, vec![], Some(s)),
                }];
            }
            v.push(prog(vec![], fill(&s, Fill::Full, false, &mut 0)));
        }
    }
    v
}
/// What a branch can do to the stack.
fn effects() -> Vec<Vec<Stmt>> {
    let t = |n: &str, to| Stmt::Transmute { name: n.into(), to, bound: false };
    vec![
        vec![],
        vec![push("x", lit(7))],
        vec![push("x", lit(8))],
        vec![push("x", blit("q"))],
        vec![push("x", param(Int))],
        vec![push("y", lit(7))],
        vec![push("_x", lit(7))],
        vec![push("x_", lit(7))],
        vec![push("", lit(7))],
        vec![drop("b")],
        vec![lop(&["b"], 0x8b, &["b"])],
        vec![lop(&["b"], 0x92, &["b"])],
        vec![lop(&["b2"], 0x8b, &["b"])],
        vec![op(0x8b, &["b"])],
        vec![t("b", Bytes)],
        vec![t("a", Int)],
        vec![op(0x6b, &["b"])],
        vec![push("x", lit(7)), op(0x6b, &["x"])],
        vec![push("x", blit("r")), op(0x6b, &["x"])],
        vec![op(0x7c, &["a", "b"])],
        vec![lop(&["a", "b"], 0x7c, &["a", "b"])],
        vec![op(0x7c, &["a", "b"]), op(0x7c, &["b", "a"])],
        vec![op(0x6d, &["a", "b"])],
        vec![op(0x6e, &["a", "b"]), drop("b"), drop("a")],
        vec![lop(&["x"], 0x94, &["b", "b"])],
        vec![drop("x")],
        vec![Stmt::Depth { of: "a".into(), off: None, name: Some("x".into()) }],
    ]
}
fn uses() -> Vec<Vec<Stmt>> {
    vec![
        vec![],
        vec![drop("x")],
        vec![drop("b")],
        vec![op(0x8b, &["b"])],
        vec![bare(0x6c)],
        vec![op(0x8b, &["x"])],
        vec![bare(0x75), op(0x8b, &["b"])],
        vec![bare(0x79)],
        vec![bare(0x7a), bare(0xa8)],
    ]
}
/// Both branches of a conditional with all effects, and what uses the result.
fn conflicts(thorough: bool) -> Vec<Prog> {
    let mut v = vec![];
    let e = effects();
    let ins = || vec![input("a", Bytes, 1), input("b", Int, 2), input("c", Bool, 3)];
    for (ti, t) in e.iter().enumerate() {
        for el in std::iter::once(None).chain(e.iter().map(Some)) {
            let base = prog(ins(), vec![iff(ti % 2 == 1, "c", t.clone(), el.cloned())]);
            let u = uses();
            let n = match base.verdict() {
                Ok(_) => u.len(),
                Err(_) if thorough => 3,
                Err(_) => 1,
            };
            for u in &u[..n] {
                let mut p = base.clone();
                p.body.extend(u.clone());
                v.push(p.clone());
                if thorough || u.is_empty() {
                    if let Stmt::If { not, .. } = &mut p.body[0] {
                        *not = !*not;
                    }
                    v.push(p);
                }
            }
        }
    }
    // which item the condition is
    for args in [None, some(&["c"]), some(&["b"]), some(&["__"]), some(&["undefined"]), some(&[]), some(&["b", "c"])] {
        for not in [false, true] {
            v.push(prog(ins(), vec![Stmt::If { not, args: args.clone(), then: vec![], els: None, braces: false }]));
            v.push(prog(ins(), vec![Stmt::If { not, args: args.clone(), then: vec![op(0x8b, &["b"])], els: Some(vec![op(0x8c, &["b"])]), braces: true }]));
        }
    }
    v.push(prog(vec![], vec![Stmt::If { not: false, args: some(&["__"]), then: vec![], els: None, braces: false }]));
    // two levels, the inner one conflicts or not
    for inner_t in &e[..if thorough { e.len() } else { 12 }] {
        for inner_e in &e[..if thorough { e.len() } else { 12 }] {
            for outer in [0usize, 1, 5, 9] {
                let body = vec![
                    push("d", tlit(true)),
                    iff(false, "d", inner_t.clone(), Some(inner_e.clone())),
                ];
                v.push(prog(ins(), vec![iff(false, "c", body.clone(), Some(e[outer].clone()))]));
                v.push(prog(ins(), vec![iff(true, "c", e[outer].clone(), Some(body))]));
            }
        }
    }
    v
}

// ---- variants ----------------------------------------------------------------------------------

fn preds() -> Vec<Vec<(&'static str, &'static str)>> {
    vec![
        vec![("A", "c"), ("B", "!c")],
        vec![("B", "c"), ("A", "!c")],
        vec![("A", "c&&d"), ("B", "!c"), ("C", "c&&!d")],
        vec![("A", "!c&&!d"), ("B", "c"), ("C", "!c&&d")],
        vec![("A", "c||d"), ("B", "!c&&!d")],
        vec![("A", "c&&d||!c&&!d"), ("B", "c&&!d||!c&&d")],
        vec![("A", "c")],
        vec![("A", "!c"), ("B", "c"), ("C", "c")],
    ]
}
fn parse_preds(p: &[(&str, &str)]) -> Vec<(String, Vec<Conj>)> {
    p.iter().map(|(n, s)| (n.to_string(), s.split("||").map(|c| c.split("&&").map(|a| (a.trim_start_matches('!').to_string(), !a.starts_with('!'))).collect()).collect())).collect()
}
fn subsets(names: &[String]) -> Vec<Names> {
    let mut v = vec![None];
    for m in 1..1usize << names.len() {
        v.push(Some(names.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, n)| n.clone()).collect()));
    }
    v
}
/// All assignments of inputs to variants.
fn variant_inputs(thorough: bool) -> Vec<Prog> {
    let mut v = vec![];
    for p in [&preds()[0], &preds()[1], &preds()[2]] {
        let vs = parse_preds(p);
        let names: Vec<String> = vs.iter().map(|x| x.0.clone()).collect();
        let subs = subsets(&names);
        let n_in = if names.len() == 2 || thorough { 3 } else { 2 };
        for m in 0..subs.len().pow(n_in as u32) {
            let mut ins: Vec<Input> = (0..n_in)
                .map(|k| {
                    let mut i = input(["x", "y", "z"][k], TYS[(k + 2) % 3], k);
                    i.variants = subs[m / subs.len().pow(k as u32) % subs.len()].clone();
                    if m % 7 == 3 {
                        // the order of the variants doesn't matter
                        if let Some(v) = &mut i.variants {
                            v.reverse();
                        }
                    }
                    i
                })
                .collect();
            v.push(Prog { inputs: ins.clone(), variants: vs.clone(), body: vec![push("k", lit(5))], debug: None, by_ref: true });
            if m % 11 == 1 {
                ins.reverse();
                v.push(Prog { inputs: ins, variants: vs.clone(), body: vec![], debug: Some(false), by_ref: false });
            }
        }
    }
    v
}
/// Conditionals whose branches consume the inputs only some variants have.
fn variant_bodies(thorough: bool) -> Vec<Prog> {
    let mut v = vec![];
    let acts: Vec<Vec<Stmt>> = vec![
        vec![],
        vec![drop("y")],
        vec![drop("x")],
        vec![drop("y"), drop("x")],
        vec![drop("x"), drop("y")],
        vec![push("w", lit(3))],
        vec![lop(&["y"], 0x8b, &["y"])],
        vec![lop(&["x"], 0xa8, &["x"])],
        vec![drop("y"), push("y", lit(4))],
    ];
    let post: Vec<Vec<Stmt>> = vec![
        vec![],
        vec![drop("y")],
        vec![op(0x8b, &["y"])],
        vec![drop("x")],
        vec![drop("w")],
        vec![bare(0x75)],
        vec![Stmt::Depth { of: "z".into(), off: None, name: None }, bare(0x79)],
    ];
    for (pi, p) in preds().iter().enumerate() {
        let vs = parse_preds(p);
        let names: Vec<String> = vs.iter().map(|x| x.0.clone()).collect();
        let two = p.iter().any(|x| x.1.contains('d'));
        let mut subs = vec![None];
        subs.extend(names.iter().map(|n| Some(vec![n.clone()])));
        if names.len() == 3 {
            subs.push(Some(vec![names[0].clone(), names[2].clone()]));
        }
        for sx in &subs {
            for sy in &subs {
                let mk = |n: &str, t, k, s: &Names| {
                    let mut i = input(n, t, k);
                    i.variants = s.clone();
                    i
                };
                let mut ins = vec![input("z", Bytes, 5), mk("x", Bytes, 0, sx), mk("y", Int, 1, sy)];
                if two {
                    ins.push(input("d", Bool, 0));
                }
                ins.push(input("c", Bool, 2));
                let mk = |body: Vec<Stmt>| Prog { inputs: ins.clone(), variants: vs.clone(), body, debug: None, by_ref: true };
                let na = if thorough { acts.len() } else { 6 };
                for (i, a) in acts[..na].iter().enumerate() {
                    for (j, b) in acts[..na].iter().enumerate() {
                        let right = |b: &Vec<Stmt>| mk(b.clone()).verdict().is_ok();
                        for (k, po) in post.iter().enumerate() {
                            if !two {
                                for els in [true, false] {
                                    if !els && j != 0 {
                                        continue;
                                    }
                                    for not in [false, true] {
                                        if not && (i + j + k) % 3 != 0 && !thorough {
                                            continue;
                                        }
                                        let mut body = vec![iff(not, "c", a.clone(), els.then(|| b.clone()))];
                                        // what is wrong already needs no more statements
                                        if k > 0 && !right(&body) {
                                            continue;
                                        }
                                        body.extend(po.clone());
                                        v.push(mk(body));
                                    }
                                }
                            } else {
                                // the second condition is used in one or both branches, or afterwards
                                let inner = iff(false, "d", a.clone(), Some(b.clone()));
                                let body: Vec<Vec<Stmt>> = vec![
                                    vec![iff(false, "c", vec![inner.clone()], Some(vec![drop("d")]))],
                                    vec![iff(true, "c", vec![iff(true, "d", b.clone(), Some(a.clone()))], Some([vec![drop("d")], acts[i].clone()].concat()))],
                                    vec![iff(false, "c", vec![], None), inner.clone()],
                                ];
                                for (q, mut b) in body.into_iter().enumerate() {
                                    if k > 0 && !right(&b) || !thorough && k == 0 && (q + i + j) % 3 != 0 && !right(&b) {
                                        continue;
                                    }
                                    b.extend(po.clone());
                                    v.push(mk(b));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

/// Variants by predicates of three conditions, decided by a full tree of conditionals: each leaf
/// consumes an input exactly if the variants reaching it have it, or one of the leaves doesn't.
fn variant_predicates(thorough: bool) -> Vec<Prog> {
    let preds: Vec<Vec<(&str, &str)>> = vec![
        vec![("A", "c||d||e"), ("B", "!c&&!d&&!e")],
        vec![("A", "c&&d&&e"), ("B", "!c||!d||!e")],
        vec![("A", "!c||d||!e"), ("B", "c&&!d&&e")],
        vec![("B", "c&&d&&e||c&&!d&&!e||!c&&d&&!e||!c&&!d&&e"), ("A", "!c&&!d&&!e||!c&&d&&e||c&&!d&&e||c&&d&&!e")],
        vec![("A", "c&&d||e"), ("B", "!c&&!e||!d&&!e")],
        vec![("A", "c&&d||c&&e||d&&e"), ("B", "!c&&!d||!c&&!e||!d&&!e")],
        vec![("A", "c&&d"), ("B", "c&&!d"), ("C", "!c&&e"), ("D", "!c&&!e")],
        vec![("A", "e&&d||!d&&c"), ("B", "!e&&d"), ("C", "!c&&!d")],
        vec![("A", "c&&d||e")],
    ];
    let conds = [["c", "d", "e"], ["n", "nn", "n_n"], ["ab", "b", "a"]];
    let mut v = vec![];
    for p in &preds {
        for (ci, cn) in conds.iter().enumerate() {
            let rename = |s: &str| s.chars().map(|ch| match ch { 'c' => cn[0].to_string(), 'd' => cn[1].into(), 'e' => cn[2].into(), o => o.to_string() }).collect::<String>();
            let texts: Vec<(&str, String)> = p.iter().map(|(n, s)| (*n, rename(s))).collect();
            let vs = parse_preds(&texts.iter().map(|(n, s)| (*n, s.as_str())).collect::<Vec<_>>());
            let names: Vec<String> = vs.iter().map(|x| x.0.clone()).collect();
            let mut subs: Vec<Vec<String>> = names.iter().map(|n| vec![n.clone()]).collect();
            if names.len() > 2 {
                subs.push(vec![names[0].clone(), names[2].clone()]);
                subs.push(names[..names.len() - 1].to_vec());
            }
            for sub in subs {
                // which leaves (bits: c, d, e from the left) are reached by variants with the input
                let has = |leaf: usize| {
                    let val = |n: &str| leaf >> (2 - cn.iter().position(|c| *c == n).unwrap()) & 1 == 1;
                    vs.iter().filter(|(_, p)| p.iter().any(|c| c.iter().all(|(n, b)| val(n) == *b))).any(|(n, _)| sub.contains(n))
                };
                let mut x = input("x", Int, 4);
                x.variants = Some(sub.clone());
                let ins = vec![input("z", Bytes, 5), x, input(cn[2], Bool, 0), input(cn[1], Bool, 1), input(cn[0], Bool, 2)];
                let mk = |body: Vec<Stmt>| Prog { inputs: ins.clone(), variants: vs.clone(), body, debug: None, by_ref: true };
                let tree = |nots: usize, leaves: &dyn Fn(usize) -> bool, cut: bool| {
                    let leaf = |l: usize| if leaves(l) { vec![drop("x")] } else { vec![] };
                    let node = |k: usize, t: Vec<Stmt>, e: Vec<Stmt>| if nots >> k & 1 == 0 { iff(false, cn[k], t, Some(e)) } else { iff(true, cn[k], e, Some(t)) };
                    // the last condition isn't asked where it makes no difference
                    let two = |l: usize| if cut && leaves(l) == leaves(l + 1) { [vec![drop(cn[2])], leaf(l)].concat() } else { vec![node(2, leaf(l + 1), leaf(l))] };
                    let one = |l: usize| {
                        if cut && (0..4).all(|j| leaves(l + j) == leaves(l)) {
                            [vec![drop(cn[1]), drop(cn[2])], leaf(l)].concat()
                        } else {
                            vec![node(1, two(l + 2), two(l))]
                        }
                    };
                    vec![node(0, one(4), one(0))]
                };
                let nots: &[usize] = if thorough { &[0, 1, 2, 3, 4, 5, 6, 7] } else if ci == 0 { &[0, 5] } else { &[2] };
                for &n in nots {
                    for cut in [false, true] {
                        for post in [vec![], vec![drop("z")], vec![lop(&["h"], 0xa8, &["z"]), drop("h")], vec![drop("x")], vec![bare(0x75)]] {
                            v.push(mk([tree(n, &has, cut), post].concat()));
                        }
                        for f in 0..8 {
                            if !cut || thorough {
                                v.push(mk(tree(n, &|l| has(l) != (l == f), cut)));
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

/// Items of one name which are of another type in each variant: inputs, or results of branches.
fn variant_types(thorough: bool) -> Vec<Prog> {
    let mut v = vec![];
    let makers = |t: Ty| -> Vec<Stmt> {
        match t {
            Int => vec![lop(&["x"], 0x81, &["x"])],
            Bool => vec![lop(&["x"], 0x81, &["x"]), lop(&["x"], 0x92, &["x"])],
            _ => vec![lop(&["x"], 0xa8, &["x"])],
        }
    };
    // what happens to the items before they're used as x
    let ways: Vec<Vec<Stmt>> = vec![
        vec![],
        vec![op(0x76, &["x"]), drop("x")],
        vec![lop(&["x", "x2"], 0x76, &["x"]), drop("x2")],
        vec![lop(&["x2", "x"], 0x76, &["x"])],
        vec![op(0x6b, &["x"]), op(0x6c, &["x"])],
        vec![lop(&["q"], 0x6b, &["x"]), lop(&["x"], 0x6c, &["q"])],
        vec![push("n", lit(0)), op(0x79, &["n"])],
        vec![push("n", lit(1)), op(0x79, &["n"]), push("n", lit(1)), lop(&["x"], 0x7a, &["n"])],
        vec![push("k", lit(3)), push("n", lit(1)), op(0x7a, &["n"])],
        vec![Stmt::Depth { of: "x".into(), off: None, name: Some("n".into()) }, lop(&["x"], 0x7a, &["n"])],
        vec![push("k", blit("w")), op(0x7c, &["x", "k"])],
        vec![push("k", blit("w")), bare(0x7c)],
        vec![push("k", blit("w")), lop(&["k", "x"], 0x7c, &["x", "k"])],
        vec![push("k", blit("w")), bare(0x78), bare(0x77)],
        vec![push("k", tlit(true)), bare(0x7c), bare(0x7c), drop("k")],
        vec![push("k", tlit(true)), iff(false, "k", vec![bare(0x76)], Some(vec![op(0x76, &["x"])]))],
        vec![push("k", tlit(true)), iff(true, "k", vec![], None)],
        vec![Stmt::Transmute { name: "x".into(), to: Int, bound: false }],
        vec![push("k", lit(1)), Stmt::Transmute { name: "x".into(), to: Bytes, bound: true }, drop("k")],
    ];
    let uses: Vec<Vec<Stmt>> = vec![
        vec![drop("x")],
        vec![op(0x8b, &["x"])],
        vec![op(0x91, &["x"])],
        vec![op(0xa8, &["x"])],
        vec![bare(0x8b)],
        vec![bare(0xa8)],
        vec![push("m", lit(1)), op(0x87, &["x", "m"])],
        vec![push("m", blit("o")), op(0x87, &["x", "m"])],
        vec![bare(0x76), bare(0x87)],
        vec![iff(false, "x", vec![], None)],
    ];
    for (pi, p) in preds().iter().enumerate() {
        let vs = parse_preds(p);
        if p.iter().any(|x| x.1.contains('d')) || p.len() == 1 {
            continue;
        }
        for ta in TYS {
            for tb in TYS {
                if pi > 1 && (ta == tb || !thorough) {
                    continue;
                }
                for (wi, w) in ways.iter().enumerate() {
                    for (ui, u) in uses.iter().enumerate() {
                        if !thorough && ta == tb && (wi + ui) % 3 != 0 {
                            continue;
                        }
                        // inputs
                        let mk = |t, k, n: &str| {
                            let mut i = input("x", t, k);
                            i.variants = Some(if n == "B" && vs.len() == 3 { vec!["B".into(), "C".into()] } else { vec![n.into()] });
                            i
                        };
                        v.push(Prog { inputs: vec![input("z", Bytes, 3), mk(ta, 0, "A"), mk(tb, 1, "B")], variants: vs.clone(), body: [w.clone(), u.clone()].concat(), debug: None, by_ref: true });
                        // branches
                        let not = p[0].1.starts_with('!');
                        let body = [vec![iff(not, "c", makers(ta), Some(makers(tb)))], w.clone(), u.clone()].concat();
                        v.push(Prog { inputs: vec![input("z", Bytes, 3), input("x", Bytes, 0), input("c", Bool, 0)], variants: vs.clone(), body, debug: None, by_ref: true });
                    }
                }
            }
        }
    }
    v
}

// ---- depths ------------------------------------------------------------------------------------

fn depths(thorough: bool) -> Vec<Prog> {
    let mut v = vec![];
    let stacks = [vec![Int, Bytes, Bool], vec![Bytes, Int], vec![Int]];
    for tys in &stacks[..if thorough { 3 } else { 2 }] {
        let ins = abc(tys);
        let mut src: Vec<Vec<Stmt>> = vec![];
        for n in -1..=4i64 {
            src.push(vec![push("n", lit(n))]);
            if n >= -1 {
                let code = if n < 0 { 0x4f } else if n == 0 { 0 } else { 0x50 + n as u8 };
                src.push(vec![lop(&["n"], code, &[])]);
                src.push(vec![Stmt::Op { code, args: None, outs: some(&["n"]) }]);
            }
        }
        src.push(vec![push("n", expr("(1)", Int, crate::refs::num(1)))]);
        if let Some(Stmt::Push { v, .. }) = src.last_mut().unwrap().get_mut(0) {
            v.known = Some(1);
        }
        for i in &ins {
            src.push(vec![Stmt::Depth { of: i.name.clone(), off: None, name: Some("n".into()) }]);
            for o in [-1, 0, 1] {
                src.push(vec![Stmt::Depth { of: i.name.clone(), off: Some(lit(o)), name: Some("n".into()) }]);
            }
            src.push(vec![Stmt::Depth { of: i.name.clone(), off: Some(param(Int)), name: Some("n".into()) }]);
        }
        src.push(vec![Stmt::Depth { of: "undefined".into(), off: None, name: Some("n".into()) }]);
        src.push(vec![push("n", param(Int))]);
        src.push(vec![push("n", blit("a"))]);
        src.push(vec![push("n", tlit(true))]);
        // a depth that was moved, copied or computed
        src.push(vec![push("n", lit(1)), bare(0x76), bare(0x75)]);
        src.push(vec![push("n", lit(1)), push("m", lit(0)), op(0x7c, &["n", "m"])]);
        src.push(vec![push("n", lit(1)), push("m", lit(2)), bare(0x7c), bare(0x77), lop(&["n"], 0x76, &["n"])]);
        src.push(vec![push("m", lit(0)), push("n", lit(2)), lop(&["n", "m"], 0x7c, &["m", "n"]), drop("m")]);
        src.push(vec![push("n", lit(0)), lop(&["n"], 0x8b, &["n"])]);
        src.push(vec![push("n", lit(2)), bare(0x6b), bare(0x6c)]);
        src.push(vec![push("n", lit(1)), lop(&["n"], 0xb2, &["n"])]);
        src.push(vec![push("n", lit(1)), push("n", lit(0)), drop("n")]);
        src.push(vec![push("n", lit(1)), push("k", lit(0)), op(0x79, &["k"]), bare(0x77)]);
        src.push(vec![push("t", tlit(true)), iff(false, "t", vec![push("n", lit(1))], Some(vec![push("n", lit(1))]))]);
        src.push(vec![push("t", tlit(true)), iff(false, "t", vec![push("n", lit(1))], Some(vec![push("n", lit(0))]))]);
        // copies: of a depth, and of something at an unknown depth
        src.push(vec![push("m", lit(1)), lop(&["m", "n"], 0x76, &["m"])]);
        src.push(vec![push("m", lit(1)), lop(&["n", "m"], 0x76, &["m"]), drop("m")]);
        src.push(vec![push("m", lit(1)), push("k", blit("k")), lop(&["n"], 0x78, &[])]);
        src.push(vec![push("k", lit(1)), push("m", param(Int)), lop(&["n"], 0x79, &["m"])]);
        src.push(vec![push("k", lit(2)), push("m", lit(0)), lop(&["n"], 0x79, &["m"])]);
        src.push(vec![Stmt::Depth { of: "a".into(), off: None, name: None }]);
        src.push(vec![push("", lit(1))]);
        for (si, s) in src.iter().enumerate() {
            for code in [0x79, 0x7a] {
                for (ai, args) in [None, some(&["n"]), some(&["__"]), some(&["a"]), some(&[]), some(&["n", "n"])].into_iter().enumerate() {
                    for (oi, outs) in [None, some(&["o"]), some(&["__"]), some(&["o", "o2"])].into_iter().enumerate() {
                        if (ai > 2 && oi > 1 || ai == 0 && oi == 2) && !thorough {
                            continue;
                        }
                        let mut body = s.clone();
                        body.push(Stmt::Op { code, args: args.clone(), outs: outs.clone() });
                        let p = prog(ins.clone(), body);
                        let ok = p.verdict().is_ok();
                        v.push(p.clone());
                        if !ok || ai > 1 {
                            continue;
                        }
                        // which item it is
                        let mut names: Vec<&str> = if oi == 1 { vec!["o", "a"] } else { vec!["a", "b", "c", "n"] };
                        if !thorough && si % 2 == 1 {
                            names.truncate(3);
                        }
                        for n in names {
                            for user in if oi == 1 { vec![0x8b, 0x91, 0xa8] } else { vec![0x75] } {
                                let mut q = p.clone();
                                q.body.push(op(user, &[n]));
                                v.push(q);
                            }
                        }
                        // and what is left below
                        for (x, y) in [("b", "a"), ("a", "b"), ("c", "b"), ("c", "a")] {
                            let mut q = p.clone();
                            q.body.push(bare(0x75));
                            q.body.push(op(0x6d, &[y, x]));
                            v.push(q);
                        }
                    }
                }
            }
        }
    }
    v
}

// ---- contents ----------------------------------------------------------------------------------

fn literals(thorough: bool) -> Vec<Prog> {
    let mut v = vec![];
    let mut vals: Vec<PushVal> = vec![];
    for n in [-2147483647i64, -65536, -32768, -256, -255, -129, -128, -127, -17, -2, -1, 0, 1, 2, 15, 16, 17, 75, 76, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, 8388607, 8388608, 2147483647] {
        vals.push(lit(n));
        if thorough {
            vals.push(expr(&format!("{} + 0", n), Int, crate::refs::num(n)));
            vals.push(expr(&format!("{}i32", n), Int, crate::refs::num(n)));
        }
    }
    for n in [0usize, 1, 2, 20, 32, 74, 75, 76, 77, 254, 255, 256, 257, 519, 520] {
        vals.push(expr(&format!("[0xabu8; {}]", n), Bytes, vec![0xab; n]));
        vals.push(expr(&format!("vec![0xcdu8; {}]", n), Bytes, vec![0xcd; n]));
    }
    for b in 0..=255u8 {
        if thorough || b <= 17 || [0x4f, 0x50, 0x51, 0x7f, 0x80, 0x81, 0x82, 0xff].contains(&b) {
            vals.push(expr(&format!("[{}u8]", b), Bytes, vec![b]));
        }
    }
    for (t, ty, b) in [
        ("b\"\"", Bytes, &b""[..]),
        ("b\"text\"", Bytes, b"text"),
        ("b\"\\x00\\xff\\n\"", Bytes, &[0, 255, 10]),
        ("true", Bool, &[1]),
        ("false", Bool, &[]),
        ("params.p_int", Int, &[1]),
        ("params.p_bool", Bool, &[1]),
        ("params.p_bytes", Bytes, b"param"),
        ("params.p_int + 41", Int, &[42]),
        ("-params.p_int", Int, &[0x81]),
        ("params.p_int == 2", Bool, &[]),
        ("!params.p_bool", Bool, &[]),
        ("params.p_bytes.len() as i32", Int, &[5]),
        ("params.p_bytes[1..3]", Bytes, b"ar"),
        ("if params.p_bool { 7 } else { 8 }", Int, &[7]),
        ("match params.p_int { 1 => 9, _ => 10 }", Int, &[9]),
        ("{ let q = params.p_int; q * 3 }", Int, &[3]),
        ("bytes(b\"made\").concat(bytes(b\"up\"))", Bytes, b"madeup"),
        ("Integer::new(-5).unwrap() * 2", Int, &[0x8a]),
        ("(3)", Int, &[3]),
        ("\"str\".as_bytes()", Bytes, b"str"),
        ("&params.p_int", Int, &[1]),
    ] {
        vals.push(expr(t, ty, b.to_vec()));
    }
    for (k, x) in vals.iter().enumerate() {
        let call = x.text.starts_with("bytes(b") && x.text.ends_with("(bytes(b\"up\"))");
        let _ = call;
        for name in ["x", ""] {
            // an unnamed expression statement can't be a block, a conditional or a negation of one
            if name.is_empty() && (x.text.starts_with('{') || x.text.starts_with("if ") || x.text.starts_with("match ")) {
                continue;
            }
            let mut body = vec![push(name, x.clone())];
            if k % 3 == 0 {
                body.insert(0, push("before", lit(1)));
            }
            if k % 5 == 0 {
                body.push(push("after", blit("end")));
            }
            let mut p = prog(if k % 4 == 0 { abc(&[Int]) } else { vec![] }, body);
            p.by_ref = k % 2 == 0;
            if k % 6 == 1 {
                p.debug = Some(k % 12 == 1);
            }
            v.push(p);
        }
    }
    // input values
    for (rust_ty, ty, value, bytes) in [
        ("i32", Int, "0", vec![]),
        ("i32", Int, "-1", vec![0x81]),
        ("i32", Int, "16", vec![16]),
        ("i32", Int, "17", vec![17]),
        ("i32", Int, "-2147483647", vec![0xff, 0xff, 0xff, 0xff]),
        ("Integer", Int, "Integer::new(128).unwrap()", vec![0x80, 0]),
        ("bool", Bool, "true", vec![1]),
        ("bool", Bool, "false", vec![]),
        ("ByteArray", Bytes, "bytes(&[])", vec![]),
        ("ByteArray", Bytes, "bytes(&[1])", vec![1]),
        ("ByteArray", Bytes, "bytes(&[0x81])", vec![0x81]),
        ("ByteArray", Bytes, "bytes(&[8; 76])", vec![8; 76]),
        ("ByteArray", Bytes, "bytes(&[8; 300])", vec![8; 300]),
        ("[u8; 4]", Bytes, "*b\"four\"", b"four".to_vec()),
        ("[u8; 1]", Bytes, "[16]", vec![16]),
    ] {
        for pos in 0..3 {
            let mut ins = vec![input("p", Bytes, 1), input("q", Int, 2)];
            ins.insert(pos, Input { name: "a".into(), rust_ty: rust_ty.into(), ty, variants: None, value: value.into(), bytes: bytes.clone() });
            v.push(prog(ins, vec![]));
        }
    }
    v
}
/// Every plain opcode, written in all ways, between others.
fn each_opcode() -> Vec<Prog> {
    let mut v = vec![];
    for code in plain_codes() {
        let ins = abc(&good_types(code));
        let names: Vec<String> = ins.iter().map(|i| i.name.clone()).collect();
        let outs: Vec<String> = (0..sem(code).unwrap().1.len()).map(|k| format!("o{}", k)).collect();
        for (args, outs) in [(None, None), (Some(names.clone()), None), (Some(names), Some(outs))] {
            let o = Stmt::Op { code, args, outs: outs.filter(|o| !o.is_empty()) };
            v.push(prog(ins.clone(), vec![o.clone()]));
            v.push(prog(ins.clone(), vec![push("s", lit(3)), drop("s"), o.clone(), push("", blit("z"))]));
            v.push(prog(ins.clone(), vec![Stmt::Block(vec![o.clone(), push("t", lit(1))]), push("", lit(2))]));
            let mut i2 = ins.clone();
            i2.push(input("k", Bool, 0));
            v.push(prog(i2, vec![iff(false, "k", vec![o.clone()], Some(vec![o])), push("", lit(2))]));
        }
    }
    for (a, b) in [(0x6b, 0x6c), (0x79, 0x79), (0x7a, 0x7a)] {
        v.push(prog(abc(&[Int, Bytes]), if a == 0x6b { vec![bare(a), bare(b)] } else { vec![push("n", lit(1)), bare(a), push("m", lit(0)), bare(b)] }));
    }
    v
}
/// All short sequences of distinct operations: nothing is dropped, repeated or moved.
fn orders(thorough: bool) -> Vec<Prog> {
    let atoms: Vec<Stmt> = vec![
        push("a", lit(70)),
        push("", blit("lit")),
        push("b", param(Bytes)),
        bare(0x61),
        lop(&["d"], 0x5a, &[]),
        lop(&["e"], 0x74, &[]),
        bare(0xab),
        Stmt::Block(vec![push("f", lit(71)), bare(0xb0)]),
        Stmt::Block(vec![]),
        push("", tlit(false)),
    ];
    let mut v = vec![];
    let mut layer: Vec<Vec<Stmt>> = vec![vec![]];
    for _ in 0..if thorough { 4 } else { 3 } {
        layer = layer.iter().flat_map(|p| atoms.iter().map(move |a| [p.clone(), vec![a.clone()]].concat())).collect();
        v.extend(layer.iter().map(|b| prog(vec![], b.clone())));
    }
    v.push(prog(vec![], vec![]));
    v
}
/// All short sequences of statements of every kind, over some inputs.
fn kinds() -> Vec<Prog> {
    let depth = |of: &str, off: Option<PushVal>, name: &str| Stmt::Depth { of: of.into(), off, name: if name.is_empty() { None } else { Some(name.into()) } };
    let atoms: Vec<Vec<Stmt>> = vec![
        vec![push("p", lit(70))],
        vec![depth("a", None, "")],
        vec![depth("a", None, "d")],
        vec![depth("a", Some(lit(0)), "")],
        vec![depth("b", Some(lit(1)), "e")],
        vec![depth("a", Some(param(Int)), "")],
        vec![Stmt::Transmute { name: "a".into(), to: Int, bound: false }],
        vec![Stmt::Transmute { name: "b".into(), to: Bytes, bound: true }],
        vec![bare(0x6b), bare(0x6c)],
        vec![push("n", lit(0)), op(0x79, &["n"])],
        vec![push("n", lit(1)), lop(&["r"], 0x7a, &["n"])],
        vec![push("t", tlit(true)), iff(false, "t", vec![bare(0x61)], Some(vec![bare(0xab)]))],
        vec![push("t", tlit(false)), iff(true, "t", vec![push("q", lit(9)), depth("q", Some(lit(0)), "f"), bare(0x6d)], None)],
        vec![Stmt::Block(vec![depth("b", None, ""), bare(0x75)])],
    ];
    let mut v = vec![];
    let mut layer: Vec<Vec<Stmt>> = vec![vec![]];
    for _ in 0..3 {
        layer = layer.iter().flat_map(|p| atoms.iter().map(move |a| [p.clone(), a.clone()].concat())).collect();
        v.extend(layer.iter().map(|b| prog(abc(&[Bytes, Int]), b.clone())));
    }
    // each behind, before and between many others
    for a in &atoms {
        for n in [3usize, 7, 15, 31] {
            let fill = |n: usize| (0..n).map(|k| if k % 3 == 2 { bare(0x61) } else { push(&format!("f{}", k), lit(80 + k as i64)) }).collect::<Vec<_>>();
            for body in [[fill(n), a.clone()].concat(), [a.clone(), fill(n)].concat(), [fill(n), a.clone(), fill(n / 2)].concat()] {
                v.push(prog(abc(&[Bytes, Int]), body));
            }
        }
    }
    v
}
// ---- sizes -------------------------------------------------------------------------------------

/// Statements of many kinds, the `k`-th of a long script, each leaving the stack one item higher at most.
fn wide_atoms(k: usize) -> Vec<Stmt> {
    let x = format!("w{}", k);
    match k % 9 {
        0 => vec![push(&x, lit(1000 + k as i64))],
        1 => vec![push(&x, blit(&format!("item {}", k)))],
        2 => vec![push("", blit("plain")), bare(0xa8), bare(0x75)],
        3 => vec![lop(&[&x], 0x74, &[])],
        4 => vec![push("n", lit((k % 5) as i64)), op(0x79, &["n"]), bare(0x75)],
        5 => vec![push("t", tlit(k % 2 == 0)), iff(k % 4 < 2, "t", vec![bare(0x61)], Some(vec![push("u", lit(k as i64)), drop("u")]))],
        6 => vec![Stmt::Depth { of: "a".into(), off: None, name: None }, op(0x79, &["a"]).clone()],
        7 => vec![bare(0x6b), bare(0x6c)],
        _ => vec![Stmt::Block(vec![push(&x, tlit(k % 2 == 0)), drop(&x)])],
    }
}
/// Long scripts, many inputs, many variants, deep nesting, deep stacks, many arguments.
fn wide(thorough: bool) -> Vec<Prog> {
    let mut v = vec![];
    let ty3 = |k: usize| TYS[k % 3];
    let many = |n: usize| (0..n).map(|k| input(&format!("i{}", k), ty3(k), k)).collect::<Vec<_>>();
    let sizes: &[usize] = if thorough { &[16, 17, 20, 31, 32, 33, 60, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400] } else { &[16, 17, 32, 33, 65, 129, 257, 300] };
    for &n in sizes {
        // only pushes
        v.push(prog(vec![], (0..n).map(|k| push("", lit(k as i64 * 7 - 20))).collect()));
        v.push(prog(vec![], (0..n).map(|k| push(&format!("p{}", k), blit(&format!("v{}", k)))).collect()));
        // one name again and again
        v.push(prog(vec![], (0..n).map(|k| push("p", lit(k as i64))).collect()));
        // pushes, then drops of them in order
        v.push(prog(vec![], (0..n).map(|k| push(&format!("p{}", k), val(ty3(k), k))).chain((0..n).rev().map(|k| drop(&format!("p{}", k)))).collect()));
        v.push(prog(vec![], (0..n).map(|k| push(&format!("p{}", k), val(ty3(k), k))).chain((0..n).map(|_| bare(0x75))).collect()));
        // opcodes only
        v.push(prog(abc(&[Int]), (0..n).map(|k| if k % 3 == 2 { op(0x8b, &["a"]) } else { bare([0x61, 0x8b, 0x8f][k % 3]) }).collect()));
        // to the altstack and back
        v.push(prog(vec![], (0..n.min(129)).map(|k| push(&format!("p{}", k), lit(k as i64))).chain((0..n.min(129)).map(|_| bare(0x6b))).chain((0..n.min(129)).map(|_| bare(0x6c))).collect()));
        // nested blocks and consecutive conditionals
        v.push(prog(vec![], (0..n).map(|k| Stmt::Block(vec![push(&format!("p{}", k), lit(k as i64))])).collect()));
        let mut ins = many(n.min(40));
        v.push(prog(ins.clone(), (0..ins.len()).map(|k| push("", lit(k as i64))).collect()));
        ins.reverse();
        v.push(prog(ins.clone(), vec![]));
        v.push(prog(ins, (0..n.min(40)).map(|_| bare(0x75)).collect()));
    }
    for &n in if thorough { &[9usize, 18, 27, 45, 63, 90, 126][..] } else { &[9, 27, 63][..] } {
        for rot in 0..9 {
            let body: Vec<Stmt> = (0..n).flat_map(|k| wide_atoms(k + rot)).filter(|s| !matches!(s, Stmt::Op { code: 0x79, args: Some(a), .. } if a[0] == "a")).collect();
            v.push(prog(abc(&[Int, Bytes, Bool, Bytes, Int]), body));
        }
    }
    // items deep in the stack are fetched, by a literal index and by their depth
    for &n in if thorough { &[6usize, 12, 16, 17, 18, 24, 40, 130][..] } else { &[12, 17, 18, 40][..] } {
        let body = |x: Vec<Stmt>| (0..n).map(|k| push(&format!("p{}", k), val(ty3(k), k))).chain(x).collect::<Vec<_>>();
        for at in 0..n {
            if n > 24 && at % 7 != 3 && at + 3 < n {
                continue;
            }
            for code in [0x79, 0x7a] {
                let d = (n - 1 - at) as i64;
                let name = format!("p{}", at);
                let last = match ty3(at) {
                    Int => lop(&["r"], 0x8b, &["q"]),
                    Bool => lop(&["r"], 0x91, &["q"]),
                    _ => lop(&["r"], 0xa9, &["q"]),
                };
                v.push(prog(vec![], body(vec![push("d", lit(d)), lop(&["q"], code, &["d"]), last.clone()])));
                if (1..=16).contains(&d) {
                    v.push(prog(vec![], body(vec![lop(&["d"], 0x50 + d as u8, &[]), lop(&["q"], code, &["d"]), last.clone()])));
                }
                v.push(prog(vec![], body(vec![Stmt::Depth { of: name.clone(), off: None, name: Some("d".into()) }, lop(&["q"], code, &["d"]), last.clone()])));
                v.push(prog(vec![], body(vec![Stmt::Depth { of: name.clone(), off: None, name: Some("d".into()) }, op(code, &["d"]), op(match ty3(at) { Int => 0x8b, Bool => 0x91, _ => 0xa9 }, &[&name])])));
            }
        }
    }
    // deep nesting
    for &n in if thorough { &[4usize, 5, 6, 7, 8, 10][..] } else { &[5, 8][..] } {
        let ins: Vec<Input> = (0..n).map(|k| input(&format!("c{}", k), Bool, k)).collect();
        for side in 0..3 {
            let mut b = vec![bare(0x61)];
            for k in 0..n {
                // what is left of the conditions is dropped on the other side
                let other: Vec<Stmt> = (0..k).rev().map(|j| drop(&format!("c{}", j))).collect();
                b = match side {
                    0 => vec![iff(false, &format!("c{}", k), b, Some(other))],
                    1 => vec![iff(true, &format!("c{}", k), other, Some(b))],
                    _ if k % 2 == 0 => vec![iff(false, &format!("c{}", k), b, Some(other))],
                    _ => vec![iff(true, &format!("c{}", k), other, Some(b))],
                };
            }
            let mut b2 = b.clone();
            b2.push(push("e", lit(1)));
            v.push(prog(ins.clone(), b));
            v.push(prog(ins.clone(), b2));
        }
        // blocks
        let mut b = vec![push("m", lit(3))];
        for k in 0..n * 3 {
            b = vec![push(&format!("a{}", k), lit(1)), Stmt::Block(b), push(&format!("z{}", k), lit(2))];
        }
        v.push(prog(vec![], b));
    }
    // many variants
    for &n in if thorough { &[3usize, 4, 5, 6, 7, 8, 9][..] } else { &[4, 5, 8][..] } {
        // selected by one condition after the other
        for flip in [false, true] {
            let vs: Vec<(String, Vec<Conj>)> = (0..n)
                .map(|k| {
                    let mut c: Conj = (0..k).map(|j| (format!("c{}", j), flip)).collect();
                    if k + 1 < n {
                        c.push((format!("c{}", k), !flip));
                    }
                    (format!("V{}", k), vec![c])
                })
                .collect();
            let mut ins = vec![input("base", Bytes, 0)];
            for k in 0..n {
                let mut i = input(&format!("x{}", k), ty3(k), k + 1);
                i.variants = Some(vec![format!("V{}", k)]);
                ins.push(i);
            }
            for k in (0..n - 1).rev() {
                let mut i = input(&format!("c{}", k), Bool, k);
                i.variants = Some((k..n).map(|j| format!("V{}", j)).collect());
                if k == 0 {
                    i.variants = None;
                }
                ins.push(i);
            }
            let mut b = vec![drop(&format!("x{}", n - 1))];
            for k in (0..n - 1).rev() {
                let mine = vec![drop(&format!("x{}", k))];
                b = vec![if flip { iff(true, &format!("c{}", k), mine, Some(b)) } else { iff(false, &format!("c{}", k), mine, Some(b)) }];
            }
            for tail in [vec![], vec![drop("base")], vec![lop(&["h"], 0xa8, &["base"]), drop("h")]] {
                v.push(Prog { inputs: ins.clone(), variants: vs.clone(), body: [b.clone(), tail].concat(), debug: None, by_ref: true });
            }
            v.push(Prog { inputs: ins.clone(), variants: vs.clone(), body: vec![b[0].clone(), push("", lit(4)), bare(0x75)], debug: None, by_ref: false });
        }
    }
    v
}
/// Scripts of a certain size which are right, and the same with one thing wrong, at each place.
fn wide_wrong(thorough: bool) -> Vec<Prog> {
    let mut v = wide(thorough);
    for p in &mut v {
        // more is there to judge the longest ones, which only take long
        if p.body.len() > 140 {
            p.body.truncate(140);
        }
    }
    let n = if thorough { 40 } else { 21 };
    let base: Vec<Vec<Stmt>> = (0..n)
        .map(|k| {
            let x = format!("w{}", k);
            match k % 7 {
                0 => vec![push(&x, lit(1000 + k as i64))],
                1 => vec![push(&x, blit("y")), op(0xa8, &[&x])],
                2 => vec![lop(&[&x], 0x74, &[])],
                3 => vec![push("t", tlit(true)), iff(false, "t", vec![push(&x, lit(2))], Some(vec![push(&x, lit(3))]))],
                4 => vec![push("n", lit(2)), lop(&[&x], 0x79, &["n"])],
                5 => vec![push(&x, blit("z")), op(0x6b, &[&x]), op(0x6c, &[&x])],
                _ => vec![push(&x, tlit(true)), lop(&[&x], 0x91, &[&x])],
            }
        })
        .collect();
    let wrongs: Vec<Vec<Stmt>> = vec![
        vec![drop("nothing")],
        vec![op(0x7c, &["a", "b"])],
        vec![push("m", lit(5)), op(0x7e, &["m", "m"])],
        vec![push("s", blit("s")), bare(0x8b)],
        vec![push("m", lit(500)), bare(0x79)],
        vec![Stmt::Depth { of: "gone".into(), off: None, name: None }],
        vec![bare(0x6c)],
        vec![push("t", tlit(true)), iff(false, "t", vec![push("more", lit(1))], None)],
        vec![push("t", tlit(true)), iff(false, "t", vec![push("o", lit(1))], Some(vec![push("o", blit("x"))])), bare(0x8b)],
        vec![lop(&["p", "q", "r"], 0x76, &[]), bare(0x75), bare(0x75)],
        (0..80).map(|_| bare(0x75)).collect(),
    ];
    for k in 0..=n {
        for (wi, w) in wrongs.iter().enumerate() {
            if !thorough && (k + wi) % 2 != 0 {
                continue;
            }
            let mut b: Vec<Stmt> = base[..k].concat();
            b.extend(w.clone());
            b.extend(base[k..].concat());
            v.push(prog(abc(&[Int, Bytes, Bool]), b));
        }
    }
    // all names of many inputs, or all but one
    for m in [6usize, 12, 20] {
        let ins: Vec<Input> = (0..m).map(|k| input(&format!("i{}", k), TYS[k % 3], k)).collect();
        let down: Vec<Stmt> = (0..m).rev().map(|k| drop(&format!("i{}", k))).collect();
        v.push(prog(ins.clone(), down.clone()));
        for k in 0..m {
            let mut d = down.clone();
            d[k] = drop("i0x");
            v.push(prog(ins.clone(), d.clone()));
            d[k] = drop(&format!("i{}", (m - k) % m));
            v.push(prog(ins.clone(), d.clone()));
            d[k] = op(0x8b, &[&format!("i{}", m - 1 - k)]);
            d.truncate(k + 1);
            v.push(prog(ins.clone(), d));
        }
    }
    v
}
/// Functions that never are scripts.
fn never() -> Vec<Prog> {
    let mut v = vec![];
    let bad = |t: &str| Stmt::Bad(t.into());
    let ins = || vec![input("a", Int, 0), input("b", Int, 1), input("c", Bool, 2)];
    for t in [
        "OP_ADD(a, 1 + 1);",
        "OP_ADD(a, 5);",
        "OP_ADD(a, (b));",
        "OP_ADD(a, -b);",
        "OP_ADD(a, params.p_int);",
        "OP_1ADD(OP_1ADD(b));",
        "OP_DROP(5);",
        "OP_DROP(true);",
        "OP_IF(5); OP_ENDIF;",
        "OP_TOALTSTACK(1 + 1);",
        "for i in 0..3 { i; }",
        "if params.p_bool { 3; } else { 4; }",
        "if params.p_bool { 3; }",
        "OP_IF(c);",
        "OP_NOTIF(c);",
        "OP_IF(c); OP_ELSE;",
        "OP_IF(c); { OP_ENDIF; }",
        "OP_ELSE;",
        "OP_ENDIF;",
        "OP_IF(c); OP_ENDIF; OP_ENDIF;",
        "OP_IF(c); OP_ENDIF; OP_ELSE;",
        "OP_IF(c); OP_ELSE; OP_ELSE; OP_ENDIF;",
        "OP_IF(c); 1; OP_DROP; OP_ELSE; 2; OP_DROP; OP_ELSE; 3; OP_DROP; OP_ENDIF;",
        "OP_IF(c); OP_ENDIF(a);",
        "OP_IF(c); OP_ELSE(a); OP_ENDIF;",
        "{ OP_IF(c); } OP_ENDIF;",
        "OP_NOSUCH;",
        "OP_NOSUCH(a);",
        "let x = OP_NOSUCH(a);",
        "op_drop(c);",
        "nosuch(c);",
        "a;",
        "depth_of();",
        "depth_of(a, b);",
        "depth_of(1);",
        "depth_of(undefined);",
        "let (x, y) = depth_of(a);",
        "depth_of_offset(a);",
        "depth_of_offset(undefined, 1);",
        "transmute(a);",
        "transmute(undefined, i32);",
        "let (x, y) = 5;",
        "let (x, y) = OP_ADD(b, c);",
        "let x;",
        "fn inner() {}",
        "const X: i32 = 5;",
        "OP_MUL(a, b);",
        "OP_MUL;",
        "OP_2MUL;",
        "OP_2DIV;",
        "OP_INVERT;",
        "OP_LSHIFT;",
        "OP_RSHIFT;",
        "OP_VER;",
        "OP_RESERVED;",
        "OP_RESERVED1;",
        "OP_RESERVED2;",
        "OP_VERIF(c);",
        "OP_VERNOTIF(c);",
        "OP_PUSHDATA1;",
        "OP_PUSHDATA2;",
        "OP_PUSHDATA4;",
        "Opcode::OP_DROP(c);",
    ] {
        for w in 0..4 {
            let s = bad(t);
            let body = match w {
                0 => vec![s],
                1 => vec![push("k", lit(1)), drop("k"), s],
                2 => vec![Stmt::Block(vec![s])],
                _ => vec![push("k", tlit(true)), iff(false, "k", vec![s], None)],
            };
            // behind an OP_IF these may belong to it
            if w >= 2 && (t.contains("OP_IF") || t.contains("OP_ELSE") || t.contains("OP_ENDIF")) {
                continue;
            }
            v.push(prog(ins(), body));
        }
    }
    // items which aren't there any more, or not yet
    for s in [
        vec![drop("c"), drop("c")],
        vec![op(0x93, &["a", "b"])],
        vec![drop("c"), lop(&["b"], 0x93, &["a", "b"]), op(0x8b, &["a"])],
        vec![lop(&["x"], 0x91, &["c"]), op(0x69, &["c"])],
        vec![op(0x6b, &["c"]), drop("c")],
        vec![op(0x6b, &["c"]), bare(0x6c), drop("b")],
        vec![op(0x6c, &["c"])],
        vec![bare(0x6c)],
        vec![op(0x6b, &["c"]), op(0x6c, &["c"]), bare(0x6c)],
        vec![op(0x6b, &["c"]), op(0x6c, &["b"])],
        vec![op(0x6b, &["b"])],
        vec![drop("x"), push("x", lit(1))],
        vec![iff(false, "c", vec![push("x", lit(1)), drop("x")], None), drop("x")],
        vec![iff(false, "c", vec![], Some(vec![drop("x")]))],
        vec![iff(false, "c", vec![drop("c")], None)],
        vec![iff(false, "b", vec![], None)],
        vec![drop("c"), drop("b"), drop("a"), bare(0x75)],
        vec![lop(&["x"], 0x6b, &["c"]), op(0x6c, &["c"])],
    ] {
        v.push(prog(ins(), s));
    }
    // inputs of variants that don't exist
    for (vs, p) in [(vec!["A", "B"], 0), (vec!["A"], 6), (vec![], 0)] {
        for wrong in ["D", "a", "I"] {
            let mut p = prog(ins(), vec![]);
            p.variants = if vs.is_empty() { vec![] } else { parse_preds(&preds()[if vs.len() == 1 { 6 } else { 0 }]) };
            p.inputs[0].variants = Some(vec![wrong.into()]);
            v.push(p);
        }
        let _ = p;
    }
    v
}

#[derive(Clone, Copy, PartialEq)]
enum Judge {
    Ops,
    Names,
}
fn family(c: &Ctx, tag: &str, mut progs: Vec<Prog>, j: Judge, note: &mut Vec<String>) {
    let all = progs.len();
    progs.retain(|p| match (p.verdict(), j) {
        (Ok(_), _) => true,
        (Err(Stop::Reject(_)), Judge::Names) => true,
        _ => false,
    });
    let mut src: Vec<(bool, String, Prog)> = progs.into_iter().map(|p| (p.verdict().is_err(), p.source(), p)).collect();
    src.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
    src.dedup_by(|a, b| a.1 == b.1);
    let good = src.iter().filter(|p| !p.0).count();
    let n = src.len();
    let progs: Vec<Prog> = src.iter().map(|p| p.2.clone()).collect();
    let src: Vec<String> = src.into_iter().map(|p| p.1).collect();
    note.push(format!("{} {} ({} to accept, {} to reject; {} more repeated or not judged)", n, tag, good, n - good, all - n));
    // those that should compile and those that shouldn't are compiled apart, which takes fewer runs of the compiler
    let per = |n: usize| (n / 8 + 1).min(150);
    let accept = Lazy::new(c, &format!("{}-good", tag), PRELUDE, &src[..good], per(good), true);
    let reject = Lazy::new(c, &format!("{}-wrong", tag), PRELUDE, &src[good..], per(n - good), false);
    c.range(tag, n as u64, |i, ch| {
        let i = i as usize;
        let o = if i < good { accept.get(i) } else { reject.get(i - good) };
        match j {
            Judge::Ops => progs[i].judge_ops(&o, ch),
            Judge::Names => progs[i].judge_names(&o, ch),
        }
    });
}

pub fn c21(c: &Ctx) {
    let t = c.thorough;
    let mut n = vec![];
    family(c, "scripts-nestings", nestings(t), Judge::Ops, &mut n);
    family(c, "scripts-literals", literals(t), Judge::Ops, &mut n);
    family(c, "scripts-opcodes", each_opcode(), Judge::Ops, &mut n);
    family(c, "scripts-orders", orders(t), Judge::Ops, &mut n);
    family(c, "scripts-kinds", kinds(), Judge::Ops, &mut n);
    family(c, "scripts-wide", wide(t), Judge::Ops, &mut n);
    family(c, "scripts-variant-inputs", variant_inputs(t), Judge::Ops, &mut n);
    c.bound(format!("script functions compiled with the real macro: {}", n.join("; ")));
}
pub fn c22(c: &Ctx) {
    let t = c.thorough;
    let mut n = vec![];
    family(c, "names-single", single(t), Judge::Names, &mut n);
    family(c, "names-types", types(t), Judge::Names, &mut n);
    let ins = || vec![input("a", Int, 0), input("b", Bytes, 1), input("c", Bytes, 2)];
    family(c, "names-sequences", sequences(3, if t { 1 } else { 0 }, true, ins()), Judge::Names, &mut n);
    if t {
        family(c, "names-long-sequences", sequences(4, 0, false, ins()), Judge::Names, &mut n);
    }
    let ins = vec![input("a", Bytes, 0), input("b", Bool, 1), input("c", Int, 2), input("d", Int, 3)];
    family(c, "names-rich", sequences(2, 2, t, ins), Judge::Names, &mut n);
    family(c, "names-conflicts", conflicts(t), Judge::Names, &mut n);
    family(c, "names-variants", variant_bodies(t), Judge::Names, &mut n);
    family(c, "names-predicates", variant_predicates(t), Judge::Names, &mut n);
    family(c, "names-variant-types", variant_types(t), Judge::Names, &mut n);
    family(c, "names-depths", depths(t), Judge::Names, &mut n);
    family(c, "names-wide", wide_wrong(t), Judge::Names, &mut n);
    family(c, "names-never", never(), Judge::Names, &mut n);
    c.bound(format!("script functions compiled with the real macro: {}", n.join("; ")));
}
