
// ================================================================ C08 builders
const BTEXTS: &[&str] = &["", "f(a b);", "x;", "/* c */ y // d\n", "await;", "({a: 1 b: 2});", "import a from 'b';", "x = ;", "'use strict'; z"];
fn draw_c08(r: &mut Rng) -> Scn {
    let mut s = Scn::new("C08");
    for _ in 0..2 {
        let module = r.chance(1, 3);
        let k = 1 + r.below(3) as usize;
        draw_doc(r, &mut s, k, module, None);
    }
    let k = if r.chance(1, 16) { 60 + r.below(200) } else { 3 + r.below(25) };
    let ops = (0..k).map(|_| [r.below(14) as i64, 0, r.below(64) as i64, r.below(64) as i64]).collect();
    s.lists.insert("ops".into(), ops);
    s
}
struct Slot {
    w: Watch,
    want: Vec<Ev>,
    module: bool,
    rested: bool,
    what: String,
}
fn fresh(text: &str, t: bool, m: bool, ctor: u32) -> Vec<Ev> {
    observe(text, Cfg { module: m, tolerant: t, ctor }, cap(text))
}
/// may a statement be put before this program without changing what it means?
fn ok_start(d: &Doc) -> bool {
    !d.text().is_empty()
        && d.laid.toks.first().map(|t| {
            let c = d.text()[t.start..].chars().next().unwrap();
            c != '"' && c != '\''
        }) == Some(true)
}
fn slot_ok(x: &Slot) -> Result<(), Viol> {
    let n = x.w.evs.len();
    if n > x.want.len() || x.w.evs[..] != x.want[..n] {
        let k = x.w.evs.iter().zip(&x.want).position(|(a, b)| a != b).unwrap_or(n.min(x.want.len()));
        return viol(
            "not-as-configured",
            format!("{}: event {} was {}\n   a freshly configured parser gives {}", x.what, k, x.w.evs.get(k).map(|e| e.show()).unwrap_or("nothing".into()), x.want.get(k).map(|e| e.show()).unwrap_or("nothing".into())),
        );
    }
    Ok(())
}
fn run_c08(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    let docs: Vec<Doc> = (0..s.docs.len()).map(|i| s.doc(i)).collect();
    let mut texts: Vec<String> = BTEXTS.iter().map(|t| t.to_string()).collect();
    for d in &docs {
        texts.push(d.text().to_string());
    }
    // one with a fault that tolerance forgives, one that nothing forgives
    let faulty = texts.len();
    texts.push(format!("f(a b);\n{}", docs[0].text()));
    texts.push(format!("{}\n)", docs[0].text()));
    // like the first one, but for one of the last letters
    let mut twin = docs[0].text().to_string();
    let old: Vec<char> = twin.chars().collect();
    if let Some(k) = old.iter().rposition(|c| c.is_ascii_alphanumeric()) {
        twin = old.iter().enumerate().map(|(i, c)| if i != k { *c } else if *c == '1' { '2' } else if c.is_ascii_digit() { '1' } else if *c == 'q' { 'z' } else { 'q' }).collect();
    }
    texts.push(twin);
    for (i, t) in texts.iter().enumerate().skip(BTEXTS.len()) {
        cx.text(&format!("text {}", i), t);
    }
    let big: usize = texts.iter().map(|t| t.len()).sum();
    begin(big * 40);
    let mut b = Some(ressa::Builder::new());
    let (mut t, mut m, mut js) = (false, false, String::new());
    let mut slots: Vec<Slot> = vec![];
    let mut built = 0;
    for op in s.list("ops") {
        let (a, c) = (op[2].unsigned_abs() as usize, op[3].unsigned_abs() as usize);
        let on = a & 1 == 1;
        let text = &texts[c % texts.len()];
        cx.sig(op[0] as u64);
        let k = op[0].unsigned_abs() % 14;
        if b.is_none() && k < 9 {
            b = Some(ressa::Builder::new());
            t = false;
            m = false;
            js.clear();
        }
        match k {
            0 => {
                b.as_mut().unwrap().set_tolerant(on);
                t = on;
            }
            1 => {
                b.as_mut().unwrap().tolerant(on);
                t = on;
            }
            2 => {
                b.as_mut().unwrap().set_module(on);
                m = on;
            }
            3 => {
                b.as_mut().unwrap().module(on);
                m = on;
            }
            4 => {
                b.as_mut().unwrap().set_js(text.clone());
                js = text.clone();
            }
            5 => {
                b.as_mut().unwrap().js(text.as_str());
                js = text.clone();
            }
            6 | 7 => {
                built += 1;
                let ctor = if k == 6 { 0 } else { 1 + (a as u32 >> 1) % 2 };
                let want = fresh(&js, t, m, if ctor == 0 && a & 4 != 0 { 3 } else { ctor });
                // what is known beyond doubt
                if js == "f(a b);" {
                    let ok = matches!(want.first(), Some(Ev::Item(_)));
                    if ok != t {
                        return viol("tolerance-not-as-configured", format!("tolerant: {}, {}", t, show(&want)));
                    }
                }
                if let Some(k) = docs.iter().position(|d| d.module == m && d.text() == js) {
                    // a generated program in its own mode: the model knows
                    expect_valid(&want, &self::want(&docs[k]), "a freshly configured parser")?;
                }
                if js == texts[faulty] && docs[0].module == m && ok_start(&docs[0]) {
                    if !t && !matches!(want.iter().find(|e| !matches!(e, Ev::Com(_))), Some(Ev::Err(_))) {
                        return viol("tolerance-not-as-configured", format!("strict, but {}", show(&want)));
                    }
                    if t {
                        let got = items(&want);
                        let due = self::want(&docs[0]);
                        if first_err(&want).is_some() || got.len() != due.len() + 1 || got[1..].iter().zip(&due).any(|(a, b)| a != b) {
                            return viol("tolerance-not-as-configured", format!("tolerant, but {}", show(&want)));
                        }
                    }
                }
                if js.is_empty() && want != vec![Ev::End] {
                    return viol("not-as-configured", format!("an empty text gave {}", show(&want)));
                }
                let coms: Coms = Default::default();
                let bb = b.as_ref().unwrap();
                let r = sim::guard(|| -> Result<P, ressa::Error> {
                    match ctor {
                        0 => Ok(Box::new(bb.build()?)),
                        1 => Ok(Box::new(bb.with_comment_handler(recorder(&coms))?)),
                        _ => Ok(Box::new(bb.with_comment_handler(Struct(recorder(&coms)))?)),
                    }
                });
                let what = format!("parser {} (tolerant {}, module {}, handler {}, text {:?})", slots.len(), t, m, ctor, js.chars().take(60).collect::<String>());
                slots.push(Slot { w: Watch::from(r, coms), want, module: m, rested: false, what });
                slot_ok(slots.last().unwrap())?;
            }
            8 => {
                // everything in one chain
                let on2 = a & 2 == 2;
                if a & 4 == 0 {
                    b.as_mut().unwrap().module(on).tolerant(on2).js(text.clone());
                } else {
                    b.as_mut().unwrap().js(text.as_str()).tolerant(on2).module(on);
                }
                m = on;
                t = on2;
                js = text.clone();
            }
            9 => {
                if a & 3 == 0 {
                    b = None;
                    cx.fault("builder_dropped");
                }
            }
            10 | 11 => {
                if !slots.is_empty() {
                    let i = a % slots.len();
                    if !slots[i].rested {
                        slots[i].w.pull();
                    }
                    slot_ok(&slots[i])?;
                }
            }
            12 => {
                if !slots.is_empty() && a & 1 == 0 {
                    let i = c % slots.len();
                    slots.remove(i);
                    cx.fault("parser_dropped");
                }
            }
            _ => {
                if !slots.is_empty() {
                    let i = a % slots.len();
                    let x = &mut slots[i];
                    if x.rested || x.w.stopped || x.w.p.is_none() || x.w.evs.iter().any(|e| matches!(e, Ev::Err(_))) {
                        continue;
                    }
                    x.rested = true;
                    cx.fault("switched_to_parse");
                    let have = items(&x.w.evs).len();
                    let due: Vec<&ProgramPart> = items(&x.want).into_iter().skip(have).collect();
                    let fails = first_err(&x.want);
                    let p = x.w.p.as_mut().unwrap();
                    match sim::guard(|| p.rest()) {
                        Err(e) => {
                            if panic_of(&x.want).is_none() {
                                return viol("panic", e.show());
                            }
                        }
                        Ok(Err(e)) => {
                            if fails != Some(&err_info(&e)) {
                                return viol("not-as-configured", format!("{}: parse failed with {}, a fresh parser gives {:?}", x.what, e, fails));
                            }
                        }
                        Ok(Ok(p)) => {
                            let (mm, v) = match p {
                                Program::Mod(v) => (true, v),
                                Program::Script(v) => (false, v),
                            };
                            if mm != x.module {
                                return viol("wrong-program-kind", format!("{}: parse gave a module: {}", x.what, mm));
                            }
                            if fails.is_some() || v.len() != due.len() || v.iter().zip(&due).any(|(a, b)| a != *b) {
                                return viol("not-as-configured", format!("{}: parse gave {:?}\n   a fresh parser: {}", x.what, v, show(&x.want)));
                            }
                        }
                    }
                }
            }
        }
    }
    // everybody to the end, the builder changed once more in between
    if let Some(b) = b.as_mut() {
        b.tolerant(!t).module(!m).js("poison(");
    }
    for i in 0..slots.len() {
        if !slots[i].rested {
            slots[i].w.all(10_000);
            slot_ok(&slots[i])?;
            if slots[i].w.evs.len() != slots[i].want.len() {
                return viol("not-as-configured", format!("{}: stopped after {} of {} events", slots[i].what, slots[i].w.evs.len(), slots[i].want.len()));
            }
        }
    }
    cx.nontrivial = built >= 2;
    cx.faultn("snapshot_then_change", built);
    Ok(())
}

// ================================================================ C09 tolerance
fn draw_c09(r: &mut Rng) -> Scn {
    let mode = *r.pick(&[0, 0, 1, 1, 2, 2, 3, 4, 4, 5, 5]);
    let mut s = if mode == 0 || mode == 4 {
        let k = *r.pick(&[1, 1, 2, 5]);
        draw_damaged(r, "C09", k)
    } else {
        let mut s = Scn::new("C09");
        let module = r.chance(1, 3);
        let k = 1 + r.below(3) as usize;
        let mut m = doc::mask(r);
        if mode == 2 {
            m &= !gen::F_ASYNC;
            m |= gen::F_OBJ;
        }
        if mode == 5 {
            m |= gen::F_FAULT | gen::F_CLASS | gen::F_OBJ | gen::F_WITH;
        }
        draw_doc_mask(r, &mut s, k, module, None, m);
        s
    };
    s.set("mode", if mode == 4 { 0 } else { mode });
    s.set("pick", r.below(1000) as i64);
    s.set("pick2", r.below(1000) as i64);
    s.set("soup", if mode == 4 { 1 + r.below(1 << 40) as i64 } else { 0 });
    s.set("souplen", r.below(30) as i64);
    s
}
/// a fault that tolerance forgives, and the item meant
fn tolerated(pick: usize, pick2: usize) -> (String, ProgramPart) {
    let names = ["x", "get", "static", "if", "constructo", "of"];
    let n = names[pick2 % names.len()];
    let a = |s: &str| FunctionArg::Pat(Pat::Identifier(s.into()));
    let func = |params: Vec<FunctionArg>, body: Vec<ProgramPart>| Function { id: None, params, body, generator: false, is_async: false };
    let prop = |kind: PropertyKind, f: Function, method: bool| Property {
        key: PropertyKey::Expr(Expr::Ident(n.into())),
        value: PropertyValue::Expr(Expr::Function(f)),
        kind,
        method,
        computed: false,
        short_hand: false,
    };
    let class = |p: Property| ProgramPart::Decl(Decl::Class(Class { id: Some("K".into()), super_class: None, body: vec![p] }));
    let ret = |s: &str| ProgramPart::Stmt(Stmt::Return(Some(Expr::Ident(s.into()))));
    let obj = |p: Property| ProgramPart::Stmt(Stmt::Expr(Expr::Object(vec![ObjectProperty::Property(p)])));
    let call = |args: Vec<Expr>| ProgramPart::Stmt(Stmt::Expr(Expr::Call(CallExpr { callee: Box::new(Expr::Ident("f".into())), arguments: args })));
    let id = |s: &str| Expr::Ident(s.into());
    match pick % 12 {
        0 => (format!("class K {{ get {}(p) {{ return p }} }}", n), class(prop(PropertyKind::Get, func(vec![a("p")], vec![ret("p")]), false))),
        1 => (format!("class K {{ get {}(p, q) {{ }} }}", n), class(prop(PropertyKind::Get, func(vec![a("p"), a("q")], vec![]), false))),
        2 => (format!("class K {{ set {}() {{ return p }} }}", n), class(prop(PropertyKind::Set, func(vec![], vec![ret("p")]), false))),
        3 => (format!("class K {{ set {}(p, q) {{ }} }}", n), class(prop(PropertyKind::Set, func(vec![a("p"), a("q")], vec![]), false))),
        4 => (
            format!("class K {{ {}() {{ with (a) b; }} }}", n),
            class(prop(PropertyKind::Method, func(vec![], vec![ProgramPart::Stmt(Stmt::With(WithStmt { object: id("a"), body: Box::new(Stmt::Expr(id("b"))) }))]), true)),
        ),
        5 => (
            format!("class K {{ {}() {{ delete y; }} }}", n),
            class(prop(
                PropertyKind::Method,
                func(vec![], vec![ProgramPart::Stmt(Stmt::Expr(Expr::Unary(UnaryExpr { operator: UnaryOperator::Delete, prefix: true, argument: Box::new(id("y")) })))]),
                true,
            )),
        ),
        6 => (format!("({{ get {}(p) {{ return p }} }});", n), obj(prop(PropertyKind::Get, func(vec![a("p")], vec![ret("p")]), false))),
        7 => (format!("({{ set {}() {{ }} }});", n), obj(prop(PropertyKind::Set, func(vec![], vec![]), false))),
        8 => (format!("({{ set {}(p, q) {{ }} }});", n), obj(prop(PropertyKind::Set, func(vec![a("p"), a("q")], vec![]), false))),
        9 => ("f(a b);".into(), call(vec![id("a"), id("b")])),
        10 => ("f(1 'x' c);".into(), call(vec![Expr::Literal(Literal::Number("1".into())), Expr::Literal(Literal::String("'x'".into())), id("c")])),
        _ => {
            let p = |k: &str, v: &str| {
                ObjectProperty::Property(Property {
                    key: PropertyKey::Expr(id(k)),
                    value: PropertyValue::Expr(Expr::Literal(Literal::Number(v.into()))),
                    kind: PropertyKind::Init,
                    method: false,
                    computed: false,
                    short_hand: false,
                })
            };
            ("({ a: 1 b: 2 });".into(), ProgramPart::Stmt(Stmt::Expr(Expr::Object(vec![p("a", "1"), p("b", "2")]))))
        }
    }
}
fn run_c09(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    let d = s.doc(0);
    let mode = s.u("mode") % 6;
    let mut faulty_item = None;
    let mut want_tol: Option<Vec<ProgramPart>> = None;
    let mut valid = false;
    let mut text;
    match mode {
        0 => {
            if s.flag("soup") {
                text = soup(s.u("soup"), s.u("souplen"), &d);
                cx.fault("text_soup");
                cx.text("source", &text);
            } else {
                text = damaged(s, &d, cx).0;
            }
        }
        1 => {
            text = d.text().to_string();
            cx.text("source", &text);
            valid = true;
        }
        2 => {
            // drop a comma that two plain operands surround
            let mut c = vec![];
            for (k, t) in d.laid.toks.iter().enumerate() {
                if !d.commas.contains(&t.src) || k == 0 || k + 1 >= d.laid.toks.len() {
                    continue;
                }
                let (p, n) = (&d.laid.toks[k - 1], &d.laid.toks[k + 1]);
                let sp = &d.text()[p.start..p.end];
                let sn = &d.text()[n.start..n.end];
                let plain = |s: &str| !matches!(s, "get" | "set" | "static" | "async" | "yield" | "await" | "let" | "of" | "in" | "new" | "instanceof") && !gen::is_kw(s);
                let okp = match p.k {
                    K::Num | K::Str => true,
                    K::Word => plain(sp),
                    K::Punct => matches!(sp, ")" | "]" | "}"),
                    _ => false,
                };
                let okn = match n.k {
                    K::Num | K::Str => true,
                    K::Word => plain(sn),
                    _ => false,
                };
                if okp && okn {
                    c.push(k);
                }
            }
            if c.is_empty() {
                cx.text("source", d.text());
                return Ok(());
            }
            let k = c[s.u("pick") as usize % c.len()];
            text = d.text().to_string();
            for (i, &k2) in c.iter().enumerate() {
                // one of them, or some
                if k2 == k || s.u("pick2") % 3 == 0 && (s.u("pick2") >> (i % 8)) & 1 == 1 {
                    let t = &d.laid.toks[k2];
                    text.replace_range(t.start..t.end, " ");
                    cx.fault("missing_comma");
                }
            }
            cx.text("source", &text);
            want_tol = Some(d.items.iter().map(|i| i.ast.clone()).collect());
        }
        5 => {
            // a program the faults of which are all of the tolerated kinds
            text = d.text().to_string();
            cx.text("source", &text);
            for f in &d.faults {
                cx.fault(f.1);
            }
            match d.faults.iter().map(|f| f.0).min() {
                None => valid = true,
                Some(f) => {
                    faulty_item = d.items.iter().position(|i| f < i.end);
                    want_tol = Some(d.items.iter().map(|i| i.ast.clone()).collect());
                }
            }
        }
        _ => {
            let (t, p) = tolerated(s.u("pick") as usize, s.u("pick2") as usize);
            cx.fault(["getter_with_parameters", "getter_with_parameters", "setter_without_parameter", "setter_with_two_parameters", "with_in_class", "delete_name_in_class", "getter_with_parameters", "setter_without_parameter", "setter_with_two_parameters", "missing_comma", "missing_comma", "missing_comma"][s.u("pick") as usize % 12]);
            // at a random place among the items
            let at = s.u("pick2") as usize / 7 % (d.items.len() + 1);
            let mut parts: Vec<ProgramPart> = d.items.iter().map(|i| i.ast.clone()).collect();
            let pos = if at == d.items.len() { d.text().len() } else { d.laid.items[at].start };
            // items whose terminator was left out must not run into it
            let fine = at == 0 || {
                let l = d.laid.items[at - 1].last;
                l > 0 && matches!(d.laid.toks[l - 1].k, K::Semi)
            };
            // after the inserted item the tokenizer would take a regular expression for a division
            let fine = fine && !(at < d.items.len() && d.laid.toks.get(d.laid.items[at].first).map(|t| d.text()[t.start..].starts_with('/')).unwrap_or(false));
            if fine && !(at > 0 && at < d.items.len() && d.items[at..].iter().any(|i| i.kind == "directive")) && !d.items.iter().any(|i| i.kind == "directive") && !d.toks.first().map(|t| t.k == K::Str).unwrap_or(false) {
                text = format!("{}\n{}\n{}", &d.text()[..pos], t, &d.text()[pos..]);
                parts.insert(at, p);
            } else {
                text = t;
                parts = vec![p];
            }
            cx.text("source", &text);
            want_tol = Some(parts);
        }
    }
    if text.len() > 400_000 {
        return Ok(());
    }
    begin(text.len() * 2);
    let c = |t: bool| Cfg { module: d.module, tolerant: t, ctor: 1 };
    let a = observe(&text, c(false), cap(&text));
    let b = observe(&text, c(true), cap(&text));
    cx.ev(&a);
    cx.ev(&b);
    cx.nontrivial = text.len() > 4;
    let (ia, ib) = (items(&a), items(&b));
    if ib.len() < ia.len() || ia.iter().zip(&ib).any(|(x, y)| x != y) {
        return viol("items-lost", format!("intolerant: {}\n   tolerant: {}", show(&a), show(&b)));
    }
    let failed_a = first_err(&a).is_some() || panic_of(&a).is_some();
    let failed_b = first_err(&b).is_some() || panic_of(&b).is_some();
    if !failed_a && a != b {
        return viol("accepted-differs", format!("intolerant: {}\n   tolerant: {}", show(&a), show(&b)));
    }
    if let (Some(x), Some(y)) = (first_err(&a).and_then(|e| e.pos), first_err(&b).and_then(|e| e.pos)) {
        if y < x {
            return viol("fails-earlier", format!("intolerant: {}\n   tolerant: {}", show(&a), show(&b)));
        }
    }
    if failed_a && !failed_b {
        cx.probe("failure_turned_into_progress");
    }
    if valid && failed_a {
        return viol("error-on-valid", show(&a));
    }
    if let Some(w) = want_tol {
        if !failed_a {
            return viol("intolerant-accepts", format!("{} in {:?}", show(&a), text));
        }
        let w: Vec<&ProgramPart> = w.iter().collect();
        expect_valid(&b, &w, "tolerant")?;
        if let Some(i) = faulty_item {
            if ia.len() != i {
                return viol("wrong-item-fails", format!("the first fault is in item {}, the intolerant parser gave {}", i, show(&a)));
            }
        }
        cx.probe("intended_item_recovered");
    }
    for e in [&a, &b] {
        shape(e)?;
    }
    Ok(())
}

// ================================================================ C10 error positions
fn draw_c10(r: &mut Rng) -> Scn {
    let mut s = Scn::new("C10");
    let module = r.chance(1, 3);
    let n = 1 + r.below(4) as usize;
    draw_doc(r, &mut s, n, module, None);
    let d = doc::build(&s.docs[0]);
    let item = r.below(n as u64);
    let len = d.laid.items[item as usize].last - d.laid.items[item as usize].first;
    s.lists.insert("at".into(), vec![[r.below(4) as i64, item as i64, r.below(len.max(1) as u64) as i64, r.below(3) as i64]]);
    s.set("ctor", r.below(4) as i64);
    s
}
fn run_c10(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    let d = s.doc(0);
    let row = match s.list("at").first() {
        Some(r) => *r,
        None => return Ok(()),
    };
    let k = match damage::target(&d, &row) {
        Some(k) => k,
        None => return Ok(()),
    };
    let t = &d.laid.toks[k];
    let (text, at, n);
    let early = row[0].unsigned_abs() % 4 == 3;
    if early {
        // the text ends after this token although a bracket is still open
        let open = damage::open_at(&d, t.end);
        cx.text("source", &d.text()[..t.end]);
        if open.is_empty() || matches!(t.k, K::TplOpen) && t.end == d.text().len() {
            return Ok(());
        }
        text = d.text()[..t.end].to_string();
        at = text.len();
        n = damage::intact(&d, t.end, true);
        cx.fault("ends_early");
    } else {
        let open = damage::open_at(&d, t.start);
        let ok = |c: &str| match (open.last(), c) {
            (Some('('), ")") | (Some('['), "]") | (Some('{'), "}") | (Some('`'), "}") => false,
            _ => true,
        };
        let cs: Vec<&str> = [")", "]", "}"].iter().cloned().filter(|c| ok(c)).collect();
        let c = cs[row[3].unsigned_abs() as usize % cs.len()];
        text = format!("{}{} {}", &d.text()[..t.start], c, &d.text()[t.start..]);
        at = t.start;
        n = damage::intact(&d, t.start.saturating_sub(0), false);
        cx.fault("foreign_closing_bracket");
        cx.text("source", &text);
    }
    if cx.describe {
        cx.texts.push(("undamaged source".into(), d.text().to_string()));
    }
    let (line, col) = layout::position(&text, at);
    begin(text.len());
    let c = cfg(d.module, false, s.n("ctor") as u32);
    let evs = observe(&text, c, cap(&text));
    cx.ev(&evs);
    cx.nontrivial = at > 0;
    if line > 1 {
        cx.probe("fault_beyond_the_first_line");
    }
    if !text[..at].is_ascii() {
        cx.probe("multi_byte_text_before");
    }
    prefix_ok(&d, &evs, n, false)?;
    if shape(&evs)?.is_some() {
        cx.probe("tokenizer_gave_up");
        return Ok(());
    }
    match first_err(&evs) {
        None => viol("fault-not-reported", format!("expected an error at {}:{}, got {}", line, col, show(&evs))),
        Some(e) => {
            // whether `async` begins a function, and `let` a declaration, is only seen by looking past it: it may be blamed itself
            let kk = if early { k + 1 } else { k };
            let alt = kk > 0 && matches!(&d.text()[d.laid.toks[kk - 1].start..d.laid.toks[kk - 1].end], "async" | "let");
            if alt {
                cx.probe("fault_right_after_async_or_let");
            }
            // cut off there, `delete name` is at fault already
            if d.laid.toks[..k].iter().any(|t| d.text()[t.start..].starts_with("delete") && Some(layout::position(&text, t.start)) == e.pos && e.msg.contains("delete")) {
                cx.probe("delete_of_a_name_came_first");
                return Ok(());
            }
            if e.pos != Some((line, col)) && !(alt && e.pos == Some(layout::position(&text, d.laid.toks[kk - 1].start))) {
                return viol("wrong-position", format!("the fault is at {}:{}, reported: {} ({:?})", line, col, e.shown, e.pos));
            }
            let (l, c) = e.pos.unwrap();
            if !e.shown.contains(&format!("{}:{}", l, c)) {
                return viol("position-not-shown", format!("{} does not say {}:{}", e.shown, l, c));
            }
            Ok(())
        }
    }
}

// ================================================================ C11 panics in callbacks
fn draw_c11(r: &mut Rng) -> Scn {
    let mut s = draw_c02(r);
    s.prop = "C11".into();
    s.set("mode", r.below(2) as i64);
    let n = s.list("p").len() as u64;
    if !s.lists.contains_key("gaps") {
        let g = (0..20).map(|_| [1 + r.below(60) as i64, 0, r.below(n) as i64, 0]).collect();
        s.lists.insert("gaps".into(), g);
    }
    for row in s.lists.get_mut("p").unwrap() {
        if r.chance(2, 3) {
            row[2] = 1000;
        }
        if r.chance(1, 2) {
            row[3] = 0;
        }
        row[1] = (row[1] & 4) | r.below(2) as i64;
    }
    let k = 1 + r.below(2);
    // [0: log sink at step / 1: handler of parser at comment, -, which, when]
    let f = (0..k)
        .map(|_| {
            if r.chance(1, 2) {
                let bits = 3 + r.below(9);
                [0, r.below(7) as i64, 0, 1 + r.below(1 << bits) as i64]
            } else {
                [1, r.below(7) as i64, r.below(n) as i64, r.below(6) as i64]
            }
        })
        .collect();
    s.lists.insert("pan".into(), f);
    s
}
fn make_panicky(x: &Side, coms: &Coms, at: Vec<(u64, u64)>) -> Result<P, ressa::Error> {
    let k = coms.clone();
    let mut n = 0u64;
    let h: H = Box::new(move |c: ress::Item| {
        let now = n;
        n += 1;
        if let Some(a) = at.iter().find(|a| a.0 == now) {
            sim::raise(1000 + now, a.1);
        }
        k.lock().unwrap().push(com_rec(&c));
    });
    let mut b = ressa::Builder::new();
    b.module(x.cfg.module).tolerant(x.cfg.tolerant).js(x.text.as_str());
    b.with_comment_handler(h).map(|p| Box::new(p) as P)
}
/// What happened to one parser while others, or it itself, were hit by panics.
struct Hit {
    evs: Vec<Ev>,
    after: Vec<Ev>,
    hit: bool,
    /// comment events are judged only when the handler is not the one that failed
    w: Option<Watch>,
}
fn run_c11(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    let docs: Vec<Doc> = (0..s.docs.len()).map(|i| s.doc(i)).collect();
    let mut sd = sides(s, &docs, cx);
    for x in &mut sd {
        x.cfg.ctor = 1;
    }
    if sd.is_empty() {
        return Ok(());
    }
    let n = sd.len();
    let total: usize = sd.iter().map(|x| x.text.len()).sum();
    begin(total * 6);
    let alone: Vec<Vec<Ev>> = sd.iter().map(solo).collect();
    let base = sim::st().step;
    let budget_left = budget(total * 6);
    // the panics
    let mut faults = vec![];
    let mut at: Vec<Vec<(u64, u64)>> = vec![vec![]; n];
    for (i, f) in s.list("pan").iter().enumerate() {
        if f[0] % 2 == 0 {
            faults.push((f[3].unsigned_abs().max(1), Fault::Panic(i as u64 | (f[1].unsigned_abs() % 7) << 32)));
        } else {
            at[f[2].unsigned_abs() as usize % n].push((f[3].unsigned_abs(), f[1].unsigned_abs()));
        }
    }
    cx.steps += base;
    sim::begin(budget_left, faults);
    // each thread costs address space
    let threads = s.u("mode") % 2 == 0 && n <= 16;
    let mut hits: Vec<Hit> = vec![];
    let finish_one = |mut w: Watch, x: &Side| -> Hit {
        let hit = matches!(w.evs.last(), Some(Ev::Panic(Panic::Injected(_))));
        let evs = std::mem::take(&mut w.evs);
        Hit { evs, after: vec![], hit, w: if hit || x.max >= 1000 { Some(w) } else { None } }
    };
    if threads {
        let out: Arc<Mutex<Vec<Option<Watch>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (i, x) in sd.iter().enumerate() {
            let o = out.clone();
            let a = at[i].clone();
            let y = Side { text: x.text.clone(), cfg: x.cfg, max: x.max, valid: x.valid };
            bodies.push(Box::new(move || {
                let coms: Coms = Default::default();
                let r = sim::guard(|| make_panicky(&y, &coms, a));
                let mut w = Watch::from(r, coms);
                w.all(y.max.min(cap(&y.text)));
                o.lock().unwrap()[i] = Some(w);
            }));
        }
        let gaps: Vec<(u64, usize)> = s.list("gaps").iter().map(|g| (g[0].unsigned_abs(), g[2].unsigned_abs() as usize)).collect();
        sim::run_threads(bodies, &gaps);
        cx.faultn("thread_switch", sim::st().switches);
        let ws = std::mem::take(&mut *out.lock().unwrap());
        for (w, x) in ws.into_iter().zip(&sd) {
            match w {
                Some(w) => hits.push(finish_one(w, x)),
                None => return viol("thread-died", "a simulated thread did not come back"),
            }
        }
    } else {
        let mut ws: Vec<Watch> = vec![];
        for (i, x) in sd.iter().enumerate() {
            let coms: Coms = Default::default();
            let a = at[i].clone();
            let r = sim::guard(|| make_panicky(x, &coms, a));
            ws.push(Watch::from(r, coms));
        }
        let mut pulls = vec![0usize; n];
        let mut k = 0;
        loop {
            let turns = s.list("gaps");
            let i = if k < turns.len() { turns[k][2].unsigned_abs() as usize % n } else { k % n };
            k += 1;
            if pulls[i] < sd[i].max.min(cap(&sd[i].text)) && !ws[i].stopped {
                pulls[i] += 1;
                ws[i].pull();
            }
            if k > turns.len() && (0..n).all(|i| ws[i].stopped || pulls[i] >= sd[i].max.min(cap(&sd[i].text))) {
                break;
            }
        }
        for (w, x) in ws.into_iter().zip(&sd) {
            hits.push(finish_one(w, x));
        }
    }
    cx.inter = sim::st().trace;
    cx.faultn("log_sink_panic", sim::st().fired[0]);
    // pull the interrupted ones again
    let mut nh = 0;
    for (i, h) in hits.iter_mut().enumerate() {
        if !h.hit {
            continue;
        }
        nh += 1;
        if let Some(Ev::Panic(Panic::Injected(id))) = h.evs.last() {
            if *id >= 1000 {
                cx.fault("handler_panic");
            }
        }
        if let Some(w) = h.w.as_mut() {
            if w.p.is_some() {
                cx.probe("interrupted_parser_pulled_again");
                // a second injected panic may interrupt it again
                for _ in 0..4 {
                    w.stopped = false;
                    w.all(cap(&sd[i].text));
                    if !matches!(w.evs.last(), Some(Ev::Panic(Panic::Injected(_)))) {
                        break;
                    }
                }
                h.after = std::mem::take(&mut w.evs);
            } else {
                cx.probe("interrupted_in_construction");
            }
        }
    }
    cx.nontrivial = nh > 0;
    for (i, h) in hits.iter().enumerate() {
        cx.ev(&h.evs);
        cx.ev(&h.after);
        if h.hit {
            // the panic came out with its own payload, and what was handed out before it stands
            let m = h.evs.len() - 1;
            let a = &alone[i];
            // the comment on which a handler panicked was not recorded
            let got: Vec<&Ev> = h.evs[..m].iter().filter(|e| !matches!(e, Ev::Com(_))).collect();
            let exp: Vec<&Ev> = a.iter().filter(|e| !matches!(e, Ev::Com(_))).take(got.len()).collect();
            if got != exp {
                return viol("handed-out-items-changed", format!("parser {}: alone {}\n   interrupted {}", i, show(a), show(&h.evs)));
            }
            let gc: Vec<&Ev> = h.evs[..m].iter().filter(|e| matches!(e, Ev::Com(_))).collect();
            let ec: Vec<&Ev> = a.iter().filter(|e| matches!(e, Ev::Com(_))).take(gc.len()).collect();
            if at[i].is_empty() && gc != ec {
                return viol("handed-out-comments-changed", format!("parser {}: alone {}\n   interrupted {}", i, show(a), show(&h.evs)));
            }
            let mut rest: Vec<Ev> = h.after.iter().filter(|e| !matches!(e, Ev::Panic(Panic::Injected(_)))).cloned().collect();
            if rest.is_empty() {
                rest.push(Ev::End);
            }
            if let Some((a, b)) = shape(&rest)? {
                cx.probe("tokenizer_gave_up");
                let _ = (a, b);
            }
        } else {
            let (mut a, mut b) = (alone[i].clone(), h.evs.clone());
            if a.is_empty() {
                a = vec![Ev::End];
            }
            if b.is_empty() {
                b = vec![Ev::End];
            }
            if a != b {
                return viol("panic-not-contained", format!("parser {} was not hit, alone {}\n   beside the panic {}", i, show(&a), show(&b)));
            }
        }
    }
    // parsers created later
    drop(hits);
    cx.steps += sim::st().step;
    begin(total * 3);
    for (i, x) in sd.iter().enumerate() {
        let b = solo(x);
        if b != alone[i] {
            return viol("later-parser-affected", format!("parser {} created after the panic: before {}\n   after {}", i, show(&alone[i]), show(&b)));
        }
    }
    Ok(())
}

// ================================================================ C12 environment
fn draw_c12(r: &mut Rng) -> Scn {
    let k = *r.pick(&[1, 1, 2]);
    let mut s = draw_damaged(r, "C12", k);
    if r.chance(1, 3) {
        s.lists.insert("dmg".into(), vec![]);
    }
    let n = r.below(5);
    let env = (0..n)
        .map(|_| {
            let bits = 2 + r.below(9);
            [r.below(3) as i64, 0, 1 + r.below(1 << bits) as i64, r.below(6) as i64]
        })
        .collect();
    s.lists.insert("env".into(), env);
    s.set("level", *r.pick(&[5, 5, 5, 0, 1, 2, 3, 4]));
    s.set("noise", if r.chance(1, 2) { 1 + r.below(65535) as i64 } else { 0 });
    s.set("random", r.below(1 << 40) as i64);
    s.set("clock", *r.pick(&[0, 0, -1_000_000_000, 1_000_000_000, 4_000_000_000]));
    s.set("thread", r.chance(1, 3) as i64);
    s.set("depth", *r.pick(&[0, 0, 10, 200, 3000]));
    s.set("name", r.below(7) as i64);
    s.set("os", if r.chance(1, 2) { r.below(1 << 21) as i64 } else { 0 });
    s.set("heap", if r.chance(1, 2) { r.below(64) as i64 } else { 0 });
    s.set("env_first", r.chance(1, 2) as i64);
    let k = if r.chance(1, 20) { 50 + r.below(400) } else { r.below(5) };
    s.set("before", k as i64);
    s
}
#[inline(never)]
fn deep(n: u64, f: &mut dyn FnMut()) {
    let pad = [n as u8; 256];
    std::hint::black_box(&pad);
    if n == 0 {
        f()
    } else {
        deep(n - 1, f)
    }
    std::hint::black_box(&pad);
}
fn run_c12(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    use std::sync::atomic::Ordering::Relaxed;
    let d = s.doc(0);
    let (text, _) = damaged(s, &d, cx);
    let c = cfg(d.module, s.flag("tolerant"), s.n("ctor") as u32);
    let plain = |cx: &mut Cx| {
        begin(text.len());
        let a = observe(&text, c, cap(&text));
        cx.ev(&a);
        cx.steps += sim::st().step;
        a
    };
    // the other environment comes first at times, what is done once in a process is done in it then
    let env_first = s.flag("env_first");
    let mut a = vec![];
    if !env_first {
        a = plain(cx);
    }
    let mut faults = vec![];
    for e in s.list("env") {
        let f = match e[0].unsigned_abs() % 3 {
            0 => Fault::Level(e[3].unsigned_abs() as u32 % 6),
            1 => Fault::Format(1 + e[3].unsigned_abs() as u32 * 20),
            _ => Fault::Clock(if e[3] % 2 == 0 { 100_000_000 } else { -90_000_000 }),
        };
        faults.push((e[2].unsigned_abs().max(1), f));
    }
    cx.sig(s.u("noise") ^ s.u("random") ^ s.u("level") << 50 ^ s.list("env").len() as u64);
    for i in 0..s.u("before").min(1000) {
        if i % 16 == 0 {
            sim::begin(budget(2000), vec![]);
        }
        let junk = ["class A { get x() { return 1 } }", "f(a b", "for (let x of y) { break }", "`${a}`", "function* g() { yield 1 }"];
        let _ = observe(junk[(s.u("random") + i) as usize % junk.len()], cfg(false, true, 1), 10);
        cx.fault("earlier_parse_in_process");
    }
    let rr = sim::RANDOM_READS.load(Relaxed);
    let cr = sim::CLOCK_READS.load(Relaxed);
    let nz = sim::NOISED.load(Relaxed);
    sim::begin(budget(text.len()), faults);
    let lvl = s.u("level") as u32 % 6;
    if lvl != 5 {
        cx.fault("log_level_lowered");
        sim::set_level(lvl);
    }
    sim::RANDOM.store(s.u("random"), Relaxed);
    sim::CLOCK.store(s.n("clock"), Relaxed);
    let os = s.u("os");
    let (er, pr, of) = (sim::ENV_READS.load(Relaxed), sim::PID_READS.load(Relaxed), sim::OPEN_FAILS.load(Relaxed));
    // the heap looks different
    let heap: Vec<Vec<u8>> = (0..s.u("heap").min(64)).map(|i| Vec::with_capacity((16 + (os ^ i * 37) % 700) as usize)).collect();
    if !heap.is_empty() {
        cx.fault("heap_shifted");
    }
    let mut b = vec![];
    let noise = s.u("noise");
    let mut body = || {
        sim::NOISE.store(noise, Relaxed);
        sim::ENVV.store(os & 7, Relaxed);
        sim::PID.store((os >> 3 & 0x7fff) as i64, Relaxed);
        sim::OPENS.store(os >> 18 & 7, Relaxed);
        b = observe(&text, c, cap(&text));
        sim::NOISE.store(0, Relaxed);
        sim::ENVV.store(0, Relaxed);
        sim::PID.store(0, Relaxed);
        sim::OPENS.store(0, Relaxed);
    };
    let depth = s.u("depth") % 20_000;
    if s.flag("thread") {
        cx.fault("fresh_thread");
        std::thread::scope(|sc| {
            let names = ["", "main", "worker-3", "tokio-runtime-worker", "test::parses", "ressa", "a name nobody expects \u{e9}"];
            let name = names[s.u("name") as usize % names.len()];
            let mut b = std::thread::Builder::new();
            if !name.is_empty() {
                cx.fault("named_thread");
                b = b.name(name.to_string());
            }
            let _ = b
                .stack_size(sim::STACK)
                .spawn_scoped(sc, || {
                    sim::resume();
                    deep(depth, &mut body);
                })
                .unwrap()
                .join();
        });
    } else {
        deep(depth, &mut body);
    }
    sim::NOISE.store(0, Relaxed);
    sim::CLOCK.store(0, Relaxed);
    sim::set_level(5);
    if depth > 0 {
        cx.fault("deeper_stack");
    }
    let st = sim::st();
    cx.faultn("log_level_change", st.fired[1]);
    cx.faultn("log_records_formatted", st.formatted);
    cx.faultn("clock_jump", st.fired[3]);
    cx.faultn("randomness_read", sim::RANDOM_READS.load(Relaxed) - rr);
    cx.faultn("clock_read", sim::CLOCK_READS.load(Relaxed) - cr);
    cx.faultn("allocation_filled_with_junk", sim::NOISED.load(Relaxed) - nz);
    cx.faultn("environment_variable_read", sim::ENV_READS.load(Relaxed) - er);
    cx.faultn("process_number_read", sim::PID_READS.load(Relaxed) - pr);
    cx.faultn("file_open_failed", sim::OPEN_FAILS.load(Relaxed) - of);
    drop(heap);
    cx.nontrivial = text.len() > 4;
    cx.ev(&b);
    if env_first {
        cx.fault("other_environment_first");
        a = plain(cx);
    }
    if a != b {
        let k = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        return viol(
            "environment-matters",
            format!("event {}: plain environment {}\n   other environment {}", k, a.get(k).map(|e| e.show()).unwrap_or("nothing".into()), b.get(k).map(|e| e.show()).unwrap_or("nothing".into())),
        );
    }
    Ok(())
}

// ================================================================ C13 work and memory
fn draw_c13(r: &mut Rng) -> Scn {
    let mut s = Scn::new("C13");
    let module = r.chance(1, 3);
    let n = *r.pick(&[1u64, 3, 10, 30]) + r.below(4);
    draw_doc(r, &mut s, n as usize, module, None);
    if r.chance(1, 3) {
        let d = doc::build(&s.docs[0]);
        let rows = (0..1 + r.below(3)).map(|_| damage::row(r, &d)).collect();
        s.lists.insert("dmg".into(), rows);
    }
    s.set("tolerant", r.chance(1, 4) as i64);
    s.set("ctor", r.below(4) as i64);
    if r.chance(1, 3) {
        s.set("fam", 1 + r.below(1 << 40) as i64);
        let d = *r.pick(&[4, 12, 12, 30, 30, 250]);
        s.set("depth", 1 + r.below(d) as i64);
        if r.chance(1, 4) {
            s.set("grow", 1);
        }
    }
    s
}
const NEST: &[(&str, &str)] = &[
    ("(", ")"), ("[", "]"), ("f(", ")"), ("async(", ")"), ("async (x, ", ")"), ("(a = ", ") => 1"), ("async (a = ", ") => 1"), ("a => ", ""), ("async a => ", ""), ("() => ", ""), ("() => { ", " }"), ("{a: ", "}"), ("({a: ", "})"),
    ("({a(", "){}})"), ("`${", "}`"), ("x`${", "}`"), ("function() { ", " }"), ("function(a = ", ") { }"), ("function*() { yield ", " }"), ("async function() { await ", " }"), ("class { a() { ", " } }"), ("class extends (", ") { }"),
    ("class { [", "]() { } }"), ("a ? ", " : b"), ("a ? b : ", ""), ("!", ""), ("-", ""), ("typeof ", ""), ("new ", "()"), ("new (", ")"), ("a + ", ""), ("a.b[", "]"), ("a = ", ""), ("[a, ", "]"), ("[...", "]"), ("f(...", ")"), ("(a, ", ")"), ("{get a() { return ", " }}"),
    ("({async a() { await ", " }})"), ("({[", "]: 1})"), ("({a = ", "} = {})"), ("[a = ", "] = []"), ("(async () => ", ")"), ("(a, b) => ", ""), ("({a}, [b]) => ", ""), ("async ({a}, [b]) => ", ""), ("async\n(", ")"), ("async (\n", ")"), ("import(", ")"), ("a ** ", ""),
    ("let\n[", "]"), ("/a/.b(", ")"), ("a / ", " / b"),
];
const NESTS: &[(&str, &str)] = &[
    ("{ ", " }"), ("if (a) ", ""), ("if (a) { ", " }"), ("if (a) b; else ", ""), ("while (a) ", ""), ("for (;;) ", ""), ("for (a of b) ", ""), ("for (let a in b) { ", " }"), ("do ", "; while (a)"), ("do { ", " } while (a);"), ("L: ", ""), ("switch (a) { case 1: ", " }"), ("try { ", " } catch (e) { }"),
    ("try { } finally { ", " }"), ("try { } catch (e) { ", " }"), ("function f() { ", " }"), ("async function f() { ", " }"), ("function* f() { ", " }"), ("class A { a() { ", " } }"), ("with (a) ", ""), ("{ let a; ", " }"), ("{ async ", " }"), ("for (const [a] of ", ") ;"), ("for (var a = ", ";;) ;"),
    ("for (; function() { ", " };) ;"), ("for (;; function() { ", " }) ;"), ("while (function() { ", " }) ;"), ("if (function() { ", " }) ;"), ("do ; while (function() { ", " });"), ("switch (function() { ", " }) { }"), ("with (function() { ", " }) ;"),
    ("return function() { ", " };"), ("throw function() { ", " };"), ("export default function() { ", " }"), ("let a = function() { ", " };"), ("const a = function() { ", " }, b = 1;"), ("var a = function() { ", " };"), ("switch (a) { case function() { ", " }: }"),
    ("for (a of function() { ", " }) ;"), ("for (a in function() { ", " }) ;"), ("for (let a = function() { ", " };;) ;"),
];
const WIDE: &[&str] = &[
    "a, ", "a;", "a\n", "a + ", "f()", ".a", "[0]", "()", "`a`", "/* c */ ", "// c\n", "\n", "L: ", "case 1: ", "a() { } ", "get a() { } ", "a: 1, ", "a, b, ", "...a, ", "{}", "[], ", "let a = 1;", "async a => 1, ", "async(), ", "async () => 1, ", "async\n", "async; ", "let\n", "let; ", "import(a), ", "import(a);", "yield, ", "await, ", "(a), ",
    "() => 1, ", "(a) => a, ", "a => a, ", "a ? b : ", "!", "++a;", "a++;", "'use strict';", "'a';", "1;", ";", "${a}", "}${", "/a/g;", "a / b;", "new ", "new a, ", "new a(), ", "typeof ", "function f() { } ", "class A { } ", "if (a) b; else ", "=> ", "= ", "static a() { } ", "async a() { } ", "*a() { } ", "'a': 1, ", "[a]: 1, ", "get, ", "set, ", "async, ",
    "async: 1, ", "get: 1, ", "async\n() ", "a = b, ", "{a}, ", "[a] = ", "{a} = ", "({a} = b), ", "<!-- c\n", "\n--> c\n", "\r\n", "\u{2028}", "for (;;) ", "export {a};", "import 'a';",
];
/// Texts of one shape repeated: constructs in one another, or one after the other.
pub fn family(seed: u64, depth: u64) -> String {
    let mut r = Rng::new(seed);
    let mut t = String::new();
    match r.below(4) {
        0 | 1 => {
            // expressions in expressions, one or two shapes taking turns, then maybe in statements
            let k = 1 + r.below(2) as usize;
            let w: Vec<&(&str, &str)> = (0..k).map(|_| r.pick(NEST)).collect();
            let d = depth as usize;
            let pre = *r.pick(&["", "", "x = ", "(", "f(", "var a = ", "{ x = ", "async function f() { ", "class A { a() { "]);
            t.push_str(pre);
            for i in 0..d {
                t.push_str(w[i % k].0);
            }
            t.push_str(r.pick(&["x", "x", "1", "", "async", "{}", "yield", "let", "'s'", "/r/"]));
            for i in (0..d).rev() {
                t.push_str(w[i % k].1);
            }
            match pre {
                "(" | "f(" => t.push(')'),
                "{ x = " | "async function f() { " => t.push('}'),
                "class A { a() { " => t.push_str("}}"),
                _ => {}
            }
            t.push_str(r.pick(&[";", "", "\n", " => 1;"]));
        }
        2 => {
            let k = 1 + r.below(2) as usize;
            let w: Vec<&(&str, &str)> = (0..k).map(|_| r.pick(NESTS)).collect();
            let d = depth as usize;
            for i in 0..d {
                if w[i % k].0 == "L: " {
                    t.push_str(&format!("L{}: ", i));
                } else {
                    t.push_str(w[i % k].0);
                }
            }
            // sometimes the innermost statement is as long as the nest is deep
            if r.chance(1, 3) {
                let u = *r.pick(&["function f() { }", "x = () => { };", "a: ;", "class A { a() { } }", "({a() { }});", "`${a}`;", "x = a + b;", "for (;;) ;", "if (a) b; else c;"]);
                t.push('{');
                for _ in 0..d {
                    t.push_str(u);
                }
                t.push('}');
            } else {
                t.push_str(r.pick(&["x;", "", ";", "async () => 1;", "let a;", "break;", "async\n"]));
            }
            for i in (0..d).rev() {
                t.push_str(w[i % k].1);
            }
        }
        _ => {
            let (o, c) = *r.pick(&[
                ("", ""), ("", ""), ("x = [", "]"), ("f(", ")"), ("({", "})"), ("class A {", "}"), ("switch (a) {", "}"), ("`", "`"), ("(", ")"), ("(", ") => 1"), ("async (", ") => 1"), ("async(", ")"), ("x = ", ""), ("function f(", ") { }"), ("function f() {", "}"),
                ("{", "}"), ("var ", ""), ("let {", "} = a"), ("import {", "} from 'a'"), ("export {", "}"), ("for (", " of a) ;"), ("a", ""), ("new a", ""),
            ]);
            let (u, v) = (*r.pick(WIDE), *r.pick(WIDE));
            t.push_str(o);
            let two = r.chance(1, 3);
            // one after the other, not in one another: many more of them
            let flat = |x: &str| x.ends_with(", ") || x.ends_with(';') || x.ends_with('\n') || x.ends_with("\r\n");
            let times = if flat(u) && flat(v) && r.chance(1, 3) { 40 } else { 8 };
            for i in 0..depth * times {
                t.push_str(if two && i % 2 == 1 { v } else { u });
            }
            t.push_str(r.pick(&["", "", "a", "1"]));
            t.push_str(c);
        }
    }
    t
}
/// tokenizer steps per token (and comment) the parser may take
pub const STEP_FACTOR: u64 = 4;
pub const STEP_SLACK: u64 = 16;
/// bytes held between pulls, and bytes one pull may need (seen: 30 and 12 at most)
pub const MEM_PER_BYTE: i64 = 90;
pub const PULL_PER_BYTE: i64 = 24;
pub const MEM_PER_TOKEN: i64 = 2_500;
pub const MEM_SLACK: i64 = 64_000;
/// bytes asked for over the whole text, given back or not (seen: 1 600 per token at most)
pub const TRAFFIC_PER_TOKEN: i64 = 3_500;
pub const TRAFFIC_PER_BYTE: i64 = 8;
pub const TRAFFIC_PER_COMMENT: i64 = 2_000;
pub const TRAFFIC_SLACK: i64 = 100_000;
/// Bytes asked for while the text is parsed, per token, comment and ten bytes of it; None if the
/// tokenizer alone would spend more than that.
pub fn traffic_per_token(text: &str, c: Cfg) -> Option<f64> {
    let open = text.contains("<!--") || text.rfind("/*") > text.rfind("*/");
    if open {
        return None;
    }
    let (toks, _) = model::leaves::scan(text);
    begin(text.len() * 2);
    sim::traffic();
    sim::track_peak();
    let mut w = Watch::new(text, c);
    let (mut n, mut coms) = (0, 0);
    loop {
        let more = w.pull();
        coms += w.evs.iter().filter(|e| matches!(e, Ev::Com(_))).count();
        // the backtrace made for an error is as large as the stack is deep
        if w.evs.iter().any(|e| matches!(e, Ev::Err(_) | Ev::Panic(_))) {
            sim::peak();
            return None;
        }
        w.evs.clear();
        n += 1;
        if !more || n > text.len() + 10 {
            break;
        }
    }
    sim::peak();
    let t = sim::traffic();
    Some((t - 400 * coms as i64) as f64 / (toks.len() as f64 + coms as f64 + text.len() as f64 / 10.0 + 10.0))
}
/// Four times as much of one shape may not cost much more than four times the memory traffic.
fn run_c13_grow(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    cx.fault("one_shape_repeated_four_times_as_often");
    let n = 20 + s.u("depth") % 60;
    let big = family(s.u("fam"), 4 * n);
    cx.text("source", &big);
    let c = cfg(false, s.flag("tolerant"), s.n("ctor") as u32);
    let (Some(a), Some(b)) = (traffic_per_token(&family(s.u("fam"), n), c), traffic_per_token(&big, c)) else {
        return Ok(());
    };
    cx.probe("a_shape_that_parses_whole");
    cx.nontrivial = true;
    cx.sig(s.u("fam") ^ n << 48);
    if b > 1.3 * a + 100.0 {
        cx.probe("traffic_grows_a_little_faster");
    }
    if b > 1.6 * a + 150.0 {
        return viol("grows-faster", format!("{:.0} bytes of memory asked for per token when a shape is repeated {} times, {:.0} when it is {} times", a, n, b, 4 * n));
    }
    Ok(())
}
fn run_c13(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    if s.flag("fam") && s.flag("grow") {
        return run_c13_grow(s, cx);
    }
    let d = s.doc(0);
    let (text, first) = if s.flag("fam") {
        cx.fault("one_shape_repeated");
        let t = family(s.u("fam"), s.u("depth") % 512);
        cx.text("source", &t);
        (t, 0)
    } else {
        damaged(s, &d, cx)
    };
    let valid = first == usize::MAX;
    let c = cfg(d.module, s.flag("tolerant"), s.n("ctor") as u32);
    let (toks, _) = model::leaves::scan(&text);
    // comments cost a step each as well
    let ncom = |upto: usize| d.laid.coms.iter().filter(|c| c.start < upto).count() as u64;
    begin(text.len() * 2);
    let mem0 = sim::live();
    let coms: Coms = Default::default();
    let r = sim::guard(|| make(&text, c, &coms));
    let mut w = Watch::from(r, coms);
    cx.nontrivial = toks.len() > 10;
    let _ = sim::traffic();
    let mut traffic = 0;
    let mut ncoms = 0;
    let mut failed = false;
    if valid {
        let lead = ncom(d.laid.toks.first().map(|t| t.start).unwrap_or(text.len()));
        let lim = STEP_SLACK + STEP_FACTOR * (lead + 4);
        if sim::st().tok > lim {
            return viol("eager-construction", format!("{} tokenizer steps before the first pull, {} would do", sim::st().tok, lim));
        }
    }
    let mut k = 0;
    let mut worst = 0;
    loop {
        sim::track_peak();
        let before = sim::live();
        let more = w.pull();
        let peak = sim::peak() - before;
        traffic += sim::traffic();
        failed |= w.evs.iter().any(|e| matches!(e, Ev::Err(_) | Ev::Panic(_)));
        ncoms += w.evs.iter().filter(|e| matches!(e, Ev::Com(_))).count() as i64;
        // what was handed out is given back at once, comments too
        let is_item = matches!(w.evs.last(), Some(Ev::Item(_)));
        let late: Vec<ComRec> = w.evs.iter().filter_map(|e| if let Ev::Com(c) = e { Some(c.clone()) } else { None }).collect();
        if is_item && valid && k < d.items.len() {
            let it = &d.laid.items[k];
            let upto = d.laid.toks.get(it.last + 1).map(|t| t.end).unwrap_or(text.len());
            let lim = STEP_SLACK + STEP_FACTOR * (it.last as u64 + 4 + ncom(upto));
            if sim::st().tok > lim {
                return viol("eager-pull", format!("{} tokenizer steps for the first {} items ({} tokens), {} would do", sim::st().tok, k + 1, it.last, lim));
            }
            worst = worst.max(sim::st().tok * 100 / (it.last as u64 + 1 + ncom(upto)));
            let horizon = d.laid.toks.get(it.last + 3).map(|t| t.end).unwrap_or(text.len());
            if let Some(c) = late.iter().find(|c| c.start > horizon) {
                return viol("scanned-ahead", format!("comment {:?} was delivered before item {} was yielded, three tokens beyond its end at {}", c, k, it.end));
            }
            let ntok = (it.last - it.first) as i64;
            // the comments recorded on the way are the checker's own memory
            let own = 1_500 * late.len() as i64;
            let lim = PULL_PER_BYTE * text.len() as i64 + MEM_PER_TOKEN * (ntok + 4) + MEM_SLACK + own;
            if peak > lim {
                return viol("memory-in-pull", format!("{} bytes while parsing an item of {} tokens in a text of {} bytes, {} would do", peak, ntok, text.len(), lim));
            }
        }
        w.evs = vec![];
        let held = sim::live() - mem0;
        let lim = MEM_PER_BYTE * text.len() as i64 + MEM_SLACK;
        if held > lim {
            return viol("memory-held", format!("{} bytes held after {} pulls of a text of {} bytes, {} would do", held, k + 1, text.len(), lim));
        }
        k += 1;
        if !more {
            break;
        }
        if k > text.len() + 10 {
            return viol("too-many-pulls", format!("{} pulls for a text of {} bytes", k, text.len()));
        }
    }
    if sim::st().over {
        return viol("no-progress", "step budget exceeded");
    }
    let comments = toks.len() as u64 * 0 + text.matches('/').count() as u64 + text.matches("<!--").count() as u64;
    let lim = STEP_SLACK + STEP_FACTOR * (toks.len() as u64 + 4 + comments);
    if sim::st().tok > lim {
        return viol("too-many-steps", format!("{} tokenizer steps for a text of {} tokens, {} would do", sim::st().tok, toks.len(), lim));
    }
    // the tokenizer looks for the end of such a comment through the whole text and gives it back
    let open = text.matches("<!--").count() + text.rfind("*/").map_or(text.matches("/*").count(), |e| text[e..].matches("/*").count());
    let sought = 6 * (text.len() * open) as i64;
    let most = sought + TRAFFIC_PER_TOKEN * (toks.len() as i64 + 10) + TRAFFIC_PER_BYTE * text.len() as i64 + TRAFFIC_PER_COMMENT * ncoms + TRAFFIC_SLACK;
    // the backtrace made for an error is as large as the stack is deep
    let most = if failed { 2 * most } else { most };
    if traffic > most {
        return viol("memory-traffic", format!("{} bytes of memory asked for over a text of {} tokens, {} would do", traffic, toks.len(), most));
    }
    if traffic > most / 2 {
        cx.probe("memory_traffic_above_half_of_what_is_allowed");
    }
    if sim::st().step > 60 * lim + 2_000 {
        return viol("too-much-work", format!("{} steps for a text of {} tokens", sim::st().step, toks.len()));
    }
    if worst > 0 {
        cx.probe(match worst {
            0..=149 => "steps_per_token_below_1.5",
            150..=199 => "steps_per_token_below_2",
            200..=299 => "steps_per_token_below_3",
            _ => "steps_per_token_3_or_more",
        });
    }
    Ok(())
}

// ================================================================ C14 giving everything back
fn draw_c14(r: &mut Rng) -> Scn {
    let k = *r.pick(&[1, 1, 3]);
    let mut s = draw_damaged(r, "C14", k);
    if r.chance(1, 2) {
        s.lists.insert("dmg".into(), vec![]);
    }
    s.set("ctor", r.below(3) as i64);
    s.set("pulls", if r.chance(1, 2) { 1000 } else { r.below(5) as i64 });
    s.set("items_first", r.chance(1, 2) as i64);
    s.set("rest", r.chance(1, 4) as i64);
    s.set("thread", r.chance(1, 6) as i64);
    s.set("differ", r.chance(1, 2) as i64);
    s.set("reps", if r.chance(1, 12) { 61 } else { 5 });
    let mut f = vec![];
    if r.chance(1, 3) {
        let bits = 2 + r.below(9);
        f.push([0, 0, 0, 1 + r.below(1 << bits) as i64]);
    }
    if r.chance(1, 4) {
        f.push([1, r.below(7) as i64, 0, r.below(4) as i64]);
    }
    s.lists.insert("pan".into(), f);
    s
}
struct Probe {
    drops: Arc<std::sync::atomic::AtomicU64>,
    parser_alive: Arc<std::sync::atomic::AtomicBool>,
    early: Arc<std::sync::atomic::AtomicU64>,
}
impl Drop for Probe {
    fn drop(&mut self) {
        use std::sync::atomic::Ordering::Relaxed;
        self.drops.fetch_add(1, Relaxed);
        if self.parser_alive.load(Relaxed) {
            self.early.fetch_add(1, Relaxed);
        }
    }
}
struct ProbeHandler {
    probe: Probe,
    seen: u64,
    panic_at: Option<(u64, u64)>,
    held: Vec<ress::Item>,
}
impl ProbeHandler {
    fn handle_comment(&mut self, c: ress::Item) {
        let n = self.seen;
        self.seen += 1;
        self.held.push(c);
        if let Some((_, how)) = self.panic_at.filter(|p| p.0 == n) {
            sim::raise(1000 + n, how);
        }
        std::hint::black_box(&self.probe);
    }
}
fn c14_once(text: &str, s: &Scn, d: &Doc) -> Result<(), Viol> {
    use std::sync::atomic::Ordering::Relaxed;
    let drops: Arc<std::sync::atomic::AtomicU64> = Default::default();
    let early: Arc<std::sync::atomic::AtomicU64> = Default::default();
    let alive = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let panic_at = s.list("pan").iter().find(|p| p[0] % 2 == 1).map(|p| (p[3].unsigned_abs(), p[1].unsigned_abs()));
    let handler = s.u("ctor") % 3 != 0;
    let r = sim::guard(|| -> Result<P, ressa::Error> {
        let mut b = ressa::Builder::new();
        b.module(d.module).tolerant(s.flag("tolerant")).js(text);
        if handler {
            let probe = Probe { drops: drops.clone(), parser_alive: alive.clone(), early: early.clone() };
            let mut h = ProbeHandler { probe, seen: 0, panic_at, held: vec![] };
            let h: H = Box::new(move |c: ress::Item| h.handle_comment(c));
            if s.u("ctor") % 3 == 1 {
                Ok(Box::new(b.with_comment_handler(h)?))
            } else {
                Ok(Box::new(b.with_comment_handler(Struct(h))?))
            }
        } else {
            Ok(Box::new(b.build()?))
        }
    });
    let mut out = vec![];
    if let Ok(Ok(mut p)) = r {
        alive.store(true, Relaxed);
        let mut k = 0;
        let lim = s.u("pulls").min(text.len() as u64 + 8);
        let mut ok = true;
        while k < lim {
            k += 1;
            match sim::guard(|| p.pull()) {
                Ok(Some(x)) => out.push(x),
                Ok(None) => break,
                Err(_) => {
                    ok = false;
                    break;
                }
            }
        }
        if s.flag("rest") && ok {
            let r = sim::guard(|| p.rest());
            std::hint::black_box(&r);
        }
        if s.flag("items_first") {
            out.clear();
            out.shrink_to_fit();
        }
        if drops.load(Relaxed) != 0 {
            return viol("handler-dropped-early", "the comment handler was dropped while its parser was alive");
        }
        alive.store(false, Relaxed);
        drop(p);
    }
    if handler && drops.load(Relaxed) != 1 {
        return viol("handler-drops", format!("the comment handler was dropped {} times", drops.load(Relaxed)));
    }
    if early.load(Relaxed) != 0 {
        return viol("handler-dropped-early", "the comment handler was dropped before its parser");
    }
    drop(out);
    Ok(())
}
static UNIQUE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn run_c14(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    let d = s.doc(0);
    let (text, _) = damaged(s, &d, cx);
    cx.sig(s.u("pulls") ^ s.u("ctor") << 20);
    cx.nontrivial = text.len() > 4;
    let mut live = Vec::with_capacity(64);
    let faults: Vec<(u64, Fault)> = s.list("pan").iter().filter(|p| p[0] % 2 == 0).map(|p| (p[3].unsigned_abs().max(1), Fault::Panic(1))).collect();
    let reps = if s.u("reps") > 5 { 61 } else { 5 };
    for rep in 0..reps {
        if rep > 0 {
            cx.steps += sim::st().step;
        }
        let text = if s.flag("differ") {
            // a text of its own, of the same length, for every history
            let n = UNIQUE.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 100_000_000;
            format!("{}\nu{:08};// {:08}\n", text, n, n)
        } else {
            text.clone()
        };
        sim::begin(budget(text.len()), faults.clone());
        if s.flag("thread") {
            let mut r = Ok(());
            std::thread::scope(|sc| {
                let _ = std::thread::Builder::new()
                    .stack_size(sim::STACK)
                    .spawn_scoped(sc, || {
                        sim::resume();
                        r = c14_once(&text, s, &d);
                        sim::pause();
                    })
                    .unwrap()
                    .join();
            });
            r?;
        } else {
            c14_once(&text, s, &d)?;
        }
        let _ = sim::guard(|| ());
        sim::forget_last();
        drop(text);
        cx.faultn("log_sink_panic", sim::st().fired[0]);
        if s.u("pulls") < 1000 {
            cx.fault("abandoned_midway");
        }
        let f = std::mem::take(&mut *Box::new(0)); // keeps the loop from being reordered around the reading
        live.push(sim::live() + f);
    }
    // the faults list of the simulator itself is the same size each time
    let growth = live[4] - live[1];
    if growth > 0 && live[4] > live[3] && live[3] > live[2] && live[2] > live[1] {
        return viol("memory-not-returned", format!("live bytes after each of five equal histories: {:?}", live.iter().map(|x| x - live[0]).collect::<Vec<_>>()));
    }
    if reps > 5 {
        // something kept by every n-th history only
        cx.fault("sixty_histories");
        let up = |a: usize, b: usize| (a..b).filter(|&i| live[i + 1] > live[i]).count();
        let down = (10..60).any(|i| live[i + 1] < live[i]);
        if !down && up(10, 26) > 0 && up(26, 44) > 0 && up(44, 60) > 0 {
            return viol("memory-not-returned", format!("live bytes after each of sixty equal histories: {:?}", live.iter().map(|x| x - live[0]).collect::<Vec<_>>()));
        }
    }
    if s.flag("thread") {
        cx.fault("parsed_on_a_dying_thread");
    }
    Ok(())
}

// ================================================================ C15 token accounting
fn draw_c15(r: &mut Rng) -> Scn {
    let k = *r.pick(&[1, 1, 1, 2, 3]);
    let mut s = draw_damaged(r, "C15", k);
    if r.chance(1, 2) {
        // whole tokens only: more of these are accepted
        for row in s.lists.get_mut("dmg").unwrap() {
            row[0] = *r.pick(&[1i64, 3, 4, 5, 6, 7, 11, 13, 13, 14, 14, 15, 15, 16]);
        }
    }
    if r.chance(1, 4) {
        s.set("soup", 1 + r.below(1 << 40) as i64);
        s.set("souplen", 1 + r.below(14) as i64);
    }
    s.set("tolerant", r.chance(1, 4) as i64);
    s
}
/// Do the leaves of the items spell the tokens of the text, in order? Returns how many tokens they cover.
fn account(parts: &[ProgramPart], toks: &[(String, ress::refs::RefToken, usize, usize)]) -> Result<usize, String> {
    let leaves = model::leaves::of_parts(parts);
    let kept: Vec<usize> = (0..toks.len()).filter(|i| model::leaves::kept(&toks[*i].0, &toks[*i].1)).collect();
    let mut k = 0;
    for (i, l) in leaves.iter().enumerate() {
        if l == "from?" {
            if kept.get(k).map(|t| toks[*t].0 == "from").unwrap_or(false) {
                k += 1;
            }
            continue;
        }
        match kept.get(k) {
            Some(t) if toks[*t].0 == *l => k += 1,
            t => {
                let near = |v: &[String]| v.iter().map(|s| s.as_str()).collect::<Vec<_>>().join(" ");
                return Err(format!(
                    "the items say {:?} where the source says {:?} (items: … {}; source: … {})",
                    l,
                    t.map(|t| toks[*t].0.as_str()),
                    near(&leaves[i.saturating_sub(6)..(i + 6).min(leaves.len())]),
                    near(&kept[k.saturating_sub(6).min(kept.len())..(k + 6).min(kept.len())].iter().map(|t| toks[*t].0.clone()).collect::<Vec<_>>())
                ));
            }
        }
    }
    Ok(k)
}
fn run_c15(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    let d = s.doc(0);
    let text = if s.flag("soup") {
        cx.fault("text_soup");
        let t = soup(s.u("soup"), s.u("souplen"), &d);
        cx.text("source", &t);
        t
    } else {
        damaged(s, &d, cx).0
    };
    let (toks, whole) = model::leaves::scan(&text);
    begin(text.len());
    let c = cfg(d.module, s.flag("tolerant"), s.n("ctor") as u32);
    let evs = observe(&text, c, cap(&text));
    cx.ev(&evs);
    let got: Vec<ProgramPart> = items(&evs).into_iter().cloned().collect();
    cx.nontrivial = got.len() > 0 && toks.len() > 3;
    match account(&got, &toks) {
        Err(m) => viol("tokens-not-accounted-for", format!("{}\n      {}", m, show(&evs))),
        Ok(k) => {
            // a text accepted to its end is covered to its end
            let kept = toks.iter().filter(|t| model::leaves::kept(&t.0, &t.1)).count();
            if matches!(evs.last(), Some(Ev::End)) && first_err(&evs).is_none() && whole {
                cx.probe("accepted_to_the_end");
                if k != kept {
                    return viol("tokens-not-accounted-for", format!("accepted, but only {} of {} tokens are in the items\n      {}", k, kept, show(&evs)));
                }
                if let (false, Some(at)) = (c.tolerant, model::leaves::unpaired(&toks)) {
                    return viol("accepted-unpaired", format!("accepted, but the bracket at {} has no partner\n      {}", at, show(&evs)));
                }
            }
            Ok(())
        }
    }
}

// ================================================================ C16 layout
const NLS: &[&str] = &[
    "\n", "\r", "\r\n", "\u{2028}", "\u{2029}", "/*\n*/", "/*\r*/", "/*\u{2028}*/", "// c\n", "//\r", "//c\r\n", "//\u{2029}", " \t\n  ", "/* a */ \n", "\n/* a */", "/* a\r\nb */ /* c */", "/* c */ // d\u{2028}", "\n\n\r",
    " /* c */ /*\n*/ ",
];
/// text before a line terminator, text after it, and the same with the terminator spelt out
const RESTRICTED: &[(&str, &str, &str)] = &[
    ("function f() { return", "a }", "function f() { return; a }"),
    ("function f() { return", "a + b; }", "function f() { return; a + b; }"),
    ("x = () => { return", "[a] }", "x = () => { return; [a] }"),
    ("a", "++b", "a; ++b"),
    ("a", "--b;", "a; --b;"),
    ("a.b", "++c.d;", "a.b; ++c.d;"),
    ("for (;;) { break", "L }", "for (;;) { break; L }"),
    ("for (;;) { continue", "a }", "for (;;) { continue; a }"),
    ("L: for (;;) { break", "L }", "L: for (;;) { break; L }"),
    ("L: while (a) { continue", "L; }", "L: while (a) { continue; L; }"),
    ("async", "function f() { }", "async; function f() { }"),
    ("x = async", "y", "x = async; y"),
    ("function* g() { yield", "a }", "function* g() { yield; a }"),
    ("function* g() { x = yield", "a }", "function* g() { x = yield; a }"),
    ("var a", "var b", "var a; var b"),
    ("let a = 1", "let b = 2", "let a = 1; let b = 2"),
    ("a = b", "c = d", "a = b; c = d"),
    ("do x; while (y)", "z", "do x; while (y); z"),
    ("if (a) b", "else c", "if (a) b; else c"),
    ("x = function () { }", "y", "x = function () { }; y"),
    ("x = `t`", "y", "x = `t`; y"),
    ("const a = b", "if (c) d", "const a = b; if (c) d"),
    ("x = {}", "y", "x = {}; y"),
    ("debugger", "a", "debugger; a"),
    ("throw a", "b", "throw a; b"),
    ("import 'a'", "b", "import 'a'; b"),
    ("export { a }", "b", "export { a }; b"),
    ("export default a", "b", "export default a; b"),
    ("x = class { }", "y", "x = class { }; y"),
    ("x = a => b", "c", "x = a => b; c"),
    ("let", "x", "let x"),
    ("a", "(b)", "a (b)"),
    ("a", "[b]", "a [b]"),
    ("a", ".b", "a .b"),
    ("a", "`b`", "a `b`"),
    ("a =", "b", "a = b"),
    ("a", "? b : c", "a ? b : c"),
    ("a", "+ b", "a + b"),
    ("a", "in b", "a in b"),
    ("f(a", ", b)", "f(a, b)"),
    ("if (a)", "b", "if (a) b"),
    ("new", "a(b)", "new a(b)"),
    ("class A", "{ }", "class A { }"),
    ("class A extends B", "{ a() { } }", "class A extends B { a() { } }"),
    ("class A { get", "a() { } }", "class A { get a() { } }"),
    ("class A { static", "a() { } }", "class A { static a() { } }"),
    ("x = { get", "a() { } }", "x = { get a() { } }"),
    ("function", "f() { }", "function f() { }"),
    ("function f()", "{ }", "function f() { }"),
    ("for (a", "of b) c", "for (a of b) c"),
    ("switch (a) { case b", ": c }", "switch (a) { case b: c }"),
    ("a", "=> b", "!"),
    ("(a, b)", "=> c", "!"),
    ("async (a)", "=> c", "!"),
    ("x = y", "=> z", "!"),
    ("typeof", "a", "typeof a"),
    ("delete", "a.b", "delete a.b"),
    ("(", "a)", "(a)"),
    ("L", ": a", "L: a"),
    ("try { }", "catch (e) { }", "try { } catch (e) { }"),
    ("x = async function", "f() { }", "x = async function f() { }"),
    ("async function f() { await", "a }", "async function f() { await a }"),
    ("function* g() { yield *", "a }", "function* g() { yield * a }"),
    ("`a${", "b}c`", "`a${b}c`"),
    ("var", "a = 1", "var a = 1"),
    ("import a", "from 'b'", "import a from 'b'"),
    ("import {a", "as b} from 'c'", "import {a as b} from 'c'"),
    ("export", "default a", "export default a"),
    ("export *", "from 'a'", "export * from 'a'"),
    ("x = {a", ": 1}", "x = {a: 1}"),
    ("x = {async a", "() { }}", "x = {async a() { }}"),
    ("return_", "a", "return_; a"),
];
fn draw_c16(r: &mut Rng) -> Scn {
    let mut s = Scn::new("C16");
    let module = r.chance(1, 3);
    let n = 1 + r.below(4) as usize;
    draw_doc(r, &mut s, n, module, None);
    // the same items again under another layout
    let mut spec = s.docs[0].clone();
    spec.lay = Lay::draw(r, !module);
    spec.lay.nl = r.below(5) as u32;
    spec.ltape = (0..600).map(|_| r.below(1 << 16) as u32).collect();
    s.docs.push(spec);
    s.set("mode", r.below(3) as i64);
    if r.chance(1, 3) {
        // any text whatever, its gaps filled in another way
        let k = *r.pick(&[1, 1, 2, 3]);
        let mut s = draw_damaged(r, "C16", k);
        if r.chance(1, 2) {
            for row in s.lists.get_mut("dmg").unwrap() {
                row[0] = *r.pick(&[1i64, 3, 4, 5, 6, 7, 11, 13, 13, 14, 14, 15, 15, 16]);
            }
        }
        if r.chance(1, 4) {
            s.set("soup", 1 + r.below(1 << 40) as i64);
            s.set("souplen", 1 + r.below(40) as i64);
        }
        s.set("mode", 3);
        s.set("relay", 1 + r.below(1 << 40) as i64);
        s.set("tolerant", r.chance(1, 4) as i64);
        return s;
    }
    s.set("pick", r.below(RESTRICTED.len() as u64) as i64);
    s.set("nl", r.below(NLS.len() as u64) as i64);
    s.set("lead", r.chance(1, 2) as i64);
    s.set("far", if r.chance(1, 2) { [r.range(2, 40), r.range(40, 700), r.range(700, 5_000)][r.below(3) as usize] as i64 } else { 0 });
    s.set("fill", r.below(6) as i64);
    s
}
/// The same tokens with other gaps; where a gap has a line terminator, so has the new one, and the other way round.
/// None where the tokenizer sees other tokens then.
fn relaid(text: &str, toks: &[(String, ress::refs::RefToken, usize, usize)], seed: u64) -> Option<(String, Vec<usize>)> {
    let mut r = Rng::new(seed);
    let rate = *r.pick(&[20u64, 100, 256]);
    let mut t = String::new();
    let mut at = vec![];
    let mut end = 0;
    for i in 0..=toks.len() {
        let start = toks.get(i).map(|t| t.2).unwrap_or(text.len());
        let gap = &text[end..start];
        if r.below(256) >= rate {
            t.push_str(gap);
        } else if gap.contains(|c| matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')) {
            t.push(' ');
            t.push_str(NLS[r.below(NLS.len() as u64) as usize]);
        } else if !gap.is_empty() || r.chance(1, 4) {
            t.push_str(r.pick(&[" ", "\t", "   ", " /* c */", " /**/ ", "\u{a0}", " \u{feff}", "\u{b}", "\u{3000} "]));
        }
        at.push(t.len());
        if let Some(k) = toks.get(i) {
            t.push_str(&k.0);
            end = k.3;
        }
    }
    let (again, whole) = model::leaves::scan(&t);
    if !whole || again.len() != toks.len() || again.iter().zip(toks).any(|(a, b)| a.0 != b.0 || a.1 != b.1) {
        return None;
    }
    Some((t, at))
}
fn run_c16_any(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    let d = s.doc(0);
    let text = if s.flag("soup") {
        cx.fault("text_soup");
        let t = soup(s.u("soup"), s.u("souplen"), &d);
        cx.text("source", &t);
        t
    } else {
        damaged(s, &d, cx).0
    };
    let (toks, whole) = model::leaves::scan(&text);
    let other = if whole { relaid(&text, &toks, s.u("relay")) } else { None };
    let (other, at) = match other {
        Some(o) => o,
        None => return Ok(()),
    };
    cx.nontrivial = toks.len() > 3;
    cx.text("laid out in another way", &other);
    cx.fault("gaps_of_any_text_filled_anew");
    begin(text.len() + other.len());
    let c = cfg(d.module, s.flag("tolerant"), 0);
    let a: Vec<Ev> = observe(&text, c, cap(&text));
    let b: Vec<Ev> = observe(&other, c, cap(&text));
    cx.ev(&a);
    cx.ev(&b);
    let (ia, ib) = (items(&a), items(&b));
    let same = ia == ib
        && match (first_err(&a), first_err(&b)) {
            (None, None) => true,
            (Some(x), Some(y)) => {
                let place = |t: &str, p: (usize, usize), i: usize, b: usize| layout::position(t, b) == p && i <= toks.len();
                x.kind == y.kind
                    && x.msg == y.msg
                    && match (x.pos, y.pos) {
                        (Some(p), Some(q)) => {
                            let i = (0..=toks.len()).find(|i| place(&text, p, *i, toks.get(*i).map(|t| t.2).unwrap_or(text.len())));
                            i.map(|i| place(&other, q, i, at[i])).unwrap_or(true)
                        }
                        (p, q) => p.is_none() == q.is_none(),
                    }
            }
            _ => false,
        };
    if first_err(&a).is_some() {
        cx.probe("relaid_text_was_rejected");
    } else {
        cx.probe("relaid_text_was_accepted");
    }
    if !same {
        return viol("gaps-mean-something", format!("{}\n   but laid out in another way\n{}", show(&a), show(&b)));
    }
    Ok(())
}
fn run_c16(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    if s.u("mode") == 3 {
        return run_c16_any(s, cx);
    }
    if s.u("mode") % 3 == 0 {
        let (pre, post, plain) = RESTRICTED[s.u("pick") as usize % RESTRICTED.len()];
        let nl = NLS[s.u("nl") as usize % NLS.len()];
        let module = s.docs[0].module || plain.starts_with("import") || plain.starts_with("export");
        // other items around it
        let d = s.doc(0);
        let lead = s.flag("lead") && !d.module && !d.items.iter().any(|i| i.kind == "directive") && !module;
        let (a, b) = if lead { (format!("0;\n{}\n;", d.text()), format!("\n;\n{}", d.text())) } else { (String::new(), String::new()) };
        let t1 = format!("{}{}{}{}{}", a, pre, nl, post, b);
        let t2 = format!("{}{}{}", a, plain, b);
        cx.text("with a line terminator", &t1);
        cx.text("spelt out", &t2);
        cx.fault("meaningful_line_terminator");
        cx.nontrivial = true;
        // without a line terminator, how far apart they are means nothing
        let far = s.u("far") as usize;
        if far > 0 {
            let fill = [" ", "\t", "/**/", "/* no end of line */ ", "\u{a0}", "\u{feff}"][s.u("fill") as usize % 6];
            let near = format!("{}{} {}{}", a, pre, post, b);
            let away = format!("{}{}{}{}{}", a, pre, fill.repeat(far / fill.len() + 1), post, b);
            cx.text("far apart on one line", &away);
            cx.fault("far_apart_on_one_line");
            begin(near.len() + away.len());
            let x = observe(&near, cfg(module, false, 0), cap(&near));
            let y = observe(&away, cfg(module, false, 0), cap(&away));
            cx.ev(&y);
            let same = match (first_err(&x), first_err(&y)) {
                (None, None) => x == y,
                (Some(_), Some(_)) => true,
                _ => false,
            };
            if !same {
                return viol("distance-means-something", format!("{:?} and {:?} on one line, {} bytes apart, give {}\n   but next to each other {}", pre, post, far, show(&y), show(&x)));
            }
        }
        begin(t1.len() + t2.len());
        let x = observe(&t1, cfg(module, false, 0), cap(&t1));
        cx.ev(&x);
        if plain == "!" {
            if first_err(&x).is_none() {
                return viol("restricted-production", format!("{:?} between {:?} and {:?} must be an error, got {}", nl, pre, post, show(&x)));
            }
            return shape(&x).map(|_| ());
        }
        let y = observe(&t2, cfg(module, false, 0), cap(&t2));
        cx.ev(&y);
        if x != y || first_err(&x).is_some() {
            return viol("line-terminator-meaning", format!("{:?} between {:?} and {:?} gives {}\n   but {:?} gives {}", nl, pre, post, show(&x), plain, show(&y)));
        }
        return Ok(());
    }
    cx.nontrivial = true;
    for (i, spec) in s.docs.iter().enumerate() {
        let d = doc::build(spec);
        cx.text(&format!("layout {}", i), d.text());
        begin(d.text().len());
        let e = observe(d.text(), cfg(d.module, false, (i % 2) as u32), cap(d.text()));
        cx.ev(&e);
        cx.steps += sim::st().step;
        for (c, n) in [("omitted_semicolon", d.toks.iter().filter(|t| t.k == K::Semi).count() - d.laid.toks.iter().filter(|t| t.k == K::Semi).count()), ("comment_between_tokens", d.laid.coms.len())] {
            cx.faultn(c, n as u64);
        }
        cx.fault(["line_feeds", "carriage_return_line_feeds", "carriage_returns", "mixed_line_ends", "line_separators"][d_lay_nl(spec)]);
        expect_valid(&e, &want(&d), &format!("layout {}", i))?;
    }
    Ok(())
}
fn d_lay_nl(s: &model::doc::DocSpec) -> usize {
    s.lay.nl as usize % 5
}
