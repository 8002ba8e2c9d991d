//! One executor per property: draw a scenario from a seed, run it, check it.
use crate::damage;
use crate::drive::*;
use crate::scn::{Row, Scn};
use crate::sim::{self, Fault, Panic};
use model::doc::{self, Doc};
use model::gen::{self, K};
use model::layout::{self, Lay, CK, PLAIN};
use model::rng::{hash_str, mix, Rng};
use resast::prelude::*;
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}
pub fn viol<T>(class: &str, detail: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.to_string(), detail: detail.into() })
}
#[derive(Default)]
pub struct Cx {
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub sig: u64,
    pub nontrivial: bool,
    pub steps: u64,
    pub toksteps: u64,
    pub inter: u64,
    pub known: Vec<String>,
    pub describe: bool,
    pub texts: Vec<(String, String)>,
    pub trace: u64,
}
impl Cx {
    pub fn fault(&mut self, k: &str) {
        *self.faults.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn faultn(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_insert(0) += 1;
    }
    fn text(&mut self, k: &str, t: &str) {
        self.sig = mix(self.sig ^ hash_str(t));
        if self.describe {
            self.texts.push((k.to_string(), t.to_string()));
        }
    }
    fn sig(&mut self, x: u64) {
        self.sig = mix(self.sig ^ x);
    }
    fn ev(&mut self, evs: &[Ev]) {
        let mut h = self.trace ^ evs.len() as u64;
        for e in evs {
            h = mix(h ^ match e {
                Ev::Com(c) => 1 + ((c.start as u64) << 8) + ((c.end as u64) << 32),
                Ev::Item(_) => 2,
                Ev::Err(e) => 3 ^ hash_str(&e.shown),
                Ev::End => 4,
                Ev::Panic(p) => 5 ^ hash_str(&p.show()),
            });
        }
        self.trace = h;
    }
}
/// Generous: many times what the parser needs.
pub fn budget(len: usize) -> u64 {
    20_000 + 1_000 * len as u64
}
fn begin(len: usize) {
    sim::begin(budget(len), vec![]);
}
fn finish(cx: &mut Cx) {
    let s = sim::st();
    cx.steps += s.step;
    cx.toksteps += s.tok;
    cx.trace = mix(cx.trace ^ s.step ^ (s.tok << 32) ^ s.trace);
    sim::pause();
}
fn cap(text: &str) -> usize {
    text.len() + 8
}
/// The shape every run must have: items, at most one error, the end, no panic of the parser's own.
/// A panic of the tokenizer is returned for the caller to judge.
fn shape(evs: &[Ev]) -> Result<Option<(String, String)>, Viol> {
    let mut err = false;
    let mut end = false;
    for e in evs {
        match e {
            Ev::Com(_) => {}
            Ev::Item(_) => {
                if end {
                    return viol("item-after-end", show(evs));
                }
                if err {
                    return viol("item-after-error", show(evs));
                }
            }
            Ev::Err(_) => {
                if err || end {
                    return viol("second-error", show(evs));
                }
                err = true;
            }
            Ev::End => end = true,
            Ev::Panic(Panic::Tokenizer(a, b)) => return Ok(Some((a.clone(), b.clone()))),
            Ev::Panic(Panic::Budget) => return viol("no-progress", show(evs)),
            Ev::Panic(p) => return viol("panic", format!("{}\n      {}", p.show(), show(evs))),
        }
    }
    Ok(None)
}
thread_local! {
    /// panic sites of the tokenizer that are recorded as known findings
    pub static KNOWN: std::cell::RefCell<Vec<(String, String)>> = const { std::cell::RefCell::new(vec![]) };
}
/// A tokenizer panic is a recorded finding when the tokenizer alone gives up on that text at a
/// recorded site.
fn tokenizer_panic(prop: &str, text: &str, site: &(String, String), cx: &mut Cx) -> Result<(), Viol> {
    let listed = KNOWN.with(|k| k.borrow().iter().any(|(p, s)| p == prop && *s == site.0));
    let alone = sim::guard(|| {
        let s = ress::refs::RefScanner::new(text);
        s.for_each(|_| ());
    });
    let inherent = matches!(&alone, Err(Panic::Tokenizer(a, _)) if *a == site.0);
    if listed && inherent {
        cx.known.push(site.0.clone());
        cx.probe("tokenizer_gave_up_known_site");
        Ok(())
    } else {
        viol("tokenizer-panic", format!("{} {} (recorded: {}, tokenizer alone: {:?})", site.0, site.1, listed, alone.err().map(|p| p.show())))
    }
}
fn expect_valid(evs: &[Ev], want: &[&ProgramPart], what: &str) -> Result<(), Viol> {
    let got: Vec<&Ev> = evs.iter().filter(|e| !matches!(e, Ev::Com(_))).collect();
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            Some(Ev::Item(p)) if p == *w => {}
            other => {
                return viol("wrong-item", format!("{}: item {} should be {:?}\n   but was {}", what, i, w, other.map(|e| e.show()).unwrap_or("nothing".into())));
            }
        }
    }
    if got.len() == want.len() + 1 && matches!(got[want.len()], Ev::End) {
        Ok(())
    } else {
        viol("wrong-end", format!("{}: after {} items expected the end, got {}", what, want.len(), got[want.len()..].iter().map(|e| e.show()).collect::<Vec<_>>().join(", ")))
    }
}
fn want(d: &Doc) -> Vec<&ProgramPart> {
    d.items.iter().map(|i| &i.ast).collect()
}
fn doc_sig(d: &Doc) -> bool {
    d.laid.toks.len() > 3
}
fn draw_doc(r: &mut Rng, s: &mut Scn, nitems: usize, module: bool, lay: Option<Lay>) {
    let m = doc::mask(r);
    draw_doc_mask(r, s, nitems, module, lay, m)
}
fn draw_doc_mask(r: &mut Rng, s: &mut Scn, nitems: usize, module: bool, lay: Option<Lay>, m: u32) {
    let l = lay.unwrap_or_else(|| Lay::draw(r, !module));
    // now and then a long program
    let nitems = if l.huge == 0 && r.chance(1, 400) { nitems + 30 + r.below(300) as usize } else { nitems };
    let (spec, _) = doc::draw(r, module, m, nitems, l);
    s.docs.push(spec);
}
fn kind_num(k: CK) -> u8 {
    match k {
        CK::Single => 0,
        CK::Multi => 1,
        CK::Html => 2,
    }
}
fn want_coms(d: &Doc) -> Vec<ComRec> {
    d.laid.coms.iter().map(|c| ComRec { start: c.start, end: c.end, kind: kind_num(c.kind), text: d.text()[c.start..c.end].to_string() }).collect()
}

pub fn draw(prop: &str, seed: u64) -> Scn {
    let mut r = Rng::new(seed);
    let r = &mut r;
    match prop {
        "C01" => draw_c01(r, "C01"),
        "C02" => draw_c02(r),
        "C03" => draw_c03(r),
        "C04" => draw_c04(r),
        "C05" => draw_c05(r),
        "C06" => draw_c06(r),
        "C07" => draw_c07(r),
        "C08" => draw_c08(r),
        "C09" => draw_c09(r),
        "C10" => draw_c10(r),
        "C11" => draw_c11(r),
        "C12" => draw_c12(r),
        "C13" => draw_c13(r),
        "C14" => draw_c14(r),
        "C15" => draw_c15(r),
        "C16" => draw_c16(r),
        _ => panic!("no such property: {}", prop),
    }
}
pub fn run(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    if s.docs.is_empty() {
        return Ok(());
    }
    // a run that makes nothing of its scenario must not count the steps of the one before
    sim::begin(u64::MAX, vec![]);
    sim::pause();
    let r = match s.prop.as_str() {
        "C01" => run_c01(s, cx),
        "C02" => run_c02(s, cx),
        "C03" => run_c03(s, cx),
        "C04" => run_c04(s, cx),
        "C05" => run_c05(s, cx),
        "C06" => run_c06(s, cx),
        "C07" => run_c07(s, cx),
        "C08" => run_c08(s, cx),
        "C09" => run_c09(s, cx),
        "C10" => run_c10(s, cx),
        "C11" => run_c11(s, cx),
        "C12" => run_c12(s, cx),
        "C13" => run_c13(s, cx),
        "C14" => run_c14(s, cx),
        "C15" => run_c15(s, cx),
        "C16" => run_c16(s, cx),
        _ => panic!("no such property: {}", s.prop),
    };
    if sim::st().step > 0 {
        finish(cx);
    }
    r
}

// ================================================================ C01 pull schedules
fn draw_ops(r: &mut Rng, n: usize) -> Vec<Row> {
    let mut v = vec![];
    let k = r.below(n as u64 + 4);
    let only = r.chance(1, 4);
    for _ in 0..k {
        let op = if only { 0 } else { *r.pick(&[0i64, 0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10]) };
        v.push([op, 0, r.below(8) as i64, 0]);
    }
    v
}
fn draw_c01(r: &mut Rng, prop: &str) -> Scn {
    let mut s = Scn::new(prop);
    let module = r.chance(1, 3);
    let n = 1 + r.below(6) as usize;
    draw_doc(r, &mut s, n, module, None);
    s.set("tolerant", r.chance(1, 5) as i64);
    s.set("ctor", r.below(4) as i64);
    s.set("end", *r.pick(&[0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7]));
    s.lists.insert("ops".into(), draw_ops(r, n));
    s
}
/// Performs a pull schedule on a valid document, checking every result against the model.
/// `seen(watch, last_yielded)` is called after every operation.
fn plain(x: Option<Result<ProgramPart, ressa::Error>>) -> Option<Result<ProgramPart, ErrInfo>> {
    x.map(|r| r.map_err(|e| err_info(&e)))
}
fn drive_ops(d: &Doc, s: &Scn, w: &mut Watch, cx: &mut Cx, seen: &mut dyn FnMut(&mut Watch, usize, bool) -> Result<(), Viol>) -> Result<(), Viol> {
    let mut queue: VecDeque<(ProgramPart, usize)> = d.items.iter().enumerate().map(|(i, x)| (x.ast.clone(), i)).collect();
    let mut done_prologue = false;
    let mut last: Option<usize> = None;
    let item_is = |got: Option<Result<ProgramPart, ErrInfo>>, queue: &mut VecDeque<(ProgramPart, usize)>, done: &mut bool, last: &mut Option<usize>| -> Result<(), Viol> {
        match (got, queue.pop_front()) {
            (Some(Ok(p)), Some((q, i))) => {
                if !matches!(p, ProgramPart::Dir(_)) {
                    *done = true;
                }
                *last = Some(i);
                if p == q {
                    Ok(())
                } else {
                    viol("wrong-item", format!("item {} should be {:?}\n   but was {:?}", i, q, p))
                }
            }
            (None, None) => Ok(()),
            (Some(Err(e)), q) => viol("error-on-valid", format!("{} where item {:?} was due", e.shown, q)),
            (Some(Ok(p)), None) => viol("extra-item", format!("{:?} after the last item", p)),
            (None, Some((q, i))) => viol("early-end", format!("the end was reported where item {} was due: {:?}", i, q)),
        }
    };
    macro_rules! g {
        ($e:expr) => {
            match sim::guard(|| $e) {
                Ok(v) => v,
                Err(p) => return viol("panic", p.show()),
            }
        };
    }
    if let Some(e) = w.evs.iter().find(|e| !matches!(e, Ev::Com(_))) {
        return viol("no-parser", e.show());
    }
    // items taken from the parser without a look at them
    let pass_over = |n: usize, queue: &mut VecDeque<(ProgramPart, usize)>, done: &mut bool, last: &mut Option<usize>| {
        for _ in 0..n {
            if let Some((q, i)) = queue.pop_front() {
                *done |= !matches!(q, ProgramPart::Dir(_));
                *last = Some(i);
            }
        }
    };
    let mut took = 0;
    let mut p = w.p.take().unwrap();
    let ops: Vec<Row> = s.list("ops").to_vec();
    for op in &ops {
        cx.sig(op[0] as u64 ^ 0x77);
        match op[0].unsigned_abs() % 11 {
            1 => {
                cx.fault("burst_of_pulls");
                let n = op[2].unsigned_abs() as usize % 4 + 1;
                let got = g!(p.take_n(n).into_iter().map(|x| x.map_err(|e| err_info(&e))).collect::<Vec<_>>());
                let due = n.min(queue.len());
                if got.len() != due {
                    return viol("wrong-count", format!("a burst of {} gave {} items, {} were due", n, got.len(), due));
                }
                for x in got {
                    item_is(Some(x), &mut queue, &mut done_prologue, &mut last)?;
                }
            }
            2 => {
                cx.fault("moved_to_another_thread");
                let mut moved = p;
                let (back, got) = match std::thread::scope(|sc| {
                    std::thread::Builder::new()
                        .stack_size(sim::STACK)
                        .spawn_scoped(sc, move || {
                            sim::resume();
                            let got = sim::guard(|| plain(moved.pull()));
                            (moved, got)
                        })
                        .unwrap()
                        .join()
                }) {
                    Ok(x) => x,
                    Err(_) => return viol("panic", "thread died"),
                };
                p = back;
                match got {
                    Ok(x) => item_is(x, &mut queue, &mut done_prologue, &mut last)?,
                    Err(e) => return viol("panic", e.show()),
                }
            }
            3 => {
                let due = queue.front().map(|f| f.1);
                let ok = due.map(|i| {
                    let it = &d.items[i];
                    let pi = &d.laid.items[i];
                    let next_str = d.laid.toks.get(pi.last).map(|t| t.k == K::Str).unwrap_or(false);
                    it.expr.is_some() && queue.front().map(|f| f.0 == it.ast).unwrap_or(false) && (done_prologue || !next_str)
                });
                if ok == Some(true) {
                    cx.fault("switched_to_parse_expression");
                    let i = due.unwrap();
                    match g!(p.expr()) {
                        Ok(e) if Some(&e) == d.items[i].expr.as_ref() => {}
                        Ok(e) => return viol("wrong-item", format!("expression {} should be {:?}\n   but was {:?}", i, d.items[i].expr, e)),
                        Err(e) => return viol("error-on-valid", format!("{} from parse_expression where {:?} was due", e, d.items[i].expr)),
                    }
                    queue.pop_front();
                    let pi = &d.laid.items[i];
                    if d.laid.toks[pi.last - 1].k == K::Semi {
                        queue.push_front((ProgramPart::Stmt(Stmt::Empty), i));
                    }
                    last = if i > 0 { Some(i - 1) } else { None };
                }
            }
            4 => {
                cx.fault("paused_for_another_parser");
                let t = ["let z = 1;", "f(`a${b}`", "'use strict'; x", "(async x => { await x })", ""][op[2].unsigned_abs() as usize % 5];
                let _ = observe(t, cfg(op[2] & 1 == 1, op[2] & 2 == 2, 0), 10);
            }
            5 => {
                cx.fault("pulled_with_nth");
                let skip = (op[2].unsigned_abs() as usize % 4).saturating_sub(1);
                let x = if skip == 0 { g!(plain(p.nth0())) } else { g!(plain(p.nth_n(skip))) };
                pass_over(skip, &mut queue, &mut done_prologue, &mut last);
                item_is(x, &mut queue, &mut done_prologue, &mut last)?;
            }
            6 => {
                let (lo, hi) = g!(p.hint());
                if lo > queue.len() || hi.map(|h| h < queue.len()).unwrap_or(false) {
                    return viol("wrong-size-hint", format!("size_hint is {:?}, {} items are due", (lo, hi), queue.len()));
                }
            }
            8 => {
                cx.fault("pulled_with_skip");
                let (skip, n) = (op[2].unsigned_abs() as usize % 3, 1 + op[2].unsigned_abs() as usize / 3 % 2);
                let got = g!(p.skip_take(skip, n).into_iter().map(|x| x.map_err(|e| err_info(&e))).collect::<Vec<_>>());
                pass_over(skip, &mut queue, &mut done_prologue, &mut last);
                let due = n.min(queue.len());
                if got.len() != due {
                    return viol("wrong-count", format!("skip({}).take({}) gave {} items, {} were due", skip, n, got.len(), due));
                }
                for x in got {
                    item_is(Some(x), &mut queue, &mut done_prologue, &mut last)?;
                }
            }
            9 => {
                cx.fault("pulled_with_step_by");
                let (step, n) = (1 + op[2].unsigned_abs() as usize % 3, 1 + op[2].unsigned_abs() as usize / 3 % 3);
                let got = g!(p.step_take(step, n).into_iter().map(|x| x.map_err(|e| err_info(&e))).collect::<Vec<_>>());
                for (k, x) in got.into_iter().enumerate() {
                    if k > 0 {
                        pass_over(step - 1, &mut queue, &mut done_prologue, &mut last);
                    }
                    item_is(Some(x), &mut queue, &mut done_prologue, &mut last)?;
                    took += 1;
                }
                if took < n {
                    // the step that found nothing passed over what was left
                    let left = queue.len();
                    if left >= step || (took == 0 && left > 0) {
                        return viol("early-end", format!("step_by({}) ended where {} items were due", step, left));
                    }
                    pass_over(left, &mut queue, &mut done_prologue, &mut last);
                }
                took = 0;
            }
            10 => {
                cx.fault("peeked_first");
                let (some, x) = g!({
                    let (a, b) = p.peeked();
                    (a, plain(b))
                });
                if some != x.is_some() {
                    return viol("early-end", "peek and next disagree");
                }
                item_is(x, &mut queue, &mut done_prologue, &mut last)?;
            }
            7 => {
                // a pull that is dropped on the floor and one that is kept
                cx.fault("pulled_twice");
                for _ in 0..2 {
                    let x = g!(plain(p.pull()));
                    item_is(x, &mut queue, &mut done_prologue, &mut last)?;
                }
            }
            _ => {
                let x = g!(plain(p.pull()));
                item_is(x, &mut queue, &mut done_prologue, &mut last)?;
            }
        }
        w.drain();
        if let Some(l) = last {
            seen(w, l, false)?;
        }
    }
    match s.n("end").unsigned_abs() % 8 {
        k @ 3..=7 => {
            // the rest through a method that takes the parser itself
            cx.fault("rest_through_an_iterator_method");
            let (lo, hi) = g!(p.hint());
            if lo > queue.len() || hi.map(|h| h < queue.len()).unwrap_or(false) {
                return viol("wrong-size-hint", format!("size_hint is {:?}, {} items are due", (lo, hi), queue.len()));
            }
            let due: Vec<ProgramPart> = queue.drain(..).map(|x| x.0).collect();
            let all = |v: Vec<Result<ProgramPart, ressa::Error>>| v.into_iter().collect::<Result<Vec<_>, _>>().map_err(|e| err_info(&e));
            let got = match k {
                3 => {
                    let n = g!(p.into_count());
                    if n != due.len() {
                        return viol("wrong-count", format!("count() is {}, {} items were due", n, due.len()));
                    }
                    Ok(due.clone())
                }
                4 => {
                    let x = g!(plain(p.into_last()));
                    if x.as_ref().and_then(|x| x.as_ref().ok()) != due.last() || matches!(x, Some(Err(_))) {
                        return viol("wrong-item", format!("last() is {:?}, the last item due is {:?}", x, due.last()));
                    }
                    Ok(due.clone())
                }
                5 => g!(p.into_result().map_err(|e| err_info(&e))),
                6 => g!(all(p.into_fold())),
                _ => g!(all(p.into_loop())),
            };
            match got {
                Ok(v) if v == due => {}
                Ok(v) => return viol("wrong-rest", format!("collecting gave {:?}\n   but {:?} was due", v, due)),
                Err(e) => return viol("error-on-valid", e.shown),
            }
            w.drain();
            return seen(w, usize::MAX, true);
        }
        0 => {
            while !queue.is_empty() {
                let x = g!(plain(p.pull()));
                item_is(x, &mut queue, &mut done_prologue, &mut last)?;
                w.drain();
                seen(w, last.unwrap(), false)?;
            }
        }
        k => {
            cx.fault("switched_to_parse");
            let got = g!(p.rest());
            let (module, parts) = match got {
                Ok(Program::Mod(p)) => (true, p),
                Ok(Program::Script(p)) => (false, p),
                Err(e) => return viol("error-on-valid", format!("parse: {}", e)),
            };
            if module != d.module {
                return viol("wrong-program-kind", format!("module: {}, configured: {}", module, d.module));
            }
            let due: Vec<ProgramPart> = queue.drain(..).map(|x| x.0).collect();
            if parts != due {
                return viol("wrong-rest", format!("parse gave {:?}\n   but {:?} was due", parts, due));
            }
            w.drain();
            if k == 2 {
                match g!(p.rest()) {
                    Ok(Program::Mod(p)) | Ok(Program::Script(p)) if p.is_empty() => {}
                    Ok(x) => return viol("item-after-end", format!("a second parse gave {:?}", x)),
                    Err(e) => return viol("error-after-end", e.to_string()),
                }
            }
        }
    }
    for _ in 0..3 {
        match g!(p.pull()) {
            None => {}
            Some(Ok(x)) => return viol("item-after-end", format!("{:?}", x)),
            Some(Err(e)) => return viol("error-after-end", e.to_string()),
        }
    }
    match g!(p.rest()) {
        Ok(Program::Mod(p)) | Ok(Program::Script(p)) if p.is_empty() => {}
        Ok(x) => return viol("item-after-end", format!("parse after the end gave {:?}", x)),
        Err(e) => return viol("error-after-end", e.to_string()),
    }
    if g!(p.pull()).is_some() {
        return viol("item-after-end", "a pull after parse after the end gave something");
    }
    w.drain();
    seen(w, usize::MAX, true)?;
    w.p = Some(p);
    Ok(())
}
fn run_c01(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    let d = s.doc(0);
    cx.text("source", d.text());
    begin(d.text().len());
    let mut w = Watch::new(d.text(), cfg(d.module, s.flag("tolerant"), s.n("ctor") as u32));
    cx.nontrivial = d.items.len() >= 2 && d.laid.toks.len() > 6 && s.list("ops").iter().any(|o| o[0] != 0);
    drive_ops(&d, s, &mut w, cx, &mut |_, _, _| Ok(()))
}

// ================================================================ C02 side by side
fn draw_c02(r: &mut Rng) -> Scn {
    let mut s = Scn::new("C02");
    let mode = r.below(3);
    let crowd = r.chance(1, 12);
    let n = match (crowd, mode) {
        (true, 0) => 5 + r.below(12),
        (true, 1) => 5 + r.below(60),
        (true, _) => 5 + r.below(20),
        _ => 2 + r.below(3),
    };
    let nd = if r.chance(1, 4) { 1 } else { 1 + r.below(n.min(4)) };
    for _ in 0..nd {
        let module = r.chance(1, 3);
        let k = 1 + r.below(4) as usize;
        draw_doc(r, &mut s, k, module, None);
    }
    s.set("mode", mode as i64);
    let mut ps = vec![];
    for _ in 0..n {
        let c = r.below(8) as i64;
        let maxp = if r.chance(1, 3) { r.below(4) as i64 } else { 1000 };
        let dmg = if r.chance(1, 3) { 1 + r.below(1 << 30) as i64 } else { 0 };
        ps.push([r.below(nd) as i64, c, maxp, dmg]);
    }
    s.lists.insert("p".into(), ps);
    if mode == 0 {
        let mean = *r.pick(&[1u64, 3, 10, 60, 300]);
        let k = (400 / mean).clamp(4, 200);
        let g = (0..k).map(|_| [1 + r.below(2 * mean) as i64, 0, r.below(n) as i64, 0]).collect();
        s.lists.insert("gaps".into(), g);
    } else {
        let k = 4 + r.below(16) + if crowd { 4 * n } else { 0 };
        let g = (0..k).map(|_| [r.below(3) as i64, 0, r.below(n) as i64, 0]).collect();
        s.lists.insert("turns".into(), g);
    }
    s
}
struct Side {
    text: String,
    cfg: Cfg,
    max: usize,
    valid: Option<usize>,
}
fn dmg_rows(d: &Doc, seed: i64) -> Vec<Row> {
    if seed == 0 {
        return vec![];
    }
    let mut r = Rng::new(seed as u64);
    (0..1 + r.below(2)).map(|_| damage::row(&mut r, d)).collect()
}
fn sides(s: &Scn, docs: &[Doc], cx: &mut Cx) -> Vec<Side> {
    let mut v = vec![];
    for (i, row) in s.list("p").iter().enumerate() {
        let di = row[0].unsigned_abs() as usize % docs.len();
        let d = &docs[di];
        let (text, first, kinds) = damage::apply(d, &dmg_rows(d, row[3]));
        for k in kinds {
            cx.fault(&format!("text_{}", k));
        }
        cx.text(&format!("parser {}", i), &text);
        let c = row[1].unsigned_abs() as u32;
        v.push(Side {
            cfg: Cfg { module: d.module, tolerant: c & 4 != 0, ctor: [1, 2, 0, 1][(c & 3) as usize] },
            max: row[2].unsigned_abs() as usize,
            valid: if first == usize::MAX { Some(di) } else { None },
            text,
        });
    }
    v
}
fn solo(x: &Side) -> Vec<Ev> {
    let mut w = Watch::new(&x.text, x.cfg);
    w.all(x.max.min(cap(&x.text)));
    let e = std::mem::take(&mut w.evs);
    drop(w);
    e
}
fn run_c02(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    let docs: Vec<Doc> = (0..s.docs.len()).map(|i| s.doc(i)).collect();
    let sd = sides(s, &docs, cx);
    if sd.is_empty() {
        return Ok(());
    }
    let total: usize = sd.iter().map(|x| x.text.len()).sum();
    begin(total * 3);
    if sd.len() > 4 {
        cx.fault("crowd_of_parsers");
    }
    let mut alone = vec![];
    for x in &sd {
        let e = solo(x);
        if x.max < 1000 {
            cx.fault("parser_abandoned");
        }
        if e.iter().any(|e| matches!(e, Ev::Err(_))) {
            cx.fault("parser_failed");
        }
        if let Some(di) = x.valid {
            // the model is a second opinion on what "alone" means
            let w = want(&docs[di]);
            let n = x.max.min(w.len());
            let got = items(&e);
            if got.len() != n.min(got.len()) || got.iter().zip(&w).any(|(a, b)| a != b) || first_err(&e).is_some() || panic_of(&e).is_some() || got.len() < n {
                return viol("alone-wrong", format!("alone: {}", show(&e)));
            }
        }
        alone.push(e);
    }
    let n = sd.len();
    let mut got: Vec<Vec<Ev>> = vec![vec![]; n];
    match s.u("mode") % 3 {
        0 if n <= 16 => {
            let out: Arc<Mutex<Vec<Vec<Ev>>>> = Arc::new(Mutex::new(vec![vec![]; n]));
            let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
            for (i, x) in sd.iter().enumerate() {
                let (t, c, m) = (x.text.clone(), x.cfg, x.max);
                let o = out.clone();
                bodies.push(Box::new(move || {
                    let mut w = Watch::new(&t, c);
                    w.all(m.min(t.len() + 8));
                    let e = std::mem::take(&mut w.evs);
                    drop(w);
                    o.lock().unwrap()[i] = e;
                }));
            }
            let gaps: Vec<(u64, usize)> = s.list("gaps").iter().map(|g| (g[0].unsigned_abs(), g[2].unsigned_abs() as usize)).collect();
            sim::run_threads(bodies, &gaps);
            cx.faultn("thread_switch", sim::st().switches);
            cx.nontrivial = sim::st().switches >= 2;
            got = std::mem::take(&mut *out.lock().unwrap());
        }
        0 | 1 => {
            let mut ws: Vec<Option<Watch>> = (0..n).map(|_| None).collect();
            let mut pulls = vec![0usize; n];
            let mut alive = n;
            let turns = s.list("turns");
            let mut k = 0;
            let mut last = n;
            let mut switches = 0;
            while alive > 0 {
                // the turns first, then round robin until everybody is done
                let i = if k < turns.len() { turns[k][2].unsigned_abs() as usize % n } else { k % n };
                k += 1;
                if !got[i].is_empty() {
                    continue;
                }
                if i != last {
                    switches += 1;
                    last = i;
                }
                cx.sig(i as u64);
                let x = &sd[i];
                let finished = match &mut ws[i] {
                    None => {
                        let w = Watch::new(&x.text, x.cfg);
                        let st = w.stopped;
                        ws[i] = Some(w);
                        st
                    }
                    Some(w) => {
                        if pulls[i] >= x.max.min(cap(&x.text)) {
                            true
                        } else {
                            pulls[i] += 1;
                            !w.pull()
                        }
                    }
                };
                if finished || (x.max == 0) {
                    let mut w = ws[i].take().unwrap();
                    got[i] = std::mem::take(&mut w.evs);
                    if got[i].is_empty() {
                        got[i] = vec![Ev::End]; // nothing was pulled
                    }
                    drop(w);
                    alive -= 1;
                }
                if k > 100_000 {
                    return viol("no-progress", "interleaved pulls do not end");
                }
            }
            cx.faultn("pull_switch", switches);
            cx.nontrivial = switches > n as u64;
        }
        _ => {
            // parser i's comment handler drives parser i+1
            let mut chain: Option<Arc<Mutex<Watch>>> = None;
            let mut all: Vec<Arc<Mutex<Watch>>> = vec![];
            let nested = Arc::new(std::sync::atomic::AtomicU64::new(0));
            for i in (0..n).rev() {
                let x = &sd[i];
                let coms: Coms = Default::default();
                let k = coms.clone();
                let next = chain.clone();
                let cnt = nested.clone();
                let max = sd.get(i + 1).map(|y| y.max.min(cap(&y.text))).unwrap_or(0);
                let mut left = max;
                let h: H = Box::new(move |c: ress::Item| {
                    k.lock().unwrap().push(com_rec(&c));
                    if let Some(n) = &next {
                        if left > 0 {
                            left -= 1;
                            cnt.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            n.lock().unwrap().pull();
                        }
                    }
                });
                let r = sim::guard(|| {
                    let mut b = ressa::Builder::new();
                    b.module(x.cfg.module).tolerant(x.cfg.tolerant).js(x.text.as_str());
                    b.with_comment_handler(h).map(|p| Box::new(p) as P)
                });
                let w = Arc::new(Mutex::new(Watch::from(r, coms)));
                chain = Some(w.clone());
                all.push(w);
            }
            all.reverse();
            for (i, w) in all.iter().enumerate() {
                let mut guard = w.lock().unwrap();
                let done = guard.evs.iter().filter(|e| !matches!(e, Ev::Com(_))).count();
                let lim = sd[i].max.min(cap(&sd[i].text));
                let mut k = done;
                while k < lim && guard.pull() {
                    k += 1;
                }
            }
            for (i, w) in all.iter().enumerate() {
                got[i] = std::mem::take(&mut w.lock().unwrap().evs);
            }
            let k = nested.load(std::sync::atomic::Ordering::Relaxed);
            cx.faultn("nested_in_callback", k);
            cx.nontrivial = k > 0;
            // without the handler nothing is recorded when it ran alone
            for (i, x) in sd.iter().enumerate() {
                if x.cfg.ctor == 0 {
                    got[i].retain(|e| !matches!(e, Ev::Com(_)));
                }
            }
        }
    }
    cx.inter = sim::st().trace;
    for i in 0..n {
        cx.ev(&got[i]);
        let mut a = alone[i].clone();
        if a.is_empty() {
            a = vec![Ev::End];
        }
        let mut b = got[i].clone();
        if b.is_empty() {
            b = vec![Ev::End];
        }
        if a != b {
            let k = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            return viol(
                "interference",
                format!(
                    "parser {}: alone it gave {} events, side by side {}; the first difference is event {}:\n   alone: {}\n   together: {}",
                    i,
                    a.len(),
                    b.len(),
                    k,
                    a.get(k).map(|e| e.show()).unwrap_or("nothing".into()),
                    b.get(k).map(|e| e.show()).unwrap_or("nothing".into())
                ),
            );
        }
    }
    Ok(())
}

// ================================================================ C03 comments
fn draw_c03(r: &mut Rng) -> Scn {
    let mut s = draw_c01(r, "C03");
    let module = s.docs[0].module;
    let mut l = Lay::draw(r, !module);
    l.coms = *r.pick(&[20, 60, 120, 200]);
    l.html = !module && r.chance(1, 2);
    let spec = &s.docs[0];
    let (mask, n) = (spec.mask, spec.items.len());
    s.docs.clear();
    draw_doc_mask(r, &mut s, n, module, Some(l), mask);
    s.set("ctor", 1 + r.below(2) as i64);
    s
}
fn run_c03(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    let d = s.doc(0);
    cx.text("source", d.text());
    begin(d.text().len() * 2);
    let coms = want_coms(&d);
    cx.nontrivial = coms.len() >= 2;
    cx.sig(s.u("ctor"));
    for c in &d.laid.coms {
        cx.probe(match c.kind {
            CK::Single => "single_line_comment",
            CK::Multi => "multi_line_comment",
            CK::Html => "html_comment",
        });
    }
    let c = cfg(d.module, s.flag("tolerant"), 1 + (s.u("ctor") as u32).wrapping_sub(1) % 2);
    let mut w = Watch::new(d.text(), c);
    let mut check = |w: &mut Watch, last: usize, end: bool| -> Result<(), Viol> {
        let got: Vec<&ComRec> = w.evs.iter().filter_map(|e| if let Ev::Com(c) = e { Some(c) } else { None }).collect();
        for (i, g) in got.iter().enumerate() {
            match coms.get(i) {
                Some(c) if c == *g => {}
                c => return viol("wrong-comment", format!("comment {} should be {:?}\n   but was {:?}", i, c, g)),
            }
        }
        let due = if end {
            coms.len()
        } else {
            let upto = d.laid.items[last].end;
            coms.iter().filter(|c| c.start < upto).count()
        };
        if got.len() < due {
            return viol("comment-late", format!("after item {} (end {}) {} comments are due, {} were delivered; missing {:?}", last, end, due, got.len(), coms[got.len()]));
        }
        Ok(())
    };
    drive_ops(&d, s, &mut w, cx, &mut check)?;
    drop(w);
    // without a handler: the same items
    let e = observe(d.text(), cfg(d.module, s.flag("tolerant"), 0), cap(d.text()));
    expect_valid(&e, &want(&d), "without a handler")
}

// ================================================================ C04 history
pub const PROBES: &[&str] = &[
    "break;", "continue;", "return 1;", "yield = 1;", "yield", "yield 1;", "await 0;", "await = 1;", "let yield;", "super();", "super.x;", "new.target;", "break L1;", "continue L1;", "L1: x;", "L1: for (;;) { break L1; }",
    "'use strict'; with (a) {}", "with (a) b;", "x => {};", "async () => await 1;", "async x => x;", "for (a in b);", "for (var a in b) continue;", "for (let of of x);", "({a = 1});", "({a = 1} = {});", "[a = 1] = b;", "delete x;",
    "010;", "var eval;", "yield\n1;", "static;", "a\n++b;", "'\\01';", "L: L: ;", "export default 1;", "import a from 'x';", "import('x');", "let let = 1;", "get;", "async function f() { await x; }", "function* g() { yield 1; yield* 2; }",
    "async;", "async\nfunction f() {}", "class A extends B { constructor() { super(); } }", "class A { get a() { return 1 } set a(b) {} static c() {} }", "class { }", "function f() { return }", "function () {}", "a ? b : c;", "a, b;",
    "(a, b) => c;", "(a, b);", "a = b => c;", "arguments = 1;", "eval = 1;", "`a${b}c`;", "`a`;", "switch (a) { case 1: break; default: }", "switch (a) { case 1: continue; }", "while (a) { break; }", "do ; while (a) b", "if (a) b; else c;",
    "if (a) function f() {}", "try { } catch (e) { }", "try { } catch { } finally { }", "throw a;", "var a = 1, b;", "const a = 1;", "const a;", "let a;", "let a = 1\nlet b", "let\na", "let [a] = b;", "({ get a() { }, set a(b) { } });",
    "({ async a() { }, *b() { } });", "({ async: 1, get, set });", "({ yield: 1, await: 2 });", "a.b.c();", "new a.b(c);", "new a;", "a[b](c)`d`;", "!a;", "-a ** b;", "a ** b;", "++a;", "a++;", "++a++;", "1 = 2;", "a() = 1;",
    "a += b;", "({a}) = 1;", "[...a] = b;", "[...a, b] = c;", "(...a) => b;", "(a, ...b) => c;", "(a = yield) => b;", "(a = await b) => c;", "function f(a, a) {}", "function f({a}, [b] = c, ...d) {}", "debugger;", ";", "{}", "{ a: b }",
    "for (;;) { break }", "for (const a of b) { continue }", "for await (a of b);", "implements;", "let: x;", "yield: x;", "await: x;", "async: x;", "of: x;", "enum;", "var yield;", "var await;", "function yield() {}", "function await() {}",
    "(function yield() {});", "(function* () { yield; });", "(async function () { await a; });", "a: { break a; }", "a: break a;", "a: while (1) { continue a; }", "a: { continue a; }", "a: b: c;", "a: function f() {}", "x = y = z;", "x = {a: 1, b};",
    "x = {a: yield};", "f(...a);", "f(a, b,);", "f(,);", "[,];", "[a, , b];", "({,});", "a\n=> b", "async\n() => b", "async (a)\n=> b", "async (a, b) => { await c; };", "async (a);", "typeof a;", "void 0;", "null;", "this;", "a in b;",
    "a instanceof b;", "a && b || c;", "`${`${a}`}`;", "var {a} = b;", "var {a};", "let a, a;", "function f() { 'use strict'; with (a) b; }", "() => { 'use strict'; yield = 1 };", "if (a) return;", "(function () { return; });",
    "class A { constructor() {} constructor() {} }", "class A { async a() { await b; } }", "class A { *a() { yield b; } }", "class A { static async() {} }", "class A { 'constructor'() {} }", "class A { [a]() {} }", "class A { a() { super.b; } }",
    "({ a() { super.b; } });", "() => super.a;", "new.target = 1;", "x\n/y/z", "a\n(b)", "a\n[b]", "a\n`b`", "a\n.b", "a ? b => c : d => e;", "(async => b);", "async => b;", "(yield => b);", "(await => b);", "for (async of a);", "for (async of => {};;);",
    "for (let in a);", "for (let = 1;;);", "for (yield in a);", "for (var a = 1 in b);", "for (a of b, c);", "for (var a, b in c);", "for (let [a] of b);", "for ({a} of b);", "for ((a in b);;);", "for (var x = (a in b);;);", "for (var x = a in b;;);",
    "for (x = [a in b];;);", "for (x of y in z);", "a: b: c: a: x;", "a: b: a: for (;;) ;", "({ __proto__: 1, __proto__: 2 });", "({ get a(b) { } });", "({ set a() { } });", "({ set a(...b) { } });", "class A { set a() { } get b(c) { } }",
    "class A { a() { with (b) { c; d } } }", "class A { a() { delete b; } }", "f(a b);", "({ a: 1 b: 2 });", "if (a {}", "while (a {}", "do ; while (a;", "for (var a of b {}", "switch (a { }", "const a, b;", "let let;", "(a, a) => b;", "({ a: 1 }) => b;",
    "function f(eval) { 'use strict' }", "class A { a(eval) { } }", "class A { a(b = 1) { 'use strict' } }", "() => ({}).x;", "import {a as a, b} from 'c';", "export {a as a};", "export {a as a} from 'b';", "export * from 'a';", "export default class { }",
    "import * as a from 'b';", "import a, {b as c} from 'd';", "import 'a';", "export {default} from 'a';", "export {default};", "import {default} from 'a';", "export var a = 1, b;", "export default async () => await a;",
];
const WRAPS: &[(&str, &str)] = &[
    ("", ""),
    ("function w() {\n", "\n}\n"),
    ("{\n", "\n}\n"),
    ("while (w) {\n", "\n}\n"),
    ("switch (w) { case 0:\n", "\n}\n"),
    ("function* w() {\n", "\n}\n"),
    ("async function w() {\n", "\n}\n"),
    ("w = () => {\n", "\n};\n"),
    ("w = { w() {\n", "\n} };\n"),
    ("w: {\n", "\n}\n"),
    ("try {\n", "\n} catch (w) { }\n"),
    ("w = function () {\n", "\n};\n"),
    ("w = async () => {\n", "\n};\n"),
    ("class W { w() {\n", "\n} }\n"),
    ("w = { get w() {\n", "\n} };\n"),
    ("w = { *w() {\n", "\n} };\n"),
];
fn draw_c04(r: &mut Rng) -> Scn {
    let mut s = Scn::new("C04");
    let wrap = if r.chance(1, 2) { 0 } else { r.below(WRAPS.len() as u64) };
    let module = wrap == 0 && r.chance(1, 3);
    let mut mask = doc::mask(r);
    if wrap != 0 {
        mask &= !gen::F_YIELDID;
    }
    if wrap == 13 {
        mask &= !gen::F_WITH;
    }
    let mut l = Lay::draw(r, false);
    l.asi = 0;
    let n = 1 + r.below(5) as usize;
    draw_doc_mask(r, &mut s, n, module, Some(l), mask);
    s.set("wrap", wrap as i64);
    s.set("module", module as i64);
    let np = 1 + r.below(2);
    let probes: Vec<Row> = (0..np).map(|_| [r.below(PROBES.len() as u64) as i64, 0, 0, 0]).collect();
    s.lists.insert("probe".into(), probes);
    if r.chance(1, 3) {
        // the item under test is a (damaged) generated one
        s.set("own", 1);
        let m2 = doc::mask(r) & !(gen::F_DIV | gen::F_REGEX | gen::F_YIELDID);
        // the history may be made of the same few constructs
        let m2 = if r.chance(1, 2) { m2 & 0xffff | mask & 0xffff_0000 } else { m2 };
        draw_doc_mask(r, &mut s, 1, module, Some(PLAIN), m2);
        if r.chance(1, 2) {
            let d = doc::build(&s.docs[1]);
            let mut rows = vec![damage::row(r, &d)];
            for x in &mut rows {
                // damage by program text only, without a slash
                x[0] = *r.pick(&[1i64, 3, 4, 5, 6, 7, 11]);
            }
            s.lists.insert("dmg".into(), rows);
        }
    }
    s.set("tolerant", r.chance(1, 5) as i64);
    s.set("echo", if r.chance(1, 3) { 1 + r.below(60) as i64 } else { 0 });
    s
}
/// the statement list inside the wrapper
fn body_of(p: &mut ProgramPart) -> Option<&mut Vec<ProgramPart>> {
    fn of_expr(e: &mut Expr) -> Option<&mut Vec<ProgramPart>> {
        match e {
            Expr::Function(f) => Some(&mut f.body),
            Expr::ArrowFunction(ArrowFunctionExpr { body: ArrowFunctionBody::FunctionBody(b), .. }) => Some(b),
            Expr::Assignment(a) => of_expr(&mut a.right),
            Expr::Object(v) => match v.get_mut(0) {
                Some(ObjectProperty::Property(p)) => match &mut p.value {
                    PropertyValue::Expr(e) => of_expr(e),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        }
    }
    fn of_stmt(s: &mut Stmt) -> Option<&mut Vec<ProgramPart>> {
        match s {
            Stmt::Block(b) => Some(b),
            Stmt::While(w) => of_stmt(&mut w.body),
            Stmt::Labeled(l) => of_stmt(&mut l.body),
            Stmt::Switch(s) => s.cases.get_mut(0).map(|c| &mut c.consequent),
            Stmt::Try(t) => Some(&mut t.block),
            Stmt::Expr(e) => of_expr(e),
            _ => None,
        }
    }
    match p {
        ProgramPart::Decl(Decl::Function(f)) => Some(&mut f.body),
        ProgramPart::Decl(Decl::Class(c)) => match c.body.get_mut(0).map(|p| &mut p.value) {
            Some(PropertyValue::Expr(e)) => of_expr(e),
            _ => None,
        },
        ProgramPart::Stmt(s) => of_stmt(s),
        _ => None,
    }
}
fn run_c04(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    let h = s.doc(0);
    let wrap = s.u("wrap") as usize % WRAPS.len();
    if wrap != 0 && h.module {
        return Ok(());
    }
    let (pre, post) = WRAPS[wrap];
    // one of the statements of the history once more
    let echo = if s.u("echo") > 0 {
        let k = s.u("echo") as usize % h.items.len().max(1);
        h.items.get(k).filter(|i| matches!(i.ast, ProgramPart::Stmt(_))).map(|i| h.toks[i.start..i.end].iter().map(|t| t.s.as_str()).collect::<Vec<_>>().join(" ")).filter(|t| !t.contains('/'))
    } else {
        None
    };
    let mut x = if let Some(t) = echo {
        cx.fault("statement_repeated");
        t
    } else if s.flag("own") && s.docs.len() > 1 {
        let d = s.doc(1);
        let (t, _, kinds) = damage::apply(&d, s.list("dmg"));
        for k in kinds {
            cx.fault(&format!("text_{}", k));
        }
        t
    } else {
        let v: Vec<&str> = s.list("probe").iter().map(|p| PROBES[p[0].unsigned_abs() as usize % PROBES.len()]).collect();
        v.join("\n")
    };
    if x.contains('/') && x != "x\n/y/z" {
        // what a slash means to the tokenizer depends on parentheses before it
        x = x.replace('/', "-");
    }
    if x == "x\n/y/z" {
        x = "x".into();
    }
    let head = "0;\n";
    let base = format!("{}{}{}{}", pre, head, x, post);
    let full = format!("{}{}{}\n{}{}{}", pre, head, h.text(), head, x, post);
    let line = |t: &str, at: usize| layout::position(t, at).0;
    let base_line = line(&base, pre.len() + head.len());
    let full_at = pre.len() + head.len() + h.text().len() + 1 + head.len();
    let full_line = line(&full, full_at);
    cx.text("without history", &base);
    cx.text("with history", &full);
    cx.nontrivial = doc_sig(&h);
    cx.fault("history_of_items");
    if wrap != 0 {
        cx.fault("inside_an_enclosing_body");
    }
    begin(full.len() + base.len());
    let c = cfg(h.module, s.flag("tolerant"), 0);
    let a = observe(&base, c, cap(&base));
    let b = observe(&full, c, cap(&full));
    cx.ev(&a);
    cx.ev(&b);
    let nh = h.items.len();
    if let Some(e) = first_err(&a) {
        cx.probe("probe_rejected");
        let _ = e;
    } else {
        cx.probe("probe_accepted");
    }
    // a tokenizer panic: nothing to compare beyond it
    if let Some(Panic::Tokenizer(..)) = panic_of(&a) {
        return match panic_of(&b) {
            Some(Panic::Tokenizer(..)) => Ok(()),
            _ => viol("history-changes-outcome", format!("without: {}\n   with: {}", show(&a), show(&b))),
        };
    }
    // take the history out of what came back
    let mut b2: Vec<Ev> = b.clone();
    let mut a2: Vec<Ev> = a.clone();
    if wrap == 0 {
        let hist: Vec<Ev> = b2.iter().take(nh + 2).cloned().collect();
        let good = hist.len() == nh + 2
            && hist[1..nh + 1].iter().zip(&h.items).all(|(e, i)| match (e, &i.ast) {
                (Ev::Item(p), w) => p == w || matches!(w, ProgramPart::Dir(_)),
                _ => false,
            });
        if !good {
            return viol("history-broken", format!("the items of the history themselves came out wrong: {}", show(&b)));
        }
        b2.drain(1..nh + 2);
    } else {
        let whole = matches!(a2.first(), Some(Ev::Item(_)));
        match (&mut a2[0], b2.first_mut()) {
            (Ev::Item(p), Some(Ev::Item(q))) => match (body_of(p).is_some(), body_of(q)) {
                (true, Some(v)) if v.len() >= nh + 2 => {
                    v.drain(1..nh + 2);
                }
                (false, None) => {
                    // the damage closed the wrapper early and it became part of something else
                    cx.probe("broke_out_of_the_wrapper");
                    return Ok(());
                }
                _ => return viol("history-changes-outcome", format!("without: {}\n   with: {}", show(&a), show(&b))),
            },
            _ => {
                let _ = whole;
            }
        }
    }
    let rel = |evs: &[Ev], l: usize| -> Vec<Ev> {
        evs.iter()
            .map(|e| match e {
                Ev::Err(e) => {
                    let mut e = e.clone();
                    e.shown = String::new();
                    e.pos = e.pos.map(|p| ((p.0 + 1_000_000).wrapping_sub(l), p.1));
                    Ev::Err(e)
                }
                o => o.clone(),
            })
            .collect()
    };
    let (ra, rb) = (rel(&a2, base_line), rel(&b2, full_line));
    if ra != rb {
        let k = ra.iter().zip(&rb).position(|(x, y)| x != y).unwrap_or(ra.len().min(rb.len()));
        return viol(
            "history-changes-outcome",
            format!("first difference at event {}:\n   without history: {}\n   with history: {}", k, a2.get(k).map(|e| e.show()).unwrap_or("nothing".into()), b2.get(k).map(|e| e.show()).unwrap_or("nothing".into())),
        );
    }
    Ok(())
}

// ================================================================ C05 cut short
fn draw_c05(r: &mut Rng) -> Scn {
    let mut s = Scn::new("C05");
    let module = r.chance(1, 3);
    let n = 1 + r.below(4) as usize;
    draw_doc(r, &mut s, n, module, None);
    let d = doc::build(&s.docs[0]);
    let item = if r.chance(2, 3) { n as u64 - 1 } else { r.below(n as u64) };
    let len = d.laid.items[item as usize].last - d.laid.items[item as usize].first;
    // 0: right before the token, 1: right after it, 2: inside it, 3: in the gap after it
    s.lists.insert("cut".into(), vec![[*r.pick(&[0i64, 1, 1, 1, 2, 3]), item as i64, r.below(len.max(1) as u64) as i64, r.below(1000) as i64]]);
    s.set("tolerant", r.chance(1, 4) as i64);
    s.set("ctor", r.below(4) as i64);
    s
}
fn cut_point(d: &Doc, row: &Row) -> Option<usize> {
    let k = damage::target(d, row)?;
    let t = &d.laid.toks[k];
    let text = d.text();
    let v = row[3].unsigned_abs() as usize;
    let mut p = match row[0].unsigned_abs() % 4 {
        0 => t.start,
        1 => t.end,
        2 => t.start + v % (t.end - t.start),
        _ => {
            let e = d.laid.toks.get(k + 1).map(|x| x.start).unwrap_or(text.len());
            t.end + v % (e - t.end + 1)
        }
    };
    while !text.is_char_boundary(p) {
        p -= 1;
    }
    Some(p)
}
/// Are the leading items yielded unchanged, with their comments?
fn prefix_ok(d: &Doc, evs: &[Ev], n: usize, coms: bool) -> Result<(), Viol> {
    let got = items(evs);
    for i in 0..n {
        match got.get(i) {
            Some(p) if **p == d.items[i].ast => {}
            g => return viol("intact-item-changed", format!("item {} ended before the damage and should be {:?}\n   but was {:?}; all: {}", i, d.items[i].ast, g, show(evs))),
        }
    }
    if coms && n > 0 {
        let due: Vec<ComRec> = want_coms(d).into_iter().filter(|c| c.end <= d.laid.items[n - 1].end).collect();
        let mut k = 0;
        let mut seen = 0;
        for e in evs {
            match e {
                Ev::Com(c) => {
                    if k < due.len() {
                        if *c != due[k] {
                            return viol("intact-comment-changed", format!("comment {} should be {:?} but was {:?}", k, due[k], c));
                        }
                        k += 1;
                    }
                }
                Ev::Item(_) => {
                    seen += 1;
                    if seen == n {
                        break;
                    }
                }
                _ => {}
            }
        }
        if k < due.len() {
            return viol("intact-comment-lost", format!("comment {:?} was not delivered with the items before the damage", due[k]));
        }
    }
    Ok(())
}
fn run_c05(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    let d = s.doc(0);
    let p = match s.list("cut").first().and_then(|r| cut_point(&d, r)) {
        Some(p) => p,
        None => return Ok(()),
    };
    let text = &d.text()[..p];
    cx.text("source", text);
    if cx.describe {
        cx.texts.push(("whole source".into(), d.text().to_string()));
    }
    begin(text.len());
    let c = cfg(d.module, s.flag("tolerant"), s.n("ctor") as u32);
    let evs = observe(text, c, cap(text));
    cx.ev(&evs);
    let n = if p >= d.text().len() { d.items.len() } else { damage::intact(&d, p, true) };
    let open = damage::open_at(&d, p);
    cx.nontrivial = p > 0 && p < d.text().len() && !text.trim().is_empty();
    let inside = d.laid.toks.iter().any(|t| t.start < p && p < t.end);
    let incom = d.laid.coms.iter().any(|t| t.start < p && p < t.end);
    cx.fault(if inside {
        "cut_inside_a_token"
    } else if incom {
        "cut_inside_a_comment"
    } else {
        "cut_between_tokens"
    });
    if !open.is_empty() {
        cx.probe("cut_with_open_bracket");
    }
    if n > 0 {
        cx.probe("items_before_the_cut");
    }
    prefix_ok(&d, &evs, n, c.ctor == 1 || c.ctor == 2)?;
    if let Some(site) = shape(&evs)? {
        return tokenizer_panic("C05", text, &site, cx);
    }
    if !matches!(evs.last(), Some(Ev::End)) && first_err(&evs).is_none() {
        return viol("no-end", show(&evs));
    }
    if !c.tolerant && !open.is_empty() && first_err(&evs).is_none() {
        return viol("open-bracket-accepted", format!("{:?} left open, yet: {}", open, show(&evs)));
    }
    Ok(())
}

// ================================================================ C06 damage
fn draw_damaged(r: &mut Rng, prop: &str, maxd: u64) -> Scn {
    let mut s = Scn::new(prop);
    let module = r.chance(1, 3);
    let n = 1 + r.below(4) as usize;
    let mut l = Lay::draw(r, !module);
    if r.chance(1, 2) {
        l.coms /= 4;
    }
    draw_doc(r, &mut s, n, module, Some(l));
    let d = doc::build(&s.docs[0]);
    let k = 1 + r.below(maxd);
    let rows = (0..k).map(|_| damage::row(r, &d)).collect();
    s.lists.insert("dmg".into(), rows);
    s.set("tolerant", r.chance(1, 4) as i64);
    s.set("ctor", r.below(4) as i64);
    s
}
fn draw_c06(r: &mut Rng) -> Scn {
    let k = *r.pick(&[1, 1, 2, 4]);
    let mut s = draw_damaged(r, "C06", k);
    if r.chance(1, 3) {
        s.set("mark", 1 + r.below(64) as i64);
        s.set("beyond", r.below(1 << 40) as i64);
        s.set("tolerant", r.chance(1, 3) as i64);
    }
    s
}
/// Nothing the tokenizer has not come to yet may count: answer by answer, the text two tokens beyond what has been
/// read can be anything.
fn run_c06_beyond(s: &Scn, d: &Doc, text: &str, c: Cfg, cx: &mut Cx) -> Result<(), Viol> {
    let (toks, _) = model::leaves::scan(text);
    begin(text.len());
    let mut w = Watch::new(text, c);
    let mut marks = vec![(w.evs.len(), sim::st().tok)];
    let mut n = 0;
    while w.pull() && n < cap(text) {
        marks.push((w.evs.len(), sim::st().tok));
        n += 1;
    }
    cx.ev(&w.evs);
    // the last answers that could still be followed by something
    let open: Vec<&(usize, u64)> = marks.iter().filter(|m| m.1 as usize + 2 < toks.len() && w.evs[..m.0].iter().all(|e| !matches!(e, Ev::Panic(_)))).collect();
    if open.is_empty() {
        return Ok(());
    }
    let &&(k, read) = &open[open.len() - 1 - (s.u("mark") as usize - 1).min(open.len() - 1) % 3];
    let at = toks[read as usize + 2].2;
    let mut r = Rng::new(s.u("beyond"));
    let tail = match r.below(8) {
        0 => String::new(),
        1 => soup(r.below(1 << 40), 1 + r.below(30), d),
        2 => text[at..].split_inclusive(' ').rev().collect::<String>(),
        3 => ["{", "(", "[", "}", ")", "]", "`", "'", "/*", "//", "\\", "#"][r.below(12) as usize].repeat(1 + r.below(40) as usize),
        4 => "\r\n\u{2028}".repeat(1 + r.below(60) as usize),
        5 => text[at..].chars().filter(|c| !"{}()[]".contains(*c)).collect(),
        6 => format!("{}{}", &text[at..], text),
        _ => "\u{e9} 日本 ".repeat(1 + r.below(30) as usize),
    };
    let other = format!("{}{}", &text[..at], tail);
    cx.text("with another end", &other);
    // the tokenizer alone, which seeks the end of `<!--` or `/*`, has to read the same tokens so far
    let (others, _) = model::leaves::scan(&other);
    let seen = read as usize + 2;
    if others.len() < seen || others[..seen] != toks[..seen] {
        return Ok(());
    }
    cx.fault("end_exchanged_beyond_what_was_read");
    cx.nontrivial = true;
    begin(other.len());
    let mut v = Watch::new(&other, c);
    n = 0;
    while v.evs.len() < k && v.pull() && n < cap(text) {
        n += 1;
    }
    cx.ev(&v.evs);
    if v.evs.len() < k || v.evs[..k] != w.evs[..k] {
        return viol("end-has-influence", format!("{} tokens were read and {} answers given: {}\n   with another end from byte {} on: {}", read, k, show(&w.evs[..k]), at, show(&v.evs)));
    }
    Ok(())
}
fn damaged(s: &Scn, d: &Doc, cx: &mut Cx) -> (String, usize) {
    let (t, p, kinds) = damage::apply(d, s.list("dmg"));
    for k in &kinds {
        cx.fault(&format!("text_{}", k));
    }
    cx.text("source", &t);
    if cx.describe {
        cx.texts.push(("undamaged source".into(), d.text().to_string()));
    }
    (t, p)
}
fn run_c06(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    let d = s.doc(0);
    let (text, p) = damaged(s, &d, cx);
    let c = cfg(d.module, s.flag("tolerant"), s.n("ctor") as u32);
    if s.flag("mark") {
        return run_c06_beyond(s, &d, &text, c, cx);
    }
    begin(text.len());
    let evs = observe(&text, c, cap(&text));
    cx.ev(&evs);
    let n = if p == usize::MAX { d.items.len() } else { damage::intact(&d, p, false) };
    cx.nontrivial = p != usize::MAX && text.len() > 4;
    if n > 0 && p != usize::MAX {
        cx.probe("items_before_the_damage");
    }
    cx.probe(if first_err(&evs).is_some() { "damage_rejected" } else { "damage_accepted" });
    prefix_ok(&d, &evs, n, c.ctor == 1 || c.ctor == 2)?;
    if let Some(site) = shape(&evs)? {
        return tokenizer_panic("C06", &text, &site, cx);
    }
    if !matches!(evs.last(), Some(Ev::End)) && first_err(&evs).is_none() {
        return viol("no-end", show(&evs));
    }
    Ok(())
}

// ================================================================ C07 liveness
fn draw_c07(r: &mut Rng) -> Scn {
    let k = *r.pick(&[1, 2, 8, 20]);
    let mut s = draw_damaged(r, "C07", k);
    if r.chance(1, 4) {
        s.lists.insert("dmg".into(), vec![]);
    }
    if r.chance(1, 3) {
        // no program at all: junk
        s.set("soup", 1 + r.below(1 << 40) as i64);
        s.set("souplen", 1 + r.below(40) as i64);
    }
    s.set("via", r.below(7) as i64);
    s.set("jumps", r.below(1 << 40) as i64);
    s.set("how", r.below(4) as i64);
    let k = *r.pick(&[4, 4, 4, 4, 4, 40, 300, 3000]);
    s.set("after", k);
    s
}
fn soup(seed: u64, len: u64, d: &Doc) -> String {
    if seed % 4 == 3 {
        // one shape repeated
        return family(seed >> 2, len % 16);
    }
    let mut r = Rng::new(seed);
    let mut t = String::new();
    let plain = r.chance(1, 2);
    for _ in 0..len % 64 {
        match r.below(if plain { 6 } else { 10 }) {
            0..=3 => t.push_str(r.pick(damage::JUNK)),
            4 | 5 => {
                if !d.laid.toks.is_empty() {
                    let k = r.pick(&d.laid.toks);
                    t.push_str(&d.text()[k.start..k.end]);
                }
            }
            6 => t.push(char::from_u32(r.below(0x250) as u32).unwrap_or(' ')),
            7 => t.push(*r.pick(&['\u{2028}', '\u{2029}', '\u{feff}', '\u{200d}', '\u{3000}', '😀', '\u{e9}', '\r', '\n'])),
            8 => t.push((0x20 + r.below(0x5f) as u8) as char),
            _ => t.push_str(r.pick(damage::JUNK)),
        }
        if r.chance(2, 3) {
            t.push(' ');
        }
    }
    t
}
fn run_c07(s: &Scn, cx: &mut Cx) -> Result<(), Viol> {
    let d = s.doc(0);
    let text = if s.flag("soup") {
        cx.fault("text_soup");
        let t = soup(s.u("soup"), s.u("souplen"), &d);
        cx.text("source", &t);
        t
    } else {
        damaged(s, &d, cx).0
    };
    let (toks, whole) = model::leaves::scan(&text);
    begin(text.len() * if s.u("via") % 7 >= 3 { 2 } else { 1 });
    cx.nontrivial = toks.len() > 2;
    let c = cfg(d.module, s.flag("tolerant"), s.n("ctor") as u32);
    let mut w = Watch::new(&text, c);
    let via = s.u("via") % 7;
    let limit = toks.len() + 4;
    let after = s.u("after").clamp(4, 5000);
    if after > 4 {
        cx.fault("many_pulls_after_the_end");
    }
    if via == 3 && w.p.is_some() {
        // parse() first, then pulls
        let p = w.p.as_mut().unwrap();
        match sim::guard(|| p.rest().map(|_| ()).map_err(|e| err_info(&e))) {
            Ok(r) => {
                cx.fault("parse_then_pull");
                let e = observe(&text, Cfg { ctor: 0, ..c }, limit + 1);
                if panic_of(&e).is_none() && first_err(&e) != r.as_ref().err() {
                    return viol("entry-points-disagree", format!("parse gave {:?}\n   but pulling gives {}", r, show(&e)));
                }
                for k in 0..after {
                    match sim::guard(|| p.pull().map(|x| x.map_err(|e| err_info(&e)))) {
                        Ok(None) => {}
                        Ok(Some(x)) => return viol("something-after-the-end", format!("parse gave {:?}, pull {} after it gave {:?}", r, k, x)),
                        Err(Panic::Tokenizer(a, b)) => return tokenizer_panic("C07", &text, &(a, b), cx),
                        Err(e) => return viol("panic", e.show()),
                    }
                }
                return Ok(());
            }
            Err(Panic::Tokenizer(a, b)) => return tokenizer_panic("C07", &text, &(a, b), cx),
            Err(Panic::Budget) => return viol("no-progress", "parse did not end"),
            Err(e) => return viol("panic", e.show()),
        }
    }
    if via == 4 && w.p.is_some() {
        // expression by expression, then the rest
        cx.fault("parse_expression_on_any_text");
        let p = w.p.as_mut().unwrap();
        let (mut errs, mut n) = (0, 0);
        loop {
            n += 1;
            if n > limit {
                return viol("too-many-pulls", format!("{} calls of parse_expression for {} tokens", n, toks.len()));
            }
            match sim::guard(|| p.expr().map(|_| ()).map_err(|e| err_info(&e))) {
                Ok(Ok(())) => {}
                Ok(Err(_)) => {
                    errs += 1;
                    if errs > 1 {
                        break;
                    }
                }
                Err(Panic::Tokenizer(a, b)) => return tokenizer_panic("C07", &text, &(a, b), cx),
                Err(Panic::Budget) => return viol("no-progress", "parse_expression did not end"),
                Err(e) => return viol("panic", e.show()),
            }
        }
        let (mut n, mut ends) = (0, 0);
        while ends < after {
            n += 1;
            if n > limit + after as usize {
                return viol("too-many-pulls", format!("{} pulls after parse_expression for {} tokens", n, toks.len()));
            }
            match sim::guard(|| p.pull().map(|x| x.map(|_| ()).map_err(|e| err_info(&e)))) {
                Ok(Some(_)) if ends > 0 => return viol("something-after-the-end", "an item or an error after the end"),
                Ok(Some(_)) => {}
                Ok(None) => ends += 1,
                Err(Panic::Tokenizer(a, b)) => return tokenizer_panic("C07", &text, &(a, b), cx),
                Err(Panic::Budget) => return viol("no-progress", "a pull after parse_expression did not end"),
                Err(e) => return viol("panic", e.show()),
            }
        }
        return Ok(());
    }
    if via == 5 && w.p.is_some() {
        // through methods that take the parser itself
        cx.fault("collected");
        let e = observe(&text, Cfg { ctor: 0, ..c }, limit + 1);
        if panic_of(&e).is_none() && e.last() == Some(&Ev::End) {
            let p = w.p.take().unwrap();
            let due: Vec<&Ev> = e.iter().filter(|e| matches!(e, Ev::Item(_) | Ev::Err(_))).collect();
            let how = s.u("how") % 4;
            let r = sim::guard(|| match how {
                0 => Err(p.into_count()),
                1 => Ok(p.into_last().into_iter().collect()),
                2 => Ok(p.into_fold()),
                _ => Ok(p.into_loop()),
            });
            match r {
                Ok(Err(n)) if n == due.len() => {}
                Ok(Ok(v)) => {
                    let v: Vec<Ev> = v
                        .into_iter()
                        .map(|x| match x {
                            Ok(i) => Ev::Item(i),
                            Err(e) => Ev::Err(err_info(&e)),
                        })
                        .collect();
                    let from = if how == 1 { due.len().saturating_sub(1) } else { 0 };
                    if v.iter().collect::<Vec<_>>() != due[from..] {
                        return viol("entry-points-disagree", format!("collecting gave {}\n   but pulling gives {}", show(&v), show(&e)));
                    }
                }
                Ok(Err(n)) => return viol("entry-points-disagree", format!("count() gave {}\n   but pulling gives {}", n, show(&e))),
                Err(Panic::Tokenizer(a, b)) => return tokenizer_panic("C07", &text, &(a, b), cx),
                Err(Panic::Budget) => return viol("no-progress", "collecting did not end"),
                Err(e) => return viol("panic", e.show()),
            }
            return Ok(());
        }
    }
    if via == 6 && w.p.is_some() {
        // through the methods every iterator has, over items, the error and the end alike
        cx.fault("jumped_through");
        let e = observe(&text, Cfg { ctor: 0, ..c }, limit + 1);
        if panic_of(&e).is_none() && e.last() == Some(&Ev::End) {
            let due: Vec<&Ev> = e.iter().filter(|e| matches!(e, Ev::Item(_) | Ev::Err(_))).collect();
            let p = w.p.as_mut().unwrap();
            let mut r = Rng::new(s.u("jumps"));
            let mut at = 0;
            let mut ended = 0;
            while ended < 4 {
                let (how, n, m) = (r.below(5), r.below(5) as usize, 1 + r.below(4) as usize);
                let got = sim::guard(|| match how {
                    0 => p.nth_n(n).into_iter().collect(),
                    1 => p.skip_take(n, m),
                    2 => p.step_take(n + 1, m),
                    3 => p.take_n(m),
                    _ => {
                        let (some, x) = p.peeked();
                        if some != x.is_some() {
                            return vec![];
                        }
                        x.into_iter().collect::<Vec<_>>()
                    }
                });
                let from = at.min(due.len());
                let take = |k: usize| due[from..].iter().take(k).cloned().collect::<Vec<_>>();
                let exp = match how {
                    0 => due.get(from + n).cloned().into_iter().collect::<Vec<_>>(),
                    1 => due[from..].iter().skip(n).take(m).cloned().collect(),
                    2 => due[from..].iter().step_by(n + 1).take(m).cloned().collect(),
                    3 => take(m),
                    _ => take(1),
                };
                at = from
                    + match how {
                        0 => n + 1,
                        1 => n + m,
                        2 => (n + 1) * (m - 1) + 1,
                        3 => m,
                        _ => 1,
                    };
                let got: Vec<Ev> = match got {
                    Ok(v) => v
                        .into_iter()
                        .map(|x| match x {
                            Ok(i) => Ev::Item(i),
                            Err(e) => Ev::Err(err_info(&e)),
                        })
                        .collect(),
                    Err(Panic::Tokenizer(a, b)) => return tokenizer_panic("C07", &text, &(a, b), cx),
                    Err(Panic::Budget) => return viol("no-progress", "jumping did not end"),
                    Err(e) => return viol("panic", e.show()),
                };
                if got.iter().collect::<Vec<_>>() != exp {
                    return viol("entry-points-disagree", format!("method {} ({}, {}) at {} gave {}\n   but pulling gives {}", how, n, m, from, show(&got), show(&e)));
                }
                if at >= due.len() {
                    ended += 1;
                }
            }
            return Ok(());
        }
    }
    let mut n = 0;
    while w.pull() {
        n += 1;
        if n > limit {
            return viol("too-many-pulls", format!("{} pulls for {} tokens (all tokens known: {}): {}", n, toks.len(), whole, show(&w.evs[w.evs.len() - 3..])));
        }
    }
    cx.ev(&w.evs);
    if let Some(site) = shape(&w.evs)? {
        return tokenizer_panic("C07", &text, &site, cx);
    }
    if first_err(&w.evs).is_some() {
        cx.probe("ended_by_error");
    } else {
        cx.probe("ended_without_error");
    }
    // the end is final, whichever way it is asked for
    if let Some(p) = w.p.as_mut() {
        for k in 0..after {
            let r = sim::guard(|| match (via, k) {
                (1, 0) => match p.rest() {
                    Ok(Program::Mod(v)) | Ok(Program::Script(v)) if v.is_empty() => None,
                    other => Some(format!("{:?}", other)),
                },
                (2, 0) => {
                    let v = p.take_n(3);
                    if v.is_empty() {
                        None
                    } else {
                        Some(format!("{:?}", v))
                    }
                }
                _ => p.pull().map(|x| format!("{:?}", x)),
            });
            match r {
                Ok(None) => {}
                Ok(Some(x)) => return viol("something-after-the-end", format!("{} after {}", x, show(&w.evs))),
                Err(Panic::Tokenizer(a, b)) => return viol("tokenizer-panic-after-end", format!("{} {}", a, b)),
                Err(e) => return viol("panic", e.show()),
            }
        }
    }
    Ok(())
}
include!("props2.rs");
