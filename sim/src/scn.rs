//! A scenario: everything one simulated run depends on, in one plain value that can be stored,
//! replayed and shrunk.
use model::doc::{self, Doc, DocSpec};
use model::json::{self, J};
use model::layout::Lay;
use std::collections::BTreeMap;

pub type Row = [i64; 4];
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Scn {
    pub prop: String,
    pub docs: Vec<DocSpec>,
    pub nums: BTreeMap<String, i64>,
    pub lists: BTreeMap<String, Vec<Row>>,
}
impl Scn {
    pub fn new(prop: &str) -> Scn {
        Scn { prop: prop.to_string(), ..Default::default() }
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.nums.insert(k.to_string(), v);
    }
    pub fn n(&self, k: &str) -> i64 {
        self.nums.get(k).cloned().unwrap_or(0)
    }
    pub fn u(&self, k: &str) -> u64 {
        self.n(k).unsigned_abs()
    }
    pub fn flag(&self, k: &str) -> bool {
        self.n(k) != 0
    }
    pub fn list(&self, k: &str) -> &[Row] {
        self.lists.get(k).map(|v| &v[..]).unwrap_or(&[])
    }
    pub fn doc(&self, i: usize) -> Doc {
        doc::build(&self.docs[i])
    }
    pub fn to_json(&self) -> J {
        let mut o = J::obj();
        o.set("prop", json::s(&self.prop));
        let ints = |v: &[u32]| J::Arr(v.iter().map(|x| J::Int(*x as i64)).collect());
        o.set(
            "docs",
            J::Arr(
                self.docs
                    .iter()
                    .map(|d| {
                        let mut o = J::obj();
                        o.set("module", J::Bool(d.module));
                        o.set("mask", json::n(d.mask as u64));
                        o.set("items", J::Arr(d.items.iter().map(|i| ints(i)).collect()));
                        o.set("lay", ints(&d.lay.to_ints()));
                        o.set("ltape", ints(&d.ltape));
                        o
                    })
                    .collect(),
            ),
        );
        let mut n = J::obj();
        for (k, v) in &self.nums {
            n.set(k, J::Int(*v));
        }
        o.set("nums", n);
        let mut l = J::obj();
        for (k, v) in &self.lists {
            l.set(k, J::Arr(v.iter().map(|r| J::Arr(r.iter().map(|x| J::Int(*x as i64)).collect())).collect()));
        }
        o.set("lists", l);
        o
    }
    pub fn from_json(j: &J) -> Scn {
        let ints = |j: &J| j.arr().iter().map(|x| x.u() as u32).collect::<Vec<_>>();
        let mut s = Scn::new(j.get("prop").st());
        for d in j.get("docs").arr() {
            s.docs.push(DocSpec {
                module: d.get("module").b(),
                mask: d.get("mask").u() as u32,
                items: d.get("items").arr().iter().map(ints).collect(),
                lay: Lay::from_ints(&ints(d.get("lay"))),
                ltape: ints(d.get("ltape")),
            });
        }
        if let J::Obj(o) = j.get("nums") {
            for (k, v) in o {
                s.set(k, num(v));
            }
        }
        if let J::Obj(o) = j.get("lists") {
            for (k, v) in o {
                let rows = v
                    .arr()
                    .iter()
                    .map(|r| {
                        let mut x = [0i64; 4];
                        for (i, v) in r.arr().iter().enumerate().take(4) {
                            x[i] = num(v);
                        }
                        x
                    })
                    .collect();
                s.lists.insert(k.clone(), rows);
            }
        }
        s
    }
    /// how big it is, for the minimiser
    pub fn weight(&self) -> u64 {
        let mut w = 0u64;
        for d in &self.docs {
            w += 50;
            for i in &d.items {
                w += 200 + i.iter().map(|x| 3 + (*x != 0) as u64 * 2 + (*x as u64).min(300) / 50).sum::<u64>();
            }
            w += d.ltape.len() as u64 + d.ltape.iter().filter(|x| **x != 0).count() as u64;
            w += d.lay.to_ints().iter().map(|x| (*x != 0) as u64 * 30).sum::<u64>() + (d.mask.count_ones() as u64);
        }
        for v in self.nums.values() {
            w += (v.unsigned_abs() as f64 + 1.0).log2() as u64 + (*v != 0) as u64;
        }
        for l in self.lists.values() {
            for r in l {
                w += 20 + r.iter().map(|x| (x.unsigned_abs() as f64 + 1.0).log2() as u64).sum::<u64>();
            }
        }
        w
    }
}
fn num(j: &J) -> i64 {
    match j {
        J::Int(x) => *x,
        J::Num(x) => *x as i64,
        _ => 0,
    }
}

/// Make a failing scenario smaller while `fails` still says the same thing about it.
pub fn shrink(s: &Scn, fails: &mut dyn FnMut(&Scn) -> bool, deadline: std::time::Instant) -> (Scn, u64) {
    let mut best = s.clone();
    let mut tries = 0u64;
    macro_rules! attempt {
        ($c:expr) => {{
            let c: Scn = $c;
            if std::time::Instant::now() > deadline {
                return (best, tries);
            }
            if c != best && c.weight() <= best.weight() {
                tries += 1;
                if fails(&c) {
                    best = c;
                    true
                } else {
                    false
                }
            } else {
                false
            }
        }};
    }
    loop {
        let before = best.clone();
        // plain layout
        for d in 0..best.docs.len() {
            let mut c = best.clone();
            c.docs[d].lay = model::layout::PLAIN;
            c.docs[d].ltape.clear();
            if !attempt!(c) {
                let mut c = best.clone();
                c.docs[d].ltape.clear();
                attempt!(c);
                for k in 0..7 {
                    let mut v = best.docs[d].lay.to_ints();
                    v[k] = 0;
                    let mut c = best.clone();
                    c.docs[d].lay = Lay::from_ints(&v);
                    attempt!(c);
                }
            }
        }
        // whole items
        for d in 0..best.docs.len() {
            let mut i = 0;
            while i < best.docs[d].items.len() {
                if best.docs[d].items.len() <= 1 {
                    break;
                }
                let mut c = best.clone();
                c.docs[d].items.remove(i);
                // places that name an item move along
                let mut c2 = c.clone();
                for l in c2.lists.values_mut() {
                    for r in l.iter_mut() {
                        if r[1] > i as i64 {
                            r[1] -= 1;
                        }
                    }
                }
                if !attempt!(c) && !attempt!(c2) {
                    i += 1;
                }
            }
        }
        // list rows, in chunks
        let keys: Vec<String> = best.lists.keys().cloned().collect();
        for k in &keys {
            let mut size = best.lists[k].len();
            while size > 0 {
                let mut i = 0;
                while i < best.lists[k].len() {
                    let mut c = best.clone();
                    let l = c.lists.get_mut(k).unwrap();
                    let e = (i + size).min(l.len());
                    l.drain(i..e);
                    if !attempt!(c) {
                        i += size;
                    }
                }
                size /= 2;
            }
        }
        // item tapes
        for d in 0..best.docs.len() {
            for i in 0..best.docs[d].items.len() {
                let mut size = best.docs[d].items[i].len();
                while size > 0 {
                    // cut the tail
                    if best.docs[d].items[i].len() >= size {
                        let mut c = best.clone();
                        let n = c.docs[d].items[i].len() - size;
                        c.docs[d].items[i].truncate(n);
                        attempt!(c);
                    }
                    let mut p = 0;
                    while p < best.docs[d].items[i].len() {
                        let mut c = best.clone();
                        let t = &mut c.docs[d].items[i];
                        let e = (p + size).min(t.len());
                        t.drain(p..e);
                        if attempt!(c) {
                            continue;
                        }
                        let mut c = best.clone();
                        let t = &mut c.docs[d].items[i];
                        let e = (p + size).min(t.len());
                        for x in &mut t[p..e] {
                            *x = 0;
                        }
                        attempt!(c);
                        p += size;
                    }
                    size /= 2;
                }
                for p in 0..best.docs[d].items[i].len() {
                    for v in [0, best.docs[d].items[i][p] / 2, best.docs[d].items[i][p].saturating_sub(1)] {
                        if v < best.docs[d].items[i][p] {
                            let mut c = best.clone();
                            c.docs[d].items[i][p] = v;
                            if attempt!(c) {
                                break;
                            }
                        }
                    }
                }
            }
        }
        // layout tapes
        for d in 0..best.docs.len() {
            let mut size = best.docs[d].ltape.len();
            while size > 0 {
                if best.docs[d].ltape.len() >= size {
                    let mut c = best.clone();
                    let n = c.docs[d].ltape.len() - size;
                    c.docs[d].ltape.truncate(n);
                    attempt!(c);
                }
                let mut p = 0;
                while p < best.docs[d].ltape.len() {
                    let mut c = best.clone();
                    let e = (p + size).min(c.docs[d].ltape.len());
                    for x in &mut c.docs[d].ltape[p..e] {
                        *x = 0;
                    }
                    attempt!(c);
                    p += size;
                }
                size /= 2;
            }
        }
        // numbers
        let keys: Vec<String> = best.nums.keys().cloned().collect();
        for k in &keys {
            let v = best.nums[k];
            for x in [0, v / 2, v - v.signum()] {
                if x != v {
                    let mut c = best.clone();
                    c.nums.insert(k.clone(), x);
                    if attempt!(c) {
                        break;
                    }
                }
            }
        }
        let keys: Vec<String> = best.lists.keys().cloned().collect();
        for k in &keys {
            for r in 0..best.lists[k].len() {
                for f in 0..4 {
                    let v = best.lists[k][r][f];
                    for x in [0, v / 2, v - v.signum()] {
                        if x != v {
                            let mut c = best.clone();
                            c.lists.get_mut(k).unwrap()[r][f] = x;
                            if attempt!(c) {
                                break;
                            }
                        }
                    }
                }
            }
        }
        // documents nobody needs
        let mut d = best.docs.len();
        while d > 1 {
            d -= 1;
            let mut c = best.clone();
            c.docs.remove(d);
            attempt!(c);
        }
        if best == before {
            return (best, tries);
        }
    }
}
