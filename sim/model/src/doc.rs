//! Documents: tapes in, text plus expected items, comments and token places out.
use crate::gen::{self, Item, Tok, TopState, G};
use crate::layout::{self, Laid, Lay};
use crate::rng::{Rng, Tape};

#[derive(Clone, Debug, PartialEq)]
pub struct DocSpec {
    pub module: bool,
    pub mask: u32,
    pub items: Vec<Vec<u32>>,
    pub lay: Lay,
    pub ltape: Vec<u32>,
}
#[derive(Clone, Debug)]
pub struct Doc {
    pub module: bool,
    pub toks: Vec<Tok>,
    pub items: Vec<Item>,
    pub laid: Laid,
    pub commas: Vec<usize>,
    pub faults: Vec<(usize, &'static str)>,
}
impl Doc {
    pub fn text(&self) -> &str {
        &self.laid.text
    }
}
fn lay_seeded(toks: &[Tok], items: &[Item], l: &Lay, seed: u64) -> (Laid, Vec<u32>) {
    let mut t = Tape::record(seed);
    let laid = layout::lay(toks, items, l, &mut t);
    (laid, t.vals)
}
/// Draw a document.
pub fn draw(r: &mut Rng, module: bool, mask: u32, nitems: usize, l: Lay) -> (DocSpec, Doc) {
    let mut g = G::new(Tape::record(r.next()), module, mask);
    let mut st = TopState { prologue: true, strict: module, has_default: false };
    let mut tapes = vec![];
    let mut items = vec![];
    for _ in 0..nitems {
        g.t = Tape::record(r.next());
        items.push(g.item(&mut st));
        tapes.push(std::mem::replace(&mut g.t, Tape::replay(&[])).vals);
    }
    let (laid, ltape) = lay_seeded(&g.toks, &items, &l, r.next());
    let spec = DocSpec { module, mask, items: tapes, lay: l, ltape };
    let (commas, faults) = (g.commas.clone(), g.faults.clone());
    (spec, Doc { module, toks: g.toks, items, laid, commas, faults })
}
pub fn build(s: &DocSpec) -> Doc {
    let mut g = G::new(Tape::replay(&[]), s.module, s.mask);
    let mut st = TopState { prologue: true, strict: s.module, has_default: false };
    let mut items = vec![];
    for t in &s.items {
        g.t = Tape::replay(t);
        items.push(g.item(&mut st));
    }
    let mut t = Tape::replay(&s.ltape);
    let laid = layout::lay(&g.toks, &items, &s.lay, &mut t);
    Doc { module: s.module, toks: g.toks, items, laid, commas: g.commas, faults: g.faults }
}
pub fn mask(r: &mut Rng) -> u32 {
    let m = if r.chance(1, 3) {
        gen::F_ALL
    } else {
        // swarm: every feature group is off half of the time
        (r.next() as u32) & gen::F_ALL
    };
    // and some programs lean towards a few constructs
    m | if r.chance(1, 2) { (r.next() as u32) & 0x7fff_0000 } else { 0 }
}
