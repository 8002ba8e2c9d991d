//! Lays a token sequence out as text: white space, line terminators of every style, comments,
//! omitted semicolons. Decides only where the language leaves it free.
use crate::gen::{Item, Tok, K};
use crate::rng::Tape;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CK {
    Single,
    Multi,
    Html,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Com {
    pub start: usize,
    pub end: usize,
    pub kind: CK,
    /// index of the (present) token it precedes; == toks.len() at the end of the text
    pub before: usize,
}
/// A token that is present in the text.
#[derive(Clone, Debug)]
pub struct PTok {
    pub start: usize,
    pub end: usize,
    pub k: K,
    pub src: usize, // index into the generator's tokens
}
#[derive(Clone, Debug)]
pub struct PItem {
    pub first: usize, // present token index
    pub last: usize,  // one past
    pub start: usize, // byte
    pub end: usize,
}
#[derive(Clone, Debug)]
pub struct Laid {
    pub text: String,
    pub toks: Vec<PTok>,
    pub coms: Vec<Com>,
    pub items: Vec<PItem>,
}
/// How a document is laid out.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Lay {
    /// 0 LF, 1 CRLF, 2 CR, 3 mixed including U+2028/9, 4 U+2028
    pub nl: u32,
    /// comments per 256 gaps
    pub coms: u32,
    /// line breaks per 256 gaps
    pub brk: u32,
    /// omit semicolons, per 256
    pub asi: u32,
    /// tight joins, per 256
    pub tight: u32,
    pub html: bool,
    pub uni: bool,
    /// 0 no, 1 a few hundred at a time, 2 once tens of thousands
    pub huge: u32,
}
pub const PLAIN: Lay = Lay { nl: 0, coms: 0, brk: 0, asi: 0, tight: 0, html: false, uni: false, huge: 0 };

impl Lay {
    pub fn draw(r: &mut crate::rng::Rng, html: bool) -> Lay {
        Lay {
            nl: *r.pick(&[0, 0, 0, 1, 1, 2, 3, 3, 4]),
            coms: *r.pick(&[0, 8, 40, 100]),
            brk: *r.pick(&[4, 20, 80]),
            asi: *r.pick(&[0, 80, 128, 230]),
            tight: *r.pick(&[0, 100, 220]),
            html: html && r.chance(1, 3),
            uni: r.chance(2, 3),
            huge: if r.chance(1, 400) { 2 } else { r.chance(1, 16) as u32 },
        }
    }
    pub fn to_ints(&self) -> Vec<u32> {
        vec![self.nl, self.coms, self.brk, self.asi, self.tight, self.html as u32, self.uni as u32, self.huge]
    }
    pub fn from_ints(v: &[u32]) -> Lay {
        let g = |i: usize| v.get(i).cloned().unwrap_or(0);
        Lay { nl: g(0), coms: g(1).min(256), brk: g(2).min(256), asi: g(3).min(256), tight: g(4).min(256), html: g(5) != 0, uni: g(6) != 0, huge: g(7).min(2) }
    }
}
fn newline(t: &mut Tape, l: &Lay, out: &mut String) {
    match l.nl {
        0 => out.push('\n'),
        1 => out.push_str("\r\n"),
        2 => out.push('\r'),
        4 => out.push('\u{2028}'),
        _ => out.push_str(["\n", "\r\n", "\r", "\u{2028}", "\u{2029}", "\n\r"][t.choose(6)]),
    }
}
const COM_TXT: &[&str] = &["c", " note ", "", " 'q", " \"", " `${", " x = 1; ", " /re/ ", "{", ")", " function f( ", "#", " -- ", "\\", " <! "];
const COM_UNI: &[&str] = &[" é ", "日本", " 😀 ", "ñ"];
fn com_text(t: &mut Tape, l: &Lay, out: &mut String) {
    let n = t.choose(COM_TXT.len() + 8);
    if n >= COM_TXT.len() + 4 {
        // several words, seldom many
        let k = if t.choose(16) == 15 { 20 + t.choose(300) } else { t.choose(6) };
        for _ in 0..k {
            out.push_str(["a", " ", "-", "x y", "//", "\t", "/ ", "'", "`", "1", "{", "* ", "<!--", "()", ";", "é"][t.choose(if l.uni { 16 } else { 15 })]);
        }
        // what it ends with must not end it, or be taken for its end
        out.push('.');
    } else if n < COM_TXT.len() {
        out.push_str(COM_TXT[n])
    } else if l.uni {
        out.push_str(COM_UNI[n - COM_TXT.len()])
    } else {
        out.push_str("k")
    }
}
fn wordish(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c == '$' || c == '\\' || (c as u32) > 0x7f
}
/// may these two tokens touch?
fn touch(a: &Tok, b: &Tok) -> bool {
    let la = a.s.chars().last().unwrap();
    let fb = b.s.chars().next().unwrap();
    match (a.k, b.k) {
        (K::Tpl, K::Tpl) | (K::Tpl, K::TplOpen) => true,
        (K::TplOpen, _) => fb != '}' || b.k != K::Punct,
        (K::Regex, _) => b.k == K::Semi || (b.k == K::Punct && matches!(fb, ')' | ']' | '}' | ',' | ';')),
        (K::Num, K::Word) => false,
        (K::Num, K::Punct) => matches!(fb, ')' | ']' | '}' | ',' | ';' | ':' | '?'),
        (_, K::Regex) => a.k == K::Punct && matches!(la, '(' | '[' | ',' | '='),
        (K::Punct, K::Punct) | (K::Punct, K::Semi) | (K::Semi, K::Punct) => matches!(la, '(' | '[' | '{' | ';' | ',') || matches!(fb, ')' | ']' | '}' | ',' | ';'),
        (K::Punct, _) | (K::Semi, _) => !(la == '.' && fb.is_ascii_digit()) && !(la == '/' ) && !(fb == '.'),
        (_, K::Punct) | (_, K::Semi) => fb != '.' || a.k != K::Num,
        (K::Str, _) | (_, K::Str) | (_, K::Tpl) | (_, K::TplOpen) | (K::Tpl, _) => !(a.k == K::Num),
        _ => !(wordish(la) && wordish(fb)),
    }
}
/// is it safe to leave out a semicolon when this token comes on the next line?
fn starts_fresh(t: &Tok) -> bool {
    match t.k {
        K::Word => !matches!(t.s.as_str(), "in" | "instanceof" | "of" | "from"),
        K::Num | K::Str => true,
        K::Punct => matches!(t.s.as_str(), "{" | "!" | "~" | "++" | "--" | "}"),
        _ => false,
    }
}
struct W<'a> {
    text: String,
    coms: Vec<Com>,
    l: &'a Lay,
    vast: bool,
}
impl<'a> W<'a> {
    /// a comment must not fuse with the operator before it
    fn guard(&mut self) {
        if self.text.ends_with('/') || self.text.ends_with('<') {
            self.text.push(' ');
        }
    }
    /// white space or comments that contain no line terminator
    fn inline(&mut self, t: &mut Tape, before: usize) {
        if (t.choose(256) as u32) >= 256 - self.l.coms {
            self.guard();
            let start = self.text.len();
            self.text.push_str("/*");
            com_text(t, self.l, &mut self.text);
            self.text.push_str("*/");
            self.coms.push(Com { start, end: self.text.len(), kind: CK::Multi, before });
        } else {
            let n = t.choose(8);
            self.text.push_str(match n {
                5 => "\t",
                6 => "  ",
                7 if self.l.uni => ["\u{a0}", "\u{b}", "\u{c}", "\u{feff}", "\u{2003}", "\u{3000}", "\u{1680}", "\u{202f}", "\u{2009}", "\u{205f}"][t.choose(10)],
                _ => " ",
            });
        }
    }
    /// something that contains a line terminator
    fn breaking(&mut self, t: &mut Tape, before: usize) {
        if (t.choose(256) as u32) >= 256 - self.l.coms {
            self.guard();
            let start = self.text.len();
            let k = t.choose(4);
            let kind = match k {
                0 | 1 => {
                    self.text.push_str("//");
                    com_text(t, self.l, &mut self.text);
                    CK::Single
                }
                2 if self.l.html => {
                    self.text.push_str("<!--");
                    com_text(t, self.l, &mut self.text);
                    self.text.push_str("-->");
                    if t.choose(2) == 1 {
                        self.text.push_str(" tail");
                    }
                    CK::Html
                }
                _ => {
                    self.text.push_str("/*");
                    com_text(t, self.l, &mut self.text);
                    newline(t, self.l, &mut self.text);
                    com_text(t, self.l, &mut self.text);
                    self.text.push_str("*/");
                    CK::Multi
                }
            };
            self.coms.push(Com { start, end: self.text.len(), kind, before });
            if kind != CK::Multi {
                newline(t, self.l, &mut self.text);
            }
        } else {
            newline(t, self.l, &mut self.text);
            if t.choose(4) == 3 {
                self.text.push_str("  ");
            }
        }
    }
    fn gap(&mut self, t: &mut Tape, before: usize, nonl: bool, must_nl: bool, may_touch: bool) {
        if may_touch && !must_nl && (t.choose(256) as u32) >= 256 - self.l.tight {
            return;
        }
        let mut n = 1 + [0, 0, 0, 0, 0, 1, 1, 2][t.choose(8)];
        let mut nl = false;
        let vast = self.l.huge == 2 && !self.vast && t.choose(8) == 7;
        if vast || self.l.huge == 1 && t.choose(24) == 23 {
            // a long line, many lines, or many comments
            let k = if vast { 60_000 + t.choose(12_000) } else { [60 + t.choose(400), 400 + t.choose(2_600)][(t.choose(4) == 3) as usize] };
            self.vast |= vast;
            match t.choose(4) {
                3 => {
                    // one comment, very long
                    self.guard();
                    let start = self.text.len();
                    self.text.push_str("/*");
                    (0..k).for_each(|_| self.text.push('*'));
                    self.text.push_str("*/");
                    self.coms.push(Com { start, end: self.text.len(), kind: CK::Multi, before });
                }
                1 if !nonl => (0..k).for_each(|_| newline(t, self.l, &mut self.text)),
                2 => {
                    self.guard();
                    for _ in 0..k / 8 {
                        let start = self.text.len();
                        self.text.push_str("/**/");
                        self.coms.push(Com { start, end: self.text.len(), kind: CK::Multi, before });
                    }
                }
                _ => (0..k).for_each(|_| self.text.push(' ')),
            }
        }
        while n > 0 {
            n -= 1;
            let brk = !nonl && ((must_nl && !nl && n == 0) || (t.choose(256) as u32) >= 256 - self.l.brk);
            if brk {
                self.breaking(t, before);
                nl = true;
            } else {
                self.inline(t, before);
            }
        }
    }
}
pub fn lay(toks: &[Tok], items: &[Item], l: &Lay, t: &mut Tape) -> Laid {
    let mut w = W { text: String::new(), coms: vec![], l, vast: false };
    let mut out: Vec<PTok> = vec![];
    let mut first_of = vec![usize::MAX; toks.len() + 1];
    // leading gap
    if t.choose(4) == 3 {
        w.gap(t, 0, false, false, true);
    }
    let mut must_nl = false;
    let mut prev: Option<usize> = None;
    for (i, tk) in toks.iter().enumerate() {
        if tk.k == K::Semi && (t.choose(256) as u32) >= 256 - l.asi {
            let nx = toks.get(i + 1);
            match nx {
                None => {
                    first_of[i] = out.len();
                    continue;
                }
                Some(n) if n.s == "}" && n.k == K::Punct => {
                    first_of[i] = out.len();
                    continue;
                }
                Some(n) if starts_fresh(n) && !n.nonl => {
                    // also the next token may itself be an omitted terminator only if it is `;`
                    must_nl = true;
                    first_of[i] = out.len();
                    continue;
                }
                _ => {}
            }
        }
        if let Some(p) = prev {
            let at_item = items.iter().any(|it| it.start == i);
            let may = touch(&toks[p], tk) && !(must_nl);
            let mut nonl = tk.nonl;
            if must_nl && tk.k == K::Semi {
                nonl = false;
            }
            if at_item && !must_nl && t.choose(3) > 0 {
                // items usually begin on a line of their own
                w.breaking(t, out.len());
                if t.choose(4) == 3 {
                    w.gap(t, out.len(), false, false, true);
                }
            } else {
                w.gap(t, out.len(), nonl, must_nl, may);
            }
        }
        must_nl = false;
        first_of[i] = out.len();
        let start = w.text.len();
        w.text.push_str(&tk.s);
        out.push(PTok { start, end: w.text.len(), k: tk.k, src: i });
        prev = Some(i);
    }
    first_of[toks.len()] = out.len();
    if t.choose(3) > 0 {
        w.gap(t, out.len(), false, false, true);
    }
    let mut pi = vec![];
    for it in items {
        let first = first_of[it.start];
        let last = first_of[it.end];
        let (start, end) = if last > first { (out[first].start, out[last - 1].end) } else { (0, 0) };
        pi.push(PItem { first, last, start, end });
    }
    Laid { text: w.text, toks: out, coms: w.coms, items: pi }
}
/// Reference line and column of a byte offset: lines end at LF, CR, CRLF, U+2028 and U+2029 wherever
/// they stand; the column is a byte offset.
pub fn position(text: &str, at: usize) -> (usize, usize) {
    let b = text.as_bytes();
    let (mut line, mut start, mut i) = (1, 0, 0);
    while i < at {
        let w = if b[i] == b'\r' && b.get(i + 1) == Some(&b'\n') {
            2
        } else if b[i] == b'\n' || b[i] == b'\r' {
            1
        } else if text[i..].starts_with('\u{2028}') || text[i..].starts_with('\u{2029}') {
            3
        } else {
            i += 1;
            while i < b.len() && (b[i] & 0xC0) == 0x80 {
                i += 1;
            }
            continue;
        };
        if i + w > at {
            break;
        }
        i += w;
        line += 1;
        start = i;
    }
    (line, at - start)
}
