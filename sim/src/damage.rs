//! Fault injection into the source text: cuts and damage, placed by item and token.
use crate::scn::Row;
use model::doc::Doc;
use model::gen::K;
use model::rng::Rng;

pub const JUNK: &[&str] = &[
    ")", "]", "}", "(", "[", "{", ";", ",", "=>", "=", "...", ".", "?", ":", "/", "`", "${", "'", "\"", "/*", "//", "*/", "<!--", "-->", "\\", "#", "@", "if", "else", "function", "class", "async", "await",
    "yield", "let", "new", "in", "of", "super", "import", "export", "default", "case", "break", "return", "0x", "1.", "++", "extends", "get", "set", "static", "*", "/a", "/=", "\u{0}", "0", "x", "''", "`t`", "for",
    "while", "var", "catch", "finally", "throw", "with", "switch", "const", "this", "null", "true", "delete", "typeof", "!", "~", "-", "+", "**", "<", ">>>", "&&", "||", "==", "instanceof", "continue", "debugger", "do",
    "try", "eval", "arguments", "from", "as", "target", "constructor", "prototype", "enum", "\u{feff}", "\u{2028}", "\r", "é", "😀", "\t", "\n", "/**/", "//c\n", "9", "08", "1e", "0b2", "a\\u0062", "'\n'", "\"use strict\"",
    "L:", "break L;", "() => 1", "{}", "[]", "({a=1})", "async () => 1", "function* g() { yield 1 }", "class A { get x() { } }", "x++", "`${a}`",
];
const CHARS: &[char] = &[' ', 'a', '0', '{', '}', '(', ')', '[', ']', ';', ',', '.', '/', '\'', '"', '`', '$', '\\', '\n', '=', '+', '*', '<', '>', '!', '#', '\u{0}', 'é', '\u{2028}', '\r', '😀', '_'];
pub const KINDS: &[&str] = &[
    "flip_char", "drop_token", "drop_bytes", "duplicate_token", "swap_tokens", "overwrite_token", "insert_junk", "drop_range", "flip_bit", "insert_char", "cut_here", "splice", "overwrite_rest", "special_word", "wrap_range", "copied_word", "foreign_statement",
];
/// words whose meaning depends on where they stand
const SPECIAL: &[&str] = &["yield", "await", "async", "let", "of", "get", "set", "static", "eval", "arguments", "super", "this", "new", "enum", "from", "as", "target", "import", "null", "in", "\\u0061b", "yi\\u0065ld"];
const WRAP: &[(&str, &str)] = &[
    ("(", ")"),
    ("[", "]"),
    ("{", "}"),
    ("(", ") => 1"),
    ("async (", ") => 1"),
    ("({", "} = 1)"),
    ("function* g() {", "}"),
    ("async function h() {", "}"),
    ("x = {*g() {", "}}"),
    ("class A { m() {", "}}"),
    ("`${", "}`"),
    ("(a = ", ") => b"),
    ("(a = yield, ", ") => b"),
    ("[", "] = c"),
    ("({a: ", "} = c)"),
    ("for (", " of c) ;"),
    ("for (", " in c) ;"),
    ("...", ""),
    ("new ", "()"),
    ("L: ", ""),
    ("yield ", ""),
    ("function f(", ") {}"),
    ("f(", ")"),
    ("var ", " = 1"),
    ("let ", " = 1"),
    ("class A extends ", " { }"),
    ("delete ", ""),
    ("", "++"),
];
pub fn row(r: &mut Rng, d: &Doc) -> Row {
    let n = d.laid.items.len().max(1) as u64;
    let op = r.below(KINDS.len() as u64 * 4) as i64;
    // cutting and overwriting the rest hide everything else, so keep them rarer
    let op = if op < KINDS.len() as i64 { op } else { [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 14, 15, 16][op as usize % 14] };
    let item = r.below(n);
    let len = d.laid.items.get(item as usize).map(|i| i.last - i.first).unwrap_or(1).max(1);
    [op, item as i64, r.below(len as u64) as i64, r.below(1 << 20) as i64]
}
/// The token a row points at.
pub fn target(d: &Doc, row: &Row) -> Option<usize> {
    let its = &d.laid.items;
    if its.is_empty() || d.laid.toks.is_empty() {
        return None;
    }
    let it = &its[row[1].unsigned_abs() as usize % its.len()];
    if it.last <= it.first {
        return None;
    }
    Some(it.first + row[2].unsigned_abs() as usize % (it.last - it.first))
}
fn floor(t: &str, mut i: usize) -> usize {
    i = i.min(t.len());
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    i
}
fn ceil(t: &str, mut i: usize) -> usize {
    i = i.min(t.len());
    while !t.is_char_boundary(i) {
        i += 1;
    }
    i
}
/// Apply the rows. Returns the text, the first damaged byte and which kinds took effect.
pub fn apply(d: &Doc, rows: &[Row]) -> (String, usize, Vec<&'static str>) {
    let t = d.text();
    let toks = &d.laid.toks;
    let mut edits: Vec<(usize, usize, String, &'static str)> = vec![];
    for r in rows {
        let k = match target(d, r) {
            Some(k) => k,
            None => continue,
        };
        let (a, b) = (toks[k].start, toks[k].end);
        let v = r[3].unsigned_abs() as usize;
        let op = r[0].unsigned_abs() as usize % KINDS.len();
        let name = KINDS[op];
        let e: (usize, usize, String) = match op {
            0 => {
                let s = floor(t, a + v % (b - a));
                let e = ceil(t, s + 1);
                (s, e, CHARS[(v >> 8) % CHARS.len()].to_string())
            }
            1 => (a, b, String::new()),
            2 => {
                let s = floor(t, a + v % (b - a));
                let e = ceil(t, s + 1 + (v >> 8) % 6);
                (s, e, String::new())
            }
            3 => (b, b, format!(" {}", &t[a..b])),
            4 => {
                if k + 1 >= toks.len() {
                    continue;
                }
                let (c, e) = (toks[k + 1].start, toks[k + 1].end);
                (a, e, format!("{}{}{}", &t[c..e], &t[b..c], &t[a..b]))
            }
            5 => (a, b, JUNK[v % JUNK.len()].to_string()),
            6 => (a, a, format!("{} ", JUNK[v % JUNK.len()])),
            7 => {
                let m = (k + 1 + v % 8).min(toks.len() - 1);
                (a, toks[m].end, String::new())
            }
            8 => {
                let s = floor(t, a + v % (b - a));
                let c = t.as_bytes()[s];
                if c >= 128 {
                    continue;
                }
                let c2 = (c ^ (1 << ((v >> 8) % 7))) & 127;
                (s, s + 1, (c2 as char).to_string())
            }
            9 => {
                let s = floor(t, a + v % (b - a + 1));
                (s, s, CHARS[(v >> 8) % CHARS.len()].to_string())
            }
            10 => (floor(t, a + v % (b - a + 1)), t.len(), String::new()),
            11 => {
                let m = (v >> 4) % toks.len();
                let e = (m + 1 + v % 6).min(toks.len()) - 1;
                (a, a, format!("{} ", &t[toks[m].start..toks[e].end]))
            }
            13 => {
                let m = match (k..toks.len()).chain(0..k).find(|m| toks[*m].k == K::Word) {
                    Some(m) => m,
                    None => continue,
                };
                (toks[m].start, toks[m].end, SPECIAL[v % SPECIAL.len()].to_string())
            }
            14 => {
                let (o, c) = WRAP[v % WRAP.len()];
                let m = (k + (v >> 8) % 7).min(toks.len() - 1);
                (a, toks[m].end, format!("{}{}{}", o, &t[a..toks[m].end], c))
            }
            15 => {
                // a word spelled like one that stands elsewhere, most of the time one close by
                let words: Vec<usize> = (0..toks.len()).filter(|m| toks[*m].k == K::Word && !model::gen::is_kw(&t[toks[*m].start..toks[*m].end])).collect();
                if words.len() < 2 {
                    continue;
                }
                let at = words.iter().position(|m| *m >= k).unwrap_or(words.len() - 1);
                let from = if v & 3 != 0 { (at + 1 + (v >> 2) % 4) % words.len() } else { (v >> 2) % words.len() };
                (toks[words[at]].start, toks[words[at]].end, t[toks[words[from]].start..toks[words[from]].end].to_string())
            }
            16 => {
                // a statement from elsewhere where one can stand
                let m = match (k..toks.len()).chain(0..k).find(|m| *m == 0 || matches!(&t[toks[*m - 1].start..toks[*m - 1].end], ";" | "{" | "}")) {
                    Some(m) => m,
                    None => continue,
                };
                (toks[m].start, toks[m].start, format!("{}\n", crate::props::PROBES[v % crate::props::PROBES.len()]))
            }
            _ => {
                // everything from here on is replaced by other program text
                let mut s = String::new();
                let mut z = v as u64;
                for _ in 0..1 + v % 12 {
                    z = model::rng::mix(z);
                    if z & 1 == 0 {
                        let q = &toks[(z >> 8) as usize % toks.len()];
                        s.push_str(&t[q.start..q.end]);
                    } else {
                        s.push_str(JUNK[(z >> 8) as usize % JUNK.len()]);
                    }
                    s.push(' ');
                }
                (a, t.len(), s)
            }
        };
        if t[e.0..e.1] == e.2 {
            continue;
        }
        edits.push((e.0, e.1, e.2, name));
    }
    edits.sort_by(|x, y| y.0.cmp(&x.0).then(y.1.cmp(&x.1)));
    let mut s = t.to_string();
    let mut first = usize::MAX;
    let mut low = usize::MAX;
    let mut kinds = vec![];
    for (a, b, x, name) in edits {
        if b > low || a >= low {
            continue; // overlaps damage already done to its right
        }
        s.replace_range(a..b, &x);
        low = a;
        first = first.min(a);
        kinds.push(name);
    }
    (s, first, kinds)
}
/// How many leading items end, with the token after them, before byte `p`. `cut`: the text ends at
/// `p`, so a token that ends right there is whole.
pub fn intact(d: &Doc, p: usize, cut: bool) -> usize {
    let toks = &d.laid.toks;
    let mut n = 0;
    for it in &d.laid.items {
        if it.last <= it.first {
            break;
        }
        let ok = match toks.get(it.last) {
            None => p > d.text().len() || p == usize::MAX,
            Some(x) => {
                if cut {
                    x.end <= p
                } else {
                    x.end < p && (d.text()[x.end..].starts_with(|c: char| c == ' ' || c == '\n') || toks.get(it.last + 1).map(|y| y.end < p).unwrap_or(false))
                }
            }
        };
        if !ok {
            break;
        }
        n += 1;
    }
    n
}
/// The brackets left open by the tokens that end at or before byte `p`.
pub fn open_at(d: &Doc, p: usize) -> Vec<char> {
    let mut st = vec![];
    for k in &d.laid.toks {
        if k.end > p {
            break;
        }
        let s = &d.text()[k.start..k.end];
        match k.k {
            K::Punct => match s {
                "(" => st.push('('),
                "[" => st.push('['),
                "{" => st.push('{'),
                ")" | "]" | "}" => {
                    st.pop();
                }
                _ => {}
            },
            K::Tpl if s.starts_with('}') => {
                st.pop();
            }
            K::TplOpen => {
                if s.starts_with('}') {
                    st.pop();
                }
                st.push('`');
            }
            _ => {}
        }
    }
    st
}
