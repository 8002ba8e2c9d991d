//! Tape-driven program generator: emits tokens together with the tree they must parse to.
//! The trees are written from the language grammar and resast's conventions, never by running
//! the parser, so they serve as the reference model.
use crate::rng::Tape;
use resast::prelude::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Word,
    Num,
    Str,
    Regex,
    Tpl,     // no substitution, or the tail: complete
    TplOpen, // head or middle: an expression follows
    Punct,
    /// a statement terminator the layout may omit
    Semi,
}
#[derive(Clone, Debug)]
pub struct Tok {
    pub s: String,
    pub k: K,
    /// no line terminator may stand before this token
    pub nonl: bool,
}
#[derive(Clone, Debug)]
pub struct Item {
    pub start: usize, // first token
    pub end: usize,   // one past the last token
    pub ast: ProgramPart,
    /// the expression, when the item is a plain expression statement
    pub expr: Option<Expr>,
    /// deletable comma tokens and what a tolerant parser must produce (same ast)
    pub kind: &'static str,
}
#[derive(Clone, Copy, Debug)]
pub struct C {
    pub in_fn: bool,
    pub gen: bool,
    pub asyn: bool,
    pub strict: bool,
    pub no_in: bool,
    pub method: bool,
    pub derived: bool,
    pub in_loop: bool,
    pub in_switch: bool,
    /// arrows may not contain yield or await of their own
    pub arrow: bool,
    /// directly the body of an if, loop or with: no labelled function
    pub body: bool,
    /// inside of a class body
    pub cls: bool,
}
pub fn top(strict: bool) -> C {
    C { in_fn: false, gen: false, asyn: false, strict, no_in: false, method: false, derived: false, in_loop: false, in_switch: false, arrow: false, body: false, cls: false }
}
const B_BRACE: u32 = 1;
const B_FUNC: u32 = 2;
const B_CLASS: u32 = 4;
const B_STR: u32 = 8;
const B_ASYNC: u32 = 16;
const B_BRACKET: u32 = 32;
const B_TPL: u32 = 64;
const B_LET: u32 = 128;
const B_STMT: u32 = B_BRACE | B_FUNC | B_CLASS | B_ASYNC | B_LET;

pub struct G {
    pub t: Tape,
    pub toks: Vec<Tok>,
    pub fuel: i32,
    pub depth: i32,
    pub ctr: u32,
    pub module: bool,
    pub mask: u32,
    pub labels: Vec<(String, bool)>,
    ban_at: usize,
    ban: u32,
    /// token indices of commas that separate call arguments or object properties
    pub commas: Vec<usize>,
    long: u32,
    /// names declared at top level and not exported yet
    pub tops: Vec<String>,
    /// the faults a tolerant parser forgives, and the token each was at
    pub faults: Vec<(usize, &'static str)>,
}
/// put faults into the program that a tolerant parser forgives
pub const F_FAULT: u32 = 1 << 31;
pub const F_TPL: u32 = 1;
pub const F_REGEX: u32 = 2;
pub const F_CLASS: u32 = 4;
pub const F_ARROW: u32 = 8;
pub const F_ASYNC: u32 = 16;
pub const F_GEN: u32 = 32;
pub const F_PAT: u32 = 64;
pub const F_DIV: u32 = 128;
pub const F_LABEL: u32 = 256;
pub const F_LOOP: u32 = 512;
pub const F_SWITCH: u32 = 1024;
pub const F_TRY: u32 = 2048;
pub const F_OBJ: u32 = 4096;
pub const F_UNI: u32 = 8192;
/// with, and whatever else only sloppy code may say
pub const F_WITH: u32 = 16384;
pub const F_YIELDID: u32 = 32768;
pub const F_ALL: u32 = 0xffff;

const REFS: &[&str] = &[
    "a", "b", "c", "foo", "bar", "$", "_x", "async", "of", "get", "set", "from", "as", "target", "static_", "format", "inside", "newish", "iff", "typeofx",
    "undefined", "trueish", "nullable", "constructor", "eval_", "type", "exports", "doo", "lett", "yielded", "awaits", "prototype", "Math",
];
/// names only sloppy code may use freely
const WORDS: &[&str] = &["static", "implements", "interface", "package", "private", "protected", "public", "eval", "arguments"];
/// words that mean something elsewhere and are plain names here
const SOFT: &[&str] = &["async", "of", "get", "set", "from", "as", "target", "constructor", "eval", "arguments", "static", "implements", "interface", "package", "private", "protected", "public"];
const UNI: &[&str] = &["ñandú", "变量", "ключ", "π", "ℵ0", "\\u0061b", "\\u{62}c", "d\\u0065f", "$\\u{1d7d8}d"];
const NUMS: &[&str] = &["0", "1", "42", "3.14", "0xFF", "1e3", ".5", "0b101", "0o17", "5.", "2.5e-10", "1234567890123456789"];
const STRS: &[&str] = &[
    "'s'", "\"d\"", "''", "\"\"", "'it\\'s'", "\"q\\\"q\"", "'a\\nb'", "'{'", "\"}\"", "'// no'", "\"/* no */\"", "'\\u0041'", "'`'", "\"${x}\"",
    "'line\\\ncont'", "';'",
];
const STRS_UNI: &[&str] = &["'né'", "\"日本語\"", "'😀'", "'ø\\\r\nx'"];
const PROPS: &[&str] = &["p", "length", "if", "class", "default", "get", "set", "of", "new", "in", "true", "null", "this", "static", "async", "yield", "await", "let", "function", "x1"];
const TPLS: &[&str] = &["", "t", "a b", "l1\nl2", "\\`", "\\${", "$", "//", "/* */", "'\"", "{ }", "crlf\r\nx", "}"];
const TPLS_UNI: &[&str] = &["é", "日本\n語", "\u{2028}", "😀"];
const REGEX: &[(&str, &str)] = &[("a", ""), ("[/]", "g"), ("\\/", "i"), ("a+b*", "gi"), ("^(x|y)$", "m"), ("\\d{1,3}", ""), ("[^)}\\]]", "u"), ("'", ""), ("=", ""), ("[/*]", "")];
const RATOMS: &[&str] = &["a", "b+", "c*?", "[a-z]", "[^/]", "\\/", "(?:x)", "(?=y)", "(?!z)", "\\w", "\\d{2,3}", "|", "^", "$", ".", "[\\]]", "\\\\", "\\u0041", "(k)", "[/*]", "`", "\"", "'", " ", "=", "[(]", "\\.", "#", "<!", "-", "[;{}]"];
const SATOMS: &[&str] = &["a", "b", " ", "\\'", "\\\"", "\\n", "\\\\", "\\x41", "\\u0042", "\\u{1F600}", "\\0", "\\\n", ";", "{", "}", "(", ")", "/*", "//", "`", "${", "<!--", "-->", "use strict", "7", "_", "\t", ",", "\\\r\n", "\\q"];
const TATOMS: &[&str] = &["a", "b", " ", "\\`", "\\${", "$", " {", "}", "\n", "\r", "\r\n", "'", "\"", "\\u0043", "//", "/*", ";", "(", "\\n", "-->", "0"];

pub fn is_kw(s: &str) -> bool {
    matches!(
        s,
        "if" | "class" | "default" | "new" | "in" | "true" | "null" | "this" | "yield" | "await" | "let" | "function" | "static" | "for" | "while" | "with" | "return" | "typeof" | "delete" | "void" | "do" | "else"
            | "case" | "throw" | "import" | "export" | "super" | "const" | "var" | "switch" | "try" | "catch" | "finally" | "break" | "continue" | "debugger" | "instanceof" | "enum" | "implements" | "package" | "protected"
            | "interface" | "private" | "public" | "false"
    )
}
fn id(s: &str) -> Expr {
    Expr::Ident(s.to_string())
}
fn bx(e: Expr) -> Box<Expr> {
    Box::new(e)
}
fn kid(s: &str) -> PropertyKey {
    PropertyKey::Expr(id(s))
}

impl G {
    pub fn new(t: Tape, module: bool, mask: u32) -> Self {
        G { t, toks: vec![], fuel: 0, depth: 0, ctr: 0, module, mask, labels: vec![], ban_at: usize::MAX, ban: 0, commas: vec![], faults: vec![], tops: vec![], long: 0 }
    }
    fn push(&mut self, s: &str, k: K) {
        self.toks.push(Tok { s: s.to_string(), k, nonl: false });
    }
    fn p(&mut self, s: &str) {
        self.push(s, K::Punct);
    }
    fn w(&mut self, s: &str) {
        self.push(s, K::Word);
    }
    fn semi(&mut self) {
        self.push(";", K::Semi);
    }
    fn nonl_last(&mut self) {
        self.toks.last_mut().unwrap().nonl = true;
    }
    fn ch(&mut self, n: usize) -> usize {
        self.t.choose(n)
    }
    /// which alternative of a grammar rule: some programs lean towards two alternatives of each
    fn kind(&mut self, n: usize, site: u64) -> usize {
        let f = (self.mask >> 16) & 0x7fff;
        if f == 0 {
            return self.ch(n);
        }
        match self.ch(4) {
            k @ 2..=3 => crate::rng::mix((f as u64) << 20 | site << 2 | (k as u64 & 1)) as usize % n,
            _ => self.ch(n),
        }
    }
    fn chance(&mut self, n: usize) -> bool {
        self.t.chance(n)
    }
    fn on(&self, f: u32) -> bool {
        self.mask & f != 0
    }
    /// now and then a list is long
    fn big(&mut self) -> bool {
        self.fuel > 0 && self.long < 2 && self.chance(3) && {
            self.long += 1;
            true
        }
    }
    fn many(&mut self, n: usize) -> usize {
        if self.big() {
            n + self.ch(24)
        } else {
            self.ch(n)
        }
    }
    fn fault(&mut self) -> bool {
        self.on(F_FAULT) && self.ch(2) == 1
    }
    /// how many parameters an accessor gets
    fn arity(&mut self, getter: bool) -> usize {
        let right = if getter { 0 } else { 1 };
        if !self.fault() {
            return right;
        }
        self.faults.push((self.toks.len() - 1, if getter { "getter_with_parameters" } else { "setter_without_exactly_one" }));
        if getter {
            1 + self.ch(2)
        } else {
            [0, 2, 3][self.ch(3)]
        }
    }
    fn spend(&mut self) -> bool {
        self.fuel -= 1;
        self.fuel > 0 && self.depth < 14
    }
    fn banned(&self, b: u32) -> bool {
        self.toks.len() == self.ban_at && self.ban & b != 0
    }
    fn set_ban(&mut self, b: u32) {
        self.ban_at = self.toks.len();
        self.ban = b;
    }
    fn add_ban(&mut self, b: u32) {
        if self.ban_at == self.toks.len() {
            self.ban |= b;
        } else {
            self.set_ban(b);
        }
    }
    fn fresh(&mut self, pre: &str) -> String {
        self.ctr += 1;
        if self.chance(1) && self.ch(4) == 3 {
            // a very long name
            let k = 60 + self.ch(700);
            return format!("{}{}{}", pre, "n".repeat(k), self.ctr);
        }
        if self.on(F_UNI) && self.chance(12) {
            format!("{}é{}", pre, self.ctr)
        } else {
            format!("{}{}", pre, self.ctr)
        }
    }
    /// a label: drawn from a few names so that labels come back, but never one still active
    fn label(&mut self) -> String {
        let pool = ["L1", "L2", "a", "foo", "Lx", "of", "get", "set", "from"];
        let k = self.ch(pool.len());
        for i in 0..pool.len() {
            let n = pool[(k + i) % pool.len()];
            if !self.labels.iter().any(|l| l.0 == n) {
                return n.to_string();
            }
        }
        self.fresh("Lf")
    }
    /// names are numbered anew in every function, so that the same names come back everywhere
    fn enter_fn(&mut self) -> u32 {
        std::mem::replace(&mut self.ctr, 0)
    }
    fn leave_fn(&mut self, saved: u32) {
        self.ctr = saved;
    }
    fn reference(&mut self, c: C) -> String {
        let n = self.ch(REFS.len() + 6);
        if n < REFS.len() {
            let s = REFS[n];
            if s == "async" && (self.banned(B_ASYNC) || !self.on(F_ASYNC)) {
                return "a".into();
            }
            s.to_string()
        } else if n == REFS.len() && self.on(F_UNI) {
            let k = self.ch(UNI.len());
            UNI[k].to_string()
        } else if n == REFS.len() + 1 && self.on(F_YIELDID) && !c.strict && !c.gen && !c.method && !self.module && !c.arrow {
            "yield".to_string()
        } else if n == REFS.len() + 2 && self.on(F_YIELDID) && !c.strict && !self.module && !self.banned(B_LET) {
            "let".to_string()
        } else if n == REFS.len() + 3 && self.on(F_WITH) && !c.strict && !self.module {
            let k = self.ch(WORDS.len());
            WORDS[k].to_string()
        } else if self.chance(4) {
            let k = 1 + self.ch(600);
            "r".repeat(k)
        } else {
            let n = self.ctr;
            format!("x{}", n)
        }
    }
    // ---------------------------------------------------------------- lexical pieces
    fn digits(&mut self, set: &str, max: usize) -> String {
        let set: Vec<char> = set.chars().collect();
        let n = 1 + self.ch(max);
        (0..n).map(|_| set[self.ch(set.len())]).collect()
    }
    fn number(&mut self) -> String {
        let n = self.ch(NUMS.len() + 8);
        if n < NUMS.len() {
            return NUMS[n].to_string();
        }
        let d = "0123456789";
        let whole = |g: &mut G| {
            let k = g.ch(2);
            format!("{}{}", ["1", "9"][k], g.digits(d, 12))
        };
        match n - NUMS.len() {
            0 => whole(self),
            1 => {
                let k = self.ch(2);
                format!("{}{}", ["0x", "0X"][k], self.digits("0123456789abcdefABCDEF", 18))
            }
            2 => {
                let k = self.ch(2);
                format!("{}{}", ["0b", "0B"][k], self.digits("01", 20))
            }
            3 => {
                let k = self.ch(2);
                format!("{}{}", ["0o", "0O"][k], self.digits("01234567", 12))
            }
            4 => {
                let (w, k, s) = (whole(self), self.ch(2), self.ch(3));
                format!("{}{}{}{}", w, ["e", "E"][k], ["", "+", "-"][s], self.digits(d, 3))
            }
            5 => {
                let w = whole(self);
                format!("{}.{}", w, self.digits(d, 18))
            }
            6 => format!(".{}", self.digits(d, 8)),
            _ => {
                let k = self.ch(2);
                format!("0.{}{}{}", self.digits(d, 6), ["e-", "E"][k], self.digits(d, 2))
            }
        }
    }
    /// a few pieces in a row, seldom many
    fn pieces(&mut self, from: &[&str], uni: &[&str]) -> String {
        let n = if self.chance(8) { 20 + self.ch(300) } else { 1 + self.ch(8) };
        let u = if self.on(F_UNI) { uni.len() } else { 0 };
        (0..n)
            .map(|_| {
                let k = self.ch(from.len() + u);
                if k < from.len() {
                    from[k]
                } else {
                    uni[k - from.len()]
                }
            })
            .collect()
    }
    fn regex(&mut self) -> (String, String) {
        let i = self.ch(REGEX.len() + 4);
        if i < REGEX.len() {
            return (REGEX[i].0.into(), REGEX[i].1.into());
        }
        let p = self.pieces(RATOMS, &["é", "日", "[😀]"]);
        let mut f: Vec<&str> = vec![];
        for _ in 0..self.ch(4) {
            let k = ["g", "i", "m", "s", "y", "u"][self.ch(6)];
            if !f.contains(&k) {
                f.push(k);
            }
        }
        (p, f.concat())
    }
    fn string(&mut self) -> String {
        let n = self.ch(STRS.len() + 10);
        if n >= STRS.len() + 4 {
            let q = ["'", "\""][self.ch(2)];
            let other = if q == "'" { "\"" } else { "'" };
            let t = self.pieces(SATOMS, &["é", "日本", "😀", "ß"]);
            // never the words that would make it the directive that counts
            return format!("{}{}{}{}", q, t, other, q);
        }
        if n < STRS.len() {
            STRS[n].to_string()
        } else if self.on(F_UNI) {
            STRS_UNI[n - STRS.len()].to_string()
        } else {
            "'z'".to_string()
        }
    }
    fn tpl_text(&mut self) -> String {
        let n = self.ch(TPLS.len() + 8);
        if n >= TPLS.len() + 4 {
            return self.pieces(TATOMS, &["é", "日本", "😀", "\u{2029}"]);
        }
        if n < TPLS.len() {
            TPLS[n].to_string()
        } else if self.on(F_UNI) {
            TPLS_UNI[n - TPLS.len()].to_string()
        } else {
            "u".into()
        }
    }
    fn template(&mut self, c: C) -> TemplateLiteral {
        let n = if self.spend() { self.many(4) } else { 0 };
        let mut quasis = vec![];
        let mut expressions = vec![];
        let txt = self.tpl_text();
        if n == 0 {
            let raw = format!("`{}`", txt);
            self.push(&raw, K::Tpl);
            quasis.push(TemplateElement { raw, cooked: txt, tail: true });
            return TemplateLiteral { quasis, expressions };
        }
        let raw = format!("`{}${{", txt);
        self.push(&raw, K::TplOpen);
        quasis.push(TemplateElement { raw, cooked: txt, tail: false });
        let c2 = C { no_in: false, ..c };
        for i in 0..n {
            self.depth += 1;
            let e = self.expression(c2);
            self.depth -= 1;
            expressions.push(e);
            let txt = self.tpl_text();
            let (raw, tail, k) = if i + 1 == n { (format!("}}{}`", txt), true, K::Tpl) } else { (format!("}}{}${{", txt), false, K::TplOpen) };
            self.push(&raw, k);
            quasis.push(TemplateElement { raw, cooked: txt, tail });
        }
        TemplateLiteral { quasis, expressions }
    }
    fn regex_ok(&self) -> bool {
        if !self.on(F_REGEX) {
            return false;
        }
        match self.toks.last() {
            None => true,
            Some(t) => match t.k {
                K::Punct => !matches!(t.s.as_str(), ")" | "]" | "}" | "++" | "--"),
                K::Word => {
                    matches!(t.s.as_str(), "return" | "typeof" | "case" | "in" | "void" | "throw" | "delete")
                        && (self.toks.len() < 2 || self.toks[self.toks.len() - 2].s != ".")
                }
                _ => false,
            },
        }
    }
    fn div_ok(&self) -> bool {
        // the tokenizer tells division from a regular expression by what stands before it; stay
        // where it is right (see DESIGN.md, dependency limits)
        if !self.on(F_DIV) || self.toks.len() < 2 {
            return false;
        }
        let t = self.toks.last().unwrap();
        match t.k {
            K::Num | K::Str => true,
            K::Word => !is_kw(&t.s),
            K::Punct => {
                if t.s == "]" {
                    return true;
                }
                if t.s == ")" {
                    if let Some(i) = self.toks.iter().rposition(|t| t.s == "(" && t.k == K::Punct) {
                        return i > 0 && !matches!(self.toks[i - 1].s.as_str(), "if" | "for" | "while" | "with");
                    }
                }
                false
            }
            _ => false,
        }
    }
    // ---------------------------------------------------------------- expressions
    pub fn expression(&mut self, c: C) -> Expr {
        let first = self.assign(c);
        if self.fuel > 0 && self.chance(14) {
            let n = 1 + self.ch(2);
            let mut v = vec![first];
            for _ in 0..n {
                self.p(",");
                v.push(self.assign(c));
            }
            return Expr::Sequence(v);
        }
        first
    }
    /// now and then a construct is nested deeply
    fn deep(&mut self) -> bool {
        self.fuel > 2 && self.long < 2 && self.ban_at != self.toks.len() && self.ch(512) == 511 && {
            self.long = 2;
            true
        }
    }
    /// `n` expressions in one another
    fn deep_expr(&mut self, c: C, n: usize, kinds: (usize, usize)) -> Expr {
        if n == 0 {
            return self.assign(c);
        }
        let ci = C { no_in: false, ..c };
        let k = if n % 2 == 0 { kinds.0 } else { kinds.1 };
        macro_rules! next {
            ($c:expr) => {
                self.deep_expr($c, n - 1, kinds)
            };
        }
        let returns = |g: &mut G, c2: C| {
            let saved = g.enter_fn();
            let labels = std::mem::replace(&mut g.labels, vec![]);
            g.p("(");
            g.p(")");
            g.p("{");
            g.w("return");
            g.p("(");
            g.nonl_last();
            let e = g.deep_expr(c2, n - 1, kinds);
            g.p(")");
            g.semi();
            g.p("}");
            g.labels = labels;
            g.leave_fn(saved);
            vec![ProgramPart::Stmt(Stmt::Return(Some(e)))]
        };
        match k {
            1 => {
                self.p("[");
                let e = next!(ci);
                self.p("]");
                Expr::Array(vec![Some(e)])
            }
            2 => {
                self.w("a");
                self.p("(");
                let e = next!(ci);
                self.p(")");
                Expr::Call(CallExpr { callee: bx(id("a")), arguments: vec![e] })
            }
            3 if !self.banned(B_BRACE) => {
                self.p("{");
                self.w("k");
                self.p(":");
                let e = next!(ci);
                self.p("}");
                Expr::Object(vec![ObjectProperty::Property(Property { key: kid("k"), value: PropertyValue::Expr(e), kind: PropertyKind::Init, method: false, computed: false, short_hand: false })])
            }
            4 => {
                self.push("`${", K::TplOpen);
                let e = next!(ci);
                self.push("}`", K::Tpl);
                Expr::Literal(Literal::Template(TemplateLiteral {
                    quasis: vec![TemplateElement { raw: "`${".into(), cooked: "".into(), tail: false }, TemplateElement { raw: "}`".into(), cooked: "".into(), tail: true }],
                    expressions: vec![e],
                }))
            }
            5 => {
                self.p("(");
                self.p(")");
                self.p("=>");
                self.nonl_last();
                self.p("(");
                let e = next!(C { arrow: true, gen: false, asyn: false, in_fn: true, in_loop: false, in_switch: false, no_in: false, ..c });
                self.p(")");
                Expr::ArrowFunction(ArrowFunctionExpr { id: None, params: vec![], body: ArrowFunctionBody::Expr(bx(e)), expression: true, generator: false, is_async: false })
            }
            6 if !self.banned(B_FUNC) => {
                self.w("function");
                let c2 = self.fn_ctx(c, false, false);
                let body = returns(self, c2);
                Expr::Function(Function { id: None, params: vec![], body, generator: false, is_async: false })
            }
            7 => {
                self.w("a");
                self.p("?");
                let e = next!(ci);
                self.p(":");
                self.w("b");
                Expr::Conditional(ConditionalExpr { test: bx(id("a")), consequent: bx(e), alternate: bx(id("b")) })
            }
            8 => {
                self.p("!");
                self.p("(");
                let e = next!(ci);
                self.p(")");
                Expr::Unary(UnaryExpr { operator: UnaryOperator::Not, prefix: true, argument: bx(e) })
            }
            9 => {
                self.w("a");
                self.p("[");
                let e = next!(ci);
                self.p("]");
                Expr::Member(MemberExpr { object: bx(id("a")), computed: true, property: bx(e) })
            }
            10 => {
                self.w("new");
                self.w("a");
                self.p("(");
                let e = next!(ci);
                self.p(")");
                Expr::New(NewExpr { callee: bx(id("a")), arguments: vec![e] })
            }
            11 if !self.banned(B_CLASS) => {
                self.w("class");
                self.p("{");
                self.w("m");
                let c2 = C { strict: true, cls: true, method: true, ..self.fn_ctx(c, false, false) };
                let body = returns(self, c2);
                self.p("}");
                let f = Function { id: None, params: vec![], body, generator: false, is_async: false };
                Expr::Class(Class { id: None, super_class: None, body: vec![Property { key: kid("m"), value: PropertyValue::Expr(Expr::Function(f)), kind: PropertyKind::Method, method: true, computed: false, short_hand: false }] })
            }
            12 => {
                self.w("a");
                self.p("=");
                let e = next!(c);
                Expr::Assignment(AssignmentExpr { operator: AssignmentOperator::Equal, left: AssignmentLeft::Expr(bx(id("a"))), right: bx(e) })
            }
            13 => {
                self.w("a");
                self.p("+");
                self.p("(");
                let e = next!(ci);
                self.p(")");
                Expr::Binary(BinaryExpr { operator: BinaryOperator::Plus, left: bx(id("a")), right: bx(e) })
            }
            14 if c.asyn => {
                self.w("await");
                self.p("(");
                let e = next!(ci);
                self.p(")");
                Expr::Await(bx(e))
            }
            _ => {
                self.p("(");
                let e = next!(ci);
                self.p(")");
                e
            }
        }
    }
    /// `n` statements in one another
    fn deep_stmt(&mut self, c: C, n: usize, kinds: (usize, usize)) -> Stmt {
        let c = C { body: true, ..c };
        if n == 0 {
            return self.statement(c, 0);
        }
        let k = if n % 2 == 0 { kinds.0 } else { kinds.1 };
        macro_rules! next {
            ($c:expr) => {
                self.deep_stmt($c, n - 1, kinds)
            };
        }
        macro_rules! in_block {
            ($c:expr) => {{
                self.p("{");
                let s = self.deep_stmt($c, n - 1, kinds);
                self.p("}");
                vec![ProgramPart::Stmt(s)]
            }};
        }
        let cl = C { in_loop: true, ..c };
        match k {
            1 => {
                self.w("if");
                self.p("(");
                self.w("a");
                self.p(")");
                let s = next!(c);
                Stmt::If(IfStmt { test: id("a"), consequent: Box::new(s), alternate: None })
            }
            2 => {
                self.w("while");
                self.p("(");
                self.w("a");
                self.p(")");
                let s = next!(cl);
                Stmt::While(WhileStmt { test: id("a"), body: Box::new(s) })
            }
            3 => {
                let l = self.label();
                self.w(&l);
                self.p(":");
                self.labels.push((l.clone(), false));
                let s = next!(c);
                self.labels.pop();
                Stmt::Labeled(LabeledStmt { label: l, body: Box::new(s) })
            }
            4 => {
                self.w("try");
                let block = in_block!(c);
                self.w("finally");
                self.p("{");
                self.p("}");
                Stmt::Try(TryStmt { block, handler: None, finalizer: Some(vec![]) })
            }
            5 => {
                self.p("{");
                self.w("function");
                let nm = self.fresh("f");
                self.w(&nm);
                self.p("(");
                self.p(")");
                let saved = self.enter_fn();
                let labels = std::mem::replace(&mut self.labels, vec![]);
                let c2 = self.fn_ctx(c, false, false);
                self.p("{");
                self.p(";");
                let s = self.deep_stmt(c2, n - 1, kinds);
                self.p("}");
                self.labels = labels;
                self.leave_fn(saved);
                self.p("}");
                let f = Function { id: Some(nm), params: vec![], body: vec![ProgramPart::Stmt(Stmt::Empty), ProgramPart::Stmt(s)], generator: false, is_async: false };
                Stmt::Block(vec![ProgramPart::Decl(Decl::Function(f))])
            }
            6 => {
                self.w("switch");
                self.p("(");
                self.w("a");
                self.p(")");
                self.p("{");
                self.w("case");
                self.w("b");
                self.p(":");
                let s = next!(C { in_switch: true, ..c });
                self.p("}");
                Stmt::Switch(SwitchStmt { discriminant: id("a"), cases: vec![SwitchCase { test: Some(id("b")), consequent: vec![ProgramPart::Stmt(s)] }] })
            }
            7 => {
                self.w("for");
                self.p("(");
                self.p(";");
                self.p(";");
                self.p(")");
                let s = next!(cl);
                Stmt::For(ForStmt { init: None, test: None, update: None, body: Box::new(s) })
            }
            8 => {
                self.w("if");
                self.p("(");
                self.w("a");
                self.p(")");
                self.p(";");
                self.w("else");
                let s = next!(c);
                Stmt::If(IfStmt { test: id("a"), consequent: Box::new(Stmt::Empty), alternate: Some(Box::new(s)) })
            }
            9 => {
                self.w("try");
                self.p("{");
                self.p("}");
                self.w("catch");
                self.p("(");
                self.w("e");
                self.p(")");
                let body = in_block!(c);
                Stmt::Try(TryStmt { block: vec![], handler: Some(CatchClause { param: Some(Pat::Identifier("e".into())), body }), finalizer: None })
            }
            10 => {
                self.w("for");
                self.p("(");
                self.w("a");
                self.w("of");
                self.w("b");
                self.p(")");
                let s = next!(cl);
                Stmt::ForOf(ForOfStmt { left: LoopLeft::Expr(id("a")), right: id("b"), body: Box::new(s), is_await: false })
            }
            11 => {
                self.w("for");
                self.p("(");
                self.w("var");
                let nm = self.fresh("v");
                self.w(&nm);
                self.w("in");
                self.w("b");
                self.p(")");
                let s = next!(cl);
                Stmt::ForIn(ForInStmt { left: LoopLeft::Variable(VariableKind::Var, VariableDecl { id: Pat::Identifier(nm), init: None }), right: id("b"), body: Box::new(s) })
            }
            _ => Stmt::Block(in_block!(c)),
        }
    }
    pub fn assign(&mut self, c: C) -> Expr {
        if self.deep() {
            let n = 4 + self.ch(56);
            let kinds = (self.ch(15), self.ch(15));
            let saved = std::mem::replace(&mut self.depth, 4);
            let e = self.deep_expr(c, n, kinds);
            self.depth = saved;
            return e;
        }
        if !self.spend() {
            return self.leaf(c);
        }
        self.depth += 1;
        let r = match self.kind(16, 331) {
            0..=8 => self.conditional(c),
            9 | 10 => self.assignment(c),
            11 => self.pattern_assignment(c),
            12 | 13 if self.on(F_ARROW) => self.arrow(c),
            14 if self.on(F_ARROW) && self.on(F_ASYNC) && !self.banned(B_ASYNC) => self.async_arrow(c),
            15 if c.gen && !c.arrow => self.yield_expr(c),
            _ => self.conditional(c),
        };
        self.depth -= 1;
        r
    }
    fn yield_expr(&mut self, c: C) -> Expr {
        self.w("yield");
        match self.ch(3) {
            0 => {
                // nothing that could start an expression follows on the same line, wherever an
                // assignment expression ends
                if self.ch(2) == 1 {
                    return Expr::Yield(YieldExpr { argument: None, delegate: false });
                }
                let n = self.toks.len();
                let y = Expr::Yield(YieldExpr { argument: None, delegate: false });
                // rewrite as ( yield )
                let t = self.toks.remove(n - 1);
                self.p("(");
                self.toks.push(t);
                self.p(")");
                y
            }
            1 => {
                let l = self.toks.len();
                let e = self.assign(c);
                self.toks[l].nonl = true;
                Expr::Yield(YieldExpr { argument: Some(bx(e)), delegate: false })
            }
            _ => {
                self.p("*");
                self.nonl_last();
                let e = self.assign(c);
                Expr::Yield(YieldExpr { argument: Some(bx(e)), delegate: true })
            }
        }
    }
    fn assignment(&mut self, c: C) -> Expr {
        let left = self.simple_target(c);
        const OPS: &[(&str, AssignmentOperator)] = &[
            ("=", AssignmentOperator::Equal),
            ("+=", AssignmentOperator::PlusEqual),
            ("-=", AssignmentOperator::MinusEqual),
            ("*=", AssignmentOperator::TimesEqual),
            ("%=", AssignmentOperator::ModEqual),
            ("<<=", AssignmentOperator::LeftShiftEqual),
            (">>=", AssignmentOperator::RightShiftEqual),
            (">>>=", AssignmentOperator::UnsignedRightShiftEqual),
            ("|=", AssignmentOperator::OrEqual),
            ("^=", AssignmentOperator::XOrEqual),
            ("&=", AssignmentOperator::AndEqual),
            ("**=", AssignmentOperator::PowerOfEqual),
            ("/=", AssignmentOperator::DivEqual),
        ];
        let mut n = if self.chance(128) { self.ch(OPS.len()) } else { 0 };
        if OPS[n].0 == "/=" && !self.div_ok() {
            n = 0;
        }
        self.p(OPS[n].0);
        let right = self.assign(c);
        Expr::Assignment(AssignmentExpr { left: AssignmentLeft::Expr(bx(left)), operator: OPS[n].1.clone(), right: bx(right) })
    }
    /// an identifier or member expression
    fn simple_target(&mut self, c: C) -> Expr {
        let n = self.reference(c);
        let first_let = n == "let";
        self.w(&n);
        let mut e = id(&n);
        if self.fuel > 0 {
            let k = self.ch(3);
            for _ in 0..k {
                e = self.member_suffix(c, e, first_let);
            }
        }
        e
    }
    fn member_suffix(&mut self, c: C, e: Expr, dot_only: bool) -> Expr {
        if self.ch(3) < 2 || dot_only {
            self.p(".");
            let k = self.ch(PROPS.len());
            self.w(PROPS[k]);
            Expr::Member(MemberExpr { object: bx(e), property: bx(id(PROPS[k])), computed: false })
        } else {
            self.p("[");
            self.depth += 1;
            let i = self.expression(C { no_in: false, ..c });
            self.depth -= 1;
            self.p("]");
            Expr::Member(MemberExpr { object: bx(e), property: bx(i), computed: true })
        }
    }
    fn pattern_assignment(&mut self, c: C) -> Expr {
        if !self.on(F_PAT) || self.banned(B_BRACKET) {
            return self.assignment(c);
        }
        if self.ch(2) == 0 {
            // [a, b = 1, ...c] = e
            let left = self.array_target(c);
            self.p("=");
            let right = self.assign(c);
            Expr::Assignment(AssignmentExpr { left: AssignmentLeft::Expr(bx(left)), operator: AssignmentOperator::Equal, right: bx(right) })
        } else {
            self.p("(");
            let left = self.object_target(c);
            self.p("=");
            let right = self.assign(C { no_in: false, ..c });
            self.p(")");
            Expr::Assignment(AssignmentExpr { left: AssignmentLeft::Expr(bx(left)), operator: AssignmentOperator::Equal, right: bx(right) })
        }
    }
    fn target_el(&mut self, c: C) -> Expr {
        let left = if self.spend() && self.depth < 10 && self.chance(40) {
            self.depth += 1;
            let l = if self.ch(2) == 0 { self.array_target(c) } else { self.object_target(c) };
            self.depth -= 1;
            l
        } else {
            let n = self.reference_plain(c);
            self.w(&n);
            let mut e = id(&n);
            if self.fuel > 0 && self.chance(40) {
                for _ in 0..1 + self.ch(2) {
                    e = self.member_suffix(c, e, false);
                }
            }
            e
        };
        if self.fuel > 0 && self.chance(60) {
            self.p("=");
            let r = self.assign(C { no_in: false, ..c });
            return Expr::Assignment(AssignmentExpr { left: AssignmentLeft::Expr(bx(left)), operator: AssignmentOperator::Equal, right: bx(r) });
        }
        left
    }
    fn reference_plain(&mut self, c: C) -> String {
        let r = self.reference(c);
        if matches!(r.as_str(), "async" | "let" | "yield" | "get" | "set") || WORDS.contains(&r.as_str()) {
            "a".into()
        } else {
            r
        }
    }
    fn array_target(&mut self, c: C) -> Expr {
        self.p("[");
        let n = self.many(4);
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            match self.ch(8) {
                6 => {
                    // elision
                    v.push(None);
                    if i + 1 == n {
                        self.p(",");
                    }
                    continue;
                }
                7 if i + 1 == n => {
                    self.p("...");
                    let r = self.reference_plain(c);
                    self.w(&r);
                    v.push(Some(Expr::Spread(bx(id(&r)))));
                }
                _ => {
                    let e = self.target_el(c);
                    v.push(Some(e));
                }
            }
        }
        self.p("]");
        Expr::Array(v)
    }
    fn object_target(&mut self, c: C) -> Expr {
        self.p("{");
        let n = self.many(3);
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            if i + 1 == n && self.chance(30) {
                self.p("...");
                let r = self.reference_plain(c);
                self.w(&r);
                v.push(ObjectProperty::Spread(bx(Expr::Spread(bx(id(&r))))));
                break;
            }
            if self.chance(40) {
                let (key, computed) = self.prop_key(c, false);
                self.p(":");
                let e = self.target_el(c);
                v.push(ObjectProperty::Property(Property { key, value: PropertyValue::Expr(e), kind: PropertyKind::Init, method: false, computed, short_hand: false }));
                continue;
            }
            let r = self.reference_plain(c);
            self.w(&r);
            match self.ch(3) {
                0 => v.push(ObjectProperty::Property(Property { key: kid(&r), value: PropertyValue::None, kind: PropertyKind::Init, method: false, computed: false, short_hand: true })),
                1 => {
                    self.p(":");
                    let e = self.target_el(c);
                    v.push(ObjectProperty::Property(Property { key: kid(&r), value: PropertyValue::Expr(e), kind: PropertyKind::Init, method: false, computed: false, short_hand: false }));
                }
                _ => {
                    self.p("=");
                    let e = self.assign(C { no_in: false, ..c });
                    v.push(ObjectProperty::Property(Property { key: kid(&r), value: PropertyValue::Expr(e), kind: PropertyKind::Init, method: false, computed: false, short_hand: true }));
                }
            }
        }
        self.p("}");
        Expr::Object(v)
    }
    fn arrow_body(&mut self, c: C, is_async: bool) -> (ArrowFunctionBody, bool) {
        let c2 = C { arrow: true, gen: false, asyn: c.asyn && is_async, in_fn: true, in_loop: false, in_switch: false, ..c };
        if self.ch(2) == 0 {
            self.set_ban(B_BRACE);
            // an object literal body must be parenthesised, which the ban arranges
            let e = self.assign(c2);
            (ArrowFunctionBody::Expr(bx(e)), true)
        } else {
            let b = self.function_body(C { no_in: false, ..c2 });
            (ArrowFunctionBody::FunctionBody(b), false)
        }
    }
    fn arrow_params(&mut self, c: C, is_async: bool) -> Vec<FunctionArg> {
        // inside parentheses; parameters come out as expressions under the cover grammar
        let c = C { no_in: false, gen: false, asyn: false, arrow: true, ..c };
        let mut v = vec![];
        let n = self.many(4);
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            let k = self.ch(8);
            if k == 7 && i + 1 == n {
                self.p("...");
                v.push(if is_async {
                    let e = match self.kind(8, 1401) {
                        6 if self.on(F_PAT) => self.array_param(c),
                        7 if self.on(F_PAT) => self.object_param(c),
                        _ => {
                            let nm = self.fresh("r");
                            self.w(&nm);
                            id(&nm)
                        }
                    };
                    FunctionArg::Expr(Expr::Spread(bx(e)))
                } else {
                    FunctionArg::Pat(Pat::RestElement(Box::new(self.binding(c, true))))
                });
                return v;
            }
            let left = if self.on(F_PAT) && k == 5 {
                self.array_param(c)
            } else if self.on(F_PAT) && k == 6 {
                self.object_param(c)
            } else {
                let nm = self.fresh("p");
                self.w(&nm);
                id(&nm)
            };
            if self.fuel > 0 && self.chance(50) {
                self.p("=");
                let r = self.assign(c);
                v.push(FunctionArg::Expr(Expr::Assignment(AssignmentExpr { left: AssignmentLeft::Expr(bx(left)), operator: AssignmentOperator::Equal, right: bx(r) })));
            } else {
                v.push(FunctionArg::Expr(left));
            }
        }
        if n > 0 && self.chance(20) {
            self.p(",");
        }
        v
    }
    /// a parameter inside of a pattern
    fn param_el(&mut self, c: C) -> Expr {
        let left = if self.spend() && self.depth < 10 && self.chance(40) {
            self.depth += 1;
            let l = if self.ch(2) == 0 { self.array_param(c) } else { self.object_param(c) };
            self.depth -= 1;
            l
        } else {
            let nm = self.fresh("q");
            self.w(&nm);
            id(&nm)
        };
        if self.fuel > 0 && self.chance(40) {
            self.p("=");
            let r = self.assign(c);
            return Expr::Assignment(AssignmentExpr { left: AssignmentLeft::Expr(bx(left)), operator: AssignmentOperator::Equal, right: bx(r) });
        }
        left
    }
    fn array_param(&mut self, c: C) -> Expr {
        self.p("[");
        let n = self.many(3);
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            if i + 1 == n && self.chance(40) {
                self.p("...");
                let e = if self.chance(60) {
                    self.array_param(c)
                } else {
                    let nm = self.fresh("q");
                    self.w(&nm);
                    id(&nm)
                };
                v.push(Some(Expr::Spread(bx(e))));
                break;
            }
            if self.chance(20) {
                v.push(None);
                if i + 1 == n {
                    self.p(",");
                }
                continue;
            }
            let e = self.param_el(c);
            v.push(Some(e));
            if i + 1 == n && self.chance(20) {
                self.p(",");
            }
        }
        self.p("]");
        Expr::Array(v)
    }
    fn object_param(&mut self, c: C) -> Expr {
        self.p("{");
        let n = self.many(3);
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            if i + 1 == n && self.chance(30) {
                self.p("...");
                let nm = self.fresh("o");
                self.w(&nm);
                v.push(ObjectProperty::Spread(bx(Expr::Spread(bx(id(&nm))))));
                break;
            }
            if self.chance(40) {
                let (key, computed) = self.prop_key(c, false);
                self.p(":");
                let e = self.param_el(c);
                v.push(ObjectProperty::Property(Property { key, value: PropertyValue::Expr(e), kind: PropertyKind::Init, method: false, computed, short_hand: false }));
                continue;
            }
            let nm = self.fresh("o");
            let key = kid(&nm);
            let (value, short_hand) = match self.ch(3) {
                0 => {
                    self.w(&nm);
                    (PropertyValue::None, true)
                }
                1 => {
                    self.w(&nm);
                    self.p(":");
                    (PropertyValue::Expr(self.param_el(c)), false)
                }
                _ => {
                    self.w(&nm);
                    self.p("=");
                    (PropertyValue::Expr(self.assign(c)), true)
                }
            };
            v.push(ObjectProperty::Property(Property { key, value, kind: PropertyKind::Init, method: false, computed: false, short_hand }));
        }
        self.p("}");
        Expr::Object(v)
    }
    fn arrow(&mut self, c: C) -> Expr {
        let params = if self.ch(3) == 0 {
            let nm = self.fresh("p");
            self.w(&nm);
            vec![FunctionArg::Expr(id(&nm))]
        } else {
            self.p("(");
            let v = self.arrow_params(c, false);
            self.p(")");
            v
        };
        self.p("=>");
        self.nonl_last();
        let (body, expression) = self.arrow_body(c, false);
        Expr::ArrowFunction(ArrowFunctionExpr { id: None, params, body, expression, generator: false, is_async: false })
    }
    fn async_arrow(&mut self, c: C) -> Expr {
        self.w("async");
        let params = if self.ch(2) == 0 {
            let nm = self.fresh("p");
            self.w(&nm);
            self.nonl_last();
            vec![FunctionArg::Pat(Pat::Identifier(nm))]
        } else {
            self.p("(");
            self.nonl_last();
            let v = self.arrow_params(c, true);
            self.p(")");
            v
        };
        self.p("=>");
        self.nonl_last();
        let (body, expression) = self.arrow_body(c, true);
        Expr::ArrowFunction(ArrowFunctionExpr { id: None, params, body, expression, generator: false, is_async: true })
    }
    fn conditional(&mut self, c: C) -> Expr {
        let t = self.binary(c, 1);
        if self.fuel > 0 && self.chance(16) {
            self.p("?");
            let a = self.assign(C { no_in: false, ..c });
            self.p(":");
            let b = self.assign(c);
            return Expr::Conditional(ConditionalExpr { test: bx(t), consequent: bx(a), alternate: bx(b) });
        }
        t
    }
    fn binary(&mut self, c: C, min: usize) -> Expr {
        if min > 11 || self.fuel <= 0 || self.depth > 16 || !self.chance(if min == 1 { 90 } else { 40 }) {
            return self.exponent(c);
        }
        self.spend();
        enum O {
            B(BinaryOperator),
            L(LogicalOperator),
        }
        use self::BinaryOperator as B;
        let all: [(&str, usize, O); 23] = [
            ("+", 9, O::B(B::Plus)),
            ("-", 9, O::B(B::Minus)),
            ("*", 11, O::B(B::Times)),
            ("%", 11, O::B(B::Mod)),
            ("||", 1, O::L(LogicalOperator::Or)),
            ("&&", 2, O::L(LogicalOperator::And)),
            ("|", 3, O::B(B::Or)),
            ("^", 4, O::B(B::XOr)),
            ("&", 5, O::B(B::And)),
            ("==", 6, O::B(B::Equal)),
            ("!=", 6, O::B(B::NotEqual)),
            ("===", 6, O::B(B::StrictEqual)),
            ("!==", 6, O::B(B::StrictNotEqual)),
            ("<", 7, O::B(B::LessThan)),
            (">", 7, O::B(B::GreaterThan)),
            ("<=", 7, O::B(B::LessThanEqual)),
            (">=", 7, O::B(B::GreaterThanEqual)),
            ("<<", 8, O::B(B::LeftShift)),
            (">>", 8, O::B(B::RightShift)),
            (">>>", 8, O::B(B::UnsignedRightShift)),
            ("instanceof", 7, O::B(B::InstanceOf)),
            ("in", 7, O::B(B::In)),
            ("/", 11, O::B(B::Over)),
        ];
        let mut i = self.ch(all.len());
        if all[i].1 < min || (all[i].0 == "in" && c.no_in) {
            i = 2;
        }
        let prec = all[i].1;
        self.depth += 1;
        let left = self.binary(c, prec);
        if all[i].0 == "/" && !self.div_ok() {
            i = 2;
        }
        if all[i].0 == "in" || all[i].0 == "instanceof" {
            self.w(all[i].0);
        } else {
            self.p(all[i].0);
        }
        let right = self.binary(c, prec + 1);
        self.depth -= 1;
        match &all[i].2 {
            O::B(b) => Expr::Binary(BinaryExpr { operator: b.clone(), left: bx(left), right: bx(right) }),
            O::L(b) => Expr::Logical(LogicalExpr { operator: b.clone(), left: bx(left), right: bx(right) }),
        }
    }
    fn exponent(&mut self, c: C) -> Expr {
        if self.fuel > 0 && self.chance(8) {
            let l = self.update(c);
            self.p("**");
            self.spend();
            let r = self.exponent(c);
            return Expr::Binary(BinaryExpr { operator: BinaryOperator::PowerOf, left: bx(l), right: bx(r) });
        }
        self.unary(c)
    }
    fn unary(&mut self, c: C) -> Expr {
        if self.fuel > 0 && self.depth < 16 && self.chance(26) {
            self.spend();
            self.depth += 1;
            let k = self.kind(8, 766);
            let r = match k {
                7 if c.asyn => {
                    self.w("await");
                    let e = self.unary(c);
                    Expr::Await(bx(e))
                }
                6 | 7 => {
                    self.w("delete");
                    let n = self.reference_plain(c);
                    self.w(&n);
                    let e = if c.cls && self.fault() {
                        self.faults.push((self.toks.len() - 2, "delete_name_in_class"));
                        id(&n)
                    } else {
                        self.member_suffix(c, id(&n), false)
                    };
                    Expr::Unary(UnaryExpr { operator: UnaryOperator::Delete, prefix: true, argument: bx(e) })
                }
                4 | 5 => {
                    self.w(["typeof", "void"][k - 4]);
                    let e = self.unary(c);
                    let operator = [UnaryOperator::TypeOf, UnaryOperator::Void][k - 4].clone();
                    Expr::Unary(UnaryExpr { operator, prefix: true, argument: bx(e) })
                }
                _ => {
                    self.p(["!", "-", "+", "~"][k]);
                    let e = self.unary(c);
                    let operator = [UnaryOperator::Not, UnaryOperator::Minus, UnaryOperator::Plus, UnaryOperator::Tilde][k].clone();
                    Expr::Unary(UnaryExpr { operator, prefix: true, argument: bx(e) })
                }
            };
            self.depth -= 1;
            return r;
        }
        self.update(c)
    }
    fn update(&mut self, c: C) -> Expr {
        if self.fuel > 0 && self.chance(20) {
            let k = self.ch(4);
            let op = if k % 2 == 0 { UpdateOperator::Increment } else { UpdateOperator::Decrement };
            let s = if k % 2 == 0 { "++" } else { "--" };
            if k < 2 {
                let t = self.simple_target(c);
                self.p(s);
                self.nonl_last();
                return Expr::Update(UpdateExpr { operator: op, prefix: false, argument: bx(t) });
            }
            self.p(s);
            let t = self.simple_target(c);
            return Expr::Update(UpdateExpr { operator: op, prefix: true, argument: bx(t) });
        }
        self.call(c)
    }
    fn args(&mut self, c: C) -> Vec<Expr> {
        let c = C { no_in: false, ..c };
        self.p("(");
        let n = self.many(4);
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.commas.push(self.toks.len());
                self.p(",");
            }
            if self.chance(16) {
                self.p("...");
                let e = self.assign(c);
                v.push(Expr::Spread(bx(e)));
            } else {
                v.push(self.assign(c));
            }
        }
        if n > 0 && self.chance(10) {
            self.p(",");
        }
        self.p(")");
        v
    }
    fn call(&mut self, c: C) -> Expr {
        if self.fuel <= 0 {
            return self.leaf(c);
        }
        let start = self.toks.len();
        let mut e = if c.method && self.chance(40) {
            self.w("super");
            if c.derived && self.chance(100) {
                let a = self.args(c);
                Expr::Call(CallExpr { callee: bx(Expr::Super), arguments: a })
            } else {
                self.member_suffix(c, Expr::Super, false)
            }
        } else if self.chance(14) {
            let (e, complete) = self.new_expr(c);
            if !complete {
                return e;
            }
            e
        } else {
            self.primary(c)
        };
        // suffixes are kept off tokens where the language or the tokenizer would misread them
        let single = self.toks.len() - start == 1;
        let t = self.toks.last().unwrap().clone();
        if t.k == K::Num || (single && t.k == K::Word && (t.s == "async" || t.s == "let")) {
            return e;
        }
        if matches!(e, Expr::Function(_) | Expr::Class(_)) {
            return e;
        }
        let k = [0, 0, 0, 1, 1, 2, 3][self.ch(7)];
        for _ in 0..k {
            if self.fuel <= 0 {
                break;
            }
            self.spend();
            e = match self.kind(5, 872) {
                0 | 1 => {
                    self.depth += 1;
                    let a = self.args(c);
                    self.depth -= 1;
                    Expr::Call(CallExpr { callee: bx(e), arguments: a })
                }
                2 | 3 => self.member_suffix(c, e, false),
                _ if self.on(F_TPL) => {
                    self.depth += 1;
                    let q = self.template(c);
                    self.depth -= 1;
                    Expr::TaggedTemplate(TaggedTemplateExpr { tag: bx(e), quasi: q })
                }
                _ => e,
            };
        }
        e
    }
    /// the expression, and whether anything may be attached to it
    fn new_expr(&mut self, c: C) -> (Expr, bool) {
        self.w("new");
        if c.in_fn && !c.arrow && self.chance(40) {
            self.p(".");
            self.w("target");
            return (Expr::MetaProperty(MetaProperty { meta: "new".into(), property: "target".into() }), true);
        }
        let mut callee = if self.chance(30) {
            self.p("(");
            let e = self.expression(C { no_in: false, ..c });
            self.p(")");
            // a parenthesised arrow or assignment is fine here
            e
        } else if c.method && self.chance(60) {
            self.w("super");
            self.member_suffix(c, Expr::Super, false)
        } else if self.fuel > 0 && self.chance(20) {
            self.spend();
            let (e, complete) = self.new_expr(c);
            if !complete {
                return (Expr::New(NewExpr { callee: bx(e), arguments: vec![] }), false);
            }
            e
        } else {
            let n = self.reference_plain(c);
            self.w(&n);
            id(&n)
        };
        let k = self.ch(3);
        for _ in 0..k {
            callee = if self.on(F_TPL) && self.fuel > 0 && self.chance(20) {
                self.depth += 1;
                let quasi = self.template(c);
                self.depth -= 1;
                Expr::TaggedTemplate(TaggedTemplateExpr { tag: bx(callee), quasi })
            } else {
                self.member_suffix(c, callee, false)
            };
        }
        if self.chance(40) {
            return (Expr::New(NewExpr { callee: bx(callee), arguments: vec![] }), false);
        }
        let arguments = self.args(c);
        (Expr::New(NewExpr { callee: bx(callee), arguments }), true)
    }
    fn leaf(&mut self, c: C) -> Expr {
        match self.kind(8, 917) {
            0..=3 => {
                let n = self.reference(c);
                self.w(&n);
                id(&n)
            }
            4 => {
                let n = self.number();
                self.push(&n, K::Num);
                Expr::Literal(Literal::Number(n))
            }
            5 if !self.banned(B_STR) => {
                let s = self.string();
                self.push(&s, K::Str);
                Expr::Literal(Literal::String(s))
            }
            6 => {
                let b = self.ch(2) == 0;
                self.w(if b { "true" } else { "false" });
                Expr::Literal(Literal::Boolean(b))
            }
            7 => {
                if self.ch(2) == 0 {
                    self.w("this");
                    Expr::This
                } else {
                    self.w("null");
                    id("null")
                }
            }
            _ => {
                self.push("7", K::Num);
                Expr::Literal(Literal::Number("7".into()))
            }
        }
    }
    fn primary(&mut self, c: C) -> Expr {
        if !self.spend() || self.depth > 14 {
            return self.leaf(c);
        }
        self.depth += 1;
        let r = match self.kind(22, 958) {
            0..=7 => self.leaf(c),
            8 | 9 => {
                self.p("(");
                let e = self.expression(C { no_in: false, ..c });
                self.p(")");
                e
            }
            10 | 11 if !self.banned(B_BRACKET) => self.array(c),
            12 | 13 if !self.banned(B_BRACE) && self.on(F_OBJ) => self.object(c),
            14 if !self.banned(B_FUNC) => self.function_expr(c),
            15 if !self.banned(B_CLASS) && self.on(F_CLASS) => self.class_expr(c),
            16 if !self.banned(B_TPL) && self.on(F_TPL) => {
                let t = self.template(c);
                Expr::Literal(Literal::Template(t))
            }
            17 if self.regex_ok() => {
                let (p, f) = self.regex();
                self.push(&format!("/{}/{}", p, f), K::Regex);
                Expr::Literal(Literal::RegEx(RegEx { pattern: p, flags: f }))
            }
            18 if !self.banned(B_ASYNC) && self.on(F_ASYNC) => self.async_function_expr(c, false),
            20 => {
                self.w("import");
                self.p("(");
                let a = self.assign(C { no_in: false, ..c });
                self.p(")");
                Expr::Call(CallExpr { callee: bx(id("import")), arguments: vec![a] })
            }
            _ => self.leaf(c),
        };
        self.depth -= 1;
        r
    }
    fn array(&mut self, c: C) -> Expr {
        let c = C { no_in: false, ..c };
        self.p("[");
        let n = self.many(4);
        let mut v = vec![];
        for i in 0..n {
            match self.kind(10, 992) {
                8 => {
                    self.p(",");
                    v.push(None);
                    continue;
                }
                9 => {
                    self.p("...");
                    let e = self.assign(c);
                    v.push(Some(Expr::Spread(bx(e))));
                }
                _ => v.push(Some(self.assign(c))),
            }
            if i + 1 < n || self.chance(16) {
                self.p(",");
            }
        }
        self.p("]");
        Expr::Array(v)
    }
    fn prop_key(&mut self, c: C, class: bool) -> (PropertyKey, bool) {
        match self.ch(8) {
            0..=3 => {
                let k = self.ch(PROPS.len());
                let s = if PROPS[k] == "async" || PROPS[k] == "static" { "p" } else { PROPS[k] };
                self.w(s);
                (kid(s), false)
            }
            4 => {
                let s = self.string();
                self.push(&s, K::Str);
                (PropertyKey::Literal(Literal::String(s)), false)
            }
            5 => {
                let n = self.number();
                self.push(&n, K::Num);
                (PropertyKey::Literal(Literal::Number(n)), false)
            }
            6 => {
                self.p("[");
                self.depth += 1;
                let e = self.assign(C { no_in: false, ..c });
                self.depth -= 1;
                self.p("]");
                let k = match e {
                    Expr::Literal(Literal::String(_)) | Expr::Literal(Literal::Number(_)) | Expr::Literal(Literal::Boolean(_)) => match e {
                        Expr::Literal(l) => PropertyKey::Literal(l),
                        _ => unreachable!(),
                    },
                    e => PropertyKey::Expr(e),
                };
                (k, true)
            }
            _ => {
                let n = if !class && self.chance(30) { ["constructor", "prototype"][self.ch(2)].to_string() } else { self.fresh("k") };
                self.w(&n);
                (kid(&n), false)
            }
        }
    }
    fn object(&mut self, c: C) -> Expr {
        let c = C { no_in: false, ..c };
        self.p("{");
        let n = self.many(4);
        let mut v = vec![];
        for i in 0..n {
            v.push(self.obj_prop(c));
            if i + 1 < n {
                self.commas.push(self.toks.len());
                self.p(",");
            } else if self.chance(30) {
                self.p(",");
            }
        }
        self.p("}");
        Expr::Object(v)
    }
    fn obj_prop(&mut self, c: C) -> ObjectProperty {
        let init = PropertyKind::Init;
        let p = match self.kind(10, 1071) {
            0..=3 => {
                let (key, computed) = self.prop_key(c, false);
                self.p(":");
                let e = self.assign(c);
                Property { key, value: PropertyValue::Expr(e), kind: init, method: false, computed, short_hand: false }
            }
            4 => {
                let n = self.reference_plain(c);
                self.w(&n);
                Property { key: kid(&n), value: PropertyValue::None, kind: init, method: false, computed: false, short_hand: true }
            }
            5 => {
                let (key, computed) = self.prop_key(c, false);
                let f = self.method_fn(c, false, false, false, None);
                Property { key, value: f, kind: init, method: true, computed, short_hand: false }
            }
            6 => {
                let g = self.ch(2) == 0;
                self.w(if g { "get" } else { "set" });
                let (key, computed) = self.prop_key(c, false);
                let n = self.arity(g);
                let f = self.method_fn(c, false, false, false, Some(n));
                Property { key, value: f, kind: if g { PropertyKind::Get } else { PropertyKind::Set }, method: false, computed, short_hand: false }
            }
            7 if self.on(F_GEN) => {
                self.p("*");
                let (key, computed) = self.prop_key(c, false);
                let f = self.method_fn(c, true, false, false, None);
                Property { key, value: f, kind: init, method: true, computed, short_hand: false }
            }
            8 if self.on(F_ASYNC) => {
                self.w("async");
                let at = self.toks.len();
                let (key, computed) = self.prop_key(c, false);
                self.toks[at].nonl = true;
                let f = self.method_fn(c, false, true, false, None);
                Property { key, value: f, kind: init, method: true, computed, short_hand: false }
            }
            9 => {
                self.p("...");
                let e = self.assign(c);
                return ObjectProperty::Spread(bx(Expr::Spread(bx(e))));
            }
            _ => {
                let n = self.fresh("k");
                self.w(&n);
                self.p(":");
                let e = self.assign(c);
                Property { key: kid(&n), value: PropertyValue::Expr(e), kind: init, method: false, computed: false, short_hand: false }
            }
        };
        ObjectProperty::Property(p)
    }
    /// parameters and body of a method; arity forces the number of plain parameters
    fn method_fn(&mut self, c: C, gen: bool, asyn: bool, derived_ctor: bool, arity: Option<usize>) -> PropertyValue {
        let c2 = C { in_fn: true, gen, asyn, method: true, derived: derived_ctor, arrow: false, in_loop: false, in_switch: false, no_in: false, ..c };
        let saved = self.enter_fn();
        let params = self.params(c2, arity);
        let body = self.function_body(c2);
        self.leave_fn(saved);
        PropertyValue::Expr(Expr::Function(Function { id: None, params, body, generator: gen, is_async: asyn }))
    }
    fn params(&mut self, c: C, arity: Option<usize>) -> Vec<FunctionArg> {
        let c = C { gen: false, asyn: false, no_in: false, method: false, derived: false, arrow: true, ..c };
        self.p("(");
        let n = match arity {
            Some(n) => n,
            None => self.many(4),
        };
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            if arity.is_none() && i + 1 == n && self.chance(30) {
                self.p("...");
                let p = self.binding(c, true);
                v.push(FunctionArg::Pat(Pat::RestElement(Box::new(p))));
            } else {
                let p = if i == 0 && arity.is_none() && self.chance(8) {
                    let nm = self.soft(c);
                    self.w(&nm);
                    Pat::Identifier(nm)
                } else {
                    self.binding_default(c)
                };
                v.push(FunctionArg::Pat(p));
                if i + 1 == n && arity.is_none() && self.chance(20) {
                    self.p(",");
                }
            }
        }
        self.p(")");
        v
    }
    /// a name that is a word elsewhere
    fn soft(&mut self, c: C) -> String {
        let k = self.ch(if c.strict || self.module || !self.on(F_WITH) { 8 } else { SOFT.len() });
        SOFT[k].to_string()
    }
    fn binding_default(&mut self, c: C) -> Pat {
        let p = self.binding(c, true);
        if self.fuel > 0 && self.chance(30) {
            self.p("=");
            // defaults of methods and generators must not use yield as a name
            let r = self.assign(C { arrow: true, ..c });
            return Pat::Assignment(AssignmentPat { left: Box::new(p), right: bx(r) });
        }
        p
    }
    fn binding(&mut self, c: C, pats: bool) -> Pat {
        let k = if pats && self.on(F_PAT) && self.spend() && self.depth < 12 { self.kind(10, 1168) } else { 0 };
        let c = C { no_in: false, ..c };
        match k {
            8 => {
                self.depth += 1;
                self.p("[");
                let n = self.many(4);
                let mut v = vec![];
                for i in 0..n {
                    match self.ch(8) {
                        6 => {
                            self.p(",");
                            v.push(None);
                            continue;
                        }
                        7 if i + 1 == n => {
                            self.p("...");
                            let p = self.binding(c, true);
                            v.push(Some(ArrayPatPart::Pat(Pat::RestElement(Box::new(p)))));
                            break;
                        }
                        _ => {
                            let p = self.binding_default(c);
                            v.push(Some(ArrayPatPart::Pat(p)));
                        }
                    }
                    if i + 1 < n || self.chance(16) {
                        // a rest element may not be followed by a comma, so only after plain ones
                        self.p(",");
                    }
                }
                self.p("]");
                self.depth -= 1;
                Pat::Array(v)
            }
            9 => {
                self.depth += 1;
                self.p("{");
                let n = self.many(4);
                let mut v = vec![];
                for i in 0..n {
                    if i > 0 {
                        self.p(",");
                    }
                    if i + 1 == n && self.chance(30) {
                        self.p("...");
                        let nm = self.fresh("r");
                        self.w(&nm);
                        v.push(ObjectPatPart::Rest(Box::new(Pat::RestElement(Box::new(Pat::Identifier(nm))))));
                        continue;
                    }
                    let pr = match self.ch(4) {
                        0 => {
                            let nm = self.fresh("b");
                            self.w(&nm);
                            Property { key: kid(&nm), value: PropertyValue::None, kind: PropertyKind::Init, method: false, computed: false, short_hand: true }
                        }
                        1 => {
                            let nm = self.fresh("b");
                            self.w(&nm);
                            self.p("=");
                            let e = self.assign(C { arrow: true, ..c });
                            Property { key: kid(&nm), value: PropertyValue::Expr(e), kind: PropertyKind::Init, method: false, computed: false, short_hand: true }
                        }
                        2 => {
                            let nm = self.fresh("b");
                            self.w(&nm);
                            self.p(":");
                            let p = self.binding_default(c);
                            Property { key: kid(&nm), value: PropertyValue::Pat(p), kind: PropertyKind::Init, method: false, computed: false, short_hand: false }
                        }
                        _ => {
                            let (key, computed) = self.prop_key(C { arrow: true, ..c }, false);
                            self.p(":");
                            let p = self.binding_default(c);
                            Property { key, value: PropertyValue::Pat(p), kind: PropertyKind::Init, method: false, computed, short_hand: false }
                        }
                    };
                    v.push(ObjectPatPart::Assignment(pr));
                }
                self.p("}");
                self.depth -= 1;
                Pat::Object(v)
            }
            _ => {
                let nm = self.fresh("d");
                self.w(&nm);
                Pat::Identifier(nm)
            }
        }
    }
    fn function_expr(&mut self, c: C) -> Expr {
        self.w("function");
        let gen = self.on(F_GEN) && self.chance(80);
        if gen {
            self.p("*");
        }
        let id = if self.chance(100) {
            let n = self.fresh("f");
            self.w(&n);
            Some(n)
        } else {
            None
        };
        let c2 = self.fn_ctx(c, gen, false);
        let saved = self.enter_fn();
        let params = self.params(c2, None);
        let body = self.function_body(c2);
        self.leave_fn(saved);
        Expr::Function(Function { id, params, body, generator: gen, is_async: false })
    }
    fn async_function_expr(&mut self, c: C, decl: bool) -> Expr {
        self.w("async");
        self.w("function");
        self.nonl_last();
        let gen = self.on(F_GEN) && self.chance(50) && !decl;
        if gen {
            self.p("*");
        }
        let id = if self.chance(100) {
            let n = self.fresh("f");
            self.w(&n);
            Some(n)
        } else {
            None
        };
        let c2 = self.fn_ctx(c, gen, true);
        let saved = self.enter_fn();
        let params = self.params(c2, None);
        let body = self.function_body(c2);
        self.leave_fn(saved);
        Expr::Function(Function { id, params, body, generator: gen, is_async: true })
    }
    fn fn_ctx(&self, c: C, gen: bool, asyn: bool) -> C {
        C { in_fn: true, gen, asyn, strict: c.strict, no_in: false, method: false, derived: false, in_loop: false, in_switch: false, body: false, arrow: false, cls: c.cls }
    }
    fn function_body(&mut self, c: C) -> Vec<ProgramPart> {
        let labels = std::mem::replace(&mut self.labels, vec![]);
        self.p("{");
        self.depth += 1;
        let mut v = vec![];
        if self.chance(12) {
            let n = 1 + self.ch(2);
            for _ in 0..n {
                v.push(self.directive(false));
            }
        }
        let n = if self.fuel > 0 { self.many(4) } else { 0 };
        for i in 0..n {
            if i == 0 && self.chance(12) {
                v.push(ProgramPart::Stmt(Stmt::Expr(self.string_first(c))));
                continue;
            }
            // a string may not start the first statement after directives: it would be one
            let b = if v.is_empty() || i == 0 { B_STR } else { 0 };
            let p = self.list_item(c, b);
            v.push(p);
        }
        self.depth -= 1;
        self.p("}");
        self.labels = labels;
        v
    }
    /// a statement that starts like a directive and is none
    fn string_first(&mut self, c: C) -> Expr {
        let s = self.string();
        self.push(&s, K::Str);
        let e = Expr::Literal(Literal::String(s));
        let e = match self.ch(6) {
            0 => {
                self.p(",");
                let r = self.assign(c);
                Expr::Sequence(vec![e, r])
            }
            1 => {
                self.p("?");
                let a = self.assign(c);
                self.p(":");
                let b = self.assign(c);
                Expr::Conditional(ConditionalExpr { test: bx(e), consequent: bx(a), alternate: bx(b) })
            }
            2 => {
                self.p("+");
                let r = self.binary(c, 10);
                Expr::Binary(BinaryExpr { operator: BinaryOperator::Plus, left: bx(e), right: bx(r) })
            }
            3 => {
                self.w("in");
                let r = self.binary(c, 8);
                Expr::Binary(BinaryExpr { operator: BinaryOperator::In, left: bx(e), right: bx(r) })
            }
            _ => {
                let m = self.member_suffix(c, e, false);
                if self.ch(2) == 1 {
                    let arguments = self.args(c);
                    Expr::Call(CallExpr { callee: bx(m), arguments })
                } else {
                    m
                }
            }
        };
        self.semi();
        e
    }
    fn directive(&mut self, strict: bool) -> ProgramPart {
        let s = if strict {
            ["'use strict'", "\"use strict\""][self.ch(2)].to_string()
        } else {
            ["'use asm'", "\"hello\"", "'x y'", "\"use  strict\"", "''"][self.ch(5)].to_string()
        };
        self.push(&s, K::Str);
        self.semi();
        let dir = s[1..s.len() - 1].to_string();
        ProgramPart::Dir(Dir { dir, expr: Literal::String(s) })
    }
    // ---------------------------------------------------------------- classes
    fn class_tail(&mut self, c: C) -> (Option<Box<Expr>>, Vec<Property>) {
        let c = C { strict: true, no_in: false, ..c };
        let mut super_class = None;
        if self.chance(90) {
            self.w("extends");
            let e = if self.chance(40) {
                self.p("(");
                let e = self.expression(c);
                self.p(")");
                e
            } else {
                self.heritage(c)
            };
            super_class = Some(bx(e));
        }
        self.p("{");
        let c = C { cls: true, ..c };
        self.depth += 1;
        let n = if self.fuel > 0 { self.many(4) } else { 0 };
        let mut v = vec![];
        let mut ctor = false;
        for _ in 0..n {
            if self.chance(20) {
                self.p(";");
            }
            let p = self.class_el(c, super_class.is_some(), &mut ctor);
            v.push(p);
        }
        self.depth -= 1;
        self.p("}");
        (super_class, v)
    }
    /// what a class extends, when not in parentheses
    fn heritage(&mut self, c: C) -> Expr {
        let k = if self.spend() && self.depth < 10 { self.kind(24, 1404) } else { 0 };
        self.depth += 1;
        let mut e = match k {
            10 => {
                let (e, complete) = self.new_expr(c);
                if !complete {
                    self.depth -= 1;
                    return e;
                }
                e
            }
            11 => self.class_expr(c),
            12 => self.function_expr(c),
            13 => self.array(c),
            14 => {
                self.w("null");
                id("null")
            }
            15 => {
                self.w("this");
                Expr::This
            }
            16 if c.method => {
                self.w("super");
                self.member_suffix(c, Expr::Super, false)
            }
            17 if self.on(F_TPL) => Expr::Literal(Literal::Template(self.template(c))),
            18 => {
                let s = self.string();
                self.push(&s, K::Str);
                Expr::Literal(Literal::String(s))
            }
            19 if self.on(F_OBJ) => self.object(c),
            _ => {
                let n = self.reference_plain(c);
                self.w(&n);
                id(&n)
            }
        };
        for _ in 0..self.ch(3) {
            e = if self.on(F_TPL) && self.fuel > 0 && self.chance(16) {
                let quasi = self.template(c);
                Expr::TaggedTemplate(TaggedTemplateExpr { tag: bx(e), quasi })
            } else {
                self.member_suffix(c, e, false)
            };
        }
        self.depth -= 1;
        e
    }
    fn class_el(&mut self, c: C, derived: bool, ctor: &mut bool) -> Property {
        let k = self.kind(9, 1377);
        if k == 0 && !*ctor {
            *ctor = true;
            self.w("constructor");
            let value = self.method_fn(c, false, false, derived, None);
            return Property { key: kid("constructor"), value, kind: PropertyKind::Ctor, method: true, computed: false, short_hand: false };
        }
        let is_async = k == 5 && self.on(F_ASYNC);
        if !is_async && self.chance(50) {
            self.w("static");
        }
        match k {
            2 | 3 => {
                let g = k == 2;
                self.w(if g { "get" } else { "set" });
                let (key, computed) = self.class_key(c);
                let n = self.arity(g);
                let value = self.method_fn(c, false, false, false, Some(n));
                Property { key, value, kind: if g { PropertyKind::Get } else { PropertyKind::Set }, method: false, computed, short_hand: false }
            }
            4 if self.on(F_GEN) => {
                self.p("*");
                let (key, computed) = self.class_key(c);
                let value = self.method_fn(c, true, false, false, None);
                Property { key, value, kind: PropertyKind::Method, method: true, computed, short_hand: false }
            }
            5 if is_async => {
                self.w("async");
                let at = self.toks.len();
                let (key, computed) = self.class_key(c);
                self.toks[at].nonl = true;
                let value = self.method_fn(c, false, true, false, None);
                Property { key, value, kind: PropertyKind::Method, method: true, computed, short_hand: false }
            }
            _ => {
                let (key, computed) = self.class_key(c);
                let value = self.method_fn(c, false, false, false, None);
                Property { key, value, kind: PropertyKind::Method, method: true, computed, short_hand: false }
            }
        }
    }
    fn class_key(&mut self, c: C) -> (PropertyKey, bool) {
        // not "constructor" and not "prototype"
        self.prop_key(c, true)
    }
    fn class_expr(&mut self, c: C) -> Expr {
        self.w("class");
        let id = if self.chance(128) {
            let n = self.fresh("K");
            self.w(&n);
            Some(n)
        } else {
            None
        };
        let (super_class, body) = self.class_tail(c);
        Expr::Class(Class { id, super_class, body })
    }
    // ---------------------------------------------------------------- statements
    /// a statement list item: declaration or statement
    pub fn list_item(&mut self, c: C, ban: u32) -> ProgramPart {
        let c = C { body: false, ..c };
        if self.spend() {
            match self.kind(12, 1438) {
                1 | 2 => {
                    let d = self.lexical(c);
                    return ProgramPart::Decl(d);
                }
                3 => {
                    let f = self.function_decl(c);
                    return ProgramPart::Decl(Decl::Function(f));
                }
                4 if self.on(F_CLASS) => {
                    self.w("class");
                    let n = self.fresh("K");
                    self.w(&n);
                    let (super_class, body) = self.class_tail(c);
                    return ProgramPart::Decl(Decl::Class(Class { id: Some(n), super_class, body }));
                }
                5 if self.on(F_ASYNC) && self.chance(128) => {
                    return ProgramPart::Stmt(Stmt::Expr(self.async_function_stmt(c)));
                }
                _ => {}
            }
        }
        ProgramPart::Stmt(self.statement(c, ban))
    }
    fn async_function_stmt(&mut self, c: C) -> Expr {
        self.w("async");
        self.w("function");
        self.nonl_last();
        let n = self.fresh("f");
        self.w(&n);
        let c2 = self.fn_ctx(c, false, true);
        let saved = self.enter_fn();
        let params = self.params(c2, None);
        let body = self.function_body(c2);
        self.leave_fn(saved);
        Expr::Function(Function { id: Some(n), params, body, generator: false, is_async: true })
    }
    fn function_decl(&mut self, c: C) -> Function {
        self.w("function");
        let gen = self.on(F_GEN) && self.chance(90);
        if gen {
            self.p("*");
        }
        let n = self.fresh("f");
        self.w(&n);
        let c2 = self.fn_ctx(c, gen, false);
        let saved = self.enter_fn();
        let params = self.params(c2, None);
        let body = self.function_body(c2);
        self.leave_fn(saved);
        Function { id: Some(n), params, body, generator: gen, is_async: false }
    }
    fn lexical(&mut self, c: C) -> Decl {
        let kind = if self.ch(2) == 0 { VariableKind::Let } else { VariableKind::Const };
        self.w(if kind == VariableKind::Let { "let" } else { "const" });
        let d = self.declarators(c, kind == VariableKind::Const);
        self.semi();
        Decl::Variable(kind, d)
    }
    fn declarators(&mut self, c: C, must: bool) -> Vec<VariableDecl> {
        let n = 1 + [0, 0, 0, 1, 2][self.ch(5)];
        let n = if self.big() { n + self.ch(24) } else { n };
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            let p = self.binding(c, true);
            let ident = matches!(p, Pat::Identifier(_));
            let init = if must || !ident || self.chance(160) {
                self.p("=");
                Some(self.assign(c))
            } else {
                None
            };
            v.push(VariableDecl { id: p, init });
        }
        v
    }
    fn block(&mut self, c: C) -> Vec<ProgramPart> {
        self.p("{");
        self.depth += 1;
        let n = if self.fuel > 0 { self.many(4) } else { 0 };
        let mut v = vec![];
        for _ in 0..n {
            let p = self.list_item(c, 0);
            v.push(p);
        }
        self.depth -= 1;
        self.p("}");
        v
    }
    pub fn expr_stmt(&mut self, c: C, ban: u32) -> Expr {
        self.set_ban(B_STMT | ban);
        let start = self.toks.len();
        let e = self.expression(c);
        // `let` followed by certain tokens starts a declaration
        debug_assert!(self.toks[start].s != "let");
        self.semi();
        e
    }
    pub fn statement(&mut self, c: C, ban: u32) -> Stmt {
        if ban == 0 && self.deep() {
            let n = 4 + self.ch(40);
            let kinds = (self.ch(13), self.ch(13));
            let saved = std::mem::replace(&mut self.depth, 4);
            let s = self.deep_stmt(c, n, kinds);
            self.depth = saved;
            return s;
        }
        if !self.spend() || self.depth > 12 {
            return Stmt::Expr(self.expr_stmt(c, ban));
        }
        self.depth += 1;
        let r = self.statement_(c, ban);
        self.depth -= 1;
        r
    }
    /// `if (a) function f() {}`, which only sloppy code may say
    fn if_function(&mut self, c: C) -> Option<Box<Stmt>> {
        if c.strict || self.module || !self.on(F_WITH) || !self.chance(12) {
            return None;
        }
        Some(Box::new(Stmt::Expr(Expr::Function(self.plain_function(c)))))
    }
    fn plain_function(&mut self, c: C) -> Function {
        self.w("function");
        let nm = if self.chance(12) { self.soft(C { strict: true, ..c }) } else { self.fresh("f") };
        self.w(&nm);
        let c2 = self.fn_ctx(c, false, false);
        let saved = self.enter_fn();
        let params = self.params(c2, None);
        let body = self.function_body(c2);
        self.leave_fn(saved);
        Function { id: Some(nm), params, body, generator: false, is_async: false }
    }
    fn body(&mut self, c: C) -> Box<Stmt> {
        // a nested statement; never a declaration, and not an expression that would be a directive
        Box::new(self.statement(C { body: true, ..c }, 0))
    }
    fn closed_body(&mut self, c: C) -> Box<Stmt> {
        // a statement that a following `else` cannot attach into
        match self.ch(3) {
            0 => Box::new(Stmt::Block(self.block(c))),
            1 => {
                let e = self.expr_stmt(c, 0);
                Box::new(Stmt::Expr(e))
            }
            _ => {
                self.p(";");
                Box::new(Stmt::Empty)
            }
        }
    }
    fn statement_(&mut self, c: C, ban: u32) -> Stmt {
        match self.kind(26, 1566) {
            0..=6 => Stmt::Expr(self.expr_stmt(c, ban)),
            7 | 8 => {
                self.w("var");
                if self.chance(12) {
                    let nm = self.soft(c);
                    self.w(&nm);
                    let init = if self.ch(2) == 1 {
                        self.p("=");
                        Some(self.assign(c))
                    } else {
                        None
                    };
                    self.semi();
                    return Stmt::Var(vec![VariableDecl { id: Pat::Identifier(nm), init }]);
                }
                let d = self.declarators(c, false);
                self.semi();
                Stmt::Var(d)
            }
            9 => Stmt::Block(self.block(c)),
            10 | 11 => {
                self.w("if");
                self.p("(");
                let test = self.expression(c_in(c));
                self.p(")");
                if self.ch(2) == 0 {
                    let consequent = match self.if_function(c) {
                        Some(f) => f,
                        None => self.body(c),
                    };
                    Stmt::If(IfStmt { test, consequent, alternate: None })
                } else {
                    let consequent = match self.if_function(c) {
                        Some(f) => f,
                        None => self.closed_body(c),
                    };
                    self.w("else");
                    let alternate = Some(match self.if_function(c) {
                        Some(f) => f,
                        None => self.body(c),
                    });
                    Stmt::If(IfStmt { test, consequent, alternate })
                }
            }
            12 if self.on(F_LOOP) => {
                self.w("while");
                self.p("(");
                let test = self.expression(c_in(c));
                self.p(")");
                let body = self.body(C { in_loop: true, ..c });
                Stmt::While(WhileStmt { test, body })
            }
            13 if self.on(F_LOOP) => {
                self.w("do");
                let body = self.body(C { in_loop: true, ..c });
                self.w("while");
                self.p("(");
                let test = self.expression(c_in(c));
                self.p(")");
                self.semi();
                Stmt::DoWhile(DoWhileStmt { test, body })
            }
            14 | 15 | 16 if self.on(F_LOOP) => self.for_stmt(c),
            17 if self.on(F_SWITCH) => {
                self.w("switch");
                self.p("(");
                let discriminant = self.expression(c_in(c));
                self.p(")");
                self.p("{");
                let n = self.many(4);
                let mut cases = vec![];
                let mut def = false;
                let c2 = C { in_switch: true, ..c };
                for _ in 0..n {
                    let test = if !def && self.chance(60) {
                        def = true;
                        self.w("default");
                        None
                    } else {
                        self.w("case");
                        Some(self.expression(c_in(c)))
                    };
                    self.p(":");
                    let m = self.ch(3);
                    let mut consequent = vec![];
                    for _ in 0..m {
                        let i = self.list_item(c2, 0);
                        consequent.push(i);
                    }
                    cases.push(SwitchCase { test, consequent });
                }
                self.p("}");
                Stmt::Switch(SwitchStmt { discriminant, cases })
            }
            18 if self.on(F_TRY) => {
                self.w("try");
                let block = self.block(c);
                let k = self.ch(3);
                let handler = if k != 1 {
                    self.w("catch");
                    let param = if self.chance(200) {
                        self.p("(");
                        let p = self.binding(c, true);
                        self.p(")");
                        Some(p)
                    } else {
                        None
                    };
                    let body = self.block(c);
                    Some(CatchClause { param, body })
                } else {
                    None
                };
                let finalizer = if k > 0 {
                    self.w("finally");
                    Some(self.block(c))
                } else {
                    None
                };
                Stmt::Try(TryStmt { block, handler, finalizer })
            }
            19 => {
                self.w("throw");
                let at = self.toks.len();
                let e = self.expression(c_in(c));
                self.toks[at].nonl = true;
                self.semi();
                Stmt::Throw(e)
            }
            20 if c.in_fn => {
                self.w("return");
                if self.ch(3) == 0 {
                    self.semi();
                    Stmt::Return(None)
                } else {
                    let at = self.toks.len();
                    let e = self.expression(c_in(c));
                    self.toks[at].nonl = true;
                    self.semi();
                    Stmt::Return(Some(e))
                }
            }
            21 if c.in_loop || c.in_switch || !self.labels.is_empty() => {
                let cont = c.in_loop && self.ch(2) == 1;
                let labels: Vec<String> = self.labels.iter().filter(|l| !cont || l.1).map(|l| l.0.clone()).collect();
                let unlabelled = if cont { c.in_loop } else { c.in_loop || c.in_switch };
                let lab = if !labels.is_empty() && (!unlabelled || self.ch(2) == 1) {
                    let i = self.ch(labels.len());
                    Some(labels[i].clone())
                } else {
                    None
                };
                if lab.is_none() && !unlabelled {
                    self.p(";");
                    return Stmt::Empty;
                }
                self.w(if cont { "continue" } else { "break" });
                if let Some(ref l) = lab {
                    self.w(l);
                    self.nonl_last();
                }
                self.semi();
                if cont {
                    Stmt::Continue(lab)
                } else {
                    Stmt::Break(lab)
                }
            }
            22 if self.on(F_LABEL) => {
                let n = self.label();
                self.w(&n);
                self.p(":");
                let is_loop = self.on(F_LOOP) && self.ch(2) == 1;
                self.labels.push((n.clone(), is_loop));
                let body = if is_loop {
                    self.for_stmt(c)
                } else if self.on(F_WITH) && !c.strict && !self.module && !c.body && self.chance(30) {
                    Stmt::Expr(Expr::Function(self.plain_function(c)))
                } else {
                    self.statement(c, 0)
                };
                self.labels.pop();
                Stmt::Labeled(LabeledStmt { label: n, body: Box::new(body) })
            }
            23 => {
                self.w("debugger");
                self.semi();
                Stmt::Debugger
            }
            24 => {
                self.p(";");
                Stmt::Empty
            }
            25 if self.on(F_WITH) && if c.strict || self.module { c.cls && self.on(F_FAULT) } else { true } => {
                if c.cls {
                    self.faults.push((self.toks.len(), "with_in_class"));
                }
                self.w("with");
                self.p("(");
                let object = self.expression(c_in(c));
                self.p(")");
                let body = self.body(c);
                Stmt::With(WithStmt { object, body })
            }
            _ => Stmt::Expr(self.expr_stmt(c, ban)),
        }
    }
    fn for_stmt(&mut self, c: C) -> Stmt {
        self.w("for");
        let cn = C { no_in: true, ..c };
        let cl = C { in_loop: true, ..c };
        match self.kind(8, 1765) {
            0 => {
                // for (;;)
                self.p("(");
                self.p(";");
                let test = self.opt_expr(c);
                self.p(";");
                let update = self.opt_expr(c);
                self.p(")");
                let body = self.body(cl);
                Stmt::For(ForStmt { init: None, test, update, body })
            }
            1 | 2 => {
                self.p("(");
                let kind = self.for_kind();
                let mut v = vec![];
                let n = 1 + self.ch(2);
                for i in 0..n {
                    if i > 0 {
                        self.p(",");
                    }
                    let p = self.binding(cn, true);
                    let ident = matches!(p, Pat::Identifier(_));
                    let init = if kind == VariableKind::Const || !ident || self.chance(160) {
                        self.p("=");
                        Some(self.assign(cn))
                    } else {
                        None
                    };
                    v.push(VariableDecl { id: p, init });
                }
                self.p(";");
                let test = self.opt_expr(c);
                self.p(";");
                let update = self.opt_expr(c);
                self.p(")");
                let body = self.body(cl);
                Stmt::For(ForStmt { init: Some(LoopInit::Variable(kind, v)), test, update, body })
            }
            3 => {
                self.p("(");
                self.set_ban(B_LET | B_ASYNC);
                let e = self.expression(cn);
                self.p(";");
                let test = self.opt_expr(c);
                self.p(";");
                let update = self.opt_expr(c);
                self.p(")");
                let body = self.body(cl);
                Stmt::For(ForStmt { init: Some(LoopInit::Expr(e)), test, update, body })
            }
            4 => {
                self.p("(");
                let kind = self.for_kind();
                let id = self.binding(cn, true);
                self.w("in");
                let right = self.expression(c_in(c));
                self.p(")");
                let body = self.body(cl);
                Stmt::ForIn(ForInStmt { left: LoopLeft::Variable(kind, VariableDecl { id, init: None }), right, body })
            }
            5 => {
                let is_await = c.asyn && self.ch(2) == 1;
                if is_await {
                    self.w("await");
                }
                self.p("(");
                let kind = self.for_kind();
                let id = self.binding(cn, true);
                self.w("of");
                let right = self.assign(c_in(c));
                self.p(")");
                let body = self.body(cl);
                Stmt::ForOf(ForOfStmt { left: LoopLeft::Variable(kind, VariableDecl { id, init: None }), right, body, is_await })
            }
            6 => {
                self.p("(");
                self.set_ban(B_LET | B_ASYNC);
                let l = if !c.strict && !self.module && self.on(F_WITH) && self.chance(12) {
                    self.w("let");
                    id("let")
                } else {
                    self.for_target(cn)
                };
                self.w("in");
                let right = self.expression(c_in(c));
                self.p(")");
                let body = self.body(cl);
                Stmt::ForIn(ForInStmt { left: LoopLeft::Expr(l), right, body })
            }
            _ => {
                let is_await = c.asyn && self.ch(2) == 1;
                if is_await {
                    self.w("await");
                }
                self.p("(");
                self.set_ban(B_LET | B_ASYNC);
                let l = self.for_target(cn);
                self.w("of");
                let right = self.assign(c_in(c));
                self.p(")");
                let body = self.body(cl);
                Stmt::ForOf(ForOfStmt { left: LoopLeft::Expr(l), right, body, is_await })
            }
        }
    }
    fn for_target(&mut self, c: C) -> Expr {
        match self.kind(8, 1405) {
            6 if self.on(F_PAT) => self.array_target(c),
            7 if self.on(F_PAT) => self.object_target(c),
            _ => self.simple_target(c),
        }
    }
    fn for_kind(&mut self) -> VariableKind {
        match self.ch(3) {
            0 => {
                self.w("let");
                VariableKind::Let
            }
            1 => {
                self.w("var");
                VariableKind::Var
            }
            _ => {
                self.w("const");
                VariableKind::Const
            }
        }
    }
    fn opt_expr(&mut self, c: C) -> Option<Expr> {
        if self.ch(3) == 0 {
            None
        } else {
            Some(self.expression(c_in(c)))
        }
    }
    // ---------------------------------------------------------------- modules
    fn import(&mut self) -> Decl {
        self.w("import");
        let k = self.kind(6, 1888);
        let mut specifiers = vec![];
        let named = |g: &mut G, v: &mut Vec<ImportSpecifier>| {
            g.p("{");
            let n = g.many(3);
            for i in 0..n {
                let (imported, plain) = match g.ch(3) {
                    0 => (g.fresh("i"), true),
                    1 => ("default".to_string(), false),
                    _ => (g.fresh("i"), false),
                };
                g.w(&imported);
                if plain {
                    v.push(ImportSpecifier::Normal(imported, None));
                } else {
                    g.w("as");
                    let l = if imported != "default" && g.ch(6) == 5 { imported.clone() } else { g.fresh("i") };
                    g.w(&l);
                    v.push(ImportSpecifier::Normal(imported, Some(l)));
                }
                if i + 1 < n || g.chance(40) {
                    g.p(",");
                }
            }
            g.p("}");
        };
        let ns = |g: &mut G, v: &mut Vec<ImportSpecifier>| {
            g.p("*");
            g.w("as");
            let n = g.fresh("n");
            g.w(&n);
            v.push(ImportSpecifier::Namespace(n));
        };
        if k != 0 {
            if k == 3 || k == 4 || k == 5 {
                let n = self.fresh("i");
                self.w(&n);
                specifiers.push(ImportSpecifier::Default(n));
                if k != 3 {
                    self.p(",");
                }
            }
            match k {
                1 | 4 => named(self, &mut specifiers),
                2 | 5 => ns(self, &mut specifiers),
                _ => {}
            }
            self.w("from");
        }
        let source = self.string();
        self.push(&source, K::Str);
        self.semi();
        Decl::Import(Box::new(ModImport { specifiers, source: Literal::String(source) }))
    }
    fn export(&mut self, c: C, allow_default: bool) -> (Decl, bool) {
        self.w("export");
        let k = self.kind(14, 1944);
        let mut is_default = false;
        let e = match k {
            0 => {
                let d = self.lexical(c);
                ModExport::Named(NamedExportDecl::Decl(d))
            }
            1 => {
                self.w("var");
                let d = self.declarators(c, false);
                self.semi();
                ModExport::Named(NamedExportDecl::Decl(Decl::Variable(VariableKind::Var, d)))
            }
            2 => {
                let f = self.function_decl(c);
                ModExport::Named(NamedExportDecl::Decl(Decl::Function(f)))
            }
            3 => {
                self.w("class");
                let n = self.fresh("K");
                self.w(&n);
                let (super_class, body) = self.class_tail(c);
                ModExport::Named(NamedExportDecl::Decl(Decl::Class(Class { id: Some(n), super_class, body })))
            }
            4 if self.on(F_ASYNC) => {
                let f = match self.async_function_stmt(c) {
                    Expr::Function(f) => f,
                    _ => unreachable!(),
                };
                ModExport::Named(NamedExportDecl::Decl(Decl::Function(f)))
            }
            5 => {
                self.p("*");
                self.w("from");
                let s = self.string();
                self.push(&s, K::Str);
                self.semi();
                ModExport::All(Literal::String(s))
            }
            6 | 7 => {
                self.p("{");
                let n = self.many(3);
                let mut v = vec![];
                // local names must exist when no `from` follows
                let own = !self.tops.is_empty() && self.ch(2) == 1;
                let n = if own { n.max(1).min(self.tops.len()) } else { n };
                for i in 0..n {
                    let local = match self.ch(2) {
                        _ if own => {
                            let k = self.ch(self.tops.len());
                            self.tops.swap_remove(k)
                        }
                        0 => self.fresh("e"),
                        _ => "default".to_string(),
                    };
                    self.w(&local);
                    let exported = if self.ch(2) == 1 || local == "default" {
                        self.w("as");
                        let x = match self.ch(8) {
                            6 if local != "default" => local.clone(),
                            7 => "default".to_string(),
                            _ => self.fresh("e"),
                        };
                        self.w(&x);
                        Some(x)
                    } else {
                        None
                    };
                    v.push(ExportSpecifier { local, exported });
                    if i + 1 < n || self.chance(40) {
                        self.p(",");
                    }
                }
                self.p("}");
                if own {
                    self.semi();
                    return (Decl::Export(Box::new(ModExport::Named(NamedExportDecl::Specifier(v, None)))), false);
                }
                self.w("from");
                let s = self.string();
                self.push(&s, K::Str);
                self.semi();
                ModExport::Named(NamedExportDecl::Specifier(v, Some(Literal::String(s))))
            }
            8..=12 if allow_default => {
                is_default = true;
                self.w("default");
                let d = match k {
                    8 => {
                        let f = if self.ch(2) == 0 {
                            self.function_decl(c)
                        } else {
                            self.w("function");
                            let c2 = self.fn_ctx(c, false, false);
                            let saved = self.enter_fn();
                            let params = self.params(c2, None);
                            let body = self.function_body(c2);
                            self.leave_fn(saved);
                            Function { id: None, params, body, generator: false, is_async: false }
                        };
                        DefaultExportDecl::Decl(Decl::Function(f))
                    }
                    9 => {
                        self.w("class");
                        let id = if self.ch(2) == 1 {
                            let n = self.fresh("K");
                            self.w(&n);
                            Some(n)
                        } else {
                            None
                        };
                        let (super_class, body) = self.class_tail(c);
                        DefaultExportDecl::Decl(Decl::Class(Class { id, super_class, body }))
                    }
                    11 if self.on(F_ASYNC) => {
                        let e = self.async_function_expr(c, true);
                        DefaultExportDecl::Decl(Decl::Function(match e {
                            Expr::Function(f) => f,
                            _ => unreachable!(),
                        }))
                    }
                    12 if self.on(F_ASYNC) => {
                        let e = if self.on(F_ARROW) && self.ch(4) > 0 {
                            self.async_arrow(c)
                        } else {
                            self.w("async");
                            if self.ch(2) == 1 {
                                let arguments = self.args(c);
                                Expr::Call(CallExpr { callee: bx(id("async")), arguments })
                            } else {
                                id("async")
                            }
                        };
                        self.semi();
                        DefaultExportDecl::Expr(e)
                    }
                    _ => {
                        self.set_ban(B_FUNC | B_CLASS | B_ASYNC | B_LET);
                        let e = self.assign(c);
                        self.semi();
                        DefaultExportDecl::Expr(e)
                    }
                };
                ModExport::Default(d)
            }
            _ => {
                let f = self.function_decl(c);
                ModExport::Named(NamedExportDecl::Decl(Decl::Function(f)))
            }
        };
        (Decl::Export(Box::new(e)), is_default)
    }
    // ---------------------------------------------------------------- top level
    /// One top-level item. `st` carries what later items need to know.
    pub fn item(&mut self, st: &mut TopState) -> Item {
        let start = self.toks.len();
        self.fuel = [3, 6, 10, 16, 24, 40, 70][self.ch(7)];
        self.depth = 0;
        self.long = 0;
        self.labels.clear();
        self.commas.retain(|&x| x < start);
        let strict = self.module || st.strict;
        let c = top(strict);
        let mut kind = "item";
        let mut expr = None;
        let k = self.kind(16, 2072);
        let ast = if st.prologue && k == 15 {
            kind = "directive";
            let s = self.ch(4) == 1;
            if s {
                st.strict = true;
            }
            self.directive(s)
        } else if self.module && (k == 13 || k == 14) {
            st.prologue = false;
            if k == 13 {
                kind = "import";
                ProgramPart::Decl(self.import())
            } else {
                kind = "export";
                let (d, def) = self.export(c, !st.has_default);
                st.has_default |= def;
                ProgramPart::Decl(d)
            }
        } else if st.prologue && k == 12 {
            st.prologue = false;
            kind = "expression";
            let e = self.string_first(c);
            expr = Some(e.clone());
            ProgramPart::Stmt(Stmt::Expr(e))
        } else if k < 3 {
            let ban = if st.prologue { B_STR } else { 0 };
            st.prologue = false;
            kind = "expression";
            let e = self.expr_stmt(c, ban);
            expr = Some(e.clone());
            ProgramPart::Stmt(Stmt::Expr(e))
        } else {
            let ban = if st.prologue { B_STR } else { 0 };
            st.prologue = false;
            self.list_item(c, ban)
        };
        match &ast {
            ProgramPart::Decl(Decl::Function(f)) => self.tops.extend(f.id.clone()),
            ProgramPart::Decl(Decl::Class(c)) => self.tops.extend(c.id.clone()),
            ProgramPart::Decl(Decl::Variable(_, v)) => self.tops.extend(v.iter().filter_map(|v| if let Pat::Identifier(i) = &v.id { Some(i.clone()) } else { None })),
            _ => {}
        }
        let _ = (B_BRACKET, Self::add_ban as fn(&mut G, u32));
        Item { start, end: self.toks.len(), ast, expr, kind }
    }
}
#[derive(Clone, Debug)]
pub struct TopState {
    pub prologue: bool,
    pub strict: bool,
    pub has_default: bool,
}
fn c_in(c: C) -> C {
    C { no_in: false, ..c }
}
