//! What a tree says, read from left to right as a flat sequence of source tokens: every name,
//! keyword, literal, template piece and operator, without the punctuation a tree does not keep.
use resast::prelude::*;
use ress::refs::{RefScanner, RefToken};
use ress::Punct;

#[derive(Default)]
pub struct W {
    pub out: Vec<String>,
}
/// Words the tree cannot account for.
fn ignored(s: &str) -> bool {
    matches!(s, "as" | "static")
}
impl W {
    fn e(&mut self, s: &str) {
        if !ignored(s) {
            self.out.push(s.to_string());
        }
    }
    fn id(&mut self, i: &Option<String>) {
        if let Some(i) = i {
            self.e(i);
        }
    }
    pub fn part(&mut self, p: &ProgramPart) {
        match p {
            ProgramPart::Dir(d) => self.lit(&d.expr),
            ProgramPart::Decl(d) => self.decl(d),
            ProgramPart::Stmt(s) => self.stmt(s),
        }
    }
    fn parts(&mut self, p: &[ProgramPart]) {
        for x in p {
            self.part(x);
        }
    }
    fn kind(&mut self, k: &VariableKind) {
        self.e(match k {
            VariableKind::Var => "var",
            VariableKind::Let => "let",
            VariableKind::Const => "const",
        });
    }
    fn vdecl(&mut self, d: &VariableDecl) {
        self.pat(&d.id);
        if let Some(i) = &d.init {
            self.e("=");
            self.expr(i);
        }
    }
    fn decl(&mut self, d: &Decl) {
        match d {
            Decl::Variable(k, ds) => {
                self.kind(k);
                for d in ds {
                    self.vdecl(d);
                }
            }
            Decl::Function(f) => self.func(f),
            Decl::Class(c) => self.class(c),
            Decl::Import(i) => {
                self.e("import");
                let mut any = false;
                for s in &i.specifiers {
                    any = true;
                    match s {
                        ImportSpecifier::Normal(a, b) => {
                            self.e(a);
                            self.id(b);
                        }
                        ImportSpecifier::Default(a) => self.e(a),
                        ImportSpecifier::Namespace(a) => {
                            self.e("*");
                            self.e(a);
                        }
                    }
                }
                if any {
                    self.e("from");
                } else {
                    self.e("from?");
                }
                self.lit(&i.source);
            }
            Decl::Export(x) => {
                self.e("export");
                match &**x {
                    ModExport::Default(d) => {
                        self.e("default");
                        match d {
                            DefaultExportDecl::Decl(d) => self.decl(d),
                            DefaultExportDecl::Expr(e) => self.expr(e),
                        }
                    }
                    ModExport::All(l) => {
                        self.e("*");
                        self.e("from");
                        self.lit(l);
                    }
                    ModExport::Named(NamedExportDecl::Decl(d)) => self.decl(d),
                    ModExport::Named(NamedExportDecl::Specifier(ss, src)) => {
                        for s in ss {
                            self.e(&s.local);
                            self.id(&s.exported);
                        }
                        if let Some(l) = src {
                            self.e("from");
                            self.lit(l);
                        }
                    }
                }
            }
        }
    }
    fn func(&mut self, f: &Function) {
        if f.is_async {
            self.e("async");
        }
        self.e("function");
        if f.generator {
            self.e("*");
        }
        self.id(&f.id);
        self.args(&f.params);
        self.parts(&f.body);
    }
    fn args(&mut self, a: &[FunctionArg]) {
        for x in a {
            match x {
                FunctionArg::Expr(e) => self.expr(e),
                FunctionArg::Pat(p) => self.pat(p),
            }
        }
    }
    fn class(&mut self, c: &Class) {
        self.e("class");
        self.id(&c.id);
        if let Some(s) = &c.super_class {
            self.e("extends");
            self.expr(s);
        }
        for p in &c.body {
            self.prop(p);
        }
    }
    fn key(&mut self, k: &PropertyKey) {
        match k {
            PropertyKey::Literal(l) => self.lit(l),
            PropertyKey::Expr(e) => self.expr(e),
            PropertyKey::Pat(p) => self.pat(p),
        }
    }
    fn prop(&mut self, p: &Property) {
        if let (PropertyValue::Expr(Expr::Function(f)), true) = (&p.value, p.method || p.kind == PropertyKind::Get || p.kind == PropertyKind::Set) {
            match p.kind {
                PropertyKind::Get => self.e("get"),
                PropertyKind::Set => self.e("set"),
                _ => {}
            }
            if f.is_async {
                self.e("async");
            }
            if f.generator {
                self.e("*");
            }
            self.key(&p.key);
            self.args(&f.params);
            self.parts(&f.body);
            return;
        }
        self.key(&p.key);
        match &p.value {
            PropertyValue::None => {}
            PropertyValue::Expr(e) => {
                if p.short_hand {
                    self.e("=");
                }
                self.expr(e);
            }
            PropertyValue::Pat(q) => {
                if p.short_hand {
                    self.e("=");
                }
                self.pat(q);
            }
        }
    }
    fn pat(&mut self, p: &Pat) {
        match p {
            Pat::Identifier(i) => self.e(i),
            Pat::Object(ps) => {
                for p in ps {
                    match p {
                        ObjectPatPart::Assignment(p) => self.prop(p),
                        ObjectPatPart::Rest(p) => self.pat(p),
                    }
                }
            }
            Pat::Array(ps) => {
                for p in ps {
                    match p {
                        None => {}
                        Some(ArrayPatPart::Pat(p)) => self.pat(p),
                        Some(ArrayPatPart::Expr(e)) => self.expr(e),
                    }
                }
            }
            Pat::RestElement(p) => {
                self.e("...");
                self.pat(p);
            }
            Pat::Assignment(a) => {
                self.pat(&a.left);
                self.e("=");
                self.expr(&a.right);
            }
        }
    }
    fn block(&mut self, b: &[ProgramPart]) {
        self.parts(b);
    }
    fn stmt(&mut self, s: &Stmt) {
        match s {
            Stmt::Expr(e) => self.expr(e),
            Stmt::Block(b) => self.block(b),
            Stmt::Empty => {}
            Stmt::Debugger => self.e("debugger"),
            Stmt::With(w) => {
                self.e("with");
                self.expr(&w.object);
                self.stmt(&w.body);
            }
            Stmt::Return(e) => {
                self.e("return");
                if let Some(e) = e {
                    self.expr(e);
                }
            }
            Stmt::Labeled(l) => {
                self.e(&l.label);
                self.stmt(&l.body);
            }
            Stmt::Break(l) => {
                self.e("break");
                self.id(l);
            }
            Stmt::Continue(l) => {
                self.e("continue");
                self.id(l);
            }
            Stmt::If(i) => {
                self.e("if");
                self.expr(&i.test);
                self.stmt(&i.consequent);
                if let Some(a) = &i.alternate {
                    self.e("else");
                    self.stmt(a);
                }
            }
            Stmt::Switch(s) => {
                self.e("switch");
                self.expr(&s.discriminant);
                for c in &s.cases {
                    match &c.test {
                        Some(t) => {
                            self.e("case");
                            self.expr(t);
                        }
                        None => self.e("default"),
                    }
                    self.parts(&c.consequent);
                }
            }
            Stmt::Throw(e) => {
                self.e("throw");
                self.expr(e);
            }
            Stmt::Try(t) => {
                self.e("try");
                self.block(&t.block);
                if let Some(h) = &t.handler {
                    self.e("catch");
                    if let Some(p) = &h.param {
                        self.pat(p);
                    }
                    self.block(&h.body);
                }
                if let Some(f) = &t.finalizer {
                    self.e("finally");
                    self.block(f);
                }
            }
            Stmt::While(w) => {
                self.e("while");
                self.expr(&w.test);
                self.stmt(&w.body);
            }
            Stmt::DoWhile(w) => {
                self.e("do");
                self.stmt(&w.body);
                self.e("while");
                self.expr(&w.test);
            }
            Stmt::For(f) => {
                self.e("for");
                match &f.init {
                    None => {}
                    Some(LoopInit::Variable(k, ds)) => {
                        self.kind(k);
                        for d in ds {
                            self.vdecl(d);
                        }
                    }
                    Some(LoopInit::Expr(e)) => self.expr(e),
                }
                if let Some(e) = &f.test {
                    self.expr(e);
                }
                if let Some(e) = &f.update {
                    self.expr(e);
                }
                self.stmt(&f.body);
            }
            Stmt::ForIn(f) => {
                self.e("for");
                self.left(&f.left);
                self.e("in");
                self.expr(&f.right);
                self.stmt(&f.body);
            }
            Stmt::ForOf(f) => {
                self.e("for");
                if f.is_await {
                    self.e("await");
                }
                self.left(&f.left);
                self.e("of");
                self.expr(&f.right);
                self.stmt(&f.body);
            }
            Stmt::Var(ds) => {
                self.e("var");
                for d in ds {
                    self.vdecl(d);
                }
            }
        }
    }
    fn left(&mut self, l: &LoopLeft) {
        match l {
            LoopLeft::Expr(e) => self.expr(e),
            LoopLeft::Variable(k, d) => {
                self.kind(k);
                self.vdecl(d);
            }
            LoopLeft::Pat(p) => self.pat(p),
        }
    }
    fn exprs(&mut self, es: &[Expr]) {
        for e in es {
            self.expr(e);
        }
    }
    fn tpl(&mut self, t: &TemplateLiteral) {
        for (i, q) in t.quasis.iter().enumerate() {
            self.e(&q.raw);
            if let Some(e) = t.expressions.get(i) {
                self.expr(e);
            }
        }
    }
    fn lit(&mut self, l: &Literal) {
        match l {
            Literal::Null => self.e("null"),
            Literal::String(s) => self.e(s),
            Literal::Number(n) => self.e(n),
            Literal::Boolean(b) => self.e(if *b { "true" } else { "false" }),
            Literal::RegEx(r) => {
                let s = format!("/{}/{}", r.pattern, r.flags);
                self.e(&s);
            }
            Literal::Template(t) => self.tpl(t),
        }
    }
    pub fn expr(&mut self, x: &Expr) {
        match x {
            Expr::Array(es) => {
                for e in es.iter().flatten() {
                    self.expr(e);
                }
            }
            Expr::ArrowFunction(a) => {
                if a.is_async {
                    self.e("async");
                }
                self.args(&a.params);
                self.e("=>");
                match &a.body {
                    ArrowFunctionBody::FunctionBody(b) => self.parts(b),
                    ArrowFunctionBody::Expr(e) => self.expr(e),
                }
            }
            Expr::ArrowParamPlaceHolder(a, is_async) => {
                if *is_async {
                    self.e("async");
                }
                self.args(a);
            }
            Expr::Assignment(a) => {
                match &a.left {
                    AssignmentLeft::Pat(p) => self.pat(p),
                    AssignmentLeft::Expr(e) => self.expr(e),
                }
                self.e(match a.operator {
                    AssignmentOperator::Equal => "=",
                    AssignmentOperator::PlusEqual => "+=",
                    AssignmentOperator::MinusEqual => "-=",
                    AssignmentOperator::TimesEqual => "*=",
                    AssignmentOperator::DivEqual => "/=",
                    AssignmentOperator::ModEqual => "%=",
                    AssignmentOperator::LeftShiftEqual => "<<=",
                    AssignmentOperator::RightShiftEqual => ">>=",
                    AssignmentOperator::UnsignedRightShiftEqual => ">>>=",
                    AssignmentOperator::OrEqual => "|=",
                    AssignmentOperator::XOrEqual => "^=",
                    AssignmentOperator::AndEqual => "&=",
                    AssignmentOperator::PowerOfEqual => "**=",
                });
                self.expr(&a.right);
            }
            Expr::Await(e) => {
                self.e("await");
                self.expr(e);
            }
            Expr::Binary(b) => {
                self.expr(&b.left);
                self.e(match b.operator {
                    BinaryOperator::Equal => "==",
                    BinaryOperator::NotEqual => "!=",
                    BinaryOperator::StrictEqual => "===",
                    BinaryOperator::StrictNotEqual => "!==",
                    BinaryOperator::LessThan => "<",
                    BinaryOperator::GreaterThan => ">",
                    BinaryOperator::LessThanEqual => "<=",
                    BinaryOperator::GreaterThanEqual => ">=",
                    BinaryOperator::LeftShift => "<<",
                    BinaryOperator::RightShift => ">>",
                    BinaryOperator::UnsignedRightShift => ">>>",
                    BinaryOperator::Plus => "+",
                    BinaryOperator::Minus => "-",
                    BinaryOperator::Times => "*",
                    BinaryOperator::Over => "/",
                    BinaryOperator::Mod => "%",
                    BinaryOperator::Or => "|",
                    BinaryOperator::XOr => "^",
                    BinaryOperator::And => "&",
                    BinaryOperator::In => "in",
                    BinaryOperator::InstanceOf => "instanceof",
                    BinaryOperator::PowerOf => "**",
                });
                self.expr(&b.right);
            }
            Expr::Class(c) => self.class(c),
            Expr::Call(c) => {
                self.expr(&c.callee);
                self.exprs(&c.arguments);
            }
            Expr::Conditional(c) => {
                self.expr(&c.test);
                self.e("?");
                self.expr(&c.consequent);
                self.expr(&c.alternate);
            }
            Expr::Function(f) => self.func(f),
            Expr::Ident(i) => self.e(i),
            Expr::Literal(l) => self.lit(l),
            Expr::Logical(l) => {
                self.expr(&l.left);
                self.e(match l.operator {
                    LogicalOperator::Or => "||",
                    LogicalOperator::And => "&&",
                });
                self.expr(&l.right);
            }
            Expr::Member(m) => {
                self.expr(&m.object);
                self.expr(&m.property);
            }
            Expr::MetaProperty(m) => {
                self.e(&m.meta);
                self.e(&m.property);
            }
            Expr::New(n) => {
                self.e("new");
                self.expr(&n.callee);
                self.exprs(&n.arguments);
            }
            Expr::Object(ps) => {
                for p in ps {
                    match p {
                        ObjectProperty::Property(p) => self.prop(p),
                        ObjectProperty::Spread(e) => self.expr(e),
                    }
                }
            }
            Expr::Sequence(es) => self.exprs(es),
            Expr::Spread(e) => {
                self.e("...");
                self.expr(e);
            }
            Expr::Super => self.e("super"),
            Expr::TaggedTemplate(t) => {
                self.expr(&t.tag);
                self.tpl(&t.quasi);
            }
            Expr::This => self.e("this"),
            Expr::Unary(u) => {
                self.e(match u.operator {
                    UnaryOperator::Minus => "-",
                    UnaryOperator::Plus => "+",
                    UnaryOperator::Not => "!",
                    UnaryOperator::Tilde => "~",
                    UnaryOperator::TypeOf => "typeof",
                    UnaryOperator::Void => "void",
                    UnaryOperator::Delete => "delete",
                });
                self.expr(&u.argument);
            }
            Expr::Update(u) => {
                let op = match u.operator {
                    UpdateOperator::Increment => "++",
                    UpdateOperator::Decrement => "--",
                };
                if u.prefix {
                    self.e(op);
                    self.expr(&u.argument);
                } else {
                    self.expr(&u.argument);
                    self.e(op);
                }
            }
            Expr::Yield(y) => {
                self.e("yield");
                if y.delegate {
                    self.e("*");
                }
                if let Some(a) = &y.argument {
                    self.expr(a);
                }
            }
        }
    }
}
pub fn of_parts(ps: &[ProgramPart]) -> Vec<String> {
    let mut w = W::default();
    w.parts(ps);
    w.out
}
/// The tokens of a text as the tokenizer sees them, up to its end or to where it gives up
/// (it panics on text it cannot tokenize). Comments are left out. The flag says whether the end was reached.
pub fn scan(text: &str) -> (Vec<(String, RefToken, usize, usize)>, bool) {
    let mut out = vec![];
    let mut s = RefScanner::new(text);
    let t = text.to_string();
    let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        while let Some(i) = s.next() {
            if i.token.is_comment() || i.token.is_eof() {
                continue;
            }
            let (a, b) = (i.span.start, i.span.end);
            out.push((t[a..b].to_string(), i.token, a, b));
        }
    }))
    .is_ok();
    (out, done)
}
/// The first bracket (or template substitution) of the text that has no partner
pub fn unpaired(toks: &[(String, RefToken, usize, usize)]) -> Option<usize> {
    let mut open: Vec<(char, usize)> = vec![];
    for (s, t, a, _) in toks {
        match t {
            RefToken::Punct(p) => match p {
                Punct::OpenBrace => open.push(('}', *a)),
                Punct::OpenParen => open.push((')', *a)),
                Punct::OpenBracket => open.push((']', *a)),
                Punct::CloseBrace | Punct::CloseParen | Punct::CloseBracket => match open.pop() {
                    Some((c, _)) if s.starts_with(c) => (),
                    _ => return Some(*a),
                },
                _ => (),
            },
            RefToken::Template(t) => {
                use ress::refs::tokens::Template::*;
                if matches!(t, Body | Tail) {
                    match open.pop() {
                        Some(('`', _)) => (),
                        _ => return Some(*a),
                    }
                }
                if matches!(t, Head | Body) {
                    open.push(('`', *a));
                }
            }
            _ => (),
        }
    }
    open.pop().map(|o| o.1)
}
/// Does the tree keep this token?
pub fn kept(s: &str, t: &RefToken) -> bool {
    match t {
        RefToken::Punct(p) => !matches!(
            p,
            Punct::OpenBrace | Punct::CloseBrace | Punct::OpenParen | Punct::CloseParen | Punct::OpenBracket | Punct::CloseBracket | Punct::Comma | Punct::SemiColon | Punct::Colon | Punct::Period
        ),
        _ => !ignored(s),
    }
}
