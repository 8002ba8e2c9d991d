//! Driving real parsers and writing down everything they do.
use crate::sim::{self, Panic};
use resast::prelude::*;
use ressa::{Builder, CommentHandler, Error, Parser};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub struct ErrInfo {
    pub kind: &'static str,
    pub pos: Option<(usize, usize)>,
    pub msg: String,
    pub shown: String,
}
pub fn err_info(e: &Error) -> ErrInfo {
    let p = |p: &ressa::Position| Some((p.line, p.column));
    let (kind, pos, msg) = match e {
        Error::UnexpectedToken(a, m) => ("UnexpectedToken", p(a), m.clone()),
        Error::UnexpectedEoF => ("UnexpectedEoF", None, String::new()),
        Error::ParseAfterEoF => ("ParseAfterEoF", None, String::new()),
        Error::UnableToReinterpret(a, m, n) => ("UnableToReinterpret", p(a), format!("{} {}", m, n)),
        Error::Redecl(a, m) => ("Redecl", p(a), m.clone()),
        Error::OperationError(a, m) => ("OperationError", p(a), m.clone()),
        Error::InvalidGetterParams(a) => ("InvalidGetterParams", p(a), String::new()),
        Error::InvalidSetterParams(a) => ("InvalidSetterParams", p(a), String::new()),
        Error::NonStrictFeatureInStrictContext(a, m) => ("NonStrict", p(a), m.clone()),
        Error::Other(m) => ("Other", None, m.to_string()),
    };
    ErrInfo { kind, pos, msg, shown: e.to_string() }
}
#[derive(Clone, Debug, PartialEq)]
pub struct ComRec {
    pub start: usize,
    pub end: usize,
    pub kind: u8, // 0 single 1 multi 2 html 3 something else
    pub text: String,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Com(ComRec),
    Item(ProgramPart),
    Err(ErrInfo),
    End,
    Panic(Panic),
}
impl Ev {
    pub fn show(&self) -> String {
        let mut s = match self {
            Ev::Com(c) => format!("comment {}..{} {:?}", c.start, c.end, c.text),
            Ev::Item(p) => format!("item {:?}", p),
            Ev::Err(e) => format!("error {}", e.shown),
            Ev::End => "end".into(),
            Ev::Panic(p) => p.show(),
        };
        if s.len() > 600 {
            let mut i = 600;
            while !s.is_char_boundary(i) {
                i -= 1;
            }
            s.truncate(i);
            s.push('…');
        }
        s
    }
}
pub fn com_rec(i: &ress::Item) -> ComRec {
    match &i.token {
        ress::tokens::Token::Comment(c) => ComRec {
            start: i.span.start,
            end: i.span.end,
            kind: match c.kind {
                ress::CommentKind::Single => 0,
                ress::CommentKind::Multi => 1,
                ress::CommentKind::Html => 2,
            },
            text: if c.tail_content.is_some() { format!("{}<tail {:?}>", c.content, c.tail_content) } else { c.content.clone() },
        },
        t => ComRec { start: i.span.start, end: i.span.end, kind: 3, text: format!("{:?}", t) },
    }
}
pub trait AnyP {
    fn pull(&mut self) -> Option<Result<ProgramPart, Error>>;
    fn rest(&mut self) -> Result<Program, Error>;
    fn expr(&mut self) -> Result<Expr, Error>;
    /// through another Iterator method
    fn nth0(&mut self) -> Option<Result<ProgramPart, Error>>;
    fn take_n(&mut self, n: usize) -> Vec<Result<ProgramPart, Error>>;
    fn nth_n(&mut self, n: usize) -> Option<Result<ProgramPart, Error>>;
    fn skip_take(&mut self, n: usize, m: usize) -> Vec<Result<ProgramPart, Error>>;
    fn step_take(&mut self, k: usize, m: usize) -> Vec<Result<ProgramPart, Error>>;
    fn peeked(&mut self) -> (bool, Option<Result<ProgramPart, Error>>);
    fn hint(&self) -> (usize, Option<usize>);
    fn into_count(self: Box<Self>) -> usize;
    fn into_last(self: Box<Self>) -> Option<Result<ProgramPart, Error>>;
    fn into_result(self: Box<Self>) -> Result<Vec<ProgramPart>, Error>;
    fn into_fold(self: Box<Self>) -> Vec<Result<ProgramPart, Error>>;
    fn into_loop(self: Box<Self>) -> Vec<Result<ProgramPart, Error>>;
}
impl<C: CommentHandler + Sized> AnyP for Parser<C> {
    fn pull(&mut self) -> Option<Result<ProgramPart, Error>> {
        self.next()
    }
    fn rest(&mut self) -> Result<Program, Error> {
        self.parse()
    }
    fn expr(&mut self) -> Result<Expr, Error> {
        self.parse_expression()
    }
    fn nth0(&mut self) -> Option<Result<ProgramPart, Error>> {
        self.nth(0)
    }
    fn take_n(&mut self, n: usize) -> Vec<Result<ProgramPart, Error>> {
        self.by_ref().take(n).collect()
    }
    fn nth_n(&mut self, n: usize) -> Option<Result<ProgramPart, Error>> {
        self.nth(n)
    }
    fn skip_take(&mut self, n: usize, m: usize) -> Vec<Result<ProgramPart, Error>> {
        self.by_ref().skip(n).take(m).collect()
    }
    fn step_take(&mut self, k: usize, m: usize) -> Vec<Result<ProgramPart, Error>> {
        self.by_ref().step_by(k).take(m).collect()
    }
    fn peeked(&mut self) -> (bool, Option<Result<ProgramPart, Error>>) {
        let mut i = self.by_ref().peekable();
        (i.peek().is_some(), i.next())
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.size_hint()
    }
    fn into_count(self: Box<Self>) -> usize {
        (*self).count()
    }
    fn into_last(self: Box<Self>) -> Option<Result<ProgramPart, Error>> {
        (*self).last()
    }
    fn into_result(self: Box<Self>) -> Result<Vec<ProgramPart>, Error> {
        (*self).collect()
    }
    fn into_fold(self: Box<Self>) -> Vec<Result<ProgramPart, Error>> {
        (*self).fold(vec![], |mut v, x| {
            v.push(x);
            v
        })
    }
    fn into_loop(self: Box<Self>) -> Vec<Result<ProgramPart, Error>> {
        let mut v = vec![];
        for x in *self {
            v.push(x);
        }
        v
    }
}
pub type P = Box<dyn AnyP + Send>;
pub type Coms = Arc<Mutex<Vec<ComRec>>>;
/// All handlers come as one of two types, a closure or a type of its own, so that the parser is
/// compiled for few of them.
pub type H = Box<dyn FnMut(ress::Item) + Send>;
pub struct Struct(pub H);
impl CommentHandler for Struct {
    fn handle_comment(&mut self, c: ress::Item) {
        (self.0)(c)
    }
}
pub fn recorder(coms: &Coms) -> H {
    let k = coms.clone();
    Box::new(move |i: ress::Item| k.lock().unwrap().push(com_rec(&i)))
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cfg {
    pub module: bool,
    pub tolerant: bool,
    /// 0 no handler, 1 closure, 2 a type, 3 Parser::new where that is the same
    pub ctor: u32,
}
pub fn cfg(module: bool, tolerant: bool, ctor: u32) -> Cfg {
    Cfg { module, tolerant, ctor: ctor % 4 }
}
pub fn make(text: &str, c: Cfg, coms: &Coms) -> Result<P, Error> {
    if c.ctor == 3 && !c.module && !c.tolerant {
        return Ok(Box::new(Parser::new(text)?));
    }
    let mut b = Builder::new();
    b.module(c.module).tolerant(c.tolerant).js(text);
    match c.ctor {
        1 => Ok(Box::new(b.with_comment_handler(recorder(coms))?)),
        2 => Ok(Box::new(b.with_comment_handler(Struct(recorder(coms)))?)),
        _ => Ok(Box::new(b.build()?)),
    }
}
/// A parser together with what has been seen of it.
pub struct Watch {
    pub p: Option<P>,
    pub coms: Coms,
    pub evs: Vec<Ev>,
    pub stopped: bool,
}
impl Watch {
    pub fn new(text: &str, c: Cfg) -> Watch {
        let coms: Coms = Default::default();
        let r = sim::guard(|| make(text, c, &coms));
        Watch::from(r, coms)
    }
    pub fn from(r: Result<Result<P, Error>, Panic>, coms: Coms) -> Watch {
        let mut w = Watch { p: None, coms, evs: vec![], stopped: false };
        w.drain();
        match r {
            Ok(Ok(p)) => w.p = Some(p),
            Ok(Err(e)) => {
                w.evs.push(Ev::Err(err_info(&e)));
                w.stopped = true;
            }
            Err(p) => {
                w.evs.push(Ev::Panic(p));
                w.stopped = true;
            }
        }
        w
    }
    pub fn drain(&mut self) {
        let v = match self.coms.lock() {
            Ok(mut g) => std::mem::take(&mut *g),
            Err(e) => std::mem::take(&mut *e.into_inner()),
        };
        for c in v {
            self.evs.push(Ev::Com(c));
        }
    }
    fn record(&mut self, r: Result<Option<Result<ProgramPart, Error>>, Panic>) {
        self.drain();
        match r {
            Ok(Some(Ok(i))) => self.evs.push(Ev::Item(i)),
            Ok(Some(Err(e))) => self.evs.push(Ev::Err(err_info(&e))),
            Ok(None) => {
                self.evs.push(Ev::End);
                self.stopped = true;
            }
            Err(p) => {
                self.evs.push(Ev::Panic(p));
                self.stopped = true;
            }
        }
    }
    /// one pull; false once there is nothing more to see
    pub fn pull(&mut self) -> bool {
        if self.stopped || self.p.is_none() {
            return false;
        }
        let p = self.p.as_mut().unwrap();
        let r = sim::guard(|| p.pull());
        self.record(r);
        !self.stopped
    }
    pub fn all(&mut self, cap: usize) {
        let mut n = 0;
        while n < cap && self.pull() {
            n += 1;
        }
    }
}
pub fn observe(text: &str, c: Cfg, cap: usize) -> Vec<Ev> {
    let mut w = Watch::new(text, c);
    w.all(cap);
    w.evs
}
pub fn items(evs: &[Ev]) -> Vec<&ProgramPart> {
    evs.iter().filter_map(|e| if let Ev::Item(p) = e { Some(p) } else { None }).collect()
}
pub fn first_err(evs: &[Ev]) -> Option<&ErrInfo> {
    evs.iter().find_map(|e| if let Ev::Err(p) = e { Some(p) } else { None })
}
pub fn panic_of(evs: &[Ev]) -> Option<&Panic> {
    evs.iter().find_map(|e| if let Ev::Panic(p) = e { Some(p) } else { None })
}
pub fn show(evs: &[Ev]) -> String {
    evs.iter().map(|e| e.show()).collect::<Vec<_>>().join("\n      ")
}
