//! A small Solidity interpreter: enough of the language to run the generated verifier contract,
//! with a byte-addressed memory, inline assembly and the three bn256 precompiles.

use num::bigint::{BigInt, BigUint, Sign};
use num::{One, ToPrimitive, Zero};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    /// the call reverts
    Revert(String),
    /// the contract is not valid Solidity
    Bad(String),
    /// outside the subset understood here
    Unsupported(String),
}
type Res<T> = Result<T, Stop>;
fn bad<T, S: Into<String>>(s: S) -> Res<T> {
    Err(Stop::Bad(s.into()))
}
fn unsup<T, S: Into<String>>(s: S) -> Res<T> {
    Err(Stop::Unsupported(s.into()))
}
fn revert<T, S: Into<String>>(s: S) -> Res<T> {
    Err(Stop::Revert(s.into()))
}

// ------------------------------------------------------------------ tokens

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Id(String),
    Num(BigUint),
    Str(String),
    P(&'static str),
    End,
}
const PUNCT: &[&str] = &[
    ">>=", "<<=", "**", ":=", "=>", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "++", "--", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "->", "{", "}", "(", ")", "[", "]", ";", ",", ".", "+", "-", "*", "/", "%", "<", ">", "=", "!", "?", ":", "&",
    "|", "^", "~", "@",
];
fn lex(s: &str) -> Res<Vec<Tok>> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && b.get(i + 1) == Some(&'*') {
            let mut j = i + 2;
            while j + 1 < b.len() && !(b[j] == '*' && b[j + 1] == '/') {
                j += 1;
            }
            if j + 1 >= b.len() {
                return bad("comment is not closed");
            }
            i = j + 2;
        } else if c.is_alphabetic() || c == '_' || c == '$' {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || b[i] == '$') {
                i += 1;
            }
            out.push(Tok::Id(b[st..i].iter().collect()));
        } else if c.is_ascii_digit() {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let t: String = b[st..i].iter().filter(|c| **c != '_').collect();
            let n = if t.starts_with("0x") || t.starts_with("0X") {
                BigUint::parse_bytes(t[2..].as_bytes(), 16)
            } else {
                BigUint::parse_bytes(t.as_bytes(), 10)
            };
            match n {
                Some(n) => {
                    if t.len() > 1 && t.starts_with('0') && !t.starts_with("0x") {
                        return bad("octal literal");
                    }
                    out.push(Tok::Num(n))
                }
                None => return unsup(format!("number {}", t)),
            }
        } else if c == '"' || c == '\'' {
            let mut j = i + 1;
            let mut t = String::new();
            while j < b.len() && b[j] != c {
                if b[j] == '\\' {
                    j += 1;
                }
                if j < b.len() {
                    t.push(b[j]);
                }
                j += 1;
            }
            if j >= b.len() {
                return bad("string is not closed");
            }
            out.push(Tok::Str(t));
            i = j + 1;
        } else {
            let rest: String = b[i..b.len().min(i + 3)].iter().collect();
            match PUNCT.iter().find(|p| rest.starts_with(**p)) {
                Some(p) => {
                    out.push(Tok::P(p));
                    i += p.len();
                }
                None => return bad(format!("character {:?}", c)),
            }
        }
    }
    // brackets must balance whatever else is supported
    let mut st = vec![];
    for t in &out {
        match t {
            Tok::P(p @ ("(" | "[" | "{")) => st.push(*p),
            Tok::P(p @ (")" | "]" | "}")) => {
                let o = st.pop();
                if !matches!((o, *p), (Some("("), ")") | (Some("["), "]") | (Some("{"), "}")) {
                    return bad("unbalanced brackets");
                }
            }
            _ => {}
        }
    }
    if !st.is_empty() {
        return bad("unbalanced brackets");
    }
    out.push(Tok::End);
    Ok(out)
}

// ------------------------------------------------------------------ syntax

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Uint(u32),
    Bool,
    Struct(String),
    Fix(Box<Ty>, usize),
    Dyn(Box<Ty>),
}
#[derive(Debug, Clone)]
enum TyX {
    Name(Vec<String>),
    Arr(Box<TyX>, Option<Box<Ex>>),
}
#[derive(Debug, Clone)]
enum Ex {
    Num(BigUint),
    Bool(bool),
    Str,
    Id(String),
    Mem(Box<Ex>, String),
    Idx(Box<Ex>, Box<Ex>),
    Call(Box<Ex>, Vec<Ex>),
    Named(Box<Ex>, Vec<(String, Ex)>),
    New(TyX, Box<Ex>),
    Arr(Vec<Ex>),
    Tuple(Vec<Option<Ex>>),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Un(&'static str, Box<Ex>),
    Pre(&'static str, Box<Ex>),
    Post(&'static str, Box<Ex>),
    Asg(&'static str, Box<Ex>, Box<Ex>),
    Cond(Box<Ex>, Box<Ex>, Box<Ex>),
}
#[derive(Debug, Clone)]
enum St {
    Block(Vec<St>),
    Decl(TyX, String, Option<Ex>),
    TupDecl(Vec<Option<(TyX, String)>>, Ex),
    Ex(Ex),
    If(Ex, Box<St>, Option<Box<St>>),
    For(Option<Box<St>>, Option<Ex>, Option<Ex>, Box<St>),
    While(Ex, Box<St>),
    Do(Box<St>, Ex),
    Ret(Option<Ex>),
    Break,
    Cont,
    Asm(Vec<Yul>),
    Unchecked(Vec<St>),
}
#[derive(Debug, Clone)]
enum Yul {
    Block(Vec<Yul>),
    Let(Vec<String>, Option<YEx>),
    Set(Vec<String>, YEx),
    If(YEx, Vec<Yul>),
    Switch(YEx, Vec<(Option<BigUint>, Vec<Yul>)>),
    For(Vec<Yul>, YEx, Vec<Yul>, Vec<Yul>),
    Ex(YEx),
    Break,
    Cont,
    Fun(String, Vec<String>, Vec<String>, Rc<Vec<Yul>>),
    Leave,
}
#[derive(Debug, Clone)]
enum YEx {
    Num(BigUint),
    Id(String),
    Call(String, Vec<YEx>),
}
#[derive(Debug, Clone)]
struct Fun {
    unit: String,
    params: Vec<(TyX, String)>,
    rets: Vec<(TyX, String)>,
    body: Rc<Vec<St>>,
}
#[derive(Debug, Clone, Default)]
struct Unit {
    library: bool,
    structs: Vec<String>,
    consts: BTreeMap<String, (Option<TyX>, Option<Ex>)>,
    funs: BTreeMap<String, Vec<Rc<Fun>>>,
    using: Vec<String>,
}

struct Ps {
    t: Vec<Tok>,
    i: usize,
}
const MODS: &[&str] = &["public", "external", "internal", "private", "view", "pure", "virtual", "override", "payable"];

impl Ps {
    fn peek(&self) -> &Tok {
        &self.t[self.i.min(self.t.len() - 1)]
    }
    fn at(&self, k: usize) -> &Tok {
        &self.t[(self.i + k).min(self.t.len() - 1)]
    }
    fn next(&mut self) -> Tok {
        let t = self.peek().clone();
        self.i += 1;
        t
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), Tok::P(x) if *x == p)
    }
    fn isk(&self, k: &str) -> bool {
        matches!(self.peek(), Tok::Id(x) if x == k)
    }
    fn eat(&mut self, p: &str) -> bool {
        if self.is(p) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatk(&mut self, k: &str) -> bool {
        if self.isk(k) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, p: &str) -> Res<()> {
        if self.eat(p) {
            Ok(())
        } else {
            unsup(format!("expected {} near {:?}", p, &self.t[self.i.saturating_sub(3)..(self.i + 4).min(self.t.len())]))
        }
    }
    fn id(&mut self) -> Res<String> {
        match self.next() {
            Tok::Id(s) => Ok(s),
            t => unsup(format!("expected a name, found {:?}", t)),
        }
    }
    fn skip_to_semi(&mut self) -> Res<()> {
        while !self.is(";") {
            if *self.peek() == Tok::End {
                return unsup("missing ;");
            }
            self.i += 1;
        }
        self.i += 1;
        Ok(())
    }
    fn path(&mut self) -> Res<Vec<String>> {
        let mut v = vec![self.id()?];
        while self.is(".") && matches!(self.at(1), Tok::Id(_)) {
            self.i += 1;
            v.push(self.id()?);
        }
        Ok(v)
    }
    fn ty(&mut self) -> Res<TyX> {
        let mut t = TyX::Name(self.path()?);
        while self.eat("[") {
            if self.eat("]") {
                t = TyX::Arr(Box::new(t), None);
            } else {
                let e = self.ex()?;
                self.want("]")?;
                t = TyX::Arr(Box::new(t), Some(Box::new(e)));
            }
        }
        Ok(t)
    }
    fn loc(&mut self) {
        while self.eatk("memory") || self.eatk("calldata") || self.eatk("storage") {}
    }
    fn params(&mut self) -> Res<Vec<(TyX, String)>> {
        self.want("(")?;
        let mut v = vec![];
        if self.eat(")") {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            self.loc();
            let n = if matches!(self.peek(), Tok::Id(_)) { self.id()? } else { String::new() };
            v.push((t, n));
            if self.eat(")") {
                return Ok(v);
            }
            self.want(",")?;
        }
    }

    // expressions, lowest precedence first
    fn ex(&mut self) -> Res<Ex> {
        let l = self.cond()?;
        for op in &["=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="] {
            if self.eat(op) {
                let r = self.ex()?;
                let o: &'static str = &op[..op.len() - 1];
                return Ok(Ex::Asg(o, Box::new(l), Box::new(r)));
            }
        }
        Ok(l)
    }
    fn cond(&mut self) -> Res<Ex> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let a = self.ex()?;
            self.want(":")?;
            let b = self.ex()?;
            return Ok(Ex::Cond(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn bin(&mut self, lvl: usize) -> Res<Ex> {
        const L: &[&[&str]] = &[&["||"], &["&&"], &["==", "!="], &["<", ">", "<=", ">="], &["|"], &["^"], &["&"], &["<<", ">>"], &["+", "-"], &["*", "/", "%"]];
        if lvl == L.len() {
            return self.pow();
        }
        let mut a = self.bin(lvl + 1)?;
        'o: loop {
            for op in L[lvl] {
                if self.eat(op) {
                    let b = self.bin(lvl + 1)?;
                    a = Ex::Bin(op, Box::new(a), Box::new(b));
                    continue 'o;
                }
            }
            return Ok(a);
        }
    }
    fn pow(&mut self) -> Res<Ex> {
        let a = self.unary()?;
        if self.eat("**") {
            let b = self.pow()?;
            return Ok(Ex::Bin("**", Box::new(a), Box::new(b)));
        }
        Ok(a)
    }
    fn unary(&mut self) -> Res<Ex> {
        for op in &["!", "-", "~"] {
            if self.eat(op) {
                return Ok(Ex::Un(op, Box::new(self.unary()?)));
            }
        }
        for op in &["++", "--"] {
            if self.eat(op) {
                return Ok(Ex::Pre(op, Box::new(self.unary()?)));
            }
        }
        self.postfix()
    }
    fn postfix(&mut self) -> Res<Ex> {
        let mut e = self.prim()?;
        loop {
            if self.eat(".") {
                e = Ex::Mem(Box::new(e), self.id()?);
            } else if self.eat("[") {
                let i = self.ex()?;
                self.want("]")?;
                e = Ex::Idx(Box::new(e), Box::new(i));
            } else if self.eat("(") {
                if self.eat("{") {
                    let mut v = vec![];
                    while !self.eat("}") {
                        let n = self.id()?;
                        self.want(":")?;
                        v.push((n, self.ex()?));
                        if !self.is("}") {
                            self.want(",")?;
                        }
                    }
                    self.want(")")?;
                    e = Ex::Named(Box::new(e), v);
                } else {
                    let a = self.args(")")?;
                    e = Ex::Call(Box::new(e), a);
                }
            } else if self.eat("++") {
                e = Ex::Post("++", Box::new(e));
            } else if self.eat("--") {
                e = Ex::Post("--", Box::new(e));
            } else {
                return Ok(e);
            }
        }
    }
    fn args(&mut self, close: &str) -> Res<Vec<Ex>> {
        let mut v = vec![];
        if self.eat(close) {
            return Ok(v);
        }
        loop {
            v.push(self.ex()?);
            if self.eat(close) {
                return Ok(v);
            }
            self.want(",")?;
        }
    }
    fn prim(&mut self) -> Res<Ex> {
        match self.next() {
            Tok::Num(n) => {
                if let Tok::Id(u) = self.peek() {
                    if ["wei", "gwei", "ether", "seconds", "minutes", "hours", "days", "weeks"].contains(&u.as_str()) {
                        return unsup("number unit");
                    }
                }
                Ok(Ex::Num(n))
            }
            Tok::Str(_) => {
                while matches!(self.peek(), Tok::Str(_)) {
                    self.i += 1;
                }
                Ok(Ex::Str)
            }
            Tok::Id(s) => match s.as_str() {
                "true" => Ok(Ex::Bool(true)),
                "false" => Ok(Ex::Bool(false)),
                "new" => {
                    let t = self.ty()?;
                    self.want("(")?;
                    let mut a = self.args(")")?;
                    if a.len() != 1 {
                        return unsup("new");
                    }
                    Ok(Ex::New(t, Box::new(a.remove(0))))
                }
                _ => Ok(Ex::Id(s)),
            },
            Tok::P("(") => {
                let mut v = vec![];
                loop {
                    if self.is(",") {
                        v.push(None);
                    } else if self.is(")") {
                        if !v.is_empty() {
                            v.push(None);
                        }
                    } else {
                        v.push(Some(self.ex()?));
                    }
                    if self.eat(")") {
                        break;
                    }
                    self.want(",")?;
                }
                if v.len() == 1 {
                    return Ok(v.remove(0).unwrap());
                }
                Ok(Ex::Tuple(v))
            }
            Tok::P("[") => Ok(Ex::Arr(self.args("]")?)),
            t => unsup(format!("expression starting with {:?}", t)),
        }
    }

    // statements
    fn block(&mut self) -> Res<Vec<St>> {
        self.want("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            if *self.peek() == Tok::End {
                return bad("unexpected end of file");
            }
            v.push(self.st()?);
        }
        Ok(v)
    }
    /// a declaration looks like `path [dims] [location] name`
    fn looks_decl(&self) -> bool {
        let mut k = 0;
        if !matches!(self.at(k), Tok::Id(_)) {
            return false;
        }
        k += 1;
        while matches!(self.at(k), Tok::P(".")) && matches!(self.at(k + 1), Tok::Id(_)) {
            k += 2;
        }
        while matches!(self.at(k), Tok::P("[")) {
            let mut d = 0;
            loop {
                match self.at(k) {
                    Tok::P("[") => d += 1,
                    Tok::P("]") => d -= 1,
                    Tok::End => return false,
                    _ => {}
                }
                k += 1;
                if d == 0 {
                    break;
                }
            }
        }
        matches!(self.at(k), Tok::Id(_))
    }
    fn simple(&mut self) -> Res<St> {
        if self.is("(") {
            // (uint a, , uint b) = f();
            let save = self.i;
            self.i += 1;
            let mut v = vec![];
            let mut ok = true;
            let mut any = false;
            loop {
                if self.is(",") || self.is(")") {
                    v.push(None);
                } else if self.looks_decl() {
                    let t = self.ty()?;
                    self.loc();
                    v.push(Some((t, self.id()?)));
                    any = true;
                } else {
                    ok = false;
                    break;
                }
                if self.eat(")") {
                    break;
                }
                if !self.eat(",") {
                    ok = false;
                    break;
                }
            }
            if ok && any && self.eat("=") {
                let e = self.ex()?;
                return Ok(St::TupDecl(v, e));
            }
            self.i = save;
        }
        if self.looks_decl() {
            let t = self.ty()?;
            self.loc();
            let n = self.id()?;
            let e = if self.eat("=") { Some(self.ex()?) } else { None };
            return Ok(St::Decl(t, n, e));
        }
        Ok(St::Ex(self.ex()?))
    }
    fn st(&mut self) -> Res<St> {
        if self.is("{") {
            return Ok(St::Block(self.block()?));
        }
        if self.eatk("if") {
            self.want("(")?;
            let c = self.ex()?;
            self.want(")")?;
            let a = self.st()?;
            let b = if self.eatk("else") { Some(Box::new(self.st()?)) } else { None };
            return Ok(St::If(c, Box::new(a), b));
        }
        if self.eatk("for") {
            self.want("(")?;
            let i = if self.eat(";") {
                None
            } else {
                let s = self.simple()?;
                self.want(";")?;
                Some(Box::new(s))
            };
            let c = if self.is(";") { None } else { Some(self.ex()?) };
            self.want(";")?;
            let u = if self.is(")") { None } else { Some(self.ex()?) };
            self.want(")")?;
            return Ok(St::For(i, c, u, Box::new(self.st()?)));
        }
        if self.eatk("while") {
            self.want("(")?;
            let c = self.ex()?;
            self.want(")")?;
            return Ok(St::While(c, Box::new(self.st()?)));
        }
        if self.eatk("do") {
            let b = self.st()?;
            if !self.eatk("while") {
                return unsup("do without while");
            }
            self.want("(")?;
            let c = self.ex()?;
            self.want(")")?;
            self.want(";")?;
            return Ok(St::Do(Box::new(b), c));
        }
        if self.eatk("return") {
            let e = if self.is(";") { None } else { Some(self.ex()?) };
            self.want(";")?;
            return Ok(St::Ret(e));
        }
        if self.isk("break") && matches!(self.at(1), Tok::P(";")) {
            self.i += 2;
            return Ok(St::Break);
        }
        if self.isk("continue") && matches!(self.at(1), Tok::P(";")) {
            self.i += 2;
            return Ok(St::Cont);
        }
        if self.isk("unchecked") && matches!(self.at(1), Tok::P("{")) {
            self.i += 1;
            return Ok(St::Unchecked(self.block()?));
        }
        if self.isk("assembly") {
            self.i += 1;
            while matches!(self.peek(), Tok::Str(_)) {
                self.i += 1;
            }
            if self.is("(") {
                while !self.eat(")") {
                    self.i += 1;
                }
            }
            return Ok(St::Asm(self.yblock()?));
        }
        for k in &["try", "emit", "throw", "delete"] {
            if self.isk(k) {
                return unsup(*k);
            }
        }
        let s = self.simple()?;
        self.want(";")?;
        Ok(s)
    }
    fn yblock(&mut self) -> Res<Vec<Yul>> {
        self.want("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            v.push(self.yst()?);
        }
        Ok(v)
    }
    fn ynames(&mut self) -> Res<Vec<String>> {
        let mut v = vec![self.id()?];
        while self.eat(",") {
            v.push(self.id()?);
        }
        Ok(v)
    }
    fn yst(&mut self) -> Res<Yul> {
        if self.is("{") {
            return Ok(Yul::Block(self.yblock()?));
        }
        if self.eatk("let") {
            let n = self.ynames()?;
            let e = if self.eat(":=") { Some(self.yex()?) } else { None };
            return Ok(Yul::Let(n, e));
        }
        if self.eatk("if") {
            let e = self.yex()?;
            return Ok(Yul::If(e, self.yblock()?));
        }
        if self.eatk("switch") {
            let e = self.yex()?;
            let mut v = vec![];
            loop {
                if self.eatk("case") {
                    let n = match self.next() {
                        Tok::Num(n) => n,
                        Tok::Id(s) if s == "true" => BigUint::one(),
                        Tok::Id(s) if s == "false" => BigUint::zero(),
                        t => return unsup(format!("case {:?}", t)),
                    };
                    v.push((Some(n), self.yblock()?));
                } else if self.eatk("default") {
                    v.push((None, self.yblock()?));
                } else {
                    return Ok(Yul::Switch(e, v));
                }
            }
        }
        if self.eatk("for") {
            let i = self.yblock()?;
            let c = self.yex()?;
            let u = self.yblock()?;
            return Ok(Yul::For(i, c, u, self.yblock()?));
        }
        if self.eatk("break") {
            return Ok(Yul::Break);
        }
        if self.eatk("continue") {
            return Ok(Yul::Cont);
        }
        if self.eatk("leave") {
            return Ok(Yul::Leave);
        }
        if self.eatk("function") {
            let n = self.id()?;
            self.want("(")?;
            let p = if self.is(")") { vec![] } else { self.ynames()? };
            self.want(")")?;
            let r = if self.eat("->") { self.ynames()? } else { vec![] };
            let b = self.yblock()?;
            return Ok(Yul::Fun(n, p, r, Rc::new(b)));
        }
        // assignment or expression
        let save = self.i;
        if matches!(self.peek(), Tok::Id(_)) {
            if let Ok(n) = self.ynames() {
                if self.eat(":=") {
                    return Ok(Yul::Set(n, self.yex()?));
                }
            }
            self.i = save;
        }
        Ok(Yul::Ex(self.yex()?))
    }
    fn yex(&mut self) -> Res<YEx> {
        match self.next() {
            Tok::Num(n) => Ok(YEx::Num(n)),
            Tok::Id(s) => {
                if self.eat("(") {
                    let mut v = vec![];
                    if self.eat(")") {
                        return Ok(YEx::Call(s, v));
                    }
                    loop {
                        v.push(self.yex()?);
                        if self.eat(")") {
                            return Ok(YEx::Call(s, v));
                        }
                        self.want(",")?;
                    }
                }
                match s.as_str() {
                    "true" => Ok(YEx::Num(BigUint::one())),
                    "false" => Ok(YEx::Num(BigUint::zero())),
                    _ => Ok(YEx::Id(s)),
                }
            }
            t => unsup(format!("assembly {:?}", t)),
        }
    }
}

// ------------------------------------------------------------------ program

pub struct Program {
    units: BTreeMap<String, Unit>,
    /// member layout, keyed by "Unit.Struct"
    structs: HashMap<String, Vec<(String, Ty)>>,
    checked: bool,
}

#[derive(Debug, Clone, PartialEq)]
enum V {
    Lit(BigInt),
    U(u32, BigUint),
    B(bool),
    Ref(Ty, usize),
    Str,
    Tup(Vec<V>),
    Void,
}
fn mobile(n: &BigInt) -> Res<u32> {
    if n.sign() == Sign::Minus {
        return unsup("signed numbers");
    }
    let b = n.bits().max(1);
    let b = (b + 7) / 8 * 8;
    if b > 256 {
        return bad("literal does not fit 256 bits");
    }
    Ok(b as u32)
}
fn mask(b: u32) -> BigUint {
    (BigUint::one() << b as usize) - 1u32
}
/// literals take the smallest type they fit, as in array literals
fn settle(v: V) -> Res<V> {
    Ok(match v {
        V::Lit(n) => {
            let b = mobile(&n)?;
            V::U(b, n.to_biguint().unwrap())
        }
        v => v,
    })
}
impl V {
    fn ty(&self) -> Res<Ty> {
        Ok(match self {
            V::Lit(n) => Ty::Uint(mobile(n)?),
            V::U(b, _) => Ty::Uint(*b),
            V::B(_) => Ty::Bool,
            V::Ref(t, _) => t.clone(),
            _ => return unsup("value without a memory type"),
        })
    }
    fn bool(&self) -> Res<bool> {
        match self {
            V::B(b) => Ok(*b),
            _ => bad("condition is not a boolean"),
        }
    }
}

fn split_version(t: &str) -> Option<(u32, u32)> {
    let d: String = t.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit() || *c == '.').collect();
    let mut p = d.split('.');
    Some((p.next()?.parse().ok()?, p.next()?.parse().ok()?))
}

impl Program {
    pub fn parse(src: &str) -> Res<Self> {
        if src.contains("<%") || src.contains("%>") {
            return bad("a placeholder is left in the contract");
        }
        // the pragma is not made of ordinary tokens
        let mut text = String::new();
        let mut checked = false;
        for line in src.lines() {
            let l = line.trim_start();
            if l.starts_with("pragma") {
                if !l.trim_end().ends_with(';') {
                    return unsup("pragma over several lines");
                }
                if let (true, Some((ma, mi))) = (l.contains("solidity"), split_version(l)) {
                    checked = ma > 0 || mi >= 8;
                }
                text.push('\n');
            } else {
                text.push_str(line);
                text.push('\n');
            }
        }
        let mut p = Ps { t: lex(&text)?, i: 0 };
        let mut units: BTreeMap<String, Unit> = BTreeMap::new();
        let mut raw: Vec<(String, String, Vec<(TyX, String)>)> = vec![];
        while *p.peek() != Tok::End {
            if p.eatk("import") {
                return unsup("import");
            }
            if p.isk("abstract") {
                p.i += 1;
            }
            let library = p.isk("library");
            if !(library || p.isk("contract")) {
                return unsup(format!("top level {:?}", p.peek()));
            }
            p.i += 1;
            let name = p.id()?;
            if p.isk("is") {
                return unsup("inheritance");
            }
            if units.contains_key(&name) {
                return bad(format!("{} is declared twice", name));
            }
            let mut u = Unit { library, ..Default::default() };
            p.want("{")?;
            while !p.eat("}") {
                if p.eatk("struct") {
                    let n = p.id()?;
                    p.want("{")?;
                    let mut m = vec![];
                    while !p.eat("}") {
                        let t = p.ty()?;
                        let f = p.id()?;
                        p.want(";")?;
                        m.push((t, f));
                    }
                    u.structs.push(n.clone());
                    raw.push((name.clone(), n, m));
                } else if p.eatk("using") {
                    let lib = p.path()?;
                    u.using.push(lib.join("."));
                    p.skip_to_semi()?;
                } else if p.isk("function") {
                    p.i += 1;
                    let n = p.id()?;
                    let params = p.params()?;
                    let mut rets = vec![];
                    loop {
                        if p.eatk("returns") {
                            rets = p.params()?;
                        } else if MODS.iter().any(|m| p.eatk(m)) {
                        } else {
                            break;
                        }
                    }
                    let body = if p.is("{") { Rc::new(p.block()?) } else { return unsup("function without a body or with a modifier") };
                    u.funs.entry(n).or_default().push(Rc::new(Fun { unit: name.clone(), params, rets, body }));
                } else if ["modifier", "constructor", "event", "enum", "error", "fallback", "receive", "mapping"].iter().any(|k| p.isk(k)) {
                    return unsup(format!("{:?}", p.peek()));
                } else {
                    let t = p.ty()?;
                    let mut c = false;
                    loop {
                        if p.eatk("constant") || p.eatk("immutable") {
                            c = true;
                        } else if MODS.iter().any(|m| p.eatk(m)) {
                        } else {
                            break;
                        }
                    }
                    let n = p.id()?;
                    let e = if p.eat("=") { Some(p.ex()?) } else { None };
                    p.want(";")?;
                    if !c || e.is_none() {
                        return unsup("state variable");
                    }
                    u.consts.insert(n, (Some(t), e));
                }
            }
            units.insert(name, u);
        }
        let mut pr = Program { units, structs: HashMap::new(), checked };
        // struct members may refer to structs declared later; resolve until stable
        let mut left = raw;
        while !left.is_empty() {
            let before = left.len();
            let mut next = vec![];
            for (unit, n, m) in left {
                let mut out = vec![];
                let mut ok = true;
                for (t, f) in &m {
                    match pr.resolve(t, &unit) {
                        Ok(t) => out.push((f.clone(), t)),
                        Err(Stop::Bad(_)) => {
                            ok = false;
                            break;
                        }
                        Err(e) => return Err(e),
                    }
                }
                if ok {
                    pr.structs.insert(format!("{}.{}", unit, n), out);
                } else {
                    next.push((unit, n, m));
                }
            }
            if next.len() == before {
                let (unit, n, m) = &next[0];
                for (t, _) in m {
                    pr.resolve(t, unit)?;
                }
                return bad(format!("structure {} cannot be resolved", n));
            }
            left = next;
        }
        Ok(pr)
    }
    fn resolve(&self, t: &TyX, unit: &str) -> Res<Ty> {
        match t {
            TyX::Name(p) => {
                if p.len() == 1 {
                    let n = p[0].as_str();
                    if n == "uint" {
                        return Ok(Ty::Uint(256));
                    }
                    if n == "bytes32" {
                        return unsup("bytes32");
                    }
                    if let Some(b) = n.strip_prefix("uint") {
                        if let Ok(b) = b.parse::<u32>() {
                            if b >= 8 && b <= 256 && b % 8 == 0 {
                                return Ok(Ty::Uint(b));
                            }
                        }
                    }
                    if n == "bool" {
                        return Ok(Ty::Bool);
                    }
                    if n.starts_with("int") || n.starts_with("bytes") || n == "address" || n == "string" || n == "mapping" || n == "function" {
                        return unsup(n);
                    }
                    let k = format!("{}.{}", unit, n);
                    if self.structs.contains_key(&k) {
                        return Ok(Ty::Struct(k));
                    }
                    return bad(format!("unknown type {}", n));
                }
                let k = p.join(".");
                if self.structs.contains_key(&k) {
                    Ok(Ty::Struct(k))
                } else {
                    bad(format!("unknown type {}", k))
                }
            }
            TyX::Arr(t, None) => Ok(Ty::Dyn(Box::new(self.resolve(t, unit)?))),
            TyX::Arr(t, Some(n)) => {
                let k = self.const_ex(n, unit)?;
                let k = match k.to_usize() {
                    Some(k) if k <= 1 << 20 => k,
                    _ => return bad("array length"),
                };
                if k == 0 {
                    return bad("array of length zero");
                }
                Ok(Ty::Fix(Box::new(self.resolve(t, unit)?), k))
            }
        }
    }
    fn const_ex(&self, e: &Ex, unit: &str) -> Res<BigUint> {
        match e {
            Ex::Num(n) => Ok(n.clone()),
            Ex::Id(n) => match self.units.get(unit).and_then(|u| u.consts.get(n)) {
                Some((_, Some(e))) => self.const_ex(e, unit),
                _ => bad(format!("{} is not a constant", n)),
            },
            Ex::Bin("+", a, b) => Ok(self.const_ex(a, unit)? + self.const_ex(b, unit)?),
            Ex::Bin("*", a, b) => Ok(self.const_ex(a, unit)? * self.const_ex(b, unit)?),
            Ex::Bin("-", a, b) => {
                let (a, b) = (self.const_ex(a, unit)?, self.const_ex(b, unit)?);
                if a < b {
                    return bad("negative array length");
                }
                Ok(a - b)
            }
            _ => unsup("array length expression"),
        }
    }
    /// declared element counts of the array arguments of a function
    pub fn signature(&self, unit: &str, f: &str) -> Res<Vec<Ty>> {
        let u = match self.units.get(unit) {
            Some(u) => u,
            None => return bad(format!("no contract {}", unit)),
        };
        match u.funs.get(f) {
            Some(v) if v.len() == 1 => v[0].params.iter().map(|(t, _)| self.resolve(t, unit)).collect(),
            Some(_) => unsup("overloaded entry point"),
            None => bad(format!("no function {}", f)),
        }
    }
}

// ------------------------------------------------------------------ execution

pub type Precompile = fn(u64, &[u8], &BigUint) -> Option<Vec<u8>>;

enum Flow {
    Go,
    Ret(V),
    Break,
    Cont,
    Leave,
}
struct Frame {
    unit: String,
    scopes: Vec<HashMap<String, (Ty, V)>>,
}
pub struct Vm<'a> {
    p: &'a Program,
    mem: Vec<u8>,
    fr: Vec<Frame>,
    steps: usize,
    retdata: Vec<u8>,
    checked: bool,
    pre: Precompile,
    yfun: HashMap<String, (Vec<String>, Vec<String>, Rc<Vec<Yul>>)>,
}
const STEP_LIMIT: usize = 4_000_000;
const MEM_LIMIT: usize = 1 << 24;
const BUILTIN: &[&str] = &["msg", "block", "tx", "keccak256", "sha256", "ripemd160", "ecrecover", "abi", "this", "address", "gasleft", "now", "type", "blockhash", "payable", "super"];

impl<'a> Vm<'a> {
    pub fn new(p: &'a Program, pre: Precompile) -> Self {
        Vm { p, mem: vec![0; 0x80], fr: vec![], steps: 0, retdata: vec![], checked: p.checked, pre, yfun: HashMap::new() }
    }
    /// call a contract function on arrays of words; returns a boolean
    pub fn call_arrays(&mut self, unit: &str, f: &str, args: &[Vec<BigUint>]) -> Res<bool> {
        let sig = self.p.signature(unit, f)?;
        if sig.len() != args.len() {
            return bad(format!("{} takes {} arguments", f, sig.len()));
        }
        let mut vs = vec![];
        for (t, a) in sig.iter().zip(args) {
            match t {
                Ty::Fix(e, n) if **e == Ty::Uint(256) => {
                    if *n != a.len() {
                        return bad(format!("argument declared with {} elements instead of {}", n, a.len()));
                    }
                    let p = self.alloc(32 * n)?;
                    for (i, x) in a.iter().enumerate() {
                        self.store(p + 32 * i, x)?;
                    }
                    vs.push(V::Ref(t.clone(), p));
                }
                Ty::Dyn(e) if **e == Ty::Uint(256) => {
                    let p = self.alloc(32 * (a.len() + 1))?;
                    self.store(p, &BigUint::from(a.len()))?;
                    for (i, x) in a.iter().enumerate() {
                        self.store(p + 32 * (i + 1), x)?;
                    }
                    vs.push(V::Ref(t.clone(), p));
                }
                _ => return unsup("argument type"),
            }
        }
        let fun = self.p.units[unit].funs[f][0].clone();
        match self.invoke(&fun, vs)? {
            V::B(b) => Ok(b),
            _ => unsup("result is not a boolean"),
        }
    }
    fn tick(&mut self) -> Res<()> {
        self.steps += 1;
        if self.steps > STEP_LIMIT {
            return revert("out of gas");
        }
        Ok(())
    }
    // ---- memory
    fn touch(&mut self, end: usize) -> Res<()> {
        if end > MEM_LIMIT {
            return revert("out of gas (memory)");
        }
        if self.mem.len() < end {
            self.mem.resize((end + 31) / 32 * 32, 0);
        }
        Ok(())
    }
    fn load(&mut self, p: usize) -> Res<BigUint> {
        self.touch(p.saturating_add(32))?;
        Ok(BigUint::from_bytes_be(&self.mem[p..p + 32]))
    }
    fn store(&mut self, p: usize, v: &BigUint) -> Res<()> {
        self.touch(p.saturating_add(32))?;
        let b = v.to_bytes_be();
        if b.len() > 32 {
            return unsup("wide store");
        }
        for x in &mut self.mem[p..p + 32] {
            *x = 0;
        }
        self.mem[p + 32 - b.len()..p + 32].copy_from_slice(&b);
        Ok(())
    }
    fn alloc(&mut self, n: usize) -> Res<usize> {
        let mut free = match self.load(0x40)?.to_usize() {
            Some(0) => 0x80,
            Some(f) => f,
            None => return revert("out of gas (memory)"),
        };
        free = (free + 31) / 32 * 32;
        self.touch(free.saturating_add(n))?;
        for b in &mut self.mem[free..free + n] {
            *b = 0;
        }
        self.store(0x40, &BigUint::from(free + n))?;
        Ok(free)
    }
    /// a fresh zero value of the type
    fn zero(&mut self, t: &Ty) -> Res<V> {
        Ok(match t {
            Ty::Uint(b) => V::U(*b, BigUint::zero()),
            Ty::Bool => V::B(false),
            Ty::Struct(k) => {
                let m = self.p.structs[k].clone();
                let p = self.alloc(32 * m.len())?;
                for (i, (_, t)) in m.iter().enumerate() {
                    let v = self.zero(t)?;
                    self.put(p + 32 * i, &v)?;
                }
                V::Ref(t.clone(), p)
            }
            Ty::Fix(e, n) => {
                let p = self.alloc(32 * n)?;
                for i in 0..*n {
                    let v = self.zero(e)?;
                    self.put(p + 32 * i, &v)?;
                }
                V::Ref(t.clone(), p)
            }
            Ty::Dyn(_) => {
                let p = self.alloc(32)?;
                V::Ref(t.clone(), p)
            }
        })
    }
    fn put(&mut self, p: usize, v: &V) -> Res<()> {
        match v {
            V::U(_, n) => self.store(p, &n.clone()),
            V::B(b) => self.store(p, &BigUint::from(*b as u8)),
            V::Ref(_, q) => self.store(p, &BigUint::from(*q)),
            _ => unsup("store of this value"),
        }
    }
    fn get(&mut self, p: usize, t: &Ty) -> Res<V> {
        let w = self.load(p)?;
        Ok(match t {
            Ty::Uint(b) => V::U(*b, w & mask(*b)),
            Ty::Bool => V::B(!w.is_zero()),
            t => match w.to_usize() {
                Some(q) => V::Ref(t.clone(), q),
                None => return revert("wild pointer"),
            },
        })
    }
    /// implicit conversion
    fn conv(&mut self, v: V, t: &Ty) -> Res<V> {
        match (v, t) {
            (V::Lit(n), Ty::Uint(b)) => {
                if mobile(&n)? > *b {
                    return bad(format!("literal does not fit uint{}", b));
                }
                Ok(V::U(*b, n.to_biguint().unwrap()))
            }
            (V::U(a, n), Ty::Uint(b)) => {
                if a > *b {
                    return bad(format!("uint{} does not convert to uint{}", a, b));
                }
                Ok(V::U(*b, n))
            }
            (V::B(x), Ty::Bool) => Ok(V::B(x)),
            (V::Ref(a, p), b) => {
                if a == *b {
                    Ok(V::Ref(a, p))
                } else {
                    bad(format!("{:?} does not convert to {:?}", a, b))
                }
            }
            (v, t) => bad(format!("{:?} does not convert to {:?}", v, t)),
        }
    }
    // ---- names
    fn unit(&self) -> String {
        self.fr.last().unwrap().unit.clone()
    }
    fn local(&mut self, n: &str) -> Option<&mut (Ty, V)> {
        self.fr.last_mut().unwrap().scopes.iter_mut().rev().find_map(|s| s.get_mut(n))
    }
    fn declare(&mut self, n: &str, t: Ty, v: V) -> Res<()> {
        let s = self.fr.last_mut().unwrap().scopes.last_mut().unwrap();
        if !n.is_empty() && s.insert(n.to_string(), (t, v)).is_some() {
            return bad(format!("{} is declared twice", n));
        }
        Ok(())
    }
    fn constant(&mut self, unit: &str, n: &str) -> Res<Option<V>> {
        let c = match self.p.units.get(unit).and_then(|u| u.consts.get(n)) {
            Some(c) => c.clone(),
            None => return Ok(None),
        };
        self.fr.push(Frame { unit: unit.to_string(), scopes: vec![HashMap::new()] });
        let v = self.ex(c.1.as_ref().unwrap());
        self.fr.pop();
        let t = self.p.resolve(c.0.as_ref().unwrap(), unit)?;
        Ok(Some(self.conv(v?, &t)?))
    }
    // ---- calls
    fn invoke(&mut self, f: &Rc<Fun>, args: Vec<V>) -> Res<V> {
        self.tick()?;
        if self.fr.len() > 200 {
            return revert("stack");
        }
        let mut sc = HashMap::new();
        for ((t, n), v) in f.params.iter().zip(args) {
            let t = self.p.resolve(t, &f.unit)?;
            let v = self.conv(v, &t)?;
            if !n.is_empty() && sc.insert(n.clone(), (t, v)).is_some() {
                return bad(format!("{} is declared twice", n));
            }
        }
        let mut rt = vec![];
        for (i, (t, n)) in f.rets.iter().enumerate() {
            let t = self.p.resolve(t, &f.unit)?;
            let v = self.zero(&t)?;
            let n = if n.is_empty() { format!("#ret{}", i) } else { n.clone() };
            if sc.insert(n.clone(), (t.clone(), v)).is_some() {
                return bad(format!("{} is declared twice", n));
            }
            rt.push((n, t));
        }
        self.fr.push(Frame { unit: f.unit.clone(), scopes: vec![sc] });
        let keep = self.checked;
        self.checked = self.p.checked;
        let body = f.body.clone();
        let r = self.block(&body);
        self.checked = keep;
        let r = match r {
            Ok(Flow::Ret(V::Tup(vs))) if rt.len() != 1 => {
                if vs.len() != rt.len() {
                    Err(Stop::Bad("wrong number of returned values".into()))
                } else {
                    let mut out = vec![];
                    let mut err = None;
                    for (v, (_, t)) in vs.into_iter().zip(&rt) {
                        match self.conv(v, t) {
                            Ok(v) => out.push(v),
                            Err(e) => {
                                err = Some(e);
                                break;
                            }
                        }
                    }
                    match err {
                        Some(e) => Err(e),
                        None => Ok(V::Tup(out)),
                    }
                }
            }
            Ok(Flow::Ret(V::Void)) | Ok(Flow::Go) => {
                let fr = self.fr.last().unwrap();
                let vs: Vec<V> = rt.iter().map(|(n, _)| fr.scopes[0][n].1.clone()).collect();
                Ok(match vs.len() {
                    0 => V::Void,
                    1 => vs.into_iter().next().unwrap(),
                    _ => V::Tup(vs),
                })
            }
            Ok(Flow::Ret(v)) => {
                if rt.len() == 1 {
                    self.conv(v, &rt[0].1)
                } else if rt.is_empty() {
                    // `return f();` of a function without results is accepted by the compiler
                    Ok(V::Void)
                } else {
                    Err(Stop::Bad("wrong number of returned values".into()))
                }
            }
            Ok(_) => Err(Stop::Bad("break outside a loop".into())),
            Err(e) => Err(e),
        };
        self.fr.pop();
        r
    }
    fn find_fun(&self, unit: &str, n: &str, k: usize) -> Option<Res<Rc<Fun>>> {
        let v = self.p.units.get(unit)?.funs.get(n)?;
        let m: Vec<_> = v.iter().filter(|f| f.params.len() == k).collect();
        Some(match m.len() {
            1 => Ok(m[0].clone()),
            0 => bad(format!("{} called with {} arguments", n, k)),
            _ => unsup("overloaded function"),
        })
    }
    fn construct(&mut self, key: &str, args: Vec<V>) -> Res<V> {
        let m = self.p.structs[key].clone();
        if m.len() != args.len() {
            return bad(format!("{} has {} members, {} given", key, m.len(), args.len()));
        }
        let p = self.alloc(32 * m.len())?;
        for (i, ((_, t), v)) in m.iter().zip(args).enumerate() {
            let v = self.conv(v, t)?;
            self.put(p + 32 * i, &v)?;
        }
        Ok(V::Ref(Ty::Struct(key.into()), p))
    }
    fn struct_key(&self, e: &Ex) -> Option<String> {
        match e {
            Ex::Id(n) => {
                let k = format!("{}.{}", self.unit(), n);
                self.p.structs.get(&k).map(|_| k)
            }
            Ex::Mem(u, n) => match &**u {
                Ex::Id(u) => {
                    let k = format!("{}.{}", u, n);
                    self.p.structs.get(&k).map(|_| k)
                }
                _ => None,
            },
            _ => None,
        }
    }
    fn call(&mut self, f: &Ex, args: &[Ex]) -> Res<V> {
        self.tick()?;
        if let Some(k) = self.struct_key(f) {
            let a = self.exs(args)?;
            return self.construct(&k, a);
        }
        match f {
            Ex::Id(n) => {
                match n.as_str() {
                    "require" | "assert" => {
                        if args.is_empty() || args.len() > 2 {
                            return bad(n.clone());
                        }
                        if !self.ex(&args[0])?.bool()? {
                            return revert(n.clone());
                        }
                        return Ok(V::Void);
                    }
                    "revert" => return revert("revert"),
                    "addmod" | "mulmod" => {
                        let a = self.exs(args)?;
                        if a.len() != 3 {
                            return bad(n.clone());
                        }
                        let mut w = vec![];
                        for x in a {
                            match self.conv(x, &Ty::Uint(256))? {
                                V::U(_, x) => w.push(x),
                                _ => return bad(n.clone()),
                            }
                        }
                        if w[2].is_zero() {
                            return revert("modulo zero");
                        }
                        let r = if n == "addmod" { (&w[0] + &w[1]) % &w[2] } else { (&w[0] * &w[1]) % &w[2] };
                        return Ok(V::U(256, r));
                    }
                    _ => {}
                }
                if let Ok(Ty::Uint(b)) = self.p.resolve(&TyX::Name(vec![n.clone()]), "") {
                    if args.len() != 1 {
                        return bad("conversion");
                    }
                    return match settle(self.ex(&args[0])?)? {
                        V::U(_, x) => Ok(V::U(b, x & mask(b))),
                        _ => unsup("conversion"),
                    };
                }
                let u = self.unit();
                let f = match self.find_fun(&u, n, args.len()) {
                    Some(f) => f?,
                    None if BUILTIN.contains(&n.as_str()) => return unsup(n.clone()),
                    None => return bad(format!("unknown function {}", n)),
                };
                let a = self.exs(args)?;
                self.invoke(&f, a)
            }
            Ex::Mem(o, n) => {
                if let Ex::Id(u) = &**o {
                    if self.local(u).is_none() && self.p.units.contains_key(u) {
                        if !self.p.units[u].library {
                            return unsup("call of another contract");
                        }
                        let f = match self.find_fun(u, n, args.len()) {
                            Some(f) => f?,
                            None => return bad(format!("unknown function {}.{}", u, n)),
                        };
                        let a = self.exs(args)?;
                        return self.invoke(&f, a);
                    }
                    if self.local(u).is_none() && BUILTIN.contains(&u.as_str()) {
                        return unsup(u.clone());
                    }
                }
                let v = self.ex(o)?;
                let u = self.unit();
                let libs = self.p.units[&u].using.clone();
                for l in libs {
                    if let Some(f) = self.find_fun(&l, n, args.len() + 1) {
                        let mut a = vec![v];
                        a.extend(self.exs(args)?);
                        return self.invoke(&f?, a);
                    }
                }
                unsup(format!("member call {}", n))
            }
            _ => unsup("call"),
        }
    }
    // ---- expressions
    fn exs(&mut self, es: &[Ex]) -> Res<Vec<V>> {
        es.iter().map(|e| self.ex(e)).collect()
    }
    fn place(&mut self, e: &Ex) -> Res<(usize, Ty)> {
        match e {
            Ex::Mem(o, n) => match self.ex(o)? {
                V::Ref(Ty::Struct(k), p) => {
                    let m = &self.p.structs[&k];
                    match m.iter().position(|(f, _)| f == n) {
                        Some(i) => Ok((p + 32 * i, m[i].1.clone())),
                        None => bad(format!("no member {}", n)),
                    }
                }
                _ => bad(format!("member {} of something without members", n)),
            },
            Ex::Idx(o, i) => {
                let b = self.ex(o)?;
                let i = match settle(self.ex(i)?)? {
                    V::U(_, n) => n,
                    _ => return bad("index is not a number"),
                };
                match b {
                    V::Ref(Ty::Fix(e, n), p) => match i.to_usize() {
                        Some(i) if i < n => Ok((p + 32 * i, *e)),
                        _ => revert("index out of range"),
                    },
                    V::Ref(Ty::Dyn(e), p) => {
                        let n = self.load(p)?;
                        if i >= n {
                            return revert("index out of range");
                        }
                        Ok((p + 32 * (i.to_usize().unwrap() + 1), *e))
                    }
                    _ => bad("index of something that is not an array"),
                }
            }
            _ => bad("not a place"),
        }
    }
    fn assign(&mut self, l: &Ex, v: V) -> Res<V> {
        match l {
            Ex::Id(n) => {
                let t = match self.local(n) {
                    Some((t, _)) => t.clone(),
                    None => return bad(format!("assignment to {}", n)),
                };
                let v = self.conv(v, &t)?;
                self.local(n).unwrap().1 = v.clone();
                Ok(v)
            }
            Ex::Tuple(ls) => match v {
                V::Tup(vs) if vs.len() == ls.len() => {
                    for (l, v) in ls.iter().zip(vs) {
                        if let Some(l) = l {
                            self.assign(l, v)?;
                        }
                    }
                    Ok(V::Void)
                }
                _ => bad("tuple assignment"),
            },
            _ => {
                let (p, t) = self.place(l)?;
                let v = self.conv(v, &t)?;
                self.put(p, &v)?;
                Ok(v)
            }
        }
    }
    fn ex(&mut self, e: &Ex) -> Res<V> {
        self.tick()?;
        match e {
            Ex::Num(n) => Ok(V::Lit(BigInt::from(n.clone()))),
            Ex::Bool(b) => Ok(V::B(*b)),
            Ex::Str => Ok(V::Str),
            Ex::Id(n) => {
                if let Some((_, v)) = self.local(n) {
                    return Ok(v.clone());
                }
                let u = self.unit();
                if let Some(v) = self.constant(&u, n)? {
                    return Ok(v);
                }
                if BUILTIN.contains(&n.as_str()) {
                    return unsup(n.clone());
                }
                bad(format!("unknown name {}", n))
            }
            Ex::Mem(o, n) => {
                if let Ex::Id(u) = &**o {
                    if self.local(u).is_none() {
                        if self.p.units.contains_key(u) {
                            if let Some(v) = self.constant(u, n)? {
                                return Ok(v);
                            }
                            return bad(format!("unknown name {}.{}", u, n));
                        }
                        if BUILTIN.contains(&u.as_str()) {
                            return unsup(u.clone());
                        }
                    }
                }
                if n == "length" {
                    match self.ex(o)? {
                        V::Ref(Ty::Fix(_, k), _) => return Ok(V::U(256, BigUint::from(k))),
                        V::Ref(Ty::Dyn(_), p) => {
                            let k = self.load(p)?;
                            return Ok(V::U(256, k));
                        }
                        _ => {}
                    }
                }
                if let Ex::Call(f, _) = &**o {
                    if matches!(&**f, Ex::Id(t) if t == "type") {
                        return unsup("type()");
                    }
                }
                let (p, t) = self.place(e)?;
                self.get(p, &t)
            }
            Ex::Idx(..) => {
                let (p, t) = self.place(e)?;
                self.get(p, &t)
            }
            Ex::Call(f, a) => self.call(f, a),
            Ex::Named(f, a) => match self.struct_key(f) {
                Some(k) => {
                    let m = self.p.structs[&k].clone();
                    let mut vs: HashMap<String, V> = HashMap::new();
                    for (n, e) in a {
                        let v = self.ex(e)?;
                        vs.insert(n.clone(), v);
                    }
                    let mut out = vec![];
                    for (n, _) in &m {
                        match vs.remove(n) {
                            Some(v) => out.push(v),
                            None => return bad(format!("member {} not given", n)),
                        }
                    }
                    if !vs.is_empty() {
                        return bad("unknown member given");
                    }
                    self.construct(&k, out)
                }
                None => unsup("named arguments"),
            },
            Ex::New(t, n) => {
                let u = self.unit();
                let t = self.p.resolve(t, &u)?;
                let n = match settle(self.ex(n)?)? {
                    V::U(_, n) => n,
                    _ => return bad("array length"),
                };
                let n = match n.to_usize() {
                    Some(n) if n < MEM_LIMIT / 32 => n,
                    _ => return revert("out of gas (memory)"),
                };
                match &t {
                    Ty::Dyn(e) => {
                        let p = self.alloc(32 * (n + 1))?;
                        self.store(p, &BigUint::from(n))?;
                        for i in 0..n {
                            let v = self.zero(e)?;
                            self.put(p + 32 * (i + 1), &v)?;
                        }
                        Ok(V::Ref(t, p))
                    }
                    _ => bad("new of something that is not a dynamic array"),
                }
            }
            Ex::Arr(es) => {
                if es.is_empty() {
                    return bad("empty array literal");
                }
                let mut vs = vec![];
                for e in es {
                    let v = self.ex(e)?;
                    vs.push(settle(v)?);
                }
                // the first element's type that all others convert to
                let mut t = vs[0].ty()?;
                for v in &vs[1..] {
                    let u = v.ty()?;
                    t = match (&t, &u) {
                        (Ty::Uint(a), Ty::Uint(b)) => Ty::Uint(*a.max(b)),
                        (a, b) if a == b => t.clone(),
                        _ => return bad("array literal of different types"),
                    };
                }
                let p = self.alloc(32 * vs.len())?;
                for (i, v) in vs.iter().enumerate() {
                    let v = self.conv(v.clone(), &t)?;
                    self.put(p + 32 * i, &v)?;
                }
                Ok(V::Ref(Ty::Fix(Box::new(t), vs.len()), p))
            }
            Ex::Tuple(v) => {
                let mut out = vec![];
                for e in v {
                    match e {
                        Some(e) => out.push(self.ex(e)?),
                        None => return unsup("tuple"),
                    }
                }
                Ok(V::Tup(out))
            }
            Ex::Cond(c, a, b) => {
                let x = self.ex(c)?.bool()?;
                let v = if x { self.ex(a)? } else { self.ex(b)? };
                settle(v)
            }
            Ex::Un(op, a) => {
                let v = self.ex(a)?;
                match (*op, v) {
                    ("!", V::B(b)) => Ok(V::B(!b)),
                    ("-", V::Lit(n)) => Ok(V::Lit(-n)),
                    ("~", V::U(b, n)) => Ok(V::U(b, mask(b) - n)),
                    ("-", V::U(b, n)) if !self.checked => Ok(V::U(b, (mask(b) + 1u32 - n) & mask(b))),
                    (o, _) => unsup(format!("unary {}", o)),
                }
            }
            Ex::Pre(op, a) | Ex::Post(op, a) => {
                let old = self.ex(a)?;
                let new = self.arith(if *op == "++" { "+" } else { "-" }, old.clone(), V::Lit(BigInt::one()))?;
                let new = self.assign(a, new)?;
                Ok(if matches!(e, Ex::Pre(..)) { new } else { old })
            }
            Ex::Asg(op, l, r) => {
                if op.is_empty() {
                    let v = self.ex(r)?;
                    return self.assign(l, v);
                }
                let b = self.ex(r)?;
                let a = self.ex(l)?;
                let v = self.arith(op, a, b)?;
                self.assign(l, v)
            }
            Ex::Bin("&&", a, b) => {
                if !self.ex(a)?.bool()? {
                    return Ok(V::B(false));
                }
                Ok(V::B(self.ex(b)?.bool()?))
            }
            Ex::Bin("||", a, b) => {
                if self.ex(a)?.bool()? {
                    return Ok(V::B(true));
                }
                Ok(V::B(self.ex(b)?.bool()?))
            }
            Ex::Bin(op, a, b) => {
                let x = self.ex(a)?;
                let y = self.ex(b)?;
                self.arith(op, x, y)
            }
        }
    }
    fn arith(&mut self, op: &str, a: V, b: V) -> Res<V> {
        if let (V::B(x), V::B(y)) = (&a, &b) {
            return match op {
                "==" => Ok(V::B(x == y)),
                "!=" => Ok(V::B(x != y)),
                _ => bad(format!("{} on booleans", op)),
            };
        }
        if let (V::Lit(x), V::Lit(y)) = (&a, &b) {
            return Ok(match op {
                "+" => V::Lit(x + y),
                "-" => V::Lit(x - y),
                "*" => V::Lit(x * y),
                "/" | "%" if y.is_zero() => return bad("division by zero"),
                "/" if (x % y).is_zero() => V::Lit(x / y),
                "/" => return unsup("fractional literal"),
                "%" => V::Lit(x % y),
                "**" => match y.to_usize() {
                    Some(k) if k <= 300 => V::Lit(num::pow(x.clone(), k)),
                    _ => return unsup("literal power"),
                },
                "<<" => V::Lit(x << y.to_usize().filter(|k| *k <= 300).ok_or_else(|| Stop::Unsupported("literal shift".into()))?),
                "==" => V::B(x == y),
                "!=" => V::B(x != y),
                "<" => V::B(x < y),
                ">" => V::B(x > y),
                "<=" => V::B(x <= y),
                ">=" => V::B(x >= y),
                _ => return unsup(format!("literal {}", op)),
            });
        }
        let (a, b) = (settle(a)?, settle(b)?);
        let (wa, x, wb, y) = match (a, b) {
            (V::U(wa, x), V::U(wb, y)) => (wa, x, wb, y),
            (a, b) => return bad(format!("{} on {:?} and {:?}", op, a, b)),
        };
        let w = match op {
            "<<" | ">>" | "**" => wa,
            _ => wa.max(wb),
        };
        let cmp = match op {
            "==" => Some(x == y),
            "!=" => Some(x != y),
            "<" => Some(x < y),
            ">" => Some(x > y),
            "<=" => Some(x <= y),
            ">=" => Some(x >= y),
            _ => None,
        };
        if let Some(c) = cmp {
            return Ok(V::B(c));
        }
        let m = mask(w) + 1u32;
        let full = match op {
            "+" => x + y,
            "-" => {
                if x < y {
                    if self.checked {
                        return revert("arithmetic underflow");
                    }
                    &m - (y - x) % &m
                } else {
                    x - y
                }
            }
            "*" => x * y,
            "/" | "%" if y.is_zero() => return revert("division by zero"),
            "/" => x / y,
            "%" => x % y,
            "&" => x & y,
            "|" => x | y,
            "^" => x ^ y,
            ">>" => match y.to_usize() {
                Some(k) if k < 256 => x >> k,
                _ => BigUint::zero(),
            },
            "<<" => {
                return Ok(V::U(
                    w,
                    match y.to_usize() {
                        Some(k) if k < 256 => (x << k) & mask(w),
                        _ => BigUint::zero(),
                    },
                ))
            }
            "**" => {
                if self.checked {
                    return unsup("checked power");
                }
                x.modpow(&y, &m)
            }
            _ => return unsup(op),
        };
        if full >= m {
            if self.checked {
                return revert("arithmetic overflow");
            }
            return Ok(V::U(w, full % m));
        }
        Ok(V::U(w, full))
    }
    // ---- statements
    fn block(&mut self, b: &[St]) -> Res<Flow> {
        self.fr.last_mut().unwrap().scopes.push(HashMap::new());
        let mut r = Ok(Flow::Go);
        for s in b {
            r = self.st(s);
            if !matches!(r, Ok(Flow::Go)) {
                break;
            }
        }
        self.fr.last_mut().unwrap().scopes.pop();
        r
    }
    fn scoped(&mut self, s: &St) -> Res<Flow> {
        self.block(std::slice::from_ref(s))
    }
    fn st(&mut self, s: &St) -> Res<Flow> {
        self.tick()?;
        match s {
            St::Block(b) => self.block(b),
            St::Unchecked(b) => {
                let k = self.checked;
                self.checked = false;
                let r = self.block(b);
                self.checked = k;
                r
            }
            St::Decl(t, n, e) => {
                let u = self.unit();
                let t = self.p.resolve(t, &u)?;
                let v = match e {
                    Some(e) => {
                        let v = self.ex(e)?;
                        self.conv(v, &t)?
                    }
                    None => self.zero(&t)?,
                };
                self.declare(n, t, v)?;
                Ok(Flow::Go)
            }
            St::TupDecl(ds, e) => {
                let vs = match self.ex(e)? {
                    V::Tup(vs) => vs,
                    v => vec![v],
                };
                if vs.len() != ds.len() {
                    return bad("tuple declaration");
                }
                let u = self.unit();
                for (d, v) in ds.iter().zip(vs) {
                    if let Some((t, n)) = d {
                        let t = self.p.resolve(t, &u)?;
                        let v = self.conv(v, &t)?;
                        self.declare(n, t, v)?;
                    }
                }
                Ok(Flow::Go)
            }
            St::Ex(e) => {
                self.ex(e)?;
                Ok(Flow::Go)
            }
            St::If(c, a, b) => {
                if self.ex(c)?.bool()? {
                    self.scoped(a)
                } else if let Some(b) = b {
                    self.scoped(b)
                } else {
                    Ok(Flow::Go)
                }
            }
            St::For(i, c, u, b) => {
                self.fr.last_mut().unwrap().scopes.push(HashMap::new());
                let r = self.for_loop(i, c, u, b);
                self.fr.last_mut().unwrap().scopes.pop();
                r
            }
            St::While(c, b) => loop {
                if !self.ex(c)?.bool()? {
                    return Ok(Flow::Go);
                }
                match self.scoped(b)? {
                    Flow::Break => return Ok(Flow::Go),
                    Flow::Ret(v) => return Ok(Flow::Ret(v)),
                    _ => {}
                }
            },
            St::Do(b, c) => loop {
                match self.scoped(b)? {
                    Flow::Break => return Ok(Flow::Go),
                    Flow::Ret(v) => return Ok(Flow::Ret(v)),
                    _ => {}
                }
                if !self.ex(c)?.bool()? {
                    return Ok(Flow::Go);
                }
            },
            St::Ret(e) => Ok(Flow::Ret(match e {
                Some(e) => self.ex(e)?,
                None => V::Void,
            })),
            St::Break => Ok(Flow::Break),
            St::Cont => Ok(Flow::Cont),
            St::Asm(b) => {
                let b = b.clone();
                let mut env = vec![];
                self.yblock(&b, &mut env)?;
                Ok(Flow::Go)
            }
        }
    }
    fn for_loop(&mut self, i: &Option<Box<St>>, c: &Option<Ex>, u: &Option<Ex>, b: &St) -> Res<Flow> {
        if let Some(i) = i {
            self.st(i)?;
        }
        loop {
            if let Some(c) = c {
                if !self.ex(c)?.bool()? {
                    return Ok(Flow::Go);
                }
            }
            match self.scoped(b)? {
                Flow::Break => return Ok(Flow::Go),
                Flow::Ret(v) => return Ok(Flow::Ret(v)),
                _ => {}
            }
            if let Some(u) = u {
                self.ex(u)?;
            }
            self.tick()?;
        }
    }
    // ---- assembly
    fn yblock(&mut self, b: &[Yul], env: &mut Vec<HashMap<String, BigUint>>) -> Res<Flow> {
        for s in b {
            if let Yul::Fun(n, p, r, body) = s {
                self.yfun.insert(n.clone(), (p.clone(), r.clone(), body.clone()));
            }
        }
        env.push(HashMap::new());
        let mut r = Ok(Flow::Go);
        for s in b {
            r = self.yst(s, env);
            if !matches!(r, Ok(Flow::Go)) {
                break;
            }
        }
        env.pop();
        r
    }
    fn yset(&mut self, n: &str, v: BigUint, env: &mut Vec<HashMap<String, BigUint>>) -> Res<()> {
        if let Some(x) = env.iter_mut().rev().find_map(|s| s.get_mut(n)) {
            *x = v;
            return Ok(());
        }
        match self.local(n) {
            Some((t, x)) => {
                *x = match t {
                    Ty::Uint(b) => V::U(*b, v & mask(*b)),
                    Ty::Bool => V::B(!v.is_zero()),
                    t => match v.to_usize() {
                        Some(p) => V::Ref(t.clone(), p),
                        None => return revert("wild pointer"),
                    },
                };
                Ok(())
            }
            None => bad(format!("unknown name {} in assembly", n)),
        }
    }
    fn yst(&mut self, s: &Yul, env: &mut Vec<HashMap<String, BigUint>>) -> Res<Flow> {
        self.tick()?;
        match s {
            Yul::Block(b) => self.yblock(b, env),
            Yul::Fun(..) => Ok(Flow::Go),
            Yul::Let(ns, e) => {
                let vs = match e {
                    Some(e) => self.yex(e, env)?,
                    None => vec![BigUint::zero(); ns.len()],
                };
                if vs.len() != ns.len() {
                    return bad("assembly: number of values");
                }
                for (n, v) in ns.iter().zip(vs) {
                    env.last_mut().unwrap().insert(n.clone(), v);
                }
                Ok(Flow::Go)
            }
            Yul::Set(ns, e) => {
                let vs = self.yex(e, env)?;
                if vs.len() != ns.len() {
                    return bad("assembly: number of values");
                }
                for (n, v) in ns.iter().zip(vs) {
                    self.yset(n, v, env)?;
                }
                Ok(Flow::Go)
            }
            Yul::If(c, b) => {
                if !self.y1(c, env)?.is_zero() {
                    return self.yblock(b, env);
                }
                Ok(Flow::Go)
            }
            Yul::Switch(e, cs) => {
                let v = self.y1(e, env)?;
                let b = cs.iter().find(|(c, _)| c.as_ref() == Some(&v)).or_else(|| cs.iter().find(|(c, _)| c.is_none()));
                match b {
                    Some((_, b)) => self.yblock(b, env),
                    None => Ok(Flow::Go),
                }
            }
            Yul::For(i, c, u, b) => {
                env.push(HashMap::new());
                for s in i {
                    self.yst(s, env)?;
                }
                let r = loop {
                    self.tick()?;
                    if self.y1(c, env)?.is_zero() {
                        break Flow::Go;
                    }
                    match self.yblock(b, env)? {
                        Flow::Break => break Flow::Go,
                        Flow::Leave => break Flow::Leave,
                        _ => {}
                    }
                    self.yblock(u, env)?;
                };
                env.pop();
                Ok(r)
            }
            Yul::Ex(e) => {
                self.yex(e, env)?;
                Ok(Flow::Go)
            }
            Yul::Break => Ok(Flow::Break),
            Yul::Cont => Ok(Flow::Cont),
            Yul::Leave => Ok(Flow::Leave),
        }
    }
    fn y1(&mut self, e: &YEx, env: &mut Vec<HashMap<String, BigUint>>) -> Res<BigUint> {
        let mut v = self.yex(e, env)?;
        if v.len() != 1 {
            return bad("assembly: expected one value");
        }
        Ok(v.remove(0))
    }
    fn yex(&mut self, e: &YEx, env: &mut Vec<HashMap<String, BigUint>>) -> Res<Vec<BigUint>> {
        self.tick()?;
        match e {
            YEx::Num(n) => Ok(vec![n.clone()]),
            YEx::Id(n) => {
                if let Some(v) = env.iter().rev().find_map(|s| s.get(n)) {
                    return Ok(vec![v.clone()]);
                }
                let v = match self.local(n) {
                    Some((_, v)) => Some(v.clone()),
                    None => {
                        let u = self.unit();
                        self.constant(&u, n)?
                    }
                };
                match v {
                    Some(V::U(_, n)) => Ok(vec![n]),
                    Some(V::B(b)) => Ok(vec![BigUint::from(b as u8)]),
                    Some(V::Ref(_, p)) => Ok(vec![BigUint::from(p)]),
                    _ => bad(format!("unknown name {} in assembly", n)),
                }
            }
            YEx::Call(n, a) => {
                // arguments are evaluated right to left
                let mut v = vec![BigUint::zero(); a.len()];
                for i in (0..a.len()).rev() {
                    v[i] = self.y1(&a[i], env)?;
                }
                self.op(n, v)
            }
        }
    }
    fn op(&mut self, n: &str, v: Vec<BigUint>) -> Res<Vec<BigUint>> {
        let m = mask(256) + 1u32;
        let need = match n {
            "gas" | "invalid" | "returndatasize" | "stop" => 0,
            "iszero" | "not" | "mload" | "pop" => 1,
            "add" | "sub" | "mul" | "div" | "mod" | "exp" | "lt" | "gt" | "eq" | "and" | "or" | "xor" | "shl" | "shr" | "mstore" | "mstore8" | "revert" | "byte" => 2,
            "addmod" | "mulmod" | "returndatacopy" => 3,
            "staticcall" => 6,
            _ => v.len(),
        };
        if v.len() != need {
            return bad(format!("assembly: {} takes {} arguments", n, need));
        }
        let b = |x: bool| Ok(vec![BigUint::from(x as u8)]);
        let us = |x: &BigUint| -> Res<usize> {
            match x.to_usize() {
                Some(k) if k < MEM_LIMIT => Ok(k),
                _ => revert("out of gas (memory)"),
            }
        };
        match n {
            "add" => Ok(vec![(&v[0] + &v[1]) % &m]),
            "sub" => Ok(vec![(&v[0] + &m - &v[1]) % &m]),
            "mul" => Ok(vec![(&v[0] * &v[1]) % &m]),
            "div" => Ok(vec![if v[1].is_zero() { BigUint::zero() } else { &v[0] / &v[1] }]),
            "mod" => Ok(vec![if v[1].is_zero() { BigUint::zero() } else { &v[0] % &v[1] }]),
            "exp" => Ok(vec![v[0].modpow(&v[1], &m)]),
            "lt" => b(v[0] < v[1]),
            "gt" => b(v[0] > v[1]),
            "eq" => b(v[0] == v[1]),
            "iszero" => b(v[0].is_zero()),
            "and" => Ok(vec![&v[0] & &v[1]]),
            "or" => Ok(vec![&v[0] | &v[1]]),
            "xor" => Ok(vec![&v[0] ^ &v[1]]),
            "not" => Ok(vec![mask(256) - &v[0]]),
            "shl" => Ok(vec![match v[0].to_usize() {
                Some(k) if k < 256 => (&v[1] << k) % &m,
                _ => BigUint::zero(),
            }]),
            "shr" => Ok(vec![match v[0].to_usize() {
                Some(k) if k < 256 => &v[1] >> k,
                _ => BigUint::zero(),
            }]),
            "addmod" => Ok(vec![if v[2].is_zero() { BigUint::zero() } else { (&v[0] + &v[1]) % &v[2] }]),
            "mulmod" => Ok(vec![if v[2].is_zero() { BigUint::zero() } else { (&v[0] * &v[1]) % &v[2] }]),
            "pop" => Ok(vec![]),
            "mload" => {
                let p = us(&v[0])?;
                Ok(vec![self.load(p)?])
            }
            "mstore" => {
                let p = us(&v[0])?;
                self.store(p, &v[1])?;
                Ok(vec![])
            }
            "mstore8" => {
                let p = us(&v[0])?;
                self.touch(p + 1)?;
                self.mem[p] = (&v[1] & mask(8)).to_u8().unwrap();
                Ok(vec![])
            }
            // large, so that "all but some" forwards enough
            "gas" => Ok(vec![BigUint::from(30_000_000u64)]),
            "invalid" => revert("invalid"),
            "revert" => revert("revert"),
            "returndatasize" => Ok(vec![BigUint::from(self.retdata.len())]),
            "returndatacopy" => {
                let (d, s, k) = (us(&v[0])?, us(&v[1])?, us(&v[2])?);
                if s + k > self.retdata.len() {
                    return revert("returndatacopy out of range");
                }
                self.touch(d + k)?;
                let r = self.retdata[s..s + k].to_vec();
                self.mem[d..d + k].copy_from_slice(&r);
                Ok(vec![])
            }
            "staticcall" => {
                let to = match v[1].to_u64() {
                    Some(t) => t,
                    None => return unsup("call to an account"),
                };
                if ![4, 6, 7, 8].contains(&to) {
                    return unsup("call to an account");
                }
                let (ip, il, op, ol) = (us(&v[2])?, us(&v[3])?, us(&v[4])?, us(&v[5])?);
                self.touch(ip + il)?;
                self.touch(op + ol)?;
                let inp = self.mem[ip..ip + il].to_vec();
                match (self.pre)(to, &inp, &v[0]) {
                    Some(out) => {
                        let k = out.len().min(ol);
                        self.mem[op..op + k].copy_from_slice(&out[..k]);
                        self.retdata = out;
                        b(true)
                    }
                    None => {
                        self.retdata = vec![];
                        b(false)
                    }
                }
            }
            _ => {
                if let Some((p, r, body)) = self.yfun.get(n).cloned() {
                    if p.len() != v.len() {
                        return bad(format!("assembly: {} takes {} arguments", n, p.len()));
                    }
                    let mut s: HashMap<String, BigUint> = p.into_iter().zip(v).collect();
                    for x in &r {
                        s.insert(x.clone(), BigUint::zero());
                    }
                    let mut env = vec![s];
                    self.yblock(&body, &mut env)?;
                    return Ok(r.iter().map(|x| env[0][x].clone()).collect());
                }
                unsup(format!("assembly {}", n))
            }
        }
    }
}
