//! A parser for the subset of textual LLVM IR that rustc emits.
//! The module text is indexed once; function bodies are parsed on first use.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Arr(Box<Ty>, u64),
    Vec(Box<Ty>, u32),
    Struct(Vec<Ty>, bool),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Arr(t, _) => t.align(),
            Ty::Vec(_, _) => self.size().next_power_of_two().min(16),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Ptr => 64,
            Ty::Vec(t, n) => t.bits() * *n as u64,
            _ => self.size() * 8,
        }
    }
    /// bytes written by a store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(t, n) => (t.bits() * *n as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(_) => {
                let s = self.store_size();
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Arr(t, n) => t.size() * n,
            Ty::Vec(t, n) => (t.bits() * *n as u64 + 7) / 8,
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j as u64 == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(t, _) => t.size() * i,
            Ty::Vec(t, _) => t.size() * i,
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn field(&self, i: u64) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i as usize],
            Ty::Arr(t, _) => t,
            Ty::Vec(t, _) => t,
            _ => panic!("field of {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum CVal {
    Int(u16, u128),
    Addr(u64),
    Undef,
    Zero,
    Agg(Rc<Vec<(Ty, CVal)>>),
    Bytes(Rc<Vec<u8>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    C(CVal),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    Zext,
    Sext,
    Bitcast,
    PtrToInt,
    IntToPtr,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // global index
    Ptr(Opnd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Ty, Opnd, Opnd),
    ICmp(Pred, Ty, Opnd, Opnd),
    Cast(CastOp, Ty, Opnd, Ty),
    Select(Ty, Opnd, Ty, Opnd, Opnd),
    Alloca(u64, Opnd),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(Opnd, i64, Vec<(Opnd, u16, i64)>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Opnd>),
    Unreachable,
    Call { callee: Callee, ret: Ty, args: Vec<(Ty, Opnd)>, normal: Option<u32>, noreturn: bool },
    ExtractValue(Opnd, Vec<u32>),
    InsertValue(Ty, Opnd, Opnd, Vec<u32>),
    ExtractElem(Opnd, Opnd),
    InsertElem(Ty, Opnd, Opnd, Opnd),
    Shuffle(Ty, Opnd, Opnd, Vec<i64>),
    Freeze(Ty, Opnd),
    AtomicRmw(String, Ty, Opnd, Opnd),
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    pub inc: Vec<(Opnd, u32)>,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<(Option<u32>, Inst)>,
    pub succs: Vec<u32>,
}

pub struct Func {
    pub name: String,
    pub params: Vec<Ty>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub reg_names: Vec<String>,
    /// path of each block in the loop-nesting order (see wto)
    pub path: Vec<Vec<u32>>, // component indices; last is the index of the block itself
    pub comp_heads: Vec<Vec<u32>>, // enclosing component heads, outermost first
    pub live_in: Vec<Vec<u64>>, // bitset per block
    pub nallocas: u32,
}

pub struct Global {
    pub name: String,
    pub kind: GKind,
    pub addr: u64,
    pub noreturn: bool,
}
pub enum GKind {
    Var { ty: Ty, init: Option<(usize, usize)>, constant: bool },
    Func { body: Option<(usize, usize)>, header: (usize, usize) },
}

pub struct Module {
    pub text: Rc<str>,
    pub globals: Vec<Global>,
    pub by_name: HashMap<String, u32>,
    noreturn_attrs: std::collections::HashSet<u32>,
    pub funcs: HashMap<u32, Rc<Func>>,
}

pub const SLOT: u64 = 1 << 32;
pub const SLOT_OFF: u64 = 1 << 28;
pub const GLOBAL_BASE: u64 = 0x10;
pub fn slot_addr(slot: u64) -> u64 {
    slot * SLOT + SLOT_OFF
}

// ---- tokenizer -------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Tok<'a> {
    Word(&'a str),
    Local(&'a str),
    Glob(&'a str),
    Meta(&'a str),
    Attr(&'a str),
    Str(&'a str),
    CStr(&'a str),
    P(u8),
    End,
}

struct Lex<'a> {
    s: &'a str,
    i: usize,
    tok: Tok<'a>,
}
fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self {
        let mut l = Lex { s, i: 0, tok: Tok::End };
        l.next();
        l
    }
    fn quoted(&mut self) -> &'a str {
        let b = self.s.as_bytes();
        let st = self.i + 1;
        let mut j = st;
        while b[j] != b'"' {
            j += 1;
        }
        self.i = j + 1;
        &self.s[st..j]
    }
    fn ident(&mut self) -> &'a str {
        let b = self.s.as_bytes();
        if self.i < b.len() && b[self.i] == b'"' {
            return self.quoted();
        }
        let st = self.i;
        while self.i < b.len() && is_id(b[self.i]) {
            self.i += 1;
        }
        &self.s[st..self.i]
    }
    fn next(&mut self) -> Tok<'a> {
        let b = self.s.as_bytes();
        let prev = self.tok;
        loop {
            while self.i < b.len() && (b[self.i] == b' ' || b[self.i] == b'\n' || b[self.i] == b'\t' || b[self.i] == b'\r') {
                self.i += 1;
            }
            if self.i < b.len() && b[self.i] == b';' {
                while self.i < b.len() && b[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        if self.i >= b.len() {
            self.tok = Tok::End;
            return prev;
        }
        let c = b[self.i];
        self.tok = match c {
            b'%' => {
                self.i += 1;
                Tok::Local(self.ident())
            }
            b'@' => {
                self.i += 1;
                Tok::Glob(self.ident())
            }
            b'!' => {
                self.i += 1;
                Tok::Meta(self.ident())
            }
            b'#' => {
                self.i += 1;
                Tok::Attr(self.ident())
            }
            b'"' => Tok::Str(self.quoted()),
            b'c' if self.i + 1 < b.len() && b[self.i + 1] == b'"' => {
                self.i += 1;
                Tok::CStr(self.quoted())
            }
            _ if is_id(c) => Tok::Word(self.ident()),
            _ => {
                self.i += 1;
                Tok::P(c)
            }
        };
        prev
    }
    fn is(&self, w: &str) -> bool {
        self.tok == Tok::Word(w)
    }
    fn isp(&self, c: u8) -> bool {
        self.tok == Tok::P(c)
    }
    fn eat(&mut self, w: &str) -> bool {
        if self.is(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn eatp(&mut self, c: u8) -> bool {
        if self.isp(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expectp(&mut self, c: u8) {
        if !self.eatp(c) {
            panic!("expected '{}' got {:?} in: {}", c as char, self.tok, self.ctx());
        }
    }
    fn ctx(&self) -> &str {
        let st = self.s[..self.i.min(self.s.len())].rfind('\n').map(|x| x + 1).unwrap_or(0);
        let en = self.s[self.i.min(self.s.len())..].find('\n').map(|x| x + self.i).unwrap_or(self.s.len());
        let mut e = en.min(st + 400);
        while !self.s.is_char_boundary(e) {
            e -= 1
        }
        &self.s[st..e]
    }
    fn skip_parens(&mut self) {
        // at '('
        self.expectp(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                Tok::End => panic!("eof"),
                _ => {}
            }
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.next() {
            Tok::Word(w) => match w {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "metadata" | "label" | "float" | "double" | "half" | "token" | "x86_fp80" | "fp128" => Ty::Other,
                _ if w.starts_with('i') && w[1..].parse::<u16>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => panic!("type {w} in {}", self.ctx()),
            },
            Tok::P(b'[') => {
                let n: u64 = self.word().parse().unwrap();
                assert!(self.eat("x"));
                let t = self.ty();
                self.expectp(b']');
                Ty::Arr(Box::new(t), n)
            }
            Tok::P(b'<') => {
                if self.isp(b'{') {
                    self.next();
                    let f = self.tys(b'}');
                    self.expectp(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n: u32 = self.word().parse().unwrap();
                    assert!(self.eat("x"));
                    let t = self.ty();
                    self.expectp(b'>');
                    Ty::Vec(Box::new(t), n)
                }
            }
            Tok::P(b'{') => {
                let f = self.tys(b'}');
                Ty::Struct(f, false)
            }
            x => panic!("type? {:?} in {}", x, self.ctx()),
        };
        if self.isp(b'(') && t == Ty::Void {
            // function type "void (…)" - used with varargs calls
        }
        t
    }
    fn tys(&mut self, end: u8) -> Vec<Ty> {
        let mut f = vec![];
        while !self.isp(end) {
            f.push(self.ty());
            if !self.eatp(b',') {
                break;
            }
        }
        self.expectp(end);
        f
    }
    fn word(&mut self) -> &'a str {
        match self.next() {
            Tok::Word(w) => w,
            x => panic!("word? {:?} in {}", x, self.ctx()),
        }
    }
    /// skip parameter/return attributes
    fn attrs(&mut self) {
        loop {
            match self.tok {
                Tok::Word(w) => match w {
                    "align" => {
                        self.next();
                        if self.isp(b'(') {
                            self.skip_parens();
                        } else {
                            self.next();
                        }
                    }
                    "noundef" | "nonnull" | "zeroext" | "signext" | "noalias" | "nofree" | "readonly" | "writeonly"
                    | "readnone" | "returned" | "immarg" | "inreg" | "nocapture" | "allocptr" | "allocalign" | "dead_on_unwind"
                    | "writable" | "nest" | "swiftself" | "noext" | "dead_on_return" => {
                        self.next();
                        if self.isp(b'(') {
                            self.skip_parens();
                        }
                    }
                    "captures" | "dereferenceable" | "dereferenceable_or_null" | "range" | "sret" | "byval" | "elementtype"
                    | "initializes" | "nofpclass" | "byref" | "preallocated" | "inalloca" => {
                        self.next();
                        self.skip_parens();
                    }
                    _ => return,
                },
                Tok::Str(_) => {
                    self.next();
                    if self.eatp(b'=') {
                        self.next();
                    }
                }
                _ => return,
            }
        }
    }
}

fn parse_cstr(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

fn int_lit(w: u16, s: &str) -> Option<u128> {
    let m = if w >= 128 { !0 } else { (1u128 << w) - 1 };
    if s == "true" {
        return Some(1);
    }
    if s == "false" {
        return Some(0);
    }
    if let Some(h) = s.strip_prefix("u0x") {
        return u128::from_str_radix(h, 16).ok().map(|v| v & m);
    }
    if let Some(h) = s.strip_prefix("s0x") {
        return u128::from_str_radix(h, 16).ok().map(|v| v & m);
    }
    if let Some(n) = s.strip_prefix('-') {
        return n.parse::<u128>().ok().map(|v| (0u128.wrapping_sub(v)) & m);
    }
    s.parse::<u128>().ok().map(|v| v & m)
}

impl Module {
    pub fn load(text: String) -> Module {
        let text: Rc<str> = text.into();
        let mut m = Module {
            text: text.clone(),
            globals: vec![],
            by_name: HashMap::new(),
            noreturn_attrs: Default::default(),
            funcs: HashMap::new(),
        };
        let t: &str = &text;
        // attribute groups
        for line in t.lines() {
            if let Some(r) = line.strip_prefix("attributes #") {
                let n: u32 = r[..r.find(' ').unwrap()].parse().unwrap();
                if r.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).any(|w| w == "noreturn") {
                    m.noreturn_attrs.insert(n);
                }
            }
        }
        let mut pos = 0;
        while pos < t.len() {
            let eol = t[pos..].find('\n').map(|x| x + pos).unwrap_or(t.len());
            let line = &t[pos..eol];
            if line.starts_with('@') {
                let mut lx = Lex::new(line);
                if let Tok::Glob(name) = lx.next() {
                    lx.expectp(b'=');
                    let mut alias = false;
                    let mut constant = false;
                    let mut external = false;
                    loop {
                        match lx.tok {
                            Tok::Word("constant") => {
                                constant = true;
                                lx.next();
                                break;
                            }
                            Tok::Word("global") => {
                                lx.next();
                                break;
                            }
                            Tok::Word("alias") | Tok::Word("ifunc") => {
                                alias = true;
                                break;
                            }
                            Tok::Word("external") | Tok::Word("extern_weak") => {
                                external = true;
                                lx.next();
                            }
                            Tok::Word("thread_local") | Tok::Word("addrspace") => {
                                lx.next();
                                if lx.isp(b'(') {
                                    lx.skip_parens();
                                }
                            }
                            Tok::End => panic!("global {line}"),
                            _ => {
                                lx.next();
                            }
                        }
                    }
                    if !alias {
                        let ty = lx.ty();
                        // initializer starts at the current token
                        let init = if external || lx.tok == Tok::End || lx.isp(b',') {
                            None
                        } else {
                            // find start offset of current token: scan back
                            let tokstart = lx.tok_start();
                            Some((pos + tokstart, eol))
                        };
                        m.add(name.to_string(), GKind::Var { ty, init, constant }, false);
                    }
                }
            } else if line.starts_with("define ") || line.starts_with("declare ") {
                let is_def = line.starts_with("define ");
                let (name, nr) = m.header_info(line);
                if is_def {
                    let end = t[eol..].find("\n}\n").map(|x| x + eol + 1).unwrap_or(t.len());
                    m.add(name, GKind::Func { body: Some((eol + 1, end)), header: (pos, eol) }, nr);
                    pos = end;
                    continue;
                } else {
                    m.add(name, GKind::Func { body: None, header: (pos, eol) }, nr);
                }
            }
            pos = eol + 1;
        }
        m
    }
    fn add(&mut self, name: String, kind: GKind, noreturn: bool) {
        let i = self.globals.len() as u32;
        let addr = slot_addr(GLOBAL_BASE + i as u64);
        self.by_name.insert(name.clone(), i);
        self.globals.push(Global { name, kind, addr, noreturn });
    }
    fn header_info(&self, line: &str) -> (String, bool) {
        let mut lx = Lex::new(line);
        let mut name = String::new();
        let mut nr = false;
        while lx.tok != Tok::End {
            match lx.next() {
                Tok::Glob(n) if name.is_empty() => {
                    name = n.to_string();
                    lx.skip_parens();
                }
                Tok::Attr(n) => {
                    if let Ok(n) = n.parse::<u32>() {
                        nr |= self.noreturn_attrs.contains(&n);
                    }
                }
                Tok::Word("noreturn") => nr = true,
                _ => {}
            }
        }
        (name, nr)
    }
    pub fn gaddr(&self, name: &str) -> u64 {
        match self.by_name.get(name) {
            Some(&i) => self.globals[i as usize].addr,
            None => panic!("unknown global @{name}"),
        }
    }
    pub fn global_at(&self, addr: u64) -> Option<u32> {
        let s = addr / SLOT;
        if s >= GLOBAL_BASE && ((s - GLOBAL_BASE) as usize) < self.globals.len() {
            Some((s - GLOBAL_BASE) as u32)
        } else {
            None
        }
    }
    fn cval(&self, lx: &mut Lex, ty: &Ty) -> CVal {
        match lx.next() {
            Tok::CStr(s) => CVal::Bytes(Rc::new(parse_cstr(s))),
            Tok::Glob(n) => CVal::Addr(self.gaddr(n)),
            Tok::P(b'[') => self.agg(lx, b']'),
            Tok::P(b'{') => self.agg(lx, b'}'),
            Tok::P(b'<') => {
                if lx.eatp(b'{') {
                    let r = self.agg(lx, b'}');
                    lx.expectp(b'>');
                    r
                } else {
                    self.agg(lx, b'>')
                }
            }
            Tok::Word(w) => match w {
                "null" => CVal::Addr(0),
                "undef" | "poison" | "none" => CVal::Undef,
                "zeroinitializer" => CVal::Zero,
                "getelementptr" => {
                    while !lx.isp(b'(') {
                        lx.next();
                        if lx.isp(b'(') {
                            break;
                        }
                    }
                    // "inrange(..)" would have parens too
                    // we may be at inrange's parens; detect by type start
                    self.ce_gep(lx)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "trunc" => {
                    lx.expectp(b'(');
                    let t = lx.ty();
                    let v = self.cval(lx, &t);
                    assert!(lx.eat("to"));
                    let tt = lx.ty();
                    lx.expectp(b')');
                    match (v, &tt) {
                        (CVal::Addr(a), Ty::Int(w)) => CVal::Int(*w, a as u128 & crate::term::mask(*w)),
                        (CVal::Int(_, a), Ty::Ptr) => CVal::Addr(a as u64),
                        (CVal::Int(_, a), Ty::Int(w)) => CVal::Int(*w, a & crate::term::mask(*w)),
                        (v, _) => v,
                    }
                }
                "sub" | "add" | "xor" => {
                    while lx.is("nuw") || lx.is("nsw") {
                        lx.next();
                    }
                    lx.expectp(b'(');
                    let t = lx.ty();
                    let a = self.cval(lx, &t);
                    lx.expectp(b',');
                    let t2 = lx.ty();
                    let b = self.cval(lx, &t2);
                    lx.expectp(b')');
                    let f = |c: &CVal| match c {
                        CVal::Int(_, v) => *v,
                        CVal::Addr(a) => *a as u128,
                        CVal::Zero => 0,
                        _ => panic!("const arith"),
                    };
                    let wd = if let Ty::Int(w) = t { w } else { 64 };
                    let r = match w {
                        "sub" => f(&a).wrapping_sub(f(&b)),
                        "add" => f(&a).wrapping_add(f(&b)),
                        _ => f(&a) ^ f(&b),
                    };
                    CVal::Int(wd, r & crate::term::mask(wd))
                }
                "splat" => {
                    lx.expectp(b'(');
                    let t = lx.ty();
                    let v = self.cval(lx, &t);
                    lx.expectp(b')');
                    if let Ty::Vec(_, n) = ty {
                        CVal::Agg(Rc::new((0..*n).map(|_| (t.clone(), v.clone())).collect()))
                    } else {
                        v
                    }
                }
                "dso_local_equivalent" | "no_cfi" => self.cval(lx, ty),
                "blockaddress" => {
                    lx.skip_parens();
                    CVal::Undef
                }
                _ => match ty {
                    Ty::Int(wd) => match int_lit(*wd, w) {
                        Some(v) => CVal::Int(*wd, v),
                        None => panic!("const {w} in {}", lx.ctx()),
                    },
                    _ => CVal::Undef, // floats
                },
            },
            Tok::P(b'!') | Tok::Meta(_) => CVal::Undef,
            x => panic!("const? {:?} in {}", x, lx.ctx()),
        }
    }
    fn ce_gep(&self, lx: &mut Lex) -> CVal {
        // at '(' ; may be inrange(..)( ... )
        lx.expectp(b'(');
        // inrange(-16, 32) case: next token is a plain number
        if let Tok::Word(w) = lx.tok {
            if int_lit(64, w).is_some() {
                while !lx.isp(b')') {
                    lx.next();
                }
                lx.next();
                while !lx.isp(b'(') {
                    lx.next();
                }
                lx.expectp(b'(');
            }
        }
        let bt = lx.ty();
        lx.expectp(b',');
        let pt = lx.ty();
        let base = match self.cval(lx, &pt) {
            CVal::Addr(a) => a,
            CVal::Int(_, a) => a as u64,
            CVal::Zero => 0,
            x => panic!("gep base {:?}", x),
        };
        let mut off = 0i64;
        let mut cur = bt;
        let mut first = true;
        while lx.eatp(b',') {
            let it = lx.ty();
            let v = match self.cval(lx, &it) {
                CVal::Int(w, v) => crate::term::sext(v, w) as i64,
                CVal::Zero => 0,
                x => panic!("gep idx {:?}", x),
            };
            if first {
                off += v * cur.size() as i64;
                first = false;
            } else {
                off += cur.field_off(v as u64) as i64;
                cur = cur.field(v as u64).clone();
            }
        }
        lx.expectp(b')');
        CVal::Addr(base.wrapping_add(off as u64))
    }
    fn agg(&self, lx: &mut Lex, end: u8) -> CVal {
        let mut v = vec![];
        while !lx.isp(end) {
            let t = lx.ty();
            let c = self.cval(lx, &t);
            v.push((t, c));
            if !lx.eatp(b',') {
                break;
            }
        }
        lx.expectp(end);
        CVal::Agg(Rc::new(v))
    }
    /// initial bytes of a global: None = undef byte
    pub fn global_init(&self, g: u32) -> (Vec<Option<u8>>, bool) {
        if let GKind::Var { ty, init, constant } = &self.globals[g as usize].kind {
            let n = ty.size() as usize;
            let mut out = vec![None; n];
            if let Some((a, b)) = init {
                let s = &self.text[*a..*b];
                let mut lx = Lex::new(s);
                let c = self.cval(&mut lx, ty);
                emit(&c, ty, &mut out, 0);
            }
            (out, *constant)
        } else {
            (vec![], true)
        }
    }
    pub fn func(&mut self, g: u32) -> Option<Rc<Func>> {
        if let Some(f) = self.funcs.get(&g) {
            return Some(f.clone());
        }
        let (header, body) = match &self.globals[g as usize].kind {
            GKind::Func { body: Some(b), header } => (*header, *b),
            _ => return None,
        };
        let name = self.globals[g as usize].name.clone();
        let text = self.text.clone();
        let f = self.parse_func(name, &text[header.0..header.1], &text[body.0..body.1]);
        let f = Rc::new(f);
        self.funcs.insert(g, f.clone());
        Some(f)
    }
    fn parse_func(&self, name: String, header: &str, body: &str) -> Func {
        let mut regs: HashMap<&str, u32> = HashMap::new();
        let mut reg_names: Vec<String> = vec![];
        let mut params = vec![];
        // header
        let mut lx = Lex::new(header);
        // find the function name; type precedes
        lx.next(); // define
        let ret;
        loop {
            lx.attrs();
            match lx.tok {
                Tok::Word(w) => {
                    let isty = w == "void" || w == "ptr" || (w.starts_with('i') && w[1..].parse::<u16>().is_ok()) || w == "float" || w == "double";
                    if isty {
                        ret = lx.ty();
                        break;
                    }
                    lx.next();
                }
                Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => {
                    ret = lx.ty();
                    break;
                }
                Tok::P(b'(') => {
                    lx.skip_parens();
                }
                _ => {
                    lx.next();
                }
            }
        }
        while !matches!(lx.tok, Tok::Glob(_)) {
            lx.next();
        }
        lx.next();
        lx.expectp(b'(');
        while !lx.isp(b')') {
            let t = lx.ty();
            lx.attrs();
            if let Tok::Local(n) = lx.tok {
                let r = reg_names.len() as u32;
                regs.insert(n, r);
                reg_names.push(n.to_string());
                lx.next();
            } else {
                reg_names.push(format!("arg{}", params.len()));
            }
            params.push(t);
            if !lx.eatp(b',') {
                break;
            }
        }
        // collect logical lines
        let mut lines: Vec<String> = vec![];
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut blocks_lines: Vec<Vec<String>> = vec![];
        let mut first_unlabelled = true;
        // an unnamed entry block takes the next number after the numbered parameters
        let numbered = reg_names.iter().filter(|n| n.starts_with("arg") || n.bytes().all(|b| b.is_ascii_digit())).count();
        for raw in body.lines() {
            if raw.is_empty() || raw.starts_with(';') {
                continue;
            }
            if !raw.starts_with(' ') {
                // label
                let lab = if raw.starts_with('"') {
                    raw[1..].split('"').next().unwrap().to_string()
                } else {
                    raw.split(':').next().unwrap().to_string()
                };
                if !first_unlabelled {
                    blocks_lines.push(std::mem::take(&mut lines));
                }
                first_unlabelled = false;
                labels.insert(lab, blocks_lines.len() as u32);
                continue;
            }
            if first_unlabelled {
                first_unlabelled = false;
                labels.insert(format!("{}", numbered), 0);
            }
            let tr = raw.trim_start();
            if tr.starts_with(';') || tr.starts_with('#') {
                continue;
            }
            let indent = raw.len() - tr.len();
            if indent > 2 || tr.starts_with(']') {
                let l = lines.last_mut().unwrap();
                l.push(' ');
                l.push_str(tr);
            } else {
                lines.push(tr.to_string());
            }
        }
        blocks_lines.push(lines);
        // define registers
        let mut regs: HashMap<String, u32> = regs.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
        for b in &blocks_lines {
            for l in b {
                if l.starts_with('%') {
                    let mut lx = Lex::new(l);
                    if let Tok::Local(n) = lx.next() {
                        if lx.isp(b'=') {
                            let r = reg_names.len() as u32;
                            regs.insert(n.to_string(), r);
                            reg_names.push(n.to_string());
                        }
                    }
                }
            }
        }
        let mut blocks = vec![];
        let mut nallocas = 0;
        for b in &blocks_lines {
            let mut blk = Block::default();
            for l in b {
                self.parse_inst(l, &regs, &labels, &mut blk);
                if let Some((_, Inst::Alloca(..))) = blk.insts.last() {
                    nallocas += 1;
                }
            }
            blk.succs = match blk.insts.last() {
                Some((_, Inst::Br(a))) => vec![*a],
                Some((_, Inst::CondBr(_, a, b))) => vec![*a, *b],
                Some((_, Inst::Switch(_, _, d, cs))) => {
                    let mut v = vec![*d];
                    v.extend(cs.iter().map(|x| x.1));
                    v
                }
                Some((_, Inst::Call { normal: Some(n), .. })) => vec![*n],
                _ => vec![],
            };
            blocks.push(blk);
        }
        let mut f = Func {
            name,
            params,
            ret,
            nregs: reg_names.len() as u32,
            reg_names,
            blocks,
            path: vec![],
            comp_heads: vec![],
            live_in: vec![],
            nallocas,
        };
        wto(&mut f);
        liveness(&mut f);
        f
    }
    fn opnd(&self, lx: &mut Lex, ty: &Ty, regs: &HashMap<String, u32>) -> Opnd {
        if let Tok::Local(n) = lx.tok {
            lx.next();
            match regs.get(n) {
                Some(&r) => return Opnd::Reg(r),
                None => panic!("unknown register %{n}"),
            }
        }
        if let Tok::Meta(_) = lx.tok {
            lx.next();
            if lx.isp(b'{') || lx.isp(b'(') {
                // inline metadata
                let mut d = 0;
                loop {
                    match lx.next() {
                        Tok::P(b'{') | Tok::P(b'(') => d += 1,
                        Tok::P(b'}') | Tok::P(b')') => {
                            d -= 1;
                            if d == 0 {
                                break;
                            }
                        }
                        Tok::End => break,
                        _ => {}
                    }
                }
            }
            return Opnd::C(CVal::Undef);
        }
        Opnd::C(self.cval(lx, ty))
    }
    fn parse_inst(&self, line: &str, regs: &HashMap<String, u32>, labels: &HashMap<String, u32>, blk: &mut Block) {
        let mut lx = Lex::new(line);
        let lx = &mut lx;
        let mut dst = None;
        if let Tok::Local(n) = lx.tok {
            lx.next();
            lx.expectp(b'=');
            dst = Some(regs[n]);
        }
        let label = |lx: &mut Lex| -> u32 {
            assert!(lx.eat("label"), "label in {}", line);
            match lx.next() {
                Tok::Local(n) => *labels.get(n).unwrap_or_else(|| panic!("label {n}")),
                x => panic!("label {:?}", x),
            }
        };
        let mut op = lx.word();
        while op == "tail" || op == "musttail" || op == "notail" {
            op = lx.word();
        }
        let inst = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while let Tok::Word(w) = lx.tok {
                    if matches!(w, "nuw" | "nsw" | "exact" | "disjoint") {
                        lx.next();
                    } else {
                        break;
                    }
                }
                let t = lx.ty();
                let a = self.opnd(lx, &t, regs);
                lx.expectp(b',');
                let b = self.opnd(lx, &t, regs);
                let o = match op {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                Inst::Bin(o, t, a, b)
            }
            "icmp" => {
                let mut p = lx.word();
                if p == "samesign" {
                    p = lx.word();
                }
                let p = match p {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => panic!("pred {p}"),
                };
                let t = lx.ty();
                let a = self.opnd(lx, &t, regs);
                lx.expectp(b',');
                let b = self.opnd(lx, &t, regs);
                Inst::ICmp(p, t, a, b)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                while let Tok::Word(w) = lx.tok {
                    if matches!(w, "nuw" | "nsw" | "nneg") {
                        lx.next();
                    } else {
                        break;
                    }
                }
                let t = lx.ty();
                let a = self.opnd(lx, &t, regs);
                assert!(lx.eat("to"));
                let t2 = lx.ty();
                let o = match op {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::Zext,
                    "sext" => CastOp::Sext,
                    "bitcast" => CastOp::Bitcast,
                    "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                    _ => CastOp::IntToPtr,
                };
                Inst::Cast(o, t, a, t2)
            }
            "select" => {
                let ct = lx.ty();
                let c = self.opnd(lx, &ct, regs);
                lx.expectp(b',');
                let t = lx.ty();
                let a = self.opnd(lx, &t, regs);
                lx.expectp(b',');
                let t2 = lx.ty();
                let b = self.opnd(lx, &t2, regs);
                Inst::Select(ct, c, t, a, b)
            }
            "alloca" => {
                let t = lx.ty();
                let mut n = Opnd::C(CVal::Int(64, 1));
                if lx.eatp(b',') && !lx.is("align") {
                    let it = lx.ty();
                    n = self.opnd(lx, &it, regs);
                }
                Inst::Alloca(t.size(), n)
            }
            "load" => {
                while lx.is("atomic") || lx.is("volatile") {
                    lx.next();
                }
                let t = lx.ty();
                lx.expectp(b',');
                let pt = lx.ty();
                let p = self.opnd(lx, &pt, regs);
                Inst::Load(t, p)
            }
            "store" => {
                while lx.is("atomic") || lx.is("volatile") {
                    lx.next();
                }
                let t = lx.ty();
                let v = self.opnd(lx, &t, regs);
                lx.expectp(b',');
                let pt = lx.ty();
                let p = self.opnd(lx, &pt, regs);
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                while let Tok::Word(w) = lx.tok {
                    if matches!(w, "inbounds" | "nuw" | "nusw") {
                        lx.next();
                    } else if w == "inrange" {
                        lx.next();
                        lx.skip_parens();
                    } else {
                        break;
                    }
                }
                let bt = lx.ty();
                lx.expectp(b',');
                let pt = lx.ty();
                let base = self.opnd(lx, &pt, regs);
                let mut off = 0i64;
                let mut var = vec![];
                let mut cur = bt;
                let mut first = true;
                while lx.isp(b',') {
                    lx.next();
                    if matches!(lx.tok, Tok::Meta(_)) {
                        break;
                    }
                    let it = lx.ty();
                    let v = self.opnd(lx, &it, regs);
                    let iw = if let Ty::Int(w) = it { w } else { 64 };
                    let scale;
                    if first {
                        scale = cur.size() as i64;
                        first = false;
                        match &v {
                            Opnd::C(CVal::Int(w, c)) => off += crate::term::sext(*c, *w) as i64 * scale,
                            _ => var.push((v, iw, scale)),
                        }
                    } else {
                        match &v {
                            Opnd::C(CVal::Int(w, c)) => {
                                let c = crate::term::sext(*c, *w) as i64;
                                match &cur {
                                    Ty::Struct(..) => off += cur.field_off(c as u64) as i64,
                                    _ => off += c * cur.field(0).size() as i64,
                                }
                                cur = cur.field(c as u64).clone();
                            }
                            _ => {
                                let el = cur.field(0).clone();
                                var.push((v, iw, el.size() as i64));
                                cur = el;
                            }
                        }
                    }
                }
                Inst::Gep(base, off, var)
            }
            "phi" => {
                let t = lx.ty();
                let mut inc = vec![];
                loop {
                    lx.expectp(b'[');
                    let v = self.opnd(lx, &t, regs);
                    lx.expectp(b',');
                    let b = match lx.next() {
                        Tok::Local(n) => *labels.get(n).unwrap_or_else(|| panic!("no label {n:?}")),
                        x => panic!("phi {:?}", x),
                    };
                    lx.expectp(b']');
                    inc.push((v, b));
                    if !lx.eatp(b',') || !lx.isp(b'[') {
                        break;
                    }
                }
                blk.phis.push(Phi { dst: dst.unwrap(), ty: t, inc });
                return;
            }
            "br" => {
                if lx.is("label") {
                    Inst::Br(label(lx))
                } else {
                    let t = lx.ty();
                    let c = self.opnd(lx, &t, regs);
                    lx.expectp(b',');
                    let a = label(lx);
                    lx.expectp(b',');
                    let b = label(lx);
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = lx.ty();
                let v = self.opnd(lx, &t, regs);
                lx.expectp(b',');
                let d = label(lx);
                lx.expectp(b'[');
                let mut cs = vec![];
                while !lx.isp(b']') {
                    let ct = lx.ty();
                    let c = match self.cval(lx, &ct) {
                        CVal::Int(_, c) => c,
                        _ => panic!("switch"),
                    };
                    lx.expectp(b',');
                    let b = label(lx);
                    cs.push((c, b));
                }
                Inst::Switch(t, v, d, cs)
            }
            "ret" => {
                let t = lx.ty();
                if t == Ty::Void {
                    Inst::Ret(t, None)
                } else {
                    let v = self.opnd(lx, &t, regs);
                    Inst::Ret(t, Some(v))
                }
            }
            "unreachable" => Inst::Unreachable,
            "call" | "invoke" => {
                // calling convention, attributes, type
                let ret;
                loop {
                    lx.attrs();
                    match lx.tok {
                        Tok::Word(w) => {
                            let isty = w == "void" || w == "ptr" || (w.starts_with('i') && w[1..].parse::<u16>().is_ok()) || w == "float" || w == "double";
                            if isty {
                                ret = lx.ty();
                                break;
                            }
                            lx.next();
                        }
                        Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => {
                            ret = lx.ty();
                            break;
                        }
                        _ => panic!("call? {:?} {line}", lx.tok),
                    }
                }
                if lx.isp(b'(') {
                    lx.skip_parens(); // function type of a varargs call
                }
                let callee = match lx.tok {
                    Tok::Glob(n) => {
                        lx.next();
                        Callee::Direct(*self.by_name.get(n).unwrap_or_else(|| panic!("callee {n}")))
                    }
                    Tok::Local(n) => {
                        lx.next();
                        Callee::Ptr(Opnd::Reg(regs[n]))
                    }
                    Tok::Word("asm") => {
                        while !lx.isp(b'(') {
                            lx.next();
                        }
                        Callee::Asm
                    }
                    _ => {
                        let o = self.opnd(lx, &Ty::Ptr, regs);
                        Callee::Ptr(o)
                    }
                };
                lx.expectp(b'(');
                let mut args = vec![];
                while !lx.isp(b')') {
                    let t = lx.ty();
                    lx.attrs();
                    let v = self.opnd(lx, &t, regs);
                    args.push((t, v));
                    if !lx.eatp(b',') {
                        break;
                    }
                }
                lx.expectp(b')');
                let mut noreturn = false;
                let mut normal = None;
                loop {
                    match lx.tok {
                        Tok::Attr(n) => {
                            if let Ok(n) = n.parse::<u32>() {
                                noreturn |= self.noreturn_attrs.contains(&n);
                            }
                            lx.next();
                        }
                        Tok::Word("noreturn") => {
                            noreturn = true;
                            lx.next();
                        }
                        Tok::Word("to") if op == "invoke" => {
                            lx.next();
                            normal = Some(label(lx));
                            break;
                        }
                        Tok::End => break,
                        _ => {
                            lx.next();
                        }
                    }
                }
                if let Callee::Direct(g) = callee {
                    noreturn |= self.globals[g as usize].noreturn;
                }
                Inst::Call { callee, ret, args, normal, noreturn }
            }
            "extractvalue" => {
                let t = lx.ty();
                let v = self.opnd(lx, &t, regs);
                let mut idx = vec![];
                while lx.eatp(b',') {
                    match lx.tok {
                        Tok::Word(w) => {
                            idx.push(w.parse().unwrap());
                            lx.next();
                        }
                        _ => break,
                    }
                }
                Inst::ExtractValue(v, idx)
            }
            "insertvalue" => {
                let t = lx.ty();
                let a = self.opnd(lx, &t, regs);
                lx.expectp(b',');
                let t2 = lx.ty();
                let v = self.opnd(lx, &t2, regs);
                let mut idx = vec![];
                while lx.eatp(b',') {
                    match lx.tok {
                        Tok::Word(w) => {
                            idx.push(w.parse().unwrap());
                            lx.next();
                        }
                        _ => break,
                    }
                }
                Inst::InsertValue(t, a, v, idx)
            }
            "extractelement" => {
                let t = lx.ty();
                let a = self.opnd(lx, &t, regs);
                lx.expectp(b',');
                let it = lx.ty();
                let i = self.opnd(lx, &it, regs);
                Inst::ExtractElem(a, i)
            }
            "insertelement" => {
                let t = lx.ty();
                let a = self.opnd(lx, &t, regs);
                lx.expectp(b',');
                let t2 = lx.ty();
                let v = self.opnd(lx, &t2, regs);
                lx.expectp(b',');
                let it = lx.ty();
                let i = self.opnd(lx, &it, regs);
                Inst::InsertElem(t, a, v, i)
            }
            "shufflevector" => {
                let t = lx.ty();
                let a = self.opnd(lx, &t, regs);
                lx.expectp(b',');
                let _t2 = lx.ty();
                let b = self.opnd(lx, &t, regs);
                lx.expectp(b',');
                let mt = lx.ty();
                let m = self.cval(lx, &mt);
                let n = if let Ty::Vec(_, n) = mt { n } else { 0 };
                let mv = match m {
                    CVal::Zero => vec![0; n as usize],
                    CVal::Undef => vec![-1; n as usize],
                    CVal::Agg(v) => v
                        .iter()
                        .map(|x| match &x.1 {
                            CVal::Int(_, c) => *c as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => panic!("shuffle mask"),
                };
                Inst::Shuffle(t, a, b, mv)
            }
            "freeze" => {
                let t = lx.ty();
                let a = self.opnd(lx, &t, regs);
                Inst::Freeze(t, a)
            }
            "atomicrmw" => {
                lx.eat("volatile");
                let o = lx.word().to_string();
                let pt = lx.ty();
                let p = self.opnd(lx, &pt, regs);
                lx.expectp(b',');
                let t = lx.ty();
                let v = self.opnd(lx, &t, regs);
                Inst::AtomicRmw(o, t, p, v)
            }
            "cmpxchg" => {
                lx.eat("weak");
                lx.eat("volatile");
                let pt = lx.ty();
                let p = self.opnd(lx, &pt, regs);
                lx.expectp(b',');
                let t = lx.ty();
                let c = self.opnd(lx, &t, regs);
                lx.expectp(b',');
                let _ = lx.ty();
                let n = self.opnd(lx, &t, regs);
                Inst::CmpXchg(t, p, c, n)
            }
            "fence" => Inst::Nop,
            _ => Inst::Unsupported(line.to_string()),
        };
        blk.insts.push((dst, inst));
    }
}

impl<'a> Lex<'a> {
    fn tok_start(&self) -> usize {
        match self.tok {
            Tok::Word(w) => w.as_ptr() as usize - self.s.as_ptr() as usize,
            Tok::CStr(w) => w.as_ptr() as usize - self.s.as_ptr() as usize - 2,
            Tok::Glob(w) => {
                let p = w.as_ptr() as usize - self.s.as_ptr() as usize;
                if self.s.as_bytes()[p - 1] == b'"' {
                    p - 2
                } else {
                    p - 1
                }
            }
            Tok::P(_) => self.i - 1,
            _ => panic!("tok_start {:?}", self.tok),
        }
    }
}

fn emit(c: &CVal, ty: &Ty, out: &mut [Option<u8>], off: usize) {
    match c {
        CVal::Int(_, v) => {
            for i in 0..ty.store_size() as usize {
                out[off + i] = Some((v >> (8 * i)) as u8);
            }
        }
        CVal::Addr(a) => {
            for i in 0..ty.store_size() as usize {
                out[off + i] = Some((a >> (8 * i)) as u8);
            }
        }
        CVal::Undef => {}
        CVal::Zero => {
            for i in 0..ty.size() as usize {
                out[off + i] = Some(0);
            }
        }
        CVal::Bytes(b) => {
            for (i, x) in b.iter().enumerate() {
                out[off + i] = Some(*x);
            }
        }
        CVal::Agg(v) => {
            for (i, (t, x)) in v.iter().enumerate() {
                let o = ty.field_off(i as u64) as usize;
                emit(x, t, out, off + o);
            }
        }
    }
}

// ---- weak topological order ----------------------------------------------------------
fn wto(f: &mut Func) {
    let n = f.blocks.len();
    f.path = vec![vec![]; n];
    f.comp_heads = vec![vec![]; n];
    // recursive SCC decomposition
    let all: Vec<u32> = (0..n as u32).collect();
    decompose(f, &all, 0, &vec![], &vec![]);
}
fn decompose(f: &mut Func, nodes: &[u32], entry: u32, prefix: &Vec<u32>, heads: &Vec<u32>) {
    // SCCs of the subgraph induced by nodes, in topological order
    let inset: std::collections::HashSet<u32> = nodes.iter().cloned().collect();
    let sccs = tarjan(f, nodes, entry, &inset);
    for (idx, scc) in sccs.iter().enumerate() {
        let mut p = prefix.clone();
        p.push(idx as u32);
        let trivial = scc.len() == 1 && !f.blocks[scc[0] as usize].succs.contains(&scc[0]);
        if trivial {
            let b = scc[0] as usize;
            f.path[b] = p;
            f.comp_heads[b] = heads.clone();
        } else {
            // head: node with a predecessor outside the scc (or the entry)
            let set: std::collections::HashSet<u32> = scc.iter().cloned().collect();
            let mut head = scc[0];
            let mut best = -1i64;
            for &b in scc {
                let mut outside = if b == entry { 1i64 << 40 } else { 0 };
                for (j, bl) in f.blocks.iter().enumerate() {
                    if !set.contains(&(j as u32)) && bl.succs.contains(&b) {
                        outside += 1;
                    }
                }
                if outside > best {
                    best = outside;
                    head = b;
                }
            }
            let mut hs = heads.clone();
            hs.push(head);
            let mut hp = p.clone();
            hp.push(0);
            f.path[head as usize] = hp;
            f.comp_heads[head as usize] = hs.clone();
            let rest: Vec<u32> = scc.iter().cloned().filter(|&b| b != head).collect();
            if !rest.is_empty() {
                // indices of the rest start after the head: use an offset of one
                decompose_rest(f, &rest, head, &p, &hs);
            }
        }
    }
}
fn decompose_rest(f: &mut Func, rest: &[u32], head: u32, prefix: &Vec<u32>, heads: &Vec<u32>) {
    let inset: std::collections::HashSet<u32> = rest.iter().cloned().collect();
    let sccs = tarjan(f, rest, head, &inset);
    for (idx, scc) in sccs.iter().enumerate() {
        let mut p = prefix.clone();
        p.push(idx as u32 + 1);
        let trivial = scc.len() == 1 && !f.blocks[scc[0] as usize].succs.contains(&scc[0]);
        if trivial {
            let b = scc[0] as usize;
            f.path[b] = p;
            f.comp_heads[b] = heads.clone();
        } else {
            let set: std::collections::HashSet<u32> = scc.iter().cloned().collect();
            let mut hd = scc[0];
            let mut best = -1i64;
            for &b in scc {
                let mut outside = 0;
                for (j, bl) in f.blocks.iter().enumerate() {
                    if !set.contains(&(j as u32)) && bl.succs.contains(&b) {
                        outside += 1;
                    }
                }
                if outside > best {
                    best = outside;
                    hd = b;
                }
            }
            let mut hs = heads.clone();
            hs.push(hd);
            let mut hp = p.clone();
            hp.push(0);
            f.path[hd as usize] = hp;
            f.comp_heads[hd as usize] = hs.clone();
            let r2: Vec<u32> = scc.iter().cloned().filter(|&b| b != hd).collect();
            if !r2.is_empty() {
                decompose_rest(f, &r2, hd, &p, &hs);
            }
        }
    }
}
/// SCCs in topological order (sources first), restricted to `inset`
fn tarjan(f: &Func, nodes: &[u32], _entry: u32, inset: &std::collections::HashSet<u32>) -> Vec<Vec<u32>> {
    let n = f.blocks.len();
    let mut index = vec![u32::MAX; n];
    let mut low = vec![0u32; n];
    let mut on = vec![false; n];
    let mut st: Vec<u32> = vec![];
    let mut out: Vec<Vec<u32>> = vec![];
    let mut next = 0u32;
    for &r in nodes {
        if index[r as usize] != u32::MAX {
            continue;
        }
        // iterative
        let mut work: Vec<(u32, usize)> = vec![(r, 0)];
        index[r as usize] = next;
        low[r as usize] = next;
        next += 1;
        st.push(r);
        on[r as usize] = true;
        while let Some(&mut (v, ref mut ci)) = work.last_mut() {
            let succ = &f.blocks[v as usize].succs;
            if *ci < succ.len() {
                let w = succ[*ci];
                *ci += 1;
                if !inset.contains(&w) {
                    continue;
                }
                if index[w as usize] == u32::MAX {
                    index[w as usize] = next;
                    low[w as usize] = next;
                    next += 1;
                    st.push(w);
                    on[w as usize] = true;
                    work.push((w, 0));
                } else if on[w as usize] {
                    low[v as usize] = low[v as usize].min(index[w as usize]);
                }
            } else {
                work.pop();
                if let Some(&mut (p, _)) = work.last_mut() {
                    low[p as usize] = low[p as usize].min(low[v as usize]);
                }
                if low[v as usize] == index[v as usize] {
                    let mut c = vec![];
                    loop {
                        let w = st.pop().unwrap();
                        on[w as usize] = false;
                        c.push(w);
                        if w == v {
                            break;
                        }
                    }
                    out.push(c);
                }
            }
        }
    }
    out.reverse();
    out
}

// ---- liveness -------------------------------------------------------------------------
pub fn inst_uses(i: &Inst, f: &mut dyn FnMut(&Opnd)) {
    match i {
        Inst::Bin(_, _, a, b) | Inst::ICmp(_, _, a, b) => {
            f(a);
            f(b)
        }
        Inst::Cast(_, _, a, _) | Inst::Freeze(_, a) | Inst::Load(_, a) | Inst::ExtractValue(a, _) | Inst::Alloca(_, a) => f(a),
        Inst::Select(_, c, _, a, b) => {
            f(c);
            f(a);
            f(b)
        }
        Inst::Store(_, a, b) | Inst::ExtractElem(a, b) | Inst::InsertValue(_, a, b, _) | Inst::Shuffle(_, a, b, _) | Inst::AtomicRmw(_, _, a, b) => {
            f(a);
            f(b)
        }
        Inst::InsertElem(_, a, b, c) | Inst::CmpXchg(_, a, b, c) => {
            f(a);
            f(b);
            f(c)
        }
        Inst::Gep(b, _, v) => {
            f(b);
            for x in v {
                f(&x.0)
            }
        }
        Inst::CondBr(c, _, _) => f(c),
        Inst::Switch(_, c, _, _) => f(c),
        Inst::Ret(_, Some(v)) => f(v),
        Inst::Call { callee, args, .. } => {
            if let Callee::Ptr(p) = callee {
                f(p)
            }
            for a in args {
                f(&a.1)
            }
        }
        _ => {}
    }
}
fn liveness(f: &mut Func) {
    let n = f.blocks.len();
    let words = (f.nregs as usize + 63) / 64;
    let mut gen = vec![vec![0u64; words]; n];
    let mut kill = vec![vec![0u64; words]; n];
    // phi uses belong to the predecessor's out set
    let mut phi_out = vec![vec![0u64; words]; n];
    let set = |v: &mut Vec<u64>, r: u32| v[r as usize / 64] |= 1 << (r % 64);
    for b in 0..n {
        for p in &f.blocks[b].phis {
            set(&mut kill[b], p.dst);
            for (o, pb) in &p.inc {
                if let Opnd::Reg(r) = o {
                    set(&mut phi_out[*pb as usize], *r);
                }
            }
        }
        for (d, i) in &f.blocks[b].insts {
            let (g, k) = (&mut gen[b], &kill[b]);
            inst_uses(i, &mut |o| {
                if let Opnd::Reg(r) = o {
                    if k[*r as usize / 64] >> (r % 64) & 1 == 0 {
                        g[*r as usize / 64] |= 1 << (r % 64);
                    }
                }
            });
            if let Some(d) = d {
                set(&mut kill[b], *d);
            }
        }
    }
    let mut live = gen.clone();
    loop {
        let mut ch = false;
        for b in (0..n).rev() {
            let mut out = phi_out[b].clone();
            for &s in &f.blocks[b].succs {
                for w in 0..words {
                    out[w] |= live[s as usize][w];
                }
            }
            for w in 0..words {
                let v = gen[b][w] | (out[w] & !kill[b][w]);
                if v != live[b][w] {
                    live[b][w] = v;
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    // states wait at block entries after their phis were evaluated, so phi results count as live
    for b in 0..n {
        let dsts: Vec<u32> = f.blocks[b].phis.iter().map(|p| p.dst).collect();
        for d in dsts {
            live[b][d as usize / 64] |= 1 << (d % 64);
        }
    }
    f.live_in = live;
}

impl Func {
    /// registers whose value still matters: before instruction idx, or (callers) while the call at idx runs
    pub fn live_at(&self, block: u32, idx: u32, top: bool) -> Vec<u64> {
        let words = (self.nregs as usize + 63) / 64;
        if top && idx == 0 {
            return self.live_in[block as usize].clone();
        }
        let b = &self.blocks[block as usize];
        let mut live = vec![0u64; words];
        for &s in &b.succs {
            for w in 0..words {
                live[w] |= self.live_in[s as usize][w];
            }
            for p in &self.blocks[s as usize].phis {
                for (o, pb) in &p.inc {
                    if let (Opnd::Reg(r), true) = (o, *pb == block) {
                        live[*r as usize / 64] |= 1 << (r % 64);
                    }
                }
            }
        }
        let stop = if top { idx } else { idx + 1 } as usize;
        for (d, i) in b.insts[stop.min(b.insts.len())..].iter().rev() {
            if let Some(d) = d {
                live[*d as usize / 64] &= !(1 << (d % 64));
            }
            inst_uses(i, &mut |o| {
                if let Opnd::Reg(r) = o {
                    live[*r as usize / 64] |= 1 << (r % 64);
                }
            });
        }
        if !top {
            if let Some(d) = b.insts[idx as usize].0 {
                live[d as usize / 64] &= !(1 << (d % 64));
            }
        }
        live
    }
}
