//! Parser for textual LLVM IR.
use crate::ir::*;
use std::collections::HashMap;
use std::sync::Arc;

pub struct Parser<'a> {
    s: &'a [u8],
    p: usize,
    pub types: Types,
    named: HashMap<String, TyId>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub consts: Vec<Val>,
    // per function
    regs: HashMap<String, u32>,
    nregs: u32,
    // common types
    t_void: TyId,
    t_i1: TyId,
    t_ptr: TyId,
    t_i64: TyId,
    t_i8: TyId,
}

type R<T> = Result<T, String>;

fn is_wordc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}

enum PTarget {
    Name(String),
}

/// Instruction with unresolved block targets.
enum Raw {
    I(Inst),
    Phi { dst: u32, inc: Vec<(Op, String)> },
    Br(PTarget),
    Cond(Op, PTarget, PTarget),
    Switch(Op, u32, PTarget, Vec<(u64, PTarget)>),
    Invoke(Inst, PTarget),
}

impl<'a> Parser<'a> {
    pub fn new(s: &'a [u8]) -> Self {
        let mut types = Types::default();
        let t_void = types.intern(Ty::Void);
        let t_i1 = types.intern(Ty::Int(1));
        let t_ptr = types.intern(Ty::Ptr);
        let t_i64 = types.intern(Ty::Int(64));
        let t_i8 = types.intern(Ty::Int(8));
        Parser {
            s,
            p: 0,
            types,
            named: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            consts: vec![],
            regs: HashMap::new(),
            nregs: 0,
            t_void,
            t_i1,
            t_ptr,
            t_i64,
            t_i8,
        }
    }

    fn ctx(&self) -> String {
        let ls = self.s[..self.p.min(self.s.len())].iter().rposition(|&c| c == b'\n').map_or(0, |x| x + 1);
        let le = self.s[ls..].iter().position(|&c| c == b'\n').map_or(self.s.len(), |x| x + ls);
        let line = String::from_utf8_lossy(&self.s[ls..le.min(ls + 400)]).into_owned();
        format!("at col {} of: {}", self.p - ls, line)
    }
    fn err<T>(&self, m: &str) -> R<T> {
        Err(format!("{m} {}", self.ctx()))
    }

    fn ws(&mut self) {
        while self.p < self.s.len() {
            match self.s[self.p] {
                b' ' | b'\t' | b'\n' | b'\r' => self.p += 1,
                b';' => self.skip_line(),
                _ => break,
            }
        }
    }
    /// whitespace on the same line only
    fn sp(&mut self) {
        while self.p < self.s.len() && matches!(self.s[self.p], b' ' | b'\t') {
            self.p += 1;
        }
    }
    fn skip_line(&mut self) {
        while self.p < self.s.len() && self.s[self.p] != b'\n' {
            self.p += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.p).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            self.err(&format!("expected '{}'", c as char))
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && is_wordc(self.s[self.p]) {
            self.p += 1;
        }
        std::str::from_utf8(&self.s[st..self.p]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let p = self.p;
        if self.word() == w {
            true
        } else {
            self.p = p;
            false
        }
    }
    fn skip_balanced(&mut self) {
        // at an opening bracket
        let mut depth = 0;
        loop {
            let c = self.s[self.p];
            match c {
                b'(' | b'[' | b'{' => depth += 1,
                b')' | b']' | b'}' => depth -= 1,
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
            if depth == 0 {
                return;
            }
        }
    }
    /// name after a sigil (@ or %)
    fn name(&mut self) -> R<String> {
        if self.s[self.p] == b'"' {
            self.p += 1;
            let st = self.p;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            let n = String::from_utf8_lossy(&self.s[st..self.p]).into_owned();
            self.p += 1;
            Ok(n)
        } else {
            let st = self.p;
            while self.p < self.s.len() && is_wordc(self.s[self.p]) {
                self.p += 1;
            }
            Ok(String::from_utf8_lossy(&self.s[st..self.p]).into_owned())
        }
    }
    fn string(&mut self) -> R<Vec<u8>> {
        // at '"'
        self.expect(b'"')?;
        let mut v = vec![];
        loop {
            let c = self.s[self.p];
            self.p += 1;
            match c {
                b'"' => return Ok(v),
                b'\\' => {
                    if self.s[self.p] == b'\\' {
                        v.push(b'\\');
                        self.p += 1;
                    } else {
                        let h = std::str::from_utf8(&self.s[self.p..self.p + 2]).unwrap();
                        v.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                        self.p += 2;
                    }
                }
                c => v.push(c),
            }
        }
    }

    fn global(&mut self, name: String) -> u32 {
        if let Some(&g) = self.gmap.get(&name) {
            return g;
        }
        let g = self.globals.len() as u32;
        self.globals.push(Global { name: name.clone(), size: 0, data: None, constant: false, func: None, is_func: false, builtin: 0 });
        self.gmap.insert(name, g);
        g
    }

    fn is_type_start(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' => true,
            b'%' => true,
            c if c.is_ascii_alphabetic() => {
                let w = self.peek_word();
                match w {
                    "void" | "half" | "float" | "double" | "fp128" | "x86_fp80" | "ptr" | "label" | "metadata" | "token" | "bfloat" | "opaque" => true,
                    _ => w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(u8::is_ascii_digit),
                }
            }
            _ => false,
        }
    }

    fn ty(&mut self) -> R<TyId> {
        let c = self.peek();
        let t = match c {
            b'[' => {
                self.p += 1;
                let n: u64 = self.word().parse().map_err(|_| "array len".to_string())?;
                if !self.eat_word("x") {
                    return self.err("expected x");
                }
                let e = self.ty()?;
                self.expect(b']')?;
                self.types.intern(Ty::Arr(n, e))
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    let t = self.struct_body(true)?;
                    self.expect(b'>')?;
                    t
                } else {
                    let n: u32 = self.word().parse().map_err(|_| format!("vec len {}", self.ctx()))?;
                    if !self.eat_word("x") {
                        return self.err("expected x");
                    }
                    let e = self.ty()?;
                    self.expect(b'>')?;
                    self.types.intern(Ty::Vec(n, e))
                }
            }
            b'{' => self.struct_body(false)?,
            b'%' => {
                self.p += 1;
                let n = self.name()?;
                match self.named.get(&n) {
                    Some(&t) => t,
                    None => return self.err("unknown named type"),
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => self.t_void,
                    "ptr" => self.t_ptr,
                    "i1" => self.t_i1,
                    "i8" => self.t_i8,
                    "i64" => self.t_i64,
                    "float" => self.types.intern(Ty::F32),
                    "double" => self.types.intern(Ty::F64),
                    "half" | "bfloat" => self.types.intern(Ty::FOther(16)),
                    "fp128" => self.types.intern(Ty::FOther(128)),
                    "x86_fp80" => self.types.intern(Ty::FOther(80)),
                    "label" => self.types.intern(Ty::Label),
                    "metadata" => self.types.intern(Ty::Meta),
                    "token" | "opaque" => self.types.intern(Ty::Opaque),
                    w if w.starts_with('i') => {
                        let n: u32 = w[1..].parse().map_err(|_| format!("bad type {w} {}", self.ctx()))?;
                        self.types.intern(Ty::Int(n))
                    }
                    _ => return self.err("bad type"),
                }
            }
        };
        // ptr addrspace(n)
        if t == self.t_ptr && self.peek_word() == "addrspace" {
            self.word();
            self.ws();
            self.skip_balanced();
        }
        // function type "ret (args)"
        let sp = self.p;
        self.sp();
        if self.p < self.s.len() && self.s[self.p] == b'(' && self.p > sp {
            // Only in call of varargs function types: caller handles; leave position
            self.p = sp;
        } else {
            self.p = sp;
        }
        Ok(t)
    }
    fn struct_body(&mut self, packed: bool) -> R<TyId> {
        self.expect(b'{')?;
        let mut v = vec![];
        if !self.eat(b'}') {
            loop {
                v.push(self.ty()?);
                if self.eat(b'}') {
                    break;
                }
                self.expect(b',')?;
            }
        }
        Ok(self.types.intern(Ty::Struct(v, packed)))
    }

    fn zero(&self, t: TyId) -> Val {
        match &self.types.list[t as usize] {
            Ty::Arr(n, e) => Val::A(Arc::new(vec![self.zero(*e); *n as usize])),
            Ty::Vec(n, e) => Val::A(Arc::new(vec![self.zero(*e); *n as usize])),
            Ty::Struct(fs, _) => Val::A(Arc::new(fs.iter().map(|f| self.zero(*f)).collect())),
            _ => Val::C(0),
        }
    }

    /// inf, qnan, nan(0x..), snan(0x..) after the sign.
    fn special_float(&mut self, w: u32, neg: bool) -> R<Val> {
        let wd = self.word();
        let mut payload = 0u64;
        if self.s.get(self.p) == Some(&b'(') {
            self.p += 1;
            let p = self.word();
            payload = u64::from_str_radix(p.trim_start_matches("0x"), 16).map_err(|e| e.to_string())?;
            self.expect(b')')?;
        }
        let (inf, quiet, sign) = match w {
            32 => (0x7f80_0000u64, 0x40_0000u64, 1u64 << 31),
            64 => (0x7ff0_0000_0000_0000, 0x8_0000_0000_0000, 1 << 63),
            _ => return Ok(Val::C(0)),
        };
        let v = match wd {
            "inf" => inf,
            "qnan" | "nan" => inf | quiet | payload,
            "snan" => inf | payload,
            _ => return self.err("float constant"),
        };
        Ok(Val::C(v | if neg { sign } else { 0 }))
    }
    pub fn mkint(w: u32, v: u128) -> Val {
        let v = if w >= 128 { v } else { v & ((1u128 << w) - 1) };
        if w <= 64 {
            Val::C(v as u64)
        } else {
            Val::W(Arc::new(v))
        }
    }

    /// Parse a constant of the given type.
    fn cst(&mut self, t: TyId) -> R<Val> {
        let c = self.peek();
        match c {
            b'@' => {
                self.p += 1;
                let n = self.name()?;
                let g = self.global(n);
                return Ok(Val::C(gaddr(g)));
            }
            b'c' if self.s[self.p + 1] == b'"' => {
                self.p += 1;
                let b = self.string()?;
                return Ok(Val::A(Arc::new(b.into_iter().map(|x| Val::C(x as u64)).collect())));
            }
            b'[' | b'{' | b'<' => {
                self.p += 1;
                let mut close = match c {
                    b'[' => b']',
                    b'{' => b'}',
                    _ => b'>',
                };
                let mut packed = false;
                if c == b'<' && self.peek() == b'{' {
                    self.p += 1;
                    close = b'}';
                    packed = true;
                }
                let mut v = vec![];
                if !self.eat(close) {
                    loop {
                        let et = self.ty()?;
                        v.push(self.cst(et)?);
                        if self.eat(close) {
                            break;
                        }
                        self.expect(b',')?;
                    }
                }
                if packed {
                    self.expect(b'>')?;
                }
                return Ok(Val::A(Arc::new(v)));
            }
            _ => {}
        }
        let w = self.types.width(t);
        if self.peek() == b'+' {
            self.p += 1;
            return self.special_float(w, false);
        }
        if self.peek() == b'-' && matches!(self.s.get(self.p + 1), Some(b'i' | b'q' | b'n' | b's')) {
            self.p += 1;
            return self.special_float(w, true);
        }
        let wd = self.word();
        if wd.is_empty() {
            return self.err("expected constant");
        }
        let b0 = wd.as_bytes()[0];
        if b0.is_ascii_digit() || b0 == b'-' {
            // number; float may contain '+', e.g. 1.0e+00
            let mut txt = wd.to_string();
            if txt.ends_with('e') && self.p < self.s.len() && self.s[self.p] == b'+' {
                self.p += 1;
                txt.push('+');
                txt.push_str(self.word());
            }
            match self.types.list[t as usize] {
                Ty::F64 => {
                    if let Some(h) = txt.strip_prefix("0x") {
                        return Ok(Val::C(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?));
                    }
                    return Ok(Val::C(txt.parse::<f64>().map_err(|e| e.to_string())?.to_bits()));
                }
                Ty::F32 => {
                    let d = if let Some(h) = txt.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
                    } else {
                        txt.parse::<f64>().map_err(|e| e.to_string())?
                    };
                    return Ok(Val::C((d as f32).to_bits() as u64));
                }
                Ty::FOther(_) => return Ok(Val::C(0)),
                _ => {}
            }
            if w > 128 {
                return Ok(Val::C(0));
            }
            let v = if let Some(n) = txt.strip_prefix('-') {
                (n.parse::<u128>().map_err(|e| format!("{e} {txt} {}", self.ctx()))?).wrapping_neg()
            } else {
                txt.parse::<u128>().map_err(|e| format!("{e} {txt} {}", self.ctx()))?
            };
            return Ok(Self::mkint(w, v));
        }
        match wd {
            "true" => Ok(Val::C(1)),
            "false" | "null" | "none" => Ok(Val::C(0)),
            "undef" | "poison" | "zeroinitializer" => Ok(self.zero(t)),
            "splat" => {
                self.expect(b'(')?;
                let et = self.ty()?;
                let v = self.cst(et)?;
                self.expect(b')')?;
                let n = match self.types.list[t as usize] {
                    Ty::Vec(n, _) => n as usize,
                    Ty::Arr(n, _) => n as usize,
                    _ => return self.err("splat type"),
                };
                Ok(Val::A(Arc::new(vec![v; n])))
            }
            "getelementptr" => {
                while self.peek() != b'(' {
                    // flags incl. inrange(...)
                    let w = self.word();
                    if w == "inrange" {
                        self.ws();
                        self.skip_balanced();
                    }
                    if w.is_empty() {
                        return self.err("gep const");
                    }
                }
                self.expect(b'(')?;
                let mut st = self.ty()?;
                self.expect(b',')?;
                let pt = self.ty()?;
                let base = self.cst(pt)?;
                let mut addr = match base {
                    Val::C(x) => x,
                    _ => return self.err("gep base"),
                };
                let mut first = true;
                while self.eat(b',') {
                    let it = self.ty()?;
                    let iw = self.types.width(it);
                    let iv = match self.cst(it)? {
                        Val::C(x) => x,
                        _ => return self.err("gep idx"),
                    };
                    let iv = if iw < 64 { ((iv << (64 - iw)) as i64) >> (64 - iw) } else { iv as i64 };
                    if first {
                        addr = addr.wrapping_add((iv as u64).wrapping_mul(self.types.size[st as usize]));
                        first = false;
                    } else {
                        let (o, nt) = match &self.types.list[st as usize] {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => ((iv as u64).wrapping_mul(self.types.size[*e as usize]), *e),
                            _ => self.types.field_off(st, iv as u64),
                        };
                        addr = addr.wrapping_add(o);
                        st = nt;
                    }
                }
                self.expect(b')')?;
                Ok(Val::C(addr))
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                self.expect(b'(')?;
                let ft = self.ty()?;
                let v = self.cst(ft)?;
                if !self.eat_word("to") {
                    return self.err("cast const");
                }
                let tt = self.ty()?;
                self.expect(b')')?;
                let tw = self.types.width(tt);
                Ok(match v {
                    Val::C(x) if tw > 0 => Self::mkint(tw, x as u128),
                    v => v,
                })
            }
            "add" | "sub" | "xor" | "mul" | "and" | "or" => {
                while self.peek() != b'(' {
                    self.word();
                }
                self.expect(b'(')?;
                let at = self.ty()?;
                let a = self.cst(at)?;
                self.expect(b',')?;
                let bt = self.ty()?;
                let b = self.cst(bt)?;
                self.expect(b')')?;
                let (Val::C(a), Val::C(b)) = (a, b) else { return self.err("const arith") };
                let r = match wd {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "xor" => a ^ b,
                    "mul" => a.wrapping_mul(b),
                    "and" => a & b,
                    _ => a | b,
                };
                Ok(Self::mkint(self.types.width(at), r as u128))
            }
            "blockaddress" | "dso_local_equivalent" | "no_cfi" => {
                self.ws();
                if self.peek() == b'(' {
                    self.skip_balanced();
                }
                Ok(Val::C(0))
            }
            _ => self.err(&format!("unknown constant '{wd}'")),
        }
    }

    fn ser(&self, t: TyId, v: &Val, out: &mut [u8]) {
        match (&self.types.list[t as usize], v) {
            (Ty::Arr(_, e), Val::A(vs)) => {
                let s = self.types.size[*e as usize] as usize;
                if s == 1 {
                    for (i, x) in vs.iter().enumerate() {
                        match x {
                            Val::C(c) => out[i] = *c as u8,
                            x => self.ser(*e, x, &mut out[i..]),
                        }
                    }
                    return;
                }
                for (i, x) in vs.iter().enumerate() {
                    self.ser(*e, x, &mut out[i * s..]);
                }
            }
            (Ty::Vec(_, e), Val::A(vs)) => {
                let s = self.types.size[*e as usize] as usize;
                for (i, x) in vs.iter().enumerate() {
                    self.ser(*e, x, &mut out[i * s..]);
                }
            }
            (Ty::Struct(fs, _), Val::A(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    let (o, _) = self.types.field_off(t, i as u64);
                    self.ser(fs[i], x, &mut out[o as usize..]);
                }
            }
            (_, Val::C(c)) => {
                let n = (self.types.width(t) as usize).div_ceil(8);
                let n = n.min(8);
                out[..n].copy_from_slice(&c.to_le_bytes()[..n]);
            }
            (_, Val::W(c)) => {
                let n = (self.types.width(t) as usize).div_ceil(8);
                out[..n].copy_from_slice(&c.to_le_bytes()[..n]);
            }
            _ => {}
        }
    }

    pub fn parse(mut self) -> R<Module> {
        loop {
            self.ws();
            if self.p >= self.s.len() {
                break;
            }
            match self.s[self.p] {
                b'@' => self.global_def()?,
                b'%' => {
                    self.p += 1;
                    let n = self.name()?;
                    self.expect(b'=')?;
                    if !self.eat_word("type") {
                        return self.err("type def");
                    }
                    let t = self.ty()?;
                    self.named.insert(n, t);
                    self.skip_line();
                }
                b'$' | b'!' | b'^' => self.skip_entry(),
                _ => {
                    let w = self.peek_word();
                    match w {
                        "define" => self.define()?,
                        "declare" => self.declare()?,
                        _ => self.skip_entry(),
                    }
                }
            }
        }
        Ok(Module { types: self.types, globals: self.globals, gmap: self.gmap, consts: self.consts })
    }
    fn skip_entry(&mut self) {
        self.skip_line();
    }

    fn global_def(&mut self) -> R<()> {
        self.p += 1;
        let n = self.name()?;
        let g = self.global(n);
        self.expect(b'=')?;
        // linkage etc. until 'global' / 'constant' / 'alias'
        loop {
            let w = self.word();
            match w {
                "global" | "constant" => {
                    let external = false;
                    let _ = external;
                    let is_const = w == "constant";
                    let t = self.ty()?;
                    let size = self.types.size[t as usize];
                    self.globals[g as usize].size = size;
                    self.globals[g as usize].constant = is_const;
                    self.sp();
                    let c = self.s[self.p];
                    if c == b',' || c == b'\n' {
                        // external declaration
                        self.skip_line();
                        return Ok(());
                    }
                    let v = self.cst(t)?;
                    let mut out = vec![0u8; size as usize];
                    self.ser(t, &v, &mut out);
                    self.globals[g as usize].data = Some(Arc::new(out));
                    self.skip_line();
                    return Ok(());
                }
                "alias" | "ifunc" => {
                    // alias: @x = alias ty, ptr @y
                    let _ = self.ty()?;
                    if self.peek() == b'(' {
                        self.skip_balanced();
                    }
                    self.expect(b',')?;
                    let pt = self.ty()?;
                    let v = self.cst(pt)?;
                    let _ = v;
                    self.skip_line();
                    return Ok(());
                }
                "" => {
                    if self.peek() == b'(' {
                        self.skip_balanced();
                    } else {
                        return self.err("global def");
                    }
                }
                _ => {}
            }
        }
    }

    fn skip_to_ret_ty(&mut self) -> R<()> {
        loop {
            if self.is_type_start() {
                return Ok(());
            }
            let w = self.word();
            if w.is_empty() {
                if self.peek() == b'(' {
                    self.skip_balanced();
                } else if self.peek() == b'#' {
                    self.p += 1;
                    self.word();
                } else if self.peek() == b'"' {
                    let _ = self.string()?;
                    if self.peek() == b'=' {
                        self.p += 1;
                        let _ = self.string()?;
                    }
                } else {
                    return self.err("expected type");
                }
            } else if w == "align" {
                self.word();
            } else if self.p < self.s.len() && self.s[self.p] == b'(' {
                self.skip_balanced();
            }
        }
    }

    fn declare(&mut self) -> R<()> {
        self.word();
        if self.peek() == b'!' {
            self.skip_line();
            return Ok(());
        }
        self.skip_to_ret_ty()?;
        self.ty()?;
        self.expect(b'@')?;
        let n = self.name()?;
        let g = self.global(n);
        self.globals[g as usize].is_func = true;
        self.skip_line();
        Ok(())
    }

    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }

    fn param_attrs(&mut self) -> R<()> {
        loop {
            let c = self.peek();
            if c == b'"' {
                let _ = self.string()?;
                if self.peek() == b'=' {
                    self.p += 1;
                    let _ = self.string()?;
                }
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return Ok(());
            }
            if c == b'c' && self.s[self.p + 1] == b'"' {
                return Ok(());
            }
            let p = self.p;
            let w = self.word();
            match w {
                "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "add" | "sub"
                | "xor" | "asm" | "zext" | "sext" | "blockaddress" | "ptrtoaddr" => {
                    self.p = p;
                    return Ok(());
                }
                "align" => {
                    if self.peek() == b'(' {
                        self.skip_balanced();
                    } else {
                        self.word();
                    }
                }
                _ => {
                    if self.p < self.s.len() && self.s[self.p] == b'(' {
                        self.skip_balanced();
                    }
                }
            }
        }
    }

    fn kop(&mut self, v: Val) -> Op {
        match v {
            Val::C(c) => Op::C(c),
            v => {
                self.consts.push(v);
                Op::K(self.consts.len() as u32 - 1)
            }
        }
    }

    fn val(&mut self, t: TyId) -> R<Op> {
        if self.peek() == b'%' {
            self.p += 1;
            let n = self.name()?;
            return Ok(Op::R(self.reg(&n)));
        }
        let v = self.cst(t)?;
        Ok(self.kop(v))
    }
    fn tval(&mut self) -> R<(TyId, Op)> {
        let t = self.ty()?;
        let v = self.val(t)?;
        Ok((t, v))
    }
    fn label(&mut self) -> R<PTarget> {
        if !self.eat_word("label") {
            return self.err("expected label");
        }
        self.expect(b'%')?;
        Ok(PTarget::Name(self.name()?))
    }

    fn define(&mut self) -> R<()> {
        self.word();
        self.skip_to_ret_ty()?;
        self.ty()?;
        self.expect(b'@')?;
        let fname = self.name()?;
        let g = self.global(fname.clone());
        self.regs = HashMap::new();
        self.nregs = 0;
        self.expect(b'(')?;
        let mut np = 0u32;
        let mut nparam = 0u32;
        if !self.eat(b')') {
            loop {
                if self.peek() == b'.' {
                    self.p += 3;
                } else {
                    self.ty()?;
                    self.param_attrs()?;
                    if self.peek() == b'%' {
                        self.p += 1;
                        let n = self.name()?;
                        self.reg(&n);
                    } else {
                        let n = format!("{np}");
                        self.reg(&n);
                    }
                    np += 1;
                    nparam += 1;
                }
                if self.eat(b')') {
                    break;
                }
                self.expect(b',')?;
            }
        }
        // skip to '{' at end of line
        loop {
            let c = self.s[self.p];
            if c == b'{' && self.s[self.p + 1] == b'\n' {
                break;
            }
            if c == b'"' {
                self.string()?;
                continue;
            }
            self.p += 1;
        }
        self.p += 2;
        let mut blocks: Vec<(String, Vec<Raw>)> = vec![];
        blocks.push((String::from("\u{1}entry"), vec![]));
        let mut first = true;
        loop {
            self.ws();
            if self.s[self.p] == b'}' {
                self.p += 1;
                break;
            }
            // label?
            let save = self.p;
            let lbl = if self.s[self.p] == b'"' {
                let n = self.name()?;
                if self.s[self.p] == b':' {
                    Some(n)
                } else {
                    None
                }
            } else if is_wordc(self.s[self.p]) {
                let n = self.name()?;
                if self.s[self.p] == b':' {
                    Some(n)
                } else {
                    None
                }
            } else {
                None
            };
            if let Some(l) = lbl {
                self.p += 1;
                if first {
                    blocks[0].0 = l;
                } else {
                    blocks.push((l, vec![]));
                }
                first = false;
                self.skip_line();
                continue;
            }
            self.p = save;
            if self.s[self.p] == b'#' {
                self.skip_line();
                continue;
            }
            first = false;
            let r = self.inst().map_err(|e| format!("in @{fname}: {e}"))?;
            if let Some(r) = r {
                blocks.last_mut().unwrap().1.push(r);
            }
        }
        // entry unnamed label: number = nparam typically
        if blocks[0].0.starts_with('\u{1}') {
            blocks[0].0 = format!("{nparam}");
        }
        self.finish(g, nparam, blocks)
    }

    fn finish(&mut self, g: u32, nparams: u32, blocks: Vec<(String, Vec<Raw>)>) -> R<()> {
        let bidx: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
        // phi tables: for block b: map pred name -> moves
        let mut phis: Vec<Vec<(u32, Vec<(Op, String)>)>> = vec![vec![]; blocks.len()];
        let mut rest: Vec<(String, Vec<Raw>)> = vec![];
        for (i, (n, rs)) in blocks.into_iter().enumerate() {
            let mut v = vec![];
            for r in rs {
                match r {
                    Raw::Phi { dst, inc } => phis[i].push((dst, inc)),
                    r => v.push(r),
                }
            }
            rest.push((n, v));
        }
        let mk = |from: &str, t: PTarget| -> R<Target> {
            let PTarget::Name(n) = t;
            let bb = *bidx.get(&n).ok_or_else(|| format!("no block {n}"))?;
            let mut moves = vec![];
            for (dst, inc) in &phis[bb as usize] {
                let src = inc.iter().find(|(_, b)| b == from).ok_or_else(|| format!("phi missing pred {from}"))?.0;
                moves.push((*dst, src));
            }
            Ok(Target { bb, moves: moves.into() })
        };
        let mut code = vec![];
        let mut starts = vec![];
        for (n, rs) in rest {
            starts.push(code.len() as u32);
            for r in rs {
                let i = match r {
                    Raw::I(i) => i,
                    Raw::Br(t) => Inst::Br(Box::new(mk(&n, t)?)),
                    Raw::Cond(c, t, f) => Inst::CondBr { c, t: Box::new(mk(&n, t)?), f: Box::new(mk(&n, f)?) },
                    Raw::Switch(v, w, d, cs) => {
                        let mut cases = vec![];
                        let mut map = HashMap::new();
                        for (k, t) in cs {
                            map.insert(k, cases.len() as u32);
                            cases.push((k, mk(&n, t)?));
                        }
                        Inst::Switch { v, w, default: Box::new(mk(&n, d)?), cases: cases.into(), map: Box::new(map) }
                    }
                    Raw::Invoke(mut c, t) => {
                        let tg = mk(&n, t)?;
                        if let Inst::Call { next, .. } = &mut c {
                            *next = Some(Box::new(tg));
                        }
                        c
                    }
                    Raw::Phi { .. } => unreachable!(),
                };
                code.push(i);
            }
        }
        let f = Func { nparams, nregs: self.nregs, blocks: starts, code };
        let gl = &mut self.globals[g as usize];
        gl.is_func = true;
        gl.func = Some(Arc::new(f));
        Ok(())
    }

    fn vec_info(&self, t: TyId) -> (u32, u32) {
        match self.types.list[t as usize] {
            Ty::Vec(n, e) => (self.types.width(e), n),
            _ => (self.types.width(t), 0),
        }
    }

    fn inst(&mut self) -> R<Option<Raw>> {
        let mut dst = u32::MAX;
        if self.peek() == b'%' {
            self.p += 1;
            let n = self.name()?;
            dst = self.reg(&n);
            self.expect(b'=')?;
        }
        let opn = self.word();
        let r = match opn {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while !self.is_type_start() {
                    self.word();
                }
                let (t, a) = self.tval()?;
                self.expect(b',')?;
                let b = self.val(t)?;
                let op = match opn {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    "ashr" => Bin::AShr,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    _ => Bin::Xor,
                };
                let (w, lanes) = self.vec_info(t);
                Raw::I(Inst::Bin { op, w, lanes, dst, a, b })
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while !self.is_type_start() {
                    self.word();
                }
                let (t, a) = self.tval()?;
                self.expect(b',')?;
                let b = self.val(t)?;
                let op = match opn {
                    "fadd" => FBin::Add,
                    "fsub" => FBin::Sub,
                    "fmul" => FBin::Mul,
                    "fdiv" => FBin::Div,
                    _ => FBin::Rem,
                };
                let (w, lanes) = self.vec_info(t);
                Raw::I(Inst::FBin { op, w, lanes, dst, a, b })
            }
            "fneg" => {
                while !self.is_type_start() {
                    self.word();
                }
                let (t, a) = self.tval()?;
                let (w, lanes) = self.vec_info(t);
                Raw::I(Inst::FNeg { w, lanes, dst, a })
            }
            "icmp" => {
                let mut pw = self.word();
                if pw == "samesign" {
                    pw = self.word();
                }
                let p = match pw {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => return self.err("icmp pred"),
                };
                let (t, a) = self.tval()?;
                self.expect(b',')?;
                let b = self.val(t)?;
                let (w, lanes) = self.vec_info(t);
                Raw::I(Inst::ICmp { p, w, lanes, dst, a, b })
            }
            "fcmp" => {
                let mut pw = self.word();
                let preds = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"];
                while !preds.contains(&pw) {
                    pw = self.word();
                }
                let p = preds.iter().position(|x| *x == pw).unwrap() as u8;
                let (t, a) = self.tval()?;
                self.expect(b',')?;
                let b = self.val(t)?;
                let (w, lanes) = self.vec_info(t);
                Raw::I(Inst::FCmp { p, w, lanes, dst, a, b })
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
                while !self.is_type_start() {
                    self.word();
                }
                let (ft, a) = self.tval()?;
                if !self.eat_word("to") {
                    return self.err("cast");
                }
                let tt = self.ty()?;
                let k = match opn {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fpext" => Cast::FpExt,
                    "fptrunc" => Cast::FpTrunc,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        let (fw, tw) = (self.types.width(ft), self.types.width(tt));
                        if fw == tw || fw == 0 {
                            Cast::BitCast
                        } else if fw > tw {
                            Cast::Trunc
                        } else {
                            Cast::ZExt
                        }
                    }
                    _ => Cast::BitCast,
                };
                Raw::I(Inst::Cast { k, from: ft, to: tt, dst, a })
            }
            "select" => {
                while !self.is_type_start() {
                    self.word();
                }
                let (ct, c) = self.tval()?;
                self.expect(b',')?;
                let (ty, a) = self.tval()?;
                self.expect(b',')?;
                let (_, b) = self.tval()?;
                let cvec = matches!(self.types.list[ct as usize], Ty::Vec(..));
                Raw::I(Inst::Select { dst, c, a, b, ty, cvec })
            }
            "freeze" => {
                let (_, a) = self.tval()?;
                Raw::I(Inst::Move { dst, a })
            }
            "getelementptr" => {
                while !self.is_type_start() {
                    let w = self.word();
                    if w == "inrange" {
                        self.ws();
                        self.skip_balanced();
                    }
                }
                let mut st = self.ty()?;
                self.expect(b',')?;
                let (pt, base) = self.tval()?;
                if matches!(self.types.list[pt as usize], Ty::Vec(..)) {
                    self.skip_line();
                    return Ok(Some(Raw::I(Inst::Unsupported("vector gep".into()))));
                }
                let mut off = 0i64;
                let mut vars = vec![];
                let mut first = true;
                loop {
                    self.sp();
                    if !(self.s[self.p] == b',') {
                        break;
                    }
                    let save = self.p;
                    self.p += 1;
                    if self.peek() == b'!' {
                        self.p = save;
                        break;
                    }
                    let it = self.ty()?;
                    let iw = self.types.width(it);
                    let iv = self.val(it)?;
                    if first {
                        let sz = self.types.size[st as usize] as i64;
                        match iv {
                            Op::C(c) => off = off.wrapping_add(sx(c, iw).wrapping_mul(sz)),
                            o => vars.push((o, iw, sz)),
                        }
                        first = false;
                    } else {
                        match self.types.list[st as usize].clone() {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                let sz = self.types.size[e as usize] as i64;
                                match iv {
                                    Op::C(c) => off = off.wrapping_add(sx(c, iw).wrapping_mul(sz)),
                                    o => vars.push((o, iw, sz)),
                                }
                                st = e;
                            }
                            Ty::Struct(..) => {
                                let Op::C(c) = iv else { return self.err("gep struct idx") };
                                let (o, nt) = self.types.field_off(st, c);
                                off += o as i64;
                                st = nt;
                            }
                            _ => return self.err("gep into scalar"),
                        }
                    }
                }
                Raw::I(Inst::Gep { dst, base, off, vars: vars.into() })
            }
            "load" => {
                if self.eat_word("atomic") {}
                if self.eat_word("volatile") {}
                let ty = self.ty()?;
                self.expect(b',')?;
                let (_, p) = self.tval()?;
                Raw::I(Inst::Load { dst, p, ty })
            }
            "store" => {
                if self.eat_word("atomic") {}
                if self.eat_word("volatile") {}
                let (ty, v) = self.tval()?;
                self.expect(b',')?;
                let (_, p) = self.tval()?;
                Raw::I(Inst::Store { v, p, ty })
            }
            "alloca" => {
                while !self.is_type_start() {
                    self.word();
                }
                let t = self.ty()?;
                let mut n = Op::C(1);
                self.sp();
                if self.s[self.p] == b',' {
                    let save = self.p;
                    self.p += 1;
                    if self.is_type_start() {
                        let (_, v) = self.tval()?;
                        n = v;
                    } else {
                        self.p = save;
                    }
                }
                Raw::I(Inst::Alloca { dst, size: self.types.size[t as usize], n })
            }
            "fence" => Raw::I(Inst::Nop),
            "atomicrmw" => {
                if self.eat_word("volatile") {}
                let o = self.word();
                let op = match o {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 5,
                    "xor" => 6,
                    "max" => 7,
                    "min" => 8,
                    "umax" => 9,
                    "umin" => 10,
                    _ => 255,
                };
                let (_, p) = self.tval()?;
                self.expect(b',')?;
                let (ty, v) = self.tval()?;
                Raw::I(Inst::AtomicRmw { op, dst, p, v, ty })
            }
            "cmpxchg" => {
                if self.eat_word("weak") {}
                if self.eat_word("volatile") {}
                let (_, p) = self.tval()?;
                self.expect(b',')?;
                let (ty, cmp) = self.tval()?;
                self.expect(b',')?;
                let (_, new) = self.tval()?;
                Raw::I(Inst::CmpXchg { dst, p, cmp, new, ty })
            }
            "extractvalue" => {
                let (_, a) = self.tval()?;
                let mut idx = vec![];
                loop {
                    self.sp();
                    if self.s[self.p] != b',' {
                        break;
                    }
                    let save = self.p;
                    self.p += 1;
                    if self.peek() == b'!' {
                        self.p = save;
                        break;
                    }
                    idx.push(self.word().parse().map_err(|_| "idx".to_string())?);
                }
                Raw::I(Inst::ExtractValue { dst, a, idx: idx.into() })
            }
            "insertvalue" => {
                let (ty, a) = self.tval()?;
                self.expect(b',')?;
                let (_, v) = self.tval()?;
                let mut idx = vec![];
                loop {
                    self.sp();
                    if self.s[self.p] != b',' {
                        break;
                    }
                    let save = self.p;
                    self.p += 1;
                    if self.peek() == b'!' {
                        self.p = save;
                        break;
                    }
                    idx.push(self.word().parse().map_err(|_| "idx".to_string())?);
                }
                Raw::I(Inst::InsertValue { dst, a, v, idx: idx.into(), ty })
            }
            "extractelement" => {
                let (_, a) = self.tval()?;
                self.expect(b',')?;
                let (_, i) = self.tval()?;
                Raw::I(Inst::ExtractElt { dst, a, i })
            }
            "insertelement" => {
                let (ty, a) = self.tval()?;
                self.expect(b',')?;
                let (_, v) = self.tval()?;
                self.expect(b',')?;
                let (_, i) = self.tval()?;
                Raw::I(Inst::InsertElt { dst, a, v, i, ty })
            }
            "shufflevector" => {
                let (ty, a) = self.tval()?;
                self.expect(b',')?;
                let (_, b) = self.tval()?;
                self.expect(b',')?;
                let mt = self.ty()?;
                // mask elements may be poison -> treat as -1
                let n = match self.types.list[ty as usize] {
                    Ty::Vec(n, _) => n,
                    _ => return self.err("shuffle ty"),
                };
                let mn = match self.types.list[mt as usize] {
                    Ty::Vec(n, _) => n,
                    _ => return self.err("shuffle mask"),
                };
                let mask: Vec<i32> = match self.cst(mt)? {
                    Val::A(vs) => vs.iter().map(|v| if let Val::C(c) = v { *c as i32 } else { 0 }).collect(),
                    _ => vec![0; mn as usize],
                };
                Raw::I(Inst::Shuffle { dst, a, b, mask: mask.into(), n, ty })
            }
            "phi" => {
                while !self.is_type_start() {
                    self.word();
                }
                let t = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.expect(b'[')?;
                    let v = self.val(t)?;
                    self.expect(b',')?;
                    self.expect(b'%')?;
                    let n = self.name()?;
                    self.expect(b']')?;
                    inc.push((v, n));
                    self.sp();
                    if self.s[self.p] == b',' {
                        let save = self.p;
                        self.p += 1;
                        if self.peek() == b'[' {
                            continue;
                        }
                        self.p = save;
                    }
                    break;
                }
                Raw::Phi { dst, inc }
            }
            "br" => {
                if self.peek_word() == "label" {
                    Raw::Br(self.label()?)
                } else {
                    let (_, c) = self.tval()?;
                    self.expect(b',')?;
                    let t = self.label()?;
                    self.expect(b',')?;
                    let f = self.label()?;
                    Raw::Cond(c, t, f)
                }
            }
            "switch" => {
                let (t, v) = self.tval()?;
                self.expect(b',')?;
                let d = self.label()?;
                self.expect(b'[')?;
                let mut cs = vec![];
                while !self.eat(b']') {
                    let ct = self.ty()?;
                    let k = match self.cst(ct)? {
                        Val::C(c) => c,
                        _ => {
                            // wide case constants: unsupported unless they fit
                            return self.err("wide switch");
                        }
                    };
                    self.expect(b',')?;
                    cs.push((k, self.label()?));
                }
                Raw::Switch(v, self.types.width(t), d, cs)
            }
            "ret" => {
                if self.eat_word("void") {
                    Raw::I(Inst::Ret(None))
                } else {
                    let (_, v) = self.tval()?;
                    Raw::I(Inst::Ret(Some(v)))
                }
            }
            "unreachable" => Raw::I(Inst::Unreachable),
            "resume" => Raw::I(Inst::Unreachable),
            "landingpad" => {
                self.skip_line();
                loop {
                    self.ws();
                    let w = self.peek_word();
                    if w == "cleanup" || w == "catch" || w == "filter" {
                        self.skip_line();
                    } else {
                        break;
                    }
                }
                return Ok(Some(Raw::I(Inst::Unreachable)));
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if opn != "call" && opn != "invoke" {
                    self.word();
                }
                self.skip_to_ret_ty()?;
                let ty = self.ty()?;
                // explicit function type
                if self.peek() == b'(' {
                    self.skip_balanced();
                }
                let callee = if self.peek() == b'@' {
                    self.p += 1;
                    let n = self.name()?;
                    Callee::Direct(self.global(n))
                } else if self.peek_word() == "asm" {
                    self.word();
                    while self.peek() != b'"' {
                        self.word();
                    }
                    let s = self.string()?;
                    self.expect(b',')?;
                    let c = self.string()?;
                    Callee::Asm(format!("{}|{}", String::from_utf8_lossy(&s), String::from_utf8_lossy(&c)).into())
                } else {
                    let t = self.t_ptr;
                    Callee::Indirect(self.val(t)?)
                };
                self.expect(b'(')?;
                let mut args = vec![];
                let mut argtys = vec![];
                if !self.eat(b')') {
                    loop {
                        let at = self.ty()?;
                        if matches!(self.types.list[at as usize], Ty::Meta) {
                            // metadata argument
                            let mut depth = 0;
                            loop {
                                let c = self.s[self.p];
                                if (c == b',' || c == b')') && depth == 0 {
                                    break;
                                }
                                if c == b'(' {
                                    depth += 1
                                }
                                if c == b')' {
                                    depth -= 1
                                }
                                self.p += 1;
                            }
                            args.push(Op::C(0));
                        } else {
                            self.param_attrs()?;
                            args.push(self.val(at)?);
                        }
                        argtys.push(at);
                        if self.eat(b')') {
                            break;
                        }
                        self.expect(b',')?;
                    }
                }
                let c = Inst::Call { dst, ty, callee, args: args.into(), argtys: argtys.into(), next: None };
                if opn == "invoke" {
                    // attributes then newline "to label"
                    self.skip_line();
                    self.ws();
                    if !self.eat_word("to") {
                        return self.err("invoke");
                    }
                    let t = self.label()?;
                    Raw::Invoke(c, t)
                } else {
                    Raw::I(c)
                }
            }
            _ => {
                let m: Box<str> = format!("instruction {opn}").into();
                Raw::I(Inst::Unsupported(m))
            }
        };
        self.skip_line();
        Ok(Some(r))
    }
}

pub fn sx(c: u64, w: u32) -> i64 {
    if w >= 64 {
        c as i64
    } else {
        ((c << (64 - w)) as i64) >> (64 - w)
    }
}
