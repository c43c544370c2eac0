//! Hash-consed bit-vector expressions with local simplification, evaluation and truth tables.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type Id = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum O {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
    Table,
    // floating point on bit patterns (w of operands is 32 or 64)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FEq,
    FLt,
    FLe,
    FUno,
    FToU, // saturating like Rust `as`; c = operand width
    FToS,
    UToF,
    SToF,
    FCvt,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: O,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub mask: Vec<u128>,
    pub umax: Vec<u128>,
    map: FxMap<Node, Id>,
    cvals: Vec<u128>,
    cmap: FxMap<(u8, u128), Id>,
    pub tables: Vec<Rc<Vec<u64>>>,
    tmap: HashMap<Rc<Vec<u64>>, u32>,
    memo: Vec<(u32, u128)>,
    gen: u32,
    tt: FxMap<Id, [u64; 4]>,
}

pub fn ones(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            mask: vec![],
            umax: vec![],
            map: FxMap::default(),
            cvals: vec![],
            cmap: FxMap::default(),
            tables: vec![],
            tmap: HashMap::new(),
            memo: vec![],
            gen: 0,
            tt: FxMap::default(),
        };
        // id 0 is reserved
        a.push(Node { op: O::Const, w: 1, a: 0, b: 0, c: 0 }, 0, 0);
        a.cvals.push(0);
        a
    }
    fn push(&mut self, n: Node, mask: u128, umax: u128) -> Id {
        let i = self.nodes.len() as u32;
        self.nodes.push(n);
        self.mask.push(mask);
        self.umax.push(umax);
        i
    }
    pub fn w(&self, i: Id) -> u32 {
        self.nodes[i as usize].w as u32
    }
    pub fn cst(&mut self, w: u32, v: u128) -> Id {
        let v = v & ones(w);
        if let Some(&i) = self.cmap.get(&(w as u8, v)) {
            return i;
        }
        let ci = self.cvals.len() as u32;
        self.cvals.push(v);
        let i = self.push(Node { op: O::Const, w: w as u8, a: ci, b: 0, c: 0 }, 0, v);
        self.cmap.insert((w as u8, v), i);
        i
    }
    pub fn as_const(&self, i: Id) -> Option<u128> {
        let n = &self.nodes[i as usize];
        (n.op == O::Const).then(|| self.cvals[n.a as usize])
    }
    pub fn tru(&mut self) -> Id {
        self.cst(1, 1)
    }
    pub fn fls(&mut self) -> Id {
        self.cst(1, 0)
    }
    pub fn var(&mut self, idx: u32, w: u32) -> Id {
        let n = Node { op: O::Var, w: w as u8, a: idx, b: 0, c: 0 };
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let i = self.push(n, 1u128 << idx, ones(w));
        self.map.insert(n, i);
        i
    }
    fn intern(&mut self, n: Node) -> Id {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let w = n.w as u32;
        let full = ones(w);
        let (mask, umax) = match n.op {
            O::Not | O::SExt | O::FToU | O::FToS | O::UToF | O::SToF | O::FCvt => (self.mask[n.a as usize], full),
            O::ZExt => (self.mask[n.a as usize], self.umax[n.a as usize]),
            O::Extract => {
                let lo = n.b;
                let u = self.umax[n.a as usize] >> lo;
                (self.mask[n.a as usize], u.min(full))
            }
            O::Table => {
                let t = &self.tables[n.b as usize];
                (self.mask[n.a as usize], t.iter().copied().max().unwrap_or(0) as u128)
            }
            O::Ite => {
                let m = self.mask[n.a as usize] | self.mask[n.b as usize] | self.mask[n.c as usize];
                (m, self.umax[n.b as usize].max(self.umax[n.c as usize]))
            }
            _ => {
                let m = self.mask[n.a as usize] | self.mask[n.b as usize];
                let (ua, ub) = (self.umax[n.a as usize], self.umax[n.b as usize]);
                let kb = self.as_const(n.b);
                let u = match n.op {
                    O::And => ua.min(ub),
                    O::Or | O::Xor => {
                        let x = ua | ub;
                        if x == 0 {
                            0
                        } else {
                            ones(128 - x.leading_zeros())
                        }
                    }
                    O::Add => ua.checked_add(ub).filter(|s| *s <= full).unwrap_or(full),
                    O::Mul => ua.checked_mul(ub).filter(|s| *s <= full).unwrap_or(full),
                    O::UDiv => match kb {
                        Some(k) if k > 0 => ua / k,
                        _ => full,
                    },
                    O::URem => match kb {
                        Some(k) if k > 0 => ua.min(k - 1),
                        _ => full,
                    },
                    O::Concat => {
                        let wl = self.w(n.b);
                        (ua << wl) | ones(wl)
                    }
                    O::LShr => ua,
                    _ => full,
                };
                (m, u)
            }
        };
        let i = self.push(n, mask, umax);
        self.map.insert(n, i);
        i
    }
    fn n(&self, i: Id) -> Node {
        self.nodes[i as usize]
    }

    pub fn not(&mut self, a: Id) -> Id {
        let w = self.w(a);
        if let Some(k) = self.as_const(a) {
            return self.cst(w, !k);
        }
        let n = self.n(a);
        if n.op == O::Not {
            return n.a;
        }
        if w > 1 {
            let k = self.cst(w, u128::MAX);
            return self.bin(O::Xor, a, k);
        }
        self.intern(Node { op: O::Not, w: w as u8, a, b: 0, c: 0 })
    }
    pub fn and(&mut self, a: Id, b: Id) -> Id {
        self.bin(O::And, a, b)
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        self.bin(O::Or, a, b)
    }

    pub fn cbin(op: O, w: u32, a: u128, b: u128) -> u128 {
        let m = ones(w);
        let r = match op {
            O::And => a & b,
            O::Or => a | b,
            O::Xor => a ^ b,
            O::Add => a.wrapping_add(b),
            O::Sub => a.wrapping_sub(b),
            O::Mul => a.wrapping_mul(b),
            O::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            O::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            O::SDiv => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            O::SRem => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    a
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            O::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            O::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            O::AShr => {
                let s = sext(a, w);
                if b >= w as u128 {
                    (s >> 127) as u128
                } else {
                    (s >> b) as u128
                }
            }
            _ => unreachable!(),
        };
        r & m
    }

    /// If `i` is an Ite whose branches are both constants.
    fn ite_consts(&self, i: Id) -> Option<(Id, u128, u128)> {
        let n = self.n(i);
        if n.op == O::Ite {
            if let (Some(x), Some(y)) = (self.as_const(n.b), self.as_const(n.c)) {
                return Some((n.a, x, y));
            }
        }
        None
    }

    pub fn bin(&mut self, op: O, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{op:?}");
        let commut = matches!(op, O::And | O::Or | O::Xor | O::Add | O::Mul);
        let (mut ka, mut kb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let v = Self::cbin(op, w, x, y);
            return self.cst(w, v);
        }
        if commut && (ka.is_some() || (kb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ka, &mut kb);
        }
        // push into constant ite
        if let Some(k) = kb {
            if let Some((c, x, y)) = self.ite_consts(a) {
                let (p, q) = (Self::cbin(op, w, x, k), Self::cbin(op, w, y, k));
                let (p, q) = (self.cst(w, p), self.cst(w, q));
                return self.ite(c, p, q);
            }
        } else if let Some(k) = ka {
            if let Some((c, x, y)) = self.ite_consts(b) {
                let (p, q) = (Self::cbin(op, w, k, x), Self::cbin(op, w, k, y));
                let (p, q) = (self.cst(w, p), self.cst(w, q));
                return self.ite(c, p, q);
            }
        }
        let na = self.n(a);
        let nb = self.n(b);
        let full = ones(w);
        match op {
            O::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == full {
                        return a;
                    }
                    match na.op {
                        O::ZExt => {
                            let wi = self.w(na.a);
                            let kk = self.cst(wi, k);
                            let r = self.bin(O::And, na.a, kk);
                            return self.zext(r, w);
                        }
                        O::Concat => {
                            let wl = self.w(na.b);
                            let wh = self.w(na.a);
                            let kl = self.cst(wl, k);
                            let kh = self.cst(wh, k >> wl);
                            let l = self.bin(O::And, na.b, kl);
                            let h = self.bin(O::And, na.a, kh);
                            return self.concat(h, l);
                        }
                        O::And => {
                            if let Some(k2) = self.as_const(na.b) {
                                let kk = self.cst(w, k & k2);
                                return self.bin(O::And, na.a, kk);
                            }
                        }
                        _ => {}
                    }
                    // contiguous low mask -> zext(extract)
                    if k & (k + 1) == 0 && self.umax[a as usize] <= k {
                        return a;
                    }
                    if w > 1 && k & k.wrapping_add(1) == 0 {
                        let nbits = 128 - k.leading_zeros();
                        let e = self.extract(a, 0, nbits);
                        return self.zext(e, w);
                    }
                } else if w == 1 && (na.op == O::Not && na.a == b || nb.op == O::Not && nb.a == a) {
                    return self.fls();
                }
                if w == 1 {
                    // absorption with existing conjunct
                    if nb.op == O::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == O::And && (na.a == b || na.b == b) {
                        return a;
                    }
                }
            }
            O::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == full {
                        return b;
                    }
                }
                if w == 1 {
                    if na.op == O::Not && na.a == b || nb.op == O::Not && nb.a == a {
                        return self.tru();
                    }
                } else {
                    // disjoint combination
                    for (x, y) in [(a, b), (b, a)] {
                        let nx = self.n(x);
                        if nx.op == O::Concat && self.as_const(nx.b) == Some(0) {
                            let wl = self.w(nx.b);
                            if self.umax[y as usize] <= ones(wl) {
                                let l = self.extract(y, 0, wl);
                                return self.concat(nx.a, l);
                            }
                        }
                        if nx.op == O::ZExt {
                            let ni = self.n(nx.a);
                            if ni.op == O::Concat && self.as_const(ni.b) == Some(0) {
                                let wl = self.w(ni.b);
                                if self.umax[y as usize] <= ones(wl) {
                                    let l = self.extract(y, 0, wl);
                                    let r = self.concat(ni.a, l);
                                    return self.zext(r, w);
                                }
                            }
                        }
                    }
                    if na.op == O::Concat && nb.op == O::Concat && self.w(na.b) == self.w(nb.b) {
                        let h = self.bin(O::Or, na.a, nb.a);
                        let l = self.bin(O::Or, na.b, nb.b);
                        return self.concat(h, l);
                    }
                    if let Some(k) = kb {
                        if na.op == O::Concat {
                            let wl = self.w(na.b);
                            let wh = self.w(na.a);
                            let kl = self.cst(wl, k);
                            let kh = self.cst(wh, k >> wl);
                            let l = self.bin(O::Or, na.b, kl);
                            let h = self.bin(O::Or, na.a, kh);
                            return self.concat(h, l);
                        }
                        if na.op == O::ZExt {
                            let wi = self.w(na.a);
                            let kl = self.cst(wi, k);
                            let kh = self.cst(w - wi, k >> wi);
                            let l = self.bin(O::Or, na.a, kl);
                            return self.concat(kh, l);
                        }
                    }
                }
            }
            O::Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                    if na.op == O::Xor {
                        if let Some(k2) = self.as_const(na.b) {
                            let kk = self.cst(w, k ^ k2);
                            return self.bin(O::Xor, na.a, kk);
                        }
                    }
                    if na.op == O::Concat {
                        let wl = self.w(na.b);
                        let wh = self.w(na.a);
                        let kl = self.cst(wl, k);
                        let kh = self.cst(wh, k >> wl);
                        let l = self.bin(O::Xor, na.b, kl);
                        let h = self.bin(O::Xor, na.a, kh);
                        return self.concat(h, l);
                    }
                    if na.op == O::ZExt {
                        let wi = self.w(na.a);
                        let kl = self.cst(wi, k);
                        let kh = self.cst(w - wi, k >> wi);
                        let l = self.bin(O::Xor, na.a, kl);
                        return self.concat(kh, l);
                    }
                } else if na.op == O::Concat && nb.op == O::Concat && self.w(na.b) == self.w(nb.b) {
                    let h = self.bin(O::Xor, na.a, nb.a);
                    let l = self.bin(O::Xor, na.b, nb.b);
                    return self.concat(h, l);
                } else if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) {
                    let r = self.bin(O::Xor, na.a, nb.a);
                    return self.zext(r, w);
                }
            }
            O::Add => {
                if w == 1 {
                    return self.bin(O::Xor, a, b);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if na.op == O::Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let kk = self.cst(w, k.wrapping_add(k2));
                            return self.bin(O::Add, na.a, kk);
                        }
                    }
                } else {
                    // (x + k) + y -> (x + y) + k
                    if na.op == O::Add {
                        if self.as_const(na.b).is_some() {
                            let s = self.bin(O::Add, na.a, b);
                            return self.bin(O::Add, s, na.b);
                        }
                    }
                    if nb.op == O::Add {
                        if self.as_const(nb.b).is_some() {
                            let s = self.bin(O::Add, nb.a, a);
                            return self.bin(O::Add, s, nb.b);
                        }
                    }
                }
            }
            O::Sub => {
                if a == b {
                    return self.cst(w, 0);
                }
                if w == 1 {
                    return self.bin(O::Xor, a, b);
                }
                if let Some(k) = kb {
                    let kk = self.cst(w, k.wrapping_neg());
                    return self.bin(O::Add, a, kk);
                }
                // (x + k) - x
                if na.op == O::Add && na.a == b {
                    return na.b;
                }
                if na.op == O::Add && na.b == b {
                    return na.a;
                }
                if na.op == O::Add && nb.op == O::Add && na.a == nb.a {
                    return self.bin(O::Sub, na.b, nb.b);
                }
                if nb.op == O::Add {
                    if let Some(k) = self.as_const(nb.b) {
                        let kk = self.cst(w, k.wrapping_neg());
                        let s = self.bin(O::Sub, a, nb.a);
                        return self.bin(O::Add, s, kk);
                    }
                }
                if na.op == O::Add {
                    if self.as_const(na.b).is_some() {
                        let s = self.bin(O::Sub, na.a, b);
                        return self.bin(O::Add, s, na.b);
                    }
                }
            }
            O::Mul => {
                if w == 1 {
                    return self.bin(O::And, a, b);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.cst(w, k.trailing_zeros() as u128);
                        return self.bin(O::Shl, a, s);
                    }
                }
            }
            O::UDiv => {
                if let Some(k) = kb {
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.cst(w, k.trailing_zeros() as u128);
                        return self.bin(O::LShr, a, s);
                    }
                    if k > 0 && self.umax[a as usize] < k {
                        return self.cst(w, 0);
                    }
                    // narrow
                    if k > 0 && na.op == O::ZExt && k <= ones(self.w(na.a)) {
                        let kk = self.cst(self.w(na.a), k);
                        let r = self.bin(O::UDiv, na.a, kk);
                        return self.zext(r, w);
                    }
                }
            }
            O::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let m = self.cst(w, k - 1);
                        return self.bin(O::And, a, m);
                    }
                    if k > 0 && self.umax[a as usize] < k {
                        return a;
                    }
                    if k > 0 && na.op == O::ZExt && k <= ones(self.w(na.a)) {
                        let kk = self.cst(self.w(na.a), k);
                        let r = self.bin(O::URem, na.a, kk);
                        return self.zext(r, w);
                    }
                }
            }
            O::Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let k = k as u32;
                    let h = self.extract(a, 0, w - k);
                    let z = self.cst(k, 0);
                    return self.concat(h, z);
                }
            }
            O::LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let k = k as u32;
                    let e = self.extract(a, k, w - k);
                    return self.zext(e, w);
                }
            }
            O::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if self.umax[a as usize] <= full >> 1 {
                        return self.bin(O::LShr, a, b);
                    }
                    if k < w as u128 {
                        let k = k as u32;
                        let e = self.extract(a, k, w - k);
                        return self.sext(e, w);
                    }
                }
            }
            O::SDiv | O::SRem => {
                if self.umax[a as usize] <= full >> 1 && self.umax[b as usize] <= full >> 1 {
                    return self.bin(if op == O::SDiv { O::UDiv } else { O::URem }, a, b);
                }
            }
            _ => {}
        }
        self.intern(Node { op, w: w as u8, a, b, c: 0 })
    }

    pub fn eq(&mut self, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.tru();
        }
        if self.as_const(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(k) = self.as_const(b) {
            if self.as_const(a).is_some() {
                return self.fls(); // distinct ids of same width
            }
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            if k > self.umax[a as usize] {
                return self.fls();
            }
            let na = self.n(a);
            match na.op {
                O::ZExt => {
                    let wi = self.w(na.a);
                    let kk = self.cst(wi, k);
                    return self.eq(na.a, kk);
                }
                O::SExt => {
                    let wi = self.w(na.a);
                    let t = k & ones(wi);
                    if (sext(t, wi) as u128) & ones(w) != k {
                        return self.fls();
                    }
                    let kk = self.cst(wi, t);
                    return self.eq(na.a, kk);
                }
                O::Concat => {
                    let wl = self.w(na.b);
                    let wh = self.w(na.a);
                    let kl = self.cst(wl, k);
                    let kh = self.cst(wh, k >> wl);
                    let l = self.eq(na.b, kl);
                    let h = self.eq(na.a, kh);
                    return self.and(h, l);
                }
                O::Add => {
                    if let Some(k2) = self.as_const(na.b) {
                        let kk = self.cst(w, k.wrapping_sub(k2));
                        return self.eq(na.a, kk);
                    }
                }
                O::Sub => {
                    if let Some(k2) = self.as_const(na.a) {
                        let kk = self.cst(w, k2.wrapping_sub(k));
                        return self.eq(na.b, kk);
                    }
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                O::Xor => {
                    if let Some(k2) = self.as_const(na.b) {
                        let kk = self.cst(w, k ^ k2);
                        return self.eq(na.a, kk);
                    }
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                O::Or => {
                    if k == 0 {
                        let z = b;
                        let x = self.eq(na.a, z);
                        let y = self.eq(na.b, z);
                        return self.and(x, y);
                    }
                }
                O::Ite => {
                    let (kx, ky) = (self.as_const(na.b), self.as_const(na.c));
                    match (kx, ky) {
                        (Some(x), Some(y)) => {
                            return match (x == k, y == k) {
                                (true, true) => self.tru(),
                                (false, false) => self.fls(),
                                (true, false) => na.a,
                                (false, true) => self.not(na.a),
                            };
                        }
                        (Some(x), None) => {
                            let r = self.eq(na.c, b);
                            return if x == k { self.or(na.a, r) } else { let nc = self.not(na.a); self.and(nc, r) };
                        }
                        (None, Some(y)) => {
                            let r = self.eq(na.b, b);
                            return if y == k { let nc = self.not(na.a); self.or(nc, r) } else { self.and(na.a, r) };
                        }
                        _ => {}
                    }
                }
                _ => {}
            }
        } else {
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == O::ZExt && nb.op == O::ZExt {
                let (wa, wb) = (self.w(na.a), self.w(nb.a));
                if wa == wb {
                    return self.eq(na.a, nb.a);
                }
                if wa < wb {
                    let x = self.zext(na.a, wb);
                    return self.eq(x, nb.a);
                }
                let y = self.zext(nb.a, wa);
                return self.eq(na.a, y);
            }
            if na.op == O::Concat && nb.op == O::Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.eq(na.a, nb.a);
                let l = self.eq(na.b, nb.b);
                return self.and(h, l);
            }
            for (x, y) in [(na, b), (nb, a)] {
                if x.op == O::Concat && w > 1 {
                    let wl = self.w(x.b);
                    let ny = self.n(y);
                    if matches!(ny.op, O::ZExt | O::Concat) {
                        let yl = self.extract(y, 0, wl);
                        let yh = self.extract(y, wl, w - wl);
                        let l = self.eq(x.b, yl);
                        let h = self.eq(x.a, yh);
                        return self.and(h, l);
                    }
                }
                if x.op == O::Add && x.a == y {
                    let z = self.cst(w, 0);
                    return self.eq(x.b, z);
                }
            }
            if na.op == O::Add && nb.op == O::Add && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
            if w == 1 {
                let x = self.bin(O::Xor, a, b);
                return self.not(x);
            }
        }
        if self.as_const(b).is_none() && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.intern(Node { op: O::Eq, w: 1, a, b, c: 0 })
    }

    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.fls();
        }
        let (ka, kb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.cst(1, (x < y) as u128);
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        if let Some(k) = kb {
            if k == 0 {
                return self.fls();
            }
            if self.umax[a as usize] < k {
                return self.tru();
            }
            if k == 1 {
                let z = self.cst(w, 0);
                return self.eq(a, z);
            }
            let na = self.n(a);
            if na.op == O::ZExt {
                let wi = self.w(na.a);
                if k > ones(wi) {
                    return self.tru();
                }
                let kk = self.cst(wi, k);
                return self.ult(na.a, kk);
            }
            if let Some((c, x, y)) = self.ite_consts(a) {
                let (p, q) = (self.cst(1, (x < k) as u128), self.cst(1, (y < k) as u128));
                return self.ite(c, p, q);
            }
            if na.op == O::Concat && k.is_power_of_two() {
                let wl = self.w(na.b);
                let tz = k.trailing_zeros();
                if tz >= wl {
                    let wh = self.w(na.a);
                    let kk = self.cst(wh, k >> wl);
                    return self.ult(na.a, kk);
                }
            }
        }
        if let Some(k) = ka {
            if k >= self.umax[b as usize] {
                return self.fls();
            }
            if k == 0 {
                let z = self.cst(w, 0);
                let e = self.eq(b, z);
                return self.not(e);
            }
            let nb = self.n(b);
            if nb.op == O::ZExt {
                let wi = self.w(nb.a);
                let kk = self.cst(wi, k);
                return self.ult(kk, nb.a);
            }
            if let Some((c, x, y)) = self.ite_consts(b) {
                let (p, q) = (self.cst(1, (k < x) as u128), self.cst(1, (k < y) as u128));
                return self.ite(c, p, q);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        self.intern(Node { op: O::Ult, w: 1, a, b, c: 0 })
    }
    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.fls();
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cst(1, (sext(x, w) < sext(y, w)) as u128);
        }
        let half = ones(w) >> 1;
        let pa = self.umax[a as usize] <= half;
        let pb = self.umax[b as usize] <= half;
        if pa && pb {
            return self.ult(a, b);
        }
        if pa {
            if let Some(k) = self.as_const(b) {
                if k > half {
                    return self.fls();
                }
            }
        }
        if pb {
            if let Some(k) = self.as_const(a) {
                if k > half {
                    return self.tru();
                }
            }
        }
        if let (Some((c, x, y)), Some(k)) = (self.ite_consts(a), self.as_const(b)) {
            let (p, q) = (self.cst(1, (sext(x, w) < sext(k, w)) as u128), self.cst(1, (sext(y, w) < sext(k, w)) as u128));
            return self.ite(c, p, q);
        }
        if let (Some(k), Some((c, x, y))) = (self.as_const(a), self.ite_consts(b)) {
            let (p, q) = (self.cst(1, (sext(k, w) < sext(x, w)) as u128), self.cst(1, (sext(k, w) < sext(y, w)) as u128));
            return self.ite(c, p, q);
        }
        self.intern(Node { op: O::Slt, w: 1, a, b, c: 0 })
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.n(c);
        if nc.op == O::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(_)) => return c,
                (Some(_), Some(_)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(_), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                (None, Some(_)) => return self.and(c, a),
                _ => {}
            }
        }
        let na = self.n(a);
        if na.op == O::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == O::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) {
            let r = self.ite(c, na.a, nb.a);
            return self.zext(r, w);
        }
        self.intern(Node { op: O::Ite, w: w as u8, a: c, b: a, c: b })
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(wa < w);
        if let Some(k) = self.as_const(a) {
            return self.cst(w, k);
        }
        let na = self.n(a);
        if na.op == O::ZExt {
            return self.zext(na.a, w);
        }
        if let Some((c, x, y)) = self.ite_consts(a) {
            let (x, y) = (self.cst(w, x), self.cst(w, y));
            return self.ite(c, x, y);
        }
        if na.op == O::Concat {
            // keep canonical form: zext(concat(0, x)) does not occur (concat(0,x) is zext)
        }
        self.intern(Node { op: O::ZExt, w: w as u8, a, b: 0, c: 0 })
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(k) = self.as_const(a) {
            return self.cst(w, sext(k, wa) as u128);
        }
        if self.umax[a as usize] <= ones(wa) >> 1 {
            return self.zext(a, w);
        }
        if let Some((c, x, y)) = self.ite_consts(a) {
            let (x, y) = (self.cst(w, sext(x, wa) as u128), self.cst(w, sext(y, wa) as u128));
            return self.ite(c, x, y);
        }
        if wa == 1 {
            let (x, y) = (self.cst(w, u128::MAX), self.cst(w, 0));
            return self.ite(a, x, y);
        }
        self.intern(Node { op: O::SExt, w: w as u8, a, b: 0, c: 0 })
    }
    pub fn extract(&mut self, a: Id, lo: u32, w: u32) -> Id {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        debug_assert!(lo + w <= wa);
        if let Some(k) = self.as_const(a) {
            return self.cst(w, k >> lo);
        }
        if lo < 128 && self.umax[a as usize] >> lo == 0 {
            return self.cst(w, 0);
        }
        let n = self.n(a);
        match n.op {
            O::Extract => return self.extract(n.a, n.b + lo, w),
            O::ZExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo >= wi {
                    return self.cst(w, 0);
                }
                let e = self.extract(n.a, lo, wi - lo);
                return self.zext(e, w);
            }
            O::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            O::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            O::Ite => {
                // push into branches if either is cheap
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() || w <= 8 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            O::And | O::Or | O::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            O::Add | O::Sub | O::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            O::Table if lo == 0 => {
                // retable
                let t = self.tables[n.b as usize].clone();
                let v: Vec<u64> = t.iter().map(|x| x & ones(w) as u64).collect();
                return self.table(n.a, v, w);
            }
            O::Table => {
                let t = self.tables[n.b as usize].clone();
                let v: Vec<u64> = t.iter().map(|x| (x >> lo) & ones(w) as u64).collect();
                return self.table(n.a, v, w);
            }
            _ => {}
        }
        self.intern(Node { op: O::Extract, w: w as u8, a, b: lo, c: 0 })
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if w > 128 {
            panic!("concat too wide");
        }
        if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) {
            return self.cst(w, (x << wl) | y);
        }
        if self.as_const(h) == Some(0) {
            return self.zext(l, w);
        }
        let (nh, nl) = (self.n(h), self.n(l));
        if nh.op == O::ZExt {
            // concat(zext(x), l) = zext(concat(x, l))
            let c = self.concat(nh.a, l);
            return self.zext(c, w);
        }
        // merge adjacent extracts; y adjacent below x
        if nl.op == O::Extract {
            if nh.op == O::Extract && nh.a == nl.a && nh.b == nl.b + wl {
                return self.extract(nh.a, nl.b, w);
            }
            // l = extract(h-source) where h is whole? e.g. h = x high part
        }
        // h = extract(x, wl..) and l == trunc covered elsewhere
        if nh.op == O::Extract && nl.op != O::Extract {
            // l could be the simplified low part: check extract(x, lo-wl, wl) == l
            if nh.b >= wl {
                let probe = self.extract(nh.a, nh.b - wl, wl);
                if probe == l {
                    return self.extract(nh.a, nh.b - wl, w);
                }
            }
        }
        if nh.op == O::Concat {
            // (p ++ q) ++ l : try to merge q ++ l
            let q = nh.b;
            let nq = self.n(q);
            if nq.op == O::Extract && nl.op == O::Extract && nq.a == nl.a && nq.b == nl.b + wl {
                let m = self.extract(nq.a, nl.b, self.w(q) + wl);
                return self.concat(nh.a, m);
            }
            if let (Some(x), Some(y)) = (self.as_const(q), self.as_const(l)) {
                let m = self.cst(self.w(q) + wl, (x << wl) | y);
                return self.concat(nh.a, m);
            }
        }
        // ite merging on the same condition with constants
        if nh.op == O::Ite && nl.op == O::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b);
            let y = self.concat(nh.c, nl.c);
            return self.ite(nh.a, x, y);
        }
        if nh.op == O::Ite && self.as_const(l).is_some() && self.ite_consts(h).is_some() {
            let x = self.concat(nh.b, l);
            let y = self.concat(nh.c, l);
            return self.ite(nh.a, x, y);
        }
        // tables on the same index
        if nh.op == O::Table && nl.op == O::Table && nh.a == nl.a && w <= 64 {
            let (t1, t2) = (self.tables[nh.b as usize].clone(), self.tables[nl.b as usize].clone());
            if t1.len() == t2.len() {
                let v: Vec<u64> = t1.iter().zip(t2.iter()).map(|(x, y)| (x << wl) | y).collect();
                return self.table(nh.a, v, w);
            }
        }
        self.intern(Node { op: O::Concat, w: w as u8, a: h, b: l, c: 0 })
    }
    pub fn table(&mut self, idx: Id, v: Vec<u64>, w: u32) -> Id {
        if let Some(k) = self.as_const(idx) {
            let x = v.get(k as usize).copied().unwrap_or(0);
            return self.cst(w, x as u128);
        }
        if v.iter().all(|x| *x == v[0]) {
            return self.cst(w, v[0] as u128);
        }
        if let Some((c, x, y)) = self.ite_consts(idx) {
            let a = self.cst(w, v.get(x as usize).copied().unwrap_or(0) as u128);
            let b = self.cst(w, v.get(y as usize).copied().unwrap_or(0) as u128);
            return self.ite(c, a, b);
        }
        let rc = Rc::new(v);
        let t = match self.tmap.get(&rc) {
            Some(&t) => t,
            None => {
                let t = self.tables.len() as u32;
                self.tables.push(rc.clone());
                self.tmap.insert(rc, t);
                t
            }
        };
        self.intern(Node { op: O::Table, w: w as u8, a: idx, b: t, c: 0 })
    }
    pub fn fp(&mut self, op: O, a: Id, b: Id) -> Id {
        let w = match op {
            O::FEq | O::FLt | O::FLe | O::FUno => 1,
            _ => self.w(a),
        };
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let v = fpbin(op, self.w(a), x, y);
            return self.cst(w, v);
        }
        self.intern(Node { op, w: w as u8, a, b, c: 0 })
    }
    pub fn fcvt(&mut self, op: O, a: Id, w: u32) -> Id {
        let wa = self.w(a);
        if let Some(x) = self.as_const(a) {
            let v = fpun(op, wa, w, x);
            return self.cst(w, v);
        }
        self.intern(Node { op, w: w as u8, a, b: 0, c: 0 })
    }
    pub fn has_fp(&self, id: Id, seen: &mut FxMap<Id, ()>) -> bool {
        if seen.contains_key(&id) {
            return false;
        }
        seen.insert(id, ());
        let n = self.n(id);
        if n.op as u8 >= O::FAdd as u8 {
            return true;
        }
        self.children(id).into_iter().flatten().any(|c| self.has_fp(c, seen))
    }
    pub fn children(&self, id: Id) -> [Option<Id>; 3] {
        let n = self.n(id);
        match n.op {
            O::Const | O::Var => [None; 3],
            O::Not | O::Extract | O::ZExt | O::SExt | O::Table | O::FToU | O::FToS | O::UToF | O::SToF | O::FCvt => [Some(n.a), None, None],
            O::Ite => [Some(n.a), Some(n.b), Some(n.c)],
            _ => [Some(n.a), Some(n.b), None],
        }
    }

    /// The node with other children.
    pub fn rebuild(&mut self, id: Id, k: [Option<Id>; 3]) -> Id {
        let n = self.n(id);
        let x = k[0].unwrap_or(0);
        let y = k[1].unwrap_or(0);
        match n.op {
            O::Const | O::Var => id,
            O::Not => self.not(x),
            O::And | O::Or | O::Xor | O::Add | O::Sub | O::Mul | O::UDiv | O::SDiv | O::URem | O::SRem | O::Shl | O::LShr | O::AShr => self.bin(n.op, x, y),
            O::Eq => self.eq(x, y),
            O::Ult => self.ult(x, y),
            O::Slt => self.slt(x, y),
            O::Ite => self.ite(x, y, k[2].unwrap()),
            O::Concat => self.concat(x, y),
            O::Extract => self.extract(x, n.b, n.w as u32),
            O::ZExt => self.zext(x, n.w as u32),
            O::SExt => self.sext(x, n.w as u32),
            O::Table | O::FAdd | O::FSub | O::FMul | O::FDiv | O::FEq | O::FLt | O::FLe | O::FUno | O::FToU | O::FToS | O::UToF | O::SToF | O::FCvt => id,
        }
    }

    pub fn new_eval(&mut self) {
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 {
            self.memo.clear();
            self.gen = 1;
        }
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, (0, 0));
        }
    }
    /// Evaluate under an assignment indexed by variable.
    pub fn eval(&mut self, id: Id, env: &[u64]) -> u128 {
        self.new_eval();
        self.ev(id, env)
    }
    pub fn ev(&mut self, id: Id, env: &[u64]) -> u128 {
        let n = self.nodes[id as usize];
        match n.op {
            O::Const => return self.cvals[n.a as usize],
            O::Var => return env.get(n.a as usize).copied().unwrap_or(0) as u128 & ones(n.w as u32),
            _ => {}
        }
        let m = self.memo[id as usize];
        if m.0 == self.gen {
            return m.1;
        }
        let w = n.w as u32;
        let r = match n.op {
            O::Not => !self.ev(n.a, env) & ones(w),
            O::And if w == 1 => {
                if self.ev(n.a, env) == 0 {
                    0
                } else {
                    self.ev(n.b, env)
                }
            }
            O::Or if w == 1 => {
                if self.ev(n.a, env) != 0 {
                    1
                } else {
                    self.ev(n.b, env)
                }
            }
            O::And | O::Or | O::Xor | O::Add | O::Sub | O::Mul | O::UDiv | O::SDiv | O::URem | O::SRem | O::Shl | O::LShr | O::AShr => {
                let (x, y) = (self.ev(n.a, env), self.ev(n.b, env));
                Self::cbin(n.op, w, x, y)
            }
            O::Eq => (self.ev(n.a, env) == self.ev(n.b, env)) as u128,
            O::Ult => (self.ev(n.a, env) < self.ev(n.b, env)) as u128,
            O::Slt => {
                let wa = self.w(n.a);
                (sext(self.ev(n.a, env), wa) < sext(self.ev(n.b, env), wa)) as u128
            }
            O::Ite => {
                if self.ev(n.a, env) != 0 {
                    self.ev(n.b, env)
                } else {
                    self.ev(n.c, env)
                }
            }
            O::Concat => {
                let wl = self.w(n.b);
                (self.ev(n.a, env) << wl) | self.ev(n.b, env)
            }
            O::Extract => (self.ev(n.a, env) >> n.b) & ones(w),
            O::ZExt => self.ev(n.a, env),
            O::SExt => {
                let wa = self.w(n.a);
                sext(self.ev(n.a, env), wa) as u128 & ones(w)
            }
            O::Table => {
                let i = self.ev(n.a, env);
                self.tables[n.b as usize].get(i as usize).copied().unwrap_or(0) as u128
            }
            O::FAdd | O::FSub | O::FMul | O::FDiv | O::FEq | O::FLt | O::FLe | O::FUno => {
                let wa = self.w(n.a);
                let (x, y) = (self.ev(n.a, env), self.ev(n.b, env));
                fpbin(n.op, wa, x, y)
            }
            O::FToU | O::FToS | O::UToF | O::SToF | O::FCvt => {
                let wa = self.w(n.a);
                let x = self.ev(n.a, env);
                fpun(n.op, wa, w, x)
            }
            O::Const | O::Var => unreachable!(),
        };
        self.memo[id as usize] = (self.gen, r);
        r
    }
    /// Truth table of a one-variable (≤ 8 bit) boolean expression.
    pub fn truth(&mut self, id: Id, var: u32, vw: u32) -> [u64; 4] {
        if let Some(t) = self.tt.get(&id) {
            return *t;
        }
        let mut env = vec![0u64; var as usize + 1];
        let mut t = [0u64; 4];
        for v in 0..(1u32 << vw) {
            env[var as usize] = v as u64;
            if self.eval(id, &env) != 0 {
                t[(v >> 6) as usize] |= 1 << (v & 63);
            }
        }
        self.tt.insert(id, t);
        t
    }
    pub fn show(&self, id: Id, depth: u32) -> String {
        let n = self.n(id);
        match n.op {
            O::Const => format!("{:#x}", self.cvals[n.a as usize]),
            O::Var => format!("v{}", n.a),
            _ if depth == 0 => "…".into(),
            _ => {
                let ch: Vec<String> = self.children(id).into_iter().flatten().map(|c| self.show(c, depth - 1)).collect();
                let x = if n.op == O::Extract { format!("@{}", n.b) } else { String::new() };
                format!("({:?}{}:{} {})", n.op, x, n.w, ch.join(" "))
            }
        }
    }
}

pub fn fpbin(op: O, w: u32, a: u128, b: u128) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        return match op {
            O::FAdd => (x + y).to_bits() as u128,
            O::FSub => (x - y).to_bits() as u128,
            O::FMul => (x * y).to_bits() as u128,
            O::FDiv => (x / y).to_bits() as u128,
            O::FEq => (x == y) as u128,
            O::FLt => (x < y) as u128,
            O::FLe => (x <= y) as u128,
            O::FUno => (x.is_nan() || y.is_nan()) as u128,
            _ => unreachable!(),
        };
    }
    let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
    match op {
        O::FAdd => (x + y).to_bits() as u128,
        O::FSub => (x - y).to_bits() as u128,
        O::FMul => (x * y).to_bits() as u128,
        O::FDiv => (x / y).to_bits() as u128,
        O::FEq => (x == y) as u128,
        O::FLt => (x < y) as u128,
        O::FLe => (x <= y) as u128,
        O::FUno => (x.is_nan() || y.is_nan()) as u128,
        _ => unreachable!(),
    }
}
pub fn fpun(op: O, wa: u32, w: u32, a: u128) -> u128 {
    let m = ones(w);
    match op {
        O::UToF => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        O::SToF => {
            let s = sext(a, wa);
            if w == 32 {
                (s as f32).to_bits() as u128
            } else {
                (s as f64).to_bits() as u128
            }
        }
        O::FCvt => {
            if wa == 32 && w == 64 {
                (f32::from_bits(a as u32) as f64).to_bits() as u128
            } else if wa == 64 && w == 32 {
                (f64::from_bits(a as u64) as f32).to_bits() as u128
            } else {
                a
            }
        }
        O::FToU => {
            let f = if wa == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) };
            let v = f as u128;
            v.min(m)
        }
        O::FToS => {
            let f = if wa == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) };
            let v = f as i128;
            let max = (m >> 1) as i128;
            (v.clamp(-max - 1, max)) as u128 & m
        }
        _ => unreachable!(),
    }
}

impl Arena {
    /// Unsigned interval of an expression given intervals of the variables.
    pub fn range(&self, id: Id, dom: &dyn Fn(u32, u32) -> (u128, u128), memo: &mut FxMap<Id, (u128, u128)>) -> (u128, u128) {
        if let Some(r) = memo.get(&id) {
            return *r;
        }
        let n = self.nodes[id as usize];
        let w = n.w as u32;
        let full = (0u128, ones(w));
        if w > 64 {
            return match self.as_const(id) {
                Some(k) => (k, k),
                None => full,
            };
        }
        let lim = 1u128 << w;
        let r = match n.op {
            O::Const => {
                let k = self.as_const(id).unwrap_or(0);
                (k, k)
            }
            O::Var => dom(n.a, w),
            O::ZExt => self.range(n.a, dom, memo),
            O::SExt => {
                let a = self.range(n.a, dom, memo);
                if a.1 >> (self.w(n.a) - 1) == 0 {
                    a
                } else {
                    full
                }
            }
            O::Concat => {
                let wl = self.w(n.b);
                let (h, l) = (self.range(n.a, dom, memo), self.range(n.b, dom, memo));
                (h.0 << wl | l.0, h.1 << wl | l.1)
            }
            O::Extract => {
                let a = self.range(n.a, dom, memo);
                let (x, y) = (a.0 >> n.b, a.1 >> n.b);
                if y < lim {
                    (x, y)
                } else {
                    full
                }
            }
            O::Add => {
                let (a, b) = (self.range(n.a, dom, memo), self.range(n.b, dom, memo));
                let (x, y) = (a.0 + b.0, a.1 + b.1);
                if y < lim {
                    (x, y)
                } else if x >= lim && y < 2 * lim {
                    (x - lim, y - lim)
                } else {
                    full
                }
            }
            O::Sub => {
                let (a, b) = (self.range(n.a, dom, memo), self.range(n.b, dom, memo));
                if a.0 >= b.1 {
                    (a.0 - b.1, a.1 - b.0)
                } else {
                    full
                }
            }
            O::Mul => {
                let (a, b) = (self.range(n.a, dom, memo), self.range(n.b, dom, memo));
                match a.1.checked_mul(b.1) {
                    Some(y) if y < lim => (a.0 * b.0, y),
                    _ => full,
                }
            }
            O::UDiv => {
                let (a, b) = (self.range(n.a, dom, memo), self.range(n.b, dom, memo));
                if b.0 > 0 {
                    (a.0 / b.1, a.1 / b.0)
                } else {
                    full
                }
            }
            O::URem => {
                let (a, b) = (self.range(n.a, dom, memo), self.range(n.b, dom, memo));
                if b.0 > 0 {
                    if a.1 < b.0 {
                        a
                    } else {
                        (0, b.1 - 1)
                    }
                } else {
                    full
                }
            }
            O::And => {
                let (a, b) = (self.range(n.a, dom, memo), self.range(n.b, dom, memo));
                if w == 1 {
                    (a.0 & b.0, a.1 & b.1)
                } else {
                    (0, a.1.min(b.1))
                }
            }
            O::Or => {
                let (a, b) = (self.range(n.a, dom, memo), self.range(n.b, dom, memo));
                let bits = 128 - (a.1 | b.1).leading_zeros();
                (a.0.max(b.0), ones(bits.max(1)))
            }
            O::Xor => {
                let (a, b) = (self.range(n.a, dom, memo), self.range(n.b, dom, memo));
                let bits = 128 - (a.1 | b.1).leading_zeros();
                (0, ones(bits.max(1)))
            }
            O::Not if w == 1 => {
                let a = self.range(n.a, dom, memo);
                (1 - a.1, 1 - a.0)
            }
            O::LShr => {
                let a = self.range(n.a, dom, memo);
                match self.as_const(n.b) {
                    Some(k) if k < w as u128 => (a.0 >> k, a.1 >> k),
                    _ => (0, a.1),
                }
            }
            O::Shl => {
                let a = self.range(n.a, dom, memo);
                match self.as_const(n.b) {
                    Some(k) if k < w as u128 && (a.1 << k) < lim => (a.0 << k, a.1 << k),
                    _ => full,
                }
            }
            O::Ite => {
                let c = self.range(n.a, dom, memo);
                if c.0 == 1 {
                    self.range(n.b, dom, memo)
                } else if c.1 == 0 {
                    self.range(n.c, dom, memo)
                } else {
                    let (a, b) = (self.range(n.b, dom, memo), self.range(n.c, dom, memo));
                    (a.0.min(b.0), a.1.max(b.1))
                }
            }
            O::Eq => {
                let (a, b) = (self.range(n.a, dom, memo), self.range(n.b, dom, memo));
                if a.1 < b.0 || b.1 < a.0 {
                    (0, 0)
                } else if a.0 == a.1 && a == b {
                    (1, 1)
                } else {
                    (0, 1)
                }
            }
            O::Ult => {
                let (a, b) = (self.range(n.a, dom, memo), self.range(n.b, dom, memo));
                if a.1 < b.0 {
                    (1, 1)
                } else if a.0 >= b.1 {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            O::Slt => {
                let wa = self.w(n.a);
                let (a, b) = (self.range(n.a, dom, memo), self.range(n.b, dom, memo));
                if wa <= 64 && (a.1 | b.1) >> (wa - 1) == 0 {
                    if a.1 < b.0 {
                        (1, 1)
                    } else if a.0 >= b.1 {
                        (0, 0)
                    } else {
                        (0, 1)
                    }
                } else {
                    (0, 1)
                }
            }
            _ => full,
        };
        memo.insert(id, r);
        r
    }
}
