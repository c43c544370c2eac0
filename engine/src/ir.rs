//! Decoded LLVM IR: types, values, instructions, module.
use std::collections::HashMap;
use std::sync::Arc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    FOther(u32),
    Ptr,
    Arr(u64, TyId),
    Vec(u32, TyId),
    Struct(Vec<TyId>, bool),
    Label,
    Meta,
    Opaque,
    Func,
}

/// A register value. Integers up to 64 bits are `C`, up to 128 bits `W`; `E` is a symbolic
/// expression; aggregates and vectors are `A`.
#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    W(Arc<u128>),
    E(u32),
    A(Arc<Vec<Val>>),
    U,
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    R(u32),
    C(u64),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FBin {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    BitCast,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // global index
    Indirect(Op),
    Asm(Arc<str>),
}

#[derive(Clone, Debug)]
pub struct Target {
    pub bb: u32,
    /// phi moves for this edge: (dst, src)
    pub moves: Box<[(u32, Op)]>,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Bin, w: u32, lanes: u32, dst: u32, a: Op, b: Op },
    ICmp { p: Pred, w: u32, lanes: u32, dst: u32, a: Op, b: Op },
    FBin { op: FBin, w: u32, lanes: u32, dst: u32, a: Op, b: Op },
    FCmp { p: u8, w: u32, lanes: u32, dst: u32, a: Op, b: Op },
    FNeg { w: u32, lanes: u32, dst: u32, a: Op },
    Cast { k: Cast, from: TyId, to: TyId, dst: u32, a: Op },
    Select { dst: u32, c: Op, a: Op, b: Op, ty: TyId, cvec: bool },
    Gep { dst: u32, base: Op, off: i64, vars: Box<[(Op, u32, i64)]> },
    Load { dst: u32, p: Op, ty: TyId },
    Store { v: Op, p: Op, ty: TyId },
    Alloca { dst: u32, size: u64, n: Op },
    Call { dst: u32, ty: TyId, callee: Callee, args: Box<[Op]>, argtys: Box<[TyId]>, next: Option<Box<Target>> },
    ExtractValue { dst: u32, a: Op, idx: Box<[u32]> },
    InsertValue { dst: u32, a: Op, v: Op, idx: Box<[u32]>, ty: TyId },
    ExtractElt { dst: u32, a: Op, i: Op },
    InsertElt { dst: u32, a: Op, v: Op, i: Op, ty: TyId },
    Shuffle { dst: u32, a: Op, b: Op, mask: Box<[i32]>, n: u32, ty: TyId },
    Move { dst: u32, a: Op },
    AtomicRmw { op: u8, dst: u32, p: Op, v: Op, ty: TyId },
    CmpXchg { dst: u32, p: Op, cmp: Op, new: Op, ty: TyId },
    Nop,
    Br(Box<Target>),
    CondBr { c: Op, t: Box<Target>, f: Box<Target> },
    Switch { v: Op, w: u32, default: Box<Target>, cases: Box<[(u64, Target)]>, map: Box<HashMap<u64, u32>> },
    Ret(Option<Op>),
    Unreachable,
    Unsupported(Box<str>),
}

#[derive(Debug)]
pub struct Func {
    pub nparams: u32,
    pub nregs: u32,
    /// start instruction index of each block
    pub blocks: Vec<u32>,
    pub code: Vec<Inst>,
}

#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub size: u64,
    pub data: Option<Arc<Vec<u8>>>,
    pub constant: bool,
    pub func: Option<Arc<Func>>,
    pub is_func: bool,
    pub builtin: u32,
}

#[derive(Default)]
pub struct Types {
    pub list: Vec<Ty>,
    pub size: Vec<u64>,
    pub align: Vec<u64>,
    pub map: HashMap<Ty, TyId>,
}

impl Types {
    pub fn intern(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let (s, a) = self.layout(&t);
        let i = self.list.len() as u32;
        self.list.push(t.clone());
        self.size.push(s);
        self.align.push(a);
        self.map.insert(t, i);
        i
    }
    fn layout(&self, t: &Ty) -> (u64, u64) {
        match t {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Opaque | Ty::Func => (0, 1),
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                let a = b.next_power_of_two().min(16);
                (b.div_ceil(a) * a, a)
            }
            Ty::F32 => (4, 4),
            Ty::F64 | Ty::Ptr => (8, 8),
            Ty::FOther(w) => (*w as u64 / 8, (*w as u64 / 8).min(16)),
            Ty::Arr(n, e) => (n * self.size[*e as usize], self.align[*e as usize]),
            Ty::Vec(n, e) => {
                let bits = match self.list[*e as usize] {
                    Ty::Int(w) => w as u64 * *n as u64,
                    _ => self.size[*e as usize] * 8 * *n as u64,
                };
                let b = bits.div_ceil(8).next_power_of_two();
                (b, b)
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                let mut al = 1u64;
                for f in fs {
                    let (s, a) = (self.size[*f as usize], self.align[*f as usize]);
                    let a = if *packed { 1 } else { a };
                    off = off.div_ceil(a) * a + s;
                    al = al.max(a);
                }
                (off.div_ceil(al) * al, al)
            }
        }
    }
    pub fn field_off(&self, t: TyId, idx: u64) -> (u64, TyId) {
        match &self.list[t as usize] {
            Ty::Arr(_, e) | Ty::Vec(_, e) => (idx * self.size[*e as usize], *e),
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                for (i, f) in fs.iter().enumerate() {
                    let a = if *packed { 1 } else { self.align[*f as usize] };
                    off = off.div_ceil(a) * a;
                    if i as u64 == idx {
                        return (off, *f);
                    }
                    off += self.size[*f as usize];
                }
                panic!("bad field index");
            }
            o => panic!("field_off of {o:?}"),
        }
    }
    /// Bit width of a scalar type, 0 for aggregates.
    pub fn width(&self, t: TyId) -> u32 {
        match self.list[t as usize] {
            Ty::Int(w) => w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            Ty::FOther(w) => w,
            _ => 0,
        }
    }
}

pub struct Module {
    pub types: Types,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub consts: Vec<Val>,
}

pub const BASE_SHIFT: u32 = 32;

pub fn gaddr(g: u32) -> u64 {
    (g as u64 + 1) << BASE_SHIFT
}

impl Module {
    pub fn func_of_addr(&self, a: u64) -> Option<u32> {
        let id = a >> BASE_SHIFT;
        if a & 0xffff_ffff != 0 || id == 0 {
            return None;
        }
        let g = (id - 1) as usize;
        (g < self.globals.len() && self.globals[g].is_func).then_some(g as u32)
    }
}
