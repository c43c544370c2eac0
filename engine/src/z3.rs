//! Minimal hand-written binding to the Z3 C API and translation of expressions.
use crate::expr::*;
use std::ffi::c_void;
use std::os::raw::{c_char, c_int, c_uint};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_sort_to_ast(c: P, s: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_round_nearest_ties_to_even(c: P) -> P;
    fn Z3_mk_fpa_round_toward_zero(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}
extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {e}");
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    sfp: P,
    cache_bv: FxMap<Id, P>,
    cache_bool: FxMap<Id, P>,
    dom_cache: FxMap<(u32, [u64; 4]), P>,
    timeout_ms: u32,
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_solver_dec_ref(self.c, self.sfp);
            Z3_del_context(self.c);
        }
    }
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, c"model".as_ptr(), c"true".as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, c"timeout".as_ptr()), timeout_ms);
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, c"QF_BV".as_ptr()));
            Z3_solver_inc_ref(c, s);
            Z3_solver_set_params(c, s, p);
            let sfp = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, sfp);
            Z3_solver_set_params(c, sfp, p);
            Z3 { c, s, sfp, cache_bv: FxMap::default(), cache_bool: FxMap::default(), dom_cache: FxMap::default(), timeout_ms }
        }
    }
    pub fn maybe_reset(&mut self) {
        if self.cache_bv.len() + self.cache_bool.len() > 400_000 {
            *self = Z3::new(self.timeout_ms);
        }
    }
    unsafe fn num(&self, w: u32, v: u128) -> P {
        let c = self.c;
        if w <= 64 {
            let s = Z3_mk_bv_sort(c, w);
            Z3_mk_unsigned_int64(c, v as u64, s)
        } else {
            let h = Z3_mk_unsigned_int64(c, (v >> 64) as u64, Z3_mk_bv_sort(c, w - 64));
            Z3_inc_ref(c, h);
            let l = Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, 64));
            Z3_inc_ref(c, l);
            let r = Z3_mk_concat(c, h, l);
            Z3_inc_ref(c, r);
            Z3_dec_ref(c, h);
            Z3_dec_ref(c, l);
            r
        }
    }
    unsafe fn fsort(&self, w: u32) -> P {
        if w == 32 {
            Z3_mk_fpa_sort_single(self.c)
        } else {
            Z3_mk_fpa_sort_double(self.c)
        }
    }
    unsafe fn tofp(&mut self, a: &mut Arena, id: Id) -> P {
        let w = a.w(id);
        let b = self.bv(a, id);
        let f = Z3_mk_fpa_to_fp_bv(self.c, b, self.fsort(w));
        Z3_inc_ref(self.c, f);
        f
    }
    /// as Bool (for width-1 expressions)
    unsafe fn bo(&mut self, a: &mut Arena, id: Id) -> P {
        if let Some(&p) = self.cache_bool.get(&id) {
            return p;
        }
        let c = self.c;
        let n = a.nodes[id as usize];
        let r = match n.op {
            O::Const => {
                if a.as_const(id) == Some(0) {
                    Z3_mk_false(c)
                } else {
                    Z3_mk_true(c)
                }
            }
            O::Not => {
                let x = self.bo(a, n.a);
                Z3_mk_not(c, x)
            }
            O::And => {
                let v = [self.bo(a, n.a), self.bo(a, n.b)];
                Z3_mk_and(c, 2, v.as_ptr())
            }
            O::Or => {
                let v = [self.bo(a, n.a), self.bo(a, n.b)];
                Z3_mk_or(c, 2, v.as_ptr())
            }
            O::Xor => {
                let (x, y) = (self.bo(a, n.a), self.bo(a, n.b));
                Z3_mk_xor(c, x, y)
            }
            O::Eq => {
                if a.w(n.a) == 1 {
                    let (x, y) = (self.bo(a, n.a), self.bo(a, n.b));
                    Z3_mk_eq(c, x, y)
                } else {
                    let (x, y) = (self.bv(a, n.a), self.bv(a, n.b));
                    Z3_mk_eq(c, x, y)
                }
            }
            O::Ult => {
                let (x, y) = (self.bv(a, n.a), self.bv(a, n.b));
                Z3_mk_bvult(c, x, y)
            }
            O::Slt => {
                let (x, y) = (self.bv(a, n.a), self.bv(a, n.b));
                Z3_mk_bvslt(c, x, y)
            }
            O::Ite => {
                let (x, y, z) = (self.bo(a, n.a), self.bo(a, n.b), self.bo(a, n.c));
                Z3_mk_ite(c, x, y, z)
            }
            O::FEq | O::FLt | O::FLe | O::FUno => {
                let (x, y) = (self.tofp(a, n.a), self.tofp(a, n.b));
                match n.op {
                    O::FEq => Z3_mk_fpa_eq(c, x, y),
                    O::FLt => Z3_mk_fpa_lt(c, x, y),
                    O::FLe => Z3_mk_fpa_leq(c, x, y),
                    _ => {
                        let p = Z3_mk_fpa_is_nan(c, x);
                        Z3_inc_ref(c, p);
                        let q = Z3_mk_fpa_is_nan(c, y);
                        Z3_inc_ref(c, q);
                        let v = [p, q];
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
            }
            _ => {
                let x = self.bv(a, id);
                let o = self.num(1, 1);
                Z3_inc_ref(c, o);
                Z3_mk_eq(c, x, o)
            }
        };
        Z3_inc_ref(c, r);
        self.cache_bool.insert(id, r);
        r
    }
    unsafe fn bv(&mut self, a: &mut Arena, id: Id) -> P {
        if let Some(&p) = self.cache_bv.get(&id) {
            return p;
        }
        let c = self.c;
        let n = a.nodes[id as usize];
        let w = n.w as u32;
        let is_bool_op = w == 1 && matches!(n.op, O::Not | O::And | O::Or | O::Xor | O::Eq | O::Ult | O::Slt | O::FEq | O::FLt | O::FLe | O::FUno);
        let r = if is_bool_op {
            let b = self.bo(a, id);
            let x = self.num(1, 1);
            Z3_inc_ref(c, x);
            let y = self.num(1, 0);
            Z3_inc_ref(c, y);
            Z3_mk_ite(c, b, x, y)
        } else {
            macro_rules! b2 {
                ($f:ident) => {{
                    let (x, y) = (self.bv(a, n.a), self.bv(a, n.b));
                    $f(c, x, y)
                }};
            }
            match n.op {
                O::Const => {
                    let v = a.as_const(id).unwrap();
                    self.num(w, v)
                }
                O::Var => {
                    let nm = std::ffi::CString::new(format!("v{}_{}", n.a, w)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, w))
                }
                O::And => b2!(Z3_mk_bvand),
                O::Or => b2!(Z3_mk_bvor),
                O::Xor => b2!(Z3_mk_bvxor),
                O::Add => b2!(Z3_mk_bvadd),
                O::Sub => b2!(Z3_mk_bvsub),
                O::Mul => b2!(Z3_mk_bvmul),
                O::UDiv => b2!(Z3_mk_bvudiv),
                O::SDiv => b2!(Z3_mk_bvsdiv),
                O::URem => b2!(Z3_mk_bvurem),
                O::SRem => b2!(Z3_mk_bvsrem),
                O::Shl => b2!(Z3_mk_bvshl),
                O::LShr => b2!(Z3_mk_bvlshr),
                O::AShr => b2!(Z3_mk_bvashr),
                O::Concat => b2!(Z3_mk_concat),
                O::Ite => {
                    let (x, y, z) = (self.bo(a, n.a), self.bv(a, n.b), self.bv(a, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                O::Extract => {
                    let x = self.bv(a, n.a);
                    Z3_mk_extract(c, n.b + w - 1, n.b, x)
                }
                O::ZExt => {
                    let x = self.bv(a, n.a);
                    Z3_mk_zero_ext(c, w - a.w(n.a), x)
                }
                O::SExt => {
                    let x = self.bv(a, n.a);
                    Z3_mk_sign_ext(c, w - a.w(n.a), x)
                }
                O::Table => {
                    let t = a.tables[n.b as usize].clone();
                    // balanced ite tree over ranges of equal values
                    let mut runs: Vec<(u64, u64)> = vec![]; // (start, value)
                    for (i, v) in t.iter().enumerate() {
                        if runs.last().map(|r| r.1) != Some(*v) {
                            runs.push((i as u64, *v));
                        }
                    }
                    let wi = a.w(n.a);
                    if wi < 64 {
                        runs.retain(|r| r.0 < (1u64 << wi));
                        // indices beyond the table read 0
                        if (t.len() as u64) < (1u64 << wi) {
                            runs.push((t.len() as u64, 0));
                        }
                    } else {
                        runs.push((t.len() as u64, 0));
                    }
                    let x = self.bv(a, n.a);
                    self.tree(&runs, x, wi, w)
                }
                O::FAdd | O::FSub | O::FMul | O::FDiv => {
                    let (x, y) = (self.tofp(a, n.a), self.tofp(a, n.b));
                    let rm = Z3_mk_fpa_round_nearest_ties_to_even(c);
                    Z3_inc_ref(c, rm);
                    let f = match n.op {
                        O::FAdd => Z3_mk_fpa_add(c, rm, x, y),
                        O::FSub => Z3_mk_fpa_sub(c, rm, x, y),
                        O::FMul => Z3_mk_fpa_mul(c, rm, x, y),
                        _ => Z3_mk_fpa_div(c, rm, x, y),
                    };
                    Z3_inc_ref(c, f);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                O::UToF | O::SToF => {
                    let x = self.bv(a, n.a);
                    let rm = Z3_mk_fpa_round_nearest_ties_to_even(c);
                    Z3_inc_ref(c, rm);
                    let f = if n.op == O::UToF { Z3_mk_fpa_to_fp_unsigned(c, rm, x, self.fsort(w)) } else { Z3_mk_fpa_to_fp_signed(c, rm, x, self.fsort(w)) };
                    Z3_inc_ref(c, f);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                O::FCvt => {
                    let x = self.tofp(a, n.a);
                    let rm = Z3_mk_fpa_round_nearest_ties_to_even(c);
                    Z3_inc_ref(c, rm);
                    let f = Z3_mk_fpa_to_fp_float(c, rm, x, self.fsort(w));
                    Z3_inc_ref(c, f);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                O::FToU | O::FToS => {
                    let x = self.tofp(a, n.a);
                    let rm = Z3_mk_fpa_round_toward_zero(c);
                    Z3_inc_ref(c, rm);
                    if n.op == O::FToU {
                        Z3_mk_fpa_to_ubv(c, rm, x, w)
                    } else {
                        Z3_mk_fpa_to_sbv(c, rm, x, w)
                    }
                }
                _ => unreachable!("{:?}", n.op),
            }
        };
        Z3_inc_ref(c, r);
        self.cache_bv.insert(id, r);
        r
    }
    unsafe fn tree(&mut self, runs: &[(u64, u64)], x: P, wi: u32, w: u32) -> P {
        let c = self.c;
        if runs.len() == 1 {
            let r = self.num(w, runs[0].1 as u128);
            Z3_inc_ref(c, r);
            return r;
        }
        let m = runs.len() / 2;
        let l = self.tree(&runs[..m], x, wi, w);
        let h = self.tree(&runs[m..], x, wi, w);
        let k = self.num(wi, runs[m].0 as u128);
        Z3_inc_ref(c, k);
        let cond = Z3_mk_bvult(c, x, k);
        Z3_inc_ref(c, cond);
        let r = Z3_mk_ite(c, cond, l, h);
        Z3_inc_ref(c, r);
        r
    }
    unsafe fn domain(&mut self, a: &mut Arena, var: u32, w: u32, d: &[u64; 4]) -> P {
        let id = a.var(var, w);
        if let Some(&p) = self.dom_cache.get(&(id, *d)) {
            return p;
        }
        let c = self.c;
        let x = self.bv(a, id);
        let mut ors: Vec<P> = vec![];
        let n = 1u32 << w;
        let get = |v: u32| d[(v >> 6) as usize] >> (v & 63) & 1 == 1;
        let mut v = 0;
        while v < n {
            if get(v) {
                let s = v;
                while v + 1 < n && get(v + 1) {
                    v += 1;
                }
                let e = v;
                let r = if s == e {
                    let k = self.num(w, s as u128);
                    Z3_inc_ref(c, k);
                    Z3_mk_eq(c, x, k)
                } else {
                    let ks = self.num(w, s as u128);
                    Z3_inc_ref(c, ks);
                    let ke = self.num(w, e as u128);
                    Z3_inc_ref(c, ke);
                    let p = Z3_mk_bvult(c, x, ks);
                    Z3_inc_ref(c, p);
                    let p = Z3_mk_not(c, p);
                    Z3_inc_ref(c, p);
                    let q = Z3_mk_bvult(c, ke, x);
                    Z3_inc_ref(c, q);
                    let q = Z3_mk_not(c, q);
                    Z3_inc_ref(c, q);
                    let v2 = [p, q];
                    Z3_mk_and(c, 2, v2.as_ptr())
                };
                Z3_inc_ref(c, r);
                ors.push(r);
            }
            v += 1;
        }
        let r = if ors.is_empty() { Z3_mk_false(c) } else { Z3_mk_or(c, ors.len() as u32, ors.as_ptr()) };
        Z3_inc_ref(c, r);
        self.dom_cache.insert((id, *d), r);
        r
    }
    /// Check the conjunction; on Sat fill values for the requested variables.
    pub fn check(&mut self, a: &mut Arena, cs: &[Id], doms: &[(u32, u32, [u64; 4])], want: &[(u32, u32)]) -> (Res, Vec<u64>) {
        self.maybe_reset();
        let mut seen = FxMap::default();
        let fp = cs.iter().any(|c| a.has_fp(*c, &mut seen));
        unsafe {
            let s = if fp { self.sfp } else { self.s };
            Z3_solver_reset(self.c, s);
            for &i in cs {
                let p = self.bo(a, i);
                Z3_solver_assert(self.c, s, p);
            }
            for (v, w, d) in doms {
                let p = self.domain(a, *v, *w, d);
                Z3_solver_assert(self.c, s, p);
            }
            let r = Z3_solver_check(self.c, s);
            match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for &(v, w) in want {
                        let id = a.var(v, w);
                        let t = self.bv(a, id);
                        let mut r: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(self.c, m, t, true, &mut r) {
                            Z3_inc_ref(self.c, r);
                            Z3_get_numeral_uint64(self.c, r, &mut u);
                            Z3_dec_ref(self.c, r);
                        }
                        out.push(u);
                    }
                    Z3_model_dec_ref(self.c, m);
                    (Res::Sat, out)
                }
                -1 => (Res::Unsat, vec![]),
                _ => (Res::Unknown, vec![]),
            }
        }
    }
    #[allow(dead_code)]
    fn unused() -> [usize; 1] {
        [Z3_sort_to_ast as *const () as usize]
    }
}
