//! Interface to the symbolic executor. Natively (replay) these are defined by `main.rs`.
extern "C-unwind" {
    fn sx_sym(width: u32) -> u64;
    fn sx_assume(c: bool);
    fn sx_assert(c: bool, p: *const u8, n: usize);
    fn sx_reach(p: *const u8, n: usize);
    fn sx_observe(v: u64);
    fn sx_concrete(v: u64) -> u64;
}
/// A fresh symbolic value of `w` bits.
#[inline(always)]
pub fn sym(w: u32) -> u64 {
    unsafe { sx_sym(w) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, label: &'static str) {
    unsafe { sx_assert(c, label.as_ptr(), label.len()) }
}
#[inline(always)]
pub fn reach(label: &'static str) {
    unsafe { sx_reach(label.as_ptr(), label.len()) }
}
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { sx_observe(v) }
}
#[inline(always)]
pub fn concrete(v: u64) -> u64 {
    unsafe { sx_concrete(v) }
}

/// Harness functions: a symbol the executor can start from and an entry in the replay table.
#[macro_export]
macro_rules! harness {
    ($(fn $name:ident($($a:ident),*) $body:block)*) => {
        $(#[no_mangle] pub extern "C-unwind" fn $name($($a: usize),*) $body)*
        pub const TABLE: &[(&str, fn(&[usize]))] = &[$(
            (stringify!($name), |v: &[usize]| {
                let mut _i = v.iter();
                $name($({ let _ = stringify!($a); *_i.next().expect("argument") }),*)
            }),
        )*];
    };
}
