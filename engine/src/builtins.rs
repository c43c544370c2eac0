//! Functions the engine models instead of interpreting.
use crate::ir::Module;

pub const NOP: u32 = 1;
pub const ZERO: u32 = 2;
pub const ARG0: u32 = 3;
pub const ALLOC: u32 = 10;
pub const ALLOC_ZEROED: u32 = 11;
pub const DEALLOC: u32 = 12;
pub const REALLOC: u32 = 13;
pub const CALLOC: u32 = 14;
pub const CREALLOC: u32 = 15;
pub const MEMCPY: u32 = 20;
pub const MEMMOVE: u32 = 21;
pub const MEMSET: u32 = 22;
pub const BCMP: u32 = 23;
pub const MEMCMP: u32 = 24;
pub const STRLEN: u32 = 25;
pub const GETRANDOM: u32 = 26;
pub const RANDKEYS: u32 = 27;
pub const PANIC: u32 = 30;
pub const ABORT: u32 = 31;
pub const TRAP: u32 = 32;
pub const INTRIN: u32 = 40;
pub const SX_SYM: u32 = 50;
pub const SX_ASSUME: u32 = 51;
pub const SX_ASSERT: u32 = 52;
pub const SX_REACH: u32 = 53;
pub const SX_OBS: u32 = 54;
pub const SX_CONC: u32 = 55;

fn classify(n: &str) -> u32 {
    match n {
        "sx_sym" => return SX_SYM,
        "sx_assume" => return SX_ASSUME,
        "sx_assert" => return SX_ASSERT,
        "sx_reach" => return SX_REACH,
        "sx_observe" => return SX_OBS,
        "sx_concrete" => return SX_CONC,
        "memcpy" => return MEMCPY,
        "memmove" => return MEMMOVE,
        "memset" => return MEMSET,
        "bcmp" => return BCMP,
        "memcmp" => return MEMCMP,
        "strlen" => return STRLEN,
        "malloc" => return ALLOC,
        "calloc" => return CALLOC,
        "realloc" => return CREALLOC,
        "free" => return DEALLOC,
        "getrandom" => return GETRANDOM,
        "abort" => return ABORT,
        "__cxa_thread_atexit_impl" => return ZERO,
        _ => {}
    }
    if let Some(b) = n.strip_prefix("llvm.") {
        let op = b.split('.').next().unwrap_or("");
        return match op {
            "memcpy" => MEMCPY,
            "memmove" => MEMMOVE,
            "memset" => MEMSET,
            "lifetime" | "assume" | "experimental" | "sideeffect" | "prefetch" | "donothing" | "dbg" | "invariant" => NOP,
            "expect" | "threadlocal" | "launder" | "strip" | "ssa" | "freeze" => ARG0,
            "trap" | "ubsantrap" | "debugtrap" => TRAP,
            _ => INTRIN,
        };
    }
    if n.contains("___rustc") {
        if n.ends_with("___rust_alloc") {
            return ALLOC;
        }
        if n.ends_with("___rust_alloc_zeroed") {
            return ALLOC_ZEROED;
        }
        if n.ends_with("___rust_dealloc") {
            return DEALLOC;
        }
        if n.ends_with("___rust_realloc") {
            return REALLOC;
        }
        if n.contains("___rust_no_alloc_shim_is_unstable") {
            return NOP;
        }
        if n.contains("___rust_start_panic") || n.contains("rust_begin_unwind") || n.contains("___rust_alloc_error_handler") {
            return ABORT;
        }
    }
    if n.starts_with("_R") {
        if n.contains("4core9panicking9panic_fmt") || n.contains("4core9panicking19panic_nounwind_fmt") || n.contains("4core9panicking18panic_nounwind_fmt") {
            return PANIC;
        }
        if n.contains("5alloc5alloc18handle_alloc_error") {
            return ABORT;
        }
        if n.contains("hashmap_random_keys") {
            return RANDKEYS;
        }
        if n.contains("4core4hash3sip") && n.contains("6Hasher") {
            if n.contains("6Hasher6finish") {
                return ZERO;
            }
            if n.contains("6Hasher5write") || n.contains("6Hasher9write_str") {
                return NOP;
            }
        }
    }
    0
}

/// Functions whose body must be dropped before optimisation so that calls stay visible.
pub fn is_override(n: &str) -> bool {
    let c = classify(n);
    n == "rust_eh_personality" || n.starts_with("_R") && c != 0
}

pub fn resolve(m: &mut Module) {
    for g in &mut m.globals {
        if g.is_func {
            g.builtin = classify(&g.name);
        }
    }
}
