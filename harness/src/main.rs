//! Native execution of harness functions with given values of their symbolic inputs.
//!
//!   replay            reads requests from stdin, one per line: `function arg... | value value ...`
//!
//! Per request: a line `= i`, then `R label`, `F label` (failed assertion), `X` (assumption not met),
//! `M` (more values asked for than given), `O v` (observed value) lines and `.` on completion.
//! A panic ends the process after a `P file:line message` line.
use std::cell::RefCell;
use std::io::{BufRead, Write};

#[derive(Default)]
struct St {
    vals: Vec<u64>,
    at: usize,
    out: String,
}
thread_local!(static ST: RefCell<St> = RefCell::default());
fn put(s: String) {
    ST.with(|st| {
        let mut st = st.borrow_mut();
        st.out.push_str(&s);
        st.out.push('\n');
    });
}
fn flush() {
    ST.with(|st| {
        let mut st = st.borrow_mut();
        let mut o = std::io::stdout().lock();
        o.write_all(st.out.as_bytes()).unwrap();
        o.flush().unwrap();
        st.out.clear();
    });
}
unsafe fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
fn leave(tag: &str) -> ! {
    put(tag.into());
    flush();
    std::process::exit(0)
}
#[no_mangle]
extern "C-unwind" fn sx_sym(w: u32) -> u64 {
    let v = ST.with(|st| {
        let mut st = st.borrow_mut();
        let i = st.at;
        st.at += 1;
        st.vals.get(i).copied()
    });
    let Some(v) = v else { leave("M") };
    if w >= 64 { v } else { v & ((1 << w) - 1) }
}
#[no_mangle]
extern "C-unwind" fn sx_assume(c: bool) {
    if !c {
        leave("X");
    }
}
#[no_mangle]
unsafe extern "C" fn sx_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        put(format!("F {}", text(p, n)));
    }
}
#[no_mangle]
unsafe extern "C" fn sx_reach(p: *const u8, n: usize) {
    put(format!("R {}", text(p, n)));
}
#[no_mangle]
extern "C" fn sx_observe(v: u64) {
    put(format!("O {v}"));
}
#[no_mangle]
extern "C" fn sx_concrete(v: u64) -> u64 {
    v
}

fn main() {
    let mut table: std::collections::HashMap<&str, fn(&[usize])> = Default::default();
    for t in harness::TABLES {
        for (n, f) in t.iter() {
            table.insert(n, *f);
        }
    }
    if std::env::args().nth(1).as_deref() == Some("list") {
        let mut k: Vec<_> = table.keys().collect();
        k.sort();
        for k in k {
            println!("{k}");
        }
        return;
    }
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        put(format!("P {l} {}", m.replace('\n', " ")));
        flush();
    }));
    for (i, line) in std::io::stdin().lock().lines().enumerate() {
        let line = line.unwrap();
        let (head, vals) = line.split_once('|').expect("request");
        let mut h = head.split_whitespace();
        let f = table[h.next().expect("function")];
        let args: Vec<usize> = h.map(|x| x.parse().unwrap()).collect();
        ST.with(|st| {
            let mut st = st.borrow_mut();
            st.vals = vals.split_whitespace().map(|x| x.parse().unwrap()).collect();
            st.at = 0;
        });
        put(format!("= {i}"));
        flush();
        f(&args);
        put(".".into());
        flush();
    }
}
