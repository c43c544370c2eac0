//! symx: symbolic execution of LLVM IR with Z3.
//!
//!   symx strip IN.ll OUT.ll            turn modelled functions into declarations
//!   symx run LL PLAN OUT.json THREADS DEADLINE_S
//!
//! PLAN: one instance per line: `name cpu_seconds function arg arg ...`
mod builtins;
mod exec;
mod expr;
mod ir;
mod parse;
mod z3;

use exec::*;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn strip(src: &str) -> String {
    let mut out = String::with_capacity(src.len());
    let mut skip = false;
    for line in src.split_inclusive('\n') {
        if skip {
            if line.starts_with('}') {
                skip = false;
            }
            continue;
        }
        if line.starts_with("define ") {
            if let Some(at) = line.find('@') {
                let rest = &line[at + 1..];
                let name = rest.strip_prefix('"').map_or_else(|| rest.split('(').next().unwrap_or(""), |r| r.split('"').next().unwrap_or(""));
                if builtins::is_override(name) {
                    let mut l = line.replacen("define ", "declare ", 1);
                    for w in ["internal ", "private ", "linkonce_odr ", "weak_odr ", "hidden ", "dso_local "] {
                        l = l.replacen(w, "", 1);
                    }
                    // cut after the parameter list and its attribute group
                    let open = l[..].find('@').unwrap() + l[l.find('@').unwrap()..].find('(').unwrap();
                    let mut depth = 0;
                    let mut end = open;
                    for (i, c) in l[open..].char_indices() {
                        match c {
                            '(' => depth += 1,
                            ')' => {
                                depth -= 1;
                                if depth == 0 {
                                    end = open + i + 1;
                                    break;
                                }
                            }
                            _ => {}
                        }
                    }
                    out.push_str(&l[..end]);
                    out.push('\n');
                    skip = true;
                    continue;
                }
            }
        }
        out.push_str(line);
    }
    out
}

struct Item {
    inst: usize,
    prefix: Vec<Dec>,
    model: Vec<u64>,
}
struct Inst {
    name: String,
    cpu: f64,
    func: u32,
    args: Vec<u64>,
}
#[derive(Default)]
struct Res {
    st: Stats,
    violations: Vec<Violation>,
    samples: Vec<Sample>,
}
struct Shared {
    q: Mutex<VecDeque<Item>>,
    cv: Condvar,
    idle: AtomicUsize,
    n: usize,
    done: AtomicBool,
    used: Vec<AtomicU64>,
    res: Vec<Mutex<Res>>,
    /// Instance each worker is on (usize::MAX: none).
    cur: Vec<AtomicUsize>,
    finished: AtomicUsize,
}

fn worker(m: &ir::Module, sh: &Shared, insts: &[Inst], deadline: Instant, stop: Arc<AtomicBool>, fc: &Mutex<Vec<u64>>, seed: u64) {
    let z3_ms: u32 = std::env::var("SYMX_Z3_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(10_000);
    let mut w = Worker::new(m, z3_ms, deadline, stop.clone());
    let max_samples = 4 + (seed as usize & 0);
    loop {
        let item = {
            let mut q = sh.q.lock().unwrap();
            let id = sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
            if q.is_empty() && id == sh.n {
                sh.done.store(true, Ordering::SeqCst);
                sh.cv.notify_all();
            }
            loop {
                if sh.done.load(Ordering::SeqCst) {
                    break None;
                }
                if let Some(i) = q.pop_front() {
                    sh.idle.fetch_sub(1, Ordering::SeqCst);
                    break Some(i);
                }
                q = sh.cv.wait_timeout(q, Duration::from_millis(100)).unwrap().0;
                if q.is_empty() && sh.idle.load(Ordering::SeqCst) == sh.n {
                    sh.done.store(true, Ordering::SeqCst);
                    sh.cv.notify_all();
                }
            }
        };
        let Some(item) = item else { break };
        let inst = &insts[item.inst];
        sh.cur[seed as usize].store(item.inst, Ordering::SeqCst);
        w.inst = item.inst;
        w.st = Stats::default();
        w.st.items = 1;
        let budget = (inst.cpu * 1e6) as u64;
        let mut stack = vec![w.initial(inst.func, &inst.args, item.prefix, item.model)];
        let mut samples: Vec<Sample> = vec![];
        let mut npaths = 0u64;
        let mut t = Instant::now();
        while let Some(mut s) = stack.pop() {
            let used = sh.used[item.inst].load(Ordering::Relaxed);
            if used > budget || stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                w.st.truncated += 1 + stack.len() as u64;
                break;
            }
            let r = w.run(&mut s);
            match r {
                Stop::Done => {
                    w.st.paths += 1;
                    npaths += 1;
                    if samples.len() < max_samples || npaths.is_power_of_two() {
                        let model = s.pc.model.clone();
                        let values = w.values_of(&s.pc, &model);
                        let obs = w.obs_of(&s, &model);
                        samples.push(Sample { inst: item.inst, values, obs });
                    }
                }
                Stop::Infeasible => w.st.infeasible += 1,
                Stop::Violation { kind, label } => {
                    w.st.paths += 1;
                    let model = s.pc.model.clone();
                    w.violation(&s, kind, label, &model);
                }
                Stop::Unsupported(x) => {
                    let f = &m.globals[s.cur.func as usize].name;
                    if std::env::var_os("SYMX_DEBUG").is_some() {
                        eprintln!("unsupported in {f}: {x}");
                        for fr in s.stack.iter().rev().take(6) {
                            eprintln!("   from {}", m.globals[fr.func as usize].name);
                        }
                    }
                    let f = if f.len() > 120 { &f[..120] } else { f };
                    *w.st.unsupported.entry(format!("{x} in {f}")).or_default() += 1;
                }
                Stop::Limit(x) => *w.st.limits.entry(x).or_default() += 1,
                Stop::Deadline => {
                    w.st.truncated += 1;
                }
            }
            stack.append(&mut w.fork_stack);
            let now = Instant::now();
            sh.used[item.inst].fetch_add((now - t).as_micros() as u64, Ordering::Relaxed);
            t = now;
            // hand work to idle threads
            let idle = sh.idle.load(Ordering::Relaxed);
            let big = w.a.nodes.len() > 5_000_000;
            if (idle > 0 && stack.len() > 1) || (big && !stack.is_empty()) {
                let k = if big { stack.len() } else { (stack.len() - 1).min(idle.max(1)).max(1) };
                let mut q = sh.q.lock().unwrap();
                if big || q.len() < idle {
                    for s in stack.drain(..k) {
                        let prefix = Worker::prefix_of(&s);
                        q.push_front(Item { inst: item.inst, prefix, model: s.pc.model.clone() });
                    }
                    sh.cv.notify_all();
                }
            }
        }
        if w.a.nodes.len() > 3_000_000 {
            drop(stack);
            w.reset_arena();
        }
        let mut r = sh.res[item.inst].lock().unwrap();
        let st = std::mem::take(&mut w.st);
        r.st.merge(&st);
        r.violations.append(&mut w.violations);
        if r.samples.len() < 400 {
            r.samples.extend(samples);
        }
        drop(r);
        sh.cur[seed as usize].store(usize::MAX, Ordering::SeqCst);
    }
    let mut f = fc.lock().unwrap();
    for (i, c) in w.fcount.iter().enumerate() {
        f[i] += c;
    }
    drop(f);
    sh.finished.fetch_add(1, Ordering::SeqCst);
}

fn jstr(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn jmap(o: &mut String, m: &HashMap<String, u64>) {
    let mut k: Vec<_> = m.iter().collect();
    k.sort();
    o.push('{');
    for (i, (k, v)) in k.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        jstr(o, k);
        let _ = write!(o, ":{v}");
    }
    o.push('}');
}
fn jvals(o: &mut String, v: &[(u32, u64)]) {
    o.push('[');
    for (i, (w, x)) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "[{w},{x}]");
    }
    o.push(']');
}

fn run(args: &[String]) {
    let t0 = Instant::now();
    let src = std::fs::read(&args[0]).expect("read ll");
    let mut m = match parse::Parser::new(&src).parse() {
        Ok(m) => m,
        Err(e) => {
            eprintln!("parse error: {e:?}");
            std::process::exit(3);
        }
    };
    drop(src);
    builtins::resolve(&mut m);
    let t_parse = t0.elapsed();
    let plan = std::fs::read_to_string(&args[1]).expect("read plan");
    let threads: usize = args[3].parse().unwrap();
    let secs: f64 = args[4].parse().unwrap();
    let deadline = Instant::now() + Duration::from_secs_f64(secs);
    let mut insts = vec![];
    for l in plan.lines() {
        let p: Vec<&str> = l.split_whitespace().collect();
        if p.len() < 3 {
            continue;
        }
        let Some(&func) = m.gmap.get(p[2]) else {
            eprintln!("no function {}", p[2]);
            std::process::exit(3);
        };
        insts.push(Inst { name: p[0].into(), cpu: p[1].parse().unwrap(), func, args: p[3..].iter().map(|x| x.parse().unwrap()).collect() });
    }
    let sh = Shared {
        q: Mutex::new((0..insts.len()).map(|inst| Item { inst, prefix: vec![], model: vec![] }).collect()),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        n: threads,
        done: AtomicBool::new(false),
        used: insts.iter().map(|_| AtomicU64::new(0)).collect(),
        res: insts.iter().map(|_| Mutex::default()).collect(),
        cur: (0..threads).map(|_| AtomicUsize::new(usize::MAX)).collect(),
        finished: AtomicUsize::new(0),
    };
    let stop = Arc::new(AtomicBool::new(false));
    let fc = Mutex::new(vec![0u64; m.globals.len()]);
    std::thread::scope(|sc| {
        for i in 0..threads {
            let (m, sh, insts, stop, fc) = (&m, &sh, &insts, stop.clone(), &fc);
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(sc, move || worker(m, sh, insts, deadline, stop, fc, i as u64))
                .unwrap();
        }
        // A solver call that ignores its time limit must not hold up the verdict on the rest.
        let (m, sh, insts, stop, fc) = (&m, &sh, &insts, stop.clone(), &fc);
        sc.spawn(move || loop {
            std::thread::sleep(Duration::from_millis(50));
            if sh.finished.load(Ordering::SeqCst) == threads {
                break;
            }
            if Instant::now() > deadline + Duration::from_secs(5) {
                stop.store(true, Ordering::SeqCst);
            }
            if Instant::now() > deadline + Duration::from_secs(20) {
                for c in &sh.cur {
                    let i = c.load(Ordering::SeqCst);
                    if i != usize::MAX {
                        if let Ok(mut r) = sh.res[i].try_lock() {
                            r.st.truncated += 1;
                        }
                    }
                }
                write_out(&args[2], m, sh, insts, fc, t_parse, t0);
                std::process::exit(0);
            }
        });
    });
    write_out(&args[2], &m, &sh, &insts, &fc, t_parse, t0);
}

fn write_out(path: &str, m: &ir::Module, sh: &Shared, insts: &[Inst], fc: &Mutex<Vec<u64>>, t_parse: Duration, t0: Instant) {
    let mut o = String::new();
    let _ = write!(o, "{{\"parse_s\":{:.3},\"wall_s\":{:.3},\"instances\":[", t_parse.as_secs_f64(), t0.elapsed().as_secs_f64());
    for (i, r) in sh.res.iter().enumerate() {
        let r = r.lock().unwrap();
        if i > 0 {
            o.push(',');
        }
        let s = &r.st;
        o.push_str("\n{\"name\":");
        jstr(&mut o, &insts[i].name);
        let _ = write!(
            o,
            ",\"cpu_s\":{:.3},\"paths\":{},\"infeasible\":{},\"violated\":{},\"steps\":{},\"forks\":{},\"decisions\":{},\"asserts_const\":{},\"asserts_smt\":{},\"asserts_domain\":{},\"asserts_unknown\":{},\"q_model\":{},\"q_domain\":{},\"q_cache\":{},\"q_z3\":{},\"q_z3_sat\":{},\"q_z3_unsat\":{},\"q_z3_unknown\":{},\"z3_s\":{:.4},\"truncated\":{},\"items\":{},\"maxvars\":{},\"audited\":{},\"audit_bad\":{}",
            sh.used[i].load(Ordering::Relaxed) as f64 / 1e6, s.paths, s.infeasible, s.violated, s.steps, s.forks, s.decisions, s.asserts_const, s.asserts_smt, s.asserts_domain, s.asserts_unknown, s.q_model, s.q_domain, s.q_cache, s.q_z3, s.q_z3_sat, s.q_z3_unsat, s.q_z3_unknown, s.z3_ns as f64 / 1e9, s.truncated, s.items, s.maxvars, s.audited, s.audit_bad
        );
        o.push_str(",\"unsupported\":");
        jmap(&mut o, &s.unsupported);
        o.push_str(",\"limits\":");
        jmap(&mut o, &s.limits);
        o.push_str(",\"reached\":");
        jmap(&mut o, &s.reached);
        o.push_str(",\"violations\":[");
        for (j, v) in r.violations.iter().enumerate() {
            if j > 0 {
                o.push(',');
            }
            o.push_str("{\"kind\":");
            jstr(&mut o, v.kind);
            o.push_str(",\"label\":");
            jstr(&mut o, &v.label);
            o.push_str(",\"values\":");
            jvals(&mut o, &v.values);
            let _ = write!(o, ",\"obs\":{:?},\"stack\":[", v.obs);
            for (k, f) in v.stack.iter().enumerate() {
                if k > 0 {
                    o.push(',');
                }
                jstr(&mut o, f);
            }
            o.push_str("]}");
        }
        o.push_str("],\"samples\":[");
        for (j, v) in r.samples.iter().enumerate() {
            if j > 0 {
                o.push(',');
            }
            o.push_str("{\"values\":");
            jvals(&mut o, &v.values);
            let _ = write!(o, ",\"obs\":{:?}}}", v.obs);
        }
        o.push_str("]}");
    }
    o.push_str("],\n\"functions\":{");
    let f = fc.lock().unwrap();
    let mut first = true;
    for (i, c) in f.iter().enumerate() {
        if *c > 0 {
            if !first {
                o.push(',');
            }
            first = false;
            jstr(&mut o, &m.globals[i].name);
            let _ = write!(o, ":{c}");
        }
    }
    o.push_str("}}\n");
    std::fs::File::create(path).unwrap().write_all(o.as_bytes()).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("strip") => {
            let s = std::fs::read_to_string(&args[2]).unwrap();
            std::fs::write(&args[3], strip(&s)).unwrap();
        }
        Some("run") => run(&args[2..]),
        _ => {
            eprintln!("usage: symx strip IN OUT | symx run LL PLAN OUT THREADS DEADLINE");
            std::process::exit(2);
        }
    }
}
