//! Documents as YAML text, and reading them with options.
use crate::docs::*;
use crate::sx::*;
use crate::util::*;
use compose_spec::Compose;
use serde_yaml::{Mapping, Value as Yaml};

/// Hands out one byte at a time, then ends or fails.
struct Slow<'a>(&'a [u8], bool);
impl std::io::Read for Slow<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        match (self.0, buf.first_mut()) {
            ([b, rest @ ..], Some(to)) => {
                *to = *b;
                self.0 = rest;
                Ok(1)
            }
            ([], Some(_)) if self.1 => Err(std::io::ErrorKind::Other.into()),
            _ => Ok(0),
        }
    }
}
/// Read with merging or not, from text, bytes, a reader or a value.
fn read(how: usize, merge: bool, text: &str, doc: &Yaml) -> Result<Compose, serde_yaml::Error> {
    let mut o = Compose::options();
    match fork() {
        // What was set last counts.
        true => o.apply_merge(!merge).apply_merge(merge),
        false if merge => o.apply_merge(true),
        false => &mut o,
    };
    let o = o.clone();
    match how {
        0 => o.from_yaml_str(text),
        1 => o.from_yaml_slice(text.as_bytes()),
        2 => o.from_yaml_reader(Slow(text.as_bytes(), false)),
        _ => o.from_yaml_value(doc.clone()),
    }
}
fn indent(to: &mut String, text: &str, by: &str) {
    for l in text.lines() {
        to.push_str(by);
        to.push_str(l);
        to.push('\n');
    }
}
fn services(list: Vec<(&str, Mapping)>) -> Yaml {
    let mut all = Mapping::new();
    for (n, m) in list {
        all.insert(n.into(), Yaml::Mapping(m));
    }
    let mut doc = Mapping::new();
    doc.insert("services".into(), Yaml::Mapping(all));
    Yaml::Mapping(doc)
}
/// Entries of `b`, then those of each of `from` not there yet.
fn merged(b: &Mapping, from: &[&Mapping]) -> Mapping {
    let mut all = b.clone();
    for f in from {
        for (k, v) in *f {
            if !all.contains_key(k) {
                all.insert(k.clone(), v.clone());
            }
        }
    }
    all
}
fn expect(got: Result<Compose, serde_yaml::Error>, want: &Yaml) {
    match (got, serde_yaml::from_value::<Compose>(want.clone())) {
        (Ok(g), Ok(w)) => {
            reach("read");
            check(g == w, "text:read equal");
            check(serde_yaml::to_value(&g).is_ok_and(|g| serde_yaml::to_value(&w).is_ok_and(|w| same_yaml(&g, &w))), "text:read the same");
        }
        (Err(_), Err(_)) => reach("neither"),
        (g, _) => check(false, if g.is_ok() { "text:refused" } else { "text:read" }),
    }
}

harness! {
    // Every line `from..from + n` on its own.
    fn x_one(k, from, n) {
        let k = KINDS[k];
        let (bases, ls) = lines(k);
        let b = pick(bases.len());
        let i = from + pick(n);
        if i >= ls.len() {
            return;
        }
        if let Some((doc, out, ex)) = compose_with(k, b, i, usize::MAX, 1) {
            judge_text(k, doc, &out, ex);
        }
    }
    // Every two lines, the first of them `i`.
    fn x_two(k, i) {
        let k = KINDS[k];
        let (bases, ls) = lines(k);
        let b = pick(bases.len());
        let j = i + 1 + pick(ls.len() - i - 1);
        if let Some((doc, out, ex)) = compose_with(k, b, i, j, 2) {
            judge_text(k, doc, &out, ex);
        }
    }
    // All lines of a type from `from` on that fit together, those after the n-th without symbols.
    fn x_all(k, from, n) {
        let k = KINDS[k];
        let (bases, ls) = lines(k);
        let (mut doc, mut out) = line_with(bases[pick(bases.len())], false, 2);
        let mut i = 0;
        let mut ex = true;
        while i < ls.len() {
            let (a, b) = line_with(ls[(from + i) % ls.len()], i >= n, 2);
            let (mut d2, mut o2) = (doc.clone(), out.clone());
            if merge(&mut d2, &a) && merge(&mut o2, &b) && together(&d2) {
                ex &= exact(ls[(from + i) % ls.len()]);
                doc = d2;
                out = o2;
            }
            i += 1;
        }
        judge_text(k, doc, &out, ex);
    }
    // A Compose file without anything to merge reads the same every way.
    fn x_read(i, how) {
        let (bases, ls) = lines(Kind::compose);
        let b = pick(bases.len());
        if let Some((doc, _, _)) = compose_with(Kind::compose, b, i, i + 1 + pick(ls.len()), 2) {
            let doc = Yaml::Mapping(doc);
            let text = serde_yaml::to_string(&doc).unwrap();
            expect(read(how, fork(), &text, &doc), &doc);
        }
    }
    // A reader that fails.
    fn x_fail(from, n) {
        let (_, ls) = lines(Kind::compose);
        let i = from + pick(n);
        if i < ls.len() {
            let (doc, _, _) = compose_with(Kind::compose, 0, i, usize::MAX, 2).unwrap();
            let text = serde_yaml::to_string(&doc).unwrap();
            let at = pick(text.len() + 1);
            let o = Compose::options().apply_merge(fork()).clone();
            reach("failed");
            check(o.from_yaml_reader(Slow(&text.as_bytes()[..at], true)).is_err(), "text:reader failed");
        }
    }
    // A service that repeats another one by an alias.
    fn x_alias(i, how) {
        let (m, _) = line_with(lines(Kind::service).1[i], false, 2);
        let mut text = String::from("services:\n  a: &x\n");
        indent(&mut text, &serde_yaml::to_string(&m).unwrap(), "    ");
        text.push_str("  b: *x\n");
        let doc = services(vec![("a", m.clone()), ("b", m)]);
        expect(read(how, fork(), &text, &doc), &doc);
    }
    // A service that merges one or two others.
    fn x_merge(i, how) {
        let (_, ls) = lines(Kind::service);
        let (a, _) = line_with(ls[i], false, 2);
        let j = match pick(3) {
            0 => i,
            1 => (i + 1) % ls.len(),
            _ => (i + 7) % ls.len(),
        };
        let (b, _) = line_with(ls[j], true, 2);
        let (c, _) = line_with(["init: true", "scale: 3, x-y: z"][pick(2)], true, 2);
        let two = fork();
        let on = fork();
        let mut text = String::from("services:\n  a: &x\n");
        indent(&mut text, &serde_yaml::to_string(&a).unwrap(), "    ");
        text.push_str("  c: &y\n");
        indent(&mut text, &serde_yaml::to_string(&c).unwrap(), "    ");
        text.push_str(if two { "  b:\n    <<: [*x, *y]\n" } else { "  b:\n    <<: *x\n" });
        indent(&mut text, &serde_yaml::to_string(&b).unwrap(), "    ");
        let mut raw = Mapping::new();
        raw.insert("<<".into(), if two { Yaml::Sequence(vec![Yaml::Mapping(a.clone()), Yaml::Mapping(c.clone())]) } else { Yaml::Mapping(a.clone()) });
        raw.extend(b.clone());
        let doc = services(vec![("a", a.clone()), ("c", c.clone()), ("b", raw)]);
        let got = read(how, on, &text, &doc);
        if on {
            let all = if two { merged(&b, &[&a, &c]) } else { merged(&b, &[&a]) };
            expect(got, &services(vec![("a", a), ("c", c), ("b", all)]));
        } else {
            reach("unmerged");
            check(got.is_err(), "text:unmerged");
        }
    }
    // A service that merges others that merge others.
    fn x_chain(i, how) {
        let (_, ls) = lines(Kind::service);
        let (a, _) = line_with(ls[i], false, 2);
        let (b, _) = line_with(ls[(i + [1, 5][pick(2)]) % ls.len()], true, 2);
        let (c, _) = line_with("scale: 3, x-y: z, image: i", true, 2);
        let (d, _) = line_with("init: true, x-y: w", true, 2);
        let (e, _) = line_with("init: false, tty: true, x-y: v, x-z: u", true, 2);
        let with = |m: &Mapping, from: Vec<&Mapping>| {
            let mut raw = Mapping::new();
            let mut from: Vec<_> = from.into_iter().cloned().map(Yaml::Mapping).collect();
            raw.insert("<<".into(), if from.len() == 1 { from.remove(0) } else { Yaml::Sequence(from) });
            raw.extend(m.clone());
            raw
        };
        // b merges a, d merges e; the last merges these.
        let (rb, rd) = (with(&b, vec![&a]), with(&d, vec![&e]));
        let (ab, de) = (merged(&b, &[&a]), merged(&d, &[&e]));
        let shape = pick(5);
        let (text, raw, all) = match shape {
            0 => ("*b", with(&c, vec![&rb]), merged(&c, &[&ab])),
            1 => ("[*b, *d]", with(&c, vec![&rb, &rd]), merged(&c, &[&ab, &de])),
            2 => ("[*d, *a, *b]", with(&c, vec![&rd, &a, &rb]), merged(&c, &[&de, &a, &ab])),
            3 => ("[*e, *b]", with(&c, vec![&e, &rb]), merged(&c, &[&e, &ab])),
            _ => ("{ <<: *d, x-y: u, x-q: {<<: {<<: *c}} }", {
                let (x, _) = line_with("x-y: u", true, 2);
                let mut x = with(&x, vec![&rd]);
                x.insert("x-q".into(), Yaml::Mapping(with(&Mapping::new(), vec![&with(&Mapping::new(), vec![&c])])));
                with(&c, vec![&x])
            }, {
                let (mut x, _) = line_with("x-y: u", true, 2);
                x.insert("x-q".into(), Yaml::Mapping(c.clone()));
                merged(&c, &[&merged(&x, &[&de])])
            }),
        };
        let mut doc = String::from("services:\n");
        for (name, own, from) in [("a", &a, ""), ("e", &e, ""), ("c", &c, ""), ("b", &b, "*a"), ("d", &d, "*e"), ("f", &c, text)] {
            doc.push_str("  ");
            doc.push_str(name);
            doc.push_str(": &");
            doc.push_str(name);
            doc.push('\n');
            if !from.is_empty() {
                doc.push_str("    <<: ");
                doc.push_str(from);
                doc.push('\n');
            }
            indent(&mut doc, &serde_yaml::to_string(own).unwrap(), "    ");
        }
        let tree = services(vec![("a", a.clone()), ("e", e.clone()), ("c", c.clone()), ("b", rb), ("d", rd), ("f", raw)]);
        let got = read(how, true, &doc, &tree);
        expect(got, &services(vec![("a", a), ("e", e), ("c", c), ("b", ab), ("d", de), ("f", all)]));
    }
    // Many entries in one field.
    fn x_many(which, n) {
        let (k, t) = MANY[which];
        let at = if fork() { 0 } else if fork() { n / 2 } else { n - 1 };
        let (mut doc, mut out) = line_with(lines(k).0[0], false, 1);
        let (a, b) = line_with(&many(t, n, at), false, 1);
        merge(&mut doc, &a);
        merge(&mut out, &b);
        judge_text(k, doc, &out, true);
    }
    // Maps inside a service or the Compose file that hold nothing but another one to merge, or all but the first entry.
    fn x_deep(top, i, how) {
        let k = if top == 1 { Kind::compose } else { Kind::service };
        let (m, _) = line_with(lines(k).1[i], false, 2);
        let (mut m2, keep) = (m.clone(), fork());
        let mut any = false;
        for (_, v) in m2.iter_mut() {
            any |= deepen(v, keep);
        }
        if !any {
            return;
        }
        let whole = |m: Mapping| if top == 1 {
            let mut m = m;
            m.entry("services".into()).or_insert(Yaml::Mapping(Mapping::new()));
            Yaml::Mapping(m)
        } else {
            services(vec![("a", m)])
        };
        let closed = m.contains_key("extends") || m.contains_key("depends_on") || m.contains_key("develop") || m.contains_key("blkio_config") || m.contains_key("include") || m.contains_key("env_file") || m.keys().any(|k| k.as_str().unwrap().starts_with("x-"));
        let (doc, raw) = (whole(m), whole(m2));
        let text = serde_yaml::to_string(&raw).unwrap();
        let on = fork();
        let got = read(how, on, &text, &raw);
        if on {
            reach("deep");
            expect(got, &doc);
        } else if !closed {
            reach("unmerged");
            check(got.is_err(), "text:unmerged");
        }
    }
}
fn deepen(v: &mut Yaml, keep: bool) -> bool {
    match v {
        Yaml::Mapping(m) => {
            let mut all = std::mem::take(m);
            if keep {
                if let Some((k, v)) = all.iter().next().map(|(k, v)| (k.clone(), v.clone())) {
                    all.remove(&k);
                    m.insert(k, v);
                }
            }
            m.insert("<<".into(), Yaml::Mapping(all));
            true
        }
        Yaml::Sequence(s) => {
            let mut any = false;
            for v in s {
                any |= deepen(v, keep);
            }
            any
        }
        _ => false,
    }
}
