//! Image references: accepted exactly by the documented grammar; parts and text stay coherent
//! under every sequence of edits.
use crate::{names, sx::*, util::*};
use compose_spec::service::{
    image::{Digest, Name, Tag, TagOrDigest},
    Image,
};
use serde_yaml::Value;

/// Automaton for one name part: alnum+ ((. | _ | __ | -+) alnum+)*
#[derive(Clone, Copy, Default)]
struct Part {
    start: bool,
    al: bool,
    dot: bool,
    us1: bool,
    us2: bool,
    dash: bool,
}
impl Part {
    fn begin() -> Self {
        Part { start: true, ..Default::default() }
    }
    fn step(self, c: u8) -> Self {
        Part {
            start: false,
            al: lnum(c) & (self.start | self.al | self.dot | self.us1 | self.us2 | self.dash),
            dot: (c == b'.') & self.al,
            us1: (c == b'_') & self.al,
            us2: (c == b'_') & self.us1,
            dash: (c == b'-') & (self.al | self.dash),
        }
    }
}
/// Name only (tag = false) or full reference.
fn grammar(s: &str, full: bool) -> bool {
    let b = s.as_bytes();
    let mut first = Part::begin(); // first part, no dot seen
    let mut host = Part::default(); // first part, dot seen
    let mut rest = Part::default();
    let (mut port0, mut port) = (false, false);
    let mut value: u32 = 0;
    let (mut tag0, mut tag) = (false, false);
    let mut tag_len: u32 = 0;
    let (mut dig0, mut comp, mut dsep, mut colon, mut enc) = (false, false, false, false, false);
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let slash = c == b'/';
        let col = c == b':';
        let at = (c == b'@') & full;
        let name_end = first.al | host.al | rest.al;
        let mut nfirst = first.step(c);
        let mut nhost = host.step(c);
        nhost.dot |= nfirst.dot;
        nfirst.dot = false;
        let mut nrest = rest.step(c);
        nrest.start = slash & (name_end | port);
        let nport0 = col & host.al;
        let nvalue = ((value & 0xFFFF) * 10).wrapping_mul(port as u32) + (c.wrapping_sub(b'0') & 15) as u32;
        let nport = (port0 | port) & digit(c) & (nvalue <= 0xFFFF);
        let ntag0 = col & (name_end | port) & full;
        let ntag = (tag0 | tag) & (alnum(c) | (c == b'.') | (c == b'_') | (c == b'-'));
        tag_len = tag_len.wrapping_mul(tag as u32) + 1;
        let ntag = ntag & (tag_len <= 128);
        let ndig0 = at & name_end;
        let ncomp = (dig0 | comp | dsep) & lnum(c);
        let ndsep = comp & ((c == b'+') | (c == b'.') | (c == b'_') | (c == b'-'));
        let ncolon = comp & col;
        let nenc = (colon | enc) & (alnum(c) | (c == b'=') | (c == b'_') | (c == b'-'));
        (first, host, rest) = (nfirst, nhost, nrest);
        (port0, port, value) = (nport0, nport, nvalue);
        (tag0, tag) = (ntag0, ntag);
        (dig0, comp, dsep, colon, enc) = (ndig0, ncomp, ndsep, ncolon, nenc);
        i += 1;
    }
    first.al | host.al | rest.al | (port & !full) | tag | enc
}
/// Where the parts of an accepted reference are: (name end, tag, digest, registry end).
fn split(s: &str) -> (usize, bool, bool, Option<usize>) {
    let b = s.as_bytes();
    let n = b.len();
    let mut end = n;
    let mut digest = false;
    let mut i = 0;
    while i < n {
        if b[i] == b'@' {
            end = i;
            digest = true;
            break;
        }
        i += 1;
    }
    let mut tag = false;
    if !digest {
        let mut i = n;
        while i > 0 {
            i -= 1;
            if b[i] == b'/' {
                break;
            }
            if b[i] == b':' {
                end = i;
                tag = true;
                break;
            }
        }
    }
    (end, tag, digest, registry_end(&s[..end]))
}
fn registry_end(name: &str) -> Option<usize> {
    let b = name.as_bytes();
    let mut i = 0;
    let mut dot = false;
    while i < b.len() && b[i] != b'/' {
        dot |= b[i] == b'.';
        i += 1;
    }
    if dot { Some(i) } else { None }
}
fn opt_same(a: Option<&str>, b: Option<&str>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => same(a, b),
        (None, None) => true,
        _ => false,
    }
}
/// Every accessor agrees with the given parts.
fn parts_are(i: &Image, name: &str, reg: Option<&str>, tag: Option<&str>, digest: Option<&str>) {
    check(same(i.name(), name), "name");
    check(opt_same(i.registry(), reg), "registry");
    check(opt_same(i.tag(), tag), "tag");
    check(opt_same(i.digest(), digest), "digest");
    check(same(i.as_name().as_ref(), name), "as_name");
    check(opt_same(i.as_name().registry(), reg), "as_name registry");
    check(opt_same(i.as_tag().as_ref().map(|t| t.as_ref()), tag), "as_tag");
    check(opt_same(i.as_digest().as_ref().map(|t| t.as_ref()), digest), "as_digest");
    match i.as_tag_or_digest() {
        Some(TagOrDigest::Tag(t)) => check(digest.is_none() && opt_same(Some(t.as_ref()), tag), "as_tag_or_digest tag"),
        Some(TagOrDigest::Digest(t)) => check(tag.is_none() && opt_same(Some(t.as_ref()), digest), "as_tag_or_digest digest"),
        None => check(tag.is_none() && digest.is_none(), "as_tag_or_digest none"),
    }
}
fn whole(s: String) {
    let r = Image::parse(s.as_str());
    check(r.is_ok() == grammar(&s, true), "reference grammar");
    check(Image::parse(s.clone()).is_ok() == r.is_ok(), "parse(String) agrees");
    check(s.parse::<Image>().is_ok() == r.is_ok(), "FromStr agrees");
    check(Image::try_from(s.clone()).is_ok() == r.is_ok(), "TryFrom agrees");
    let y: Result<Image, _> = read(Value::String(s.clone()));
    check(y.is_ok() == r.is_ok(), "deserialize agrees");
    let Ok(i) = r else { return };
    reach("accepted");
    let (end, tag, digest, reg) = split(&s);
    if tag {
        reach("tag");
    }
    if digest {
        reach("digest");
    }
    let rest = if end < s.len() { &s[end + 1..] } else { "" };
    let (name, reg) = (&s[..end], reg.map(|e| &s[..e]));
    parts_are(&i, name, reg, tag.then_some(rest), digest.then_some(rest));
    check(same(i.as_str(), &s) & same(&i.to_string(), &s), "text");
    match serde_yaml::to_value(&i) {
        Ok(Value::String(t)) => check(same(&t, &s), "serialized"),
        _ => check(false, "serialized as string"),
    }
    check(y.unwrap() == i, "deserialized equal");
    check(same(&i.into_inner(), &s), "into_inner");
}
fn name_only(s: String) {
    let r = Name::new(&s);
    check(r.is_ok() == grammar(&s, false), "name grammar");
    check(Name::try_from(s.as_str()).is_ok() == r.is_ok(), "TryFrom agrees");
    if let Ok(n) = r {
        reach("accepted");
        check(same(n.as_ref(), &s) & same(&n.to_string(), &s) & same(n.into_inner(), &s), "name text");
        check(opt_same(n.registry(), registry_end(&s).map(|e| &s[..e])), "name registry");
    }
}

/// What the reference should consist of.
struct Model {
    registry: Option<String>,
    path: String,
    tag: Option<String>,
    digest: Option<String>,
}
impl Model {
    fn name(&self) -> String {
        let mut s = String::new();
        if let Some(r) = &self.registry {
            s.push_str(r);
            if !self.path.is_empty() {
                s.push('/');
            }
        }
        s.push_str(&self.path);
        s
    }
    fn text(&self) -> String {
        let mut s = self.name();
        if let Some(t) = &self.tag {
            s.push(':');
            s.push_str(t);
        }
        if let Some(t) = &self.digest {
            s.push('@');
            s.push_str(t);
        }
        s
    }
    fn check(&self, i: &Image) {
        let (text, name) = (self.text(), self.name());
        check(same(i.as_str(), &text), "text after edit");
        parts_are(i, &name, self.registry.as_deref(), self.tag.as_deref(), self.digest.as_deref());
        match Image::parse(text.as_str()) {
            Ok(j) => parts_are(&j, &name, self.registry.as_deref(), self.tag.as_deref(), self.digest.as_deref()),
            Err(_) => check(false, "edited reference re-parses"),
        }
    }
}
fn lnum_char() -> u8 {
    let c = sym(7) as u8;
    assume(lnum(c));
    c
}
/// A registry: 0 `a.b`, 1 `a.b:80`, 2 `abc.de-f.g:65535`
fn registry(k: usize) -> String {
    let mut v = vec![];
    v.push(lnum_char());
    v.push(b'.');
    v.push(lnum_char());
    if k == 1 {
        v.push(b':');
        let d = sym(7) as u8;
        assume(digit(d));
        v.push(d);
    }
    if k == 2 {
        v.extend_from_slice(b"-registry.example:65535");
    }
    finish(v)
}
/// A path that does not look like it starts with a registry: 0 `a`, 1 `a/b.c`, 2 `a__b/c-d/e`
fn path(k: usize) -> String {
    let mut v = vec![lnum_char()];
    if k >= 1 {
        v.push(b'/');
        v.push(lnum_char());
        v.extend_from_slice(b".c");
    }
    if k >= 2 {
        v.extend_from_slice(b"_d/e--");
        v.push(lnum_char());
    }
    finish(v)
}
fn tag_text(k: usize) -> String {
    let mut v = vec![];
    let c = sym(7) as u8;
    assume(alnum(c) | (c == b'.') | (c == b'_') | (c == b'-'));
    v.push(c);
    if k >= 1 {
        v.extend_from_slice(b"1.2-rc_3");
    }
    if k >= 2 {
        v.extend_from_slice(&[b'z'; 119]);
    }
    finish(v)
}
fn digest_text(k: usize) -> String {
    let mut v = vec![lnum_char()];
    v.push(b':');
    let c = sym(7) as u8;
    assume(alnum(c));
    v.push(c);
    if k >= 1 {
        v.extend_from_slice(b"0123456789abcdef0123456789abcdef=_-");
    }
    finish(v)
}
/// Digit `pos` (base `base`) of `v`.
fn dig(v: usize, pos: u32, base: usize) -> usize {
    (v / base.pow(pos)) % base
}
fn initial(kind: usize) -> Model {
    // kind: registry (0 none, 1.. registry(k-1)) + 4 * path + 12 * (0 none, 1.. tag, 4.. digest)
    let r = kind % 4;
    let p = (kind / 4) % 3;
    let t = kind / 12;
    Model {
        registry: if r == 0 { None } else { Some(registry(r - 1)) },
        path: path(p),
        tag: if (1..=3).contains(&t) { Some(tag_text(t - 1)) } else { None },
        digest: if t >= 4 { Some(digest_text(t - 4)) } else { None },
    }
}
/// One edit, chosen by the solver among `EDITS`; `size` picks which length its argument has.
const EDITS: usize = 11;
fn edit(m: &mut Model, i: &mut Image, size: usize) {
    match pick(EDITS) {
        0 => {
            i.set_registry(None);
            m.registry = None;
        }
        1 => {
            let r = registry(size % 3);
            i.set_registry(Some(Name::new(&r).unwrap()));
            m.registry = Some(r);
        }
        2 => {
            let p = path(size % 3);
            i.set_name(Name::new(&p).unwrap());
            m.registry = None;
            m.path = p;
        }
        3 => {
            let (r, p) = (registry((size + 1) % 3), path(size % 3));
            let n = Model { registry: Some(r.clone()), path: p.clone(), tag: None, digest: None }.name();
            i.set_name(Name::new(&n).unwrap());
            m.registry = Some(r);
            m.path = p;
        }
        4 => {
            i.set_tag(None);
            m.tag = None;
            m.digest = None;
        }
        5 => {
            let t = tag_text(size % 3);
            i.set_tag(Some(Tag::new(&t).unwrap()));
            m.tag = Some(t);
            m.digest = None;
        }
        6 => {
            i.set_digest(None);
            m.tag = None;
            m.digest = None;
        }
        7 => {
            let t = digest_text(size % 2);
            i.set_digest(Some(Digest::new(&t).unwrap()));
            m.digest = Some(t);
            m.tag = None;
        }
        8 => {
            let t = tag_text((size + 1) % 3);
            i.set_tag_or_digest(Some(TagOrDigest::Tag(Tag::new(&t).unwrap())));
            m.tag = Some(t);
            m.digest = None;
        }
        9 => {
            i.set_tag_or_digest(None);
            m.tag = None;
            m.digest = None;
        }
        _ => {
            // take apart and put together again
            let j = {
                let (n, t) = i.as_parts();
                Image::from_parts(n, t)
            };
            *i = j;
        }
    }
}

harness! {
    fn i_ref(n, mb) {
        whole(text(n, mb))
    }
    fn i_ref_tail(n) {
        let mut s = String::from("q.io:443/ab/c");
        s.push_str(&ascii(n));
        whole(s)
    }
    fn i_ref_port(n) {
        let mut s = String::from("q.io:");
        s.push_str(&ascii(n));
        s.push_str("/a");
        whole(s)
    }
    fn i_ref_digest(n, post) {
        let mut s = String::from("a@");
        s.push_str(&ascii(n));
        s.push_str(&long(b'f', post, 0, 0));
        whole(s)
    }
    fn i_ref_long_tag(pre, n) {
        let mut s = String::from("a:");
        s.push_str(&long(b'a', pre, n, 0));
        whole(s)
    }
    fn i_ref_long(pre, n, post) {
        whole(long(b'a', pre, n, post))
    }
    // `n` name parts, the one at `at` symbolic; a registry in front, a tag behind
    fn i_ref_parts(n, at, around) {
        let t = ascii(2);
        let mut s = String::new();
        if around % 2 == 1 {
            s.push_str("r.io:80/");
        }
        for j in 0..n {
            if j > 0 {
                s.push('/');
            }
            if j == at {
                s.push_str(&t);
            } else {
                s.push('p');
                s.push((b'a' + (j % 26) as u8) as char);
            }
        }
        if around > 1 {
            s.push_str(":t");
        }
        whole(s)
    }
    fn i_name(n, mb) {
        name_only(text(n, mb))
    }
    fn i_name_long(pre, n, post) {
        name_only(long(b'a', pre, n, post))
    }
    // every initial shape, then `k` edits chosen by the solver
    fn i_edit(kind, k, size) {
        let mut m = initial(kind);
        let text = m.text();
        let mut i = if fork() {
            Image::parse(text.as_str()).unwrap()
        } else {
            let name = m.name();
            let td = match (&m.tag, &m.digest) {
                (Some(t), _) => Some(Tag::new(t).unwrap().into()),
                (_, Some(d)) => Some(Digest::new(d).unwrap().into()),
                _ => None,
            };
            Image::from_parts(Name::new(&name).unwrap(), td)
        };
        m.check(&i);
        let mut n = 0;
        while n < k {
            edit(&mut m, &mut i, size + n);
            m.check(&i);
            n += 1;
        }
        reach("edited");
    }
    // taking the registry off a reference that consists of a registry only
    fn i_registry_only(k, t) {
        let r = registry(k);
        let mut m = Model { registry: Some(r), path: String::new(), tag: if t == 0 { None } else { Some(tag_text(t - 1)) }, digest: None };
        if k > 0 && t == 0 {
            return;
        }
        let mut i = Image::parse(m.text()).unwrap();
        m.check(&i);
        let r = registry(0);
        i.set_registry(Some(Name::new(&r).unwrap()));
        m.registry = Some(r);
        m.check(&i);
        let t = tag_text(0);
        i.set_tag(Some(Tag::new(&t).unwrap()));
        m.tag = Some(t);
        m.check(&i);
        let _ = names::tag;
        // there is nothing left to name the image by: it stays as it is
        i.set_registry(None);
        m.check(&i);
        reach("edited");
    }
    // a path whose next part looks like a registry, and a registry that is a whole name
    fn i_registry_arg(from, arg, t) {
        let tail = match t {
            0 => String::new(),
            1 => format!(":{}", tag_text(0)),
            _ => format!("@{}", digest_text(0)),
        };
        let w = |c: &str| format!("{}{c}{}", lnum_char() as char, lnum_char() as char);
        // (registry with its '/', the rest of the name)
        let (reg, rest) = match from {
            0 => (format!("{}/", registry(0)), format!("{}/c", w("."))),
            1 => (format!("{}/", registry(1)), w(".")),
            2 => (format!("{}/", registry(0)), format!("{}/{}", w("."), w("."))),
            3 => (String::new(), w("")),
            _ => (String::new(), format!("{}/{}", w("-"), w("."))),
        };
        let text = format!("{reg}{rest}{tail}");
        let mut i = Image::parse(text.as_str()).unwrap();
        let given = match arg {
            0 => None,
            1 => Some(w("")),
            2 => Some(format!("{}/{}", registry(0), w("."))),
            3 => Some(format!("{}/{}", w("_"), registry(0))),
            _ => Some(registry(1)),
        };
        i.set_registry(given.as_ref().map(|g| Name::new(g).unwrap()));
        let text = match &given {
            None => format!("{rest}{tail}"),
            Some(g) => format!("{g}/{rest}{tail}"),
        };
        stays(&i, &text);
        // and again
        let r = registry(0);
        i.set_registry(Some(Name::new(&r).unwrap()));
        let old = split(&text).3;
        let text = match old {
            Some(e) => format!("{r}{}", &text[e..]),
            None => format!("{r}/{text}"),
        };
        stays(&i, &text);
        reach("edited");
    }
    // a name that is a registry with a port and nothing else
    fn i_port_only(k, t) {
        let r = format!("{}:{}", registry(0), (b'0' + (sym(3) as u8)) as char);
        let n = Name::new(&r).unwrap();
        let mut i = match k {
            0 => Image::from(n),
            1 => {
                let mut i = Image::parse("a/b").unwrap();
                i.set_name(n);
                i
            }
            2 => {
                let mut i = Image::parse(format!("{r}:{}", tag_text(0))).unwrap();
                i.set_tag(None);
                i
            }
            _ => {
                let (t, d) = (tag_text(0), digest_text(0));
                let mut i = Image::parse(format!("{r}:{t}")).unwrap();
                i.set_digest(Some(Digest::new(&d).unwrap()));
                parts_are(&i, &r, Some(&r), None, Some(&d));
                check(Image::parse(i.as_str()).is_ok(), "port-only name with digest is not accepted");
                i.set_digest(None);
                i
            }
        };
        parts_are(&i, &r, Some(&r), None, None);
        check(same(i.as_str(), &r), "text after edit");
        if t == 1 {
            let g = tag_text(0);
            i.set_tag(Some(Tag::new(&g).unwrap()));
            let text = format!("{r}:{g}");
            parts_are(&i, &r, Some(&r), Some(&g), None);
            check(Image::parse(text.as_str()).as_ref() == Ok(&i), "equal to its text parsed");
        } else {
            match Image::parse(i.as_str()) {
                Ok(j) => check(opt_same(j.tag(), None), "port-only name without tag reads its port as tag"),
                Err(_) => check(false, "edited reference re-parses"),
            }
        }
        reach("edited");
    }
}
/// `i` is `text` taken apart.
fn stays(i: &Image, text: &str) {
    check(same(i.as_str(), text), "text after edit");
    let (end, tag, digest, reg) = split(text);
    let rest = if end < text.len() { &text[end + 1..] } else { "" };
    parts_are(i, &text[..end], reg.map(|e| &text[..e]), tag.then_some(rest), digest.then_some(rest));
    check(Image::parse(text).as_ref() == Ok(i), "edited reference re-parses");
}
