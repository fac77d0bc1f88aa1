//! Reading: any text, errors, stability, free layout.
use super::fmt_rt::{config, same, shown, strip};
use super::gen;
use super::sym::*;
use super::vals::exact;
use kserd::parse::{parse, Error};
use kserd::*;

/// Documents which exercise every part of the grammar.
const DOCS: [&str; 28] = [
    "(1, -2)",
    "[true, ()]",
    "a = 1\nb = 2\n",
    "<id> \"s\"",
    "b91'iU'",
    "str#a#",
    "Id (x = 1, y = [2])",
    "{ 1: 2, 3: 4 }",
    "x = (\n  1\n  2\n)\n",
    "[c]\n    :Id\n    d = 1\n",
    "[[s]]\n    a = 1\n\n[[s]]\n    5\n",
    "[[m]]\n1: 2\n[[m]]\n3:\n    a = 1\n",
    ":Name\nf = 1.5e-3\n",
    "{\n 1: [\n 2\n 3\n ]\n}",
    "n = inf\nm = -NaN",
    "A((), B(), (1,))",
    "[a]\n    [b]\n        c = 1\n    d = 2\ne = 3",
    "[f: Id]\n    a = 1\n[[g : Jd]]\n    2",
    "(\r\n\t1\r\n)\r\n",
    "(a=(b=(c=1)))",
    "  7  \n\n",
    "[[[1]]]",
    "{(1, 2): {3: 4}, [5]: ()}",
    "(\n  x = 1\n  y = <i> 2\n)",
    "[\"\u{e9}\u{5b57}\", (1, 2)]",
    "a = \"\u{1f600}\"\nb = (x = \"\u{e9}\", y = 1)\n",
    "{ \"\u{5b57}\": [1], 2: () }",
    "a = str\u{5b57}a\u{5b57}\n[c]\n    d = { \"\u{e9}\": 1 }\n",
];
fn observe_outcome(t: &str) {
    observe_text(t);
}
/// Parameter 0: what to check of a text.
fn judge(t: &str) {
    if param(0) == 3 {
        return spelled(t);
    }
    observe_outcome(t);
    if cfg!(not(kse)) && std::env::var_os("KSE_SHOW").is_some() {
        eprintln!("{:?}\n{:?}", t, parse(t));
    }
    match parse(t) {
        Ok(k) => {
            cover(1);
            match param(0) {
                0 => {
                    if !long(&k) {
                        std::mem::forget(k.as_str());
                    }
                }
                1 if !long(&k) && named(&k) => stable(&k),
                _ => {}
            }
            std::mem::forget(k);
        }
        Err(e) => {
            cover(2);
            match param(0) {
                0 => {
                    check(!e.is_empty() && e.len() > 0, 160);
                    check(!e.backtrace().is_empty(), 160);
                    check(!format!("{:?}", e).is_empty(), 160);
                }
                2 => errors(t, &e),
                _ => {}
            }
            std::mem::forget(e);
        }
    }
}
/// Numbers whose writing is the subject of other checks.
fn long(k: &Kserd) -> bool {
    match &k.val {
        Value::Num(Number::Uint(n)) => *n > 99,
        Value::Num(Number::Float(x)) => x.is_finite() && x.to_bits() != 0.0015f64.to_bits(),
        Value::Num(Number::Int(n)) => *n > 99 || *n < -99,
        Value::Tuple(x) | Value::Seq(x) => x.iter().any(long),
        Value::Cntr(x) => x.values().any(long),
        Value::Map(x) => x.iter().any(|(a, b)| long(a) || long(b)),
        _ => false,
    }
}
/// The reader takes names which do not start like names.
fn named(k: &Kserd) -> bool {
    match &k.val {
        Value::Tuple(x) | Value::Seq(x) => x.iter().all(named),
        Value::Cntr(x) => x.iter().all(|(f, v)| f.as_bytes().first().map(|b| b.is_ascii_alphabetic() || *b == b'_').unwrap_or(false) && named(v)),
        Value::Map(x) => x.iter().all(|(a, b)| named(a) && named(b)),
        _ => true,
    }
}
fn stable(k: &Kserd) {
    let c = config();
    let t = k.as_str_with_config(c);
    let want = strip(k, &|k| shown(k, &c));
    match parse(&t) {
        Ok(r) => {
            cover(3);
            check(same(&want, &r), 161);
            std::mem::forget(r);
        }
        Err(e) => {
            check(false, 162);
            std::mem::forget(e);
        }
    }
    std::mem::forget((want, t));
}
/// An independent reader of bracketed values on one line.
struct Line<'a>(&'a str);
fn name_len(s: &str) -> usize {
    let b = s.as_bytes();
    if b.is_empty() || !(b[0].is_ascii_alphabetic() || b[0] == b'_') {
        return 0;
    }
    word_len(s)
}
fn word_len(s: &str) -> usize {
    s.bytes().take_while(|b| b.is_ascii_alphanumeric() || *b == b'-' || *b == b'_').count()
}
/// A field: something like a name and an equals sign.
fn field_like(s: &str) -> bool {
    let b = s.as_bytes();
    if b.starts_with(b"str") && b.len() > 3 && !b[3].is_ascii_alphanumeric() && !b"-_= \t\r\n".contains(&b[3]) {
        return false; // the delimiter of a string
    }
    b.iter().find(|b| b"<>(){}[,='\"\r\n".contains(b)) == Some(&b'=')
}
impl<'a> Line<'a> {
    fn blank(&mut self) {
        while self.eat(b' ') || self.eat(b'\t') {}
    }
    fn eat(&mut self, c: u8) -> bool {
        let is = self.0.as_bytes().first() == Some(&c);
        if is {
            self.0 = &self.0[1..];
        }
        is
    }
    fn take(&mut self, n: usize) -> &'a str {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn value(&mut self) -> Option<Kserd<'a>> {
        let n = name_len(self.0);
        let s = &self.0[..n];
        if s == "true" || s == "false" {
            return self.plain();
        }
        let mut at = Line(&self.0[n..]);
        at.blank();
        let first = self.0.as_bytes().first();
        let mut value = match at.0.as_bytes().first() {
            Some(b'[') if first != Some(&b'<') => Value::Seq(at.items(b']', &mut |l| l.value())?),
            Some(b'{') if first != Some(&b'<') => Value::Map(at.items(b'}', &mut |l| l.entry())?.into_iter().collect()),
            Some(b'(') if first != Some(&b'<') => {
                let mut inner = Line(&at.0[1..]);
                inner.blank();
                if n == 0 && inner.0.starts_with(')') {
                    return self.plain();
                } else if field_like(inner.0) {
                    Value::Cntr(at.items(b')', &mut |l| l.field())?.into_iter().collect())
                } else {
                    Value::Tuple(at.items(b')', &mut |l| l.value())?)
                }
            }
            _ => return self.plain(),
        };
        let k = Kserd { id: if n > 0 { Some(Kstr::brwed(s)) } else { None }, val: std::mem::replace(&mut value, Value::Unit) };
        self.0 = at.0;
        Some(k)
    }
    fn items<T>(&mut self, close: u8, one: &mut dyn FnMut(&mut Line<'a>) -> Option<T>) -> Option<Vec<T>> {
        self.take(1);
        let mut v = vec![];
        self.blank();
        if self.eat(close) {
            return Some(v);
        }
        loop {
            self.blank();
            v.push(one(self)?);
            self.blank();
            if self.eat(close) {
                return Some(v);
            }
            if !self.eat(b',') {
                return None;
            }
        }
    }
    fn entry(&mut self) -> Option<(Kserd<'a>, Kserd<'a>)> {
        let k = self.value()?;
        self.blank();
        if !self.eat(b':') {
            return None;
        }
        self.blank();
        Some((k, self.value()?))
    }
    fn field(&mut self) -> Option<(Kstr<'a>, Kserd<'a>)> {
        let n = word_len(self.0);
        let f = Kstr::brwed(self.take(n));
        self.blank();
        if !self.eat(b'=') {
            return None;
        }
        self.blank();
        Some((f, self.value()?))
    }
    fn plain(&mut self) -> Option<Kserd<'a>> {
        let mut id = None;
        if self.eat(b'<') {
            let n = name_len(self.0);
            if n == 0 {
                return None;
            }
            id = Some(Kstr::brwed(self.take(n)));
            if !self.eat(b'>') {
                return None;
            }
        }
        self.blank();
        let val = if self.eat(b'(') {
            self.blank();
            if !self.eat(b')') {
                return None;
            }
            Value::Unit
        } else if self.0.starts_with("true") {
            self.take(4);
            Value::Bool(true)
        } else if self.0.starts_with("false") {
            self.take(5);
            Value::Bool(false)
        } else {
            let n = self.0.bytes().take_while(|b| b.is_ascii_digit() || b"-.einfNa".contains(b)).count();
            if let Ok(x) = self.0[..n].parse::<Number>() {
                self.take(n);
                Value::Num(x)
            } else if self.0.starts_with("b91'") {
                let n = self.0[4..].find('\'')? + 5;
                parse(self.take(n)).ok()?.val
            } else {
                if self.0.starts_with("str") {
                    self.take(3);
                } else if !self.0.starts_with('"') {
                    return None;
                }
                let d = self.0.chars().next()?;
                self.take(d.len_utf8());
                let n = self.0.find(d)?;
                let s = self.take(n);
                self.take(d.len_utf8());
                Value::Str(Kstr::brwed(s))
            }
        };
        Some(Kserd { id, val })
    }
}
/// A text on one line which is not a field or a name is read exactly when it is a value.
fn spelled(t: &str) {
    for b in t.bytes() {
        assume(b != b'\n' && b != b'\r');
    }
    let mut l = Line(t);
    l.blank();
    assume(!l.0.starts_with(':') && !field_like(l.0));
    observe_outcome(t);
    let want = match l.value() {
        Some(k) => {
            l.blank();
            if l.0.is_empty() {
                Some(k)
            } else {
                std::mem::forget(k);
                None
            }
        }
        None => None,
    };
    if cfg!(not(kse)) && std::env::var_os("KSE_SHOW").is_some() {
        eprintln!("{:?}\n{:?}\n{:?}", t, parse(t), want);
    }
    match (parse(t), want) {
        (Ok(k), Some(w)) => {
            cover(1);
            check(exact(&k, &w), 221);
            std::mem::forget((k, w));
        }
        (Ok(k), None) => {
            check(false, 222);
            std::mem::forget(k);
        }
        (Err(e), Some(w)) => {
            check(false, 223);
            std::mem::forget((e, w));
        }
        (Err(e), None) => {
            cover(2);
            std::mem::forget(e);
        }
    }
}
/// Every trace of an error points into the text.
fn errors(t: &str, e: &Error) {
    let lines: Vec<&str> = t.lines().collect();
    check(e.len() > 0 && e.get(e.len()).is_none() && e.iter().count() == e.len(), 163);
    let mut all = String::new();
    let mut last = usize::MAX;
    for (i, tr) in e.iter().enumerate() {
        check(e.get(i).as_ref() == Some(&tr), 163);
        if t.is_empty() {
            check(tr.line == 0 && tr.col == 0 && tr.linestr.is_empty(), 164);
        } else {
            check(tr.line >= 1 && tr.line <= lines.len(), 164);
            if tr.line < 1 || tr.line > lines.len() {
                return;
            }
            let l = lines[tr.line - 1];
            check(std::ptr::eq(l.as_ptr(), tr.linestr.as_ptr()) && l.len() == tr.linestr.len(), 165);
            // past the end of a line only by its line break
            let start = l.as_ptr() as usize - t.as_ptr() as usize;
            let next = if tr.line < lines.len() { lines[tr.line].as_ptr() as usize - t.as_ptr() as usize } else { t.len() + 1 };
            check(tr.col >= 1 && start + tr.col - 1 < next, 166);
            let at = start + tr.col - 1;
            check(t.is_char_boundary(at), 166);
            // what the message says is there is there
            if let Some(m) = tr.msg.strip_prefix("expected '") {
                let mut c = m.chars();
                let want = c.next().unwrap_or(' ');
                if let Some(f) = c.as_str().strip_prefix("', found '") {
                    cover(3);
                    let is = t[at..].chars().next();
                    check(f.chars().next() == is && is != Some(want) && tr.col <= l.len(), 167);
                } else {
                    cover(4);
                    check(tr.col > l.len(), 167);
                }
            }
            // outer parts start no later than what they contain
            check(at <= last, 168);
            last = at;
        }
        check(!tr.msg.is_empty(), 163);
        if i > 0 {
            all.push_str("\n\n");
        }
        all.push_str(&format!("#{}: at {}:{} :: {}\n{}\n", i, tr.line, tr.col, tr.msg, tr.linestr));
        if tr.col > 0 {
            all.extend((1..tr.col).map(|_| ' '));
            all.push('^');
        }
    }
    check(e.backtrace() == all, 169);
    std::mem::forget((all, lines));
}
/// An arbitrary text between fixed parts. Parameters: check, length, before, after.
pub fn free() {
    const BEFORE: [&str; 16] = ["", "(", "[", "{", "a = ", "x (", "[[a]]\n", "[a]\n", "{1:", "<", "str", "b91'", "a=1\n", "(\n", ":I\n", "\u{e9}"];
    const AFTER: [&str; 8] = ["", ")", "]", "}", "\n", " = 1", "\n    a = 1", "\u{e9}"];
    let mut s = match param(2) {
        16 => String::from("(\n") + &"1\n".repeat(280),
        17 => String::from("[") + &"1, ".repeat(280),
        18 => "a".repeat(280) + " = 1\nb = ",
        19 => String::from("b = \"") + &"\u{e9}".repeat(140) + "\"\nc = ",
        i => String::from(BEFORE[i]),
    };
    s.push_str(&ascii(param(1)));
    s.push_str(AFTER[param(3)]);
    judge(&s);
}
/// A document with arbitrary characters put in (how: parameter 3) at some place. Parameters: check,
/// document, length; 4: place + 1 or 0 for every place.
pub fn poke() {
    let d = DOCS[param(1)];
    let at = choice_p(4, d.len() + 1);
    assume(d.is_char_boundary(at));
    let mut s = String::from(&d[..at]);
    match param(3) {
        0 => {
            // instead of a character
            s.push_str(&ascii(param(2)));
            s.push_str(d.get(at + 1..).unwrap_or(""));
        }
        1 => {
            // in between
            s.push_str(&ascii(param(2)));
            s.push_str(&d[at..]);
        }
        2 => {
            // and nothing after
            s.push_str(&ascii(param(2)));
        }
        _ => {
            s.push_str(&wide2());
            s.push_str(&d[at..]);
        }
    }
    judge(&s);
}
/// A character of three or four bytes at some place of a document.
pub fn wide() {
    let d = DOCS[param(1)];
    let at = choice_p(4, d.len() + 1);
    assume(d.is_char_boundary(at));
    let mut s = String::from(&d[..at]);
    s.push(['\u{20ac}', '\u{2028}', '\u{1f600}', '\u{a0}', '\u{85}', '\u{feff}'][choice(6)]);
    s.push_str(&d[at..]);
    judge(&s);
}

/// Fields called something which does not start like a name.
pub fn odd_names() {
    let mut s = ascii(1);
    s.push_str("a=(b=(c=1))");
    if let Ok(k) = parse(&s) {
        stable(&k);
        std::mem::forget(k);
    }
}

// ---- free layout: an independent writer

/// Writes with gaps; one of them (chosen) is arbitrary.
struct Pen {
    t: String,
    gaps: usize,
    vary: usize,
    crlf: bool,
}
impl Pen {
    /// Spaces and tabs may stand here.
    fn gap(&mut self) {
        if self.gaps == self.vary {
            cover(2);
            for _ in 0..choice(3) {
                let b = any_bool();
                self.t.push(if b { ' ' } else { '\t' });
            }
        }
        self.gaps += 1;
    }
    fn end(&mut self) {
        if self.crlf {
            self.t.push('\r');
        }
        self.t.push('\n');
    }
    /// A line break, perhaps blank lines.
    fn line(&mut self) {
        let me = self.gaps;
        self.gap();
        if me == self.vary && flag() {
            self.end();
            if flag() {
                self.t.push(' ');
            }
        }
        self.end();
    }
    fn put(&mut self, s: &str) {
        self.t.push_str(s)
    }
    fn name(&mut self, k: &Kserd) {
        if let Some(i) = k.id() {
            self.put(i);
            self.gap();
        }
    }
    fn item(&mut self, k: &Kserd, concise: bool) {
        let (open, close) = match k.val {
            Value::Tuple(_) | Value::Cntr(_) => ("(", ")"),
            Value::Seq(_) => ("[", "]"),
            Value::Map(_) => ("{", "}"),
            _ => {
                if let Some(i) = k.id() {
                    self.put("<");
                    self.put(i);
                    self.put(">");
                    self.gap();
                }
                return match &k.val {
                    Value::Unit => {
                        self.put("(");
                        self.gap();
                        self.put(")");
                    }
                    Value::Bool(x) => self.put(if *x { "true" } else { "false" }),
                    Value::Num(Number::Uint(x)) if *x < 10 => self.t.push((b'0' + *x as u8) as char),
                    Value::Num(Number::Uint(x)) => self.put(&x.to_string()),
                    Value::Num(Number::Int(x)) => self.put(&x.to_string()),
                    Value::Num(Number::Float(x)) => self.put(&if x.is_finite() { format!("{:?}", x) } else { x.to_string() }),
                    Value::Str(s) => {
                        self.put("\"");
                        self.put(s.as_str());
                        self.put("\"");
                    }
                    _ => self.put("b91'iU'"),
                };
            }
        };
        self.name(k);
        self.put(open);
        let n = match &k.val {
            Value::Tuple(x) | Value::Seq(x) => x.len(),
            Value::Cntr(x) => x.len(),
            Value::Map(x) => x.len(),
            _ => 0,
        };
        let lines = concise && n > 0 && flag();
        for i in 0..n {
            if lines {
                self.line();
            } else if i > 0 {
                self.gap();
                self.put(",");
            }
            self.gap();
            match &k.val {
                Value::Tuple(x) | Value::Seq(x) => self.item(&x[i], lines),
                Value::Cntr(x) => {
                    let (f, v) = x.iter().nth(i).unwrap();
                    self.put(f.as_str());
                    self.gap();
                    self.put("=");
                    self.gap();
                    self.item(v, lines);
                }
                Value::Map(x) => {
                    let (f, v) = x.iter().nth(i).unwrap();
                    self.item(f, false);
                    self.gap();
                    self.put(":");
                    self.gap();
                    self.item(v, lines);
                }
                _ => {}
            }
        }
        if lines {
            self.line();
        }
        self.gap();
        self.put(close);
    }
    fn indent(&mut self, n: usize) {
        for _ in 0..n {
            if self.gaps == self.vary && flag() {
                self.put("\t");
            } else {
                self.put("    ");
            }
            self.gaps += 1;
        }
    }
    /// The spread-out form of a container.
    fn spread(&mut self, k: &Kserd, depth: usize, named: bool) {
        let f = match &k.val {
            Value::Cntr(f) => f,
            _ => return,
        };
        if let (Some(i), false) = (k.id(), named) {
            self.indent(depth);
            self.put(":");
            self.gap();
            self.put(i);
            self.line();
        }
        for (n, v) in f {
            self.indent(depth);
            match &v.val {
                Value::Cntr(c) if !c.is_empty() && flag() => {
                    let inside = v.id().is_some() && flag();
                    self.put("[");
                    self.gap();
                    self.put(n.as_str());
                    self.gap();
                    if let (Some(i), true) = (v.id(), inside) {
                        self.put(":");
                        self.gap();
                        self.put(i);
                        self.gap();
                    }
                    self.put("]");
                    self.line();
                    self.spread(v, depth + 1, inside);
                }
                Value::Seq(c) if !c.is_empty() && flag() => {
                    for (i, x) in c.iter().enumerate() {
                        if i > 0 {
                            self.indent(depth);
                        }
                        self.header(n.as_str(), v.id());
                        // an element on one line directly follows its header
                        if matches!(&x.val, Value::Cntr(c) if !c.is_empty()) {
                            self.line();
                        } else {
                            self.gap();
                            self.end();
                        }
                        self.below(x, depth);
                    }
                }
                Value::Map(c) if !c.is_empty() && flag() => {
                    for (i, (a, b)) in c.iter().enumerate() {
                        if i > 0 {
                            self.indent(depth);
                        }
                        self.header(n.as_str(), v.id());
                        self.end();
                        self.indent(depth);
                        self.item(a, false);
                        self.gap();
                        self.put(":");
                        if matches!(b.val, Value::Cntr(_)) && flag() {
                            self.line();
                            self.below(b, depth);
                        } else {
                            self.gap();
                            self.item(b, true);
                            self.line();
                        }
                    }
                }
                _ => {
                    self.put(n.as_str());
                    self.gap();
                    self.put("=");
                    self.gap();
                    self.item(v, true);
                    self.line();
                }
            }
        }
    }
    fn header(&mut self, n: &str, id: Option<&str>) {
        self.put("[[");
        self.gap();
        self.put(n);
        self.gap();
        if let Some(i) = id {
            self.put(":");
            self.gap();
            self.put(i);
            self.gap();
        }
        self.put("]]");
    }
    fn below(&mut self, x: &Kserd, depth: usize) {
        match &x.val {
            Value::Cntr(c) if !c.is_empty() => self.spread(x, depth + 1, false),
            _ => {
                self.indent(depth + 1);
                self.item(x, true);
                self.line();
            }
        }
    }
}
fn tame(k: &Kserd) -> bool {
    // a named empty tuple or container is written like a named unit
    match &k.val {
        Value::Tuple(x) | Value::Seq(x) => x.iter().all(tame),
        Value::Cntr(x) => !x.is_empty() && x.values().all(tame),
        Value::Map(x) => x.iter().all(|(a, b)| tame(a) && tame(b)),
        Value::Barr(_) => false,
        _ => true,
    }
}
/// Makes the contents of the first number or string arbitrary.
fn vary(k: &mut Kserd<'static>) -> bool {
    match &mut k.val {
        Value::Num(Number::Uint(x)) => {
            let d = byte();
            assume(d < 10);
            *x = d as u128;
            true
        }
        Value::Str(s) => {
            let t = ascii(1);
            assume(t.as_bytes()[0] != b'"' && t.as_bytes()[0] >= b' ');
            *s = Kstr::owned(t);
            true
        }
        Value::Tuple(x) | Value::Seq(x) => x.iter_mut().any(vary),
        Value::Cntr(x) => x.values_mut().any(vary),
        Value::Map(x) => x.values_mut().any(vary),
        _ => false,
    }
}
/// Parameters 0.. select the tree; 2: how it is written + 10 * (place of the varied gap, 0 for any).
pub fn layout() {
    let mut k = gen::by_params();
    assume(tame(&k));
    vary(&mut k);
    let how = param(2) % 10;
    // count the places first
    let crlf = how % 2 == 1;
    let mut p = Pen { t: String::new(), gaps: 0, vary: choice(if how < 4 { 24 } else { 1 }) + 24 * (param(2) / 10), crlf };
    if how / 2 == 0 {
        p.gap();
        p.item(&k, true);
        p.line();
    } else {
        assume(matches!(k.val, Value::Cntr(_)));
        if p.vary == 0 {
            p.line();
        }
        p.gaps = 1;
        p.spread(&k, 0, false);
    }
    observe_text(&p.t);
    if cfg!(not(kse)) && std::env::var_os("KSE_SHOW").is_some() {
        eprintln!("{:?}\n{:?}\n{:?}", p.t, k, parse(&p.t));
    }
    match parse(&p.t) {
        Ok(r) => {
            check(same(&k, &r), 170);
            cover(1);
            std::mem::forget(r);
        }
        Err(e) => {
            check(false, 171);
            std::mem::forget(e);
        }
    }
    std::mem::forget((k, p));
}
