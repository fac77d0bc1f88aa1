//! Formatting: text read back, shown names, widths, explicit requests.
use super::gen::*;
use super::sym::*;
use kserd::fmt::*;
use kserd::nav::*;
use kserd::*;

fn hollow(k: &Kserd) -> bool {
    match &k.val {
        Value::Unit => true,
        Value::Tuple(x) => x.is_empty(),
        Value::Cntr(x) => x.is_empty(),
        _ => false,
    }
}
/// Same structure, content and names; the unit, an empty tuple and an empty container share one
/// written form and count as the same.
pub fn same(a: &Kserd, b: &Kserd) -> bool {
    if a.id() != b.id() {
        return false;
    }
    let list = |x: &Vec<Kserd>, y: &Vec<Kserd>| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q));
    match (&a.val, &b.val) {
        _ if hollow(a) && hollow(b) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::Num(x), Value::Num(y)) => same_num(*x, *y),
        (Value::Str(x), Value::Str(y)) => x.as_bytes() == y.as_bytes(),
        (Value::Barr(x), Value::Barr(y)) => x.as_bytes() == y.as_bytes(),
        (Value::Tuple(x), Value::Tuple(y)) => list(x, y),
        (Value::Seq(x), Value::Seq(y)) => list(x, y),
        (Value::Cntr(x), Value::Cntr(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0.as_bytes() == q.0.as_bytes() && same(p.1, q.1))
        }
        (Value::Map(x), Value::Map(y)) => {
            x.len() == y.len() && x.iter().all(|p| y.iter().any(|q| same(p.0, q.0) && same(p.1, q.1)))
        }
        _ => false,
    }
}
/// Numerically the same number, decided without the library's own comparison.
pub fn same_num(a: Number, b: Number) -> bool {
    use Number::*;
    fn int(f: f64) -> Option<i128> {
        // every float with magnitude below 2^100 which is integral
        if f.abs() < 1.2676506002282294e30 && f as i128 as f64 == f {
            Some(f as i128)
        } else {
            None
        }
    }
    match (a, b) {
        (Uint(x), Uint(y)) => x == y,
        (Int(x), Int(y)) => x == y,
        (Uint(x), Int(y)) | (Int(y), Uint(x)) => y >= 0 && y as u128 == x,
        (Float(x), Float(y)) => x == y || (x.is_nan() && y.is_nan()),
        (Float(x), Int(y)) | (Int(y), Float(x)) => int(x) == Some(y),
        (Float(x), Uint(y)) | (Uint(y), Float(x)) => y < 1 << 120 && int(x) == Some(y as i128),
    }
}
/// A copy which keeps a name only where `show` says so; units always show theirs.
pub fn strip<'a>(a: &Kserd<'a>, show: &dyn Fn(&Kserd) -> bool) -> Kserd<'a> {
    let val = match &a.val {
        Value::Tuple(x) => Value::Tuple(x.iter().map(|x| strip(x, show)).collect()),
        Value::Seq(x) => Value::Seq(x.iter().map(|x| strip(x, show)).collect()),
        Value::Cntr(x) => Value::Cntr(x.iter().map(|(n, x)| (n.clone(), strip(x, show))).collect()),
        Value::Map(x) => Value::Map(x.iter().map(|(k, x)| (strip(k, show), strip(x, show))).collect()),
        x => x.clone(),
    };
    let keep = a.id.is_some() && (matches!(val, Value::Unit) || show(a));
    Kserd { id: if keep { a.id.clone() } else { None }, val }
}
pub fn shown(k: &Kserd, c: &FormattingConfig) -> bool {
    match k.val {
        Value::Tuple(_) => c.id_on_tuples,
        Value::Cntr(_) => c.id_on_containers,
        Value::Seq(_) => c.id_on_seqs,
        Value::Map(_) => c.id_on_maps,
        _ => c.id_on_primitives,
    }
}

/// Every formatting configuration; undecided until the formatter looks.
pub fn config() -> FormattingConfig {
    let (a, b, c, d, e) = (any_bool(), any_bool(), any_bool(), any_bool(), any_bool());
    FormattingConfig {
        id_on_primitives: a,
        id_on_tuples: b,
        id_on_containers: c,
        id_on_seqs: d,
        id_on_maps: e,
        width_limit: if flag() { Some(u16()) } else { None },
    }
}

fn reads_back(k: &Kserd, t: &str) {
    show(k, t);
    observe_text(t);
    match parse::parse(t) {
        Ok(r) => {
            check(same(k, &r), 1);
            std::mem::forget(r);
        }
        Err(e) => {
            check(false, 2);
            std::mem::forget(e);
        }
    }
}

/// Trees of a family under every configuration.
pub fn tree() {
    let mut k = by_params();
    vary(&mut k);
    let cfg = config();
    let t = k.as_str_with_config(cfg);
    cover(1);
    let want = strip(&k, &|k| shown(k, &cfg));
    reads_back(&want, &t);
    if t.contains('\n') {
        cover(2);
    }
    std::mem::forget((k, want, t));
}

fn place(k: Kserd<'static>, i: usize) -> Kserd<'static> {
    let n = Kserd::new_num(1u8);
    match i {
        0 => k,
        1 => Kserd::new(Value::Tuple(vec![k])),
        2 => Kserd::new(Value::new_cntr(vec![("a", k)]).unwrap()),
        3 => Kserd::new(Value::Seq(vec![k])),
        4 => Kserd::new_map(vec![(Kserd::new(Value::Unit), k)]),
        5 => Kserd::new_map(vec![(k, Kserd::new(Value::Unit))]),
        6 => Kserd::new(Value::Tuple(vec![n, k])),
        7 => Kserd::new(Value::new_cntr(vec![("a", Kserd::new(Value::Seq(vec![k])))]).unwrap()),
        8 => Kserd::new(Value::new_cntr(vec![("a", Kserd::new_map(vec![(k, n)]))]).unwrap()),
        _ => Kserd::new(Value::new_cntr(vec![("a", Kserd::new_map(vec![(n, k)]))]).unwrap()),
    }
}
fn limit(p: u32) -> Option<u16> {
    match param(p) {
        0 => None,
        n => Some(n as u16 - 1),
    }
}

const PUNCT: &str = "\"'#`=|*^!%~&_\\/:<>()$+,-.;?@[]{}";

/// String content. Parameters: length, position, width limit + 1, alphabet.
pub fn strings() {
    let s = match param(3) {
        0 => ascii(param(0)),
        // a run of every delimiter candidate, two arbitrary characters in it
        1 => {
            let mut s = ascii(1);
            s.push_str("\"'#`=|*^!%~&_\\/:<>()");
            s.push_str(&ascii(param(0)));
            s
        }
        2 => {
            let mut s = wide2();
            s.push_str(&ascii(param(0)));
            s
        }
        // a long line, and texts which look like something else, with an arbitrary character in them
        5 => {
            let d = choice(param(0).max(1) * 3);
            let a = [0, 40, 70][d % 3];
            let mut s: String = "the quick brown fox jumps over the lazy dog and then all over it again, "[..a].to_string();
            s.push_str(&ascii(1));
            s.push_str(&"the quick brown fox jumps over the lazy dog and then all over it again, "[a..]);
            s
        }
        6 => {
            const LIKE: [&str; 16] = ["true", "false", "1.5", "()", "[[a]]", "[a]", "a = 1", ":A", "<a> 1", "str'a'", "b91'a'", "{1: 2}", "inf", "(a", "a)\n", "\r\n    b = 2\n"];
            let l = LIKE[choice(16)];
            let mut s = String::new();
            if param(0) > 0 && flag() {
                s.push_str(&ascii(1));
                s.push_str(l);
            } else {
                s.push_str(l);
                s.push_str(&ascii(1));
            }
            s
        }
        // a character of three or four bytes, and an arbitrary one
        7 => {
            let mut s = wide3();
            s.push_str(&ascii(param(0)));
            s
        }
        8 => {
            let mut s = ascii(param(0));
            s.push_str(&wide4());
            s
        }
        // long texts with an arbitrary character at the start, inside or at the end
        n if n > 8 => {
            let mut s = "lorem ipsum-dolor_sit (amet) ".repeat(n);
            let a = [0, s.len() / 2, s.len()][choice(3)];
            s.insert_str(a, &ascii(1));
            s
        }
        // every punctuation character but one, or the first few of them, and arbitrary characters
        n => {
            let c = choice(PUNCT.len());
            let mut s: String = if n == 3 { PUNCT.chars().enumerate().filter(|x| x.0 != c).map(|x| x.1).collect() } else { PUNCT[..c].to_string() };
            s.push_str(&ascii(param(0)));
            s
        }
    };
    let k = place(Kserd::new(Value::new_string(s)), param(1));
    let cfg = FormattingConfig { width_limit: limit(2), ..Default::default() };
    let t = k.as_str_with_config(cfg);
    cover(1);
    reads_back(&strip(&k, &|k| shown(k, &cfg)), &t);
}

/// Byte arrays. Parameters: number of arbitrary bytes, position, width limit + 1, number of fixed bytes.
pub fn barrs() {
    let mut v: Vec<u8> = (0..param(3)).map(|i| (i * 89 + 7) as u8).collect();
    let at = match param(3) {
        0 => 0,
        n if n > 100 => [0, n / 2, n - 1][choice(3)],
        n => choice(n + 1),
    };
    let mut w = vec![0u8; param(0)];
    fill(&mut w);
    v.splice(at..at, w);
    let k = place(Kserd::new(Value::new_barrv(v)), param(1));
    let cfg = FormattingConfig { width_limit: limit(2), ..Default::default() };
    let t = k.as_str_with_config(cfg);
    cover(1);
    reads_back(&strip(&k, &|k| shown(k, &cfg)), &t);
}

fn name(n: usize, start: bool) -> String {
    let s = ascii(n);
    let mut ok = true;
    for (i, b) in s.bytes().enumerate() {
        let alpha = (b'a'..=b'z').contains(&(b | 0x20)) | (b == b'_');
        ok &= alpha | ((!start | (i > 0)) & ((b'0'..=b'9').contains(&b) | (b == b'-')));
    }
    assume(ok);
    s
}

const LONG: &str = "a_name-of_more_than-256_characters_which_goes-on_and_on_and_on_and_on_and_on_and-on_and_on_and_on_and_on_and_on_and_on_and-on_and_on_and_on_and_on_and_on_and_on_and-on_and_on_and_on_and_on_and_on_and_on_and-on_and_on_and_on_and_on_and_on_and_on_until-it_ends_here_at_last-";
/// Names and field names. Parameters: length, position, width limit + 1, prefix.
pub fn names() {
    let prefix = ["", "true", "false", "str", "b91", "inf", "NaN", "A_rather-long-Name_with-99-parts_of_many-words", "e1", "_", "x-", LONG][param(3)];
    let s = if prefix.is_empty() { name(param(0), true) } else { format!("{}{}", prefix, name(param(0), false)) };
    let n = || Kserd::new_num(1u8);
    let id = |s: String, v| Kserd::with_id(s, v).unwrap();
    let cntr = |s: String, v| Kserd::new(Value::new_cntr(vec![(s, v)]).unwrap());
    let k = match param(1) {
        0 => id(s, Value::Unit),
        1 => id(s, Value::Bool(true)),
        2 => id(s, Value::Tuple(vec![n()])),
        3 => id(s, Value::new_cntr(vec![("a", n())]).unwrap()),
        4 => id(s, Value::Seq(vec![n()])),
        5 => id(s, Value::new_map(vec![(n(), n())])),
        6 => cntr(s, n()),
        7 => cntr(s, Kserd::new(Value::new_cntr(vec![("a", n())]).unwrap())),
        8 => cntr(s, Kserd::new(Value::Seq(vec![n()]))),
        9 => cntr(s, Kserd::new_map(vec![(n(), n())])),
        10 => cntr("a".into(), id(s, Value::new_cntr(vec![("b", n())]).unwrap())),
        11 => cntr("a".into(), id(s, Value::Seq(vec![n()]))),
        12 => cntr("a".into(), id(s, Value::new_map(vec![(n(), n())]))),
        _ => Kserd::new(Value::Tuple(vec![n(), id(s, Value::Tuple(vec![]))])),
    };
    let cfg = FormattingConfig {
        id_on_primitives: true,
        id_on_tuples: true,
        id_on_containers: true,
        id_on_seqs: true,
        id_on_maps: true,
        width_limit: limit(2),
    };
    let t = k.as_str_with_config(cfg);
    cover(1);
    reads_back(&k, &t);
}

fn depth_ok(f: &Formatter) -> bool {
    f.nodes().all(|n| n.parent().map_or(true, |p| f.fmts()[n.index()].line <= f.fmts()[p.index()].line))
}

/// The most a node may be spread out.
pub fn most(n: &kserd::nav::Node) -> Repr {
    let full = match &n.kserd().val {
        Value::Tuple(x) | Value::Seq(x) => !x.is_empty(),
        Value::Cntr(x) => !x.is_empty(),
        Value::Map(x) => !x.is_empty(),
        _ => false,
    };
    let field = n.parent().map_or(false, |p| matches!(p.kserd().val, Value::Cntr(_)));
    match &n.kserd().val {
        _ if !full => Repr::Inline,
        _ if n.is_key() => Repr::Concise,
        Value::Tuple(_) => Repr::Concise,
        Value::Cntr(_) => Repr::Verbose,
        _ if field => Repr::Verbose,
        _ => Repr::Concise,
    }
}
/// A history of explicit requests. Parameters as `tree`, then 2: number of requests.
pub fn requests() {
    let k = by_params();
    let mut f = Formatter::new(&k);
    if flag() {
        f.apply_config(FormattingConfig { width_limit: Some(u16()), ..Default::default() });
    }
    let n = f.len();
    check(f.fmts().len() == n, 10);
    check(depth_ok(&f), 11);
    let most: Vec<Repr> = f.nodes().map(|n| most(&n)).collect();
    for _ in 0..param(2) {
        let before = f.fmts().to_vec();
        let i = choice(n + 1);
        let op = choice(5);
        let r = match op {
            0 => f.inline(i),
            1 => f.concise(i),
            2 => f.verbose(i),
            3 => f.id(i, true),
            _ => f.id(i, false),
        };
        let want = [Repr::Inline, Repr::Concise, Repr::Verbose];
        let now = f.fmts();
        check(now.len() == n, 10);
        if i < n && op < 3 {
            let over = f.get(i).unwrap().parent().map_or(Repr::Verbose, |p| before[p.index()].line);
            check(r.is_ok() == (want[op] <= most[i] && want[op] <= over), 16);
        }
        if r.is_err() {
            cover(3);
            check(now == &before[..], 12); // refused: nothing changes
            check(i == n || (op == 1) | (op == 2), 13); // names and inline are never refused
        } else {
            cover(4);
            check(i < n, 14);
            let below: Vec<usize> = f.get(i).unwrap().descendants_depth().iter().map(|d| d.index()).collect();
            for j in 0..n {
                let (mut id, mut line) = (before[j].id, before[j].line);
                if op < 3 {
                    if j == i {
                        line = want[op];
                    } else if below.contains(&j) && want[op] < line {
                        line = want[op];
                    }
                } else if j == i {
                    id = op == 3;
                }
                check((now[j].id == id) & (now[j].line == line), 15);
            }
        }
        check(depth_ok(&f), 11);
        std::mem::forget((before, r));
    }
    let t = f.write_string(String::new());
    cover(1);
    let idx: Vec<(*const Kserd, bool)> = f.nodes().map(|n| (n.kserd() as *const _ as *const Kserd, f.fmts()[n.index()].id)).collect();
    let want = strip(&k, &|k| idx.iter().find(|x| x.0 == k as *const _ as *const Kserd).map_or(true, |x| x.1));
    reads_back(&want, &t);
    std::mem::forget(idx);
}

/// Width limits. Parameters as `tree`.
pub fn widths() {
    let k = by_params();
    let mut cfg = config();
    cfg.width_limit = None;
    let one = k.as_str_with_config(cfg);
    check(!one.contains('\n'), 20);
    let w = u16();
    cfg.width_limit = Some(w);
    let t = k.as_str_with_config(cfg);
    observe_text(&t);
    // one line exactly when that line fits
    let fits = one.chars().count() <= w as usize;
    let solid = match &k.val {
        Value::Tuple(x) | Value::Seq(x) => !x.is_empty(),
        Value::Cntr(x) => !x.is_empty(),
        Value::Map(x) => !x.is_empty(),
        _ => false,
    };
    if t.contains('\n') {
        cover(2);
        check(!fits, 21);
    } else {
        cover(1);
        check(t == one, 22);
        check(fits | !solid, 23);
    }
    std::mem::forget((k, one, t));
}

#[cfg(not(kse))]
pub fn show(k: &Kserd, t: &str) {
    if std::env::var_os("KSE_SHOW").is_some() {
        eprintln!("{:?}\n---\n{}\n---", k, t);
    }
}
#[cfg(kse)]
pub fn show(_: &Kserd, _: &str) {}
