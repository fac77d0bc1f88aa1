//! Debug forms of data and what errors say.
use super::fmt_rt::most;
use super::gen::*;
use super::sym::*;
use kserd::fmt::*;
use kserd::nav::*;
use kserd::*;

// ---- an independent writer of debug forms

fn value(v: &Value, o: &mut String) {
    let list = |o: &mut String, l: &[Kserd]| {
        for (i, x) in l.iter().enumerate() {
            if i > 0 {
                o.push_str(", ");
            }
            data(x, o);
        }
    };
    match v {
        Value::Unit => o.push_str("Unit"),
        Value::Bool(x) => o.push_str(if *x { "Bool(true)" } else { "Bool(false)" }),
        Value::Num(Number::Uint(x)) => *o += &format!("Num(Uint({}))", x),
        Value::Num(Number::Int(x)) => *o += &format!("Num(Int({}))", x),
        Value::Num(Number::Float(x)) => *o += &format!("Num(Float({:?}))", x),
        Value::Str(x) => *o += &format!("Str({:?})", x.as_str()),
        Value::Barr(x) => {
            o.push_str("Barr([");
            for (i, x) in x.as_bytes().iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                *o += &x.to_string();
            }
            o.push_str("])");
        }
        Value::Tuple(l) => {
            o.push_str("Tuple");
            if !l.is_empty() {
                o.push('(');
                list(o, l);
                o.push(')');
            }
        }
        Value::Seq(l) => {
            o.push('[');
            list(o, l);
            o.push(']');
        }
        Value::Cntr(m) => {
            o.push_str("Cntr");
            let mut sep = " { ";
            for (k, v) in m {
                o.push_str(sep);
                o.push_str(k.as_str());
                o.push_str(": ");
                data(v, o);
                sep = ", ";
            }
            if !m.is_empty() {
                o.push_str(" }");
            }
        }
        Value::Map(m) => {
            o.push('{');
            let mut sep = "";
            for (k, v) in m {
                o.push_str(sep);
                data(k, o);
                o.push_str(": ");
                data(v, o);
                sep = ", ";
            }
            o.push('}');
        }
    }
}
fn option(id: Option<&str>, o: &mut String) {
    match id {
        Some(x) => *o += &format!("Some({:?})", x),
        None => o.push_str("None"),
    }
}
fn data(k: &Kserd, o: &mut String) {
    o.push_str("Kserd { id: ");
    option(k.id(), o);
    o.push_str(", val: ");
    value(&k.val, o);
    o.push_str(" }");
}
fn shows(k: &Kserd) {
    let mut want = String::new();
    data(k, &mut want);
    let got = format!("{:?}", k);
    observe_text(&got);
    check(got == want, 230);
    let b = k.mk_brw();
    check(format!("{:?}", b) == want, 230);
    std::mem::forget((b, got, want));
}
/// Trees; parameters as for `by_params`.
pub fn tree() {
    let mut k = by_params();
    vary(&mut k);
    cover(1);
    shows(&k);
    let nav = Navigator::new(&k);
    for n in nav.nodes() {
        let mut want = String::from("Node { id: ");
        option(n.kserd().id(), &mut want);
        want.push_str(", value-type: ");
        let kind = match n.kserd().val {
            Value::Tuple(_) => "\"Tuple\"",
            Value::Cntr(_) => "\"Cntr\"",
            Value::Seq(_) => "\"Seq\"",
            Value::Map(_) => "\"Map\"",
            _ => "\"Primitive\", value: ",
        };
        want.push_str(kind);
        if kind.ends_with(' ') {
            value(&n.kserd().val, &mut want);
        }
        let parent = n.parent().map(|x| x.index());
        want += &format!(", index: {}, parent: {:?}, is_key: {}, idx_in_parent: {:?} }}", n.index(), parent, n.is_key(), n.idx_in_parent());
        check(format!("{:?}", n) == want, 231);
        std::mem::forget(want);
    }
    std::mem::forget(nav);
    std::mem::forget(k);
}
/// Arbitrary contents. Parameter 0: kind.
pub fn contents() {
    cover(1);
    let k = match param(0) {
        0 if param(2) > 0 => Kserd::new_string("0123456789".repeat(param(2)) + &ascii(param(1))),
        3 if param(2) > 0 => {
            let mut v = vec![200; param(2)];
            fill(&mut v[param(2) - 1..]);
            Kserd::new_barrv(v)
        }
        0 => Kserd::new_string(ascii(param(1))),
        1 => Kserd::new_string(wide2()),
        2 => Kserd::new(Value::Bool(any_bool())),
        3 => {
            let mut v = vec![0; param(1)];
            fill(&mut v);
            Kserd::new_barrv(v)
        }
        4 => Kserd { id: Some(Kstr::owned(ascii(param(1)))), val: Value::Unit },
        5 => Kserd::new(Value::Num(Number::Uint(byte() as u128))),
        6 => Kserd::new(Value::Num(Number::Int(byte() as i8 as i128))),
        _ => {
            let mut m = std::collections::BTreeMap::new();
            m.insert(Kstr::owned(ascii(param(1))), Kserd::new_unit());
            Kserd::new(Value::Cntr(m))
        }
    };
    shows(&k);
    std::mem::forget(k);
}

// ---- what errors say

/// A name which is not allowed is in the message. Parameters: length, kind.
pub fn names() {
    let mut s = ascii(param(0));
    if param(2) > 0 {
        s.insert_str(0, &"an_é-Long_name1".repeat(param(2)));
    }
    observe_text(&s);
    let r = match param(1) {
        0 => Kserd::with_id(s.clone(), Value::Unit).err().map(|e| {
            check(ToKserdErr::from(e.clone()).to_string() == e.to_string(), 232);
            e.to_string()
        }),
        _ => Kserd::new_cntr(vec![(s.clone(), Kserd::new_unit())]).err().map(|e| {
            check(ToKserdErr::from(e.clone()).to_string() == e.to_string(), 232);
            e.to_string()
        }),
    };
    if let Some(m) = r {
        cover(1);
        let so = match s.bytes().next() {
            _ if param(1) == 0 => m.contains(&s),
            None => m.contains("empty"),
            Some(b) if b.is_ascii_digit() && param(2) == 0 => m.contains("digit"),
            // the first character which is not allowed
            _ => m.contains(s.chars().find(|c| " /\\\"\t'".contains(*c)).unwrap_or('?')),
        };
        check(so, 232);
        std::mem::forget(m);
    }
    std::mem::forget(s);
}
/// Refused requests give a reason which is so. Parameters as for `by_params`.
pub fn requests() {
    let k = by_params();
    let mut f = Formatter::new(&k);
    if flag() {
        f.apply_config(FormattingConfig { width_limit: Some(u16()), ..Default::default() });
    }
    let n = f.len();
    let i = choice(n + 1);
    let op = choice(5);
    let over = f.get(i).and_then(|x| x.parent()).map(|p| f.fmts()[p.index()].line);
    let most = f.get(i).map(|x| most(&x));
    let r = match op {
        0 => f.inline(i),
        1 => f.concise(i),
        2 => f.verbose(i),
        _ => f.id(i, op == 3),
    };
    if let Err(e) = r {
        cover(1);
        let asked = [Repr::Inline, Repr::Concise, Repr::Verbose][op.min(2)];
        let name = |r: Repr| ["inline", "concise", "verbose"][r as usize];
        let m = e.to_string();
        check(!m.is_empty(), 233);
        let so = match e {
            FmtError::IdxOutOfBounds => i == n,
            FmtError::ParentIsInline => over == Some(Repr::Inline) && asked > Repr::Inline && m.contains("inline"),
            FmtError::ParentIsConcise => over == Some(Repr::Concise) && asked > Repr::Concise && m.contains("concise"),
            FmtError::RequestTooHigh(max, req) => {
                cover(2);
                most.map_or(false, |x| x < asked && max == name(x)) && req == name(asked) && m.contains(max) && m.contains(req)
            }
            FmtError::SeqMapAtRoot => i == 0 && asked == Repr::Verbose && matches!(k.val, Value::Seq(_) | Value::Map(_)),
        };
        check(so, 233);
    }
    std::mem::forget(f);
    std::mem::forget(k);
}
