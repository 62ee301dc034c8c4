//! Bridges between the reference value and the bencode values under test.
use crate::refs::RVal;
use bencode::{Value, ValueRef};
use std::collections::BTreeMap;

pub fn to_value(v: &RVal) -> Value {
    match v {
        RVal::Int(n) => Value::with_int(*n),
        RVal::Str(s) => match std::str::from_utf8(s) {
            Ok(t) if s.len() % 3 == 0 => Value::with_str(t),
            Ok(t) if s.len() % 3 == 1 => Value::with_string(t.to_string()),
            _ if s.len() % 2 == 0 => Value::from(s.clone()),
            _ => Value::from(&s[..]),
        },
        RVal::List(l) => Value::with_list(l.iter().map(to_value).collect()),
        RVal::Dict(d) => Value::with_dict(d.iter().map(|(k, v)| (k.clone(), to_value(v))).collect::<BTreeMap<_, _>>()),
    }
}
pub fn to_ref(v: &RVal) -> ValueRef<'_> {
    match v {
        RVal::Int(n) => ValueRef::with_int(*n),
        RVal::Str(s) => match std::str::from_utf8(s) {
            Ok(t) if s.len() % 2 == 0 => ValueRef::with_str(t),
            _ => ValueRef::from(&s[..]),
        },
        RVal::List(l) => ValueRef::with_list(l.iter().map(to_ref).collect()),
        RVal::Dict(d) => ValueRef::with_dict(d.iter().map(|(k, v)| (&k[..], to_ref(v))).collect()),
    }
}
/// Compares by the public variants, not by the code's own equality.
pub fn same(a: &Value, b: &RVal) -> bool {
    match (a, b) {
        (Value::Int(x), RVal::Int(y)) => x == y,
        (Value::Bytes(x), RVal::Str(y)) => x == y,
        (Value::List(x), RVal::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (Value::Dict(x), RVal::Dict(y)) => x.len() == y.len() && x.iter().zip(y).all(|((j, x), (k, y))| j == k && same(x, y)),
        _ => false,
    }
}
pub fn same_ref(a: &ValueRef, b: &RVal) -> bool {
    match (a, b) {
        (ValueRef::Int(x), RVal::Int(y)) => x == y,
        (ValueRef::Bytes(x), RVal::Str(y)) => *x == &y[..],
        (ValueRef::List(x), RVal::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same_ref(x, y)),
        (ValueRef::Dict(x), RVal::Dict(y)) => x.len() == y.len() && x.iter().zip(y).all(|((j, x), (k, y))| *j == &k[..] && same_ref(x, y)),
        _ => false,
    }
}
pub fn from_value(a: &Value) -> RVal {
    match a {
        Value::Int(x) => RVal::Int(*x),
        Value::Bytes(x) => RVal::Str(x.clone()),
        Value::List(x) => RVal::List(x.iter().map(from_value).collect()),
        Value::Dict(x) => RVal::Dict(x.iter().map(|(k, v)| (k.clone(), from_value(v))).collect()),
    }
}
