use bencode::{Error, Value, ValueRef};
use std::io;
use vpmon::alloc;
use vpmon::model::*;
use vpmon::refs::{self, *};

use vpmon::*;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn describe(v: &RVal) -> String {
    let mut s = show(&encoded(v));
    s.insert_str(0, "value ");
    s
}

fn note_val(c: &mut Case, v: &RVal) {
    let b = encoded(v);
    c.nontrivial(&b);
    c.max("encoded_len", b.len() as u64);
    match v {
        RVal::Int(_) => c.count("top_int"),
        RVal::Str(s) if s.is_empty() => c.count("top_empty_str"),
        RVal::Str(_) => c.count("top_str"),
        RVal::List(_) => c.count("top_list"),
        RVal::Dict(_) => c.count("top_dict"),
    }
    let t = v.clone();
    c.sample(|| describe(&t));
    c.note(|| describe(&t));
}

// ------------------------------------------------------------------ sizes
/// A value of one shape and an interesting size.
fn large(c: &mut Case) -> RVal {
    large_below(c, 135_000)
}
fn large_below(c: &mut Case, deepest: usize) -> RVal {
    const SHAPES: usize = 8;
    let (shape, k) = (c.idx as usize % SHAPES, c.idx as usize / SHAPES);
    let cap = if c.g.scale == 0 { 40 } else { match shape { 0 | 4 => 2_200_000, 1 | 5 => 1_100_000, 3 => deepest, _ => 135_000 } };
    let n = c.g.sweep(k, 20, cap);
    let salt = c.g.u64();
    c.note(|| format!("shape {} of size {}", shape, n));
    c.max("size", n as u64);
    c.count("large");
    c.nontrivial(format!("{} {}", shape, n).as_bytes());
    match shape {
        0 => RVal::Str((0..n).map(|k| (mix(k as u64 / 8 ^ salt) >> (k % 8 * 8)) as u8).collect()),
        1 => RVal::List((0..n).map(|k| RVal::Int(mix(k as u64) as i64 >> (salt % 60))).collect()),
        2 => dict_sort((0..n).map(|k| (format!("{:x}", mix(k as u64) >> 20), RVal::Int(k as i64))).collect()),
        3 => (0..n).fold(RVal::Int(7), |v, k| if salt >> (k % 64) & 1 == 1 { RVal::List(vec![v]) } else { RVal::Dict(vec![("k".into(), v)]) }),
        4 => RVal::Dict(vec![("a".into(), RVal::Int(1)), ("b".repeat(n), RVal::Int(2)), ("c".into(), RVal::Str(vec![]))]),
        5 => RVal::List((0..n).map(|k| match (k as u64 ^ salt) % 4 { 0 => RVal::Str(vec![]), 1 => RVal::List(vec![]), 2 => RVal::Dict(vec![]), _ => RVal::Str(vec![k as u8]) }).collect()),
        6 => RVal::List((0..n).map(|k| RVal::Dict(vec![("id".into(), RVal::Int(k as i64))])).collect()),
        // strings and lists of that size below others
        _ => RVal::List(vec![
            RVal::Str(vec![b'e'; n]),
            RVal::List(vec![RVal::List((0..n).map(|k| RVal::Int(k as i64)).collect()), RVal::Int(-1)]),
            RVal::Dict(vec![("x".into(), RVal::Str(vec![0; n])), ("y".into(), RVal::Int(1))]),
        ]),
    }
}
fn b01_large(c: &mut Case) -> R {
    let v = large(c);
    round_trip(c, &v)
}
fn b02_large(c: &mut Case) -> R {
    let v = large(c);
    let want = encoded(&v);
    let o = to_value(&v);
    let got = sut("Value::to_vec", || o.to_vec())?;
    ensure!(got == want, "owned encoding of {} is not canonical", show(&want));
    let mut got = vec![];
    sut("Value::encode", || o.encode(&mut got))?.map_err(|e| e.to_string())?;
    ensure!(got == want, "owned stream encoding of {} is not canonical", show(&want));
    ensure!(sut("Value Display", || o.to_string())?.as_bytes() == String::from_utf8_lossy(&want).as_bytes(), "owned display of {} is not canonical", show(&want));
    let r = to_ref(&v);
    let got = sut("ValueRef::to_vec", || r.to_vec())?;
    ensure!(got == want, "borrowed encoding of {} is not canonical", show(&want));
    ensure!(sut("ValueRef Display", || r.to_string())?.as_bytes() == String::from_utf8_lossy(&want).as_bytes(), "borrowed display of {} is not canonical", show(&want));
    let x = sut("ValueRef::decode", || ValueRef::decode(&want))?.map_err(|e| format!("canonical {} is rejected: {}", show(&want), e))?;
    ensure!(sut("ValueRef::to_vec", || x.to_vec())? == want, "re-encoding of {} differs", show(&want));
    Ok(())
}
fn b03_large(c: &mut Case) -> R {
    let v = large(c);
    let mut doc = encoded(&v);
    check_doc(c, &doc)?;
    match c.g.below(4) {
        0 => doc.push(b'e'),
        1 => { doc.pop(); }
        2 => { let k = c.g.below(doc.len()); doc.truncate(k) }
        _ => mutate(&mut c.g, &mut doc),
    }
    check_doc(c, &doc)?;
    // long runs of zeros and digits
    let n = c.g.sweep(c.idx as usize, 20, if c.g.scale == 0 { 40 } else { 70_000 });
    let zeros = vec![b'0'; n];
    for d in [
        [b"i", &zeros[..], b"42e"].concat(), [b"i-", &zeros[..], b"7e"].concat(), [&zeros[..], b"3:abc"].concat(), [b"i1", &zeros[..], b"e"].concat(),
        [b"d", &zeros[..], b"1:ai5ee"].concat(), [&b"1"[..], &zeros, b":abc"].concat(),
    ] {
        check_doc(c, &d)?;
        c.eval();
    }
    Ok(())
}
fn b04_large(c: &mut Case) -> R {
    let v = large(c);
    let doc = encoded(&v);
    let (_, e) = decode(&doc).unwrap();
    let (depth, items) = (e.iter().map(|x| x.depth).max().unwrap(), e.len() - 1);
    representations(c, &doc, None, None)?;
    let (d, n) = (some_limit(c, depth), some_limit(c, items));
    representations(c, &doc, d, n)
}
fn b05_large(c: &mut Case) -> R {
    let v = large(c);
    let doc = encoded(&v);
    let (v, e) = decode(&doc).unwrap();
    let depth = e.iter().map(|x| x.depth).max().unwrap();
    let items = e.len() - 1;
    // around what the document has, and around the size it was made for
    let n = c.g.sweep(c.idx as usize / 8, 20, 2_200_000);
    for l in [items, items.saturating_sub(1), n, n.saturating_sub(1)] {
        check_limits(c, &doc, &v, &e, None, Some(l))?;
    }
    for l in [depth, depth.saturating_sub(1), n] {
        check_limits(c, &doc, &v, &e, Some(l), None)?;
    }
    check_limits(c, &doc, &v, &e, Some(depth), Some(items))
}
fn b06_large(c: &mut Case) -> R {
    let v = large(c);
    let doc = encoded(&v);
    drop(v);
    operate(c, &doc, (None, None))
}
fn b07_large(c: &mut Case) -> R {
    // each level is copied several times
    let v = large_below(c, 300);
    let x = to_value(&v);
    sut("an accessor of Value", || acc_value(c, &x, &v))??;
    let y = to_ref(&v);
    sut("an accessor of ValueRef", || acc_ref(c, &y, &v))?
}
fn b08_large(c: &mut Case) -> R {
    let v = large(c);
    let n = encoded(&v).len();
    for borrowed in [false, true] {
        faulty(c, &v, borrowed, Fault::None)?;
        for at in [c.g.below(n), c.g.below(n), n - 1, (c.g.sweep(c.idx as usize / 8, 20, 2_200_000)).min(n - 1)] {
            let k = *c.g.pick(KINDS);
            faulty(c, &v, borrowed, Fault::Err(at, k))?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ B01
fn round_trip(c: &mut Case, v: &RVal) -> R {
    note_val(c, v);
    let o = to_value(v);
    let mut enc = vec![];
    sut("Value::encode", || o.encode(&mut enc))?.map_err(|e| format!("Value::encode into a vector failed: {}", e))?;
    let back = sut("Value::decode", || Value::decode(&enc))?;
    match &back {
        Ok(b) => {
            ensure!(same(b, v), "owned value changed by encode and decode: {} became {}", show(&enc), show(&encoded(&from_value(b))));
            ensure!(*b == o, "decoded owned value is not equal (==) to the original: {}", show(&enc));
        }
        Err(e) => return Err(format!("own encoding {} is not decodable: {}", show(&enc), e)),
    }
    if let Ok(s) = std::str::from_utf8(&enc) {
        let p = sut("Value::from_str", || s.parse::<Value>())?;
        ensure!(matches!(&p, Ok(b) if same(b, v)), "parsing the text {} gives {:?}", show(&enc), p.map(|b| encoded(&from_value(&b))));
        c.count("parsed_as_text");
    }
    let r = to_ref(v);
    let mut enc = vec![];
    sut("ValueRef::encode", || r.encode(&mut enc))?.map_err(|e| format!("ValueRef::encode into a vector failed: {}", e))?;
    let back = sut("ValueRef::decode", || ValueRef::decode(&enc))?;
    match &back {
        Ok(b) => {
            ensure!(same_ref(b, v), "borrowed value changed by encode and decode: {}", show(&enc));
            ensure!(*b == r, "decoded borrowed value is not equal (==) to the original: {}", show(&enc));
        }
        Err(e) => return Err(format!("own encoding {} of a borrowed value is not decodable: {}", show(&enc), e)),
    }
    Ok(())
}
fn b01(c: &mut Case) -> R {
    let v = gen_value(&mut c.g);
    round_trip(c, &v)
}
/// every length and count around boundaries, every kind of nesting
fn b01_sweep(c: &mut Case) -> R {
    let i = c.idx as usize;
    // string lengths 0..600 then powers of 2 and 10
    let n = if i < 600 { i } else { let k = i - 600; [(1usize << (k % 18)) + 1 - (k / 18 % 3).min(1 << (k % 18)), 10usize.pow((k % 6) as u32) + 1 - (k / 6 % 3).min(1)][k % 2] };
    let s = match c.g.below(4) { 0 => vec![b'x'; n], 1 => c.g.bytes(n), 2 => (0..n).map(|k| k as u8).collect(), _ => c.g.text(n).bytes().take(n).collect() };
    round_trip(c, &RVal::Str(s.clone()))?;
    let m = n.min(if c.g.scale == 0 { 8 } else { 3000 });
    round_trip(c, &RVal::List((0..m).map(|k| RVal::Int(k as i64 - 5)).collect()))?;
    let d = dict_sort((0..m).map(|k| (format!("{}", mix(k as u64) % 5000), RVal::Int(k as i64))).collect());
    round_trip(c, &d)?;
    let x = c.g.int();
    round_trip(c, &RVal::Int(x))?;
    round_trip(c, &RVal::Dict(vec![(String::from_utf8_lossy(&s).into_owned(), RVal::Str(vec![]))]))
}
fn b01_ints(c: &mut Case) -> R {
    // all boundary integers: +-(2^k + d), +-(10^k + d), +-(all prefixes of 9s and 1s)
    let k = c.idx as u32;
    for d in -3i128..=3 {
        for base in [1i128 << (k % 64), 10i128.pow(k % 19), (10i128.pow(k % 19) - 1) / 9, i128::from(k), i128::from(c.g.u64() >> (k % 64))] {
            for s in [1, -1] {
                let n = s * (base + d);
                if n >= i64::MIN as i128 && n <= i64::MAX as i128 {
                    let n = n as i64;
                    let e = sut("to_vec", || Value::with_int(n).to_vec())?;
                    c.eval();
                    let b = sut("decode", || Value::decode(&e))?;
                    ensure!(matches!(b, Ok(Value::Int(m)) if m == n), "integer {} round trips to {:?} through {}", n, b, show(&e));
                    let b = sut("decode", || ValueRef::decode(&e))?;
                    ensure!(matches!(b, Ok(ValueRef::Int(m)) if m == n), "integer {} round trips to {:?} through {}", n, b, show(&e));
                    c.nontrivial(&e);
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ B02
fn b02(c: &mut Case) -> R {
    let v = gen_value(&mut c.g);
    note_val(c, &v);
    let want = encoded(&v);
    let o = to_value(&v);
    let got = sut("Value::to_vec", || o.to_vec())?;
    ensure!(got == want, "owned encoding is {} but the canonical form is {}", show(&got), show(&want));
    let mut got = vec![];
    sut("Value::encode", || o.encode(&mut got))?.map_err(|e| e.to_string())?;
    ensure!(got == want, "owned stream encoding is {} but the canonical form is {}", show(&got), show(&want));
    let text = sut("Value Display", || o.to_string())?;
    ensure!(text == String::from_utf8_lossy(&want), "owned display is {} but the canonical form is {}", show(text.as_bytes()), show(&want));
    let r = to_ref(&v);
    let got = sut("ValueRef::to_vec", || r.to_vec())?;
    ensure!(got == want, "borrowed encoding is {} but the canonical form is {}", show(&got), show(&want));
    let mut got = vec![];
    sut("ValueRef::encode", || r.encode(&mut got))?.map_err(|e| e.to_string())?;
    ensure!(got == want, "borrowed stream encoding is {} but the canonical form is {}", show(&got), show(&want));
    let text = sut("ValueRef Display", || r.to_string())?;
    ensure!(text == String::from_utf8_lossy(&want), "borrowed display is {} but the canonical form is {}", show(text.as_bytes()), show(&want));
    // dictionaries built in any insertion order
    if let RVal::Dict(d) = &v {
        let mut d = d.clone();
        c.g.shuffle(&mut d);
        let mut m = std::collections::BTreeMap::new();
        for (k, x) in &d { m.insert(k.clone(), to_value(x)); }
        let got = sut("to_vec", || Value::with_dict(m).to_vec())?;
        ensure!(got == want, "encoding depends on insertion order: {}", show(&got));
        c.count("dict_orders");
    }
    Ok(())
}
fn b02_normal(c: &mut Case) -> R {
    // any accepted document re-encodes to a canonical fixed point
    let v = gen_value(&mut c.g);
    let mut doc = vec![];
    encode_sloppy(&mut c.g, &v, &mut doc);
    if c.g.one_in(3) { mutate(&mut c.g, &mut doc); }
    c.note(|| format!("document {}", show(&doc)));
    let Ok(x) = sut("Value::decode", || Value::decode(&doc))? else { c.count("rejected"); return Ok(()) };
    c.nontrivial(&doc);
    c.count("accepted");
    let e1 = sut("to_vec", || x.to_vec())?;
    let want = encoded(&from_value(&x));
    ensure!(e1 == want, "re-encoding of {} is {} but the canonical form is {}", show(&doc), show(&e1), show(&want));
    if e1 != doc { c.count("normalised"); } else { c.count("already_canonical"); }
    let y = sut("Value::decode", || Value::decode(&e1))?.map_err(|e| format!("re-encoding {} of {} is not decodable: {}", show(&e1), show(&doc), e))?;
    let e2 = sut("to_vec", || y.to_vec())?;
    ensure!(e1 == e2, "re-encoding is not a fixed point: {} then {}", show(&e1), show(&e2));
    if let Ok(r) = sut("ValueRef::decode", || ValueRef::decode(&doc))? {
        let e = sut("ValueRef::to_vec", || r.to_vec())?;
        ensure!(e == e1, "borrowed re-encoding {} differs from owned {}", show(&e), show(&e1));
    }
    Ok(())
}

// ------------------------------------------------------------------ B03, B04
fn check_doc(c: &mut Case, doc: &[u8]) -> R {
    let want = decode(doc).map(|x| x.0);
    let got = sut("Value::decode", || Value::decode(doc))?;
    match (&want, &got) {
        (Some(w), Ok(g)) => ensure!(same(g, w), "{} decodes to {} but denotes {}", show(doc), show(&encoded(&from_value(g))), show(&encoded(w))),
        (Some(w), Err(e)) => return Err(format!("well-formed {} is rejected with {}; it denotes {}", show(doc), e, show(&encoded(w)))),
        (None, Ok(g)) => return Err(format!("malformed {} is accepted as {}", show(doc), show(&encoded(&from_value(g))))),
        (None, Err(_)) => {}
    }
    let gotr = sut("ValueRef::decode", || ValueRef::decode(doc))?;
    match (&want, &gotr) {
        (Some(w), Ok(g)) => ensure!(same_ref(g, w), "{} decodes (borrowed) to {} but denotes {}", show(doc), show(&g.to_vec()), show(&encoded(w))),
        (Some(w), Err(e)) => return Err(format!("well-formed {} is rejected (borrowed) with {}; it denotes {}", show(doc), e, show(&encoded(w)))),
        (None, Ok(g)) => return Err(format!("malformed {} is accepted (borrowed) as {}", show(doc), show(&g.to_vec()))),
        (None, Err(_)) => {}
    }
    if let Ok(s) = std::str::from_utf8(doc) {
        let p = sut("from_str", || s.parse::<Value>())?;
        ensure!(p.is_ok() == want.is_some(), "text parsing of {} gives ok={}", show(doc), p.is_ok());
    }
    c.count(if want.is_some() { "accepted" } else { "rejected" });
    Ok(())
}
fn b03(c: &mut Case) -> R {
    let doc = gen_doc(&mut c.g);
    c.note(|| format!("document {}", show(&doc)));
    c.nontrivial(&doc);
    c.sample(|| show(&doc));
    check_doc(c, &doc)
}
/// all documents over a small alphabet, shortest first; a case is a block of 500
fn b03_exhaustive(c: &mut Case) -> R {
    const AL: &[u8] = b"ilde01:-2";
    let mut k = c.idx * 500;
    for _ in 0..500 {
        let mut n = k;
        let mut len = 0u32;
        let mut span = 1u64;
        while n >= span { n -= span; len += 1; span = (AL.len() as u64).pow(len); }
        let mut d = vec![];
        for _ in 0..len { d.push(AL[(n % AL.len() as u64) as usize]); n /= AL.len() as u64; }
        check_doc(c, &d)?;
        c.eval();
        if c.idx < 1000 { c.nontrivial(&d); }
        c.max("exhaustive_len", u64::from(len));
        k += 1;
    }
    Ok(())
}
/// truncate and extend valid documents at every position
fn b03_truncate(c: &mut Case) -> R {
    let mut v = gen_val(&mut c.g, 12, 4);
    if c.g.one_in(4) { v = RVal::List(vec![v]) }
    let mut doc = vec![];
    encode_sloppy(&mut c.g, &v, &mut doc);
    doc.truncate(600);
    for i in 0..=doc.len() {
        check_doc(c, &doc[..i])?;
        c.eval();
    }
    c.nontrivial(&doc);
    for t in [&b"e"[..], b"i0e", b"0:", b" ", b"\n", b"\0", b"l", b"de", b"1"] {
        let mut d = doc.clone();
        d.extend_from_slice(t);
        check_doc(c, &d)?;
        let mut d = t.to_vec();
        d.extend_from_slice(&doc);
        check_doc(c, &d)?;
        c.eval();
    }
    Ok(())
}
/// numbers in every spelling, as integers and as lengths
fn b03_numbers(c: &mut Case) -> R {
    let n = c.g.wide();
    let mut digits = vec![];
    dec(n.abs(), &mut digits);
    let mut zeros = vec![b'0'; if c.g.bool() { 0 } else { c.g.len(40) }];
    zeros.extend(&digits);
    let mut junk = zeros.clone();
    if c.g.bool() {
        let i = c.g.below(junk.len() + 1);
        let b = match c.g.below(3) { 0 => *c.g.pick(b"+-. _xXeEoO,'\t\n\0\x7f"), 1 => c.g.u64() as u8, _ => b'0' + c.g.below(10) as u8 };
        junk.insert(i, b);
    }
    for sign in [&b""[..], b"-", b"+", b"--", b"+-", b" ", b"-0", b"0-"] {
        for body in [&digits, &zeros, &junk] {
            let doc = [b"i", sign, &body[..], b"e"].concat();
            check_doc(c, &doc)?;
            c.nontrivial(&doc);
            c.eval();
        }
    }
    let have = c.g.len(300);
    for delta in [-1i128, 0, 1] {
        let l = (have as i128 + delta).max(0);
        let mut doc = vec![b'0'; if c.g.bool() { 0 } else { c.g.len(40) }];
        dec(l, &mut doc);
        doc.push(b':');
        doc.extend(c.g.bytes(have));
        check_doc(c, &doc)?;
        let mut d2 = b"l".to_vec();
        d2.extend(&doc);
        d2.push(b'e');
        check_doc(c, &d2)?;
        c.nontrivial(&doc);
        c.eval();
    }
    for body in [&digits, &zeros, &junk] {
        let mut doc = body.to_vec();
        doc.push(b':');
        doc.extend(c.g.bytes(9));
        check_doc(c, &doc)?;
        c.nontrivial(&doc);
        c.eval();
    }
    Ok(())
}

fn slices_inside(v: &ValueRef, buf: &[u8], n: &mut u64) -> R {
    let inside = |s: &[u8]| {
        s.is_empty() || {
            let (a, b) = (buf.as_ptr() as usize, s.as_ptr() as usize);
            b >= a && b + s.len() <= a + buf.len()
        }
    };
    match v {
        ValueRef::Int(_) => {}
        ValueRef::Bytes(s) => { *n += 1; ensure!(inside(s), "borrowed string {} is not part of the input buffer", show(s)) }
        ValueRef::List(l) => for x in l { slices_inside(x, buf, n)?; },
        ValueRef::Dict(d) => for (k, x) in d {
            *n += 1;
            ensure!(inside(k.as_bytes()), "borrowed key {:?} is not part of the input buffer", k);
            slices_inside(x, buf, n)?;
        },
    }
    Ok(())
}
fn some_limit(c: &mut Case, n: usize) -> Option<usize> {
    match c.g.below(6) {
        0 | 1 => None,
        2 => Some(c.g.below(4)),
        3 => Some(c.g.usize_any()),
        _ => Some((n + c.g.below(4)).saturating_sub(2)),
    }
}
fn b04(c: &mut Case) -> R {
    let doc = gen_doc(&mut c.g);
    c.note(|| format!("document {}", show(&doc)));
    let info = decode(&doc);
    let (depth, items) = info.as_ref().map(|(_, e)| (e.iter().map(|x| x.depth).max().unwrap_or(0), e.len() - 1)).unwrap_or((2, 5));
    let mut limits = vec![(None, None)];
    for _ in 0..3 { limits.push((some_limit(c, depth), some_limit(c, items))); }
    for (d, n) in limits {
        representations(c, &doc, d, n)?;
    }
    Ok(())
}
fn representations(c: &mut Case, doc: &[u8], d: Option<usize>, n: Option<usize>) -> R {
        let a = sut("Value::decode_with_limits", || Value::decode_with_limits(&doc, d, n))?;
        let b = sut("ValueRef::decode_with_limits", || ValueRef::decode_with_limits(&doc, d, n))?;
        c.eval();
        match (a, b) {
            (Ok(a), Ok(b)) => {
                c.count("both_accept");
                c.nontrivial(&doc);
                let v = from_value(&a);
                ensure!(same_ref(&b, &v), "owned and borrowed decode of {} differ: {} and {}", show(&doc), show(&a.to_vec()), show(&b.to_vec()));
                let mut k = 0;
                slices_inside(&b, &doc, &mut k)?;
                c.add("slices_checked", k);
                let o = sut("to_owned", || b.to_owned())?;
                ensure!(same(&o, &v), "to_owned changed {}", show(&doc));
                ensure!(o == a, "to_owned of {} is not equal to the owned decode", show(&doc));
                let r = sut("as_ref", || a.as_ref())?;
                ensure!(same_ref(&r, &v), "as_ref changed {}", show(&doc));
                ensure!(r == b, "as_ref of {} is not equal to the borrowed decode", show(&doc));
                let (x, y, z) = sut("to_vec", || (a.to_vec(), o.to_vec(), r.to_vec()))?;
                ensure!(x == y && y == z && z == b.to_vec(), "encodings differ after conversion of {}: {} {} {}", show(&doc), show(&x), show(&y), show(&z));
                let s = sut("Display", || (a.to_string(), b.to_string()))?;
                ensure!(s.0 == s.1, "displays differ for {}", show(&doc));
                // the other representation's accessors
                if let (Some(t), true) = (b.as_str(), true) { ensure!(a.as_str() == Some(t), "as_str differs for {}", show(&doc)) }
            }
            (Err(a), Err(b)) => {
                c.count("both_reject");
                c.nontrivial(&doc);
                ensure!(a == b, "owned and borrowed decode of {} with limits {:?} {:?} fail differently: {} and {}", show(&doc), d, n, a, b);
            }
            (a, b) => return Err(format!("owned decode of {} with limits {:?} {:?} ok={}, borrowed ok={}", show(&doc), d, n, a.is_ok(), b.is_ok())),
        }
    Ok(())
}

// ------------------------------------------------------------------ B05
fn expect_limits(e: &[Elem], d: Option<usize>, n: Option<usize>) -> Option<(usize, Error)> {
    for (k, x) in e.iter().enumerate() {
        if d.map_or(false, |d| x.depth > d) { return Some((k, Error::DepthLimit)); }
        if n.map_or(false, |n| k > n) { return Some((k, Error::ItemLimit)); }
    }
    None
}
fn check_limits(c: &mut Case, doc: &[u8], v: &RVal, e: &[Elem], d: Option<usize>, n: Option<usize>) -> R {
    let want = expect_limits(e, d, n);
    for borrowed in [false, true] {
        c.eval();
        let got: Result<RVal, Error> = if borrowed {
            sut("ValueRef::decode_with_limits", || ValueRef::decode_with_limits(doc, d, n).map(|x| from_value(&x.to_owned())))?
        } else {
            sut("Value::decode_with_limits", || Value::decode_with_limits(doc, d, n).map(|x| from_value(&x)))?
        };
        match (&want, got) {
            (None, Ok(g)) => { c.count("within"); ensure!(g == *v, "limits {:?} {:?} that are not exceeded change the result for {}", d, n, show(doc)) }
            (None, Err(g)) => return Err(format!("limits depth={:?} items={:?} are not exceeded by {} but it fails with {} (borrowed={})", d, n, show(doc), g, borrowed)),
            (Some((k, _)), Ok(_)) => return Err(format!("limits depth={:?} items={:?} are exceeded by element {} of {} but it is accepted (borrowed={})", d, n, k, show(doc), borrowed)),
            (Some((k, w)), Err(g)) => {
                c.count(if *w == Error::DepthLimit { "depth_exceeded" } else { "items_exceeded" });
                ensure!(*w == g, "limits depth={:?} items={:?} are exceeded by element {} of {}: expected {}, got {} (borrowed={})", d, n, k, show(doc), w, g, borrowed);
            }
        }
    }
    // whatever follows the exceeding element
    if let Some((k, w)) = want {
        let mut t = doc[..e[k].at + 1].to_vec();
        match c.g.below(4) { 0 => {}, 1 => t.extend(b"eeeeee"), 2 => { let x = c.g.blob(20); t.extend(x) }, _ => t.extend(&doc[e[k].at + 1..doc.len() - 1]) }
        let a = sut("Value::decode_with_limits", || Value::decode_with_limits(&t, d, n))?;
        let b = sut("ValueRef::decode_with_limits", || ValueRef::decode_with_limits(&t, d, n))?;
        ensure!(a.as_ref().err() == Some(&w) && b.as_ref().err() == Some(&w), "limits depth={:?} items={:?} with another tail {}: expected {}, got {:?} and {:?}", d, n, show(&t), w, a.err(), b.err());
        c.count("tail_replaced");
    }
    Ok(())
}
fn b05(c: &mut Case) -> R {
    let v = gen_value(&mut c.g);
    let mut doc = vec![];
    if c.g.bool() { encode_sloppy(&mut c.g, &v, &mut doc) } else { encode(&v, &mut doc) }
    let Some((v, e)) = decode(&doc) else { return Err("harness: sloppy encoding not decodable".into()) };
    c.note(|| format!("document {}", show(&doc)));
    let depth = e.iter().map(|x| x.depth).max().unwrap();
    let items = e.len() - 1;
    c.max("depth", depth as u64);
    c.max("items", items as u64);
    c.nontrivial(&doc);
    c.sample(|| format!("{} (depth {}, {} elements)", show(&doc), depth, items + 1));
    let mut ds = vec![None, Some(depth), Some(0)];
    if depth > 0 { ds.push(Some(depth - 1)); ds.push(Some(c.g.below(depth))); }
    ds.push(Some(depth + 1));
    let mut ns = vec![None, Some(items), Some(0), Some(items + 1)];
    if items > 0 { ns.push(Some(items - 1)); ns.push(Some(c.g.below(items))); }
    ds.push(Some(usize::MAX));
    ns.push(Some(usize::MAX));
    for k in 0..ds.len() {
        let d = ds[k];
        let n = if k < 2 { None } else { *c.g.pick(&ns) };
        check_limits(c, &doc, &v, &e, d, n)?;
    }
    for k in 0..ns.len() {
        let n = ns[k];
        let d = if k < 4 { None } else { *c.g.pick(&ds) };
        check_limits(c, &doc, &v, &e, d, n)?;
    }
    // limits that are not exceeded do not change errors either
    let mut bad = doc.clone();
    mutate(&mut c.g, &mut bad);
    let a = sut("decode", || Value::decode(&bad).err())?;
    let b = sut("decode_with_limits", || Value::decode_with_limits(&bad, Some(usize::MAX), Some(usize::MAX)).err())?;
    ensure!(a == b, "unreachable limits change the outcome for {}: {:?} and {:?}", show(&bad), a, b);
    Ok(())
}
/// nested and flat documents of every small size against every limit
fn b05_grid(c: &mut Case) -> R {
    let shape = c.idx % 5;
    let n = (c.idx / 5) as usize;
    let v = match shape {
        0 => (0..n).fold(RVal::List(vec![]), |v, _| RVal::List(vec![v])),
        1 => (0..n).fold(RVal::Int(1), |v, _| RVal::Dict(vec![("a".into(), v)])),
        2 => RVal::List((0..n).map(|k| RVal::Int(k as i64)).collect()),
        3 => dict_sort((0..n).map(|k| (format!("{:03}", k), RVal::Str(vec![b'x'; k % 4]))).collect()),
        _ => RVal::List((0..n).map(|k| if k % 2 == 0 { RVal::List(vec![RVal::Str(vec![])]) } else { RVal::Dict(vec![("".into(), RVal::List(vec![]))]) }).collect()),
    };
    let doc = encoded(&v);
    let (v, e) = decode(&doc).unwrap();
    c.nontrivial(&doc);
    let top = e.len() + 2;
    for k in 0..top {
        check_limits(c, &doc, &v, &e, Some(k), None)?;
        check_limits(c, &doc, &v, &e, None, Some(k))?;
        check_limits(c, &doc, &v, &e, Some(top - k), Some(k))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ B06
fn hostile(g: &mut Gen) -> Vec<u8> {
    let big = if g.scale == 2 { 400_000 } else if g.scale == 1 { 60_000 } else { 200 };
    let n = g.len(big).max(1);
    let mut v = vec![];
    match g.below(12) {
        0 => { while v.len() < n { v.extend_from_slice(b"l") } }
        1 => { while v.len() < n { v.extend_from_slice(b"d0:") } }
        2 => { let k = n.min(1500); v.extend(std::iter::repeat(b'l').take(k)); v.extend(std::iter::repeat(b'e').take(k + g.below(3))); }
        3 => { v.push(b'l'); while v.len() < n { v.extend_from_slice(b"0:") } v.push(b'e'); }
        4 => { v.push(b'l'); while v.len() < n { v.extend_from_slice(b"le") } v.push(b'e'); }
        5 => { v.push(b'l'); while v.len() < n { v.extend_from_slice(b"d0:0:e") } v.push(b'e'); }
        6 => { v.push(b'd'); let mut k = 0u64; while v.len() < n { v.extend_from_slice(format!("8:{:08x}0:", mix(k) as u32).as_bytes()); k += 1; } v.push(b'e'); }
        7 => { v.push(b'i'); while v.len() < n { v.push(b'0' + g.below(10) as u8) } v.push(b'e'); }
        8 => { while v.len() < n { v.push(b'0' + g.below(10) as u8) } v.push(b':'); }
        9 => {
            // announced lengths far beyond the input
            let w = g.wide().unsigned_abs();
            let pre = *g.pick(&[&b""[..], b"l", b"d", b"d1:a", b"ll", b"l3:abc"]);
            v.extend_from_slice(pre);
            v.extend(w.to_string().bytes());
            v.push(b':');
            v.extend(g.blob(50));
        }
        10 => { v.push(b'd'); while v.len() < n { v.extend_from_slice(b"1:a") } v.push(b'e'); }
        _ => { v = gen_doc(g); let k = g.len(5); for _ in 0..k { mutate(g, &mut v) } }
    }
    if g.one_in(4) { mutate(g, &mut v) }
    v
}
/// heap allowed for decoding `len` bytes: a one-entry dictionary of 4 bytes costs a B-tree leaf
/// of about 650 bytes, vectors may be doubled
fn heap_bound(len: usize) -> usize { 600 * len + 32 * 1024 }
fn b06(c: &mut Case) -> R {
    let doc = hostile(&mut c.g);
    c.note(|| format!("document {}", show(&doc)));
    c.nontrivial(&doc);
    c.sample(|| show(&doc));
    let limits = match c.g.below(4) { 0 => (Some(c.g.below(200)), Some(c.g.below(100_000))), 1 => (None, Some(c.g.usize_any())), 2 => (Some(c.g.usize_any()), None), _ => (None, None) };
    operate(c, &doc, limits)
}
fn operate(c: &mut Case, doc: &[u8], limits: (Option<usize>, Option<usize>)) -> R {
    for borrowed in [false, true] {
        alloc::reset();
        let r = if borrowed {
            sut("ValueRef::decode_with_limits", || ValueRef::decode_with_limits(&doc, limits.0, limits.1).map(|v| drop(v)))?
        } else {
            sut("Value::decode_with_limits", || Value::decode_with_limits(&doc, limits.0, limits.1).map(|v| drop(v)))?
        };
        let (peak, biggest, _) = alloc::used();
        c.eval();
        c.count(if r.is_ok() { "accepted" } else { "rejected" });
        c.max("heap_per_byte_x10", if doc.len() > 3000 { (peak * 10 / doc.len()) as u64 } else { 0 });
        c.max("heap_small", if doc.len() < 100 { peak as u64 } else { 0 });
        c.max("biggest_request", biggest as u64);
        ensure!(peak <= heap_bound(doc.len()), "decoding {} ({} bytes) took {} bytes of heap, allowed {} (biggest request {}, borrowed={})", show(&doc), doc.len(), peak, heap_bound(doc.len()), biggest, borrowed);
    }
    // everything one does with the result
    if let Ok(v) = sut("decode", || Value::decode(&doc))? {
        sut("operations on the decoded value", || {
            let _ = v.to_string();
            let e = v.to_vec();
            let r = v.as_ref();
            let _ = r.to_string();
            let o = r.to_owned();
            let _ = o == v;
            let _ = o.partial_cmp(&v);
            let _ = r == v.as_ref();
            let _ = format!("{:?}", r).len() + format!("{:?}", v).len();
            let k = v.clone();
            drop(e);
            drop(k);
        })?;
        c.count("operated");
    }
    if let Ok(r) = sut("decode", || ValueRef::decode(&doc))? {
        sut("operations on the decoded borrowed value", || {
            let _ = r.to_string();
            let _ = r.to_vec();
            let o = r.to_owned();
            let _ = o.as_ref() == r;
            let k = r.clone();
            let _ = k.partial_cmp(&r);
        })?;
    }
    Ok(())
}
/// Moderate nesting (up to what the tests accept) on an ordinary 2 MiB thread stack.
fn b06_nested(c: &mut Case) -> R {
    let n = c.g.range(1, if c.g.scale == 0 { 40 } else { 1024 });
    let dict = c.g.bool();
    let mut doc = vec![];
    for _ in 0..n { doc.extend_from_slice(if dict { b"d1:k" } else { b"l" }); }
    doc.extend_from_slice(b"0:");
    doc.extend(std::iter::repeat(b'e').take(n));
    c.note(|| format!("{} containers, dict={}", n, dict));
    c.nontrivial(&doc);
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || -> R {
        let v = Value::decode(&doc).map_err(|e| format!("nesting of {} is rejected: {}", n, e))?;
        let r = ValueRef::decode(&doc).map_err(|e| format!("nesting of {} is rejected: {}", n, e))?;
        ensure!(v.to_vec() == doc && r.to_vec() == doc, "nesting of {} is not re-encoded", n);
        let o = r.to_owned();
        ensure!(o == v && v.as_ref() == r, "nesting of {}: conversions differ", n);
        let _ = (v.to_string(), r.to_string(), v.clone(), r.clone());
        Ok(())
    }).unwrap();
    match t.join() { Ok(r) => r, Err(_) => Err(format!("panicked on a nesting of {}", n)) }
}
/// Run by the supervisor one process per index: unlimited decoding of very deep nesting, on a stack
/// of 8 MiB. Index = representation * 16 + operation.
fn b06_deep(c: &mut Case) -> R {
    let op = c.idx % 16;
    // comparing takes the smallest stack frames
    let n = if op == 5 { 3_000_000 } else { 200_000 };
    let borrowed = c.idx / 16 == 1;
    let doc: &'static [u8] = Vec::leak([vec![b'l'; n], vec![b'e'; n]].concat());
    c.nontrivial(&c.idx.to_le_bytes());
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || -> R {
        macro_rules! ops { ($t:ident) => {{
            let v = $t::decode(doc).map_err(|e| format!("rejected: {}", e))?;
            match op {
                0 => { std::mem::forget(v); }
                1 => { let e = v.to_vec(); std::mem::forget(v); ensure!(e == doc, "wrong encoding"); }
                2 => { let e = v.to_string().len(); std::mem::forget(v); ensure!(e == doc.len(), "wrong display"); }
                3 => { drop(v); }
                4 => { let k = v.clone(); std::mem::forget(k); std::mem::forget(v); }
                5 => { let w = $t::decode(doc).unwrap(); let e = v == w; std::mem::forget(v); std::mem::forget(w); ensure!(e, "not equal"); }
                _ => {}
            }
            Ok(())
        }}}
        if op == 6 {
            if borrowed {
                let v = ValueRef::decode(doc).unwrap();
                std::mem::forget(v.to_owned());
                std::mem::forget(v);
            } else {
                let v = Box::leak(Box::new(Value::decode(doc).unwrap()));
                std::mem::forget(v.as_ref());
            }
            return Ok(());
        }
        if op == 7 {
            // limited decoding never gets that deep, and its rejection is cheap
            let e = if borrowed { ValueRef::decode_with_limits(doc, Some(100), None).err() } else { Value::decode_with_limits(doc, Some(100), None).err() };
            ensure!(e == Some(Error::DepthLimit), "depth limit not applied: {:?}", e);
            return Ok(());
        }
        if op == 8 {
            // never closed: nothing was built
            let d = &doc[..n];
            let e = if borrowed { ValueRef::decode(d).is_err() } else { Value::decode(d).is_err() };
            ensure!(e, "unclosed lists accepted");
            return Ok(());
        }
        if borrowed { ops!(ValueRef) } else { ops!(Value) }
    }).unwrap();
    match t.join() { Ok(r) => r, Err(_) => Err("panicked".into()) }
}

// ------------------------------------------------------------------ B07
macro_rules! accessors {
    ($name:ident, $t:ty, $same:path, $conv:path, $key:expr) => {
        #[allow(clippy::redundant_closure_call)]
        fn $name(c: &mut Case, x: &$t, v: &RVal) -> R {
            let d = |what: &str| format!("{} is wrong for {}", what, show(&encoded(v)));
            ensure!(x.is_int() == matches!(v, RVal::Int(_)), "{}", d("is_int"));
            ensure!(x.is_string() == matches!(v, RVal::Str(_)), "{}", d("is_string"));
            ensure!(x.is_list() == matches!(v, RVal::List(_)), "{}", d("is_list"));
            ensure!(x.is_dict() == matches!(v, RVal::Dict(_)), "{}", d("is_dict"));
            ensure!(x.as_int() == v.int(), "{}", d("as_int"));
            ensure!(x.as_bytes() == v.bytes(), "{}", d("as_bytes"));
            ensure!(x.as_str() == v.text(), "{}", d("as_str"));
            let items: &[RVal] = v.list().unwrap_or(&[]);
            match (x.as_list(), v.list()) {
                (None, None) => {}
                (Some(a), Some(b)) => ensure!(a.len() == b.len() && a.iter().zip(b).all(|(a, b)| $same(a, b)), "{}", d("as_list")),
                _ => return Err(d("as_list")),
            }
            ensure!(x.list_len() == v.list().map(|l| l.len()), "{}", d("list_len"));
            let mut idx: Vec<usize> = vec![0, 1, items.len(), items.len() + 1, usize::MAX];
            if !items.is_empty() { for _ in 0..3 { idx.push(c.g.below(items.len())); } idx.push(items.len() - 1); }
            for i in idx {
                let w = items.get(i);
                ensure!(match (x.list_at(i), w) { (None, None) => true, (Some(a), Some(b)) => $same(a, b), _ => false }, "{} at {}", d("list_at"), i);
                ensure!(x.list_int_value_at(i) == w.and_then(|w| w.int()), "{} at {}", d("list_int_value_at"), i);
                ensure!(x.list_string_value_at(i) == w.and_then(|w| w.text()), "{} at {}", d("list_string_value_at"), i);
                c.eval();
            }
            let entries: &[(String, RVal)] = match v { RVal::Dict(e) => e, _ => &[] };
            ensure!(x.dict_len() == if let RVal::Dict(e) = v { Some(e.len()) } else { None }, "{}", d("dict_len"));
            match (x.as_dict(), v) {
                (Some(m), RVal::Dict(e)) => ensure!(m.len() == e.len() && m.iter().zip(e).all(|((a, b), (p, q))| *a == &p[..] && $same(b, q)), "{}", d("as_dict")),
                (None, RVal::Dict(_)) | (Some(_), _) => return Err(d("as_dict")),
                _ => {}
            }
            let mut keys: Vec<String> = vec![String::new(), "no such key".into(), gen_key(&mut c.g), gen_key(&mut c.g)];
            for _ in 0..if entries.is_empty() { 0 } else { 6 } {
                let k = c.g.pick(entries).0.clone();
                keys.push(k.to_uppercase());
                keys.push(format!("{}\0", k));
                keys.push(k.chars().skip(1).collect());
                keys.push(k);
            }
            for k in &keys {
                let w = v.get(k);
                let ok = |a: Option<&$t>, f: fn(&RVal) -> bool| match (a, w.filter(|w| f(w))) { (None, None) => true, (Some(a), Some(b)) => $same(a, b), _ => false };
                let dk = |what: &str| format!("{} of key {:?} is wrong for {}", what, k, show(&encoded(v)));
                ensure!(ok(x.dict_find(k), |_| true), "{}", dk("dict_find"));
                ensure!(ok(x.dict_find_int(k), |w| matches!(w, RVal::Int(_))), "{}", dk("dict_find_int"));
                ensure!(ok(x.dict_find_str(k), |w| matches!(w, RVal::Str(_))), "{}", dk("dict_find_str"));
                ensure!(ok(x.dict_find_list(k), |w| matches!(w, RVal::List(_))), "{}", dk("dict_find_list"));
                ensure!(ok(x.dict_find_dict(k), |w| matches!(w, RVal::Dict(_))), "{}", dk("dict_find_dict"));
                ensure!(x.dict_find_int_value(k) == w.and_then(|w| w.int()), "{}", dk("dict_find_int_value"));
                ensure!(x.dict_find_str_value(k) == w.and_then(|w| w.text()), "{}", dk("dict_find_str_value"));
                ensure!(match (x.dict_find_list_value(k), w.and_then(|w| w.list())) { (None, None) => true, (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| $same(a, b)), _ => false }, "{}", dk("dict_find_list_value"));
                c.count(if w.is_some() { "key_found" } else { "key_absent" });
                c.eval();
            }
            // mutable and consuming forms, on copies
            let mut m = x.clone();
            match (m.as_list_mut(), v.list()) {
                (None, None) => {}
                (Some(a), Some(b)) => {
                    ensure!(a.len() == b.len() && a.iter().zip(b).all(|(a, b)| $same(a, b)), "{}", d("as_list_mut"));
                    a.push(<$t>::with_int(42));
                    ensure!(m.list_len() == Some(b.len() + 1) && m.list_int_value_at(b.len()) == Some(42), "{}", d("list after as_list_mut().push"));
                    c.count("mutated");
                }
                _ => return Err(d("as_list_mut")),
            }
            let mut m = x.clone();
            match (m.as_dict_mut(), v) {
                (Some(a), RVal::Dict(e)) => {
                    ensure!(a.len() == e.len() && a.iter().zip(e).all(|((a, b), (p, q))| *a == &p[..] && $same(b, q)), "{}", d("as_dict_mut"));
                    a.insert($key, <$t>::with_int(43));
                    ensure!(m.dict_find_int_value("~new") == Some(43), "{}", d("dict after as_dict_mut().insert"));
                    c.count("mutated");
                }
                (None, RVal::Dict(_)) | (Some(_), _) => return Err(d("as_dict_mut")),
                _ => {}
            }
            match (x.clone().into_list(), v.list()) {
                (None, None) => {}
                (Some(a), Some(b)) => ensure!(a.len() == b.len() && a.iter().zip(b).all(|(a, b)| $same(a, b)), "{}", d("into_list")),
                _ => return Err(d("into_list")),
            }
            match (x.clone().into_dict(), v) {
                (Some(m), RVal::Dict(e)) => ensure!(m.len() == e.len() && m.iter().zip(e).all(|((a, b), (p, q))| *a == &p[..] && $same(b, q)), "{}", d("into_dict")),
                (None, RVal::Dict(_)) | (Some(_), _) => return Err(d("into_dict")),
                _ => {}
            }
            ensure!($same(x, v), "{}", d("the value after its accessors ran"));
            match v { RVal::List(l) => for (a, b) in x.as_list().unwrap().iter().zip(l).take(8) { $name(c, a, b)? },
                RVal::Dict(e) => for (a, b) in x.as_dict().unwrap().values().zip(e).take(8) { $name(c, a, &b.1)? },
                _ => {} }
            Ok(())
        }
    };
}
accessors!(acc_value, Value, same, to_value, "~new".to_string());
accessors!(acc_ref, ValueRef<'_>, same_ref, to_ref, "~new");
fn b07(c: &mut Case) -> R {
    let budget = if c.g.scale == 0 { 8 } else { c.g.range(1, 60) };
    let v = gen_val(&mut c.g, budget, 3);
    note_val(c, &v);
    let x = to_value(&v);
    sut("an accessor of Value", || acc_value(c, &x, &v))??;
    let enc = encoded(&v);
    if c.g.bool() {
        let y = to_ref(&v);
        sut("an accessor of ValueRef", || acc_ref(c, &y, &v))??;
    } else if let Ok(y) = ValueRef::decode(&enc) {
        sut("an accessor of ValueRef", || acc_ref(c, &y, &v))??;
    }
    Ok(())
}

// ------------------------------------------------------------------ B08
const KINDS: &[io::ErrorKind] = &[io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::WriteZero, io::ErrorKind::WouldBlock, io::ErrorKind::InvalidInput, io::ErrorKind::UnexpectedEof, io::ErrorKind::PermissionDenied];
fn faulty(c: &mut Case, v: &RVal, borrowed: bool, fault: Fault) -> R {
    let want = encoded(v);
    let chunk = *c.g.pick(&[1usize, 2, 3, 7, 64, 100_000]);
    let intr = *c.g.pick(&[0usize, 0, 2, 5, 50]);
    let o = to_value(v);
    let r = to_ref(v);
    let (res, got, after, intrs, failed) = {
        let mut w = BadWriter::new(&mut c.g, fault, chunk, intr);
        let res = if borrowed { sut("ValueRef::encode", || r.encode(&mut w))? } else { sut("Value::encode", || o.encode(&mut w))? };
        (res, std::mem::take(&mut w.got), w.writes_after_failure, w.interrupted, w.failed)
    };
    c.eval();
    c.add("interrupts", intrs as u64);
    c.add("faults_fired", failed as u64);
    let d = || format!("{} (fault {:?}, chunks of up to {}, borrowed={})", show(&want), fault, chunk, borrowed);
    match fault {
        Fault::None => {
            c.count("fault_free");
            ensure!(res.is_ok(), "encoding {} failed: {:?}", d(), res);
            ensure!(got == want, "short writes corrupt the stream: {} arrived for {}", show(&got), d());
        }
        Fault::Err(at, _) | Fault::Full(at) => {
            ensure!(failed > 0, "harness: fault at {} of {} did not fire; {}", at, want.len(), d());
            ensure!(res.is_err(), "a failed write at byte {} was not reported for {}", at, d());
            let e = res.unwrap_err();
            let k = k_of(&fault);
            ensure!(e.kind() == k, "a failed write ({:?}) was reported as {:?} for {}", k, e.kind(), d());
            if let Fault::Err(..) = fault {
                ensure!(e.to_string() == MARK, "a failed write was reported as another error {:?} for {}", e, d());
            }
            ensure!(got[..] == want[..at], "what was written before a failure at byte {} is not a prefix: {} for {}", at, show(&got), d());
            ensure!(after == 0, "writing went on after the failure at byte {} for {}", at, d());
        }
    }
    Ok(())
}
fn k_of(f: &Fault) -> io::ErrorKind { match f { Fault::Err(_, k) => *k, _ => io::ErrorKind::WriteZero } }
fn b08(c: &mut Case) -> R {
    let b = c.g.range(1, if c.g.scale == 0 { 6 } else { 40 });
    let v = gen_val(&mut c.g, b, 4);
    note_val(c, &v);
    let n = encoded(&v).len();
    for borrowed in [false, true] {
        faulty(c, &v, borrowed, Fault::None)?;
        let offs: Vec<usize> = if n <= 60 { (0..n).collect() } else { (0..40).map(|_| c.g.below(n)).chain([0, 1, n - 1, n - 2]).collect() };
        for at in offs {
            let k = *c.g.pick(KINDS);
            faulty(c, &v, borrowed, Fault::Err(at, k))?;
            if c.g.one_in(3) { faulty(c, &v, borrowed, Fault::Full(at))?; }
        }
    }
    Ok(())
}

/// every text of a value
// ------------------------------------------------------------------ B09
/// whether an error is what says this fault
fn says(e: &Error, f: Flaw) -> bool {
    match f {
        Flaw::Short => *e == Error::EOF,
        Flaw::Number => *e == Error::ParseInt,
        Flaw::Stray(b) => *e == Error::InvalidChar(b),
        Flaw::Unended(b) => *e == Error::ExpectedChar(b),
        Flaw::Pairs => *e == Error::ParseDict,
        Flaw::Deep => *e == Error::DepthLimit,
        Flaw::Many => *e == Error::ItemLimit,
        Flaw::Trailing(_) => true,
    }
}
fn named(c: &mut Case, doc: &[u8], d: Option<usize>, n: Option<usize>) -> R {
    let want = refs::first_fault(doc, d, n);
    let a = sut("Value::decode_with_limits", || Value::decode_with_limits(doc, d, n).err())?;
    let b = sut("ValueRef::decode_with_limits", || ValueRef::decode_with_limits(doc, d, n).err())?;
    let mut got = vec![("owned", a), ("borrowed", b)];
    if d.is_none() && n.is_none() {
        got.push(("owned, without limits", sut("Value::decode", || Value::decode(doc).err())?));
        got.push(("borrowed, without limits", sut("ValueRef::decode", || ValueRef::decode(doc).err())?));
        if let Ok(t) = std::str::from_utf8(doc) { got.push(("from text", sut("from_str", || t.parse::<Value>().err())?)); }
    }
    c.eval();
    // whether it is rejected at all is B03's and B05's matter
    let Some(f) = want else { c.count("no_fault"); return Ok(()) };
    c.count(match f { Flaw::Short => "short", Flaw::Number => "number", Flaw::Stray(_) => "stray", Flaw::Unended(_) => "unended", Flaw::Pairs => "pairs", Flaw::Deep => "deep", Flaw::Many => "many", Flaw::Trailing(_) => "trailing" });
    for (how, e) in got {
        let Some(e) = e else { continue };
        ensure!(says(&e, f), "{} with limits {:?} {:?} fails ({}) with {:?}, but what is wrong first is {:?}", show(doc), d, n, how, e, f);
        // and as an error of input and output
        let t = sut("Display", || e.to_string())?;
        ensure!(!t.is_empty(), "{:?} has no text", e);
        let kind = match e { Error::EOF => io::ErrorKind::UnexpectedEof, Error::IO => io::ErrorKind::Other, _ => io::ErrorKind::InvalidData };
        let d = format!("{:?}", e);
        let i = sut("io::Error::from", || io::Error::from(e))?;
        ensure!(i.kind() == kind, "{} becomes an I/O error of kind {:?} instead of {:?}", d, i.kind(), kind);
    }
    Ok(())
}
fn b09(c: &mut Case) -> R {
    let doc = gen_doc(&mut c.g);
    c.note(|| format!("document {}", show(&doc)));
    c.nontrivial(&doc);
    c.sample(|| show(&doc));
    named(c, &doc, None, None)?;
    for _ in 0..2 {
        let (d, n) = (some_limit(c, 3), some_limit(c, 8));
        named(c, &doc, d, n)?;
    }
    Ok(())
}
/// one fault, or several, at chosen places of a well-formed document
fn b09_planted(c: &mut Case) -> R {
    let mut v = gen_val(&mut c.g, 30, 5);
    if !matches!(v, RVal::List(_) | RVal::Dict(_)) { v = if c.g.bool() { RVal::List(vec![v]) } else { RVal::Dict(vec![(gen_key(&mut c.g), v)]) }; }
    let mut doc = vec![];
    encode_sloppy(&mut c.g, &v, &mut doc);
    doc.truncate(3000);
    let Some((_, e)) = decode(&doc) else { return Ok(()) };
    for _ in 0..c.g.range(1, 3) {
        let at = c.g.pick(&e).at.min(doc.len());
        let junk: Vec<u8> = match c.g.below(12) {
            0 => vec![c.g.u64() as u8],
            1 => b"e".to_vec(),
            2 => b"i1".to_vec(),
            3 => b"i".to_vec(),
            4 => b"1x:a".to_vec(),
            5 => format!("i{}e", c.g.wide()).into_bytes(),
            6 => format!("{}:", c.g.wide().unsigned_abs()).into_bytes(),
            7 => b"d1:ae".to_vec(),
            8 => b"di1ei2ee".to_vec(),
            9 => { let n = c.g.range(1, 9); let mut t = format!("d{}:", n).into_bytes(); t.extend((0..n).map(|_| 0x80 | c.g.u64() as u8)); t.extend(b"i0ee"); t }
            10 => b"dle0:e".to_vec(),
            _ => format!("d1:a{}e", *c.g.pick(&["i1e1:b", "0:1:b0:1:c", "dele", "i1ei2ei3e"])).into_bytes(),
        };
        doc.splice(at..at, junk);
    }
    if c.g.one_in(4) { let k = c.g.below(doc.len() + 1); doc.truncate(k); }
    c.note(|| format!("document {}", show(&doc)));
    c.nontrivial(&doc);
    named(c, &doc, None, None)?;
    let (d, n) = (some_limit(c, 4), some_limit(c, e.len()));
    named(c, &doc, d, n)
}
/// all documents over a small alphabet, shortest first; a case is a block of 500
fn b09_exhaustive(c: &mut Case) -> R {
    const AL: &[u8] = b"ilde01:-\xff";
    let mut k = c.idx * 500;
    for _ in 0..if c.g.scale == 0 { 120 } else { 500 } {
        let mut n = k;
        let mut len = 0u32;
        let mut span = 1u64;
        while n >= span { n -= span; len += 1; span = (AL.len() as u64).pow(len); }
        let mut d = vec![];
        for _ in 0..len { d.push(AL[(n % AL.len() as u64) as usize]); n /= AL.len() as u64; }
        named(c, &d, None, None)?;
        if c.idx < 1000 { c.nontrivial(&d); }
        c.max("exhaustive_len", u64::from(len));
        k += 1;
    }
    Ok(())
}
/// every error there is, turned into one of input and output
fn b09_kinds(c: &mut Case) -> R {
    let b = c.idx as u8;
    let all: Vec<(Error, io::ErrorKind)> = vec![
        (Error::IO, io::ErrorKind::Other), (Error::EOF, io::ErrorKind::UnexpectedEof), (Error::ParseInt, io::ErrorKind::InvalidData),
        (Error::ParseBytes, io::ErrorKind::InvalidData), (Error::ParseString, io::ErrorKind::InvalidData), (Error::ParseList, io::ErrorKind::InvalidData),
        (Error::ParseDict, io::ErrorKind::InvalidData), (Error::InvalidChar(b), io::ErrorKind::InvalidData), (Error::ExpectedChar(b), io::ErrorKind::InvalidData),
        (Error::DepthLimit, io::ErrorKind::InvalidData), (Error::ItemLimit, io::ErrorKind::InvalidData)];
    for (e, k) in all {
        let d = format!("{:?}", e);
        let i = sut("io::Error::from", || io::Error::from(e))?;
        c.eval();
        ensure!(i.kind() == k, "{} becomes an I/O error of kind {:?} instead of {:?}", d, i.kind(), k);
        c.nontrivial(d.as_bytes());
        c.count("conversions");
    }
    Ok(())
}

// ------------------------------------------------------------------ B10
/// all comparisons of two values of one type
fn judge_pair<T: PartialEq + PartialOrd>(c: &mut Case, what: &str, a: &T, b: &T, want: std::cmp::Ordering, say: &dyn Fn() -> String) -> R {
    use std::cmp::Ordering::*;
    c.eval();
    let got = sut("comparison", || (a == b, a != b, a.partial_cmp(b), a < b, a <= b, a > b, a >= b))?;
    let exp = (want == Equal, want != Equal, Some(want), want == Less, want != Greater, want == Greater, want != Less);
    ensure!(got == exp, "comparing {} {}: (==, !=, order, <, <=, >, >=) is {:?} instead of {:?}", what, say(), got, exp);
    Ok(())
}
fn compared(c: &mut Case, a: &RVal, b: &RVal) -> R {
    let want = refs::compare(a, b);
    c.count(match want { std::cmp::Ordering::Equal => "equal", std::cmp::Ordering::Less => "less", _ => "greater" });
    let say = || format!("{} with {}", show(&encoded(a)), show(&encoded(b)));
    let (x, y) = (to_value(a), to_value(b));
    judge_pair(c, "owned", &x, &y, want, &say)?;
    judge_pair(c, "owned, turned round,", &y, &x, want.reverse(), &say)?;
    let (p, q) = (to_ref(a), to_ref(b));
    judge_pair(c, "borrowed", &p, &q, want, &say)?;
    judge_pair(c, "borrowed, turned round,", &q, &p, want.reverse(), &say)?;
    judge_pair(c, "a value and itself:", &x, &x, std::cmp::Ordering::Equal, &say)?;
    judge_pair(c, "a borrowed value and itself:", &p, &p, std::cmp::Ordering::Equal, &say)?;
    // however they came about
    let mut d = vec![];
    encode_sloppy(&mut c.g, a, &mut d);
    if let (Ok(x2), Ok(p2)) = (sut("decode", || Value::decode(&d))?, sut("decode", || ValueRef::decode(&d))?) {
        if same(&x2, a) && same_ref(&p2, a) {
            judge_pair(c, "a decoded value with", &x2, &y, want, &say)?;
            judge_pair(c, "a decoded borrowed value with", &p2, &q, want, &say)?;
            judge_pair(c, "a decoded value with the built one,", &x2, &x, std::cmp::Ordering::Equal, &say)?;
            c.count("decoded");
        }
    }
    Ok(())
}
fn b10(c: &mut Case) -> R {
    let a = gen_value(&mut c.g);
    note_val(c, &a);
    for _ in 0..3 {
        let mut b = a.clone();
        for _ in 0..c.g.below(3) { tweak(&mut c.g, &mut b); }
        if c.g.one_in(8) { b = gen_val(&mut c.g, 10, 3); }
        c.note(|| format!("and {}", show(&encoded(&b))));
        compared(c, &a, &b)?;
    }
    Ok(())
}
/// all pairs of small values
fn b10_small(c: &mut Case) -> R {
    let leaf = |k: usize| match k {
        0 => RVal::Int(0), 1 => RVal::Int(-1), 2 => RVal::Int(1), 3 => RVal::Int(i64::MAX), 4 => RVal::Int(i64::MIN),
        5 => RVal::Str(vec![]), 6 => RVal::Str(vec![0]), 7 => RVal::Str(b"a".to_vec()), 8 => RVal::Str(vec![0xff]), 9 => RVal::Str(b"ab".to_vec()), _ => RVal::Str(b"1".to_vec()),
    };
    let nth = |n: usize| -> RVal {
        let (shape, k) = (n % 6, n / 6);
        match shape {
            0 => leaf(k % 11),
            1 => RVal::List((0..k % 4).map(|i| leaf(k / 4 + i)).collect()),
            2 => RVal::List(vec![leaf(k % 11), leaf(k / 11)]),
            3 => dict_sort((0..k % 3).map(|i| (["", "a", "b", "aa"][(k / 3 + i) % 4].to_string(), leaf(k / 12))).collect()),
            4 => dict_sort(vec![(["", "a", "b"][k % 3].to_string(), leaf(k / 3 % 11)), ("c".into(), leaf(k / 33))]),
            _ => RVal::List(vec![RVal::List((0..k % 3).map(|i| leaf(k / 3 + i)).collect()), RVal::Dict(vec![])]),
        }
    };
    const N: usize = 240;
    let a = nth(c.idx as usize % N);
    for k in 0..N { let b = nth(k); compared(c, &a, &b)?; }
    c.nontrivial(&encoded(&a));
    Ok(())
}
/// a clone is equal, and goes its own way
fn b10_clone(c: &mut Case) -> R {
    let a = gen_value(&mut c.g);
    note_val(c, &a);
    let x = to_value(&a);
    let mut y = sut("clone", || x.clone())?;
    ensure!(same(&y, &a), "the clone of {} has other content: {}", show(&encoded(&a)), show(&encoded(&from_value(&y))));
    let mut b = a.clone();
    // changes to the clone, applied to the model as well
    match (&mut b, &mut y) {
        (RVal::List(m), v) => { let l = v.as_list_mut().ok_or("no list to change")?; m.push(RVal::Int(5)); l.push(Value::with_int(5)); if c.g.bool() { m.remove(0); l.remove(0); } }
        (RVal::Dict(m), v) => { let d = v.as_dict_mut().ok_or("no dictionary to change")?; d.insert("\0new".into(), Value::with_str("x")); m.push(("\0new".into(), RVal::Str(b"x".to_vec()))); b = match b { RVal::Dict(m) => { let mut m = m; let last = m.pop().unwrap(); m.retain(|e| e.0 != last.0); m.push(last); dict_sort(m) } o => o }; }
        (m, v) => { *v = Value::with_int(3); *m = RVal::Int(3); }
    }
    ensure!(same(&y, &b), "the changed clone of {} is {}", show(&encoded(&a)), show(&encoded(&from_value(&y))));
    ensure!(same(&x, &a), "changing the clone of {} changed it to {}", show(&encoded(&a)), show(&encoded(&from_value(&x))));
    let z = sut("clone", || y.clone())?;
    drop(y);
    ensure!(same(&z, &b), "dropping the original changed the clone of {}", show(&encoded(&b)));
    // borrowed
    let p = to_ref(&a);
    let mut q = sut("clone", || p.clone())?;
    ensure!(same_ref(&q, &a), "the clone of the borrowed {} has other content", show(&encoded(&a)));
    if let Some(l) = q.as_list_mut() { l.clear(); }
    if let Some(d) = q.as_dict_mut() { d.clear(); }
    ensure!(same_ref(&p, &a), "changing the clone of the borrowed {} changed it", show(&encoded(&a)));
    drop(q);
    let q = sut("clone", || p.clone())?;
    drop(p);
    ensure!(same_ref(&q, &a), "dropping the original changed the borrowed clone of {}", show(&encoded(&a)));
    c.count("cloned");
    Ok(())
}

// ------------------------------------------------------------------ X01
/// documents that differ in little, and values of them
fn x01(c: &mut Case) -> R {
    let mut docs: Vec<Vec<u8>> = vec![];
    let n = c.g.range(2, 5);
    while docs.len() < n {
        let d = match docs.last() {
            Some(d) if !c.g.one_in(3) => { let mut d = d.clone(); if c.g.one_in(3) { refs::transpose(&mut c.g, &mut d); } else if c.g.bool() && !d.is_empty() { let i = c.g.below(d.len()); d[i] = if d[i].is_ascii_digit() { b'0' + c.g.below(10) as u8 } else { *c.g.pick(b"lde:ia") }; } else { mutate(&mut c.g, &mut d); } d }
            _ => { let mut d = gen_doc(&mut c.g); d.truncate(4000); d }
        };
        docs.push(d);
    }
    c.nontrivial(&docs.concat());
    c.sample(|| docs.iter().map(|d| show(d)).collect::<Vec<_>>().join(" and "));
    let mut vals: Vec<RVal> = docs.iter().filter_map(|d| decode(d)).map(|x| x.0).collect();
    for _ in 0..2 {
        let mut v = if vals.is_empty() { gen_val(&mut c.g, 20, 4) } else { c.g.pick(&vals).clone() };
        tweak(&mut c.g, &mut v);
        vals.push(v);
    }
    let built: Vec<Value> = vals.iter().map(to_value).collect();
    let mut calls: Vec<Call> = vec![];
    for d in &docs {
        for _ in 0..2 {
            let (x, n) = if c.g.bool() { (None, None) } else { (some_limit(c, 3), some_limit(c, 8)) };
            calls.push(Call { what: format!("decoding {} with {:?} {:?}", show(d), x, n), f: Box::new(move || in_place(d, |b| format!("{:?}", if x.is_none() && n.is_none() { Value::decode(b) } else { Value::decode_with_limits(b, x, n) }))) });
            calls.push(Call { what: format!("borrowed decoding of {} with {:?} {:?}", show(d), x, n), f: Box::new(move || in_place(d, |b| format!("{:?}", if x.is_none() && n.is_none() { ValueRef::decode(b) } else { ValueRef::decode_with_limits(b, x, n) }))) });
        }
    }
    for (v, b) in vals.iter().zip(&built) {
        let say = show(&encoded(v));
        let key = match v { RVal::Dict(d) if !d.is_empty() => c.g.pick(d).0.clone(), _ => gen_key(&mut c.g) };
        let at = c.g.below(4);
        calls.push(Call { what: format!("encoding {}", say), f: Box::new(move || show(&b.to_vec()) + &b.to_string()) });
        calls.push(Call { what: format!("encoding the borrowed {}", say), f: Box::new(move || { let r = b.as_ref(); show(&r.to_vec()) + &r.to_string() }) });
        calls.push(Call { what: format!("copying {}", say), f: Box::new(move || format!("{:?} {:?}", b.as_ref().to_owned(), b.clone())) });
        calls.push(Call { what: format!("looking up {:?} and {} in {}", key, at, say), f: Box::new(move || format!("{:?} {:?} {:?} {:?} {:?} {:?}", b.dict_find(&key), b.dict_find_int_value(&key), b.dict_find_str_value(&key), b.dict_find_list_value(&key), b.list_at(at), (b.list_len(), b.dict_len(), b.list_int_value_at(at), b.list_string_value_at(at)))) });
        calls.push(Call { what: format!("encoding {} into a full writer", say), f: Box::new(move || { let mut buf = [0u8; 40]; let mut w = &mut buf[..at * 13]; let r = b.encode(&mut w).map_err(|e| e.kind()); let left = w.len(); format!("{:?} {} {}", r, left, show(&buf)) }) });
    }
    if let [a, b, ..] = &built[..] {
        calls.push(Call { what: "comparing two of them".into(), f: Box::new(move || format!("{:?} {} {:?}", a == b, a < b, a.partial_cmp(b))) });
    }
    isolated(c, &calls)
}

fn texts(v: &Value) -> usize {
    text(v.to_string()) + text(format!("{:?}", v)) + v.as_str().map_or(0, text)
        + v.as_list().map_or(0, |l| (0..l.len()).map(|k| v.list_string_value_at(k).map_or(0, text) + texts(&l[k])).sum())
        + v.as_dict().map_or(0, |d| d.iter().map(|(k, x)| text(k) + v.dict_find_str_value(k).map_or(0, text) + texts(x)).sum())
}
fn texts_ref(v: &ValueRef) -> usize {
    text(v.to_string()) + text(format!("{:?}", v)) + v.as_str().map_or(0, text)
        + v.as_list().map_or(0, |l| (0..l.len()).map(|k| v.list_string_value_at(k).map_or(0, text) + texts_ref(&l[k])).sum())
        + v.as_dict().map_or(0, |d| d.iter().map(|(k, x)| text(k) + v.dict_find_str_value(k).map_or(0, text) + texts_ref(x)).sum())
}

/// lying streams, values changed while in use, any limits: nothing may go wrong but a panic
fn misuse(c: &mut Case) -> R {
    use std::hint::black_box as bb;
    for _ in 0..if c.g.scale == 0 { 1 } else { 4 } {
        let doc = gen_doc(&mut c.g).into_boxed_slice();
        let lim = |g: &mut Gen| match g.below(3) { 0 => None, 1 => Some(g.len(20)), _ => Some(g.usize_any()) };
        let (d, i) = (lim(&mut c.g), lim(&mut c.g));
        c.note(|| format!("{} with {:?} {:?}", show(&doc), d, i));
        let k = c.g.usize_any();
        let key = c.g.word(20);
        any(c, || Value::decode_with_limits(&doc, d, i).map_err(|e| text(e.to_string()) + text(format!("{:?}", e))).is_ok());
        any(c, || ValueRef::decode_with_limits(&doc, d, i).map_err(|e| text(e.to_string()) + text(format!("{:?}", e))).is_ok());
        let r = gen_val(&mut c.g, 12, 3);
        any(c, || texts(&to_value(&r)));
        any(c, || texts_ref(&to_ref(&r)));
        if let Some(Ok(mut v)) = any(c, || Value::decode_with_limits(&doc, d, i)) {
            if doc.len() < 2000 { any(c, || texts(&v)); }
            for _ in 0..3 {
                let mut l = Liar(&mut c.g);
                let _ = sut("", || v.encode(&mut l));
            }
            any(c, || { bb(v.list_at(k)); bb(v.list_int_value_at(k)); bb(v.list_string_value_at(k)); bb(v.dict_find(&key)); bb(v.dict_find_str_value(&key)) .map(|s| s.len()) });
            any(c, || {
                let copy = v.clone();
                if let Some(l) = v.as_list_mut() { let x = Value::List(std::mem::take(l)); l.push(x); l.push(copy.clone()); }
                if let Some(m) = v.as_dict_mut() { let x = Value::Dict(std::mem::take(m)); m.insert(key.clone(), x); }
                (v == copy, v.partial_cmp(&copy), v.to_vec().len(), v.to_string().len(), v.as_ref().to_owned() == v)
            });
        }
        if let Some(Ok(v)) = any(c, || ValueRef::decode_with_limits(&doc, d, i)) {
            if doc.len() < 2000 { any(c, || texts_ref(&v)); }
            for _ in 0..3 {
                let mut l = Liar(&mut c.g);
                let _ = sut("", || v.encode(&mut l));
            }
            // parts outlive the value, not the document
            let s = any(c, || { let v = v.clone(); let s = v.dict_find_str_value("a").or(v.list_string_value_at(0)).or(v.as_str()); drop(v); s });
            bb(s.flatten().map(|s| s.bytes().map(u32::from).sum::<u32>()));
            any(c, || (v.to_owned() == v.to_owned(), v.to_string().len(), v.into_list().map(|l| l.len())));
        }
    }
    Ok(())
}

fn main() {
    frame::main(vec![
        Prop {
            id: "B01",
            rule: "a case encodes and decodes one generated value in both representations; distinct by canonical encoding",
            work: vec![
                Workload { name: "large", n: [4, 1150, 1600], f: b01_large },
                Workload { name: "random", n: [6, 12_000, 600_000], f: b01 },
                Workload { name: "sweep", n: [3, 700, 4000], f: b01_sweep },
                Workload { name: "ints", n: [2, 130, 4000], f: b01_ints },
            ],
            floors: &[("top_empty_str", 5), ("top_dict", 50), ("top_list", 50), ("parsed_as_text", 50)],
            assumptions: &["values are compared through the public variants, not through the code's own =="],
        },
        Prop {
            id: "B02",
            rule: "a case encodes one value in every way, or re-encodes one accepted document; distinct by canonical encoding or document",
            work: vec![
                Workload { name: "large", n: [4, 1150, 1600], f: b02_large },
                Workload { name: "random", n: [5, 12_000, 500_000], f: b02 },
                Workload { name: "normalise", n: [5, 12_000, 500_000], f: b02_normal },
            ],
            floors: &[("dict_orders", 100), ("normalised", 100), ("already_canonical", 50)],
            assumptions: &[],
        },
        Prop {
            id: "B03",
            rule: "a case compares both decoders with the reference grammar on one document (or a block of them); distinct by document",
            work: vec![
                Workload { name: "large", n: [4, 1150, 1600], f: b03_large },
                Workload { name: "random", n: [10, 30_000, 1_500_000], f: b03 },
                Workload { name: "truncate", n: [1, 400, 15_000], f: b03_truncate },
                Workload { name: "numbers", n: [2, 3000, 150_000], f: b03_numbers },
                // 9^0..9^6 = 597871 documents; the thorough tier goes on into length 7
                Workload { name: "exhaustive", n: [0, 1196, 10_000], f: b03_exhaustive },
            ],
            floors: &[("accepted", 1000), ("rejected", 1000)],
            assumptions: &["documents are shorter than 2^63 bytes"],
        },
        Prop {
            id: "B04",
            rule: "a case decodes one document with four limit settings in both representations; distinct by document",
            work: vec![
                Workload { name: "large", n: [4, 1150, 1600], f: b04_large },Workload { name: "random", n: [8, 25_000, 900_000], f: b04 }],
            floors: &[("both_accept", 500), ("both_reject", 500), ("slices_checked", 1000)],
            assumptions: &["an empty borrowed string may point anywhere"],
        },
        Prop {
            id: "B05",
            rule: "a case decodes one well-formed document under about 14 limit settings and with replaced tails; distinct by document",
            work: vec![
                Workload { name: "large", n: [4, 1150, 1600], f: b05_large },
                Workload { name: "random", n: [4, 4000, 150_000], f: b05 },
                Workload { name: "grid", n: [5, 150, 600], f: b05_grid },
            ],
            floors: &[("within", 500), ("depth_exceeded", 500), ("items_exceeded", 500), ("tail_replaced", 500)],
            assumptions: &[],
        },
        Prop {
            id: "B06",
            rule: "a case decodes one hostile document under a counting allocator and operates on the result; distinct by document",
            work: vec![
                Workload { name: "large", n: [4, 1150, 1150], f: b06_large },
                Workload { name: "hostile", n: [6, 4000, 100_000], f: b06 },
                Workload { name: "nested", n: [2, 400, 5000], f: b06_nested },
                Workload { name: "deep_probe", n: [0, 0, 0], f: b06_deep },
            ],
            floors: &[("accepted", 300), ("rejected", 300), ("operated", 100)],
            assumptions: &["a nesting deep enough to exhaust a 1 GiB stack is only tried by the deep_probe cases", "heap bound: 600 bytes per input byte + 32 KiB"],
        },
        Prop {
            id: "B07",
            rule: "a case calls every accessor of one value and of its parts with present and absent keys and indices; distinct by value",
            work: vec![
                Workload { name: "large", n: [4, 1150, 1600], f: b07_large },Workload { name: "random", n: [4, 5000, 250_000], f: b07 }],
            floors: &[("key_found", 500), ("key_absent", 500), ("mutated", 200)],
            assumptions: &[],
        },
        Prop {
            id: "B08",
            rule: "a case encodes one value into fault-injecting writers, failing at many or all byte offsets; distinct by value",
            work: vec![
                Workload { name: "large", n: [4, 1150, 1150], f: b08_large },Workload { name: "faults", n: [1, 1500, 60_000], f: b08 }],
            floors: &[("faults_fired", 1000), ("interrupts", 500), ("fault_free", 100)],
            assumptions: &["the writer obeys the io::Write contract"],
        },
        Prop {
            id: "B09",
            rule: "a case compares the errors of both decoders, with and without limits, with the first fault that a reference reader finds in one document (or a block of them); distinct by document",
            work: vec![
                Workload { name: "kinds", n: [2, 256, 256], f: b09_kinds },
                Workload { name: "exhaustive", n: [1, 1200, 10_700], f: b09_exhaustive },
                Workload { name: "planted", n: [6, 40_000, 2_000_000], f: b09_planted },
                Workload { name: "random", n: [8, 25_000, 1_000_000], f: b09 },
            ],
            floors: &[("short", 10_000), ("number", 3000), ("stray", 10_000), ("unended", 3000), ("pairs", 3000), ("deep", 1000), ("many", 1000), ("conversions", 2000)],
            assumptions: &["which error follows a complete value with something after it is not judged, only that there is one"],
        },
        Prop {
            id: "B10",
            rule: "a case compares one value in both representations with values that differ in a place or two, or not at all, or clones and changes it; distinct by value",
            work: vec![
                Workload { name: "small", n: [1, 240, 240], f: b10_small },
                Workload { name: "clone", n: [3, 4000, 200_000], f: b10_clone },
                Workload { name: "random", n: [6, 8000, 400_000], f: b10 },
            ],
            floors: &[("equal", 3000), ("less", 5000), ("greater", 5000), ("decoded", 10_000), ("cloned", 3000)],
            assumptions: &["values nested deeper than about 700 are not compared (recursion, see B06)"],
        },
        Prop {
            id: "X01",
            rule: "bencode: a case makes some 30 calls on documents and values that differ in little, in several orders and from several threads; distinct by documents",
            work: vec![Workload { name: "bencode_calls", n: [3, 3000, 150_000], f: x01 }],
            floors: &[("calls_repeated", 50_000), ("calls_from_threads", 20_000)],
            assumptions: &[],
        },
        Prop { id: "M01", rule: "", work: vec![Workload { name: "misuse", n: [4, 12_000, 200_000], f: misuse }], floors: &[], assumptions: &[] },
    ]);
}
