//! Reference implementations the oracles use. Written from the specifications (BEP 3, BEP 33,
//! FIPS 180, RFC 4648), independently of the code under test.
use crate::rng::Gen;
use std::io;

// ------------------------------------------------------------------ bencode
#[derive(Clone, Debug, PartialEq)]
pub enum RVal {
    Int(i64),
    Str(Vec<u8>),
    List(Vec<RVal>),
    /// ascending by key, unique
    Dict(Vec<(String, RVal)>),
}

impl RVal {
    pub fn get(&self, k: &str) -> Option<&RVal> {
        match self {
            RVal::Dict(d) => d.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn bytes(&self) -> Option<&[u8]> {
        match self { RVal::Str(s) => Some(s), _ => None }
    }
    pub fn text(&self) -> Option<&str> {
        self.bytes().and_then(|b| std::str::from_utf8(b).ok())
    }
    pub fn int(&self) -> Option<i64> {
        match self { RVal::Int(n) => Some(*n), _ => None }
    }
    pub fn list(&self) -> Option<&[RVal]> {
        match self { RVal::List(l) => Some(l), _ => None }
    }
    /// number of elements, keys included
    pub fn count(&self) -> usize {
        1 + match self {
            RVal::Int(_) | RVal::Str(_) => 0,
            RVal::List(l) => l.iter().map(|v| v.count()).sum(),
            RVal::Dict(d) => d.iter().map(|(_, v)| 1 + v.count()).sum(),
        }
    }
}

pub fn dict_sort(mut d: Vec<(String, RVal)>) -> RVal {
    // later duplicates are dropped
    let mut seen = std::collections::HashSet::new();
    d.retain(|(k, _)| seen.insert(k.clone()));
    d.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
    RVal::Dict(d)
}

pub fn dec(mut n: i128, out: &mut Vec<u8>) {
    if n < 0 {
        out.push(b'-');
        n = -n;
    }
    let mut t = [0u8; 40];
    let mut k = 40;
    loop {
        k -= 1;
        t[k] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 { break; }
    }
    out.extend_from_slice(&t[k..]);
}

pub fn encode(v: &RVal, out: &mut Vec<u8>) {
    let string = |s: &[u8], out: &mut Vec<u8>| {
        dec(s.len() as i128, out);
        out.push(b':');
        out.extend_from_slice(s);
    };
    match v {
        RVal::Int(n) => {
            out.push(b'i');
            dec(i128::from(*n), out);
            out.push(b'e');
        }
        RVal::Str(s) => string(s, out),
        RVal::List(l) => {
            out.push(b'l');
            for x in l { encode(x, out); }
            out.push(b'e');
        }
        RVal::Dict(d) => {
            out.push(b'd');
            for (k, x) in d {
                string(k.as_bytes(), out);
                encode(x, out);
            }
            out.push(b'e');
        }
    }
}
pub fn encoded(v: &RVal) -> Vec<u8> {
    let mut o = vec![];
    encode(v, &mut o);
    o
}

/// One element of a document as the decoder meets it, in input order.
#[derive(Clone, Copy, Debug)]
pub struct Elem {
    pub at: usize,
    /// containers around it
    pub depth: usize,
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
    elems: Vec<Elem>,
}

impl P<'_> {
    fn digits(&mut self) -> Option<Option<u64>> {
        // None: no digit; Some(None): overflow
        let s = self.i;
        let mut n: Option<u64> = Some(0);
        while self.i < self.b.len() && self.b[self.i].is_ascii_digit() {
            let d = u64::from(self.b[self.i] - b'0');
            n = n.and_then(|n| n.checked_mul(10)).and_then(|n| n.checked_add(d));
            self.i += 1;
        }
        if self.i == s { None } else { Some(n) }
    }
    fn val(&mut self, depth: usize) -> Option<RVal> {
        let c = *self.b.get(self.i)?;
        self.elems.push(Elem { at: self.i, depth });
        match c {
            b'i' => {
                self.i += 1;
                let neg = match self.b.get(self.i)? {
                    b'-' => { self.i += 1; true }
                    b'+' => { self.i += 1; false }
                    _ => false,
                };
                let n = self.digits()??;
                if *self.b.get(self.i)? != b'e' { return None; }
                self.i += 1;
                let n = if neg { -i128::from(n) } else { i128::from(n) };
                if n < i128::from(i64::MIN) || n > i128::from(i64::MAX) { return None; }
                Some(RVal::Int(n as i64))
            }
            b'0'..=b'9' => {
                let n = self.digits()?;
                if *self.b.get(self.i)? != b':' { return None; }
                self.i += 1;
                let n = n?;
                if n > (self.b.len() - self.i) as u64 { return None; }
                let s = &self.b[self.i..self.i + n as usize];
                self.i += n as usize;
                Some(RVal::Str(s.to_vec()))
            }
            b'l' => {
                self.i += 1;
                let mut l = vec![];
                loop {
                    if *self.b.get(self.i)? == b'e' {
                        self.i += 1;
                        return Some(RVal::List(l));
                    }
                    l.push(self.val(depth + 1)?);
                }
            }
            b'd' => {
                self.i += 1;
                let mut d: Vec<(String, RVal)> = vec![];
                loop {
                    if *self.b.get(self.i)? == b'e' {
                        self.i += 1;
                        return Some(dict_sort(d));
                    }
                    let k = match self.val(depth + 1)? {
                        RVal::Str(s) => String::from_utf8(s).ok()?,
                        _ => return None,
                    };
                    d.push((k, self.val(depth + 1)?));
                }
            }
            _ => None,
        }
    }
}

/// The value denoted by a complete document, with its elements in input order.
pub fn decode(b: &[u8]) -> Option<(RVal, Vec<Elem>)> {
    let mut p = P { b, i: 0, elems: vec![] };
    let v = p.val(0)?;
    if p.i == b.len() { Some((v, p.elems)) } else { None }
}

/// What is wrong with a document, as a reader from front to back meets it first.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Flaw {
    /// it ends before its value is complete
    Short,
    /// a number that is none, or does not fit
    Number,
    /// a byte that starts nothing
    Stray(u8),
    /// a number that is never ended by this
    Unended(u8),
    /// keys and values of a dictionary do not pair up, or a key is no text
    Pairs,
    Deep,
    Many,
    /// something after a complete value
    Trailing(u8),
}

pub fn first_fault(b: &[u8], depth: Option<usize>, items: Option<usize>) -> Option<Flaw> {
    use std::convert::TryFrom;
    // open containers: is a dictionary, elements so far, whether some key is no text
    let mut open: Vec<(bool, u64, bool)> = vec![];
    let mut seen = 0usize;
    let mut whole = false;
    let mut i = 0;
    while i < b.len() {
        let x = b[i];
        if x == b'e' {
            match open.pop() {
                None => return Some(if whole { Flaw::Trailing(x) } else { Flaw::Stray(x) }),
                Some((true, n, bad)) if n % 2 == 1 || bad => return Some(Flaw::Pairs),
                Some(_) => {}
            }
            i += 1;
            whole = open.is_empty();
            continue;
        }
        if whole { return Some(Flaw::Trailing(x)); }
        if matches!(depth, Some(d) if open.len() > d) { return Some(Flaw::Deep); }
        if matches!(items, Some(n) if seen > n) { return Some(Flaw::Many); }
        seen += 1;
        let mut is_text = false;
        let mut container = None;
        let start = i;
        match x {
            b'l' | b'd' => { container = Some(x == b'd'); i += 1; }
            b'i' | b'0'..=b'9' => {
                let stop = if x == b'i' { b'e' } else { b':' };
                let from = if x == b'i' { start + 1 } else { start };
                if from == b.len() { return Some(Flaw::Short); }
                let mut to = from;
                while to < b.len() && b[to] != stop { to += 1; }
                if to == b.len() { return Some(Flaw::Unended(stop)); }
                // sign, digits, in range
                let t = &b[from..to];
                let (neg, t) = match t.first() { Some(b'-') => (true, &t[1..]), Some(b'+') => (false, &t[1..]), _ => (false, t) };
                if t.is_empty() { return Some(Flaw::Number); }
                let mut n: i128 = 0;
                for d in t {
                    if !d.is_ascii_digit() { return Some(Flaw::Number); }
                    n = n * 10 + i128::from(d - b'0');
                    if n > 1 << 70 { n = 1 << 70; }
                }
                if neg { n = -n; }
                let Ok(n) = i64::try_from(n) else { return Some(Flaw::Number) };
                i = to + 1;
                if x != b'i' {
                    if n as u64 > (b.len() - i) as u64 { return Some(Flaw::Short); }
                    is_text = std::str::from_utf8(&b[i..i + n as usize]).is_ok();
                    i += n as usize;
                }
            }
            _ => return Some(Flaw::Stray(x)),
        }
        if let Some(t) = open.last_mut() {
            // every other element of a dictionary is a key
            if t.0 && t.1 % 2 == 0 && !is_text { t.2 = true; }
            t.1 += 1;
        }
        match container { Some(d) => open.push((d, 0, false)), None => whole = open.is_empty() }
    }
    if whole { None } else { Some(Flaw::Short) }
}

/// How two values compare by their content: integers before strings before lists before dictionaries.
pub fn compare(a: &RVal, b: &RVal) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    let rank = |v: &RVal| match v { RVal::Int(_) => 0, RVal::Str(_) => 1, RVal::List(_) => 2, RVal::Dict(_) => 3 };
    match (a, b) {
        (RVal::Int(x), RVal::Int(y)) => if x < y { Less } else if x > y { Greater } else { Equal },
        (RVal::Str(x), RVal::Str(y)) => bytes_cmp(x, y),
        (RVal::List(x), RVal::List(y)) => {
            for k in 0..x.len().min(y.len()) {
                let o = compare(&x[k], &y[k]);
                if o != Equal { return o; }
            }
            x.len().cmp(&y.len())
        }
        (RVal::Dict(x), RVal::Dict(y)) => {
            for k in 0..x.len().min(y.len()) {
                let o = bytes_cmp(x[k].0.as_bytes(), y[k].0.as_bytes());
                if o != Equal { return o; }
                let o = compare(&x[k].1, &y[k].1);
                if o != Equal { return o; }
            }
            x.len().cmp(&y.len())
        }
        _ => if rank(a) < rank(b) { Less } else { Greater },
    }
}
fn bytes_cmp(x: &[u8], y: &[u8]) -> std::cmp::Ordering {
    for k in 0..x.len().min(y.len()) {
        if x[k] != y[k] { return if x[k] < y[k] { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater }; }
    }
    x.len().cmp(&y.len())
}

/// Changes one place of a value a little (or gives it as it is, rarely).
pub fn tweak(g: &mut Gen, v: &mut RVal) {
    let other = |g: &mut Gen| gen_val(g, 2, 1);
    match v {
        RVal::Int(n) => match g.below(6) {
            0 => *v = RVal::Str(n.to_string().into_bytes()),
            1 => *n = n.wrapping_neg(),
            2 => *n ^= 1 << g.below(64),
            3 => *v = RVal::List(vec![RVal::Int(*n)]),
            _ => *n = if g.bool() { n.wrapping_add(1) } else { n.wrapping_sub(1) },
        },
        RVal::Str(s) => match g.below(7) {
            0 => s.push(*g.pick(&[0u8, 0xff, b'0', b' '])),
            1 => { s.pop(); }
            2 if !s.is_empty() => { let k = g.below(s.len()); s[k] ^= 1 << g.below(8); }
            3 if !s.is_empty() => { let k = s.len() - 1; s[k] = s[k].wrapping_add(1); }
            4 if s.len() > 1 => { let k = g.below(s.len() - 1); s.swap(k, k + 1); }
            5 => *v = RVal::List(vec![RVal::Str(s.clone())]),
            _ => { let k = g.below(s.len() + 1); s.insert(k, g.byte()); }
        },
        RVal::List(l) => match g.below(8) {
            0 => { let x = other(g); l.push(x); }
            1 => { l.pop(); }
            2 if l.len() > 1 => { let k = g.below(l.len() - 1); l.swap(k, k + 1); }
            3 if !l.is_empty() => { let k = g.below(l.len()); let x = l[k].clone(); l.insert(k, x); }
            4 if g.one_in(3) => *v = RVal::Dict(vec![]),
            _ if l.is_empty() => l.push(RVal::Int(0)),
            _ => { let k = if g.bool() { l.len() - 1 } else { g.below(l.len()) }; tweak(g, &mut l[k]); }
        },
        RVal::Dict(d) => {
            let mut e = std::mem::take(d);
            match g.below(8) {
                0 => { let k = gen_key(g); let x = other(g); e.push((k, x)); }
                1 => { if !e.is_empty() { let k = g.below(e.len()); e.remove(k); } }
                2 if !e.is_empty() => { let k = g.below(e.len()); let c = *g.pick(&['\0', 'a', '~', 'é']); e[k].0.push(c); }
                3 if e.len() > 1 => { let k = g.below(e.len() - 1); let t = e[k].1.clone(); e[k].1 = std::mem::replace(&mut e[k + 1].1, t); }
                4 if !e.is_empty() => { let k = g.below(e.len()); e[k].0.pop(); }
                _ if e.is_empty() => e.push((String::new(), RVal::Int(0))),
                _ => { let k = if g.bool() { e.len() - 1 } else { g.below(e.len()) }; tweak(g, &mut e[k].1); }
            }
            *v = dict_sort(e);
        }
    }
}

// ------------------------------------------------------------------ generation of values and documents
pub fn gen_key(g: &mut Gen) -> String {
    match g.below(7) {
        0 => String::new(),
        1 | 2 => { let n = g.range(1, 3); (0..n).map(|_| *g.pick(&['a', 'b', 'Z', '0', '\0', '~', 'é', '\u{ffff}', '\u{10000}', 'e'])).collect() }
        3 => { let n = g.len(30); g.text(n) }
        4 => format!("{}{}", "k".repeat(g.below(4)), g.below(30)),
        5 => g.word(60),
        _ => g.pick(&["info", "length", "pieces", "nodes", "nodes6", "node-id", "values", "a", "aa", "ab", "n", "v", "id", "t", "y", "q"]).to_string(),
    }
}

/// A random value of at most about `budget` elements.
pub fn gen_val(g: &mut Gen, budget: usize, depth: usize) -> RVal {
    let leafy = budget <= 1 || depth == 0;
    match if leafy { g.below(4) } else { g.below(10) } {
        0 | 1 => RVal::Int(g.int()),
        2 | 3 => {
            let m = if g.one_in(40) && g.scale > 0 { 70_000 } else { 300 };
            RVal::Str(if g.one_in(6) { vec![] } else { g.blob(m) })
        }
        k => {
            let n = g.len(budget.min(if g.scale == 2 { 2000 } else { 300 }));
            let sub = if n == 0 { 0 } else { (budget - n.min(budget)) / n + 1 };
            let deep = if g.one_in(3) { 0 } else { depth - 1 };
            if k < 7 {
                RVal::List((0..n).map(|_| gen_val(g, sub, deep)).collect())
            } else {
                dict_sort((0..n).map(|_| (gen_key(g), gen_val(g, sub, deep))).collect())
            }
        }
    }
}
pub fn gen_value(g: &mut Gen) -> RVal {
    let micro = g.scale == 0;
    let budget = match g.below(8) {
        0 => 1,
        1 | 2 => 5,
        3 | 4 | 5 => 40,
        6 => if micro { 20 } else { 400 },
        _ => if micro { 20 } else { 3000 },
    };
    let mut depth = match g.below(6) { 0 => 1, 1 | 2 => 4, 3 | 4 => 12, _ => if micro { 10 } else { 60 } };
    if micro { depth = depth.min(10) }
    let v = gen_val(g, budget, depth);
    // chains: nesting far beyond what random branching gives
    if g.one_in(8) {
        let mut v = v;
        for _ in 0..g.len(if micro { 20 } else { 700 }) {
            v = if g.bool() { RVal::List(vec![v]) } else { RVal::Dict(vec![(gen_key(g), v)]) };
        }
        return v;
    }
    v
}

fn sloppy_num(g: &mut Gen, n: i128, out: &mut Vec<u8>, sign: bool) {
    if n < 0 || (n == 0 && sign && g.one_in(4)) {
        out.push(b'-');
    } else if sign && g.one_in(8) {
        out.push(b'+');
    }
    if g.one_in(4) {
        let k = g.len(30);
        out.extend(std::iter::repeat(b'0').take(k));
    }
    dec(n.abs(), out);
}
/// An accepted but not necessarily canonical encoding: leading zeros, plus signs, unsorted and
/// duplicate keys.
pub fn encode_sloppy(g: &mut Gen, v: &RVal, out: &mut Vec<u8>) {
    match v {
        RVal::Int(n) => {
            out.push(b'i');
            sloppy_num(g, i128::from(*n), out, true);
            out.push(b'e');
        }
        RVal::Str(s) => {
            sloppy_num(g, s.len() as i128, out, false);
            out.push(b':');
            out.extend_from_slice(s);
        }
        RVal::List(l) => {
            out.push(b'l');
            for x in l { encode_sloppy(g, x, out); }
            out.push(b'e');
        }
        RVal::Dict(d) => {
            let mut ord: Vec<usize> = (0..d.len()).collect();
            if g.bool() { g.shuffle(&mut ord); }
            out.push(b'd');
            for (n, &k) in ord.iter().enumerate() {
                sloppy_num(g, d[k].0.len() as i128, out, false);
                out.push(b':');
                out.extend_from_slice(d[k].0.as_bytes());
                encode_sloppy(g, &d[k].1, out);
                if g.one_in(10) {
                    // a duplicate of an earlier key: ignored
                    let e = ord[g.below(n + 1)];
                    encode_sloppy(g, &RVal::Str(d[e].0.clone().into_bytes()), out);
                    let dup = gen_val(g, 3, 1);
                    encode(&dup, out);
                }
            }
            out.push(b'e');
        }
    }
}

const TOKENS: &[&[u8]] = &[
    b"i", b"l", b"d", b"e", b"e", b"e", b"0:", b"1:a", b"1:e", b"2:ab", b"i0e", b"i1e", b"i-1e", b"ie", b"i-e", b"i+e", b"i+1e",
    b"i-0e", b"i00e", b"01:a", b"1:", b"5:abc", b"10:", b":", b"-", b"+", b"0", b"1", b"9", b"le", b"de", b"d1:a", b"1:\xff",
    b"2:\xc3\xa9", b"i9223372036854775807e", b"i9223372036854775808e", b"i-9223372036854775808e", b"i-9223372036854775809e",
    b"9223372036854775807:", b"18446744073709551615:", b"18446744073709551616:x", b"99999999999999999999999:", b"4294967296:",
    b" ", b"\n", b"i 1e", b"i1 e", b"i1.0e", b"i0x1e", b"\x00", b"\xff", b"-1:a", b"+1:a", b"1 :a", b"I1e", b"L", b"D", b"E",
];

/// Any document: valid, sloppy, mutated, token soup, raw.
pub fn gen_doc(g: &mut Gen) -> Vec<u8> {
    let kind = g.below(12);
    if kind == 0 {
        return g.blob(400);
    }
    if kind <= 2 {
        let n = g.len(40);
        let mut v = vec![];
        for _ in 0..n { v.extend_from_slice(g.pick::<&[u8]>(TOKENS)); }
        return v;
    }
    let v = gen_value(g);
    let mut b = vec![];
    if kind <= 6 { encode_sloppy(g, &v, &mut b) } else { encode(&v, &mut b) }
    if kind >= 5 && kind != 7 {
        let n = 1 + g.len(6);
        for _ in 0..n { mutate(g, &mut b); }
    }
    b
}

/// Swaps two bytes of a kind, so that length and sum stay.
pub fn transpose(g: &mut Gen, b: &mut [u8]) {
    let kind = |x: u8| match x { b'0'..=b'9' => 0, b'a'..=b'z' => 1, b'A'..=b'Z' => 2, _ => 3 };
    if b.is_empty() { return; }
    for _ in 0..8 {
        let i = g.below(b.len());
        let js: Vec<usize> = (0..b.len()).filter(|&j| b[j] != b[i] && kind(b[j]) == kind(b[i])).collect();
        if js.is_empty() { continue; }
        let j = *g.pick(&js);
        b.swap(i, j);
        return;
    }
}
pub fn mutate(g: &mut Gen, b: &mut Vec<u8>) {
    if b.is_empty() {
        let x = g.bytes(1);
        b.extend(x);
        return;
    }
    let i = g.below(b.len());
    match g.below(11) {
        0 => b[i] ^= 1 << g.below(8),
        1 => b[i] = g.u64() as u8,
        2 => b[i] = *g.pick(b"ilde:-+0123456789"),
        3 => { b.remove(i); }
        4 => { let x = *g.pick(b"ilde:-+0123456789"); b.insert(i, x); }
        5 => b.truncate(i),
        6 => { let t = g.pick::<&[u8]>(TOKENS).to_vec(); b.splice(i..i, t); }
        7 => { let j = g.range(i, (i + 20).min(b.len() - 1)); let s = b[i..j].to_vec(); b.splice(i..i, s); }
        8 => { let t = g.pick::<&[u8]>(TOKENS).to_vec(); b.extend(t); }
        9 => {
            // change a number
            if let Some(j) = b.iter().position(|c| c.is_ascii_digit()).map(|f| {
                let all: Vec<usize> = (f..b.len()).filter(|&k| b[k].is_ascii_digit()).collect();
                *g.pick(&all)
            }) {
                b[j] = b'0' + g.below(10) as u8;
            }
        }
        _ => { let j = (i + g.below(8)).min(b.len()); b.drain(i..j); }
    }
}

// ------------------------------------------------------------------ SHA-1
pub fn sha1(m: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    let mut p = m.to_vec();
    p.push(0x80);
    while p.len() % 64 != 56 { p.push(0); }
    p.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
    for blk in p.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 { w[i] = u32::from_be_bytes([blk[4 * i], blk[4 * i + 1], blk[4 * i + 2], blk[4 * i + 3]]); }
        for i in 16..80 { w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1); }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (i, x) in w.iter().enumerate() {
            let (f, k) = match i {
                0..=19 => ((b & c) | (!b & d), 0x5a827999u32),
                20..=39 => (b ^ c ^ d, 0x6ed9eba1),
                40..=59 => ((b & c) | (b & d) | (c & d), 0x8f1bbcdc),
                _ => (b ^ c ^ d, 0xca62c1d6),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*x);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) { *x = x.wrapping_add(y); }
    }
    let mut o = [0; 20];
    for (i, x) in h.iter().enumerate() { o[4 * i..4 * i + 4].copy_from_slice(&x.to_be_bytes()); }
    o
}

// ------------------------------------------------------------------ 160-bit integers, one bool per bit, most significant first
pub type Bits = [bool; 160];
pub fn bits(b: &[u8]) -> Bits {
    let mut o = [false; 160];
    for i in 0..160 { o[i] = b[i / 8] & (0x80 >> (i % 8)) != 0; }
    o
}
pub fn unbits(b: &Bits) -> [u8; 20] {
    let mut o = [0; 20];
    for i in 0..160 { if b[i] { o[i / 8] |= 0x80 >> (i % 8); } }
    o
}
pub fn shl(b: &[u8], n: usize) -> [u8; 20] {
    let x = bits(b);
    let mut o = [false; 160];
    for i in 0usize..160 { if let Some(j) = i.checked_add(n) { if j < 160 { o[i] = x[j]; } } }
    unbits(&o)
}
pub fn shr(b: &[u8], n: usize) -> [u8; 20] {
    let x = bits(b);
    let mut o = [false; 160];
    for i in 0..160 { if i >= n { o[i] = x[i - n]; } }
    unbits(&o)
}
/// position of the highest set bit, None for zero
pub fn top_bit(b: &[u8]) -> Option<usize> {
    bits(b).iter().position(|&x| x).map(|p| 159 - p)
}

// ------------------------------------------------------------------ text encodings
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        for n in [c / 16, c % 16] { s.push(char::from_digit(u32::from(n), 16).unwrap()); }
    }
    s
}
pub fn hexval(c: u8) -> Option<u8> {
    (c as char).to_digit(16).filter(|_| c < 128).map(|d| d as u8)
}
pub fn base32(b: &[u8], pad: bool) -> String {
    const A: &[u8; 32] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
    let mut s = String::new();
    let mut acc = 0u32;
    let mut n = 0;
    for &c in b {
        acc = acc << 8 | u32::from(c);
        n += 8;
        while n >= 5 {
            n -= 5;
            s.push(A[(acc >> n & 31) as usize] as char);
        }
        acc &= (1 << n) - 1;
    }
    if n > 0 { s.push(A[(acc << (5 - n) & 31) as usize] as char); }
    while pad && s.len() % 8 != 0 { s.push('='); }
    s
}
pub fn random_case(g: &mut Gen, s: &str) -> String {
    let mode = g.below(3);
    s.chars().map(|c| match mode { 0 => c.to_ascii_lowercase(), 1 => c.to_ascii_uppercase(), _ => if g.bool() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() } }).collect()
}
/// Percent-encodes, escaping what must be and anything else at random.
pub fn percent(g: &mut Gen, b: &[u8], plus: bool) -> String {
    let mode = g.below(3);
    let mut s = String::new();
    for &c in b {
        let safe = c.is_ascii_alphanumeric() || b"-._~:/[]".contains(&c);
        if c == b' ' && plus && g.bool() {
            s.push('+');
        } else if safe && (mode == 0 || (mode == 1 && !g.one_in(4))) {
            s.push(c as char);
        } else {
            let h = hex(&[c]);
            s.push('%');
            s.push_str(&random_case(g, &h));
        }
    }
    s
}

// ------------------------------------------------------------------ bloom filters (BEP 33 bit selection)
pub fn bloom_bits(key: &[u8], len: usize) -> (usize, usize) {
    let a = usize::from(key[0]) + 256 * usize::from(key[1]);
    let b = usize::from(key[2]) + 256 * usize::from(key[3]);
    (a % (len * 8), b % (len * 8))
}
#[derive(Clone)]
pub struct RBloom { pub set: Vec<bool> }
impl RBloom {
    pub fn new(len: usize) -> RBloom { RBloom { set: vec![false; len * 8] } }
    pub fn add(&mut self, key: &[u8]) {
        let (a, b) = bloom_bits(key, self.set.len() / 8);
        self.set[a] = true;
        self.set[b] = true;
    }
    pub fn has(&self, key: &[u8]) -> bool {
        let (a, b) = bloom_bits(key, self.set.len() / 8);
        self.set[a] && self.set[b]
    }
    pub fn bytes(&self) -> Vec<u8> {
        // bit i of the filter is bit i%8 (least significant first) of byte i/8
        self.set.chunks(8).map(|c| c.iter().enumerate().map(|(i, &x)| u8::from(x) << i).sum()).collect()
    }
}

// ------------------------------------------------------------------ fault-injecting streams
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// error with this kind once `0` bytes were accepted
    Err(usize, io::ErrorKind),
    /// the stream accepts nothing more (Ok(0)) after so many bytes
    Full(usize),
}
/// Accepts short writes, interrupts at random, and fails where told.
pub struct BadWriter<'a> {
    pub g: &'a mut Gen,
    pub fault: Fault,
    pub max_chunk: usize,
    pub interrupts: usize,
    pub got: Vec<u8>,
    pub failed: usize,
    pub writes_after_failure: usize,
    pub interrupted: usize,
    /// works again after the first failure
    pub once: bool,
}
pub const MARK: &str = "injected-fault-71b3";
impl<'a> BadWriter<'a> {
    pub fn new(g: &'a mut Gen, fault: Fault, max_chunk: usize, interrupts: usize) -> Self {
        BadWriter { g, fault, max_chunk, interrupts, got: vec![], failed: 0, writes_after_failure: 0, interrupted: 0, once: false }
    }
}
impl io::Write for BadWriter<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed > 0 {
            self.writes_after_failure += 1;
        }
        if b.is_empty() { return Ok(0); }
        if self.interrupts > 0 && self.g.one_in(self.interrupts) && self.failed == 0 {
            self.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(self.g.range(1, self.max_chunk));
        match self.fault {
            _ if self.once && self.failed > 0 => {}
            Fault::None => {}
            Fault::Err(at, k) => {
                n = n.min(at - self.got.len());
                if n == 0 {
                    self.failed += 1;
                    return Err(io::Error::new(k, MARK));
                }
            }
            Fault::Full(at) => {
                n = n.min(at - self.got.len());
                if n == 0 {
                    self.failed += 1;
                    return Ok(0);
                }
            }
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
pub struct BadReader<'a> {
    pub g: &'a mut Gen,
    pub data: &'a [u8],
    pub pos: usize,
    pub max_chunk: usize,
    pub interrupts: usize,
    /// error once this many bytes were delivered
    pub fail_at: Option<(usize, io::ErrorKind)>,
    /// works again after the first failure
    pub once: bool,
    pub interrupted: usize,
}
impl io::Read for BadReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        if self.interrupts > 0 && self.g.one_in(self.interrupts) {
            self.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(self.g.range(1, self.max_chunk)).min(self.data.len() - self.pos);
        if let Some((at, k)) = self.fail_at {
            n = n.min(at.saturating_sub(self.pos));
            if n == 0 && self.pos >= at { if self.once { self.fail_at = None; } return Err(io::Error::new(k, MARK)); }
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn known_vectors() {
        assert_eq!(hex(&sha1(b"")), "da39a3ee5e6b4b0d3255bfef95601890afd80709");
        assert_eq!(hex(&sha1(b"abc")), "a9993e364706816aba3e25717850c26c9cd0d89d");
        assert_eq!(hex(&sha1(&[b'a'; 1000000])), "34aa973cd4c4daa4f61eeb2bdbad27316534016f");
        assert_eq!(base32(b"foobar", true), "MZXW6YTBOI======");
        assert_eq!(base32(b"fooba", false), "MZXW6YTB");
        assert_eq!(base32(b"f", true), "MY======");
    }
}

/// A reader or writer in safe code that keeps no promise: claims any count, leaves data out, panics.
pub struct Liar<'a>(pub &'a mut Gen);
impl Liar<'_> {
    fn claim(&mut self, n: usize) -> io::Result<usize> {
        match self.0.below(8) {
            0 => Ok(n + 1),
            1 => Ok(usize::MAX),
            2 => Ok(n * 2 + 1),
            3 => panic!("a panicking stream"),
            4 => Err(io::ErrorKind::Other.into()),
            _ => Ok(self.0.below(n + 1)),
        }
    }
}
impl io::Read for Liar<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let k = self.0.below(b.len() + 1);
        b[..k].fill(0x41);
        self.claim(b.len())
    }
}
impl io::Write for Liar<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.claim(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
