use common::bloom_filter::{BloomFilter128, BloomFilter256};
use common::sha1::Sha1Hash;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use vpmon::refs;
use vpmon::*;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// 160-bit numbers of very different kinds
fn hash_bytes(g: &mut Gen) -> [u8; 20] {
    match g.below(10) {
        8 => { let x = g.byte(); [x; 20] }
        9 => { let p = g.range(1, 20); let mut b: [u8; 20] = g.arr(); for x in b.iter_mut() { if g.below(p + 1) > 0 { *x = g.byte(); } } b }
        0 => [*g.pick(&[0u8, 0xff, 1, 0x80, 0x7f, 0xaa]); 20],
        1 => {
            // a single set (or cleared) bit
            let mut b = [0u8; 20];
            let i = g.below(160);
            b[i / 8] = 0x80 >> (i % 8);
            if g.bool() { b.iter_mut().for_each(|x| *x = !*x); }
            b
        }
        2 => {
            // a run of ones
            let (i, j) = (g.below(160), g.below(160));
            let mut x = [false; 160];
            for k in i.min(j)..=i.max(j) { x[k] = true; }
            refs::unbits(&x)
        }
        3 => {
            // leading zero bytes
            let mut b: [u8; 20] = g.arr();
            let k = g.below(21);
            b[..k].iter_mut().for_each(|x| *x = 0);
            b
        }
        4 => {
            let mut b: [u8; 20] = g.arr();
            let k = g.below(21);
            b[k..].iter_mut().for_each(|x| *x = 0);
            b
        }
        5 => {
            let mut b = [0u8; 20];
            let i = g.below(20);
            b[i] = g.u64() as u8;
            b
        }
        _ => g.arr(),
    }
}
/// usually related to `a`
fn second(g: &mut Gen, a: &[u8; 20]) -> [u8; 20] {
    let mut b = *a;
    match g.below(8) {
        // a part in common
        6 => { let k = g.below(21); let r: [u8; 20] = g.arr(); if g.bool() { b[..k].copy_from_slice(&r[..k]) } else { b[k..].copy_from_slice(&r[k..]) }; b }
        // neighbours as numbers
        7 => { let up = g.bool(); for x in b.iter_mut().rev() { if up { *x = x.wrapping_add(1); if *x != 0 { break; } } else { *x = x.wrapping_sub(1); if *x != 0xff { break; } } } b }
        0 => b,
        1 => { let i = g.below(20); b[i] = if g.bool() { g.byte() } else { g.u64() as u8 }; b }
        2 => { let i = g.below(160); b[i / 8] ^= 0x80 >> (i % 8); b }
        3 => { b.iter_mut().for_each(|x| *x = !*x); b }
        _ => hash_bytes(g),
    }
}

// ------------------------------------------------------------------ H01
fn h01(c: &mut Case) -> R {
    let b = match c.g.below(4) { 0 => { let n = c.g.len(400); c.g.bytes(n) } 1 => c.g.blob(300), 2 => { let n = c.g.below(40); c.g.bytes(n) } _ => hash_bytes(&mut c.g).to_vec() };
    h01_bytes(c, b)
}
/// long texts, valid or with one fault
fn h01_large(c: &mut Case) -> R {
    let n = if c.g.scale == 0 { 8 } else { c.g.sweep((c.idx / 2) as usize, 1, 100_000) };
    let b = match c.g.below(3) { 0 => vec![c.g.byte(); n], _ => c.g.bytes(n) };
    c.max("size", n as u64);
    c.count("large");
    if c.idx % 2 == 0 { return h01_bytes(c, b); }
    let mut s = refs::hex(&b).into_bytes();
    match c.g.below(3) { 0 => { s.pop(); } 1 => s.push(b'0'), _ => {} }
    if !s.is_empty() && c.g.bool() { let i = match c.g.below(3) { 0 => s.len() - 1, 1 => 0, _ => c.g.below(s.len()) }; s[i] = c.g.byte(); }
    judge_hex(c, &s)
}
fn h01_bytes(c: &mut Case, b: Vec<u8>) -> R {
    c.nontrivial(&b);
    c.note(|| format!("bytes {}", show(&b)));
    c.sample(|| show(&b));
    let want = refs::hex(&b);
    let got = sut("to_hex", || common::hex::to_hex(&b))?;
    ensure!(got == want, "to_hex({}) is {:?}, not {:?}", show(&b), got, want);
    let t = refs::random_case(&mut c.g, &want);
    ensure!(sut("is_hex", || common::hex::is_hex(t.as_bytes()))?, "is_hex({:?}) is false", t);
    // decode into a larger buffer between canaries
    let extra = if c.g.bool() { 0 } else { c.g.range(1, 9) };
    let fill = c.g.u64() as u8;
    let mut out = vec![fill; b.len() + extra];
    let r = sut("from_hex", || common::hex::from_hex(t.as_bytes(), &mut out))?;
    ensure!(r.is_some(), "from_hex({:?}) reports failure", t);
    ensure!(out[..b.len()] == b[..], "from_hex({:?}) gives {} instead of {}", t, show(&out[..b.len()]), show(&b));
    ensure!(out[b.len()..].iter().all(|&x| x == fill), "from_hex({:?}) changed the buffer beyond its {} bytes", t, b.len());
    c.count("decoded");
    Ok(())
}
fn judge_hex(c: &mut Case, s: &[u8]) -> R {
    let chars = s.iter().all(|&x| refs::hexval(x).is_some());
    let want = chars && s.len() % 2 == 0;
    let got = sut("is_hex", || common::hex::is_hex(s))?;
    ensure!(got == chars, "is_hex({}) is {}", show(s), got);
    let fill = c.g.u64() as u8;
    let mut out = vec![fill; s.len() / 2 + 3];
    let r = sut("from_hex", || common::hex::from_hex(s, &mut out))?;
    ensure!(r.is_some() == want, "from_hex({}) reports success={}", show(s), r.is_some());
    if want {
        let w: Vec<u8> = s.chunks(2).map(|p| refs::hexval(p[0]).unwrap() * 16 + refs::hexval(p[1]).unwrap()).collect();
        ensure!(out[..w.len()] == w[..], "from_hex({}) gives {} instead of {}", show(s), show(&out[..w.len()]), show(&w));
        c.count("accepted");
    } else {
        c.count("rejected");
    }
    ensure!(out[s.len() / 2..].iter().all(|&x| x == fill), "from_hex({}) changed the buffer beyond {} bytes", show(s), s.len() / 2);
    c.eval();
    Ok(())
}
fn h01_junk(c: &mut Case) -> R {
    let mut s = match c.g.below(5) {
        0 => c.g.blob(120),
        1 => { let n = c.g.len(90); c.g.bytes(n) }
        _ => { let n = c.g.len(45); let b = c.g.bytes(n); let h = refs::hex(&b); refs::random_case(&mut c.g, &h).into_bytes() }
    };
    for _ in 0..c.g.below(3) {
        if s.is_empty() { break; }
        let i = c.g.below(s.len());
        match c.g.below(4) {
            0 => s[i] = *c.g.pick(b"gG@`/:xX -\0\x7f\x80"),
            1 => s[i] = c.g.byte(),
            2 => { s.remove(i); }
            _ => s.push(b'a'),
        }
    }
    c.nontrivial(&s);
    c.note(|| format!("text {}", show(&s)));
    judge_hex(c, &s)
}
/// every single byte, and every pair of bytes
fn h01_pairs(c: &mut Case) -> R {
    let a = (c.idx % 256) as u8;
    let got = sut("hex_to_int", || common::hex::hex_to_int(a))?;
    ensure!(got == refs::hexval(a), "hex_to_int({:?}) is {:?}", a as char, got);
    judge_hex(c, &[a])?;
    let step = if c.g.scale == 0 { 37 } else { 1 };
    for b in (0..=255u8).step_by(step) {
        judge_hex(c, &[a, b])?;
        c.nontrivial(&[a, b]);
    }
    Ok(())
}

// ------------------------------------------------------------------ S01
#[repr(C)]
struct Framed {
    before: [u8; 200],
    h: Sha1Hash,
    after: [u8; 200],
}
fn shift(c: &mut Case, b: [u8; 20], n: usize, left: bool) -> R {
    c.eval();
    let mut f = Framed { before: [0x5a; 200], h: Sha1Hash::from(b), after: [0xa5; 200] };
    let want = if left { refs::shl(&b, n) } else { refs::shr(&b, n) };
    let name = if left { "<<" } else { ">>" };
    sut("shift", || {
        let f = std::hint::black_box(&mut f);
        if left { f.h <<= n } else { f.h >>= n }
    })?;
    let f = std::hint::black_box(&f);
    ensure!(f.h[..] == want[..], "{} {}= {} gives {} instead of {}", refs::hex(&b), name, n, refs::hex(&f.h), refs::hex(&want));
    ensure!(f.before == [0x5a; 200], "{} {}= {} changed memory before the hash", refs::hex(&b), name, n);
    ensure!(f.after == [0xa5; 200], "{} {}= {} changed memory after the hash", refs::hex(&b), name, n);
    c.count("canaries_checked");
    // on the heap as well, where memory checkers see the exact object
    let mut h = Box::new(Sha1Hash::from(b));
    sut("shift", || { if left { *h <<= n } else { *h >>= n } })?;
    ensure!(h[..] == want[..], "{} {}= {} on the heap gives {} instead of {}", refs::hex(&b), name, n, refs::hex(&h), refs::hex(&want));
    Ok(())
}
fn s01(c: &mut Case) -> R {
    let b = hash_bytes(&mut c.g);
    let n = match c.g.below(8) { 0 => c.g.usize_any(), 1 => c.g.range(150, 330), 2 => 8 * c.g.below(25), _ => c.g.below(162) };
    let left = c.g.bool();
    c.nontrivial(&[&b[..], &n.to_le_bytes(), &[left as u8]].concat());
    c.note(|| format!("{} shifted {} by {}", refs::hex(&b), if left { "left" } else { "right" }, n));
    c.sample(|| format!("{} shifted {} by {}", refs::hex(&b), if left { "left" } else { "right" }, n));
    shift(c, b, n, left)
}
/// every amount from 0 to 400 on several hashes
fn s01_sweep(c: &mut Case) -> R {
    let n = (c.idx % 401) as usize;
    let k = if c.g.scale == 0 { 1 } else { 8 };
    for _ in 0..k {
        let b = hash_bytes(&mut c.g);
        for left in [true, false] {
            c.nontrivial(&[&b[..], &n.to_le_bytes(), &[left as u8]].concat());
            shift(c, b, n, left)?;
        }
    }
    if n >= 160 { c.count("shifted_out") } else { c.count("shifted_within") }
    Ok(())
}

// ------------------------------------------------------------------ S02
macro_rules! forms {
    ($c:expr, $name:expr, $a:expr, $b:expr, $op:tt, $opa:tt, $w:expr) => {{
        let (a, b, w) = ($a, $b, $w);
        let (x, y) = (Sha1Hash::from(a), Sha1Hash::from(b));
        let res: Vec<Sha1Hash> = sut($name, || {
            let mut v = vec![];
            v.push(x.clone() $op y.clone());
            v.push(x.clone() $op &y);
            v.push(&x $op &y);
            v.push(&x $op y.clone());
            let mut z = x.clone();
            z $opa y.clone();
            v.push(z);
            let mut z = x.clone();
            z $opa &y;
            v.push(z);
            v
        })?;
        for (i, r) in res.iter().enumerate() {
            ensure!(r[..] == w[..], "form {} of {} {} {} is {} instead of {}", i, refs::hex(&a), $name, refs::hex(&b), refs::hex(r), refs::hex(&w));
        }
        ensure!(x[..] == a[..] && y[..] == b[..], "an operand of {} {} {} changed", refs::hex(&a), $name, refs::hex(&b));
        // both operands the same object
        if a == b {
            let r = sut($name, || (&x $op &x, x.clone() $op &x))?;
            ensure!(r.0[..] == w[..] && r.1[..] == w[..], "{} {} itself is {} or {} instead of {}", refs::hex(&a), $name, refs::hex(&r.0), refs::hex(&r.1), refs::hex(&w));
            ensure!(x[..] == a[..], "the operand of {} {} itself changed", refs::hex(&a), $name);
            $c.count("same_object");
        }
        $c.add("forms", res.len() as u64);
    }};
}
fn s02(c: &mut Case) -> R {
    let a = hash_bytes(&mut c.g);
    let b = second(&mut c.g, &a);
    c.nontrivial(&[a, b].concat());
    c.note(|| format!("a={} b={}", refs::hex(&a), refs::hex(&b)));
    c.sample(|| format!("a={} b={}", refs::hex(&a), refs::hex(&b)));
    let zip = |f: fn(bool, bool) -> bool| {
        let (x, y) = (refs::bits(&a), refs::bits(&b));
        let mut o = [false; 160];
        for i in 0..160 { o[i] = f(x[i], y[i]); }
        refs::unbits(&o)
    };
    forms!(c, "^", a, b, ^, ^=, zip(|p, q| p != q));
    forms!(c, "&", a, b, &, &=, zip(|p, q| p && q));
    forms!(c, "|", a, b, |, |=, zip(|p, q| p || q));
    let n = sut("!", || !Sha1Hash::from(a))?;
    ensure!(n[..] == zip(|p, _| !p)[..], "!{} is {}", refs::hex(&a), refs::hex(&n));
    let (x, y) = (Sha1Hash::from(a), Sha1Hash::from(&b));
    // numeric order: compare from the most significant bit
    let (p, q) = (refs::bits(&a), refs::bits(&b));
    let mut want = std::cmp::Ordering::Equal;
    for i in 0..160 { if p[i] != q[i] { want = if p[i] { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less }; break; } }
    let got = sut("cmp", || (x.cmp(&y), x.partial_cmp(&y), x == y, x != y, x < y, x > y, x <= y, x >= y))?;
    use std::cmp::Ordering::*;
    ensure!(got == (want, Some(want), want == Equal, want != Equal, want == Less, want == Greater, want != Greater, want != Less),
        "comparison of {} and {} is {:?} instead of {:?}", refs::hex(&a), refs::hex(&b), got, want);
    let own = sut("cmp", || (x.cmp(&x), x.partial_cmp(&x), x == x, x < x, x >= x))?;
    ensure!(own == (Equal, Some(Equal), true, false, true), "{} compared with itself is {:?}", refs::hex(&a), own);
    let m = sut("max", || (x.clone().max(y.clone()), x.clone().min(y.clone())))?;
    let (hi, lo) = if want == Less { (b, a) } else { (a, b) };
    ensure!(m.0[..] == hi[..] && m.1[..] == lo[..], "max/min of {} and {} are {} and {}", refs::hex(&a), refs::hex(&b), refs::hex(&m.0), refs::hex(&m.1));
    let hv = |h: &Sha1Hash| { let mut d = DefaultHasher::new(); h.hash(&mut d); d.finish() };
    ensure!((hv(&x) == hv(&y)) == (want == Equal), "hash values of {} and {} disagree with equality", refs::hex(&a), refs::hex(&b));
    c.count(match want { Less => "less", Equal => "equal", Greater => "greater" });
    let lz = sut("leading_zeros", || x.leading_zeros())?;
    let wlz = refs::top_bit(&a).map_or(160, |t| 159 - t);
    ensure!(lz == wlz, "leading_zeros of {} is {} instead of {}", refs::hex(&a), lz, wlz);
    ensure!(sut("all_zeroes", || x.all_zeroes())? == refs::top_bit(&a).is_none(), "all_zeroes of {} is wrong", refs::hex(&a));
    ensure!(x.iter().copied().eq(a.iter().copied()), "iter of {} differs", refs::hex(&a));
    ensure!(x.iter().count() == 20 && x.len() == 20, "length of {} is not 20", refs::hex(&a));
    let mut z = x.clone();
    let mut k = 0;
    for (i, v) in z.iter_mut().enumerate() { if *v == a[i] { k += 1; } *v = b[i]; }
    ensure!(k == 20 && z == y, "iter_mut of {} differs", refs::hex(&a));
    let mut z = x.clone();
    let i = c.g.below(20);
    z[i] ^= 0xff;
    let mut w = a;
    w[i] ^= 0xff;
    ensure!(z[..] == w[..], "writing byte {} of {} gives {}", i, refs::hex(&a), refs::hex(&z));
    let mut z = x.clone();
    sut("clear", || z.clear())?;
    ensure!(z[..] == [0; 20] && z == Sha1Hash::min() && z == Sha1Hash::new() && z == Sha1Hash::default(), "clear of {} gives {}", refs::hex(&a), refs::hex(&z));
    ensure!(Sha1Hash::max()[..] == [0xff; 20] && Sha1Hash::min()[..] == [0; 20], "min or max constant is wrong");
    ensure!(x >= Sha1Hash::min() && x <= Sha1Hash::max(), "{} is outside min..max", refs::hex(&a));
    Ok(())
}

// ------------------------------------------------------------------ S03
fn digest(c: &mut Case, b: &[u8]) -> R {
    c.eval();
    let w = refs::sha1(b);
    let h = sut("Sha1Hash::update", || Sha1Hash::update(b))?;
    ensure!(h[..] == w[..], "digest of {} ({} bytes) is {} instead of {}", show(b), b.len(), refs::hex(&h), refs::hex(&w));
    let t = sut("to_string", || h.to_string())?;
    ensure!(t == refs::hex(&w), "text of {} is {:?}", refs::hex(&w), t);
    let r = sut("from_bytes", || Sha1Hash::from_bytes(b))?;
    match &r {
        Some(x) => ensure!(b.len() == 20 && x[..] == *b, "from_bytes of {} bytes {} gives {}", b.len(), show(b), x),
        None => ensure!(b.len() != 20, "from_bytes of 20 bytes {} gives nothing", show(b)),
    }
    c.count(if b.len() == 20 { "len20" } else { "other_len" });
    c.max("digest_len", b.len() as u64);
    Ok(())
}
fn s03(c: &mut Case) -> R {
    let m = if c.g.scale == 0 { 200 } else if c.g.one_in(50) { 200_000 } else { 3000 };
    let b = c.g.blob(m);
    c.nontrivial(&b);
    c.note(|| format!("bytes {}", show(&b)));
    c.sample(|| show(&b));
    digest(c, &b)?;
    let h = hash_bytes(&mut c.g);
    digest(c, &h)?;
    let x = Sha1Hash::from(h);
    ensure!(x.to_string() == refs::hex(&h) && format!("{:?}", x).contains(&h[0].to_string()), "text of {} is {}", refs::hex(&h), x);
    let addr = if c.g.one_in(5) {
        c.g.pick(&["0.0.0.0", "127.0.0.1", "255.255.255.255", "10.0.0.1", "224.0.0.1", "169.254.0.1", "::", "::1", "fe80::1", "ff02::1", "::ffff:1.2.3.4", "::ffff:127.0.0.1", "::1.2.3.4", "2001:db8::1", "64:ff9b::1.2.3.4", "2002:102:304::", "fc00::1"]).parse().unwrap()
    } else if c.g.one_in(3) {
        if c.g.bool() { IpAddr::V4(Ipv4Addr::from([0u8; 4].map(|_| c.g.byte()))) } else { IpAddr::V6(Ipv6Addr::from([0u8; 16].map(|_| c.g.byte()))) }
    } else if c.g.bool() { IpAddr::V4(Ipv4Addr::from(c.g.arr::<4>())) } else {
        let mut a: [u8; 16] = c.g.arr();
        match c.g.below(4) { 0 => { a[..10].iter_mut().for_each(|x| *x = 0); a[10] = 0xff; a[11] = 0xff; } 1 => a[..12].iter_mut().for_each(|x| *x = 0), _ => {} }
        IpAddr::V6(Ipv6Addr::from(a))
    };
    let (w, h) = match addr {
        IpAddr::V4(a) => { c.count("v4"); (refs::sha1(&a.octets()), sut("from_address", || Sha1Hash::from_address(&addr))?) }
        IpAddr::V6(a) => { c.count("v6"); (refs::sha1(&a.octets()), sut("from_address", || Sha1Hash::from_address(&addr))?) }
    };
    ensure!(h[..] == w[..], "digest of address {} is {} instead of {}", addr, h, refs::hex(&w));
    Ok(())
}
/// long inputs, around block and other boundaries
fn s03_large(c: &mut Case) -> R {
    let n = if c.g.scale == 0 { 70 } else { c.g.sweep(c.idx as usize, 1, 3_000_000) };
    let b = match c.g.below(3) { 0 => vec![c.g.byte(); n], _ => c.g.bytes(n) };
    c.note(|| format!("{} bytes", n));
    c.nontrivial(&n.to_le_bytes());
    c.count("large");
    digest(c, &b)
}
/// every length from 0 to 1023
fn s03_len(c: &mut Case) -> R {
    let n = (c.idx % 1024) as usize;
    let b = c.g.bytes(n);
    c.nontrivial(&b);
    digest(c, &b)?;
    digest(c, &vec![0; n])
}

// ------------------------------------------------------------------ F01, F02
trait Filter {
    const LEN: usize;
    fn new() -> Self;
    fn find(&self, k: &Sha1Hash) -> bool;
    fn set(&mut self, k: &Sha1Hash);
    fn clear(&mut self);
    fn size(&self) -> f64;
    fn bytes(&self) -> &[u8];
    fn rebuilt(&self, how: usize) -> Self;
}
macro_rules! filter {
    ($t:ident, $n:expr) => {
        impl Filter for $t {
            const LEN: usize = $n;
            fn new() -> Self { if std::hint::black_box(true) { $t::new() } else { $t::default() } }
            fn find(&self, k: &Sha1Hash) -> bool { $t::find(self, k) }
            fn set(&mut self, k: &Sha1Hash) { $t::set(self, k) }
            fn clear(&mut self) { $t::clear(self) }
            fn size(&self) -> f64 { $t::size(self) }
            fn bytes(&self) -> &[u8] { self.as_bytes() }
            fn rebuilt(&self, how: usize) -> Self {
                let b = self.as_bytes().to_vec();
                match how {
                    0 => $t::from(b),
                    1 => $t::from(&b[..]),
                    2 => { let mut a = [0u8; $n]; a.copy_from_slice(&b); $t::from(a) }
                    _ => match String::from_utf8(b.clone()) {
                        Ok(s) if how == 3 => $t::from(s),
                        Ok(s) => $t::from(&s[..]),
                        Err(_) => $t::from(b),
                    },
                }
            }
        }
    };
}
filter!(BloomFilter128, 128);
filter!(BloomFilter256, 256);

fn bloom_key(g: &mut Gen, len: usize) -> [u8; 20] {
    let mut k: [u8; 20] = if g.one_in(4) { hash_bytes(g) } else { g.arr() };
    let m = len * 8;
    let idx = |g: &mut Gen| -> usize {
        match g.below(5) {
            0 => g.below(16),
            1 => (m - 1 - g.below(16)) + m * g.below(65536 / m),
            2 => 65535 - g.below(3),
            3 => 8 * g.below(65536 / 8) + 7 * g.below(2),
            _ => g.below(65536),
        }
    };
    if g.bool() {
        let a = idx(g);
        let b = if g.one_in(5) { a } else { idx(g) };
        k[0] = a as u8;
        k[1] = (a >> 8) as u8;
        k[2] = b as u8;
        k[3] = (b >> 8) as u8;
    }
    k
}
fn bloom_history<F: Filter>(c: &mut Case) -> R {
    let mut f = F::new();
    let mut m = refs::RBloom::new(F::LEN);
    let mut members: Vec<[u8; 20]> = vec![];
    let mut fp = vec![F::LEN as u8];
    ensure!(f.bytes().iter().all(|&x| x == 0), "a new filter is not empty");
    let dense = c.g.one_in(3);
    let n = if c.g.scale == 0 { 8 } else if c.g.one_in(40) { c.g.len(1500) } else { c.g.range(1, 60) };
    for _ in 0..n {
        match c.g.below(10) {
            0..=3 => {
                let batch = if dense && c.g.scale > 0 { c.g.range(1, 80) } else { 1 };
                for _ in 0..batch {
                    let k = bloom_key(&mut c.g, F::LEN);
                    sut("set", || f.set(&Sha1Hash::from(k)))?;
                    m.add(&k);
                    members.push(k);
                    fp.extend_from_slice(&k[..4]);
                    c.note(|| format!("add {}", refs::hex(&k)));
                    c.count("added");
                }
            }
            4..=7 => {
                for _ in 0..6 {
                    let k = match c.g.below(4) {
                        0 if !members.is_empty() => *c.g.pick(&members),
                        // shares one bit with a member
                        1 if !members.is_empty() => { let mut k = bloom_key(&mut c.g, F::LEN); let j = *c.g.pick(&members); let o = 2 * c.g.below(2); k[o] = j[o]; k[o + 1] = j[o + 1]; k }
                        // same hash, other tail
                        2 if !members.is_empty() => { let mut k = *c.g.pick(&members); let t: [u8; 16] = c.g.arr(); k[4..].copy_from_slice(&t); k }
                        _ => bloom_key(&mut c.g, F::LEN),
                    };
                    let got = sut("find", || f.find(&Sha1Hash::from(k)))?;
                    let want = m.has(&k);
                    c.eval();
                    c.count(if want { "lookup_hit" } else { "lookup_miss" });
                    ensure!(got == want, "lookup of {} in a {}-byte filter gives {} (bits {:?}) after {} additions", refs::hex(&k), F::LEN, got, refs::bloom_bits(&k, F::LEN), members.len());
                }
            }
            8 => {
                let how = c.g.below(5);
                f = sut("rebuilding from bytes", || f.rebuilt(how))?;
                c.note(|| format!("rebuild {}", how));
                c.count("rebuilt");
            }
            _ => if c.g.one_in(4) {
                sut("clear", || f.clear())?;
                m = refs::RBloom::new(F::LEN);
                members.clear();
                c.note(|| "clear".into());
                c.count("cleared");
            }
        }
        ensure!(f.bytes() == &m.bytes()[..], "bits of the {}-byte filter differ from those selected: {} instead of {}", F::LEN, refs::hex(f.bytes()), refs::hex(&m.bytes()));
    }
    for k in &members {
        ensure!(sut("find", || f.find(&Sha1Hash::from(*k)))?, "member {} is forgotten", refs::hex(k));
    }
    c.add("members_rechecked", members.len() as u64);
    c.nontrivial(&fp);
    Ok(())
}
fn f01(c: &mut Case) -> R {
    if c.g.bool() { bloom_history::<BloomFilter128>(c) } else { bloom_history::<BloomFilter256>(c) }
}
/// filters made from given bytes: constant ones, full or empty but for a few bits, any density
fn f01_given<F: Filter + From<Vec<u8>>>(c: &mut Case) -> R {
    let k = (c.idx / 2) as usize;
    let mut b = vec![0u8; F::LEN];
    match k {
        0..=255 => b.fill(k as u8),
        _ => match k % 6 {
            0 => { b.fill(0xff); for _ in 0..c.g.range(1, 3) { let i = c.g.below(F::LEN); b[i] ^= 1 << c.g.below(8); } }
            1 => for _ in 0..c.g.range(1, 3) { let i = c.g.below(F::LEN); b[i] ^= 1 << c.g.below(8); },
            2 => { let n = c.g.below(F::LEN + 1); let x = *c.g.pick(&[0xffu8, 0x55, 0x80, 1]); if c.g.bool() { b[..n].fill(x) } else { b[n..].fill(x) } }
            3 => b = c.g.bytes(F::LEN),
            4 => { let d = c.g.byte(); for x in &mut b { *x = d; if c.g.one_in(9) { *x = c.g.byte(); } } }
            _ => { let n = c.g.range(1, 255) as u8; for x in &mut b { *x = (0..8).map(|i| u8::from(c.g.byte() < n) << i).sum(); } }
        },
    }
    let how = c.g.below(5);
    c.note(|| format!("a {}-byte filter from {}", F::LEN, refs::hex(&b)));
    let mut f = sut("from bytes", || F::from(b.clone()))?;
    let mut m = refs::RBloom::new(F::LEN);
    for (i, x) in m.set.iter_mut().enumerate() { *x = b[i / 8] >> (i % 8) & 1 == 1; }
    for round in 0..3 {
        ensure!(f.bytes() == &m.bytes()[..], "a filter made from {} has the bytes {}", refs::hex(&m.bytes()), refs::hex(f.bytes()));
        for _ in 0..if c.g.scale == 0 { 4 } else { 40 } {
            let k = bloom_key(&mut c.g, F::LEN);
            let (got, want) = (sut("find", || f.find(&Sha1Hash::from(k)))?, m.has(&k));
            c.eval();
            c.count(if want { "given_hit" } else { "given_miss" });
            ensure!(got == want, "lookup of {} (bits {:?}) in a filter made from {} gives {}", refs::hex(&k), refs::bloom_bits(&k, F::LEN), refs::hex(&b), got);
        }
        match round {
            0 => { let k = bloom_key(&mut c.g, F::LEN); sut("set", || f.set(&Sha1Hash::from(k)))?; m.add(&k); c.note(|| format!("add {}", refs::hex(&k))); }
            1 => f = sut("rebuilding from bytes", || f.rebuilt(how))?,
            _ => { sut("clear", || f.clear())?; m = refs::RBloom::new(F::LEN); ensure!(f.bytes() == &m.bytes()[..], "a cleared filter has the bytes {}", refs::hex(f.bytes())); }
        }
    }
    c.nontrivial(&b);
    Ok(())
}
fn f01_bytes(c: &mut Case) -> R {
    if c.idx % 2 == 0 { f01_given::<BloomFilter128>(c) } else { f01_given::<BloomFilter256>(c) }
}
/// every index pair position: all 65536 values of one half
fn f01_all<F: Filter>(c: &mut Case) -> R {
    let base = c.idx as u32 * 64;
    for v in base..base + if c.g.scale == 0 { 3 } else { 64 } {
        for half in [0usize, 2] {
            let mut k: [u8; 20] = c.g.arr();
            k[half] = v as u8;
            k[half + 1] = (v >> 8) as u8;
            let h = Sha1Hash::from(k);
            let mut f = F::new();
            let mut m = refs::RBloom::new(F::LEN);
            ensure!(!sut("find", || f.find(&h))?, "an empty filter contains {}", refs::hex(&k));
            sut("set", || f.set(&h))?;
            m.add(&k);
            ensure!(f.bytes() == &m.bytes()[..], "adding {} sets other bits: {}", refs::hex(&k), refs::hex(f.bytes()));
            ensure!(sut("find", || f.find(&h))?, "member {} is not found", refs::hex(&k));
            c.eval();
            c.nontrivial(&k[..4]);
        }
    }
    Ok(())
}
fn f01_sweep(c: &mut Case) -> R {
    f01_all::<BloomFilter128>(c)?;
    f01_all::<BloomFilter256>(c)
}

fn want_size(bytes: &[u8]) -> (usize, f64) {
    let m = bytes.len() * 8;
    let mut z = 0;
    for b in bytes { for i in 0..8 { if b >> i & 1 == 0 { z += 1; } } }
    let cc = z.min(m - 1) as f64;
    (z, (cc / m as f64).ln() / (2.0 * (1.0 - 1.0 / m as f64).ln()))
}
fn judge_size<F: Filter>(c: &mut Case, f: &F) -> Result<f64, String> {
    let (z, w) = want_size(f.bytes());
    let s = sut("size", || f.size())?;
    c.eval();
    if z == 0 {
        c.count("saturated");
        ensure!(!(s.is_finite() && s < 1e6), "the estimate of a full {}-byte filter is {}", F::LEN, s);
        return Ok(s);
    }
    ensure!(s > 0.0 && s.is_finite(), "the estimate of a {}-byte filter with {} zero bits is {}", F::LEN, z, s);
    ensure!((s - w).abs() <= 1e-9 * w, "the estimate of a {}-byte filter with {} zero bits is {} instead of {}", F::LEN, z, s, w);
    c.nontrivial(format!("{} {}", F::LEN, z).as_bytes());
    Ok(s)
}
fn f02_run<F: Filter>(c: &mut Case) -> R {
    let mut f = F::new();
    let mut last = judge_size(c, &f)?;
    let m = F::LEN * 8;
    let crafted = c.g.bool();
    let n = if c.g.scale == 0 { 20 } else { c.g.range(1, if crafted { 2 * m } else { m / 4 }) };
    c.note(|| format!("{}-byte filter, {} additions, crafted={}", F::LEN, n, crafted));
    let mut distinct = std::collections::HashSet::new();
    for i in 0..n {
        let k = if crafted { bloom_key(&mut c.g, F::LEN) } else { c.g.arr() };
        distinct.insert(k);
        sut("set", || f.set(&Sha1Hash::from(k)))?;
        let s = judge_size(c, &f)?;
        ensure!(s >= last * (1.0 - 1e-12), "the estimate fell from {} to {} at addition {}", last, s, i);
        if s > last { c.count("grew"); } else { c.count("same"); }
        last = s;
    }
    if !crafted {
        // std. deviation of the estimate stays below sqrt(n)/2 here (n <= m/4): 8 sigma
        let n = distinct.len() as f64;
        ensure!((last - n).abs() <= 4.0 * n.sqrt() + 4.0, "the estimate for {} distinct random hashes in a {}-byte filter is {}", n, F::LEN, last);
        c.count("close_estimates");
    }
    Ok(())
}
fn f02(c: &mut Case) -> R {
    if c.g.bool() { f02_run::<BloomFilter128>(c) } else { f02_run::<BloomFilter256>(c) }
}
/// same number of zero bits, other places: same estimate; every fill level
fn f02_levels(c: &mut Case) -> R {
    fn go<F: Filter + From<Vec<u8>>>(c: &mut Case) -> R {
        let m = F::LEN * 8;
        let ones = (c.idx as usize) % (m + 1);
        let mut sizes = vec![];
        for round in 0..4 {
            let mut bits = vec![false; m];
            match round {
                0 => bits[..ones].iter_mut().for_each(|x| *x = true),
                1 => bits[m - ones..].iter_mut().for_each(|x| *x = true),
                _ => { let mut p: Vec<usize> = (0..m).collect(); c.g.shuffle(&mut p); for &i in &p[..ones] { bits[i] = true; } }
            }
            let f = F::from(refs::RBloom { set: bits }.bytes());
            sizes.push(judge_size(c, &f)?);
        }
        ensure!(ones == m || sizes.windows(2).all(|w| (w[0] - w[1]).abs() <= 1e-9 * w[0].abs()), "estimates of {}-byte filters with {} bits set differ: {:?}", F::LEN, ones, sizes);
        c.count("levels");
        Ok(())
    }
    go::<BloomFilter128>(c)?;
    go::<BloomFilter256>(c)
}

// ------------------------------------------------------------------ R01
/// chi-square tail bound by Laurent-Massart: P(X >= k + 2 sqrt(k t) + 2 t) <= e^-t, here e^-40
fn chi_limit(k: f64) -> f64 { k + 2.0 * (k * 40.0).sqrt() + 80.0 }
fn r01_index(c: &mut Case) -> R {
    let bound = match c.g.below(6) {
        0 => c.g.range(1, 3),
        1 | 2 => c.g.range(1, 40),
        3 => c.g.range(1, 300),
        4 => { let e = c.g.below(12); (1usize << e) + c.g.below(2) }
        _ => { let b = c.g.usize_any(); b.max(1) }
    };
    r01_bound(c, bound)
}
fn r01_index_sweep(c: &mut Case) -> R {
    let bound = if c.g.scale == 0 { 9 } else { c.g.sweep(c.idx as usize, 2, 1 << 48) };
    r01_bound(c, bound)
}
fn r01_bound(c: &mut Case, bound: usize) -> R {
    c.note(|| format!("bound {}", bound));
    c.nontrivial(&bound.to_le_bytes());
    c.sample(|| format!("draws below {}", bound));
    let small = bound <= 5000;
    let n = if c.g.scale == 0 { 50 } else if small { (bound * 40).max(2000) } else { 3000 };
    let mut hist = vec![0u64; if small { bound } else { 64 }];
    // how often a draw equals one of those before it
    let mut last = [usize::MAX; 4];
    let mut again = [0u64; 4];
    for i in 0..n {
        let r = sut("random_usize", || common::random::random_usize(bound))?;
        ensure!(r < bound, "random_usize({}) gave {}", bound, r);
        for d in 1..=4 { again[d - 1] += u64::from(last[(i + 4 - d) % 4] == r); }
        last[i % 4] = r;
        if small { hist[r] += 1; } else { hist[((r as u128 * 64) / bound as u128) as usize] += 1; }
        c.count("draws");
    }
    c.add("draw_evaluations", 1);
    if c.g.scale > 0 && hist.len() > 1 {
        // buckets of a huge bound differ by at most one value in size
        if !small && bound < 1 << 20 { return Ok(()) }
        let e = n as f64 / hist.len() as f64;
        let x: f64 = hist.iter().map(|&h| (h as f64 - e) * (h as f64 - e) / e).sum();
        // the bound is for true chi-square; expected counts are >= 40
        ensure!(x <= 1.5 * chi_limit(hist.len() as f64 - 1.0), "draws below {} are uneven: chi-square {} over {} buckets of {} draws; least {}, most {}", bound, x, hist.len(), n, hist.iter().min().unwrap(), hist.iter().max().unwrap());
        let e = n as f64 / bound as f64;
        if small {
            for (k, &x) in again.iter().enumerate() {
                let x = x as f64;
                ensure!((x - e).abs() <= 9.0 * e.sqrt() + 12.0, "of {} draws below {}, {} equal the draw {} before them: about {} do in a fair sequence", n, bound, x, k + 1, e);
            }
            c.count("repetition_tests");
        }
        ensure!(hist.iter().all(|&h| h > 0), "index {} below {} never occurs in {} draws", hist.iter().position(|&h| h == 0).unwrap(), bound, n);
        c.count("uniformity_tests");
    }
    Ok(())
}
fn r01_bytes(c: &mut Case) -> R {
    let n = c.g.len(if c.g.scale == 0 { 70 } else { 5000 });
    r01_buffer(c, n)
}
fn r01_bytes_sweep(c: &mut Case) -> R {
    let n = if c.g.scale == 0 { 9 } else { c.g.sweep(c.idx as usize, 1, 70_000) };
    r01_buffer(c, n)
}
fn r01_buffer(c: &mut Case, n: usize) -> R {
    c.note(|| format!("buffer of {} bytes", n));
    c.nontrivial(&n.to_le_bytes());
    let fill = c.g.u64() as u8;
    // a position that still has its old value in 24 rounds was not overwritten (2^-192 otherwise)
    let rounds = if c.g.scale == 0 { 24 } else { 40 };
    let mut changed = vec![false; n];
    let mut hist = [0u64; 256];
    let mut prev: Vec<u8> = vec![];
    for _ in 0..rounds {
        let mut b = vec![fill; n + 16];
        sut("fill_bytes", || common::random::fill_bytes(&mut b[8..n + 8]))?;
        ensure!(b[..8].iter().chain(&b[n + 8..]).all(|&x| x == fill), "fill_bytes of {} bytes wrote outside its buffer", n);
        for i in 0..n { if b[8 + i] != fill { changed[i] = true; } hist[usize::from(b[8 + i])] += 1; }
        if n >= 24 { ensure!(prev != b, "two buffers of {} bytes are equal", n); }
        prev = b;
        c.count("buffers");
    }
    if let Some(i) = changed.iter().position(|x| !x) {
        return Err(format!("position {} of a {}-byte buffer is never overwritten", i, n));
    }
    c.add("positions", n as u64);
    let total = (rounds * n) as f64;
    if total >= 256.0 * 40.0 {
        let e = total / 256.0;
        let x: f64 = hist.iter().map(|&h| (h as f64 - e) * (h as f64 - e) / e).sum();
        ensure!(x <= 1.5 * chi_limit(255.0), "bytes of random buffers are uneven: chi-square {}", x);
        c.count("uniformity_tests");
    }
    Ok(())
}
fn r01_seed(c: &mut Case) -> R {
    let k = if c.g.scale == 0 { 4 } else { 2000 };
    // of all cases of this process
    thread_local! { static SEEN: std::cell::RefCell<std::collections::HashSet<[u8; 32]>> = Default::default(); }
    let mut ones = [0u32; 256];
    for _ in 0..k {
        let s = sut("create_seed", common::ed25519::create_seed)?;
        c.nontrivial(&s);
        ensure!(SEEN.with(|x| x.borrow_mut().insert(s)), "create_seed repeated {}", refs::hex(&s));
        for (i, o) in ones.iter_mut().enumerate() { *o += u32::from(s[i / 8] >> (i % 8) & 1); }
        c.count("seeds");
    }
    let n = c.g.range(1, 100);
    for _ in 0..n { sut("random_usize", || common::random::random_usize(7))?; }
    if k >= 200 {
        for (i, o) in ones.iter().enumerate() {
            ensure!(*o > 0 && *o < k as u32, "bit {} of created seeds never changes in {} seeds", i, k);
        }
    }
    Ok(())
}
/// what one thread or process draws at its start
fn draws() -> Vec<[u8; 32]> {
    let mut v = vec![];
    for _ in 0..4 { v.push(common::ed25519::create_seed()); }
    let mut b = [0u8; 32];
    common::random::fill_bytes(&mut b);
    v.push(b);
    let mut b = [0u8; 32];
    for x in b.chunks_mut(4) { x.copy_from_slice(&(common::random::random_usize(1 << 32) as u32).to_le_bytes()); }
    v.push(b);
    v
}
/// threads and processes do not repeat each other
fn r01_fresh(c: &mut Case) -> R {
    let mut all: Vec<[u8; 32]> = sut("drawing", draws)?;
    let hs: Vec<_> = (0..4).map(|_| std::thread::spawn(draws)).collect();
    for h in hs { all.extend(h.join().map_err(|_| "a thread that draws random numbers panicked".to_string())?); c.count("threads"); }
    if !cfg!(miri) {
        for _ in 0..3 {
            let o = std::process::Command::new(std::env::current_exe().unwrap()).env("VPMON_DRAWS", "1").output().expect("a process that draws");
            assert!(o.status.success() && o.stdout.len() == 6 * 32, "the drawing process failed: {:?}", o.status);
            all.extend(o.stdout.chunks(32).map(|x| { let mut a = [0; 32]; a.copy_from_slice(x); a }));
            c.count("processes");
        }
    }
    let n = all.len();
    let mut seen = std::collections::HashSet::new();
    for (i, a) in all.iter().enumerate() {
        c.nontrivial(a);
        ensure!(seen.insert(*a), "draw {} of {} over several threads and processes repeats an earlier one: {}", i, n, refs::hex(a));
    }
    Ok(())
}
fn r01_pair(c: &mut Case) -> R {
    let (p, s) = sut("create_keypair", common::ed25519::create_keypair)?;
    let (q, t) = sut("create_keypair", common::ed25519::create_keypair)?;
    c.count("key_pairs");
    c.nontrivial(&p[..]);
    if p[..] == [0; 32] && q[..] == [0; 32] && s[..] == [0; 64] && t[..] == [0; 64] {
        return Err("create_keypair gives the all-zero key pair every time".into());
    }
    ensure!(p[..] != q[..] && s[..] != t[..], "two created key pairs share a key: {} {}", refs::hex(&p[..]), refs::hex(&q[..]));
    Ok(())
}

/// arguments outside of what the functions promise anything for: they may panic, nothing else
// ------------------------------------------------------------------ X01
fn x01(c: &mut Case) -> R {
    let a = hash_bytes(&mut c.g);
    let mut hs: Vec<[u8; 20]> = vec![a, second(&mut c.g, &a), second(&mut c.g, &a), hash_bytes(&mut c.g), a];
    hs[4].swap(c.g.below(20), c.g.below(20));
    let mut data: Vec<Vec<u8>> = vec![];
    for _ in 0..3 {
        let mut b = match data.last() { Some(d) if !c.g.one_in(3) => d.clone(), _ => c.g.blob(300) };
        if c.g.one_in(3) { refs::transpose(&mut c.g, &mut b); } else if !b.is_empty() { let i = c.g.below(b.len()); b[i] ^= 1 << c.g.below(8); }
        data.push(b);
    }
    c.nontrivial(&[data.concat(), hs.concat()].concat());
    c.sample(|| data.iter().map(|d| show(d)).collect::<Vec<_>>().join(" and "));
    let mut calls: Vec<Call> = vec![];
    for d in &data {
        let t = refs::hex(d);
        let t = refs::random_case(&mut c.g, &t);
        let mut u = t.clone().into_bytes();
        if !u.is_empty() { let i = c.g.below(u.len()); u[i] = c.g.byte(); }
        calls.push(Call { what: format!("hex of {}", show(d)), f: Box::new(move || in_place(d, |b| common::hex::to_hex(b))) });
        for t in [t.into_bytes(), u] {
            calls.push(Call { what: format!("reading hex {}", show(&t)), f: Box::new(move || in_place(&t, |b| { let mut o = vec![7u8; b.len() / 2 + 2]; let r = common::hex::from_hex(b, &mut o); let o = if r.is_some() { o } else { vec![] }; format!("{:?} {} {:?}", r, common::hex::is_hex(b), o) })) });
        }
        calls.push(Call { what: format!("digest of {}", show(d)), f: Box::new(move || in_place(d, |b| format!("{} {:?}", Sha1Hash::update(b), Sha1Hash::from_bytes(b)))) });
    }
    for (i, h) in hs.iter().enumerate() {
        let (h, o) = (*h, hs[(i + 1) % hs.len()]);
        let n = match c.g.below(3) { 0 => c.g.below(170), 1 => 8 * c.g.below(21), _ => c.g.below(9) };
        calls.push(Call { what: format!("shifting {} by {}", refs::hex(&h), n), f: Box::new(move || { let (mut x, mut y) = (Sha1Hash::from(h), Sha1Hash::from(h)); x <<= n; y >>= n; format!("{} {}", x, y) }) });
        calls.push(Call { what: format!("combining {} and {}", refs::hex(&h), refs::hex(&o)), f: Box::new(move || { let (x, y) = (Sha1Hash::from(h), Sha1Hash::from(o)); format!("{} {} {} {} {:?} {} {}", &x ^ &y, &x & &y, &x | &y, !x.clone(), x.cmp(&y), x.leading_zeros(), x.all_zeroes()) }) });
        let ip = if c.g.bool() { IpAddr::V4(Ipv4Addr::new(h[0], h[1], h[2], h[3])) } else { let mut b = [0; 16]; b.copy_from_slice(&h[..16]); IpAddr::V6(Ipv6Addr::from(b)) };
        calls.push(Call { what: format!("digest of {}", ip), f: Box::new(move || Sha1Hash::from_address(&ip).to_string()) });
    }
    isolated(c, &calls)
}
/// some filters, filled one after the other or in turns
fn x01_filters(c: &mut Case) -> R {
    if c.g.bool() { filters::<BloomFilter128>(c) } else { filters::<BloomFilter256>(c) }
}
fn filters<F: Filter>(c: &mut Case) -> R {
    let n = c.g.range(2, 4);
    let pool: Vec<[u8; 20]> = (0..c.g.range(1, 12)).map(|_| bloom_key(&mut c.g, F::LEN)).collect();
    let mut todo: Vec<Vec<(u8, [u8; 20])>> = vec![];
    for _ in 0..n {
        let m = c.g.range(1, if c.g.scale == 0 { 5 } else { 25 });
        todo.push((0..m).map(|_| (c.g.below(12) as u8, *c.g.pick(&pool))).collect());
    }
    let act = |f: &mut F, (k, key): (u8, [u8; 20])| -> Result<String, String> {
        let h = Sha1Hash::from(key);
        Ok(match k {
            0..=4 => { sut("set", || f.set(&h))?; String::new() }
            5..=7 => format!("{}", sut("find", || f.find(&h))?),
            8 | 9 => format!("{:?}", sut("size", || f.size())?),
            10 => { let g = sut("rebuilding from bytes", || f.rebuilt(key[0] as usize % 5))?; *f = g; String::new() }
            _ => if key[0] % 3 == 0 { sut("clear", || f.clear())?; String::new() } else { refs::hex(f.bytes()) },
        })
    };
    // alone
    let mut want: Vec<Vec<String>> = vec![];
    for t in &todo {
        let mut f = F::new();
        let mut w = vec![];
        for x in t { w.push(act(&mut f, *x)?); }
        w.push(refs::hex(f.bytes()));
        want.push(w);
    }
    // in turns
    let mut fs: Vec<F> = (0..n).map(|_| F::new()).collect();
    let mut at = vec![0; n];
    let mut fp = vec![];
    loop {
        let open: Vec<usize> = (0..n).filter(|&k| at[k] < todo[k].len()).collect();
        if open.is_empty() { break; }
        let k = *c.g.pick(&open);
        let x = todo[k][at[k]];
        c.note(|| format!("filter {}: {:?} of {}", k, x.0, refs::hex(&x.1)));
        fp.extend([k as u8, x.0, x.1[0]]);
        let got = act(&mut fs[k], x)?;
        c.eval();
        ensure!(got == want[k][at[k]], "step {} of filter {} gives {} instead of {} when there are others", at[k], k, got, want[k][at[k]]);
        at[k] += 1;
        c.count("filter_steps");
    }
    for k in 0..n { ensure!(refs::hex(fs[k].bytes()) == *want[k].last().unwrap(), "filter {} ends up different when there are others", k); }
    c.nontrivial(&fp);
    Ok(())
}

fn misuse(c: &mut Case) -> R {
    use common::{ed25519, hex, random};
    use std::hint::black_box as bb;
    for _ in 0..if c.g.scale == 0 { 4 } else { 12 } {
        let n = if c.g.one_in(4) { c.g.usize_any() } else { c.g.len(300) };
        match c.g.below(10) {
            0 | 1 => {
                // more text than the buffer takes; both on the heap, exactly as long
                let k = c.g.len(60);
                let s: Box<[u8]> = (0..k).map(|_| *c.g.pick(b"0123456789abcdefABCDEFg")).collect();
                let room = if c.g.bool() { c.g.below(k / 2 + 2) } else { c.g.below(40) };
                let mut out = vec![0u8; room].into_boxed_slice();
                c.note(|| format!("from_hex of {} into {} bytes", show(&s), room));
                any(c, || hex::from_hex(&s, &mut out));
                bb(out.iter().map(|&b| b as u32).sum::<u32>());
            }
            2 => {
                let k = match c.g.below(4) { 0 => 128, 1 => 256, _ => c.g.len(600) };
                let b = c.g.bytes(k).into_boxed_slice();
                c.note(|| format!("filters from {} bytes", k));
                let h = Sha1Hash::from(hash_bytes(&mut c.g));
                any(c, || { let mut f = BloomFilter128::from(&b[..]); f.set(&h); bb(f.find(&h)); f.size() });
                any(c, || { let mut f = BloomFilter256::from(b.to_vec()); f.set(&h); bb(f.find(&h)); f.size() });
                let s = c.g.text(k.min(300));
                any(c, || { let f = BloomFilter128::from(&s[..]); bb(f.find(&h)); f.size() });
                any(c, || { let f = BloomFilter256::from(s.clone()); bb(f.find(&h)); f.size() });
            }
            3 => {
                let mut h = Box::new(Sha1Hash::from(hash_bytes(&mut c.g)));
                let m = c.g.len(24);
                c.note(|| format!("hash at {} and {}", n, m));
                any(c, || h[n]);
                any(c, || h[m..].len());
                any(c, || h[..m].len());
                any(c, || { h[n] = 1; });
                any(c, || { h[m] = 1; });
                any(c, || h.copy_from_slice(&vec![1; m]));
                any(c, || { for b in h.iter_mut() { *b ^= 1; } h.iter().count() });
                any(c, || h.iter().nth(n).copied());
                any(c, || h.swap(m, 3));
            }
            4 => {
                let k = c.g.len(40);
                let b = c.g.bytes(k).into_boxed_slice();
                any(c, || Sha1Hash::from_bytes(&b).map(|h| text(h.to_string()) + text(format!("{:?}", h))));
                any(c, || Sha1Hash::update(&b).leading_zeros());
            }
            5 => { let l = c.g.bool(); let b = hash_bytes(&mut c.g); let mut h = Box::new(Sha1Hash::from(b)); any(c, || if l { *h <<= n } else { *h >>= n }); bb(h.all_zeroes()); }
            6 => { any(c, || random::random_usize(n)); let mut b = vec![0; n.min(500)].into_boxed_slice(); any(c, || random::fill_bytes(&mut b)); bb(b.iter().map(|&b| b as u32).sum::<u32>()); }
            7 => { any(c, || bb(ed25519::create_seed())); any(c, || { let (p, s) = ed25519::create_keypair(); bb(p.iter().chain(s.iter()).map(|&b| b as u32).sum::<u32>()) }); }
            8 => { let (a, b, v) = (c.g.int(), c.g.int(), c.g.int()); any(c, || common::clamp(v, a, b)); any(c, || common::clamp(v as f64 / 0.0, a as f64 * 0.0 / 0.0, b as f64)); }
            _ => {
                let k = c.g.len(200);
                let b = c.g.bytes(k).into_boxed_slice();
                any(c, || (hex::is_hex(&b), text(hex::to_hex(&b))));
                any(c, || format!("{:?}", common::types::Signature::default()));
                any(c, || { let s = common::types::SecretKey::default(); s[n] });
                any(c, || { let mut s = common::types::PublicKey::default(); s[k] = 1; s.iter().count() });
            }
        }
    }
    Ok(())
}

fn main() {
    if std::env::var_os("VPMON_DRAWS").is_some() {
        use std::io::Write;
        std::io::stdout().write_all(&draws().concat()).unwrap();
        return;
    }
    frame::main(vec![
        Prop {
            id: "H01",
            rule: "a case encodes, decodes or judges one byte string or candidate text (pairs: 257 of them); distinct by content",
            work: vec![
                Workload { name: "round_trip", n: [6, 60_000, 1_000_000], f: h01 },
                Workload { name: "junk", n: [6, 60_000, 1_000_000], f: h01_junk },
                Workload { name: "pairs", n: [3, 256, 256], f: h01_pairs },
                Workload { name: "large", n: [2, 1000, 20_000], f: h01_large },
            ],
            floors: &[("decoded", 5000), ("accepted", 1000), ("rejected", 1000)],
            assumptions: &["output buffers have at least half the text's length"],
        },
        Prop {
            id: "S01",
            rule: "a case shifts one hash between canaries and on the heap (sweep: 16 of them); distinct by hash, amount and direction",
            work: vec![
                Workload { name: "random", n: [12, 60_000, 5_000_000], f: s01 },
                Workload { name: "sweep", n: [20, 401, 20_000], f: s01_sweep },
            ],
            floors: &[("canaries_checked", 5000), ("shifted_out", 100), ("shifted_within", 100)],
            assumptions: &["memory around the hash is observed by 200-byte canaries here and by AddressSanitizer and Miri in M01"],
        },
        Prop {
            id: "S02",
            rule: "a case applies every operator form and comparison to one pair of hashes; distinct by pair",
            work: vec![Workload { name: "pairs", n: [5, 40_000, 4_000_000], f: s02 }],
            floors: &[("forms", 10_000), ("less", 500), ("equal", 500), ("greater", 500)],
            assumptions: &["a 64-bit hash collision of two different values does not occur"],
        },
        Prop {
            id: "S03",
            rule: "a case computes digests of one byte string and one address; distinct by byte string",
            work: vec![
                Workload { name: "random", n: [4, 6000, 300_000], f: s03 },
                Workload { name: "lengths", n: [3, 1024, 20_480], f: s03_len },
                Workload { name: "large", n: [1, 500, 3000], f: s03_large },
            ],
            floors: &[("len20", 1000), ("other_len", 1000), ("v4", 500), ("v6", 500)],
            assumptions: &[],
        },
        Prop {
            id: "F01",
            rule: "a case is one history of additions, lookups, rebuilds and clears (sweep: 128 keys in both sizes); distinct by the added keys' selecting bytes",
            work: vec![
                Workload { name: "histories", n: [4, 4000, 300_000], f: f01 },
                Workload { name: "sweep", n: [2, 1024, 1024], f: f01_sweep },
                Workload { name: "given_bytes", n: [2, 3000, 100_000], f: f01_bytes },
            ],
            floors: &[("added", 5000), ("lookup_hit", 2000), ("lookup_miss", 2000), ("rebuilt", 200), ("cleared", 100)],
            assumptions: &[],
        },
        Prop {
            id: "F02",
            rule: "a case follows the estimate through one series of additions, or checks one fill level; distinct by filter size and zero bits",
            work: vec![
                Workload { name: "additions", n: [1, 150, 10_000], f: f02 },
                Workload { name: "levels", n: [2, 2049, 8196], f: f02_levels },
            ],
            floors: &[("grew", 1000), ("same", 500), ("levels", 1000), ("close_estimates", 20), ("saturated", 1)],
            assumptions: &["the estimate of a full filter is only required not to be small"],
        },
        Prop {
            id: "R01",
            rule: "a case draws many numbers below one bound, fills one buffer size many times, or creates seeds; distinct by bound, size or seed",
            work: vec![
                Workload { name: "index", n: [4, 400, 20_000], f: r01_index },
                Workload { name: "bytes", n: [3, 300, 6000], f: r01_bytes },
                Workload { name: "index_sweep", n: [1, 300, 2000], f: r01_index_sweep },
                Workload { name: "bytes_sweep", n: [1, 300, 2000], f: r01_bytes_sweep },
                Workload { name: "seeds", n: [1, 20, 500], f: r01_seed },
                Workload { name: "fresh", n: [1, 20, 200], f: r01_fresh },
                Workload { name: "key_pairs", n: [1, 1, 1], f: r01_pair },
            ],
            floors: &[("draws", 100_000), ("positions", 10_000), ("seeds", 1000), ("threads", 50), ("processes", 30), ("repetition_tests", 100), ("uniformity_tests", 100)],
            assumptions: &["statistical bounds are exceeded by a correct generator with probability below 1e-12 per run"],
        },
        Prop {
            id: "X01",
            rule: "common: a case makes some 25 calls on hashes and bytes that differ in little, in several orders and from several threads, or fills several filters in turns; distinct by operands",
            work: vec![Workload { name: "common_calls", n: [3, 4000, 150_000], f: x01 }, Workload { name: "common_filters", n: [4, 4000, 150_000], f: x01_filters }],
            floors: &[("filter_steps", 20_000)],
            assumptions: &[],
        },
        Prop { id: "M01", rule: "", work: vec![Workload { name: "misuse", n: [8, 24_000, 400_000], f: misuse }], floors: &[], assumptions: &[] },
    ]);
}
