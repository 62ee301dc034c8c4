use bencode::{Value, ValueRef};
use common::sha1::Sha1Hash;
use common::types::{PublicKey, Signature};
use dht::detail;
use dht::node::{distance_exp, min_distance_exp};
use dht::settings::DhtSettings;
use dht::state::{extract_node_ids, DhtState};
use dht::storage::{DefaultDhtStorage, DhtStorage};
use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV6};
use vpmon::model::*;
use vpmon::refs::{self, RBloom, RVal};
use vpmon::*;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

type Id = [u8; 20];
/// network-order address bytes (4 or 16) and port: what identifies an endpoint
type Ep = (Vec<u8>, u16);

fn ip_bytes(a: &IpAddr) -> Vec<u8> {
    match a { IpAddr::V4(a) => a.octets().to_vec(), IpAddr::V6(a) => a.octets().to_vec() }
}
fn ep(a: &SocketAddr) -> Ep { (ip_bytes(&a.ip()), a.port()) }
fn compact(e: &Ep) -> Vec<u8> {
    let mut v = e.0.clone();
    v.push((e.1 >> 8) as u8);
    v.push(e.1 as u8);
    v
}
fn id(g: &mut Gen) -> Id {
    match g.below(6) {
        0 => [*g.pick(&[0u8, 0xff, 1, 0x80]); 20],
        1 => { let mut b = [0; 20]; let i = g.below(160); b[i / 8] = 0x80 >> (i % 8); b }
        2 => { let mut b: Id = g.arr(); for _ in 0..g.range(1, 3) { let i = if g.bool() { *g.pick(&[0, 1, 2, 3, 18, 19]) } else { g.below(20) }; b[i] = g.byte(); } b }
        _ => g.arr(),
    }
}
/// an id whose distance exponent to `a` is mostly not 159
fn near(g: &mut Gen, a: &Id) -> Id {
    let mut b = *a;
    if g.one_in(12) { return b; }
    let k = g.below(160);
    let r: Id = g.arr();
    let (x, mut y) = (refs::bits(&r), refs::bits(a));
    for i in 159 - k..160 { y[i] = x[i]; }
    y[159 - k] = !refs::bits(a)[159 - k];
    b.copy_from_slice(&refs::unbits(&y));
    b
}
fn port(g: &mut Gen) -> u16 {
    match g.below(6) { 5 => g.dict_int() as u16, 0 => *g.pick(&[0u16, 1, 255, 256, 257, 6881, 65535, 65280]), 1 => g.below(4) as u16, _ => g.u64() as u16 }
}
const SPECIAL4: &[[u8; 4]] = &[[0, 0, 0, 0], [127, 0, 0, 1], [255, 255, 255, 255], [10, 0, 0, 1], [172, 16, 0, 1], [192, 168, 1, 1], [169, 254, 1, 1], [224, 0, 0, 1],
    [239, 255, 255, 250], [100, 64, 0, 1], [192, 0, 2, 1], [198, 18, 0, 1], [240, 0, 0, 1], [0, 0, 0, 1], [8, 8, 8, 8], [1, 1, 1, 1], [127, 255, 255, 255]];
const SPECIAL6: &[&str] = &["::", "::1", "::2", "ff02::1", "ff0e::1", "fe80::1", "febf::1", "fec0::1", "fc00::1", "fd00::1", "2001:db8::1", "2002:102:304::1", "2001::1", "64:ff9b::102:304", "100::1",
    "::ffff:0.0.0.0", "::ffff:127.0.0.1", "::ffff:10.0.0.1", "::127.0.0.1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "2001:4860:4860::8888", "2600::"];
fn ip(g: &mut Gen, v6: bool) -> IpAddr {
    match g.below(8) {
        0 if v6 => return g.pick(SPECIAL6).parse().unwrap(),
        0 => return IpAddr::from(*g.pick(SPECIAL4)),
        1 => {
            // bytes that are literals of the sources
            let mut b: [u8; 16] = g.arr();
            for _ in 0..g.range(1, 4) { let i = g.below(if v6 { 16 } else { 4 }); b[i] = g.byte(); }
            return if v6 { IpAddr::from(b) } else { IpAddr::from([b[0], b[1], b[2], b[3]]) };
        }
        _ => {}
    }
    if v6 {
        let mut a: [u8; 16] = g.arr();
        match g.below(6) {
            0 => { a[..10].fill(0); a[10] = 0xff; a[11] = 0xff; }
            1 => a[..12].fill(0),
            2 => a[..15].fill(*g.pick(&[0u8, 0xff, 0xfe])),
            3 => { a[0] = 0xfe; a[1] = 0x80; a[2..12].fill(0) }
            _ => {}
        }
        IpAddr::V6(Ipv6Addr::from(a))
    } else {
        let mut a: [u8; 4] = g.arr();
        if g.one_in(3) { a[..3].fill(*g.pick(&[0u8, 10, 127, 255])); }
        IpAddr::V4(Ipv4Addr::from(a))
    }
}
fn sock(g: &mut Gen, v6: bool) -> SocketAddr {
    let p = port(g);
    match ip(g, v6) {
        IpAddr::V6(a) if g.one_in(4) => SocketAddr::V6(SocketAddrV6::new(a, p, g.below(3) as u32, g.below(3) as u32)),
        a => SocketAddr::new(a, p),
    }
}
fn some_sock(g: &mut Gen) -> SocketAddr { let v6 = g.bool(); sock(g, v6) }

// ------------------------------------------------------------------ D01, D02
fn check_state(c: &mut Case, s: &DhtState, nids: &[(Vec<u8>, Vec<u8>)], n4: &[Ep], n6: &[Ep], what: &str) -> R {
    let got: Vec<(Vec<u8>, Vec<u8>)> = s.nids.iter().map(|(a, i)| (ip_bytes(a), i.to_vec())).collect();
    ensure!(got == nids, "{}: node ids are {:?} instead of {:?}", what, got, nids);
    let got: Vec<Ep> = s.nodes.iter().map(ep).collect();
    ensure!(got == n4, "{}: nodes are {:?} instead of {:?}", what, got, n4);
    let got: Vec<Ep> = s.nodes6.iter().map(ep).collect();
    ensure!(got == n6, "{}: nodes6 are {:?} instead of {:?}", what, got, n6);
    c.eval();
    Ok(())
}
fn d01(c: &mut Case) -> R {
    let m = if c.g.scale == 0 { 4 } else if c.g.one_in(60) { 3000 } else { 300 };
    let mut s = DhtState::default();
    let (a, b, d) = (c.g.len(m), c.g.len(m), c.g.len(m));
    for _ in 0..a { let v6 = c.g.bool(); let x = ip(&mut c.g, v6); let i = id(&mut c.g); s.nids.push((x, Sha1Hash::from(i))); }
    let mixed = c.g.one_in(3);
    for _ in 0..b { let v6 = mixed && c.g.bool(); let x = sock(&mut c.g, v6); s.nodes.push(x); }
    for _ in 0..d { let v6 = !mixed || c.g.bool(); let x = sock(&mut c.g, v6); s.nodes6.push(x); }
    if c.g.one_in(3) && !s.nodes.is_empty() { let x = s.nodes[0]; s.nodes.push(x); }
    c.note(|| format!("state {:?}", s));
    c.sample(|| format!("{} ids, {} nodes, {} nodes6", s.nids.len(), s.nodes.len(), s.nodes6.len()));
    let nids: Vec<(Vec<u8>, Vec<u8>)> = s.nids.iter().map(|(a, i)| (ip_bytes(a), i.to_vec())).collect();
    let n4: Vec<Ep> = s.nodes.iter().map(ep).collect();
    let n6: Vec<Ep> = s.nodes6.iter().map(ep).collect();
    let saved = sut("DhtState::save", || s.save())?;
    check_state(c, &s, &nids, &n4, &n6, "the state after saving")?;
    let enc = saved.to_vec();
    c.nontrivial(&enc);
    let dec = ValueRef::decode(&enc).map_err(|e| format!("saved state {} cannot be decoded: {}", show(&enc), e))?;
    let r = sut("DhtState::read", || DhtState::read(&dec))?.map_err(|e| format!("saved state {} cannot be read: {}", show(&enc), e))?;
    check_state(c, &r, &nids, &n4, &n6, "the restored state")?;
    let direct = saved.as_ref();
    let r2 = sut("DhtState::read", || DhtState::read(&direct))?.map_err(|e| e.to_string())?;
    check_state(c, &r2, &nids, &n4, &n6, "the state read without encoding")?;
    c.add("ids", a as u64);
    c.add("nodes", b as u64);
    c.add("nodes6", d as u64);
    if a == 0 || b == 0 || d == 0 { c.count("some_part_empty"); }
    // again, over two generations, and cleared
    let again = sut("save", || r.save())?.to_vec();
    ensure!(again == enc, "saving the restored state gives {} instead of {}", show(&again), show(&enc));
    let mut z = r;
    sut("clear", || z.clear())?;
    check_state(c, &z, &[], &[], &[], "the cleared state")?;
    let fresh = DhtState::default();
    ensure!(sut("save", || z.save())?.to_vec() == fresh.save().to_vec(), "a cleared state saves differently from a fresh one");
    check_state(c, &fresh, &[], &[], &[], "a fresh state")?;
    Ok(())
}

fn entry(g: &mut Gen, lens: &[usize]) -> RVal {
    match g.below(10) {
        0 => RVal::Int(g.int()),
        1 => refs::gen_val(g, 4, 2),
        2 => { let n = g.len(60); RVal::Str(g.bytes(n)) }
        3 => { let n = (*g.pick(lens) + g.below(3)).saturating_sub(1); RVal::Str(g.bytes(n)) }
        _ => { let n = *g.pick(lens); RVal::Str(g.bytes(n)) }
    }
}
fn part(g: &mut Gen, lens: &[usize]) -> RVal {
    match g.below(10) {
        0 => refs::gen_val(g, 5, 2),
        1 => entry(g, lens),
        2 => { let mut v = vec![]; for _ in 0..g.below(4) { v.push((refs::gen_key(g), entry(g, lens))); } refs::dict_sort(v) }
        _ => { let m = if g.scale == 0 { 6 } else if g.one_in(40) { 2000 } else { 60 }; let n = g.len(m); RVal::List((0..n).map(|_| entry(g, lens)).collect()) }
    }
}
fn want_ids(v: Option<&RVal>) -> Vec<(Vec<u8>, Vec<u8>)> {
    match v {
        Some(RVal::Str(s)) if s.len() == 20 => vec![(vec![127, 0, 0, 1], s.clone())],
        Some(RVal::List(l)) => l.iter().filter_map(|e| e.bytes()).filter(|s| s.len() == 24 || s.len() == 36).map(|s| (s[20..].to_vec(), s[..20].to_vec())).collect(),
        _ => vec![],
    }
}
fn want_eps(v: Option<&RVal>) -> Vec<Ep> {
    match v {
        Some(RVal::List(l)) => l.iter().filter_map(|e| e.bytes()).filter(|s| s.len() == 6 || s.len() == 18).map(|s| { let k = s.len() - 2; (s[..k].to_vec(), u16::from(s[k]) * 256 + u16::from(s[k + 1])) }).collect(),
        _ => vec![],
    }
}
fn d02(c: &mut Case) -> R {
    let v = if c.g.one_in(8) { refs::gen_value(&mut c.g) } else {
        let mut d = vec![];
        for (k, lens) in [("node-id", &[24usize, 36, 20][..]), ("nodes", &[6, 18]), ("nodes6", &[6, 18])] {
            if !c.g.one_in(5) {
                let p = if k == "node-id" && c.g.one_in(4) { let n = *c.g.pick(&[20, 20, 19, 21, 24, 36]); RVal::Str(c.g.bytes(n)) } else { part(&mut c.g, lens) };
                d.push((k.to_string(), p));
            }
        }
        for _ in 0..c.g.below(4) {
            let k = match c.g.below(3) { 0 => c.g.pick(&["node-id2", "node", "Nodes", "nodes66", "", "node-i", "values"]).to_string(), _ => refs::gen_key(&mut c.g) };
            let x = part(&mut c.g, &[6, 18, 24, 36, 20]);
            d.push((k, x));
        }
        refs::dict_sort(d)
    };
    let enc = refs::encoded(&v);
    c.note(|| format!("data {}", show(&enc)));
    c.sample(|| show(&enc));
    c.nontrivial(&enc);
    let (i, n4, n6) = (want_ids(v.get("node-id")), want_eps(v.get("nodes")), want_eps(v.get("nodes6")));
    let r = to_ref(&v);
    let s = sut("DhtState::read", || DhtState::read(&r))?.map_err(|e| format!("reading {} failed: {}", show(&enc), e))?;
    check_state(c, &s, &i, &n4, &n6, &format!("reading {}", show(&enc)))?;
    c.add("ids_restored", i.len() as u64);
    c.add("endpoints_restored", (n4.len() + n6.len()) as u64);
    for k in ["node-id", "nodes", "nodes6"] {
        if let Some(RVal::List(l)) = v.get(k) { c.add("list_entries", l.len() as u64); }
    }
    // the id extraction under any key
    let k = match &v { RVal::Dict(d) if !d.is_empty() && c.g.bool() => c.g.pick(d).0.clone(), _ => refs::gen_key(&mut c.g) };
    let got = sut("extract_node_ids", || extract_node_ids(&r, &k))?.map_err(|e| format!("extracting {:?} from {} failed: {}", k, show(&enc), e))?;
    let got: Vec<(Vec<u8>, Vec<u8>)> = got.iter().map(|(a, i)| (ip_bytes(a), i.to_vec())).collect();
    let want = want_ids(v.get(&k));
    ensure!(got == want, "node ids under {:?} of {} are {:?} instead of {:?}", k, show(&enc), got, want);
    Ok(())
}

// ------------------------------------------------------------------ D03, D04
macro_rules! opts {
    ($m:ident) => {
        $m!(ints max_peers_reply search_branching max_fail_count max_torrents max_dht_items max_peers max_torrent_search_reply block_timeout block_ratelimit item_lifetime upload_rate_limit sample_infohashes_interval max_infohashes_sample_count;
            bools restrict_routing_ips restrict_search_ips extended_routing_table aggressive_lookups privacy_lookups enforce_node_id ignore_dark_internet read_only);
    };
}
macro_rules! get_all {
    (ints $($i:ident)*; bools $($b:ident)*) => {
        fn all(s: &DhtSettings) -> Vec<(&'static str, bool, u64)> {
            let mut v = vec![];
            $(v.push((stringify!($i), false, s.$i as u64));)*
            $(v.push((stringify!($b), true, u64::from(s.$b)));)*
            v
        }
        fn random_settings(g: &mut Gen) -> DhtSettings {
            let d = DhtSettings::default();
            DhtSettings { $($i: if g.one_in(5) { d.$i } else { g.usize_any() },)* $($b: g.bool(),)* }
        }
    };
}
opts!(get_all);
fn d03(c: &mut Case) -> R {
    let s = random_settings(&mut c.g);
    let want = all(&s);
    c.note(|| format!("settings {:?}", want));
    c.sample(|| format!("{:?}", want));
    c.nontrivial(format!("{:?}", want).as_bytes());
    let v = sut("DhtSettings::save", || s.save())?;
    let enc = v.to_vec();
    let dec = ValueRef::decode(&enc).map_err(|e| format!("saved settings {} cannot be decoded: {}", show(&enc), e))?;
    let got = all(&sut("DhtSettings::read", || DhtSettings::read(&dec))?);
    let def = all(&DhtSettings::default());
    for i in 0..want.len() {
        ensure!(got[i] == want[i], "option {} is {} after saving {} and reading {} back", want[i].0, got[i].2, want[i].2, show(&enc));
        c.count("options_checked");
        if want[i] != def[i] { c.count("non_default"); }
    }
    let got = all(&sut("DhtSettings::read", || DhtSettings::read(&v.as_ref()))?);
    ensure!(got == want, "reading saved settings without encoding gives {:?} instead of {:?}", got, want);
    Ok(())
}
fn d04(c: &mut Case) -> R {
    let def = all(&DhtSettings::default());
    let v = if c.g.one_in(10) { refs::gen_value(&mut c.g) } else {
        let mut d = vec![];
        let dense = c.g.bool();
        for o in &def {
            if if dense { !c.g.one_in(5) } else { c.g.one_in(4) } {
                let x = match c.g.below(8) {
                    0 => refs::gen_val(&mut c.g, 4, 2),
                    1 => RVal::Str(c.g.pick(&[&b""[..], b"1", b"0", b"i1e", b"true", b"\xff"]).to_vec()),
                    2 => RVal::List(vec![RVal::Int(1)]),
                    3 => RVal::Int(*c.g.pick(&[0i64, 1, 2, -1, 256])),
                    4 => RVal::Int(o.2 as i64),
                    _ => RVal::Int(c.g.int()),
                };
                d.push((o.0.to_string(), x));
            }
        }
        for _ in 0..c.g.below(3) {
            let k = if c.g.bool() { refs::gen_key(&mut c.g) } else { format!("{}{}", c.g.pick(&def).0, c.g.pick(&["x", "_", "2", "\0"])) };
            let x = refs::gen_val(&mut c.g, 3, 2);
            d.push((k, x));
        }
        refs::dict_sort(d)
    };
    let enc = refs::encoded(&v);
    c.note(|| format!("data {}", show(&enc)));
    c.sample(|| show(&enc));
    c.nontrivial(&enc);
    let r = to_ref(&v);
    let got = all(&sut("DhtSettings::read", || DhtSettings::read(&r))?);
    for (i, o) in def.iter().enumerate() {
        let want = match v.get(o.0) {
            Some(RVal::Int(n)) => { c.count("taken"); if o.1 { u64::from(*n != 0) } else { *n as u64 } }
            Some(_) => { c.count("wrong_type"); o.2 }
            None => { c.count("missing"); o.2 }
        };
        ensure!(got[i].2 == want, "option {} is {} instead of {} when reading {}", o.0, got[i].2, want, show(&enc));
        c.eval();
    }
    Ok(())
}

// ------------------------------------------------------------------ D05
fn d05(c: &mut Case) -> R {
    let a = some_sock(&mut c.g);
    let with_port = c.g.bool();
    let want = if with_port { compact(&ep(&a)) } else { ip_bytes(&a.ip()) };
    c.note(|| format!("{} with port={}", a, with_port));
    c.sample(|| format!("{} with port={}", a, with_port));
    let chunk = c.g.range(1, 5);
    let intr = *c.g.pick(&[0usize, 0, 2, 4]);
    c.nontrivial(&[&want[..], &[with_port as u8, chunk as u8, intr as u8]].concat());
    let wr = |w: &mut dyn std::io::Write| {
        let mut w = w;
        if with_port { detail::write_socket_addr(&mut w, &a) } else { detail::write_address(&mut w, &a.ip()) }
    };
    // writing, with and without faults
    let mut v = c.g.bytes(3);
    let mut w3 = v.clone();
    w3.extend(&want);
    sut("write", || wr(&mut v))?.map_err(|e| format!("writing {} into a vector failed: {}", a, e))?;
    ensure!(v == w3, "writing {} after {} gives {}", a, show(&w3[..3]), show(&v));
    let mut w = refs::BadWriter::new(&mut c.g, refs::Fault::None, chunk, intr);
    let res = sut("write", || wr(&mut w))?;
    let (got, k) = (std::mem::take(&mut w.got), w.interrupted);
    ensure!(res.is_ok() && got == want, "writing {} in short writes gives {:?} and {}", a, res, show(&got));
    c.add("interrupts", k as u64);
    for at in 0..want.len() {
        let f = if c.g.bool() { refs::Fault::Full(at) } else { refs::Fault::Err(at, *c.g.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::UnexpectedEof])) };
        let once = c.g.bool();
        let mut w = refs::BadWriter::new(&mut c.g, f, chunk, intr);
        w.once = once;
        let res = sut("write", || wr(&mut w))?;
        ensure!(res.is_err(), "a write of {} that fails {}after {} bytes ({:?}) is reported as success", a, if once { "once " } else { "" }, at, f);
        c.count("write_faults");
        c.eval();
    }
    // reading
    let extra = c.g.len(6);
    let mut data = want.clone();
    data.extend(c.g.bytes(extra));
    let v6 = want.len() >= 16;
    let rd = |r: &mut dyn std::io::Read| -> std::io::Result<Ep> {
        let mut r = r;
        match (with_port, v6) {
            (true, true) => detail::read_v6_socket_address(&mut r).map(|x| ep(&x)),
            (true, false) => detail::read_v4_socket_address(&mut r).map(|x| ep(&x)),
            (false, true) => detail::read_v6_address(&mut r).map(|x| (ip_bytes(&x), 0)),
            (false, false) => detail::read_v4_address(&mut r).map(|x| (ip_bytes(&x), 0)),
        }
    };
    let we = if with_port { ep(&a) } else { (ip_bytes(&a.ip()), 0) };
    for fail in 0..=data.len() {
        let cut = c.g.bool();
        let kind = *c.g.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::ConnectionReset]);
        let chunk = c.g.range(1, 20);
        let d = if cut { &data[..fail] } else { &data[..] };
        let c_once = c.g.bool();
        let mut r = refs::BadReader { g: &mut c.g, data: d, pos: 0, max_chunk: chunk, interrupts: intr, fail_at: if cut { None } else { Some((fail, kind)) }, once: c_once, interrupted: 0 };
        let res = sut("read", || rd(&mut r))?;
        let (pos, k) = (r.pos, r.interrupted);
        c.add("interrupts", k as u64);
        if fail >= want.len() {
            match res {
                Ok(x) => ensure!(x == we, "reading {} gives {:?} instead of {:?}", show(d), x, we),
                Err(e) => return Err(format!("reading {} failed: {}", show(d), e)),
            }
            ensure!(pos == want.len(), "reading an address of {} bytes consumed {} bytes", want.len(), pos);
            c.count("reads_ok");
        } else {
            ensure!(res.is_err(), "reading {} of {} bytes gives {:?}", fail, want.len(), res);
            c.count("read_faults");
        }
        c.eval();
    }
    // one after the other
    let others: Vec<SocketAddr> = (0..c.g.range(1, 5)).map(|_| some_sock(&mut c.g)).collect();
    let mut buf = vec![];
    for o in &others { sut("write", || detail::write_socket_addr(&mut buf, o))?.map_err(|e| e.to_string())?; }
    let mut cur = std::io::Cursor::new(&buf[..]);
    for o in &others {
        let x = sut("read", || if o.is_ipv4() { detail::read_v4_socket_address(&mut cur) } else { detail::read_v6_socket_address(&mut cur) })?.map_err(|e| e.to_string())?;
        ensure!(ep(&x) == ep(o), "reading {:?} in sequence gives {:?}", o, x);
    }
    ensure!(cur.position() == buf.len() as u64, "a sequence of endpoints of {} bytes was read from {} bytes", buf.len(), cur.position());
    c.count("sequences");
    Ok(())
}

// ------------------------------------------------------------------ D06, D07, D08
fn dist(a: &[u8], b: &[u8]) -> usize {
    let x: Vec<u8> = a.iter().zip(b).map(|(p, q)| p ^ q).collect();
    refs::top_bit(&x).unwrap_or(0)
}
fn d06(c: &mut Case) -> R {
    let a = id(&mut c.g);
    let m = if c.g.scale == 0 { 3 } else if c.g.one_in(40) { 700 } else { 12 };
    let n = c.g.range(1, m);
    let ids: Vec<Id> = (0..n).map(|_| if c.g.one_in(4) { id(&mut c.g) } else { near(&mut c.g, &a) }).collect();
    c.note(|| format!("{} against {:?}", refs::hex(&a), ids.iter().map(|i| refs::hex(i)).collect::<Vec<_>>()));
    c.sample(|| format!("{} against {}", refs::hex(&a), refs::hex(&ids[0])));
    let x = Sha1Hash::from(a);
    let mut best = usize::MAX;
    for i in &ids {
        let y = Sha1Hash::from(*i);
        let w = dist(&a, i);
        let (p, q) = sut("distance_exp", || (distance_exp(&x, &y), distance_exp(&y, &x)))?;
        ensure!(p == w && q == w, "distance exponent of {} and {} is {} (reversed: {}) instead of {}", x, y, p, q, w);
        best = best.min(w);
        c.nontrivial(&[a, *i].concat());
        c.count(if a == *i { "equal" } else { "different" });
        c.eval();
    }
    ensure!(sut("distance_exp", || distance_exp(&x, &x))? == 0, "the distance exponent of {} to itself is not 0", x);
    let set: Vec<Sha1Hash> = ids.iter().map(|i| Sha1Hash::from(*i)).collect();
    let got = sut("min_distance_exp", || min_distance_exp(&x, &set))?;
    ensure!(got == best, "minimum distance exponent of {} is {} instead of {} to {:?}", x, got, best, ids.iter().map(|i| refs::hex(i)).collect::<Vec<_>>());
    c.count("sets");
    Ok(())
}
fn lower<T: PartialOrd + std::fmt::Debug>(c: &mut Case, v: &[T], x: &T) -> R {
    let want = v.iter().filter(|y| *y < x).count();
    let got = sut("lower_bound", || detail::lower_bound(v, x))?;
    c.eval();
    ensure!(got == want, "lower bound of {:?} in {:?} is {} instead of {}", x, v, got, want);
    c.count(if want == 0 { "at_start" } else if want == v.len() { "at_end" } else { "inside" });
    if v.iter().filter(|y| *y == x).count() > 1 { c.count("duplicates"); }
    Ok(())
}
fn d07(c: &mut Case) -> R {
    let n = { let m = if c.g.scale == 0 { 8 } else if c.g.one_in(100) { 20_000 } else { 400 }; c.g.len(m) };
    let span = *c.g.pick(&[2usize, 5, 50, 5000]);
    let mut v: Vec<i64> = (0..n).map(|_| c.g.below(span) as i64 - span as i64 / 2).collect();
    v.sort();
    c.note(|| format!("sequence {:?}", v));
    c.sample(|| format!("{:?}", v));
    c.nontrivial(format!("{:?}", v).as_bytes());
    for k in 0..8 {
        let x = match k { 0 => i64::MIN, 1 => i64::MAX, _ if !v.is_empty() && c.g.bool() => *c.g.pick(&v), _ => c.g.below(span + 2) as i64 - span as i64 / 2 - 1 };
        lower(c, &v, &x)?;
    }
    let s: Vec<Sha1Hash> = v.iter().map(|x| { let mut b = [0u8; 20]; b[12..].copy_from_slice(&(*x as u64 ^ 1 << 63).to_be_bytes()); Sha1Hash::from(b) }).collect();
    let x = if s.is_empty() || c.g.bool() { Sha1Hash::from(id(&mut c.g)) } else { c.g.pick(&s).clone() };
    lower(c, &s, &x)?;
    let f: Vec<f64> = v.iter().map(|&x| x as f64 / 2.0).collect();
    let x = c.g.below(span * 2) as f64 / 4.0 - span as f64 / 4.0;
    lower(c, &f, &x)
}
/// the entry points that need a hook; without it only the properties that use them have no answer
#[cfg(vp_hooks)]
mod hooked {
    pub fn verify<'a, 'b>(m: &'b bencode::ValueRef<'a>, keys: &[&str]) -> Option<Vec<&'b bencode::ValueRef<'a>>> { dht::msg::vp_verify(m, keys) }
    pub fn counters(s: &dht::storage::DefaultDhtStorage<'_>) -> [i64; 4] { s.vp_counters() }
}
#[cfg(not(vp_hooks))]
mod hooked {
    pub fn verify<'a, 'b>(_: &'b bencode::ValueRef<'a>, _: &[&str]) -> Option<Vec<&'b bencode::ValueRef<'a>>> { missing() }
    pub fn counters(_: &dht::storage::DefaultDhtStorage<'_>) -> [i64; 4] { missing() }
    fn missing() -> ! { eprintln!("built without hooks"); std::process::exit(3) }
}
fn d08(c: &mut Case) -> R {
    let v = if c.g.one_in(6) { refs::gen_value(&mut c.g) } else { let m = if c.g.scale > 0 && c.g.one_in(50) { 400 } else { 12 }; let n = c.g.len(m); refs::dict_sort((0..n).map(|k| (if n > 50 { format!("k{}", k) } else { refs::gen_key(&mut c.g) }, refs::gen_val(&mut c.g, 4, 2))).collect()) };
    let mut keys: Vec<String> = vec![];
    if let RVal::Dict(d) = &v {
        if !d.is_empty() { for _ in 0..c.g.below(10 + d.len()) { keys.push(c.g.pick(d).0.clone()); } }
    }
    for _ in 0..if c.g.one_in(3) { c.g.range(1, 2) } else { 0 } {
        let i = c.g.below(keys.len() + 1);
        let k = if keys.is_empty() || c.g.bool() { refs::gen_key(&mut c.g) } else { let k = c.g.pick(&keys).clone(); match c.g.below(3) { 0 => format!("{}x", k), 1 => k.to_uppercase(), _ => k.chars().skip(1).collect() } };
        keys.insert(i, k);
    }
    let enc = refs::encoded(&v);
    c.note(|| format!("message {} keys {:?}", show(&enc), keys));
    c.sample(|| format!("message {} keys {:?}", show(&enc), keys));
    c.nontrivial(&[&enc[..], format!("{:?}", keys).as_bytes()].concat());
    let want: Option<Vec<&RVal>> = match &v { RVal::Dict(_) => keys.iter().map(|k| v.get(k)).collect(), _ => None };
    let r = to_ref(&v);
    let ks: Vec<&str> = keys.iter().map(|k| &k[..]).collect();
    let got = sut("verify_message_impl", || hooked::verify(&r, &ks))?;
    match (&got, &want) {
        (None, None) => c.count("rejected"),
        (Some(g), Some(w)) => {
            c.count("accepted");
            ensure!(g.len() == w.len(), "{} values for {} keys", g.len(), w.len());
            for i in 0..w.len() {
                ensure!(same_ref(g[i], w[i]), "value of key {:?} of {} is {} instead of {}", keys[i], show(&enc), show(&g[i].to_vec()), show(&refs::encoded(w[i])));
            }
            c.add("values_checked", w.len() as u64);
        }
        _ => return Err(format!("verification of {} for {:?} is {} instead of {}", show(&enc), keys, got.is_some(), want.is_some())),
    }
    if !matches!(v, RVal::Dict(_)) { c.count("not_a_dict"); }
    Ok(())
}

// ------------------------------------------------------------------ the store and its model
#[derive(Default, Clone)]
struct MTorrent { name: String, v4: BTreeMap<Ep, bool>, v6: BTreeMap<Ep, bool> }
impl MTorrent {
    fn peers(&self, v6: bool) -> &BTreeMap<Ep, bool> { if v6 { &self.v6 } else { &self.v4 } }
}
#[derive(Clone)]
struct MItem { value: Vec<u8>, ips: RBloom, ann: i64, seq: i64, sig: Vec<u8>, key: Vec<u8> }
impl MItem {
    fn touch(&mut self, a: &IpAddr) {
        let k = refs::sha1(&ip_bytes(a));
        if !self.ips.has(&k) { self.ips.add(&k); self.ann += 1; }
    }
}
#[derive(Default)]
struct Model { ids: Vec<Id>, torrents: BTreeMap<Id, MTorrent>, imm: BTreeMap<Id, MItem>, mu: BTreeMap<Id, MItem> }
impl Model {
    fn importance(&self, t: &Id, it: &MItem) -> i64 {
        it.ann / 5 - self.ids.iter().map(|n| dist(n, t)).min().unwrap() as i64
    }
}

/// what a run judges; everything else it only follows
#[derive(Clone, Copy, PartialEq, Debug)]
enum Judge { Lookup, Capacity, Scrape, Immutable, Eviction, Mutable, Counters, Total }
use Judge::*;

#[derive(Clone)]
struct Pools { hashes: Vec<Id>, eps: Vec<SocketAddr>, targets: Vec<Id>, ips: Vec<IpAddr>, names: Vec<String> }

fn name(g: &mut Gen) -> String {
    match g.below(6) {
        0 => String::new(),
        1 => g.word(60),
        2 => { let n = g.range(95, 105); g.text(n) }
        3 => { let n = g.range(99, 101); (0..n).map(|_| g.char()).collect() }
        4 => { let n = g.len(400); g.text(n) }
        _ => format!("n{}", g.below(9)),
    }
}
fn pools(g: &mut Gen, ids: &[Id], big: bool) -> Pools {
    let micro = g.scale == 0;
    let nh = if big { g.range(1, 40) } else { g.range(1, 6) };
    let ne = if micro { g.range(1, 5) } else if big { g.range(10, 600) } else { g.range(1, 30) };
    let mut eps: Vec<SocketAddr> = vec![];
    let fam = g.below(4);
    while eps.len() < ne {
        let v6 = match fam { 0 => false, 1 => true, _ => g.bool() };
        let mut s = sock(g, v6);
        // same address with another port, or with another scope; the same number in the other family
        if !eps.is_empty() && g.one_in(3) {
            let o = *g.pick(&eps);
            s = match (o, g.below(4)) {
                (SocketAddr::V6(o), 0) => SocketAddr::V6(SocketAddrV6::new(*o.ip(), o.port(), g.below(3) as u32, g.below(3) as u32)),
                (SocketAddr::V4(o), 0) => SocketAddr::new(IpAddr::V6(o.ip().to_ipv6_mapped()), o.port()),
                (o, 1) => SocketAddr::new(o.ip(), o.port() ^ (1 << g.below(16))),
                (o, 2) => SocketAddr::new(s.ip(), o.port()),
                (o, _) => SocketAddr::new(o.ip(), o.port().wrapping_add(1)),
            };
        }
        eps.push(s);
    }
    let nt = if micro { g.range(1, 4) } else if big { g.range(5, 60) } else { g.range(1, 12) };
    let targets: Vec<Id> = (0..nt).map(|_| if g.one_in(4) { id(g) } else { let n = *g.pick(ids); near(g, &n) }).collect();
    let ni = if micro { 6 } else if g.one_in(6) { 600 } else { g.range(1, 60) };
    Pools {
        hashes: { let same = g.one_in(4); (0..nh).map(|i| if same && i < targets.len() { targets[i] } else { id(g) }).collect() },
        eps,
        targets,
        ips: (0..ni).map(|_| { let v6 = g.bool(); ip(g, v6) }).collect(),
        names: (0..g.range(1, 4)).map(|_| name(g)).collect(),
    }
}

fn limit(g: &mut Gen, reach: usize) -> usize {
    match g.below(12) {
        0 => 0,
        1 => 1,
        2 => g.usize_any(),
        3 => g.len(1000),
        4 | 5 => reach + g.below(3),
        _ => g.below(reach + 1),
    }
}

struct World<'a> {
    s: DefaultDhtStorage<'a>,
    set: &'a DhtSettings,
    m: Model,
    p: Pools,
    j: Judge,
    fp: Vec<u8>,
}

fn empty_dict() -> Value { Value::with_dict(BTreeMap::new()) }

impl World<'_> {
    fn step(&mut self, b: &[u8]) { if self.fp.len() < 4000 { self.fp.extend_from_slice(b); } }
    fn is(&self, j: Judge) -> bool { self.j == j }

    fn ids(&mut self, c: &mut Case, ids: Vec<Id>) -> R {
        c.note(|| format!("update_node_ids {:?}", ids.iter().map(|i| refs::hex(i)).collect::<Vec<_>>()));
        let v: Vec<Sha1Hash> = ids.iter().map(|i| Sha1Hash::from(*i)).collect();
        sut("update_node_ids", || self.s.update_node_ids(&v))?;
        self.m.ids = ids;
        Ok(())
    }

    fn announce(&mut self, c: &mut Case, h: Id, e: SocketAddr, name: &str, seed: bool) -> R {
        c.note(|| format!("announce {} {:?} name={:?} seed={}", refs::hex(&h), e, name, seed));
        self.step(&[&[1, seed as u8], &h[..2], &compact(&ep(&e))[..]].concat());
        let x = Sha1Hash::from(h);
        sut("announce_peer", || self.s.announce_peer(&x, &e, name, seed))?;
        if !self.m.torrents.contains_key(&h) {
            if self.m.torrents.len() >= self.set.max_torrents { c.count("announce_dropped_torrents"); return Ok(()); }
            self.m.torrents.insert(h, MTorrent::default());
            c.count("torrents_added");
        }
        let t = self.m.torrents.get_mut(&h).unwrap();
        if t.name.is_empty() && !name.is_empty() { t.name = name.chars().take(100).collect(); c.count("names_set"); }
        let max = self.set.max_peers;
        let pv = if e.is_ipv6() { &mut t.v6 } else { &mut t.v4 };
        let n = pv.len();
        match pv.get_mut(&ep(&e)) {
            Some(s) => { if *s != seed { c.count("role_changed"); } *s = seed; c.count("reannounced"); if n >= max { c.count("reannounced_at_limit"); } }
            None if n >= max => c.count("announce_dropped_peers"),
            None => { pv.insert(ep(&e), seed); c.count("peers_added"); }
        }
        Ok(())
    }

    /// a lookup without scrape; the reply is an empty list
    fn lookup(&mut self, c: &mut Case, h: Id, no_seed: bool, req: SocketAddr) -> R {
        let v6 = req.is_ipv6();
        let mut reply = empty_dict();
        // most of the time prepared by the caller, as a list
        let prepared = c.g.one_in(2) || !self.is(Lookup);
        let (mut before, mut others) = (vec![], vec![]);
        if prepared {
            if self.is(Lookup) && c.g.one_in(8) { for _ in 0..c.g.range(1, 3) { before.push(Value::from(&compact(&ep(&some_sock(&mut c.g)))[..])); } c.count("reply_had_peers"); }
            reply.as_dict_mut().unwrap().insert("values".into(), Value::with_list(before.clone()));
        }
        if self.is(Lookup) && c.g.one_in(8) {
            others = vec![("id".to_string(), RVal::Str(vec![7; 20])), ("token".to_string(), refs::gen_val(&mut c.g, 3, 2)), ("BFpe".to_string(), RVal::Str(vec![1, 2, 3]))];
            for (k, v) in &others { reply.as_dict_mut().unwrap().insert(k.clone(), to_value(v)); }
            c.count("reply_had_entries");
        }
        let x = Sha1Hash::from(h);
        let full = sut("get_peers", || self.s.get_peers(&x, no_seed, false, &req, &mut reply))?
            .map_err(|e| format!("lookup of {} for {:?} failed: {}", x, req, e))?;
        let r = from_value(&reply);
        c.note(|| format!("lookup {} no_seed={} by {:?}: full={} {}", x, no_seed, req, full, show(&refs::encoded(&r))));
        self.step(&[&[2, no_seed as u8, v6 as u8, full as u8], &h[..2]].concat());
        c.eval();
        let t = self.m.torrents.get(&h);
        if self.is(Capacity) { self.judge_full(c, h, &req, full)?; }
        let mut values: Vec<Vec<u8>> = match r.get("values") {
            Some(RVal::List(l)) => l.iter().map(|v| v.bytes().map(|b| b.to_vec()).ok_or_else(|| format!("lookup of {} returned a peer that is no string", x))).collect::<Result<_, _>>()?,
            None => vec![],
            _ => return Err(format!("lookup of {} turned the peer list into {}", x, show(&refs::encoded(&r)))),
        };
        if !self.is(Lookup) && !self.is(Capacity) { return Ok(()); }
        let had: Vec<Vec<u8>> = before.iter().map(|v| v.as_bytes().unwrap().to_vec()).collect();
        ensure!(values.starts_with(&had), "lookup of {} changed the peers its reply already had: {}", x, show(&refs::encoded(&r)));
        values.drain(..had.len());
        for (k, v) in &others { ensure!(r.get(k) == Some(v), "lookup of {} changed the entry {:?} of its reply: {}", x, k, show(&refs::encoded(&r))); }
        let none = MTorrent::default();
        let known = t.unwrap_or(&none);
        let all = known.peers(v6);
        let eligible: BTreeSet<Vec<u8>> = all.iter().filter(|(_, s)| !(no_seed && **s)).map(|(e, _)| compact(e)).collect();
        let lim = if v6 { self.set.max_peers_reply / 4 } else { self.set.max_peers_reply };
        let mut seen = BTreeSet::new();
        let one = format!("lookup of {} by {} (no_seed={})", x, req, no_seed);
        for b in &values {
            ensure!(eligible.contains(b), "{} returned {}, which is not an eligible peer; eligible are {}", one, refs::hex(b), eligible.iter().map(|e| refs::hex(e)).collect::<Vec<_>>().join(" "));
            ensure!(seen.insert(b.clone()), "{} returned {} twice", one, refs::hex(b));
        }
        let want = eligible.len().min(lim);
        ensure!(values.len() == want, "{} returned {} peers instead of {} ({} eligible of {} stored, reply limit {})", one, values.len(), want, eligible.len(), all.len(), lim);
        if self.is(Lookup) {
            let n = r.get("n");
            match t {
                Some(t) if !t.name.is_empty() => ensure!(n == Some(&RVal::Str(t.name.clone().into_bytes())), "{} gives the name {:?} instead of {:?}", one, n, t.name),
                _ => ensure!(n.is_none(), "{} gives the name {:?} although none was announced", one, n),
            }
            if t.is_none() { ensure!(values.is_empty(), "{} gives peers of an unknown torrent", one); c.count("unknown_lookups"); }
            if let RVal::Dict(d) = &r { for (k, _) in d { ensure!(k == "n" || k == "values" || others.iter().any(|o| o.0 == *k), "{} put {:?} into the reply", one, k); } }
            c.add("peers_returned", want as u64);
            if want < eligible.len() { c.count("limited_lookups"); } else if want > 0 { c.count("complete_lookups"); }
            if no_seed && eligible.len() < all.len() { c.count("seeds_filtered"); }
            if v6 && want > 0 { c.count("v6_lookups"); }
        }
        Ok(())
    }

    fn judge_full(&self, c: &mut Case, h: Id, req: &SocketAddr, full: bool) -> R {
        let want = match self.m.torrents.get(&h) {
            None => self.m.torrents.len() >= self.set.max_torrents,
            Some(t) => { let p = t.peers(req.is_ipv6()); p.len() >= self.set.max_peers && !p.contains_key(&ep(req)) }
        };
        c.count(match (self.m.torrents.contains_key(&h), want) { (false, false) => "unknown_not_full", (false, true) => "unknown_full", (true, false) => "known_not_full", (true, true) => "known_full" });
        ensure!(full == want, "lookup of {} by {} reports full={} with {} torrents (limit {}) and {} peers (limit {})", refs::hex(&h), req, full, self.m.torrents.len(), self.set.max_torrents,
            self.m.torrents.get(&h).map_or(0, |t| t.peers(req.is_ipv6()).len()), self.set.max_peers);
        Ok(())
    }

    fn scrape(&mut self, c: &mut Case, h: Id, no_seed: bool, req: SocketAddr) -> R {
        let v6 = req.is_ipv6();
        let mut reply = empty_dict();
        let x = Sha1Hash::from(h);
        let full = sut("get_peers (scrape)", || self.s.get_peers(&x, no_seed, true, &req, &mut reply))?.map_err(|e| format!("scrape of {} failed: {}", x, e))?;
        c.eval();
        let r = from_value(&reply);
        c.note(|| format!("scrape {} by {:?}: full={} {}", x, req, full, show(&refs::encoded(&r))));
        self.step(&[&[3, v6 as u8], &h[..2]].concat());
        if self.is(Capacity) { self.judge_full(c, h, &req, full)?; }
        if !self.is(Scrape) { return Ok(()); }
        let Some(t) = self.m.torrents.get(&h) else {
            c.count("unknown_scrapes");
            return Ok(());
        };
        let (mut dl, mut sd) = (RBloom::new(256), RBloom::new(256));
        for (e, seed) in t.peers(v6) { if *seed { &mut sd } else { &mut dl }.add(&refs::sha1(&e.0)); }
        for (k, w) in [("BFpe", &dl), ("BFsd", &sd)] {
            match r.get(k) {
                Some(RVal::Str(b)) => ensure!(*b == w.bytes(), "{} of {} has {} bits set instead of {} for {} stored peers", k, x, ones(b), ones(&w.bytes()), t.peers(v6).len()),
                o => return Err(format!("{} of a scrape of {} is {:?}", k, x, o)),
            }
        }
        ensure!(r.get("values").is_none(), "a scrape of {} added a peer list", x);
        match (r.get("n"), &t.name) {
            (None, n) => ensure!(n.is_empty(), "a scrape of {} lacks the name {:?}", x, n),
            (Some(n), w) => ensure!(*n == RVal::Str(w.clone().into_bytes()) && !w.is_empty(), "a scrape of {} gives the name {:?} instead of {:?}", x, n, w),
        }
        c.count("scrapes");
        c.add("scraped_seeds", t.peers(v6).values().filter(|s| **s).count() as u64);
        c.add("scraped_peers", t.peers(v6).values().filter(|s| !**s).count() as u64);
        Ok(())
    }
    /// the name as an ordinary lookup shows it
    fn name_of(&mut self, c: &mut Case, h: Id, req: SocketAddr) -> R {
        let mut reply = empty_dict();
        reply.as_dict_mut().unwrap().insert("values".into(), Value::with_list(vec![]));
        let x = Sha1Hash::from(h);
        sut("get_peers", || self.s.get_peers(&x, false, false, &req, &mut reply))?.map_err(|e| e.to_string())?;
        let r = from_value(&reply);
        let want = self.m.torrents.get(&h).map(|t| t.name.clone()).filter(|n| !n.is_empty());
        ensure!(r.get("n").map(|n| n.bytes().map(|b| b.to_vec())) == want.clone().map(|n| Some(n.into_bytes())), "lookup of {} gives the name {:?} instead of {:?}", x, r.get("n"), want);
        ensure!(r.get("BFpe").is_none() && r.get("BFsd").is_none(), "a lookup of {} without scrape added bloom filters", x);
        c.count("names_checked");
        c.eval();
        Ok(())
    }

    fn reply_dict(&self, c: &mut Case) -> (Value, Vec<(String, RVal)>) {
        let mut d = vec![];
        if c.g.one_in(3) {
            d.push(("id".to_string(), RVal::Str(vec![7; 20])));
            if c.g.bool() { d.push(("zz".to_string(), RVal::Int(3))); }
            // left over from an earlier reply
            for k in ["k", "seq", "sig", "v"] {
                if c.g.one_in(6) { let v = refs::gen_val(&mut c.g, 3, 2); d.push((k.to_string(), v)); }
            }
            d = match refs::dict_sort(d) { RVal::Dict(d) => d, _ => unreachable!() };
        }
        (to_value(&RVal::Dict(d.clone())), d)
    }

    fn has_imm(&self, t: &Id) -> Result<bool, String> {
        let x = Sha1Hash::from(*t);
        let mut r = empty_dict();
        sut("get_immutable_item", || self.s.get_immutable_item(&x, &mut r))
    }
    fn has_mut(&self, t: &Id) -> Result<bool, String> {
        let x = Sha1Hash::from(*t);
        let mut q = 0;
        sut("get_mutable_item_seq", || self.s.get_mutable_item_seq(&x, &mut q))
    }

    /// What a put of a new target evicted: found by asking for every stored target.
    fn follow_eviction(&mut self, c: &mut Case, mutable: bool, new: Id) -> Result<bool, String> {
        let table: Vec<Id> = if mutable { self.m.mu.keys() } else { self.m.imm.keys() }.copied().collect();
        let full = table.len() >= self.set.max_dht_items;
        let mut gone = vec![];
        for t in &table {
            if !(if mutable { self.has_mut(t)? } else { self.has_imm(t)? }) { gone.push(*t); }
            c.count("presence_checks");
        }
        let stored = if mutable { self.has_mut(&new)? } else { self.has_imm(&new)? };
        let kind = if mutable { "mutable" } else { "immutable" };
        if !full {
            if matches!(self.j, Eviction | Immutable | Mutable | Counters) { ensure!(gone.is_empty(), "a put of {} evicted {} although the {} table holds {} of {} items", refs::hex(&new), refs::hex(&gone[0]), kind, table.len(), self.set.max_dht_items); }
            if self.is(Eviction) || self.is(Immutable) || self.is(Mutable) {
                ensure!(stored, "a put of {} was dropped although the {} table holds {} of {} items", refs::hex(&new), kind, table.len(), self.set.max_dht_items);
            }
        }
        if self.is(Eviction) && full {
            if self.set.max_dht_items == 0 {
                ensure!(!stored, "the {} table holds {} with a limit of zero", kind, refs::hex(&new));
                c.count("zero_limit_puts");
            } else {
                ensure!(stored, "a put of {} into a full {} table of {} was dropped", refs::hex(&new), kind, table.len());
                ensure!(gone.len() == 1, "a put into a full {} table of {} evicted {} items", kind, table.len(), gone.len());
                let tab = if mutable { &self.m.mu } else { &self.m.imm };
                let imp: Vec<(Id, i64)> = tab.iter().map(|(t, i)| (*t, self.m.importance(t, i))).collect();
                let least = imp.iter().map(|x| x.1).min().unwrap();
                let got = imp.iter().find(|x| x.0 == gone[0]).unwrap().1;
                ensure!(got == least, "a put into a full {} table evicted {} of importance {} but the least importance is {}: {}", kind, refs::hex(&gone[0]), got, least,
                    imp.iter().map(|(t, i)| format!("{}: {} announcers, {}", refs::hex(&t[..4]), tab[t].ann, i)).collect::<Vec<_>>().join("; "));
                let ties = imp.iter().filter(|x| x.1 == least).count();
                c.count("evictions");
                if ties < imp.len() { c.count("decided_evictions"); }
                if imp.iter().any(|(t, i)| *i > least && dist_min(&self.m, t) > dist_min(&self.m, &gone[0])) { c.count("announcers_decided"); }
                self.step(&[&[9], &gone[0][..2]].concat());
            }
        }
        for t in gone { if mutable { self.m.mu.remove(&t); } else { self.m.imm.remove(&t); } c.count("evicted"); }
        Ok(stored)
    }

    fn put_imm(&mut self, c: &mut Case, t: Id, v: &RVal, a: IpAddr) -> R {
        // stored items are valid bencode, canonical or not
        let mut b = vec![];
        if c.g.one_in(4) { refs::encode_sloppy(&mut c.g, v, &mut b) } else { refs::encode(v, &mut b) }
        c.note(|| format!("put immutable {} = {} from {}", refs::hex(&t), show(&b), a));
        self.step(&[&[4], &t[..2], &ip_bytes(&a)].concat());
        let x = Sha1Hash::from(t);
        sut("put_immutable_item", || self.s.put_immutable_item(&x, &b, &a))?;
        c.count("immutable_puts");
        if !self.m.imm.contains_key(&t) {
            if !self.follow_eviction(c, false, t)? { return Ok(()); }
            self.m.imm.insert(t, MItem { value: b, ips: RBloom::new(128), ann: 0, seq: 0, sig: vec![], key: vec![] });
        } else {
            c.count("immutable_again");
            if self.is(Eviction) { self.all_present(c)?; }
        }
        self.m.imm.get_mut(&t).unwrap().touch(&a);
        Ok(())
    }
    fn all_present(&self, c: &mut Case) -> R {
        for t in self.m.imm.keys() { ensure!(self.has_imm(t)?, "immutable item {} vanished without a put that evicts", refs::hex(t)); }
        for t in self.m.mu.keys() { ensure!(self.has_mut(t)?, "mutable item {} vanished without a put that evicts", refs::hex(t)); }
        for t in &self.p.targets {
            ensure!(self.m.imm.contains_key(t) || !self.has_imm(t)?, "immutable item {} appeared, or came back after eviction", refs::hex(t));
            ensure!(self.m.mu.contains_key(t) || !self.has_mut(t)?, "mutable item {} appeared, or came back after eviction", refs::hex(t));
        }
        c.add("presence_checks", (self.m.imm.len() + self.m.mu.len() + self.p.targets.len()) as u64);
        Ok(())
    }
    fn get_imm(&mut self, c: &mut Case, t: Id) -> R {
        let (mut r, mut d) = self.reply_dict(c);
        let x = Sha1Hash::from(t);
        let ok = sut("get_immutable_item", || self.s.get_immutable_item(&x, &mut r))?;
        c.note(|| format!("get immutable {}: {}", x, ok));
        c.eval();
        if !self.is(Immutable) { return Ok(()); }
        let want = self.m.imm.get(&t);
        ensure!(ok == want.is_some(), "get of immutable item {} gives {} instead of {}", x, ok, want.is_some());
        if let Some(w) = want { set(&mut d, "v", refs::decode(&w.value).unwrap().0); c.count("immutable_hits"); } else { c.count("immutable_misses"); }
        let w = refs::dict_sort(d);
        ensure!(same(&r, &w), "get of immutable item {} gives the reply {} instead of {}", x, show(&r.to_vec()), show(&refs::encoded(&w)));
        Ok(())
    }

    fn put_mut(&mut self, c: &mut Case, t: Id, v: &RVal, seq: i64, a: IpAddr) -> R {
        let mut b = vec![];
        if c.g.one_in(6) { refs::encode_sloppy(&mut c.g, v, &mut b) } else { refs::encode(v, &mut b) }
        // a target stands for one key; every put has its own signature
        let mut pk = PublicKey::default();
        pk[..20].copy_from_slice(&t);
        pk[31] = 9;
        let sig: [u8; 64] = c.g.arr();
        let mut s = Signature::default();
        s.copy_from_slice(&sig);
        let salt = c.g.blob(20);
        c.note(|| format!("put mutable {} seq={} = {} from {}", refs::hex(&t), seq, show(&b), a));
        self.step(&[&[5], &t[..2], &seq.to_le_bytes()[..], &ip_bytes(&a)].concat());
        let x = Sha1Hash::from(t);
        sut("put_mutable_item", || self.s.put_mutable_item(&x, &b, &s, seq, &pk, &salt, &a))?;
        c.count("mutable_puts");
        let new = MItem { value: b, ips: RBloom::new(128), ann: 0, seq, sig: sig.to_vec(), key: pk.to_vec() };
        if let Some(i) = self.m.mu.get_mut(&t) {
            if seq > i.seq {
                i.value = new.value;
                i.seq = seq;
                i.sig = new.sig;
                c.count("mutable_replaced");
            } else {
                c.count("mutable_kept");
            }
            if self.is(Eviction) { self.all_present(c)?; }
        } else {
            if !self.follow_eviction(c, true, t)? { return Ok(()); }
            self.m.mu.insert(t, new);
        }
        self.m.mu.get_mut(&t).unwrap().touch(&a);
        Ok(())
    }
    fn get_mut(&mut self, c: &mut Case, t: Id, seq: i64, force: bool) -> R {
        let x = Sha1Hash::from(t);
        let (mut r, mut d) = self.reply_dict(c);
        let ok = sut("get_mutable_item", || self.s.get_mutable_item(&x, seq, force, &mut r))?;
        let mut q = 0x5555;
        let ok2 = sut("get_mutable_item_seq", || self.s.get_mutable_item_seq(&x, &mut q))?;
        c.note(|| format!("get mutable {} seq={} force={}: {} seq {}", x, seq, force, ok, q));
        c.eval();
        if !self.is(Mutable) { return Ok(()); }
        let w = self.m.mu.get(&t);
        ensure!(ok == w.is_some() && ok2 == ok, "get of mutable item {} gives {} and {} instead of {}", x, ok, ok2, w.is_some());
        match w {
            None => { ensure!(q == 0x5555, "a missing mutable item {} has the number {}", x, q); c.count("mutable_misses"); }
            Some(i) => {
                ensure!(q == i.seq, "the number of mutable item {} is {} instead of {}", x, q, i.seq);
                set(&mut d, "seq", RVal::Int(i.seq));
                if force || (seq >= 0 && seq < i.seq) {
                    set(&mut d, "v", refs::decode(&i.value).unwrap().0);
                    set(&mut d, "sig", RVal::Str(i.sig.clone()));
                    set(&mut d, "k", RVal::Str(i.key.clone()));
                    c.count(if force { "mutable_forced" } else { "mutable_newer" });
                } else {
                    c.count("mutable_number_only");
                }
            }
        }
        let w = refs::dict_sort(d);
        ensure!(same(&r, &w), "get of mutable item {} (seq {}, force {}) gives the reply {} instead of {}", x, seq, force, show(&r.to_vec()), show(&refs::encoded(&w)));
        Ok(())
    }

    /// counts everything the store really holds and compares with its counters
    fn counters(&mut self, c: &mut Case) -> R {
        let got = hooked::counters(&self.s);
        let mut have = [0i64; 4];
        for h in &self.p.hashes.iter().copied().collect::<BTreeSet<_>>() {
            let x = Sha1Hash::from(*h);
            let mut r = empty_dict();
            let req = SocketAddr::from(([1, 2, 3, 4], 5));
            sut("get_peers (scrape)", || self.s.get_peers(&x, false, true, &req, &mut r))?.map_err(|e| e.to_string())?;
            if r.dict_find("BFpe").is_none() { continue; }
            have[0] += 1;
            for req in [req, SocketAddr::from(([0u16, 0, 0, 0, 0, 0, 0, 1], 5))] {
                let mut r = empty_dict();
                r.as_dict_mut().unwrap().insert("values".into(), Value::with_list(vec![]));
                sut("get_peers", || self.s.get_peers(&x, false, false, &req, &mut r))?.map_err(|e| e.to_string())?;
                let n = r.dict_find_list_value("values").map_or(0, |l| l.len());
                have[1] += n as i64;
            }
        }
        for t in &self.p.targets.iter().copied().collect::<BTreeSet<_>>() {
            have[2] += i64::from(self.has_imm(t)?);
            have[3] += i64::from(self.has_mut(t)?);
        }
        c.eval();
        c.count("counter_comparisons");
        c.nontrivial(format!("{:?}", have).as_bytes());
        ensure!(got == have, "counters (torrents, peers, immutable, mutable) are {:?} but the store holds {:?}", got, have);
        Ok(())
    }

    /// everything the store holds, against the model
    fn capacity_audit(&mut self, c: &mut Case) -> R {
        let mut torrents = 0;
        for h in self.p.hashes.iter().copied().collect::<BTreeSet<_>>() {
            let x = Sha1Hash::from(h);
            let mut known = None;
            for v6 in [false, true] {
                let req = if v6 { SocketAddr::from(([9u16, 0, 0, 0, 0, 0, 0, 1], 5)) } else { SocketAddr::from(([1, 2, 3, 4], 5)) };
                let mut r = empty_dict();
                sut("get_peers (scrape)", || self.s.get_peers(&x, false, true, &req, &mut r))?.map_err(|e| e.to_string())?;
                known = Some(r.dict_find("BFpe").is_some());
                let mut r = empty_dict();
                r.as_dict_mut().unwrap().insert("values".into(), Value::with_list(vec![]));
                sut("get_peers", || self.s.get_peers(&x, false, false, &req, &mut r))?.map_err(|e| e.to_string())?;
                let n = r.dict_find_list_value("values").map_or(0, |l| l.len());
                ensure!(n <= self.set.max_peers, "torrent {} holds {} peers of one family, over the limit of {}", x, n, self.set.max_peers);
                c.max("peers_of_one_family", n as u64);
                self.lookup(c, h, true, req)?;
                self.lookup(c, h, false, req)?;
            }
            torrents += usize::from(known == Some(true));
            ensure!(known == Some(self.m.torrents.contains_key(&h)), "torrent {} is {} but should {}be", x, if known == Some(true) { "stored" } else { "not stored" }, if self.m.torrents.contains_key(&h) { "" } else { "not " });
        }
        ensure!(torrents <= self.set.max_torrents, "the store holds {} torrents, over the limit of {}", torrents, self.set.max_torrents);
        c.max("torrents", torrents as u64);
        c.count("audits");
        Ok(())
    }
}
fn set(d: &mut Vec<(String, RVal)>, k: &str, v: RVal) {
    d.retain(|e| e.0 != k);
    d.push((k.to_string(), v));
}
fn item_value(g: &mut Gen) -> RVal {
    match g.below(12) {
        0..=3 => RVal::Int(g.below(5) as i64),
        4 if g.scale > 0 => { let n = g.len(3000); RVal::Str(g.bytes(n)) }
        5 if g.scale > 0 => { let n = g.range(990, 1010); RVal::Str(g.bytes(n)) }
        6 if g.scale > 0 => refs::gen_val(g, 60, 5),
        7 => RVal::Str(g.blob(300)),
        8 if g.one_in(4) => {
            // nested deeply
            let n = if g.scale == 0 { 3 } else { g.len(2500) };
            let mut v = refs::gen_val(g, 3, 1);
            for _ in 0..n { v = if g.one_in(3) { RVal::Dict(vec![(g.word(8), v)]) } else { RVal::List(vec![v]) }; }
            v
        }
        _ => refs::gen_val(g, 4, 2),
    }
}
fn dist_min(m: &Model, t: &Id) -> usize { m.ids.iter().map(|n| dist(n, t)).min().unwrap() }
fn ones(b: &[u8]) -> u32 { b.iter().map(|x| x.count_ones()).sum() }

fn settings(g: &mut Gen, j: Judge, p: (usize, usize, usize)) -> DhtSettings {
    let mut s = if j == Total { random_settings(g) } else { DhtSettings::default() };
    let (nh, ne, nt) = p;
    match j {
        Lookup => {
            s.max_peers_reply = match g.below(6) { 0 => g.below(3), 1 => g.usize_any(), 2 => 4 * g.below(ne + 1) + g.below(4), _ => g.below(ne + 4) };
            if g.one_in(3) { s.max_peers = limit(g, ne); }
            if g.one_in(6) { s.max_torrents = limit(g, nh); }
        }
        Capacity | Scrape | Counters => {
            s.max_peers_reply = *g.pick(&[4 * ne + 8, usize::MAX, usize::MAX / 2, 100_000]);
            s.max_peers = limit(g, ne / nh.max(1) + 1);
            s.max_torrents = limit(g, nh);
            s.max_dht_items = limit(g, nt);
        }
        Immutable | Mutable => {
            s.max_dht_items = match g.below(4) { 0 => limit(g, nt), _ => nt + g.below(5) };
        }
        Eviction => s.max_dht_items = match g.below(10) { 0 => 0, 1 => limit(g, nt), _ => g.range(1, nt) },
        Total => {
            if g.bool() { s.max_peers_reply = g.below(6); }
            if g.bool() { s.max_peers = g.below(6); }
            if g.bool() { s.max_torrents = g.below(6); }
            if !g.one_in(4) { s.max_dht_items = g.below(6); }
        }
    }
    s
}

/// lets some time pass
fn pass(c: &mut Case) {
    let ms = match c.g.below(12) { 0 => 1, 1 => 30, 2 => 300, 3 => 1001, 4 => 3000, 5 => 61_000, 6 => 301_000, 7 => 1_801_000, 8 => 3 * 3_600_000, 9 => 25 * 3_600_000, 10 => 40 * 86_400_000, _ => c.g.below(100_000) as u64 };
    c.note(|| format!("{} ms pass", ms));
    clock::advance(std::time::Duration::from_millis(ms));
    c.count("time_passed");
}
fn step(c: &mut Case, w: &mut World, mixed: bool, big: bool) -> R {
    let j = w.j;
    let items = matches!(j, Immutable | Mutable | Eviction);
    let k = c.g.below(100);
    let stray = mixed && c.g.one_in(6);
    if items != stray || (matches!(j, Counters | Total) && c.g.bool()) {
        let t = *c.g.pick(&w.p.targets);
        let a = *c.g.pick(&w.p.ips);
        let mutable = match j { Immutable => c.g.one_in(6), Mutable => !c.g.one_in(6), _ => c.g.bool() };
        match k {
            0..=44 => {
                let v = item_value(&mut c.g);
                if mutable {
                    let cur = w.m.mu.get(&t).map_or(0, |i| i.seq);
                    let seq = match c.g.below(6) { 0 => c.g.int(), 1 => cur, 2 => cur.saturating_sub(1), 3 | 4 => cur.saturating_add(1), _ => c.g.below(5) as i64 - 1 };
                    // a value of the same length is replaced in place
                    let v = match w.m.mu.get(&t) { Some(i) if c.g.one_in(3) => { let mut r = refs::decode(&i.value).unwrap().0; if let RVal::Str(s) = &mut r { if let Some(x) = s.first_mut() { *x ^= 1; } } r } _ => v };
                    w.put_mut(c, t, &v, seq, a)?;
                } else {
                    w.put_imm(c, t, &v, a)?;
                }
            }
            45..=59 if j == Eviction || c.g.bool() => {
                // many announcers for one item
                let m = if c.g.one_in(8) { 300 } else { 12 };
                let n = c.g.range(1, m);
                let n = if c.g.scale == 0 { n.min(3) } else { n };
                for _ in 0..n {
                    let a = *c.g.pick(&w.p.ips);
                    if mutable { w.put_mut(c, t, &RVal::Int(1), 0, a)?; } else { w.put_imm(c, t, &RVal::Int(1), a)?; }
                }
            }
            60..=61 => { let n = c.g.range(1, 3); let mut v: Vec<Id> = vec![]; for _ in 0..n { let b = *c.g.pick(&w.p.targets); v.push(if c.g.bool() { near(&mut c.g, &b) } else { id(&mut c.g) }); } w.ids(c, v)?; c.count("node_ids_changed"); }
            _ => {
                if mutable {
                    let cur = w.m.mu.get(&t).map_or(0, |i| i.seq);
                    let seq = match c.g.below(6) { 0 => c.g.int(), 1 => cur, 2 => cur.saturating_sub(1), 3 => cur.saturating_add(1), 4 => -1, _ => 0 };
                    let f = c.g.one_in(3);
                    w.get_mut(c, t, seq, f)?;
                } else {
                    w.get_imm(c, t)?;
                }
            }
        }
    } else {
        let h = *c.g.pick(&w.p.hashes);
        let mut e = *c.g.pick(&w.p.eps);
        match k {
            0..=54 => {
                let n = match c.g.below(3) { 0 => String::new(), 1 => c.g.pick(&w.p.names).clone(), _ => name(&mut c.g) };
                let seed = c.g.one_in(3);
                w.announce(c, h, e, &n, seed)?;
                if j == Capacity && c.g.one_in(4) { let r = *c.g.pick(&w.p.eps); w.lookup(c, h, false, r)?; }
            }
            _ => {
                if c.g.one_in(4) { e = some_sock(&mut c.g); }
                if let (SocketAddr::V6(a), true) = (e, c.g.one_in(4)) { e = SocketAddr::V6(SocketAddrV6::new(*a.ip(), a.port(), 1, 2)); }
                let h = if c.g.one_in(8) { id(&mut c.g) } else { h };
                let no_seed = c.g.bool();
                let scrape = match j { Scrape => !c.g.one_in(4), Lookup => c.g.one_in(12), _ => c.g.one_in(3) };
                if scrape { w.scrape(c, h, no_seed, e)? } else if j == Scrape { w.name_of(c, h, e)? } else { w.lookup(c, h, no_seed, e)? }
            }
        }
    }
    if j == Counters && (c.g.one_in(4) || !big) { w.counters(c)?; }
    if j == Capacity && c.g.one_in(if big { 100 } else { 12 }) { w.capacity_audit(c)?; }
    Ok(())
}
fn finish(c: &mut Case, w: &mut World) -> R {
    match w.j {
        Counters => w.counters(c)?,
        Capacity => w.capacity_audit(c)?,
        Eviction => w.all_present(c)?,
        Immutable => for t in w.p.targets.clone() { w.get_imm(c, t)? },
        Mutable => for t in w.p.targets.clone() { w.get_mut(c, t, -1, true)?; w.get_mut(c, t, 0, false)? },
        Lookup => for h in w.p.hashes.clone() { for e in [SocketAddr::from(([7, 7, 7, 7], 7)), SocketAddr::from(([7u16, 7, 7, 7, 7, 7, 7, 7], 7))] { w.lookup(c, h, true, e)?; w.lookup(c, h, false, e)?; } },
        Scrape => for h in w.p.hashes.clone() { for e in [SocketAddr::from(([7, 7, 7, 7], 7)), SocketAddr::from(([7u16, 7, 7, 7, 7, 7, 7, 7], 7))] { w.scrape(c, h, false, e)?; } },
        Total => {}
    }
    Ok(())
}
fn history(c: &mut Case, j: Judge) -> R {
    let big = c.g.scale > 0 && c.g.one_in(12);
    let nid = if c.g.one_in(10) { c.g.range(4, 20) } else { c.g.range(1, 3) };
    let ids: Vec<Id> = (0..nid).map(|_| id(&mut c.g)).collect();
    let p = pools(&mut c.g, &ids, big);
    let set = settings(&mut c.g, j, (p.hashes.len(), p.eps.len(), p.targets.len()));
    c.note(|| format!("settings {:?}", all(&set)));
    let mut w = World { s: DefaultDhtStorage::new(&set), set: &set, m: Model::default(), p, j, fp: vec![] };
    let steps = if c.g.scale == 0 { 12 } else if big { c.g.range(200, 1500) } else { c.g.range(5, 150) };
    w.ids(c, ids)?;
    // some histories also do what is not judged: it must not matter
    let mixed = c.g.one_in(3);
    // in some of them time passes: nothing is forgotten by itself
    let timed = if c.g.one_in(3) { *c.g.pick(&[4, 15, 60]) } else { 0 };
    clock::reset();
    c.add("steps", steps as u64);
    for _ in 0..steps {
        if timed > 0 && c.g.one_in(timed) { pass(c); }
        step(c, &mut w, mixed, big)?;
    }
    finish(c, &mut w)?;
    c.nontrivial(&w.fp);
    c.sample(|| format!("{} steps over {} torrents, {} endpoints, {} targets", steps, w.p.hashes.len(), w.p.eps.len(), w.p.targets.len()));
    Ok(())
}
fn p01(c: &mut Case) -> R { history(c, Lookup) }
fn p02(c: &mut Case) -> R { history(c, Capacity) }
fn p04(c: &mut Case) -> R { history(c, Scrape) }
fn i01(c: &mut Case) -> R { history(c, Immutable) }
fn i02(c: &mut Case) -> R { history(c, Eviction) }
fn i03(c: &mut Case) -> R { history(c, Mutable) }
fn i04(c: &mut Case) -> R { history(c, Counters) }
fn v01(c: &mut Case) -> R { history(c, Total) }

/// the limits a user really runs with, filled past the brim
fn p02_default(c: &mut Case) -> R {
    let mut set = DhtSettings::default();
    set.max_peers_reply = 10_000;
    if c.idx % 2 == 1 { set.max_torrents = c.g.range(20, 3000); set.max_peers = c.g.range(20, 900); }
    let nt = set.max_torrents + 3;
    let hashes: Vec<Id> = (0..nt).map(|_| c.g.arr()).collect();
    let mut w = World { s: DefaultDhtStorage::new(&set), set: &set, m: Model::default(), p: Pools { hashes: hashes[..20].to_vec(), eps: vec![], targets: vec![], ips: vec![], names: vec![] }, j: Capacity, fp: vec![] };
    let v6 = c.g.bool();
    for _ in 0..set.max_peers + 3 { let e = sock(&mut c.g, v6); let s = c.g.bool(); w.announce(c, hashes[0], e, "", s)?; if c.g.one_in(20) { w.lookup(c, hashes[0], false, e)?; } }
    for h in &hashes { let e = some_sock(&mut c.g); w.announce(c, *h, e, "x", false)?; if c.g.one_in(50) { w.lookup(c, *h, false, e)?; } }
    for h in [hashes[0], hashes[1], hashes[nt - 1], hashes[nt - 4], [7; 20]] { let e = some_sock(&mut c.g); w.lookup(c, h, false, e)?; w.announce(c, h, e, "", true)?; w.lookup(c, h, false, e)?; }
    w.capacity_audit(c)?;
    c.nontrivial(&hashes[0]);
    Ok(())
}
/// the `k`-th of any number of different ids and endpoints, ascending
fn nth_id(salt: u64, k: usize) -> Id {
    let mut b = [0; 20];
    b[..8].copy_from_slice(&(k as u64 * 0x1_0000_0001).to_be_bytes());
    b[8..16].copy_from_slice(&mix(salt ^ k as u64).to_be_bytes());
    b
}
fn nth_ep(salt: u64, k: usize, v6: bool) -> SocketAddr {
    let port = if salt % 2 == 0 { k as u16 } else { mix(salt ^ k as u64) as u16 };
    let n = if salt % 4 == 0 { k as u32 / 3 } else { k as u32 * 61 + (salt >> 40) as u32 % 1000 };
    // (address, port) ascend when the address does not repeat
    let n = if salt % 2 == 0 { n } else { k as u32 };
    if v6 { SocketAddr::new(IpAddr::V6(Ipv6Addr::from((0x2001_0db8u128 << 96) | u128::from(n))), port) } else { SocketAddr::new(IpAddr::V4(Ipv4Addr::from(0x0a00_0000 + n)), port) }
}
/// stores of the sizes at which something might give way
fn large_store(c: &mut Case, j: Judge, kinds: &[usize]) -> R {
    let kind = kinds[c.idx as usize % kinds.len()];
    let top = if c.g.scale == 0 { 24 } else if j == Eviction { 6000 } else if kind >= 3 { 40_000 } else { 67_000 };
    let n = c.g.sweep(c.idx as usize / kinds.len(), 20, top);
    let salt = c.g.u64();
    let limit = match c.g.below(5) { 0 => n - 1, 1 => n + 3, 2 => usize::MAX, _ => n };
    let mut set = DhtSettings::default();
    set.max_peers_reply = match c.g.below(if j == Lookup { 6 } else { 1 }) { 0 => usize::MAX, 1 => n, 2 => n - 1, 3 => 4 * n, 4 => n / 2, _ => 4 * (n - 1) };
    (set.max_peers, set.max_torrents, set.max_dht_items) = (limit, limit, limit);
    let me: Id = c.g.arr();
    let h: Id = c.g.arr();
    c.max("size", n as u64);
    c.count("large");
    c.nontrivial(format!("{} {} {}", kind, n, limit).as_bytes());
    c.sample(|| format!("kind {} of size {}, limits {}", kind, n, limit));
    let p = Pools { hashes: vec![h], eps: vec![], targets: vec![], ips: vec![], names: vec![] };
    let mut w = World { s: DefaultDhtStorage::new(&set), set: &set, m: Model::default(), p, j, fp: vec![] };
    w.ids(c, vec![me])?;
    let extra = 3;
    match kind {
        0 | 1 => {
            let v6 = kind == 1;
            for k in 0..n + extra {
                let seed = mix(salt ^ k as u64) % 3 == 0;
                w.announce(c, h, nth_ep(salt, k, v6), if k == 5 { "name" } else { "" }, seed)?;
            }
            for k in [0, n - 1, n, n + 1] {
                let e = nth_ep(salt, k, v6);
                w.announce(c, h, e, "", k % 2 == 0)?;
                let no_seed = c.g.bool();
                if j == Scrape { w.scrape(c, h, no_seed, e)? } else { w.lookup(c, h, no_seed, e)? }
            }
            let e = sock(&mut c.g, v6);
            if j == Scrape { w.scrape(c, h, false, e)? } else { w.lookup(c, h, false, e)?; w.lookup(c, h, true, e)?; }
        }
        2 => {
            let eps: Vec<SocketAddr> = (0..7).map(|_| some_sock(&mut c.g)).collect();
            for k in 0..n + extra { w.announce(c, nth_id(salt, k), eps[k % 7], "", false)?; }
            for k in (0..20).map(|_| c.g.below(n)).chain(n - 1..n + extra + 2).collect::<Vec<_>>() {
                let e = *c.g.pick(&eps);
                w.lookup(c, nth_id(salt, k), false, e)?;
            }
            w.p.hashes = (0..n + extra).map(|k| nth_id(salt, k)).collect();
        }
        _ => {
            let mutable = kind == 4;
            let room = limit.min(n);
            for k in 0..room {
                let a = ip(&mut c.g, false);
                let (t, x) = (nth_id(salt, k), Sha1Hash::from(nth_id(salt, k)));
                let v = RVal::Int(k as i64);
                let b = refs::encoded(&v);
                let mut pk = PublicKey::default();
                pk[..20].copy_from_slice(&t);
                let mut sig = Signature::default();
                sig[..20].copy_from_slice(&t);
                if mutable { sut("put_mutable_item", || w.s.put_mutable_item(&x, &b, &sig, k as i64, &pk, b"", &a))?; } else { sut("put_immutable_item", || w.s.put_immutable_item(&x, &b, &a))?; }
                let mut it = MItem { value: b, ips: RBloom::new(128), ann: 0, seq: if mutable { k as i64 } else { 0 }, sig: sig.to_vec(), key: pk.to_vec() };
                it.touch(&a);
                if mutable { &mut w.m.mu } else { &mut w.m.imm }.insert(t, it);
            }
            c.add(if mutable { "mutable_puts" } else { "immutable_puts" }, room as u64);
            w.p.targets = (0..n + extra).map(|k| nth_id(salt, k)).collect();
            if j == Eviction || j == Counters { w.all_present(c)?; }
            let checks = if n > 5000 { 3 } else { 10 };
            for k in (n..n + extra).chain((0..checks).map(|_| c.g.below(n))).collect::<Vec<_>>() {
                let t = w.p.targets[k];
                let a = ip(&mut c.g, true);
                let seq = c.g.below(n) as i64;
                let v = item_value(&mut c.g);
                if mutable { w.put_mut(c, t, &v, seq, a)?; } else { w.put_imm(c, t, &v, a)?; }
            }
            let sample: Vec<Id> = if n > 3000 { (0..1000).map(|_| *c.g.pick(&w.p.targets)).collect() } else { w.p.targets.clone() };
            for t in sample { if mutable { w.get_mut(c, t, 0, true)? } else { w.get_imm(c, t)? } }
        }
    }
    if j == Counters { w.counters(c)?; }
    Ok(())
}
fn p01_large(c: &mut Case) -> R { large_store(c, Lookup, &[0, 1]) }
fn p02_large(c: &mut Case) -> R { large_store(c, Capacity, &[0, 1, 2]) }
fn p04_large(c: &mut Case) -> R { large_store(c, Scrape, &[0, 1]) }
fn i01_large(c: &mut Case) -> R { large_store(c, Immutable, &[3]) }
fn i02_large(c: &mut Case) -> R { large_store(c, Eviction, &[3, 4]) }
fn i03_large(c: &mut Case) -> R { large_store(c, Mutable, &[4]) }
fn i04_large(c: &mut Case) -> R { large_store(c, Counters, &[0, 1, 2, 3, 4]) }

fn i02_default(c: &mut Case) -> R {
    let mut set = DhtSettings::default();
    if c.idx % 2 == 1 { set.max_dht_items = c.g.range(50, 900); }
    let n: Id = c.g.arr();
    let mut w = World { s: DefaultDhtStorage::new(&set), set: &set, m: Model::default(), p: Pools { hashes: vec![], eps: vec![], targets: vec![], ips: vec![], names: vec![] }, j: Eviction, fp: vec![] };
    w.ids(c, vec![n])?;
    let mutable = c.g.bool();
    let mut last = vec![];
    for i in 0..set.max_dht_items + 12 {
        let t = near(&mut c.g, &n);
        for _ in 0..c.g.below(8) {
            let v6 = c.g.bool();
            let a = ip(&mut c.g, v6);
            let v = RVal::Int(i as i64);
            if mutable { w.put_mut(c, t, &v, 1, a)? } else { w.put_imm(c, t, &v, a)? }
        }
        last.push(t);
    }
    c.nontrivial(&n);
    Ok(())
}
/// one item with hundreds of announcers against a competitor just around its importance
fn i02_bloom(c: &mut Case) -> R {
    let mut set = DhtSettings::default();
    set.max_dht_items = 2;
    let n: Id = c.g.arr();
    let mut w = World { s: DefaultDhtStorage::new(&set), set: &set, m: Model::default(), p: Pools { hashes: vec![], eps: vec![], targets: vec![], ips: vec![], names: vec![] }, j: Eviction, fp: vec![] };
    w.ids(c, vec![n])?;
    let mutable = c.g.bool();
    // distance classes k0 (the closer one) and k1
    let at = |c: &mut Case, k: usize| { let mut y = refs::bits(&n); y[159 - k] = !y[159 - k]; let mut r = refs::unbits(&y); if k >= 8 { r[19] ^= c.g.u64() as u8; } r };
    let k0 = c.g.range(8, 150);
    let far = c.g.range(1, 9.min(159 - k0));
    let (a, b) = (at(c, k0), at(c, k0 + far));
    let m = if c.g.scale == 0 { 8 } else { c.g.range(0, 400) };
    let put = |w: &mut World, c: &mut Case, t: Id, i: IpAddr| if mutable { w.put_mut(c, t, &RVal::Int(1), 1, i) } else { w.put_imm(c, t, &RVal::Int(1), i) };
    let first = ip(&mut c.g, false);
    put(&mut w, c, a, first)?;
    put(&mut w, c, b, first)?;
    let mut used = vec![first];
    for _ in 0..m {
        let v6 = c.g.bool();
        let i = if c.g.one_in(4) { *c.g.pick(&used) } else { ip(&mut c.g, v6) };
        used.push(i);
        put(&mut w, c, a, i)?;
    }
    // bring b to within one of a's importance (they differ by `far`), from either side
    let goal = w.m.importance(&a, &w.m.mu.get(&a).or(w.m.imm.get(&a)).unwrap().clone()) + c.g.below(3) as i64 - 1;
    loop {
        let it = w.m.mu.get(&b).or(w.m.imm.get(&b)).unwrap().clone();
        if w.m.importance(&b, &it) >= goal || it.ann > 450 { break; }
        let v6 = c.g.bool();
        let i = ip(&mut c.g, v6);
        put(&mut w, c, b, i)?;
    }
    let extra = c.g.below(5);
    for _ in 0..extra { let i = ip(&mut c.g, true); put(&mut w, c, b, i)?; }
    let last = at(c, 159.min(k0 + far));
    let t = if last == a || last == b { [0x77; 20] } else { last };
    put(&mut w, c, t, first)?;
    c.nontrivial(&w.fp);
    Ok(())
}

// ------------------------------------------------------------------ P03
fn fair(c: &mut Case, n: usize, k: usize, v6: bool, seeds: usize, trials: usize) -> R {
    let mut set = DhtSettings::default();
    set.max_peers = 10_000;
    set.max_peers_reply = if v6 { 4 * k + c.g.below(4) } else { k };
    let mut s = DefaultDhtStorage::new(&set);
    let h = Sha1Hash::from(c.g.arr::<20>());
    let mut idx: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let mut total = 0;
    while total < n + seeds {
        let e = sock(&mut c.g, v6);
        if idx.contains_key(&compact(&ep(&e))) { continue; }
        // seeds at random places of the order
        let seed = c.g.below(n + seeds - total) < seeds - (total - idx.values().filter(|x| **x != usize::MAX).count());
        let role = if seeds == 0 { c.g.bool() } else { seed };
        if c.g.one_in(5) { sut("announce_peer", || s.announce_peer(&h, &e, "x", !role))?; c.count("role_changed"); }
        sut("announce_peer", || s.announce_peer(&h, &e, "", role))?;
        if c.g.one_in(8) { sut("announce_peer", || s.announce_peer(&h, &e, "", role))?; }
        let m = idx.values().filter(|x| **x != usize::MAX).count();
        idx.insert(compact(&ep(&e)), if seed { usize::MAX } else { m });
        total += 1;
    }
    let mut hist = vec![0u64; n];
    let req = if v6 { SocketAddr::from(([1u16, 2, 3, 4, 5, 6, 7, 8], 9)) } else { SocketAddr::from(([9, 9, 9, 9], 9)) };
    // the requester may be one of the peers
    let known: Vec<Ep> = idx.keys().map(|b| (b[..b.len() - 2].to_vec(), u16::from(b[b.len() - 2]) * 256 + u16::from(b[b.len() - 1]))).collect();
    let from_peer = c.g.bool();
    for t in 0..trials {
        let req = if from_peer { let k = &known[if t % 2 == 0 { 0 } else { t % known.len() }]; let mut a = [0u8; 16]; a[..k.0.len()].copy_from_slice(&k.0); if v6 { SocketAddr::from((a, k.1)) } else { SocketAddr::from(([a[0], a[1], a[2], a[3]], k.1)) } } else { req };
        let mut r = empty_dict();
        r.as_dict_mut().unwrap().insert("values".into(), Value::with_list(vec![]));
        sut("get_peers", || s.get_peers(&h, seeds > 0, false, &req, &mut r))?.map_err(|e| e.to_string())?;
        for v in r.dict_find_list_value("values").unwrap_or(&[]) {
            match v.as_bytes().and_then(|b| idx.get(b)) {
                Some(&i) if i != usize::MAX => hist[i] += 1,
                // what may be returned at all is P01's subject
                _ => c.count("other_peers"),
            }
        }
        c.count("lookups");
    }
    let p = k as f64 / n as f64;
    let mean = trials as f64 * p;
    let slack = 8.0 * (mean * (1.0 - p)).sqrt() + 8.0;
    c.note(|| format!("{} eligible, {} seeds, {} per reply, v6={}, {} lookups: {:?}", n, seeds, k, v6, trials, hist));
    c.sample(|| format!("{} eligible, {} seeds, {} per reply, v6={}, {} lookups", n, seeds, k, v6, trials));
    for (i, x) in hist.iter().enumerate() {
        // announce order, not address order; the histogram shows which
        ensure!(*x > 0, "an eligible peer was never returned in {} lookups of {} out of {} (v6={}, {} seeds)", trials, k, n, v6, seeds);
        ensure!((*x as f64 - mean).abs() <= slack, "peer {} was returned {} times instead of about {:.0} +- {:.0} in {} lookups of {} out of {} (v6={}, {} seeds)", i, x, mean, slack, trials, k, n, v6, seeds);
        c.count("peers_judged");
        c.eval();
    }
    c.nontrivial(format!("{} {} {} {}", n, k, v6, seeds).as_bytes());
    Ok(())
}
fn p03(c: &mut Case) -> R {
    let v6 = c.g.bool();
    let big = c.g.one_in(10);
    let n = if c.g.scale == 0 { 4 } else if big { c.g.range(40, 300) } else { c.g.range(2, 40) };
    let k = match c.g.below(5) { 0 => 1, 1 => n - 1, _ => c.g.range(1, n - 1) };
    let seeds = if c.g.bool() { 0 } else { c.g.range(1, n) };
    let mut trials = (200 * n / k + 1).max(400_000 / n);
    while n + seeds > 60 && trials * (n + seeds) > 6_000_000 && trials * k > 200 * n { trials -= trials / 8; }
    if c.g.scale == 0 { return fair_small(c, n, k, v6) }
    fair(c, n, k, v6, seeds, trials)
}
fn fair_small(c: &mut Case, n: usize, k: usize, v6: bool) -> R {
    // too few lookups to judge anything but survival
    let mut set = DhtSettings::default();
    set.max_peers_reply = if v6 { 4 * k } else { k };
    let mut s = DefaultDhtStorage::new(&set);
    let h = Sha1Hash::from([1; 20]);
    for _ in 0..n { let e = sock(&mut c.g, v6); s.announce_peer(&h, &e, "", false); }
    for _ in 0..5 { let mut r = empty_dict(); r.as_dict_mut().unwrap().insert("values".into(), Value::with_list(vec![])); let e = sock(&mut c.g, v6); s.get_peers(&h, false, false, &e, &mut r).map_err(|e| e.to_string())?; }
    Ok(())
}
/// every small number of peers and reply size
fn p03_small(c: &mut Case) -> R {
    let mut i = c.idx as usize % 2 * 1000 + c.idx as usize / 2;
    let v6 = i >= 1000;
    i %= 1000;
    let mut n = 2;
    while i >= n - 1 { i -= n - 1; n += 1; }
    let k = 1 + i;
    let seeds = if c.g.bool() { 0 } else { c.g.range(1, 4) };
    fair(c, n, k, v6, seeds, 20_000)
}

// ------------------------------------------------------------------ V01
/// lookups into replies of every shape
fn v01_replies(c: &mut Case) -> R {
    let mut set = random_settings(&mut c.g);
    if c.g.bool() { set.max_torrents = 10; set.max_peers = 5; }
    let mut s = DefaultDhtStorage::new(&set);
    let h: Id = c.g.arr();
    let known = Sha1Hash::from(h);
    let n = c.g.below(6);
    let mut stored = false;
    for _ in 0..n {
        let e = some_sock(&mut c.g);
        let nm = name(&mut c.g);
        let seed = c.g.bool();
        c.note(|| format!("announce {:?} name {:?}", e, nm));
        sut("announce_peer", || s.announce_peer(&known, &e, &nm, seed))?;
        stored = set.max_torrents > 0;
    }
    for _ in 0..6 {
        let mut shape = match c.g.below(8) {
            0 => refs::gen_val(&mut c.g, 6, 3),
            1 => RVal::Dict(vec![]),
            2 => RVal::Dict(vec![("values".into(), RVal::List(vec![]))]),
            3 => RVal::Dict(vec![("values".into(), RVal::Int(1))]),
            4 => RVal::Dict(vec![("values".into(), RVal::Dict(vec![]))]),
            5 => RVal::Dict(vec![("values".into(), RVal::Str(vec![1, 2, 3]))]),
            6 => RVal::Dict(vec![("n".into(), RVal::Int(1)), ("values".into(), RVal::List(vec![RVal::Str(vec![0; 6])]))]),
            _ => RVal::Dict(vec![("id".into(), RVal::Str(vec![0; 20])), ("token".into(), RVal::Int(5))]),
        };
        if c.g.one_in(20) { shape = RVal::List(vec![]); }
        let mut reply = to_value(&shape);
        let (no_seed, scrape) = (c.g.bool(), c.g.one_in(3));
        let other = c.g.one_in(5);
        let x = if other { Sha1Hash::from(c.g.arr::<20>()) } else { known.clone() };
        let req = some_sock(&mut c.g);
        c.note(|| format!("lookup by {:?} scrape={} known={} into {}", req, scrape, stored && !other, show(&refs::encoded(&shape))));
        c.nontrivial(&[&refs::encoded(&shape)[..], &[scrape as u8, no_seed as u8, n as u8, other as u8]].concat());
        c.sample(|| format!("lookup scrape={} into {}", scrape, show(&refs::encoded(&shape))));
        let r = sut("get_peers", || s.get_peers(&x, no_seed, scrape, &req, &mut reply))?;
        c.eval();
        if !stored || other { c.count("unknown"); continue; }
        let is_dict = matches!(shape, RVal::Dict(_));
        let list = matches!(shape.get("values"), None | Some(RVal::List(_)));
        if !is_dict {
            ensure!(r.is_err(), "a lookup of a known torrent into the non-dictionary {} succeeds", show(&refs::encoded(&shape)));
            c.count("not_a_dict");
        } else if scrape {
            ensure!(r.is_ok(), "a scrape into {} fails: {:?}", show(&refs::encoded(&shape)), r);
            c.count("scraped");
        } else if !list {
            ensure!(r.is_err(), "a lookup of a known torrent into {} succeeds though its peer list is no list", show(&refs::encoded(&shape)));
            c.count("not_a_list");
        } else {
            ensure!(r.is_ok(), "a lookup into {} fails: {:?}", show(&refs::encoded(&shape)), r);
            ensure!(reply.dict_find_list("values").is_some(), "a lookup of a known torrent into {} gives no peer list", show(&refs::encoded(&shape)));
            c.count(if shape.get("values").is_none() { "list_added" } else { "list_kept" });
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ X01
fn mask(p: &mut Pools, ids: &mut [Id], m: &Id) {
    for x in p.hashes.iter_mut().chain(&mut p.targets).chain(ids) { for (a, b) in x.iter_mut().zip(m) { *a ^= b; } }
}
/// what one of several stores goes through, by a generator of its own
struct Life<'a> { w: World<'a>, g: Gen, left: usize, mixed: bool }
impl Life<'_> {
    fn go(&mut self, c: &mut Case) -> R {
        std::mem::swap(&mut c.g, &mut self.g);
        let r = if self.left > 0 { self.left -= 1; step(c, &mut self.w, self.mixed, false) } else { finish(c, &mut self.w) };
        std::mem::swap(&mut c.g, &mut self.g);
        r
    }
}
/// several stores over the same keys, each used as if it were alone
fn x01_stores(c: &mut Case) -> R {
    let mut kg = c.g.seeded(mix(c.idx / 8 + 77));
    let nid = kg.range(1, 3);
    let ids: Vec<Id> = (0..nid).map(|_| id(&mut kg)).collect();
    let p = pools(&mut kg, &ids, false);
    let n = if c.g.one_in(8) { 1 } else { c.g.range(2, 4) };
    let steps = if c.g.scale == 0 { 5 } else { c.g.range(4, 50) };
    let mut js: Vec<Judge> = (0..n).map(|_| *c.g.pick(&[Lookup, Capacity, Scrape, Immutable, Eviction, Mutable])).collect();
    // the same steps for each, one after the other
    let twins = c.g.one_in(4);
    if twins { let j = js[0]; js.fill(j); }
    let same = if twins { c.g.bool() } else { c.g.one_in(3) };
    let sets: Vec<DhtSettings> = js.iter().map(|j| settings(&mut c.g, *j, (p.hashes.len(), p.eps.len(), p.targets.len()))).collect();
    let set = |k: usize| &sets[if same { 0 } else { k }];
    let mut seeds: Vec<u64> = (0..n).map(|_| c.g.u64()).collect();
    if twins { let x = seeds[0]; seeds.fill(x); c.count("twin_stores"); }
    let mixed = c.g.bool();
    clock::reset();
    let live = |c: &mut Case, k: usize, p: Pools, ids: &[Id]| -> Result<Life<'_>, String> {
        let mut w = World { s: DefaultDhtStorage::new(set(k)), set: set(k), m: Model::default(), p, j: js[k], fp: vec![] };
        w.ids(c, ids.to_vec())?;
        Ok(Life { w, g: c.g.seeded(seeds[k]), left: steps, mixed })
    };
    // one of them alone, with keys never used before
    let alone = |c: &mut Case, k: usize, left: usize, salt: u64| -> Result<bool, String> {
        let (mut p, mut ids) = (p.clone(), ids.clone());
        mask(&mut p, &mut ids, &Gen::seeded(&c.g, salt).arr());
        let mut l = live(c, k, p, &ids)?;
        l.left = left;
        for _ in 0..=left { if l.go(c).is_err() { return Ok(false); } }
        Ok(true)
    };
    if let Some(s) = frame::solo() {
        let v: Vec<u64> = s.split(' ').map(|x| x.parse().expect("solo")).collect();
        let ok = alone(c, v[0] as usize, v[1] as usize, v[2])?;
        frame::tell(if ok { "fine" } else { "not" });
    }
    let mut ls: Vec<Option<Life>> = vec![];
    for k in 0..n { c.note(|| format!("store {} for {:?}: {:?}", k, js[k], all(set(k)))); let l = live(c, k, p.clone(), &ids)?; ls.push(Some(l)); }
    let order: Vec<usize> = { let mut o: Vec<usize> = (0..n * (steps + 1)).map(|x| x % n).collect(); if twins { } else if c.g.one_in(3) { o.sort(); } else { c.g.shuffle(&mut o); } o };
    let restart = c.g.one_in(4);
    let mut fp = vec![];
    let mut starts = vec![1; n];
    let mut bad = None;
    for k in order {
        c.note(|| format!("(store {})", k));
        // now and then a store is dropped and another takes its place
        if restart && c.g.one_in(30) {
            ls[k] = None;
            let mut l = live(c, k, p.clone(), &ids)?;
            l.left = steps / 2;
            ls[k] = Some(l);
            starts[k] += 1;
            c.count("stores_replaced");
        }
        c.count("store_steps");
        fp.push(k as u8);
        if let Err(e) = ls[k].as_mut().unwrap().go(c) { bad = Some((k, e)); break; }
    }
    for l in ls.iter().flatten() { fp.extend(&l.w.fp); }
    c.nontrivial(&fp);
    c.sample(|| format!("{} stores for {:?}, {} steps each", n, js, steps));
    let Some((k, e)) = bad else { return Ok(()) };
    // does it do so alone, with keys never used before and in a process of its own? Then it is another property's
    // matter.
    let left = if starts[k] > 1 { steps / 2 } else { steps };
    for n in 0..5 {
        let salt = c.g.u64() ^ n;
        let ok = match frame::fresh(c, &format!("{} {} {}", k, left, salt)) {
            Some(t) => t == "fine",
            None => alone(c, k, left, salt)?,
        };
        if !ok { c.count("alarms_of_others"); return Ok(()); }
    }
    Err(format!("store {} of {} is not what it is alone: {}", k, n, e))
}
/// stores with the same two items, announced by the same nodes at the same time: what each counts is its own matter
fn x01_pairs(c: &mut Case) -> R {
    let mut set = DhtSettings::default();
    set.max_dht_items = 2;
    let n = c.g.range(2, 3);
    let mutable = c.g.bool();
    let me: Id = c.g.arr();
    let k0 = c.g.range(8, 150);
    let far = c.g.range(1, 5.min(158 - k0));
    let flip = |k: usize| { let mut y = refs::bits(&me); y[159 - k] = !y[159 - k]; refs::unbits(&y) };
    let (a, b, t) = (flip(k0), flip(k0 + far), flip(159));
    // who announces what to whom: close to the point where the two items change places
    let mut script: Vec<(usize, usize, IpAddr)> = vec![];
    let mut used: Vec<IpAddr> = vec![];
    let mut ann = vec![[0usize; 2]; n];
    let m = if c.g.scale == 0 { 3 } else { c.g.below(20) };
    let order = c.g.bool();
    let rounds: Vec<usize> = { let mut r = vec![0; m]; r.extend(vec![1; m]); if order { c.g.shuffle(&mut r); } r };
    for x in rounds {
        let i = if c.g.one_in(5) && !used.is_empty() { *c.g.pick(&used) } else { let v6 = c.g.bool(); ip(&mut c.g, v6) };
        used.push(i);
        let skip = if c.g.one_in(4) { Some(c.g.below(n)) } else { None };
        for k in 0..n { if Some(k) != skip { script.push((k, x, i)); } }
    }
    let count = |s: &[(usize, usize, IpAddr)], k: usize, x: usize| { let mut v: Vec<IpAddr> = s.iter().filter(|o| o.0 == k && o.1 == x).map(|o| o.2).collect(); v.sort(); v.dedup(); v.len() };
    for k in 0..n { for x in 0..2 { ann[k][x] = count(&script, k, x); } }
    let fresh: Vec<IpAddr> = (0..60).map(|_| { let v6 = c.g.bool(); ip(&mut c.g, v6) }).collect();
    for (j, i) in fresh.iter().enumerate() {
        for k in 0..n { if ann[k][1] + k < ann[k][0] + 5 * far + j % 3 { script.push((k, 1, *i)); ann[k][1] += 1; } }
    }
    c.note(|| format!("{} stores, {:?} announcers, {} classes apart", n, ann, far));
    let open = |c: &mut Case, m: &Id| -> Result<World<'_>, String> {
        let mut w = World { s: DefaultDhtStorage::new(&set), set: &set, m: Model::default(), p: Pools { hashes: vec![], eps: vec![], targets: vec![], ips: vec![], names: vec![] }, j: Eviction, fp: vec![] };
        let x = xor(&me, m);
        w.ids(c, vec![x])?;
        Ok(w)
    };
    let put = |c: &mut Case, w: &mut World, m: &Id, t: &Id, i: IpAddr| { let t = xor(t, m); if mutable { w.put_mut(c, t, &RVal::Int(1), 1, i) } else { w.put_imm(c, t, &RVal::Int(1), i) } };
    let alone = |c: &mut Case, k: usize, salt: u64| -> Result<bool, String> {
        let m: Id = Gen::seeded(&c.g, salt).arr();
        let mut w = open(c, &m)?;
        for o in script.iter().filter(|o| o.0 == k) { if put(c, &mut w, &m, [&a, &b][o.1], o.2).is_err() { return Ok(false); } }
        Ok(put(c, &mut w, &m, &t, fresh[0]).is_ok())
    };
    if let Some(s) = frame::solo() {
        let v: Vec<u64> = s.split(' ').map(|x| x.parse().expect("solo")).collect();
        let ok = alone(c, v[0] as usize, v[1])?;
        frame::tell(if ok { "fine" } else { "not" });
    }
    clock::reset();
    let zero = [0; 20];
    let mut ws = vec![];
    for _ in 0..n { ws.push(open(c, &zero)?); }
    let mut bad = None;
    for (k, x, i) in script.iter().map(|o| (o.0, [&a, &b][o.1], o.2)).chain((0..n).map(|k| (k, &t, fresh[0]))) {
        c.count("store_steps");
        c.note(|| format!("(store {})", k));
        if let Err(e) = put(c, &mut ws[k], &zero, x, i) { bad = Some((k, e)); break; }
    }
    let fp: Vec<u8> = ws.iter().flat_map(|w| w.fp.clone()).collect();
    c.nontrivial(&fp);
    let Some((k, e)) = bad else { return Ok(()) };
    for n in 0..3 {
        let salt = c.g.u64() ^ n;
        let ok = match frame::fresh(c, &format!("{} {}", k, salt)) { Some(t) => t == "fine", None => alone(c, k, salt)? };
        if !ok { c.count("alarms_of_others"); return Ok(()); }
    }
    Err(format!("store {} of {} is not what it is alone: {}", k, n, e))
}
fn xor(a: &Id, b: &Id) -> Id { let mut r = *a; for (x, y) in r.iter_mut().zip(b) { *x ^= y; } r }
/// what has no state
fn x01(c: &mut Case) -> R {
    let mut docs: Vec<Vec<u8>> = vec![];
    let base: Id = id(&mut c.g);
    for _ in 0..4 {
        let mut d = vec![];
        for (k, lens) in [("node-id", &[24usize, 36][..]), ("nodes", &[6, 18]), ("nodes6", &[6, 18])] { if !c.g.one_in(4) { d.push((k.to_string(), part(&mut c.g, lens))); } }
        for o in all(&DhtSettings::default()) { if c.g.one_in(4) { d.push((o.0.to_string(), RVal::Int(c.g.below(3) as i64))); } }
        docs.push(refs::encoded(&refs::dict_sort(d)));
    }
    let ids: Vec<Id> = (0..4).map(|_| near(&mut c.g, &base)).collect();
    let addrs: Vec<SocketAddr> = (0..4).map(|_| some_sock(&mut c.g)).collect();
    c.nontrivial(&docs.concat());
    c.sample(|| docs.iter().map(|d| show(d)).collect::<Vec<_>>().join(" and "));
    let all_ids: Vec<Sha1Hash> = ids.iter().map(|i| Sha1Hash::from(*i)).collect();
    let base = Sha1Hash::from(base);
    let (all_ids, base) = (&all_ids, &base);
    let mut calls: Vec<Call> = vec![];
    for d in &docs {
        calls.push(Call { what: format!("reading {} as a state", show(d)), f: Box::new(move || in_place(d, |b| { let v = ValueRef::decode(b).unwrap(); match DhtState::read(&v) { Ok(s) => format!("{:?} {}", s, refs::hex(&s.save().to_vec())), Err(e) => e.to_string() } })) });
        calls.push(Call { what: format!("reading {} as settings", show(d)), f: Box::new(move || in_place(d, |b| { let v = ValueRef::decode(b).unwrap(); let s = DhtSettings::read(&v); format!("{:?} {}", all(&s), refs::hex(&s.save().to_vec())) })) });
        for k in ["node-id", "nodes"] { calls.push(Call { what: format!("the ids under {} in {}", k, show(d)), f: Box::new(move || in_place(d, |b| format!("{:?}", extract_node_ids(&ValueRef::decode(b).unwrap(), k).ok()))) }); }
    }
    for a in &addrs {
        calls.push(Call { what: format!("writing and reading {}", a), f: Box::new(move || {
            let (mut x, mut y) = (vec![], vec![]);
            let r = (detail::write_socket_addr(&mut x, a).is_ok(), detail::write_address(&mut y, &a.ip()).is_ok());
            let z = if a.is_ipv6() { detail::read_v6_socket_address(&mut &x[..]) } else { detail::read_v4_socket_address(&mut &x[..]) };
            format!("{:?} {} {} {:?}", r, refs::hex(&x), refs::hex(&y), z.ok())
        }) });
    }
    for k in 0..ids.len() {
        calls.push(Call { what: format!("the distance of {} and {}", base, all_ids[k]), f: Box::new(move || format!("{} {}", distance_exp(base, &all_ids[k]), distance_exp(&all_ids[k], base))) });
        calls.push(Call { what: format!("the least distance of {} to {:?}", base, &all_ids[..=k]), f: Box::new(move || format!("{}", min_distance_exp(base, &all_ids[..=k]))) });
    }
    isolated(c, &calls)
}

/// arguments outside of what the functions promise anything for: they may panic, nothing else
fn misuse(c: &mut Case) -> R {
    use std::hint::black_box as bb;
    match c.g.below(6) {
        0 => {
            let mut l = refs::Liar(&mut c.g);
            for k in 0..4 {
                let _ = sut("", || match k { 0 => { bb(detail::read_v4_address(&mut l).is_ok()); } 1 => { bb(detail::read_v6_address(&mut l).is_ok()); } 2 => { bb(detail::read_v4_socket_address(&mut l).is_ok()); } _ => { bb(detail::read_v6_socket_address(&mut l).is_ok()); } });
            }
            let e: SocketAddr = "[::7]:9".parse().unwrap();
            let _ = sut("", || detail::write_socket_addr(&mut l, &e).is_ok());
            let _ = sut("", || detail::write_address(&mut l, &e.ip()).is_ok());
            c.count("lying_streams");
        }
        1 => {
            let n = c.g.len(200);
            // not sorted, or not even comparable
            let v: Box<[f64]> = (0..n).map(|_| match c.g.below(5) { 0 => f64::NAN, 1 => f64::INFINITY, _ => c.g.below(9) as f64 }).collect();
            let x = if c.g.one_in(3) { f64::NAN } else { c.g.below(9) as f64 };
            any(c, || detail::lower_bound(&v, &x));
            let v: Box<[String]> = (0..n).map(|_| c.g.word(9)).collect();
            let x = c.g.word(9);
            any(c, || detail::lower_bound(&v, &x));
            any(c, || detail::lower_bound(&v[..0], &x));
        }
        2 => {
            let a = Sha1Hash::from(id(&mut c.g));
            any(c, || min_distance_exp(&a, &[]));
            any(c, || min_distance_exp(&a, &vec![a.clone(); 3].into_boxed_slice()));
        }
        3 => {
            let doc = refs::gen_doc(&mut c.g).into_boxed_slice();
            if let Ok(v) = ValueRef::decode(&doc) {
                let k = c.g.word(12);
                any(c, || { let s = DhtState::read(&v).map(|s| s.save().to_vec().len()); bb(s.is_ok()); DhtSettings::read(&v).save().to_vec().len() });
                any(c, || extract_node_ids(&v, &k).map(|l| l.len()).unwrap_or(0));
            }
        }
        _ => {
            let mut set = random_settings(&mut c.g);
            if c.g.bool() { set.max_dht_items = c.g.below(3); }
            let mut s = DefaultDhtStorage::new(&set);
            // perhaps no node ids at all, and values that are no bencode
            for _ in 0..c.g.range(1, if c.g.scale == 0 { 8 } else { 40 }) {
                let t = Sha1Hash::from([c.g.below(4) as u8; 20]);
                let a = ip(&mut c.g, true);
                let e = some_sock(&mut c.g);
                let v = if c.g.bool() { c.g.blob(60) } else { refs::encoded(&item_value(&mut c.g)) }.into_boxed_slice();
                let n = c.g.int();
                let mut r = match c.g.below(6) { 0 => Value::with_int(n), 1 => Value::with_list(vec![]), 2 => Value::decode(b"d6:valuesi1ee").unwrap(), 3 => Value::decode(b"d6:valuesli1ee1:ni3ee").unwrap(), _ => Value::with_dict(Default::default()) };
                match c.g.below(12) {
                    0 => { let ids: Vec<Sha1Hash> = (0..c.g.below(3)).map(|_| Sha1Hash::from(id(&mut c.g))).collect(); any(c, || s.update_node_ids(&ids)); }
                    1 | 2 => { any(c, || s.put_immutable_item(&t, &v, &a)); }
                    3 => { any(c, || s.get_immutable_item(&t, &mut r)); }
                    4 | 5 => { any(c, || s.put_mutable_item(&t, &v, &Signature::default(), n, &PublicKey::default(), &v, &a)); }
                    6 => { any(c, || s.get_mutable_item(&t, n, n % 2 == 0, &mut r)); }
                    7 => { let mut q = 0; any(c, || s.get_mutable_item_seq(&t, &mut q)); }
                    8 => { let b = c.g.bool(); let x = name(&mut c.g); any(c, || s.announce_peer(&t, &e, &x, b)); }
                    9 => { let (x, y) = (c.g.bool(), c.g.bool()); any(c, || s.get_peers(&t, x, y, &e, &mut r).is_ok()); }
                    10 => { any(c, || s.get_infohashes_sample(&mut r)); }
                    _ => { if n % 2 == 0 { any(c, || s.tick()); } else { any(c, || { s.counters(); }); } }
                }
                bb(r.to_vec().len());
            }
        }
    }
    Ok(())
}

fn main() {
    const H: &str = "a case is one random history of store operations; distinct by the (shortened) sequence of operations and arguments";
    frame::main(vec![
        Prop { id: "D01", rule: "a case saves, restores and clears one state; distinct by its encoding",
            work: vec![Workload { name: "states", n: [4, 6000, 300_000], f: d01 }],
            floors: &[("ids", 1000), ("nodes", 1000), ("nodes6", 1000), ("some_part_empty", 100)],
            assumptions: &["an endpoint is its address and port; IPv6 flow and scope are not part of the saved form"] },
        Prop { id: "D02", rule: "a case reads one arbitrary value as a state; distinct by its encoding",
            work: vec![Workload { name: "values", n: [6, 20_000, 1_000_000], f: d02 }],
            floors: &[("ids_restored", 1000), ("endpoints_restored", 1000), ("list_entries", 5000)], assumptions: &[] },
        Prop { id: "D03", rule: "a case saves and reads back one combination of all 21 options; distinct by the values",
            work: vec![Workload { name: "settings", n: [4, 20_000, 1_000_000], f: d03 }],
            floors: &[("options_checked", 10_000), ("non_default", 5000)], assumptions: &["usize has 64 bits"] },
        Prop { id: "D04", rule: "a case reads one arbitrary value as settings and judges all 21 options; distinct by its encoding",
            work: vec![Workload { name: "values", n: [6, 20_000, 1_000_000], f: d04 }],
            floors: &[("taken", 5000), ("wrong_type", 3000), ("missing", 5000)], assumptions: &["usize has 64 bits"] },
        Prop { id: "D05", rule: "a case writes and reads one address through streams failing at every offset; distinct by address, form and fragmentation",
            work: vec![Workload { name: "streams", n: [3, 8000, 400_000], f: d05 }],
            floors: &[("write_faults", 5000), ("read_faults", 5000), ("reads_ok", 3000), ("interrupts", 3000), ("sequences", 1000)], assumptions: &["streams obey the io traits' contracts"] },
        Prop { id: "D06", rule: "a case measures one id against a set of ids; distinct by pair",
            work: vec![Workload { name: "ids", n: [5, 30_000, 2_000_000], f: d06 }],
            floors: &[("equal", 500), ("different", 5000), ("sets", 1000)], assumptions: &[] },
        Prop { id: "D07", rule: "a case searches ten values in sequences of three types; distinct by sequence",
            work: vec![Workload { name: "sequences", n: [5, 10_000, 500_000], f: d07 }],
            floors: &[("at_start", 500), ("at_end", 500), ("inside", 1000), ("duplicates", 500)], assumptions: &[] },
        Prop { id: "D08", rule: "a case verifies one message against one key list; distinct by both",
            work: vec![Workload { name: "messages", n: [6, 30_000, 1_500_000], f: d08 }],
            floors: &[("accepted", 1000), ("rejected", 1000), ("not_a_dict", 200), ("values_checked", 2000)], assumptions: &[] },
        Prop { id: "P01", rule: H,
            work: vec![Workload { name: "large", n: [1, 280, 280], f: p01_large }, Workload { name: "histories", n: [3, 4000, 120_000], f: p01 }],
            floors: &[("time_passed", 1000), ("peers_returned", 5000), ("limited_lookups", 500), ("complete_lookups", 500), ("seeds_filtered", 500), ("role_changed", 200), ("v6_lookups", 300), ("unknown_lookups", 300)],
            assumptions: &["an endpoint is its address and port"] },
        Prop { id: "P02", rule: H,
            work: vec![Workload { name: "large", n: [1, 420, 420], f: p02_large }, Workload { name: "histories", n: [3, 3000, 100_000], f: p02 }, Workload { name: "defaults", n: [0, 6, 60], f: p02_default }],
            floors: &[("time_passed", 1000), ("announce_dropped_torrents", 500), ("announce_dropped_peers", 500), ("reannounced_at_limit", 200), ("unknown_full", 200), ("unknown_not_full", 200), ("known_full", 200), ("known_not_full", 200), ("audits", 500)],
            assumptions: &["a torrent is known from its first announce within the torrent limit, even if the peer limit is zero"] },
        Prop { id: "P03", rule: "a case repeats one lookup some thousand times; distinct by number of eligible peers, reply size, family and seeds",
            work: vec![Workload { name: "random", n: [2, 60, 3000], f: p03 }, Workload { name: "small", n: [0, 72, 1000], f: p03_small }],
            floors: &[("lookups", 100_000), ("peers_judged", 500)],
            assumptions: &["bounds of 8 standard deviations + 8: a fair store exceeds them with probability below 1e-10 per run"] },
        Prop { id: "P04", rule: H,
            work: vec![Workload { name: "large", n: [1, 280, 280], f: p04_large }, Workload { name: "histories", n: [3, 4000, 120_000], f: p04 }],
            floors: &[("time_passed", 1000), ("scrapes", 2000), ("scraped_seeds", 2000), ("scraped_peers", 2000), ("names_set", 500), ("names_checked", 1000)],
            assumptions: &[] },
        Prop { id: "I01", rule: H,
            work: vec![Workload { name: "large", n: [1, 140, 140], f: i01_large }, Workload { name: "histories", n: [3, 5000, 150_000], f: i01 }],
            floors: &[("time_passed", 1000), ("immutable_hits", 5000), ("immutable_misses", 1000), ("immutable_again", 2000), ("evicted", 200)], assumptions: &["stored items are valid bencode"] },
        Prop { id: "I02", rule: H,
            work: vec![Workload { name: "large", n: [1, 280, 280], f: i02_large }, Workload { name: "histories", n: [3, 2500, 80_000], f: i02 }, Workload { name: "around_ties", n: [1, 1500, 60_000], f: i02_bloom }, Workload { name: "defaults", n: [0, 4, 40], f: i02_default }],
            floors: &[("time_passed", 1000), ("evictions", 2000), ("decided_evictions", 1000), ("announcers_decided", 100), ("zero_limit_puts", 100), ("node_ids_changed", 100)],
            assumptions: &["at least one node id is set"] },
        Prop { id: "I03", rule: H,
            work: vec![Workload { name: "large", n: [1, 140, 140], f: i03_large }, Workload { name: "histories", n: [3, 5000, 150_000], f: i03 }],
            floors: &[("time_passed", 1000), ("mutable_replaced", 2000), ("mutable_kept", 2000), ("mutable_forced", 1000), ("mutable_newer", 1000), ("mutable_number_only", 1000), ("mutable_misses", 500)],
            assumptions: &["a target stands for one public key"] },
        Prop { id: "I04", rule: "a case is one random history; the counters are compared with the contents found by asking for every key after almost every step; distinct by contents",
            work: vec![Workload { name: "large", n: [1, 700, 700], f: i04_large }, Workload { name: "histories", n: [2, 1200, 40_000], f: i04 }],
            floors: &[("time_passed", 1000), ("counter_comparisons", 5000), ("evicted", 500), ("announce_dropped_peers", 300), ("reannounced", 500)],
            assumptions: &["keys outside the history's pools are never stored"] },
        Prop { id: "V01", rule: "a case is one random history under any settings, or lookups into replies of any shape; distinct by operations or reply",
            work: vec![Workload { name: "histories", n: [4, 5000, 200_000], f: v01 }, Workload { name: "replies", n: [4, 8000, 400_000], f: v01_replies }],
            floors: &[("time_passed", 1000), ("steps", 50_000), ("not_a_dict", 300), ("not_a_list", 500), ("list_added", 300), ("list_kept", 300), ("immutable_puts", 2000), ("mutable_puts", 2000)],
            assumptions: &["at least one node id is set before the first put", "stored items are valid bencode", "item replies are dictionaries"] },
        Prop { id: "X01", rule: "dht: a case runs up to four stores over the same keys in turns, each judged as if it were alone, or makes some 30 calls that have no state in several orders and from several threads; distinct by operations or operands",
            work: vec![Workload { name: "dht_calls", n: [2, 2000, 100_000], f: x01 }, Workload { name: "dht_pairs", n: [3, 3000, 100_000], f: x01_pairs }, Workload { name: "dht_stores", n: [3, 4000, 150_000], f: x01_stores }],
            floors: &[("store_steps", 100_000), ("stores_replaced", 300)],
            assumptions: &["a target stands for one public key"] },
        Prop { id: "M01", rule: "", work: vec![Workload { name: "misuse", n: [8, 24_000, 400_000], f: misuse }], floors: &[], assumptions: &[] },
    ]);
}
