use std::net::SocketAddr;
use torrent_rs::vp_hooks::{parse_magnet_uri, str_utl, torrent, DownloadPriority, TorrentParams};
use vpmon::refs::{self, RVal};
use vpmon::*;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

// ------------------------------------------------------------------ magnet links, assembled from parts
/// what a link says, as its parts say it
#[derive(Clone, Debug, Default, PartialEq)]
struct Want {
    hash: Option<[u8; 20]>,
    trackers: Vec<String>,
    seeds: Vec<String>,
    peers: Vec<SocketAddr>,
    nodes: Vec<(String, u16)>,
    name: String,
    files: std::collections::BTreeSet<usize>,
    /// some part makes the parse fail
    bad: Option<String>,
    /// some part may make the parse fail, or select nothing
    maybe_bad: bool,
}
struct Got {
    hash: Vec<u8>,
    trackers: Vec<String>,
    tiers: Vec<isize>,
    seeds: Vec<String>,
    peers: Vec<SocketAddr>,
    nodes: Vec<(String, u16)>,
    name: String,
    files: Vec<bool>,
    text: String,
}
fn got(p: &TorrentParams) -> Got {
    Got {
        hash: p.info_hash.to_vec(),
        trackers: p.trackers.clone(),
        tiers: p.tracker_tiers.clone(),
        seeds: p.url_seeds.clone(),
        peers: p.peers.clone(),
        nodes: p.dht_nodes.clone(),
        name: p.name.clone(),
        files: p.file_priorities.iter().map(|x| match x { DownloadPriority::DefaultPriority => true, DownloadPriority::DontDownload => false, _ => panic!("a file got another priority than download and don't download") }).collect(),
        text: p.to_string(),
    }
}
fn parse(uri: &str) -> Result<Result<Got, String>, String> {
    let mut p = TorrentParams::default();
    let a = sut("parse_magnet_uri", || parse_magnet_uri(uri, &mut p))?;
    let b = sut("TorrentParams::from_str", || uri.parse::<TorrentParams>())?;
    if a.is_ok() != b.is_ok() { return Err(format!("parse_magnet_uri and from_str disagree on {:?}", uri)); }
    Ok(match a { Ok(()) => { let g = sut("reading parameters", || got(&p))?; Ok(g) } Err(e) => Err(format!("{:?}", e)) })
}

fn nasty_text(g: &mut Gen) -> String {
    match g.below(7) {
        0 => String::new(),
        1 => { let n = g.len(60); g.text(n) }
        6 => { let n = if g.scale > 0 && g.one_in(20) { g.len(3000) } else { g.len(200) }; String::from_utf8_lossy(&g.blob(n.max(1))).into_owned() }
        2 => g.pick(&["http://tracker.example/announce?a=b&c=d", "udp://t:80", "a b+c%20", "&", "=", "#", "%", "+", "x&tr=y", "é", "\u{1F600}", "%41", "a,b", "\t", "\"q\""]).to_string(),
        3 => g.word(80),
        _ => format!("http://h{}.example:{}/p?q={}", g.below(50), g.below(65536), g.below(9)),
    }
}
type Part = (String, Vec<u8>);

/// a topic with its effect on the result
fn topic(c: &mut Case, w: &mut Want) -> Part {
    let h: [u8; 20] = match c.g.below(7) { 0 => [*c.g.pick(&[0u8, 0xff, 0x11, 0xf0]); 20], 1 => [c.g.byte(); 20], 2 => c.g.arr::<20>().map(|x| if c.g.one_in(3) { c.g.byte() } else { x }), 3 => { let mut a: [u8; 20] = c.g.arr(); let k = c.g.below(21); let x = *c.g.pick(&[0u8, 0xff]); if c.g.bool() { a[..k].fill(x) } else { a[k..].fill(x) }; a } _ => c.g.arr() };
    let v = match c.g.below(16) {
        0..=4 => { w.set(h); c.count("hex_topics"); let x = refs::hex(&h); format!("urn:btih:{}", refs::random_case(&mut c.g, &x)) }
        5..=9 => {
            w.set(h);
            c.count("base32_topics");
            let x = refs::base32(&h, true);
            let x = refs::random_case(&mut c.g, &x);
            // '1' is read as 'I'
            let x: String = x.chars().map(|ch| if (ch == 'I' || ch == 'i') && c.g.one_in(3) { '1' } else { ch }).collect();
            format!("urn:btih:{}", x)
        }
        10 | 11 => {
            c.count("other_topics");
            let x = refs::hex(&h);
            match c.g.below(9) { 6 => { let p = loop { let p = refs::random_case(&mut c.g, "urn:btih:"); if p != "urn:btih:" { break p; } }; format!("{}{}", p, x) } 7 => { let mut p: Vec<char> = "urn:btih:".chars().collect(); let k = c.g.below(p.len()); match c.g.below(3) { 0 => { p.remove(k); if p.iter().collect::<String>() == "urn:btih:" { p.clear(); } } 1 => p.insert(k, *c.g.pick(&['x', '%', '/', '0'])), _ => p[k] = '+' } format!("{}{}", p.into_iter().collect::<String>(), x) } 0 => format!("urn:sha1:{}", x), 1 => x, 2 => String::new(), 3 => "urn:btih".into(), 4 => format!("urn:ed2k:{}", &x[..32]), _ => format!(" urn:btih:{}", x) }
        }
        k => {
            // a malformed value of 40, 32 or another length
            c.count("bad_topics");
            let (len, base): (usize, Vec<char>) = match k {
                12 | 13 => (40, refs::hex(&h).chars().collect()),
                14 => (32, refs::base32(&h, true).chars().collect()),
                _ => { let n = loop { let n = c.g.below(60); if n != 40 && n != 32 { break n; } }; (n, (0..n).map(|_| *c.g.pick(&['a', '2', 'F'])).collect()) }
            };
            let mut s = base;
            if len == 40 || len == 32 {
                let alphabet = if len == 40 { "gGzZ@`/: -+%~\0" } else { "01890!=%- @[`{/~" };
                let skip_one = len == 32;
                for _ in 0..c.g.range(1, 3) {
                    let i = c.g.below(s.len());
                    let mut ch = *c.g.pick(&alphabet.chars().collect::<Vec<_>>());
                    if skip_one && ch == '1' { ch = '0'; }
                    s[i] = ch;
                }
                if len == 32 && c.g.one_in(3) {
                    // padding where data belongs
                    s = refs::base32(&h, true).chars().collect();
                    let i = match c.g.below(4) { 0 => 8 * c.g.below(4), 1 => 31, 2 => 0, _ => c.g.below(32) };
                    s[i] = '=';
                    if c.g.bool() { for k in 0..4 { s[8 * k] = '='; } }
                }
                if c.g.one_in(6) {
                    // a multi-byte character, keeping the byte length
                    let i = c.g.below(s.len() - 1);
                    s[i] = 'é';
                    s.remove(i + 1);
                }
            }
            if (len == 40 || len == 32) && c.g.one_in(3) {
                // a proper hash with something before or after it
                s = if len == 40 { refs::hex(&h) } else { refs::base32(&h, true) }.chars().collect();
                let extra = *c.g.pick(&[" ", "\t", "\n", "\r\n", "  ", "\u{a0}", "\u{3000}", "\0", "=", "======", ".", ",", ";", "/", "#", "0", "00000000", "0x", "\"", "'", "a", "A", "2", ":", "urn:btih:", "btih:", "%", "+", "-", "{", "<", "\u{feff}"]);
                let n = c.g.range(1, 2);
                if c.g.below(3) > 0 { s.extend(extra.repeat(n).chars()); }
                if s.len() == len || c.g.bool() { s = extra.repeat(n).chars().chain(s).collect(); }
                // '1' and digits aside, the result has neither 40 nor 32 bytes
                let l = s.iter().map(|c| c.len_utf8()).sum::<usize>();
                if l == 40 || l == 32 { s.push('!'); s.push('!'); }
                c.count("padded_topics");
            }
            let v: String = s.into_iter().collect();
            if w.bad.is_none() { w.bad = Some(format!("topic {:?}", v)); }
            format!("urn:btih:{}", v)
        }
    };
    ("xt".into(), v.into_bytes())
}
impl Want {
    fn set(&mut self, h: [u8; 20]) { if self.bad.is_none() { self.hash = Some(h); } }
}

fn endpoint(g: &mut Gen) -> SocketAddr {
    let p = match g.below(5) { 0 => *g.pick(&[0u16, 1, 80, 65535]), 1 => g.dict_int() as u16, _ => g.u64() as u16 };
    if g.one_in(6) {
        let ip: std::net::IpAddr = g.pick(&["0.0.0.0", "127.0.0.1", "255.255.255.255", "10.0.0.1", "192.168.1.1", "224.0.0.1", "169.254.0.1", "::", "::1", "fe80::1", "ff02::1", "::ffff:1.2.3.4", "::1.2.3.4", "2001:db8::1", "64:ff9b::1", "fc00::1"]).parse().unwrap();
        return SocketAddr::new(ip, p);
    }
    if g.bool() { SocketAddr::from((g.arr::<4>().map(|x| if g.one_in(4) { g.byte() } else { x }), p)) } else { let mut a: [u8; 16] = g.arr(); if g.bool() { a[2..14].fill(0); } SocketAddr::from((a, p)) }
}
fn param(c: &mut Case, w: &mut Want, allow_bad: bool) -> Part {
    match c.g.below(14) {
        0..=3 => { let t = nasty_text(&mut c.g); w.trackers.push(t.clone()); c.count("trackers"); ("tr".into(), t.into_bytes()) }
        4 | 5 => { let t = nasty_text(&mut c.g); w.seeds.push(t.clone()); c.count("web_seeds"); ("ws".into(), t.into_bytes()) }
        6 => { let t = nasty_text(&mut c.g); w.name = t.clone(); c.count("names"); ("dn".into(), t.into_bytes()) }
        7 | 8 => {
            if allow_bad && c.g.one_in(6) {
                let t = c.g.pick(&["", "1.2.3.4", "1.2.3:5", "host:80", "[::1]", "::1", "1.2.3.4:", "1.2.3.4:65536", "1.2.3.4:-1", "[::1:80", "1.2.3.4:8x", " 1.2.3.4:80", "256.1.1.1:80", ":80"]).to_string();
                if w.bad.is_none() { w.bad = Some(format!("peer {:?}", t)); }
                c.count("bad_peers");
                return ("x.pe".into(), t.into_bytes());
            }
            let e = endpoint(&mut c.g);
            w.peers.push(e);
            c.count("peers");
            ("x.pe".into(), e.to_string().into_bytes())
        }
        9..=11 => {
            let host = match c.g.below(7) { 0 => String::new(), 1 => "[::1]".into(), 2 => "a:b:c".into(), 3 => { let n = c.g.len(20); c.g.text(n) } 4 => c.g.word(60), 5 => c.g.pick(&["127.0.0.1", "localhost", "0.0.0.0", ":", "::", "router.bittorrent.com", "[2001:db8::1]", "x:80", "80", " "]).to_string(), _ => format!("node{}.example", c.g.below(99)) };
            if allow_bad && c.g.one_in(6) {
                let p = c.g.pick(&["", "x", "65536", "-1", "80 ", " 80", "8é", "1e3", "99999999999"]).to_string();
                let t = format!("{}:{}", host, p);
                if w.bad.is_none() { w.bad = Some(format!("node {:?}", t)); }
                c.count("bad_nodes");
                return ("dht".into(), t.into_bytes());
            }
            if c.g.one_in(10) {
                // no colon: ignored
                c.count("nodes_without_colon");
                return ("dht".into(), host.replace(':', "").into_bytes());
            }
            let p = match c.g.below(4) { 0 => *c.g.pick(&[0u16, 1, 65535, 10000]), 1 => c.g.dict_int() as u16, _ => c.g.u64() as u16 };
            w.nodes.push((host.clone(), p));
            c.count("nodes");
            let zeros = "0".repeat(if c.g.one_in(8) { 3 } else { 0 });
            ("dht".into(), format!("{}:{}{}", host, zeros, p).into_bytes())
        }
        12 => { c.count("unknown_params"); let k = c.g.pick(&["", "TR", "tr.1", "tr1", "xl", "as", "kt", "x.p", "pe", "dnn", "d", "DHT", "xt.1", "x.pe2", "mt"]).to_string(); let v = nasty_text(&mut c.g); (k, v.into_bytes()) }
        _ => { c.count("unknown_params"); let n = c.g.range(3, 9); let k: String = (0..n).map(|_| c.g.range(b'a' as usize, b'z' as usize) as u8 as char).collect(); if ["dht"].contains(&&k[..]) { return ("zz".into(), vec![]); } let v = nasty_text(&mut c.g); (k, v.into_bytes()) }
    }
}
fn assemble(g: &mut Gen, parts: &[Part]) -> String {
    let mut s = String::from("magnet:?");
    for (i, (k, v)) in parts.iter().enumerate() {
        if i > 0 { s.push('&'); }
        if g.one_in(20) { s.push('&'); }
        // keys may be escaped too
        if g.one_in(6) { s.push_str(&refs::percent(g, k.as_bytes(), true)); } else { s.push_str(k); }
        if !v.is_empty() || !g.one_in(3) { s.push('='); }
        s.push_str(&refs::percent(g, v, true));
    }
    if g.one_in(8) { s.push('&'); }
    if g.one_in(10) { s.push_str("#fragment&tr=no"); }
    s
}

// ------------------------------------------------------------------ U01
fn bounded(c: &mut Case, uri: &str) -> Result<bool, String> {
    alloc::reset();
    let r = parse(uri)?;
    let (peak, _, _) = alloc::used();
    c.eval();
    let lim = (1 << 20) + 400 * uri.len();
    c.max("heap", peak as u64);
    ensure!(peak <= lim, "parsing {} characters used {} bytes of heap: {:?}", uri.len(), peak, show(uri.as_bytes()));
    c.nontrivial(uri.as_bytes());
    c.count(if r.is_ok() { "accepted" } else { "rejected" });
    Ok(r.is_ok())
}
fn u01(c: &mut Case) -> R {
    let mut w = Want::default();
    let mut parts: Vec<Part> = vec![];
    for _ in 0..c.g.len(if c.g.scale == 0 { 4 } else { 25 }) {
        let p = match c.g.below(5) { 0 => topic(c, &mut w), 1 => selection(c, &mut w), _ => param(c, &mut w, true) };
        parts.push(p);
    }
    let s = assemble(&mut c.g, &parts);
    let mut b = s.into_bytes();
    // then break it
    for _ in 0..c.g.below(5) {
        if b.is_empty() { break; }
        let i = c.g.below(b.len());
        match c.g.below(8) {
            0 => b[i] = c.g.u64() as u8,
            1 => b[i] = *c.g.pick(b"%&=:?#+-,/\\ \t\n\0@[]"),
            2 => { b.remove(i); }
            3 => { let t = c.g.pick(&["so=", "so=1-", "&so=,", "&so=,,1", "&xt=urn:btih:", "%", "%4", "&dht=:", "&dht=", "&x.pe=", "urn:btih:", "&so=1,,2-", "é", "&so=0-10000"]).as_bytes().to_vec(); b.splice(i..i, t); }
            4 => b.truncate(i),
            5 => { let j = (i + c.g.below(30)).min(b.len()); let t = b[i..j].to_vec(); b.splice(i..i, t); }
            6 => { let j = (i + c.g.below(10)).min(b.len()); b.drain(i..j); }
            _ => { let n = c.g.len(50); let x = c.g.text(n); b.splice(i..i, x.into_bytes()); }
        }
    }
    let s = String::from_utf8_lossy(&b).into_owned();
    c.note(|| format!("text {:?}", s));
    c.sample(|| s.clone());
    bounded(c, &s)?;
    Ok(())
}
fn u01_text(c: &mut Case) -> R {
    let s = match c.g.below(4) {
        0 => { let n = c.g.len(200); c.g.text(n) }
        1 => { let n = c.g.len(200); format!("magnet:?{}", c.g.text(n)) }
        2 => { let n = c.g.len(60); format!("magnet:{}", (0..n).map(|_| *c.g.pick(&["xt=", "so=", "dht=", "x.pe=", "tr=", "urn:btih:", ",", "-", "1", "10000", "&", "?", "%", ":", "a", "[", "]"])).collect::<String>()) }
        _ => { let b = c.g.blob(300); String::from_utf8_lossy(&b).into_owned() }
    };
    c.note(|| format!("text {:?}", s));
    bounded(c, &s)?;
    Ok(())
}
/// texts that must be rejected
fn u01_reject(c: &mut Case) -> R {
    let h: [u8; 20] = c.g.arr();
    let good = format!("xt=urn:btih:{}", refs::hex(&h));
    let mut w = Want::default();
    let mut parts: Vec<Part> = vec![];
    for _ in 0..c.g.below(5) { let p = param(c, &mut w, false); parts.push(p); }
    let rest = assemble(&mut c.g, &parts)[8..].split('#').next().unwrap().to_string();
    let s = match c.g.below(8) {
        0 => format!("?{}&{}", good, rest),
        1 => format!("{}&{}", good, rest),
        2 => format!("{}:?{}&{}", c.g.pick(&["http", "magnets", "mag", "magnet2", "x", "urn", "magne"]), good, rest),
        3 => format!("http://host/?{}&{}", good, rest),
        4 => format!("magnet:?{}", rest),
        5 => format!("magnet:{}&{}", good, rest),
        6 => format!("magnet:?{}#{}", rest, good),
        _ => format!("magnet:?{}&xt=urn:sha1:{}", rest, refs::hex(&h)),
    };
    c.note(|| format!("text {:?}", s));
    ensure!(!bounded(c, &s)?, "{:?} has no magnet info-hash but is accepted", s);
    c.count("must_reject");
    Ok(())
}
/// long inputs of one kind each: time and memory stay in proportion
fn u01_long(c: &mut Case) -> R {
    let h = refs::hex(&c.g.arr::<20>());
    let n = if c.g.scale == 0 { 50 } else { c.g.range(1000, 20_000) };
    let body = match c.idx % 8 {
        0 => "&tr=a".repeat(n),
        1 => format!("&so={}", "1,".repeat(n)),
        2 => format!("&so={}", ",".repeat(n)),
        3 => format!("&so={}", "0-10000,".repeat(n / 10)),
        4 => format!("&dn={}", "%41".repeat(n)),
        5 => format!("&xt=urn:btih:{}", h).repeat(n / 10),
        6 => "&x.pe=1.2.3.4:5&dht=a:1".repeat(n / 4),
        _ => format!("&dht={}:1&so={}", ":".repeat(n), "9".repeat(n)),
    };
    let s = format!("magnet:?xt=urn:btih:{}{}", h, body);
    let t = std::time::Instant::now();
    bounded(c, &s)?;
    c.max("long_ms", t.elapsed().as_millis() as u64);
    c.count("long");
    Ok(())
}

// ------------------------------------------------------------------ U02
fn u02(c: &mut Case) -> R {
    let mut w = Want::default();
    let mut parts: Vec<Part> = vec![];
    let k = if c.g.bool() { 1 } else { c.g.range(1, 4) };
    for _ in 0..k {
        let p = topic(c, &mut w);
        parts.push(p);
        while c.g.one_in(3) {
            let mut other = Want::default();
            let p = if c.g.one_in(6) { selection(c, &mut other) } else { param(c, &mut other, false) };
            if other.maybe_bad { break; }
            parts.push(p);
        }
    }
    let s = assemble(&mut c.g, &parts);
    c.note(|| format!("link {:?}", s));
    c.sample(|| s.clone());
    c.nontrivial(s.as_bytes());
    let r = parse(&s)?;
    match (&w.bad, w.hash, r) {
        (Some(b), _, Ok(g)) => return Err(format!("{:?} has the malformed {} but is accepted with info-hash {}", s, b, refs::hex(&g.hash))),
        (Some(_), _, Err(_)) => c.count("rejected"),
        (None, None, Ok(g)) => return Err(format!("{:?} has no info-hash but is accepted with {}", s, refs::hex(&g.hash))),
        (None, None, Err(_)) => c.count("no_hash"),
        (None, Some(h), Err(e)) => return Err(format!("{:?} names info-hash {} but is rejected: {}", s, refs::hex(&h), e)),
        (None, Some(h), Ok(g)) => {
            ensure!(g.hash == h, "{:?} gives info-hash {} instead of {}", s, refs::hex(&g.hash), refs::hex(&h));
            c.count("accepted");
            // and back through the text
            let t = parse(&g.text)?;
            match t {
                Ok(g2) => ensure!(g2.hash == h, "{:?} was printed for info-hash {} but reads {}", g.text, refs::hex(&h), refs::hex(&g2.hash)),
                Err(e) => return Err(format!("{:?} was printed for info-hash {} but is rejected: {}", g.text, refs::hex(&h), e)),
            }
            c.count("printed");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ U03
fn u03(c: &mut Case) -> R {
    let mut w = Want::default();
    let h: [u8; 20] = c.g.arr();
    w.hash = Some(h);
    let mut parts: Vec<Part> = vec![];
    let allow_bad = c.g.one_in(4);
    let n = if c.g.scale > 0 && c.g.one_in(60) { c.g.len(1200) } else { c.g.len(if c.g.scale == 0 { 5 } else { 30 }) };
    for _ in 0..n { let p = param(c, &mut w, allow_bad); parts.push(p); }
    u03_link(c, w, h, parts)
}
/// many parameters of one kind, or one long text
fn u03_large(c: &mut Case) -> R {
    let mut w = Want::default();
    let h: [u8; 20] = c.g.arr();
    w.hash = Some(h);
    let mut parts: Vec<Part> = vec![];
    let k = (c.idx / 8) as usize;
    let n = if c.g.scale == 0 { 3 + k } else { c.g.sweep(k, 1, if c.idx % 8 < 4 { 5000 } else { 30_000 }) };
    for i in 0..if c.idx % 8 < 4 { n } else { 1 } {
        match c.idx % 8 {
            0 => { let t = format!("t{}", i); w.trackers.push(t.clone()); parts.push(("tr".into(), t.into_bytes())); }
            1 => { let t = format!("s{}", i); w.seeds.push(t.clone()); parts.push(("ws".into(), t.into_bytes())); }
            2 => { let e = endpoint(&mut c.g); w.peers.push(e); parts.push(("x.pe".into(), e.to_string().into_bytes())); }
            3 => { let p = c.g.u64() as u16; w.nodes.push((format!("n{}", i), p)); parts.push(("dht".into(), format!("n{}:{}", i, p).into_bytes())); }
            z => {
                let t: String = if c.g.bool() { "a".repeat(n) } else { c.g.text(n) };
                match z { 4 => { w.trackers.push(t.clone()); parts.push(("tr".into(), t.into_bytes())); } 5 => { w.seeds.push(t.clone()); parts.push(("ws".into(), t.into_bytes())); } 6 => { w.name = t.clone(); parts.push(("dn".into(), t.into_bytes())); } _ => { let t = format!("{}:77", t); w.nodes.push((t[..t.len() - 3].into(), 77)); parts.push(("dht".into(), t.into_bytes())); } }
            }
        }
    }
    c.max("size", n as u64);
    c.count("large");
    u03_link(c, w, h, parts)
}
fn u03_link(c: &mut Case, w: Want, h: [u8; 20], mut parts: Vec<Part>) -> R {
    let i = c.g.below(parts.len() + 1);
    parts.insert(i, ("xt".into(), format!("urn:btih:{}", refs::hex(&h)).into_bytes()));
    let s = assemble(&mut c.g, &parts);
    c.note(|| format!("link {:?}", s));
    c.sample(|| s.clone());
    c.nontrivial(s.as_bytes());
    let g = match (parse(&s)?, &w.bad) {
        (Ok(_), Some(b)) => return Err(format!("{:?} has the malformed {} but is accepted", s, b)),
        (Err(_), Some(_)) => { c.count("rejected"); return Ok(()); }
        (Err(e), None) => return Err(format!("{:?} is rejected: {}", s, e)),
        (Ok(g), None) => g,
    };
    c.count("accepted");
    ensure!(g.hash == h, "{:?} gives another info-hash than {}", show(s.as_bytes()), refs::hex(&h));
    if s.len() > 3000 {
        ensure!(g.trackers == w.trackers && g.seeds == w.seeds && g.peers == w.peers && g.nodes == w.nodes && g.name == w.name && g.files.is_empty() && g.tiers == (0..w.trackers.len() as isize).collect::<Vec<_>>(),
            "{} gives {} trackers (tiers {:?}..), {} web seeds, {} peers, {} nodes and a name of {} bytes; it has {}, {}, {}, {} and {}", show(s.as_bytes()), g.trackers.len(), g.tiers.last(), g.seeds.len(), g.peers.len(), g.nodes.len(), g.name.len(), w.trackers.len(), w.seeds.len(), w.peers.len(), w.nodes.len(), w.name.len());
    }
    ensure!(g.trackers == w.trackers, "{:?} gives trackers {:?} instead of {:?}", s, g.trackers, w.trackers);
    ensure!(g.tiers == (0..w.trackers.len() as isize).collect::<Vec<_>>(), "{:?} gives tiers {:?}", s, g.tiers);
    ensure!(g.seeds == w.seeds, "{:?} gives web seeds {:?} instead of {:?}", s, g.seeds, w.seeds);
    ensure!(g.peers == w.peers, "{:?} gives peers {:?} instead of {:?}", s, g.peers, w.peers);
    ensure!(g.nodes == w.nodes, "{:?} gives nodes {:?} instead of {:?}", s, g.nodes, w.nodes);
    ensure!(g.name == w.name, "{:?} gives the name {:?} instead of {:?}", s, g.name, w.name);
    ensure!(g.files.is_empty(), "{:?} selects files", s);
    Ok(())
}
/// links parsed one after the other into parameters that already have contents
fn u03_prefilled(c: &mut Case) -> R {
    let mut p = TorrentParams::default();
    let mut trackers: Vec<String> = (0..c.g.len(6)).map(|_| nasty_text(&mut c.g)).collect();
    // the tiers of the trackers the caller has: as many as trackers, or fewer, or more
    let k = match c.g.below(4) { 0 => c.g.len(12), 1 => 0, _ => trackers.len() };
    let mut tiers: Vec<isize> = (0..k).map(|_| match c.g.below(4) { 0 => -1, 1 => c.g.int() as isize, _ => c.g.below(9) as isize }).collect();
    let mut seeds: Vec<String> = (0..c.g.len(4)).map(|_| nasty_text(&mut c.g)).collect();
    let mut peers: Vec<SocketAddr> = (0..c.g.len(4)).map(|_| endpoint(&mut c.g)).collect();
    let mut nodes: Vec<(String, u16)> = (0..c.g.len(4)).map(|_| (nasty_text(&mut c.g), c.g.u64() as u16)).collect();
    let mut name = nasty_text(&mut c.g);
    p.trackers = trackers.clone();
    p.tracker_tiers = tiers.clone();
    p.url_seeds = seeds.clone();
    p.peers = peers.clone();
    p.dht_nodes = nodes.clone();
    p.name = name.clone();
    let rounds = c.g.range(1, 4);
    for round in 0..rounds {
        let mut w = Want::default();
        w.name = name.clone();
        let h: [u8; 20] = c.g.arr();
        let mut parts: Vec<Part> = vec![];
        for _ in 0..c.g.len(8) { let x = param(c, &mut w, false); parts.push(x); }
        let i = c.g.below(parts.len() + 1);
        parts.insert(i, ("xt".into(), format!("urn:btih:{}", refs::hex(&h)).into_bytes()));
        let s = assemble(&mut c.g, &parts);
        c.note(|| format!("link {} of {}: {:?}", round, rounds, s));
        c.nontrivial(s.as_bytes());
        let r = sut("parse_magnet_uri", || parse_magnet_uri(&s, &mut p))?;
        if let Err(e) = r { return Err(format!("{:?} is rejected: {:?}", s, e)); }
        if !w.trackers.is_empty() {
            if tiers.len() < trackers.len() { c.count("tiers_missing"); }
            if tiers.len() > trackers.len() { c.count("tiers_surplus"); }
            tiers.resize(trackers.len(), 0);
            tiers.extend(0..w.trackers.len() as isize);
            trackers.extend(w.trackers);
        } else if tiers.len() != trackers.len() && p.tracker_tiers.len() == trackers.len() {
            // brought in line though there was no tracker to add
            tiers.resize(trackers.len(), 0);
        }
        seeds.extend(w.seeds);
        peers.extend(w.peers);
        nodes.extend(w.nodes);
        name = w.name;
        c.count("links_into_filled");
        ensure!(p.info_hash.to_vec() == h, "{:?} gives another info-hash than {}", s, refs::hex(&h));
        ensure!(p.trackers == trackers, "after {:?} the trackers are {:?} instead of {:?}", s, p.trackers, trackers);
        ensure!(p.tracker_tiers == tiers, "after {:?} the tiers are {:?} instead of {:?}", s, p.tracker_tiers, tiers);
        ensure!(p.url_seeds == seeds, "after {:?} the web seeds are {:?} instead of {:?}", s, p.url_seeds, seeds);
        ensure!(p.peers == peers, "after {:?} the peers are {:?} instead of {:?}", s, p.peers, peers);
        ensure!(p.dht_nodes == nodes, "after {:?} the nodes are {:?} instead of {:?}", s, p.dht_nodes, nodes);
        ensure!(p.name == name, "after {:?} the name is {:?} instead of {:?}", s, p.name, name);
        ensure!(p.file_priorities.is_empty(), "{:?} selects files", s);
    }
    Ok(())
}

// ------------------------------------------------------------------ U04
const MAX: i128 = 10_000;
/// one selection parameter and what it selects
fn selection(c: &mut Case, w: &mut Want) -> Part {
    let mut toks: Vec<String> = vec![];
    let mut sel = std::collections::BTreeSet::new();
    let mut odd = false;
    let mut maybe = false;
    let span = *c.g.pick(&[5usize, 40, 10_000]);
    let n = c.g.len(if c.g.scale == 0 { 5 } else { 20 });
    for _ in 0..n {
        let idx = |g: &mut Gen| -> i128 { match g.below(8) { 0 => MAX - g.below(3) as i128, 1 => 0, _ => g.below(span + 1) as i128 } };
        let num = |g: &mut Gen, n: i128| -> String { let z = if g.one_in(8) { "0".repeat(g.range(1, 30)) } else { String::new() }; format!("{}{}", z, n) };
        match c.g.below(16) {
            0..=5 => { let a = idx(&mut c.g); sel.insert(a as usize); toks.push(num(&mut c.g, a)); c.count("indices"); }
            6..=9 => {
                let a = idx(&mut c.g);
                let b = if span > 1000 && !c.g.one_in(6) { (a + c.g.below(30) as i128).min(MAX) } else { idx(&mut c.g) };
                if a <= b { sel.extend(a as usize..=b as usize); c.count("ranges"); } else { c.count("inverted"); }
                let t = format!("{}-{}", num(&mut c.g, a), num(&mut c.g, b));
                toks.push(t);
            }
            10 => { toks.push(String::new()); c.count("empty_tokens"); }
            11 => { let a = idx(&mut c.g); let t = match c.g.below(3) { 0 => format!("-{}", num(&mut c.g, a)), 1 => format!("{}-", num(&mut c.g, a)), _ => "-".into() }; toks.push(t); c.count("open_tokens"); }
            12 | 13 => {
                // out of range, but within a machine word
                let big = match c.g.below(4) { 0 => MAX + 1, 1 => MAX + 1 + c.g.below(100) as i128, 2 => i64::MAX as i128 - c.g.below(2) as i128, _ => (c.g.u64() >> c.g.range(1, 49)) as i128 + MAX + 1 }.min(i64::MAX as i128);
                let a = idx(&mut c.g);
                let t = match c.g.below(4) { 0 => format!("{}-{}", a, num(&mut c.g, big)), 1 => format!("{}-{}", big, a), 2 => format!("{}-{}", big, big), _ => num(&mut c.g, big) };
                toks.push(t);
                c.count("out_of_range");
            }
            14 if c.g.one_in(3) => { let t = c.g.pick(&["1-2-3", "1--", "1--3", "--", "---", "99999999999999999999", "1-99999999999999999999", "18446744073709551617", "9223372036854775808", "-1-2", "-1-"]).to_string(); toks.push(t); maybe = true; c.count("malformed_tokens"); }
            15 if c.g.one_in(6) => { let t = c.g.pick(&["a", "1a", " 1", "1.0", "+1", "0x1", "1;2", "\u{661}", "1\t", "*", "\"1\""]).to_string(); toks.push(t); odd = true; c.count("foreign_characters"); }
            _ => {}
        }
    }
    let mut v = toks.join(",");
    if c.g.one_in(6) { v.push(','); }
    if c.g.one_in(6) { v.insert(0, ','); }
    if odd { c.count("ignored_selections"); } else if w.bad.is_none() {
        w.files.extend(sel);
        w.maybe_bad |= maybe;
    }
    ("so".into(), v.into_bytes())
}
fn u04(c: &mut Case) -> R {
    let mut w = Want::default();
    let mut parts: Vec<Part> = vec![("xt".into(), format!("urn:btih:{}", refs::hex(&c.g.arr::<20>())).into_bytes())];
    let k = if c.g.one_in(4) { c.g.range(2, 4) } else { 1 };
    for _ in 0..k { let p = selection(c, &mut w); parts.push(p); }
    if c.g.one_in(3) { c.g.shuffle(&mut parts); }
    let s = assemble(&mut c.g, &parts);
    c.note(|| format!("link {:?}", s));
    c.sample(|| s.clone());
    c.nontrivial(s.as_bytes());
    let g = match parse(&s)? {
        Ok(g) => g,
        Err(e) => { ensure!(w.maybe_bad, "{:?} is rejected: {}", s, e); c.count("rejected"); return Ok(()); }
    };
    c.count("accepted");
    let have: std::collections::BTreeSet<usize> = g.files.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect();
    if have != w.files {
        let extra: Vec<_> = have.difference(&w.files).take(5).collect();
        let lack: Vec<_> = w.files.difference(&have).take(5).collect();
        return Err(format!("{:?} selects {} files instead of {}; too many: {:?}, missing: {:?}", s, have.len(), w.files.len(), extra, lack));
    }
    let len = w.files.iter().max().map_or(0, |m| m + 1);
    ensure!(g.files.len() == len, "{:?} gives a list of {} priorities instead of {}", s, g.files.len(), len);
    c.add("files_selected", have.len() as u64);
    if k > 1 { c.count("several_selections"); }
    Ok(())
}
/// links parsed one after the other into parameters that already have file priorities
fn u04_prefilled(c: &mut Case) -> R {
    let prio = |n: u8| match n { 0 => DownloadPriority::DontDownload, 1 => DownloadPriority::LowPriority, 2 => DownloadPriority::DefaultPriority, _ => DownloadPriority::TopPriority };
    let num = |x: &DownloadPriority| match x { DownloadPriority::DontDownload => 0u8, DownloadPriority::LowPriority => 1, DownloadPriority::DefaultPriority => 2, _ => 3 };
    let n = match c.g.below(5) { 0 => 0, 1 => c.g.len(400), 2 if c.g.scale > 0 => c.g.len(10_020), _ => c.g.len(50) };
    let mut want: Vec<u8> = (0..n).map(|_| c.g.below(4) as u8).collect();
    let mut p = TorrentParams::default();
    p.file_priorities = want.iter().map(|x| prio(*x)).collect();
    for _ in 0..c.g.range(1, 4) {
        let mut w = Want::default();
        let mut parts: Vec<Part> = vec![("xt".into(), format!("urn:btih:{}", refs::hex(&c.g.arr::<20>())).into_bytes())];
        for _ in 0..c.g.range(0, 2) { let x = selection(c, &mut w); parts.push(x); }
        let s = assemble(&mut c.g, &parts);
        c.note(|| format!("link {:?} into {} priorities", show(s.as_bytes()), want.len()));
        c.nontrivial(s.as_bytes());
        if w.maybe_bad { continue; }
        let r = sut("parse_magnet_uri", || parse_magnet_uri(&s, &mut p))?;
        if let Err(e) = r { return Err(format!("{:?} is rejected: {:?}", s, e)); }
        for &i in &w.files {
            if want.len() <= i { want.resize(i + 1, 0); }
            want[i] = 2;
        }
        let have: Vec<u8> = p.file_priorities.iter().map(num).collect();
        if have != want {
            let i = have.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(have.len().min(want.len()));
            return Err(format!("after {:?} there are {} priorities instead of {}; the first that differs is that of file {}: {:?} instead of {:?}", s, have.len(), want.len(), i, have.get(i), want.get(i)));
        }
        c.count("selections_into_filled");
    }
    Ok(())
}

// ------------------------------------------------------------------ U05
/// what a part that makes the parse fail is called
fn cause(bad: &str) -> &'static str {
    if bad.starts_with("topic") { "InvalidInfoHash" } else if bad.starts_with("peer") { "ParseEndpoint" } else { "ParseInt" }
}
fn judge_cause(c: &mut Case, s: &str, want: &str) -> R {
    c.note(|| format!("text {:?}", s));
    c.nontrivial(s.as_bytes());
    c.eval();
    c.count(want);
    // whether it is rejected at all is U01's to U04's matter
    let mut p = TorrentParams::default();
    if let Err(e) = sut("parse_magnet_uri", || parse_magnet_uri(s, &mut p))? {
        let e = format!("{:?}", e);
        ensure!(e == want, "{:?} is rejected with {} instead of {}", s, e, want);
    }
    if let Err(e) = sut("TorrentParams::from_str", || s.parse::<TorrentParams>())? {
        let e = format!("{:?}", e);
        ensure!(e == want, "{:?} is rejected by from_str with {} instead of {}", s, e, want);
    }
    Ok(())
}
fn u05(c: &mut Case) -> R {
    let mut parts: Vec<Part> = vec![];
    let mut first: Option<&'static str> = None;
    let mut has = false;
    let n = c.g.range(0, if c.g.scale == 0 { 4 } else { 14 });
    for _ in 0..n {
        let mut w = Want::default();
        let p = match c.g.below(10) {
            0..=2 => topic(c, &mut w),
            3 | 4 => selection(c, &mut w),
            5 => {
                // a number that fits no machine word
                let n = match c.g.below(3) { 0 => "9223372036854775808".to_string(), 1 => format!("1{}", "0".repeat(c.g.range(19, 60))), _ => format!("{}", i128::MAX - c.g.below(1000) as i128) };
                w.bad = Some("selection".into());
                c.count("unfitting_selections");
                let before = *c.g.pick(&["", "1,", ",", "3-5,", "1-,", "-2,"]);
                let after = *c.g.pick(&["", ",2", ",", ",1-2"]);
                ("so".into(), match c.g.below(3) { 0 => format!("{}{}{}", before, n, after), 1 => format!("{}7-{}{}", before, n, after), _ => format!("{}{}-3{}", before, n, after) }.into_bytes())
            }
            _ => param(c, &mut w, true),
        };
        if w.maybe_bad { continue; }
        parts.push(p);
        has |= w.hash.is_some();
        if first.is_none() { first = w.bad.as_deref().map(cause); }
    }
    let s = assemble(&mut c.g, &parts);
    c.sample(|| s.clone());
    match first {
        Some(f) => judge_cause(c, &s, f),
        None if !has => judge_cause(c, &s, "MissingInfoHash"),
        None => { c.count("faultless"); Ok(()) }
    }
}
/// not a magnet link to begin with, whatever is in it
fn u05_not(c: &mut Case) -> R {
    let mut w = Want::default();
    let mut parts: Vec<Part> = vec![];
    for _ in 0..c.g.below(4) { let p = if c.g.one_in(3) { topic(c, &mut w) } else { param(c, &mut w, true) }; parts.push(p); }
    let rest = assemble(&mut c.g, &parts)[8..].to_string();
    if c.g.bool() {
        let s = format!("{}?{}", c.g.pick(&["", "magnet", "/", "1magnet:", "%6dagnet:", "_:", "-magnet:", "mag net:", "magn\u{e9}t:", "/magnet:", ".", "+magnet:", "magnet%3a", "m_agnet:", "magnet/:", "=magnet:", "magnet="]), rest);
        judge_cause(c, &s, "InvalidUrl")
    } else {
        let s = match c.g.below(3) {
            0 => format!("{}:?{}", c.g.pick(&["magnets", "mag", "magnet2", "x", "urn", "magne", "amagnet", "magnet+x", "mailto", "data", "magnet-", "magnet.", "xmagnet"]), rest),
            1 => format!("{}://host/?{}", c.g.pick(&["http", "https", "ftp", "ws", "udp", "magnets"]), rest),
            _ => format!("{}://host:{}/magnet:?{}", c.g.pick(&["http", "https", "udp"]), c.g.below(65536), rest),
        };
        judge_cause(c, &s, "UnsupportedUrlProtocol")
    }
}

// ------------------------------------------------------------------ T01, T02
fn segment(g: &mut Gen, hostile: bool) -> Vec<u8> {
    if hostile {
        let t = *g.pick(&["..", "/", "", ".", "/etc", "/etc/passwd", "../..", "a/../../b", "a/..", "..a", "a..", "...", "../", "./..", "a//..", "\\..\\x", "C:\\x", "C:", "a/b", "./a", "a/", "a/./b", "..\\..", "//x", "/..", "a\0b", ".. ", " ..", "..%2f", "\u{2025}", ".hidden"]);
        return t.as_bytes().to_vec();
    }
    match g.below(7) {
        6 => { let n = if g.one_in(8) { g.len(400) } else { 40 }; let t: String = String::from_utf8_lossy(&g.blob(n.max(1))).chars().filter(|c| *c != '/').collect(); if t.is_empty() || t == "." || t == ".." { b"y".to_vec() } else { t.into_bytes() } }
        0 => { let n = g.len(20); let t: String = g.text(n).chars().filter(|c| *c != '/').collect(); if t.is_empty() || t == "." || t == ".." { b"x".to_vec() } else { t.into_bytes() } }
        1 => g.pick(&["..a", "a..b", "...", "C:", "a b", "é", ".hidden", "a\\b", "~", "-"]).as_bytes().to_vec(),
        _ => format!("f{}", g.below(99)).into_bytes(),
    }
}
/// with probability 1/n, never if n is 0
fn rare(g: &mut Gen, n: usize) -> bool { n > 0 && g.one_in(n) }
fn text_or_junk(g: &mut Gen, junk: usize, good: RVal) -> RVal {
    if rare(g, junk) { match g.below(4) { 0 => RVal::Int(g.int()), 1 => RVal::Str(vec![0xff, 0xfe]), 2 => RVal::List(vec![]), _ => refs::gen_val(g, 3, 2) } } else { good }
}
fn length(g: &mut Gen, junk: usize) -> RVal {
    let n = match g.below(14) { 0 => 0, 1 => -1, 2 => i64::MIN, 3 => i64::MAX, 4 => g.int(), 5 => 1, _ => g.below(1 << 30) as i64 };
    RVal::Int(if n < 0 && !rare(g, junk / 8) { 7 } else { n })
}
/// Keys a torrent may have besides those that count (of later extensions, of other levels, or any), with values
/// that would do harm if they were used.
fn extras(g: &mut Gen, junk: usize, d: &mut Vec<(String, RVal)>) {
    const KEYS: &[&str] = &["name.utf-8", "path.utf-8", "name", "path", "length", "files", "pieces", "piece length", "announce", "info", "announce-list", "url-list", "encoding",
        "meta version", "file tree", "piece layers", "pieces root", "root hash", "attr", "symlink path", "publisher", "source", "filename", "file-name", "title", "comment.utf-8",
        "download path", "save_path", "destination", "merkle", "private", "nodes", "httpseeds", "sha1", "ed2k", "Name", "NAME", "Path", "Length", "name ", "", "created by", "profiles"];
    while g.one_in(5) {
        let k = match g.below(5) { 0 => g.word(40), 1 if !d.is_empty() => { let k = g.pick(d).0.clone(); match g.below(3) { 0 => format!("{}.utf-8", k), 1 => k.to_uppercase(), _ => format!("{} ", k) } } _ => g.pick(KEYS).to_string() };
        if d.iter().any(|(x, _)| *x == k) || junk == 0 && (k == "files" || k == "length") { continue; }
        let v = match g.below(9) {
            0 => RVal::Int(g.int()),
            1 => { let n = g.range(1, 3); RVal::List((0..n).map(|_| { let s = g.bool(); RVal::Str(segment(g, s)) }).collect()) }
            2 => RVal::Str(b"http://other.example/announce".to_vec()),
            3 => { let n = 20 * g.below(4); RVal::Str(g.bytes(n)) }
            4 => RVal::List(vec![]),
            5 => refs::gen_val(g, 6, 2),
            6 => { let s = g.bool(); let seg = RVal::Str(segment(g, s)); refs::dict_sort(vec![("length".into(), length(g, junk)), ("path".into(), RVal::List(vec![seg]))]) }
            _ => { let s = g.bool(); RVal::Str(segment(g, s)) }
        };
        d.push((k, v));
    }
}
fn gen_torrent(g: &mut Gen, hostile: usize) -> RVal {
    let mut info: Vec<(String, RVal)> = vec![];
    // half of the torrents have nothing wrong but what `hostile` asks for
    let junk = if g.bool() { 0 } else { *g.pick(&[20, 60, 200]) };
    let h = |g: &mut Gen| hostile > 0 && g.one_in(hostile);
    let s = h(g);
    let name = RVal::Str(segment(g, s));
    if !rare(g, junk) { let x = text_or_junk(g, junk, name); info.push(("name".into(), x)); }
    if !rare(g, junk) {
        let l = match g.below(12) { 0 => 0, 1 => -1, 2 => i64::MAX, 3 => 1, 4 => g.int(), _ => 1 << g.range(10, 24) };
        let l = if l <= 0 && !rare(g, junk / 10) { 16384 } else { l };
        let x = text_or_junk(g, junk, RVal::Int(l));
        info.push(("piece length".into(), x));
    }
    if !rare(g, junk) {
        let mut n = 20 * g.len(if g.scale == 0 { 4 } else { 60 });
        if rare(g, junk) { n += *g.pick(&[1usize, 19, 10]); }
        let x = RVal::Str(g.bytes(n));
        let x = text_or_junk(g, junk, x);
        info.push(("pieces".into(), x));
    }
    let (single, multi) = match if junk == 0 { g.range(2, 29) } else { g.below(30) } { 0 => (true, true), 1 => (false, false), k => (k % 2 == 0, k % 2 == 1) };
    if single { let l = length(g, junk); let x = text_or_junk(g, junk, l); info.push(("length".into(), x)); }
    if multi {
        let m = if g.scale == 0 { 3 } else { 20 };
        let n = g.len(m);
        let files = (0..n).map(|_| {
            let mut f: Vec<(String, RVal)> = vec![];
            if !rare(g, junk * 2) { let l = length(g, junk); let x = text_or_junk(g, junk, l); f.push(("length".into(), x)); }
            if !rare(g, junk * 2) {
                let k = if rare(g, junk) { 0 } else { g.range(1, 4) };
                let p = (0..k).map(|_| { let s = h(g); let t = RVal::Str(segment(g, s)); text_or_junk(g, junk, t) }).collect();
                let x = text_or_junk(g, junk, RVal::List(p));
                f.push(("path".into(), x));
            }
            if g.one_in(6) { f.push(("md5sum".into(), RVal::Str(vec![b'0'; 32]))); }
            extras(g, junk, &mut f);
            let f = refs::dict_sort(f);
            text_or_junk(g, junk, f)
        }).collect();
        let x = text_or_junk(g, junk, RVal::List(files));
        info.push(("files".into(), x));
    }
    if g.one_in(4) { info.push(("private".into(), RVal::Int(1))); }
    extras(g, junk, &mut info);
    let mut top: Vec<(String, RVal)> = vec![];
    if !rare(g, junk) {
        let u = match if junk == 0 { g.range(3, 17) } else { g.below(14) } {
            0 => String::new(),
            1 => "not a url".into(),
            2 => "http://".into(),
            3 => "HTTP://Example.COM:80/a/../b?x=é#f".into(),
            4 => "udp://tracker.example:6969".into(),
            12 if junk > 0 => "/announce".into(),
            6 => "http://[::1]:8/x".into(),
            13 if junk > 0 => "http://h:99999/".into(),
            _ => format!("http://t{}.example/announce", g.below(99)),
        };
        let x = text_or_junk(g, junk, RVal::Str(u.into_bytes()));
        top.push(("announce".into(), x));
    }
    if !rare(g, junk) { let i = refs::dict_sort(info); let x = text_or_junk(g, junk, i); top.push(("info".into(), x)); }
    if g.one_in(4) { top.push(("comment".into(), RVal::Str(b"c".to_vec()))); }
    if g.one_in(6) { top.push(("creation date".into(), RVal::Int(g.int()))); }
    extras(g, junk, &mut top);
    refs::dict_sort(top)
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum Kind { Ordinary, Grey, Unsafe }
/// judged by text alone: Unix path rules
fn kind(segs: &[&str]) -> Kind {
    let pieces: Vec<&str> = segs.iter().flat_map(|s| s.split('/')).collect();
    if segs.iter().any(|s| s.starts_with('/')) || pieces.contains(&"..") || pieces.iter().all(|p| p.is_empty() || *p == ".") { return Kind::Unsafe; }
    if segs.iter().all(|s| !s.is_empty() && !s.contains('/') && *s != ".") { Kind::Ordinary } else { Kind::Grey }
}
struct Tor { url: String, name: String, piece_len: i64, pieces: Vec<u8>, single: bool, files: Vec<(Vec<String>, i64)> }
/// the torrent a document denotes, if it is one (paths not judged yet)
fn denoted(v: &RVal) -> Option<Tor> {
    let url = url::Url::parse(v.get("announce")?.text()?).ok()?.to_string();
    let info = v.get("info")?;
    let name = info.get("name")?.text()?.to_string();
    let piece_len = info.get("piece length")?.int()?;
    let pieces = info.get("pieces")?.bytes()?.to_vec();
    if piece_len <= 0 || pieces.len() % 20 != 0 { return None; }
    let mut files = vec![];
    let single = match (info.get("length"), info.get("files")) {
        (Some(l), None) => { files.push((vec![name.clone()], l.int()?)); true }
        (None, Some(l)) => {
            for f in l.list()? {
                let len = f.get("length")?.int()?;
                let mut p = vec![];
                for s in f.get("path")?.list()? { p.push(s.text()?.to_string()); }
                files.push((p, len));
            }
            false
        }
        _ => return None,
    };
    if files.iter().any(|f| f.1 < 0) { return None; }
    Some(Tor { url, name, piece_len, pieces, single, files })
}
fn torrent_kind(t: &Tor) -> Kind {
    let mut k = kind(&[&t.name]);
    for (p, _) in &t.files {
        let p: Vec<&str> = p.iter().map(|s| &s[..]).collect();
        match kind(&p) { Kind::Unsafe => k = Kind::Unsafe, Kind::Grey if k == Kind::Ordinary => k = Kind::Grey, _ => {} }
    }
    k
}
fn doc_of(c: &mut Case, v: &RVal) -> Vec<u8> {
    let mut b = vec![];
    if c.g.one_in(5) { refs::encode_sloppy(&mut c.g, v, &mut b); } else { refs::encode(v, &mut b); }
    if c.g.one_in(6) { for _ in 0..c.g.range(1, 3) { refs::mutate(&mut c.g, &mut b); } }
    b
}
fn t01_doc(c: &mut Case, b: &[u8]) -> R {
    c.note(|| format!("file {}", show(b)));
    c.sample(|| show(b));
    c.nontrivial(b);
    let t = refs::decode(b).and_then(|(v, _)| denoted(&v));
    let r = sut("Torrent::parse", || torrent::parse(b))?;
    let t = match (t, &r) {
        (None, None) => { c.count("rejected"); return Ok(()); }
        (None, Some(_)) => return Err(format!("{} is no valid torrent but is accepted", show(b))),
        (Some(t), None) => {
            ensure!(torrent_kind(&t) != Kind::Ordinary, "the valid torrent {} is rejected", show(b));
            c.count("unsafe_or_odd_paths");
            return Ok(());
        }
        (Some(t), Some(_)) => t,
    };
    let r = r.unwrap();
    // unsafe paths are T02's subject
    c.count(if t.single { "accepted_single" } else { "accepted_directory" });
    ensure!(r.announce_url == t.url, "announce URL of {} is {:?} instead of {:?}", show(b), r.announce_url, t.url);
    ensure!(r.name.as_deref() == Some(&t.name), "name of {} is {:?} instead of {:?}", show(b), r.name, t.name);
    ensure!(r.piece_len as i128 == i128::from(t.piece_len), "piece length of {} is {} instead of {}", show(b), r.piece_len, t.piece_len);
    ensure!(r.pieces == t.pieces, "pieces of {} are {} instead of {}", show(b), show(&r.pieces), show(&t.pieces));
    ensure!(r.single_file == t.single, "{} is taken for another kind of torrent", show(b));
    ensure!(r.files.len() == t.files.len(), "{} has {} files instead of {}", show(b), r.files.len(), t.files.len());
    for (g, w) in r.files.iter().zip(&t.files) {
        ensure!(g.1 as i128 == i128::from(w.1), "a file of {} has length {} instead of {}", show(b), g.1, w.1);
        let segs: Vec<&str> = w.0.iter().map(|s| &s[..]).collect();
        if kind(&segs) == Kind::Ordinary { ensure!(g.0.to_str() == Some(&segs.join("/")), "a path of {} is {:?} instead of {:?}", show(b), g.0, segs); }
        c.count("files");
        c.eval();
    }
    if t.files.iter().all(|f| f.0.iter().all(|s| s.len() < 30)) { c.count("compared"); }
    Ok(())
}
fn t01(c: &mut Case) -> R {
    let v = gen_torrent(&mut c.g, 0);
    let b = doc_of(c, &v);
    t01_doc(c, &b)
}
/// one thing large: many files, many pieces, long names, deep paths, many other keys, big numbers
fn t01_large(c: &mut Case) -> R {
    let k = (c.idx / 9) as usize;
    let what = c.idx % 9;
    let n = if c.g.scale == 0 { 3 + k } else { c.g.sweep(k, 2, match what { 0 => 12_000, 1 => 70_000, 3 => 2000, 5 => 2000, 8 => i64::MAX as usize - 1, _ => 20_000 }) };
    let text = |g: &mut Gen, n: usize| -> Vec<u8> { let x = *g.pick(b"axyz .-_"); if x == b'.' { let mut v = vec![x; n]; v[0] = b'q'; v } else { vec![x; n] } };
    let name = if what == 2 { text(&mut c.g, n) } else { b"name".to_vec() };
    let pieces = c.g.bytes(20 * if what == 1 { n } else { 2 });
    let piece_len = if what == 8 && c.g.bool() { n as i64 } else { 1 << 14 };
    let mut info = vec![("name".to_string(), RVal::Str(name)), ("pieces".to_string(), RVal::Str(pieces)), ("piece length".to_string(), RVal::Int(piece_len))];
    if what == 0 || what == 3 || what == 4 || c.g.bool() {
        let m = if what == 0 { n } else { c.g.range(1, 3) };
        let files = (0..m).map(|i| {
            let path = match what {
                3 => (0..n).map(|j| RVal::Str(format!("d{}", j % 7).into_bytes())).collect(),
                4 => { let t = text(&mut c.g, n); let mut p = vec![RVal::Str(t)]; if c.g.bool() { p.insert(c.g.below(2), RVal::Str(b"d".to_vec())); } p }
                _ => vec![RVal::Str(b"d".to_vec()), RVal::Str(format!("f{}", i).into_bytes())],
            };
            let len = if what == 8 && c.g.bool() { n as i64 } else { c.g.below(1 << 30) as i64 };
            refs::dict_sort(vec![("length".into(), RVal::Int(len)), ("path".into(), RVal::List(path))])
        }).collect();
        info.push(("files".into(), RVal::List(files)));
    } else {
        info.push(("length".into(), RVal::Int(if what == 8 { n as i64 } else { 12345 })));
    }
    let url = match what { 6 => format!("http://t.example/{}", "p".repeat(n)), _ => "http://t.example/a".to_string() };
    let mut top = vec![("announce".to_string(), RVal::Str(url.into_bytes()))];
    if what == 5 {
        // before, between and after the keys that count
        for i in 0..n { let d = if i % 2 == 0 { &mut info } else { &mut top }; d.push((format!("{}{}", ["a", "m", "o", "z"][c.g.below(4)], i), RVal::Int(i as i64))); }
    }
    if what == 7 { top.push(("comment".into(), RVal::Str(text(&mut c.g, n)))); }
    top.push(("info".into(), refs::dict_sort(info)));
    c.max("size", n as u64);
    c.count("large");
    let b = refs::encoded(&refs::dict_sort(top));
    t01_doc(c, &b)
}
fn t01_any(c: &mut Case) -> R {
    let b = if c.g.bool() { refs::gen_doc(&mut c.g) } else {
        // a torrent with one part replaced by anything
        let v = gen_torrent(&mut c.g, 0);
        let mut b = refs::encoded(&v);
        for _ in 0..c.g.below(4) { refs::mutate(&mut c.g, &mut b); }
        b
    };
    t01_doc(c, &b)
}
fn contained(p: &str) -> bool {
    !p.starts_with('/') && p.split('/').all(|x| x != "..") && p.split('/').any(|x| !x.is_empty() && x != ".")
}
fn t02(c: &mut Case) -> R {
    let h = c.g.range(1, 12);
    let v = gen_torrent(&mut c.g, h);
    let b = if c.g.one_in(4) { doc_of(c, &v) } else { refs::encoded(&v) };
    c.note(|| format!("file {}", show(&b)));
    c.nontrivial(&b);
    let t = refs::decode(&b).and_then(|(v, _)| denoted(&v));
    let Some(r) = sut("Torrent::parse", || torrent::parse(&b))? else {
        match t { Some(t) => { ensure!(torrent_kind(&t) != Kind::Ordinary, "the torrent {} with ordinary paths is rejected", show(&b)); c.count("hostile_rejected") } None => c.count("invalid") }
        return Ok(());
    };
    c.count("parsed");
    c.sample(|| show(&b));
    let base = std::path::Path::new("/downloads/dir");
    for (p, _) in &r.files {
        let s = p.to_str().ok_or("a path is not text")?;
        ensure!(contained(s), "{} has the file path {:?}, which leaves the download directory or names the directory itself", show(&b), s);
        let j = base.join(p);
        ensure!(j.starts_with(base) && j != base, "a path of {} is joined to {:?}", show(&b), j);
        c.count("paths");
        c.eval();
    }
    let n = r.name.as_deref().unwrap_or("x");
    ensure!(contained(n), "{} suggests the name {:?}, which leaves the download directory or names the directory itself", show(&b), n);
    if let Some(t) = t {
        if torrent_kind(&t) == Kind::Ordinary {
            for (g, w) in r.files.iter().zip(&t.files) { ensure!(g.0.to_str() == Some(&w.0.join("/")), "the ordinary path {:?} became {:?}", w.0, g.0); }
            ensure!(r.name.as_ref() == Some(&t.name), "the ordinary name {:?} became {:?}", t.name, r.name);
            c.count("kept");
        } else {
            ensure!(torrent_kind(&t) != Kind::Unsafe || r.files.iter().all(|p| contained(p.0.to_str().unwrap())), "{} is accepted", show(&b));
            c.count("odd_accepted");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ L01
fn is_space(b: u8) -> bool { matches!(b, b' ' | b'\t' | b'\r' | b'\n') }
fn soup(g: &mut Gen, al: &[u8]) -> Vec<u8> { let m = if g.scale == 0 { 10 } else { 60 }; let n = g.len(m); (0..n).map(|_| *g.pick(al)).collect() }
fn l01(c: &mut Case) -> R {
    let sep = match c.g.below(6) { 0 => c.g.u64() as u8, 1 => b'"', _ => *c.g.pick(b" ,;a\n") };
    let mut s = match c.g.below(5) { 0 => c.g.blob(200), 4 => { let a = *c.g.pick(&[0u8, b'a', b'"', sep]); let n = c.g.len(300); let mut v = vec![a; n]; for _ in 0..c.g.below(4) { let i = c.g.below(v.len() + 1); let x = if c.g.bool() { sep } else { c.g.byte() }; v.insert(i, x); } v } 1 => soup(&mut c.g, &[sep, b'"', b'a']), _ => soup(&mut c.g, &[b'"', sep, sep, b'a', b'b', b' ', b'\\', b'\n']) };
    if c.g.bool() { s.insert(0, b'"'); }
    l01_split(c, s, sep)
}
/// long texts with the separator, quote or other end at a chosen place
fn l01_large(c: &mut Case) -> R {
    let n = if c.g.scale == 0 { 8 } else { c.g.sweep((c.idx / 4) as usize, 2, 100_000) };
    let sep = *c.g.pick(b" ,;a\n");
    let mut s: Vec<u8> = if c.g.bool() { vec![b'x'; n] } else { c.g.bytes(n).iter().map(|&b| if b == b'"' || b == sep { b'y' } else { b }).collect() };
    c.max("size", n as u64);
    c.count("large");
    match c.idx % 4 {
        0 => { s.push(sep); s.extend(b"rest"); }
        1 => { s.insert(0, b'"'); if n > 3 { let i = 1 + c.g.below(n); s[i] = sep; } s.push(b'"'); s.push(sep); s.extend(b"r"); }
        2 => { if c.g.bool() { s.insert(0, b'"'); } }
        _ => {
            // white space around
            let (a, b) = (c.g.len(n), c.g.len(n));
            let mut t: Vec<u8> = (0..a).map(|_| *c.g.pick(b" \t\r\n")).collect();
            let keep = c.g.below(4);
            t.extend(&s[..keep.min(n)]);
            t.extend((0..b).map(|_| *c.g.pick(b" \t\r\n")));
            return l01_trimmed(c, t);
        }
    }
    l01_split(c, s, sep)
}
fn l01_split(c: &mut Case, s: Vec<u8>, sep: u8) -> R {
    c.note(|| format!("split {} at {:?}", show(&s), sep as char));
    c.sample(|| format!("split {} at {:?}", show(&s), sep as char));
    c.nontrivial(&[&s[..], &[sep]].concat());
    let (t, r) = sut("split_string", || str_utl::split_string(&s, sep))?;
    // where separators count: after the closing quote of a leading quoted section
    let mut from = 0;
    if s.first() == Some(&b'"') && sep != b'"' {
        from = match s[1..].iter().position(|&b| b == b'"') { Some(p) => p + 2, None => s.len().saturating_sub(1).max(1) };
        c.count(if from > s.len() - 1 && !s[1..].contains(&b'"') { "unterminated" } else { "quoted" });
    }
    let end = (from..s.len()).find(|&i| s[i] == sep).unwrap_or(s.len());
    let rest = if end < s.len() { end + 1 } else { end };
    ensure!(t == &s[..end], "splitting {} at {:?} gives the token {} instead of {}", show(&s), sep as char, show(t), show(&s[..end]));
    ensure!(r == &s[rest..], "splitting {} at {:?} gives the rest {} instead of {}", show(&s), sep as char, show(r), show(&s[rest..]));
    c.count(if end < s.len() { "separator_found" } else { "no_separator" });
    // consumed entirely, nothing is lost
    let mut all = vec![];
    let mut cur = &s[..];
    let mut n = 0;
    while !cur.is_empty() && n < 2000 {
        let (t, r) = sut("split_string", || str_utl::split_string(cur, sep))?;
        all.extend_from_slice(t);
        ensure!(r.len() < cur.len(), "splitting {} at {:?} makes no progress", show(cur), sep as char);
        if t.len() + r.len() < cur.len() { all.push(sep); }
        cur = r;
        n += 1;
        c.eval();
    }
    all.extend_from_slice(cur);
    ensure!(all == s, "tokens of {} at {:?} join to {}", show(&s), sep as char, show(&all));
    c.max("tokens", n);
    Ok(())
}
fn l01_trim(c: &mut Case) -> R {
    let s = match c.g.below(4) { 0 => c.g.blob(200), 1 => soup(&mut c.g, b" \t\r\n"), 2 => soup(&mut c.g, b" \t\r\na\x0b\x0c\0\xa0"), _ => { let mut v = soup(&mut c.g, b" \t\r\n"); v.extend(c.g.blob(40)); v.extend(soup(&mut c.g, b" \t\r\n")); v } };
    l01_trimmed(c, s)
}
fn l01_trimmed(c: &mut Case, s: Vec<u8>) -> R {
    c.note(|| format!("trim {}", show(&s)));
    c.nontrivial(&s);
    let got = sut("trim", || str_utl::trim(&s))?;
    let mut w = &s[..];
    while !w.is_empty() && is_space(w[0]) { w = &w[1..]; }
    while !w.is_empty() && is_space(w[w.len() - 1]) { w = &w[..w.len() - 1]; }
    ensure!(got == w, "trimming {} gives {} instead of {}", show(&s), show(got), show(w));
    c.count(if w.is_empty() { "trimmed_empty" } else if w.len() < s.len() { "trimmed" } else { "untouched" });
    Ok(())
}
/// every short string over a small alphabet
fn l01_short(c: &mut Case) -> R {
    const AL: &[u8] = b"\" a\n";
    let mut k = c.idx * 200;
    for _ in 0..200 {
        let (mut n, mut len, mut span) = (k, 0u32, 1u64);
        while n >= span { n -= span; len += 1; span = 4u64.pow(len); }
        let mut s = vec![];
        for _ in 0..len { s.push(AL[(n % 4) as usize]); n /= 4; }
        for sep in [b' ', b'a', b'"'] {
            let (t, r) = sut("split_string", || str_utl::split_string(&s, sep))?;
            let mut from = 0;
            if s.first() == Some(&b'"') && sep != b'"' { from = match s[1..].iter().position(|&b| b == b'"') { Some(p) => p + 2, None => s.len().saturating_sub(1).max(1) }; }
            let end = (from..s.len()).find(|&i| s[i] == sep).unwrap_or(s.len());
            let rest = if end < s.len() { end + 1 } else { end };
            ensure!(t == &s[..end] && r == &s[rest..], "splitting {} at {:?} gives {} and {}", show(&s), sep as char, show(t), show(r));
            c.eval();
        }
        let got = sut("trim", || str_utl::trim(&s))?;
        let a = s.iter().position(|b| !is_space(*b)).unwrap_or(s.len());
        let z = s.iter().rposition(|b| !is_space(*b)).map_or(a, |z| z + 1);
        ensure!(got == &s[a..z], "trimming {} gives {}", show(&s), show(got));
        k += 1;
        c.nontrivial(&s);
    }
    Ok(())
}

// ------------------------------------------------------------------ L02
fn l02_large(c: &mut Case) -> R {
    let n = if c.g.scale == 0 { 8 } else { c.g.sweep((c.idx / 3) as usize, 1, 100_000) };
    let b = match c.g.below(3) { 0 => c.g.bytes(n), 1 => vec![c.g.byte(); n], _ => (0..n).map(|_| *c.g.pick(b"az09 +%")).collect() };
    c.max("size", n as u64);
    c.count("large");
    if c.idx % 3 < 2 { l02_percented(c, b) } else { l02_based(c, b) }
}
fn l02_percent(c: &mut Case) -> R {
    let b = match c.g.below(4) { 3 => { let n = c.g.len(60); (0..n).map(|_| c.g.byte()).collect() } 0 => { let n = c.g.len(100); c.g.bytes(n) } 1 => { let n = c.g.len(60); c.g.text(n).into_bytes() } _ => c.g.blob(200) };
    l02_percented(c, b)
}
fn l02_percented(c: &mut Case, b: Vec<u8>) -> R {
    let e = refs::percent(&mut c.g, &b, true);
    c.note(|| format!("encoded {:?}", e));
    c.sample(|| e.clone());
    c.nontrivial(e.as_bytes());
    let r = sut("unescape_bytes", || str_utl::unescape_bytes(e.as_bytes()))?;
    match r { Ok(v) => ensure!(v == b, "{:?} decodes to {} instead of {}", e, show(&v), show(&b)), Err(x) => return Err(format!("{:?} is rejected: {:?}", e, x)) }
    let r = sut("unescape_string", || str_utl::unescape_string(e.as_bytes()))?;
    match (r, std::str::from_utf8(&b)) {
        (Ok(t), Ok(w)) => { ensure!(t == w, "{:?} decodes to {:?} instead of {:?}", e, t, w); c.count("text") }
        (Err(_), Err(_)) => c.count("not_text"),
        (Ok(t), Err(_)) => return Err(format!("{:?} is not UTF-8 but decodes to {:?}", e, t)),
        (Err(x), Ok(_)) => return Err(format!("{:?} is rejected as text: {:?}", e, x)),
    }
    c.count("round_trips");
    Ok(())
}
fn l02_junk(c: &mut Case) -> R {
    let s = match c.g.below(3) { 0 => c.g.blob(120), 1 => soup(&mut c.g, b"%%%4fFgG0+ a\xff"), _ => { let b = c.g.blob(60); let mut e = refs::percent(&mut c.g, &b, true).into_bytes(); for _ in 0..c.g.below(3) { if !e.is_empty() { let i = c.g.below(e.len()); match c.g.below(4) { 0 => e[i] = b'%', 1 => { e.remove(i); } 2 => e[i] = *c.g.pick(b"gG@`/:xz \x80"), _ => e.truncate(i) } } } e } };
    c.note(|| format!("text {}", show(&s)));
    c.nontrivial(&s);
    let mut w: Option<Vec<u8>> = Some(vec![]);
    let mut i = 0;
    while i < s.len() {
        match s[i] {
            b'%' => {
                let h = s.get(i + 1).and_then(|&x| refs::hexval(x));
                let l = s.get(i + 2).and_then(|&x| refs::hexval(x));
                match (h, l) { (Some(h), Some(l)) => w.as_mut().unwrap().push(h * 16 + l), _ => { w = None; break; } }
                i += 3;
            }
            b'+' => { w.as_mut().unwrap().push(b' '); i += 1; }
            x => { w.as_mut().unwrap().push(x); i += 1; }
        }
    }
    let r = sut("unescape_bytes", || str_utl::unescape_bytes(&s))?;
    ensure!(r.is_ok() == w.is_some(), "decoding {} gives success={} instead of {}", show(&s), r.is_ok(), w.is_some());
    if let (Ok(v), Some(w)) = (&r, &w) { ensure!(v == w, "{} decodes to {} instead of {}", show(&s), show(v), show(w)); c.count("accepted"); } else { c.count("rejected"); }
    let r = sut("unescape_string", || str_utl::unescape_string(&s))?;
    let wt = w.and_then(|w| String::from_utf8(w).ok());
    ensure!(r.as_ref().ok() == wt.as_ref(), "decoding {} as text gives {:?} instead of {:?}", show(&s), r.ok(), wt);
    Ok(())
}
fn l02_base32(c: &mut Case) -> R {
    let n = if c.g.bool() { c.g.below(12) } else { c.g.len(150) };
    let b = if c.g.one_in(3) { (0..n).map(|_| c.g.byte()).collect() } else { c.g.bytes(n) };
    l02_based(c, b)
}
fn l02_based(c: &mut Case, b: Vec<u8>) -> R {
    let pad = c.g.bool();
    let e = refs::base32(&b, pad);
    let mut e = refs::random_case(&mut c.g, &e);
    if c.g.one_in(3) { e = e.chars().map(|x| if x == 'I' || x == 'i' { '1' } else { x }).collect(); }
    c.note(|| format!("encoded {:?}", e));
    c.nontrivial(e.as_bytes());
    let v = sut("base32_decode", || str_utl::base32_decode(e.as_bytes()))?;
    ensure!(v == b, "{:?} decodes to {} instead of {}", e, show(&v), show(&b));
    c.count(if pad && b.len() % 5 != 0 { "padded" } else { "unpadded" });
    // one character outside the alphabet
    if !e.is_empty() {
        let mut x = e.into_bytes();
        let data = x.iter().position(|c| *c == b'=').unwrap_or(x.len());
        let i = c.g.below(x.len());
        let i = if c.g.bool() { i } else { i.min(data - 1) };
        x[i] = loop { let y = c.g.u64() as u8; if !y.is_ascii_alphabetic() && !(b'1'..=b'7').contains(&y) && y != b'=' { break y; } };
        let v = sut("base32_decode", || str_utl::base32_decode(&x))?;
        ensure!(v.is_empty(), "{} has a character outside the alphabet but decodes to {}", show(&x), show(&v));
        c.count("foreign");
    }
    Ok(())
}
/// anything at all: no panic, bounded output
fn l02_any(c: &mut Case) -> R {
    let s = match c.g.below(3) { 0 => c.g.blob(200), 1 => soup(&mut c.g, b"ABCZaz1234567=890="), _ => soup(&mut c.g, b"A=7") };
    let s = if c.g.one_in(30) { let n = c.g.len(20_000); vec![*c.g.pick(b"A=7a9"); n] } else { s };
    c.note(|| format!("text {}", show(&s)));
    c.nontrivial(&s);
    let v = sut("base32_decode", || str_utl::base32_decode(&s))?;
    ensure!(v.len() <= s.len(), "{} decodes to {} bytes", show(&s), v.len());
    if s.iter().any(|&y| !y.is_ascii_alphabetic() && !(b'1'..=b'7').contains(&y) && y != b'=') {
        ensure!(v.is_empty(), "{} has a character outside the alphabet but decodes to {}", show(&s), show(&v));
        c.count("garbage_rejected");
    }
    c.count("any");
    Ok(())
}

/// exact heap buffers and anything as arguments: nothing may go wrong but a panic
// ------------------------------------------------------------------ X01
fn describe(b: &[u8]) -> String {
    match torrent::parse(b) {
        Some(t) => format!("{:?} {:?} {} {} {} {:?}", t.announce_url, t.name, t.piece_len, refs::hex(&t.pieces), t.single_file, t.files),
        None => "rejected".into(),
    }
}
fn x01(c: &mut Case) -> R {
    let mut links: Vec<String> = vec![];
    let mut w = Want::default();
    let mut parts: Vec<Part> = vec![("xt".into(), format!("urn:btih:{}", refs::hex(&c.g.arr::<20>())).into_bytes())];
    for _ in 0..4 {
        for _ in 0..c.g.below(4) { let p = match c.g.below(6) { 0 => topic(c, &mut w), 1 => selection(c, &mut w), _ => param(c, &mut w, true) }; parts.push(p); }
        if parts.len() > 1 && c.g.one_in(3) { let i = c.g.below(parts.len()); parts.remove(i); }
        let s = match links.last() {
            Some(l) if c.g.one_in(4) => { let mut b = l.clone().into_bytes(); refs::transpose(&mut c.g, &mut b[8..]); String::from_utf8(b).unwrap() }
            _ => assemble(&mut c.g, &parts),
        };
        links.push(s);
    }
    let mut files: Vec<Vec<u8>> = vec![];
    for _ in 0..3 {
        let d = match files.last() {
            Some(d) if !c.g.one_in(3) => { let mut d = d.clone(); if c.g.one_in(3) { refs::transpose(&mut c.g, &mut d); } else if c.g.bool() { let i = c.g.below(d.len()); if d[i].is_ascii_lowercase() { d[i] = b'a' + c.g.below(26) as u8 } } else { refs::mutate(&mut c.g, &mut d); } if d.is_empty() { d.push(b'd'); } d }
            _ => refs::encoded(&gen_torrent(&mut c.g, 6)),
        };
        files.push(d);
    }
    let texts: Vec<Vec<u8>> = (0..3).map(|k| { let t = c.g.blob(60); if k == 2 { refs::percent(&mut c.g, &t, true).into_bytes() } else { t } }).collect();
    c.nontrivial(links.concat().as_bytes());
    c.sample(|| links.join(" and "));
    let mut calls: Vec<Call> = vec![];
    for l in &links {
        calls.push(Call { what: format!("parsing {:?}", l), f: Box::new(move || in_place(l.as_bytes(), |b| match parse(std::str::from_utf8(b).unwrap()) {
            Ok(Ok(g)) => format!("{:?}", (g.hash, g.trackers, g.tiers, g.seeds, g.peers, g.nodes, g.name, g.files, g.text)),
            Ok(Err(e)) => e,
            Err(e) => e,
        })) });
    }
    for f in &files {
        calls.push(Call { what: format!("parsing torrent {}", show(f)), f: Box::new(move || in_place(f, |b| describe(b))) });
    }
    for t in &texts {
        let sep = *c.g.pick(b",;& \"a");
        calls.push(Call { what: format!("splitting {} at {}", show(t), sep), f: Box::new(move || in_place(t, |b| format!("{:?}", str_utl::split_string(b, sep)))) });
        calls.push(Call { what: format!("trimming and decoding {}", show(t)), f: Box::new(move || in_place(t, |b| format!("{:?} {:?} {:?} {:?}", str_utl::trim(b), str_utl::unescape_bytes(b).ok(), str_utl::unescape_string(b).ok(), str_utl::base32_decode(b)))) });
    }
    isolated(c, &calls)
}

fn misuse(c: &mut Case) -> R {
    use std::hint::black_box as bb;
    for _ in 0..if c.g.scale == 0 { 2 } else { 8 } {
        let b = c.g.blob(120).into_boxed_slice();
        let sep = c.g.byte();
        any(c, || { let (x, y) = str_utl::split_string(&b, sep); bb(x.iter().chain(y).map(|&b| b as u32).sum::<u32>()) });
        any(c, || bb(str_utl::trim(&b)).iter().map(|&b| b as u32).sum::<u32>());
        any(c, || (str_utl::unescape_bytes(&b).is_ok(), str_utl::unescape_string(&b).map(text).is_ok()));
        any(c, || str_utl::base32_decode(&b).iter().map(|&b| b as u32).sum::<u32>());
        let b32: Box<[u8]> = b.iter().map(|&x| b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567="[x as usize % 33]).collect();
        any(c, || str_utl::base32_decode(&b32).iter().map(|&b| b as u32).sum::<u32>());
        any(c, || torrent::parse(&b).is_some());
        let t = refs::encoded(&gen_torrent(&mut c.g, 4));
        any(c, || torrent::parse(&t).map(|t| text(&t.announce_url) + t.name.map_or(0, text) + t.files.iter().map(|f| f.0.to_str().map_or(0, text)).sum::<usize>()));
        let mut p = TorrentParams::default();
        p.file_priorities = (0..c.g.below(5)).map(|_| DownloadPriority::DontDownload).collect();
        p.tracker_tiers = vec![7; c.g.below(5)];
        p.trackers = vec!["x".into(); c.g.below(5)];
        let link = match c.g.below(3) { 0 => String::from_utf8_lossy(&b).into_owned(), 1 => format!("magnet:?xt=urn:btih:{}", String::from_utf8_lossy(&b32)), _ => format!("magnet:?so={}&xt=urn:btih:{}", String::from_utf8_lossy(&b), "a".repeat(40)) };
        any(c, || parse_magnet_uri(&link, &mut p).is_ok());
        any(c, || text(p.to_string()) + text(&p.name) + p.trackers.iter().map(text).sum::<usize>());
    }
    Ok(())
}

fn main() {
    frame::main(vec![
        Prop { id: "U01", rule: "a case parses one text under a counting allocator; distinct by text",
            work: vec![Workload { name: "mutated", n: [6, 20_000, 1_000_000], f: u01 }, Workload { name: "text", n: [4, 10_000, 500_000], f: u01_text }, Workload { name: "reject", n: [3, 6000, 200_000], f: u01_reject }, Workload { name: "long", n: [1, 64, 1000], f: u01_long }],
            floors: &[("accepted", 1000), ("rejected", 1000), ("must_reject", 1000), ("long", 32)],
            assumptions: &["heap bound: 1 MiB + 400 bytes per character", "time bound: the supervisor's CPU limit per case"] },
        Prop { id: "U02", rule: "a case parses one link with one to four topics; distinct by text",
            work: vec![Workload { name: "topics", n: [6, 60_000, 2_000_000], f: u02 }],
            floors: &[("hex_topics", 2000), ("base32_topics", 2000), ("other_topics", 1000), ("bad_topics", 2000), ("padded_topics", 1000), ("accepted", 2000), ("rejected", 2000), ("printed", 2000)], assumptions: &[] },
        Prop { id: "U03", rule: "a case parses one link assembled from up to 30 parameters; distinct by text",
            work: vec![Workload { name: "parameters", n: [5, 60_000, 600_000], f: u03 }, Workload { name: "prefilled", n: [5, 12_000, 300_000], f: u03_prefilled }, Workload { name: "large", n: [2, 1600, 20_000], f: u03_large }],
            floors: &[("trackers", 2000), ("web_seeds", 1000), ("names", 1000), ("peers", 1000), ("nodes", 1000), ("unknown_params", 1000), ("bad_peers", 200), ("bad_nodes", 200), ("nodes_without_colon", 200), ("accepted", 2000), ("links_into_filled", 5000), ("tiers_missing", 500), ("tiers_surplus", 500)],
            assumptions: &["parameter texts are valid UTF-8"] },
        Prop { id: "U04", rule: "a case parses one link with one to four file selections; distinct by text",
            work: vec![Workload { name: "selections", n: [5, 12_000, 600_000], f: u04 }, Workload { name: "prefilled", n: [4, 6000, 200_000], f: u04_prefilled }],
            floors: &[("indices", 3000), ("ranges", 2000), ("inverted", 500), ("empty_tokens", 500), ("open_tokens", 500), ("out_of_range", 500), ("foreign_characters", 100), ("accepted", 3000), ("several_selections", 500), ("selections_into_filled", 2000)],
            assumptions: &["a machine word has 64 bits"] },
        Prop { id: "U05", rule: "a case parses one link with known faults and compares the error with the first of them; distinct by text",
            work: vec![Workload { name: "faults", n: [5, 15_000, 900_000], f: u05 }, Workload { name: "no_magnet", n: [4, 6000, 200_000], f: u05_not }],
            floors: &[("InvalidInfoHash", 2000), ("ParseEndpoint", 1000), ("ParseInt", 2000), ("MissingInfoHash", 1000), ("InvalidUrl", 1500), ("UnsupportedUrlProtocol", 1500), ("unfitting_selections", 1000)],
            assumptions: &["what is a URL is the url crate's matter: the texts used have no scheme, or another one, beyond doubt"] },
        Prop { id: "T01", rule: "a case parses one generated or mutated torrent file; distinct by content",
            work: vec![Workload { name: "torrents", n: [5, 60_000, 600_000], f: t01 }, Workload { name: "any", n: [4, 60_000, 600_000], f: t01_any }, Workload { name: "large", n: [2, 3000, 30_000], f: t01_large }],
            floors: &[("accepted_single", 1000), ("accepted_directory", 500), ("rejected", 1000), ("files", 2000), ("large", 1000)],
            assumptions: &["URLs are judged by the url crate, which the repository uses for them", "Unix path rules"] },
        Prop { id: "T02", rule: "a case parses one torrent file with ordinary and hostile names; distinct by content",
            work: vec![Workload { name: "hostile", n: [6, 120_000, 1_000_000], f: t02 }],
            floors: &[("hostile_rejected", 1000), ("paths", 2000), ("kept", 1000)], assumptions: &["Unix path rules"] },
        Prop { id: "L01", rule: "a case splits or trims one byte string (short: a block of 200); distinct by string and separator",
            work: vec![Workload { name: "split", n: [6, 300_000, 3_000_000], f: l01 }, Workload { name: "trim", n: [5, 150_000, 1_000_000], f: l01_trim }, Workload { name: "short", n: [1, 110, 440], f: l01_short }, Workload { name: "large", n: [2, 2000, 20_000], f: l01_large }],
            floors: &[("quoted", 2000), ("unterminated", 300), ("separator_found", 2000), ("no_separator", 1000), ("trimmed", 1000), ("trimmed_empty", 500)], assumptions: &[] },
        Prop { id: "L02", rule: "a case decodes one encoding or one candidate text; distinct by text",
            work: vec![Workload { name: "percent", n: [4, 80_000, 1_000_000], f: l02_percent }, Workload { name: "percent_junk", n: [5, 100_000, 1_000_000], f: l02_junk }, Workload { name: "base32", n: [4, 80_000, 1_000_000], f: l02_base32 }, Workload { name: "base32_any", n: [5, 80_000, 1_000_000], f: l02_any }, Workload { name: "large", n: [3, 1800, 20_000], f: l02_large }],
            floors: &[("round_trips", 3000), ("text", 1000), ("not_text", 1000), ("accepted", 1000), ("rejected", 1000), ("padded", 1000), ("unpadded", 1000), ("foreign", 1000), ("garbage_rejected", 500)], assumptions: &[] },
        Prop { id: "X01", rule: "root: a case parses links, torrent files and texts that differ in little, in several orders and from several threads; distinct by links",
            work: vec![Workload { name: "root_calls", n: [3, 1500, 80_000], f: x01 }],
            floors: &[], assumptions: &[] },
        Prop { id: "M01", rule: "", work: vec![Workload { name: "misuse", n: [4, 12_000, 200_000], f: misuse }], floors: &[], assumptions: &[] },
    ]);
}
