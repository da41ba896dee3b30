//! Strings, texts, characters and UTF-8 against Rust's str.
use crate::harness::*;

fn words_over(al: &[char], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = out.clone();
    for _ in 0..max {
        let mut nx = vec![];
        for s in &last {
            for c in al {
                nx.push(format!("{}{}", s, c));
            }
        }
        out.extend(nx.iter().cloned());
        last = nx;
    }
    out
}

fn debug(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match escape(c) {
            Some(e) => o.push_str(e),
            None => o.push(c),
        }
    }
    o + "\""
}
fn escape(c: char) -> Option<&'static str> {
    Some(match c {
        '\t' => "\\t",
        '\r' => "\\r",
        '\n' => "\\n",
        '"' => "\\\"",
        '\\' => "\\\\",
        _ => return None,
    })
}

trait Ex {
    fn es(&mut self, s: &str) -> &mut Self;
    fn end(&mut self) -> &mut Self;
}
impl Ex for Case {
    fn es(&mut self, s: &str) -> &mut Self {
        self.expect_blob(s.as_bytes())
    }
    fn end(&mut self) -> &mut Self {
        self.expect(&[1111111])
    }
}
fn ord(o: std::cmp::Ordering) -> u64 {
    (o as i8 + 1) as u64
}

fn basics(s: &str) -> Case {
    let mut c = Case::new();
    c.op(&[1]).blob(s.as_bytes());
    let n = s.len() as u64;
    c.expect(&[n, (n == 0) as u64]);
    for _ in 0..2 {
        c.exp.extend(s.bytes().map(|b| b as u64));
        c.end();
    }
    for ch in s.chars() {
        c.expect(&[ch as u64, ch.len_utf8() as u64, ch.is_ascii() as u64]);
    }
    c.end();
    for (i, ch) in s.char_indices() {
        c.expect(&[i as u64, ch as u64]);
    }
    c.end();
    for i in 0..s.len() + 3 {
        c.expect(&[s.is_char_boundary(i) as u64]);
    }
    c.es(s).es(s).expect(&[1]).es(s);
    c.es(&s.chars().rev().collect::<String>());
    for l in s.split_terminator('\n') {
        // a line ends at LF or CRLF; an unterminated last line keeps its CR
        c.free_line(l, s);
    }
    c.expect(&[1]).end();
    c.es(&debug(s));
    c.es(&format!("{}|{}", s, s));
    c.es(&format!("(text/from-string {})", debug(s)));
    c.expect(&[2 * n]);
    c.es(s).es(s).es(s).es(s).expect(&[1]).es(s);
    c.key = format!("string/{:?}", s);
    c.what = format!("basic operations on the string {:?}", s);
    c
}
impl Case {
    fn free_line(&mut self, l: &str, whole: &str) {
        let end = l.as_ptr() as usize + l.len() - whole.as_ptr() as usize;
        let l = if end < whole.len() { l.strip_suffix('\r').unwrap_or(l) } else { l };
        self.es(l);
    }
}

fn binary(a: &str, s: &str) -> Case {
    let mut c = Case::new();
    c.op(&[2]).blob(a.as_bytes()).blob(s.as_bytes());
    c.expect(&[s.starts_with(a) as u64, s.ends_with(a) as u64, s.contains(a) as u64]);
    c.expect_opt(s.find(a).map(|x| x as u64));
    if a.is_empty() {
        for ch in s.chars() {
            c.es(&ch.to_string());
        }
    } else {
        for p in s.split(a) {
            c.es(p);
        }
    }
    c.expect(&[1]).end();
    let (e, o) = ((a == s) as u64, ord(a.as_bytes().cmp(s.as_bytes())));
    c.expect(&[e, o, e, o]);
    c.es("").es(s).es(&[s, a, s].join(a)).es(&format!("{}{}", a, s));
    let (mut st, mut en) = (s, s);
    if !a.is_empty() {
        st = s.trim_start_matches(a);
        en = s.trim_end_matches(a);
    }
    c.es(st).es(en).expect(&[1]).es(a).es(s);
    c.key = if a.is_empty() { "string/empty-part".into() } else { format!("string/{:?}/{:?}", a, s) };
    c.what = format!("two-string operations (starts-with?, ends-with?, contains?, find?, split, eq?, compare, join, remove-start, remove-end) with {:?} on {:?}", a, s);
    c
}

fn replace(f: &str, t: &str, s: &str) -> Case {
    let mut c = Case::new();
    c.op(&[3]).blob(f.as_bytes()).blob(t.as_bytes()).blob(s.as_bytes());
    c.es(&s.replace(f, t));
    c.key = format!("replace/{:?}/{:?}/{:?}", f, t, s);
    c.what = format!("(string/replace {:?} {:?} {:?})", f, t, s);
    c
}

fn texts(o: &Opts, depth: usize) -> (Vec<Case>, Vec<Case>) {
    let (mut cases, mut stops) = (vec![], vec![]);
    const N: usize = 16;
    for start in ["", "a€𐍈"] {
        for code in 0..N.pow(depth as u32) {
            let mut c = Case::new();
            c.op(&[20]);
            let mut t = String::from(start);
            let mut u = String::new();
            let mut kept: Vec<String> = vec![];
            c.op(&[21]).blob(start.as_bytes());
            let mut x = code;
            let mut names = vec![];
            let mut stop = false;
            for _ in 0..depth {
                let k = x % N;
                x /= N;
                match k {
                    0..=2 => {
                        let s = ["", "b", "éx😀"][k];
                        names.push(format!("push! {:?}", s));
                        c.op(&[21]).blob(s.as_bytes());
                        t.push_str(s);
                    }
                    3..=6 => {
                        let ch = ['z', 'é', '€', '😀'][k - 3];
                        names.push(format!("put! {:?}", ch));
                        c.op(&[22, ch as u64]);
                        t.push(ch);
                    }
                    7..=9 => {
                        let n = [0, 1, t.len()][k - 7];
                        names.push(format!("consume! {}", n));
                        c.op(&[23, n as u64]);
                        if n > t.len() || !t.is_char_boundary(n) {
                            stop = true;
                            break;
                        }
                        kept.push(t.drain(..n).collect());
                    }
                    10 => {
                        names.push("consume-all!".into());
                        c.op(&[24]);
                        kept.push(std::mem::take(&mut t));
                    }
                    11 => {
                        names.push("copy-to-string".into());
                        c.op(&[25]);
                        kept.push(t.clone());
                    }
                    12 => {
                        names.push("move!".into());
                        c.op(&[26]);
                        u = std::mem::take(&mut t);
                    }
                    13 => {
                        names.push("shallow-copy".into());
                        c.op(&[27 + (code as u64 & 1)]);
                        u = t.clone();
                    }
                    14 => {
                        names.push("exchange".into());
                        c.op(&[29]);
                        std::mem::swap(&mut t, &mut u);
                    }
                    _ => {
                        names.push("display-all! \"ü\" #\\x 70".into());
                        c.op(&[31]).blob("ü".as_bytes()).op(&['x' as u64, 70]);
                        t.push_str("üx70");
                    }
                }
                c.op(&[30]);
                for s in &kept {
                    c.es(s);
                }
                c.expect(&[t.len() as u64, t.is_empty() as u64]).es(&t).es(&u);
                c.expect(&[(t == u) as u64, ord(t.as_bytes().cmp(u.as_bytes()))]);
            }
            c.key = format!("text/{:?}/{:?}", start, names);
            c.what = format!("text starting as {:?}: {:?}", start, names);
            if stop { stops.push(c) } else { cases.push(c) }
        }
    }
    if stops.len() > 300 && !o.thorough {
        let step = stops.len() / 300 + 1;
        stops = stops.into_iter().step_by(step).collect();
    }
    (cases, stops)
}

fn validity(o: &Opts, rep: &Report, exe: &str) {
    let cls: Vec<u8> = vec![0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xff];
    let mut seqs: Vec<Vec<u8>> = vec![];
    for l in 1..=4usize {
        for code in 0..cls.len().pow(l as u32) {
            seqs.push((0..l).map(|i| cls[code / cls.len().pow(i as u32) % cls.len()]).collect());
        }
    }
    for a in 0..=255u8 {
        seqs.push(vec![a]);
        for b in 0..=255u8 {
            seqs.push(vec![a, b]);
        }
    }
    let small = [0x41u8, 0x80, 0xbf, 0xc2, 0xe2, 0xf0, 0x90, 0x8d];
    for l in 5..=if o.thorough { 6usize } else { 5 } {
        for code in 0..small.len().pow(l as u32) {
            seqs.push((0..l).map(|i| small[code / small.len().pow(i as u32) % small.len()]).collect());
        }
    }
    let total = seqs.len();
    let mut cases = vec![];
    for l in 1..=6 {
        let of: Vec<_> = seqs.iter().filter(|s| s.len() == l).collect();
        for ch in of.chunks(512) {
            let mut c = Case::new();
            c.op(&[11, l as u64, ch.len() as u64]);
            for s in ch {
                c.op(&[s.iter().rev().fold(0u64, |a, b| a * 256 + *b as u64)]);
                c.expect(&[std::str::from_utf8(s).is_ok() as u64]);
            }
            c.key = format!("utf-8/validity/{:02x?}", ch[0]);
            c.what = format!("string/valid-sequence? of byte strings {:02x?} .. {:02x?} (expected words are the verdicts in order)", ch[0], ch[ch.len() - 1]);
            cases.push(c);
        }
    }
    for s in [&b"\xe2\x82\xac"[..], b"ab", b"\x80", b"a\xc2", b"\xed\xa0\x80", b"", b"\xf0\x9f\x98\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"x\xff"] {
        let mut c = Case::new();
        let ok = std::str::from_utf8(s).is_ok();
        c.op(&[4]).blob(s).expect(&[ok as u64, ok as u64]);
        if ok {
            c.expect_blob(s);
        }
        c.expect(&[ok as u64]);
        if ok {
            c.expect_blob(s);
        }
        c.key = format!("utf-8/from-bytes/{:02x?}", s);
        c.what = format!("from-bytes? of {:02x?}", s);
        cases.push(c);
    }
    // every code point: encoding and decoding
    let mut a = 0u32;
    while a < 0x110000 {
        let b = a + 0x400;
        if !(0xd800..0xe000).contains(&a) {
            let mut c = Case::new();
            c.op(&[12, a as u64, b as u64]);
            for n in a..b {
                let ch = char::from_u32(n).unwrap();
                c.expect(&[ch.len_utf8() as u64]).es(&ch.to_string()).expect(&[1, n as u64]).end();
            }
            c.key = format!("code-points/{:x}", a);
            c.what = format!("encoding and decoding the code points {:x}..{:x}", a, b);
            cases.push(c);
        }
        a = b;
    }
    // every code point, and numbers beyond: which are scalar values
    for (a, b, key) in [
        (1, 0xd800, "from-unicode-scalar/1..d7ff"),
        (0xd800, 0xe000, "from-unicode-scalar/surrogates"),
        (0xe000, 111412, "from-unicode-scalar/e000..1b333"),
        (111412, 0x110000, "from-unicode-scalar/1b334..10ffff"),
        (0x110000, 0x110400, "from-unicode-scalar/110000..1103ff"),
        (0xfffffc00u64, 0x100000000, "from-unicode-scalar/fffffc00..ffffffff"),
    ] {
        let mut c = Case::new();
        c.op(&[13, a, b]);
        for n in a..b {
            c.expect(&[char::from_u32(n as u32).map_or(0, |_| n)]);
        }
        c.key = key.into();
        c.what = format!("which of the numbers {:x}..{:x} are accepted as Unicode scalar values", a, b);
        cases.push(c);
    }
    let n = cases.len() as u64;
    run_cases(o, rep, exe, "utf-8", &cases);
    rep.cover(&format!("utf-8-{}", o.extra["variant"]), &[("states", total as u64 + 0x110100), ("transitions", total as u64 + 0x110100), ("traces_validated_against_impl", n)], &[]);
}

pub fn main(o: &Opts, rep: &Report) {
    let exe = &o.exes[0];
    let main_variant = o.extra["variant"] == "chibi" || o.thorough;
    let t = o.thorough;
    let uni = ['a', 'b', 'é', '€', '😀'];
    let mut cases = vec![];
    let mut seen = std::collections::HashSet::new();
    for s in words_over(&uni, if main_variant { 4 } else { 3 }).into_iter().chain(words_over(&['a', '\n', '\r', '€'], 5)).chain(words_over(&['"', '\\', '\t', 'n', '\0', '😀'], 3).into_iter().filter(|s| !s.contains('\0'))) {
        if seen.insert(s.clone()) {
            cases.push(basics(&s));
        }
    }
    let s4 = words_over(&['a', 'b', 'é', '😀'], if t { 5 } else { 4 });
    let p2 = words_over(&['a', 'b', 'é', '😀'], 2);
    for a in &p2 {
        for s in &s4 {
            cases.push(binary(a, s));
        }
    }
    let ab = words_over(&['a', 'b'], if t { 8 } else { 6 });
    for a in words_over(&['a', 'b'], 4) {
        for s in &ab {
            cases.push(binary(&a, s));
        }
    }
    let mut cmp: Vec<String> = words_over(&['a', '\u{7f}', 'é', '€', '😀', '\u{ffff}'], 2);
    cmp.extend(["aaaaaaaaa", "aaaaaaaab", "aaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaé", "aaaaaaaaaaaaaaaaaaaaaaaè"].map(String::from));
    for a in &cmp {
        for b in &cmp {
            cases.push(binary(a, b));
        }
    }
    let s3 = words_over(&['a', 'b', '€'], if t { 5 } else { 4 });
    for f in words_over(&['a', 'b', '€'], 2) {
        for to in ["", "a", "b€", "aa"] {
            for s in &s3 {
                cases.push(replace(&f, to, s));
            }
        }
    }
    // slicing, and its out-of-boundary calls
    let mut stops = vec![];
    for s in words_over(&['a', 'é', '😀'], 2).iter().map(|s| &s[..]).chain(["a€b", "€€"]) {
        let n = s.len();
        for i in 0..n + 2 {
            for j in 0..n + 2 {
                let mut c = Case::new();
                c.op(&[5, i as u64, j as u64]).blob(s.as_bytes());
                c.key = format!("substring/{}/{}/{:?}", i, j, s);
                c.what = c.key.clone();
                match s.get(i..j) {
                    Some(r) => {
                        c.es(r);
                        cases.push(c)
                    }
                    None => stops.push(c),
                }
            }
            for op in [6u64, 7, 8] {
                let mut c = Case::new();
                c.op(&[op, i as u64]).blob(s.as_bytes());
                c.key = format!("{}/{}/{:?}", ["take", "skip", "byte-at"][op as usize - 6], i, s);
                c.what = c.key.clone();
                if op == 8 {
                    match s.as_bytes().get(i) {
                        Some(b) => {
                            c.expect(&[*b as u64]);
                            cases.push(c)
                        }
                        None => stops.push(c),
                    }
                } else {
                    let k = i.min(n);
                    match if op == 6 { s.get(..k) } else { s.get(k..) } {
                        Some(r) => {
                            c.es(r);
                            cases.push(c)
                        }
                        None => stops.push(c),
                    }
                }
            }
        }
    }
    for b in [&b"\x80"[..], b"a\xc2", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xff"] {
        for op in [9, 10] {
            let mut c = Case::new();
            c.op(&[op]).blob(b);
            c.key = format!("from-bytes/{}/{:02x?}", op, b);
            c.what = c.key.clone();
            stops.push(c);
        }
    }
    let special: Vec<char> = (0..128u8).map(|b| b as char).chain(['é', '€', '😀']).collect();
    for ch in &special {
        let mut c = Case::new();
        c.op(&[40, *ch as u64]);
        match escape(*ch) {
            None => c.expect(&[0]),
            Some(e) => c.expect(&[1]).es(e),
        };
        let un = match ch {
            't' => Some('\t'),
            'r' => Some('\r'),
            'n' => Some('\n'),
            '"' => Some('"'),
            '\\' => Some('\\'),
            _ => None,
        };
        c.expect_opt(un.map(|c| c as u64));
        c.es(&format!("#\\{}", escape(*ch).map_or(ch.to_string(), String::from))).es(&ch.to_string());
        c.key = format!("char/{:?}", ch);
        c.what = c.key.clone();
        cases.push(c);
    }
    for a in ['\0', 'a', 'b', '\u{7f}', '\u{80}', '€', '\u{ffff}', '😀', '\u{10ffff}'] {
        for b in ['\0', 'a', 'b', '\u{7f}', '\u{80}', '€', '\u{ffff}', '😀', '\u{10ffff}'] {
            let mut c = Case::new();
            c.op(&[41, a as u64, b as u64]).expect(&[(a == b) as u64, ord(a.cmp(&b)), (a < b) as u64, (a <= b) as u64, (a > b) as u64, (a >= b) as u64]);
            c.key = format!("char/{:?}/{:?}", a, b);
            c.what = c.key.clone();
            cases.push(c);
        }
    }
    let (tc, ts) = texts(o, if t && main_variant { 5 } else if main_variant { 4 } else { 3 });
    let depth_states = tc.len();
    cases.extend(tc);
    stops.extend(ts);
    let n = cases.len() as u64;
    run_cases(o, rep, exe, &o.extra["variant"], &cases);
    if main_variant {
        run_stops(o, rep, exe, &o.extra["variant"], &stops);
    }
    rep.sample(&cases[cases.len() / 2].what);
    rep.cover(&format!("strings-{}", o.extra["variant"]), &[("states", n), ("transitions", n), ("traces_validated_against_impl", n), ("text_histories", depth_states as u64), ("must_stop_cases", stops.len() as u64)], &[]);
    validity(o, rep, exe);
}
