//! Alphabets: systematic families of byte strings.

/// A fixed pseudo-random looking base string of length n with no repeated structure.
pub fn base(n: usize, salt: u8) -> Vec<u8> {
    let mut x: u32 = 0x9E3779B9 ^ ((salt as u32) << 24) ^ 0x1234567;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            b"abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-_"[(x >> 7) as usize & 63]
        })
        .collect()
}

/// Small strings chosen to collide under concatenation, trimming, case folding, NUL termination,
/// padding, separator confusion and UTF-8 validation.
pub fn tricky() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for s in [
        &b""[..], b"a", b"b", b"A", b"ab", b"ba", b"aa", b"abc", b"bc", b"c", b" ", b"a ", b" a", b"a\n", b"\n",
        b"\0", b"a\0", b"\0a", b"\0\0", b":", b"a:", b":a", b"a:b", b"a:b:c", b"::", b"\xff", b"\xff\xff", b"\x80",
        b"a\xff", b"\x01", b"\x02", b"\x7f", b"\xc3\xa9", b"e\xcc\x81", b"\r\n", b"\t", b"None", b"null", b"0",
        b"00", b"1", b"idA", b"idB", b"idS", b"SPAKE2 pw", b"password", b"Password", b"passwore",
    ] {
        v.push(s.to_vec());
    }
    v
}

/// Lengths around the interesting block boundaries (hash blocks, buffers).
pub fn lengths(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=max).collect();
    for l in [127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 65537] {
        if l > max {
            v.push(l)
        }
    }
    v
}

/// All single-edit neighbours of `s`: flip lowest / highest / case bit at every position, delete at
/// every position (bounded), append and prepend selected bytes.
pub fn neighbours(s: &[u8]) -> Vec<(String, Vec<u8>)> {
    let mut o = vec![];
    for i in 0..s.len() {
        for bit in [0x01u8, 0x20, 0x80] {
            let mut t = s.to_vec();
            t[i] ^= bit;
            o.push((format!("flip{i}.{bit:02x}"), t));
        }
    }
    if !s.is_empty() {
        let mut t = s.to_vec();
        t.pop();
        o.push(("pop".into(), t));
        o.push(("cut".into(), s[1..].to_vec()));
        let mut t = s.to_vec();
        t.reverse();
        if t != s {
            o.push(("rev".into(), t));
        }
    }
    for c in [0u8, b' ', b'\n', b'a', b':', 0xff] {
        let mut t = s.to_vec();
        t.push(c);
        o.push((format!("app{c:02x}"), t));
        let mut t = vec![c];
        t.extend_from_slice(s);
        if t[..s.len()] != *s || s.is_empty() {
            o.push((format!("pre{c:02x}"), t));
        }
    }
    let mut t = s.to_vec();
    t.extend_from_slice(s);
    if !s.is_empty() {
        o.push(("dup".into(), t));
    }
    o.retain(|(_, t)| t != s);
    o
}

/// Texts that programs are tempted to clean up, decode, normalise or interpret.
pub fn specials() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    // Unicode: byte order mark, spaces, invisible characters, case pairs, compositions, compatibility forms, other scripts
    for s in [
        "\u{feff}", "\u{a0}", "\u{ad}", "\u{200b}", "\u{200d}", "\u{200e}", "\u{2060}", "\u{3000}", "\u{2003}", "\u{85}", "\u{2028}", "\u{1680}", "\u{180e}",
        "\u{c4}", "\u{e4}", "A\u{308}", "\u{df}", "\u{1e9e}", "ss", "\u{17f}", "\u{130}", "\u{131}", "i\u{307}", "\u{3a3}", "\u{3c3}", "\u{3c2}", "\u{410}", "\u{430}",
        "\u{fb01}", "\u{ff21}", "\u{ff41}", "\u{212a}", "\u{2126}", "\u{3a9}", "\u{2460}", "\u{b2}", "\u{bd}", "\u{1f600}", "\u{fffd}", "\u{10ffff}", "\u{7f}", "\u{80}", "\u{e000}",
        "\u{5d0}", "\u{627}", "\u{660}", "\u{2019}", "\u{201c}", "\u{2013}", "\u{2026}", "\u{e9}", "e\u{301}", "\u{1100}\u{1161}", "\u{ac00}",
    ] {
        v.push(s.as_bytes().to_vec());
    }
    for s in [
        // not UTF-8: surrogates, overlong forms, lone bytes, UTF-16
        &b"\xed\xa0\x80"[..], b"\xc0\x80", b"\xe0\x80\xaf", b"\xf4\x90\x80\x80", b"\xe9", b"\xc3", b"\xff\xfea\0", b"\xfe\xff\0a", b"a\0b\0",
        // escapes and encodings
        b"%41", b"%00", b"%", b"%zz", b"+", b"a+b", b"\\n", b"\\0", b"\\x41", b"\\u0041", b"\\", b"\\\\", b"&amp;", b"&#65;", b"=41", b"=", b"\"a\"", b"'a'", b"`a`", b"(a)", b"[a]", b"<a>", b"{a}", b"{}", b"{0}",
        b"${a}", b"$a", b"$", b"$a$b", b"%s", b"%d", b"61", b"0x61", b"YQ==", b"YQ", b"YWJj", b"data:a",
        // names with parts
        b"a@b", b"A@B.COM", b"a+tag@b.com", b"a.b@b.com", b"DOM\\a", b"dom/a", b"cn=a,dc=b", b"a,b", b"a;b", b"a/b", b"a|b", b"a=b", b"a&b", b"#a", b"a#b", b"~a", b"a*", b"a?", b"a!", b"../a", b"./a", b"/a", b"a/", b"//", b"--", b"-a", b"_a", b"a_b", b"a-b", b"a.b", b".", b"..", b"@", b"a b", b"a  b", b" a b ", b"a\tb",
        b"a\nb", b"a\rb", b"a\r\nb", b"a\r\n", b"a\x0bb", b"a\x1bb", b"\x1b[0m", b"a\x08", b"\x00a\x00", b"a:b", b"a::b", b"a: b",
        // numbers and words
        b"007", b"7", b"+7", b"-7", b"7.0", b"1e3", b"1000", b"1_000", b"true", b"True", b"NULL", b"nil", b"undefined", b"NaN", b"admin", b"Admin", b"root", b"anonymous", b"guest", b"test", b"user", b"default", b"unknown", b"*",
        // formats of hashes, salts and parameters
        b"$scrypt$ln=1$c2FsdA$", b"$6$salt$hash", b"m=1,t=2", b"ln=15,r=8,p=1", b"ristretto255", b"Ed25519", b"salt", b"c2FsdHNhbHQ", b"symmetric", b"M", b"N", b"S",
        b"aaaaaaaa", b"abababab", b"        ", b"\0\0\0\0\0\0\0\0", b"\xff\xff\xff\xff\xff\xff\xff\xff",
    ] {
        v.push(s.to_vec());
    }
    v
}
/// characters of two, three and four bytes at every alignment
pub fn multibyte() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for u in ["\u{e9}", "\u{20ac}", "\u{1f600}"] {
        for n in (1..=70).chain([127, 128, 129, 255, 256, 257]) {
            for p in ["", "x", "xy", "xyz"] {
                v.push(format!("{p}{}", u.repeat(n)).into_bytes());
            }
        }
    }
    v
}
/// the specials and all single bytes: alone, first, last, and inside a short and a longer text
pub fn texts() -> Vec<Vec<u8>> {
    let mut one = specials();
    one.extend((0..=255u8).map(|b| vec![b]));
    let mut v = vec![];
    for s in &one {
        for (a, b) in [("", ""), ("x", ""), ("", "x"), ("x", "Y"), ("someone with a longer ", " and more of it")] {
            v.push([a.as_bytes(), s, b.as_bytes()].concat());
        }
    }
    v.extend(multibyte());
    v.sort();
    v.dedup();
    v
}
/// ways in which a program may treat a text, by number; None when there are no more
fn treat(n: usize, t: &[u8]) -> Option<Vec<u8>> {
    let s = || String::from_utf8_lossy(t).into_owned();
    let utf = |f: &dyn Fn(&str) -> String| f(&s()).into_bytes();
    let keep = |f: &dyn Fn(u8) -> bool| t.iter().copied().filter(|b| f(*b)).collect::<Vec<u8>>();
    let map = |f: &dyn Fn(u8) -> u8| t.iter().map(|b| f(*b)).collect::<Vec<u8>>();
    const PUNCT: &[u8] = b"\0\n\r\t :@/\\,;#+%=&|$*?!.-_~^<>[]{}()\"'`";
    const FIXED: usize = 40;
    if n >= FIXED {
        let (k, how) = ((n - FIXED) / 5, (n - FIXED) % 5);
        let c = *PUNCT.get(k)?;
        let first = t.iter().position(|b| *b == c);
        let last = t.iter().rposition(|b| *b == c);
        return Some(match (how, first, last) {
            (0, Some(i), _) => t[..i].to_vec(),
            (1, Some(i), _) => t[i + 1..].to_vec(),
            (2, _, Some(i)) => t[..i].to_vec(),
            (3, _, Some(i)) => t[i + 1..].to_vec(),
            (4, _, _) => keep(&|b| b != c),
            _ => t.to_vec(),
        });
    }
    Some(match n {
        0 => utf(&|s| s.to_string()),
        1 => utf(&|s| s.trim().to_string()),
        2 => utf(&|s| s.trim_start().to_string()),
        3 => utf(&|s| s.trim_end().to_string()),
        4 => utf(&|s| s.to_lowercase()),
        5 => utf(&|s| s.to_uppercase()),
        6 => t.to_ascii_lowercase(),
        7 => t.to_ascii_uppercase(),
        8 => keep(&|b| b.is_ascii()),
        9 => keep(&|b| b.is_ascii_alphanumeric()),
        10 => keep(&|b| !b.is_ascii_control()),
        11 => keep(&|b| b.is_ascii_graphic()),
        12 => keep(&|b| !b.is_ascii_whitespace()),
        13 => keep(&|b| !b.is_ascii_digit()),
        14 => map(&|b| b & 0x7f),
        15 => map(&|b| if b.is_ascii_graphic() { b } else { b'?' }),
        16 => map(&|b| if b.is_ascii_graphic() { b } else { b'_' }),
        17 => utf(&|s| s.replace("\r\n", "\n")),
        18 => utf(&|s| s.replace('\n', "\r\n")),
        19 => utf(&|s| s.split_whitespace().collect::<Vec<_>>().join(" ")),
        20 => utf(&|s| s.trim_start_matches('\u{feff}').to_string()),
        21 => utf(&|s| s.chars().filter(|c| !matches!(*c, '\u{ad}' | '\u{200b}'..='\u{200f}' | '\u{2060}' | '\u{feff}' | '\u{180e}')).collect()),
        22 => utf(&|s| s.chars().map(|c| if c.is_whitespace() { ' ' } else { c }).collect()),
        23 => utf(&|s| s.chars().filter(|c| c.is_alphanumeric()).collect()),
        // latin-1 as UTF-8 and back
        24 => t.iter().map(|b| *b as char).collect::<String>().into_bytes(),
        25 => utf(&|s| s.chars().map(|c| if (c as u32) < 256 { c } else { '?' }).collect()),
        // decodings
        26 => {
            let mut o = vec![];
            let mut i = 0;
            while i < t.len() {
                let h = t.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
                match (t[i], h) {
                    (b'%', Some(b)) => {
                        o.push(b);
                        i += 3
                    }
                    (b, _) => {
                        o.push(b);
                        i += 1
                    }
                }
            }
            o
        }
        27 => map(&|b| if b == b'+' { b' ' } else { b }),
        28 => utf(&|s| s.replace("\\n", "\n").replace("\\0", "\0").replace("\\\\", "\\")),
        29 => utf(&|s| s.replace("&amp;", "&")),
        30 => {
            let q = t.len() >= 2 && t[0] == t[t.len() - 1] && matches!(t[0], b'"' | b'\'' | b'`');
            if q { t[1..t.len() - 1].to_vec() } else { t.to_vec() }
        }
        31 => utf(&|s| s.parse::<i64>().map(|n| n.to_string()).unwrap_or_else(|_| s.to_string())),
        32 => utf(&|s| u8::from_str_radix(s.trim_start_matches("0x"), 16).map(|b| (b as char).to_string()).unwrap_or_else(|_| s.to_string())),
        33 => utf(&|s| s.trim_end_matches('=').to_string()),
        34 => utf(&|s| s.replace('\u{df}', "ss").replace('\u{fb01}', "fi").replace('\u{212a}', "K").replace('\u{2126}', "\u{3a9}").replace('\u{b2}', "2")),
        35 => utf(&|s| s.replace("e\u{301}", "\u{e9}").replace("A\u{308}", "\u{c4}").replace("\u{1100}\u{1161}", "\u{ac00}")),
        36 => utf(&|s| s.chars().map(|c| match c as u32 { 0xff01..=0xff5e => char::from_u32(c as u32 - 0xfee0).unwrap_or(c), _ => c }).collect()),
        37 => t.iter().rev().copied().collect(),
        38 => {
            let z = t.iter().take_while(|b| **b == 0).count();
            t[z..].to_vec()
        }
        _ => {
            let z = t.iter().rev().take_while(|b| **b == 0).count();
            t[..t.len() - z].to_vec()
        }
    })
}
/// pairs of different texts of which the second is what some treatment makes of the first
pub fn twins() -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut v = vec![];
    for s in specials() {
        for (a, b) in [("", ""), ("x", "Y"), ("", "Y"), ("x", "")] {
            let t = [a.as_bytes(), &s, b.as_bytes()].concat();
            let mut n = 0;
            while let Some(u) = treat(n, &t) {
                if u != t {
                    v.push((t.clone(), u));
                }
                n += 1;
            }
        }
    }
    v.extend(encoded());
    v.extend(prehashed(&digests()));
    v.sort();
    v.dedup();
    v
}
/// the texts and all members of the pairs
pub fn all_texts() -> Vec<Vec<u8>> {
    let mut v = texts();
    v.extend(twins().into_iter().flat_map(|(a, b)| [a, b]));
    v.sort();
    v.dedup();
    v
}
fn hex(t: &[u8], upper: bool) -> Vec<u8> {
    t.iter().map(|b| if upper { format!("{b:02X}") } else { format!("{b:02x}") }).collect::<String>().into_bytes()
}
fn base64(t: &[u8], url: bool, pad: bool) -> Vec<u8> {
    let abc: Vec<u8> = (b'A'..=b'Z').chain(b'a'..=b'z').chain(b'0'..=b'9').chain(if url { *b"-_" } else { *b"+/" }).collect();
    let mut o = vec![];
    for c in t.chunks(3) {
        let n = (0..3).fold(0u32, |a, i| a << 8 | *c.get(i).unwrap_or(&0) as u32);
        for i in 0..4 {
            if i <= c.len() {
                o.push(abc[(n >> (18 - 6 * i)) as usize & 63])
            } else if pad {
                o.push(b'=')
            }
        }
    }
    o
}
fn forms(t: &[u8]) -> Vec<Vec<u8>> {
    vec![t.to_vec(), hex(t, false), hex(t, true), base64(t, false, true), base64(t, false, false), base64(t, true, true), base64(t, true, false)]
}
/// the same bytes in other transfer forms: text encodings, length prefixes, framing, doubled, turned round
pub fn reframed(m: &[u8]) -> Vec<Vec<u8>> {
    let n = m.len();
    let mut v: Vec<Vec<u8>> = forms(m).split_off(1);
    for p in [
        &b"0x"[..], b"\0", b"\n", b" ", b"\r\n", b"\x04", b"\x58", b"\xef\xbb\xbf", b"{b64}",
        &[n as u8], &[4, n as u8], &[0x58, n as u8], &(n as u16).to_be_bytes(), &(n as u16).to_le_bytes(),
        &(n as u32).to_be_bytes(), &(n as u32).to_le_bytes(), &(n as u64).to_be_bytes(), &(n as u64).to_le_bytes(),
    ] {
        v.push([p, m].concat());
        v.push([m, p].concat());
        v.push([p, &hex(m, false)[..]].concat());
    }
    v.push([m, m].concat());
    v.push([b"\"", m, b"\""].concat());
    v.push([&b"\""[..], &hex(m, false), b"\""].concat());
    v.push(m.iter().rev().copied().collect());
    v.push(m.iter().map(|b| !b).collect());
    v.push(m.iter().map(|b| b.reverse_bits()).collect());
    v.push(m.chunks(4).flat_map(|c| c.iter().rev().copied().collect::<Vec<_>>()).collect());
    v.push(m.iter().flat_map(|b| char::from(*b).to_string().into_bytes()).collect());
    v.push(format!("{m:?}").into_bytes());
    v.push(m.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(",").into_bytes());
    v.push(m.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(":").into_bytes());
    v.push(m.iter().map(|b| format!("{b:02X}")).collect::<Vec<_>>().join(" ").into_bytes());
    for k in 1..=4.min(n) {
        v.push(m[k..].to_vec());
        v.push(m[..n - k].to_vec());
        v.push([&m[k..], &m[..k]].concat());
    }
    v.retain(|x| x != m);
    v
}
/// texts and their encodings, and texts that a program may reduce to an essential part
pub fn encoded() -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut v = vec![];
    for t in [&b"a"[..], b"ab", b"abc", b"abcd", b"alice@example.org", b"\xff\xfe\xfd\xfc", b"0123456789abcdef", b"0123456789abcdef0123456789abcdef", &base(64, 3), &base(33, 4), b"\0", b"\0\0\0\0"] {
        for f in forms(t) {
            if f != t {
                v.push((f.clone(), t.to_vec()));
                v.push(([b"0x", &f[..]].concat(), t.to_vec()));
                v.push(([b"{b64}", &f[..]].concat(), t.to_vec()));
            }
        }
    }
    for (a, b) in [
        ("someone+tag@example.org", "someone@example.org"),
        ("some.one@example.org", "someone@example.org"),
        ("someone@EXAMPLE.ORG", "someone@example.org"),
        ("someone@example.org.", "someone@example.org"),
        ("someone@googlemail.com", "someone@gmail.com"),
        ("Someone <someone@example.org>", "someone@example.org"),
        ("mailto:someone@example.org", "someone@example.org"),
        ("EXAMPLE\\someone", "someone@EXAMPLE"),
        ("acct:someone@example.org", "someone@example.org"),
        ("someone", "someone@localhost"),
        ("r\u{e9}sum\u{e9}", "resume"),
        ("\u{661}\u{662}\u{663}", "123"),
        ("aaaa", "a"),
        ("abababab", "ab"),
        ("passwordpassword", "password"),
        ("a--b", "a-b"),
        ("a//b", "a/b"),
        ("a/./b", "a/b"),
        ("a/../b", "b"),
        ("1.0", "1"),
        ("01", "1"),
        ("1,000", "1000"),
        ("+49 170 1234567", "+491701234567"),
        ("00491701234567", "+491701234567"),
        ("user_1", "user1"),
        ("O", "0"),
        ("l", "1"),
        ("\u{430}lice", "alice"),
    ] {
        v.push((a.as_bytes().to_vec(), b.as_bytes().to_vec()));
    }
    v
}
/// a digest by name
pub type NamedDigest = (&'static str, fn(&[u8]) -> Vec<u8>);
/// digests a program may take of a text that seems too long to it
pub fn digests() -> Vec<NamedDigest> {
    use sha2::Digest;
    fn tagged(i: u32, t: &[u8]) -> Vec<u8> {
        sha2::Sha512::new().chain_update(i.to_le_bytes()).chain_update(t).finalize().to_vec()
    }
    vec![
        ("sha256", |t| sha2::Sha256::digest(t).to_vec()),
        ("sha512", |t| sha2::Sha512::digest(t).to_vec()),
        ("sha384", |t| sha2::Sha384::digest(t).to_vec()),
        ("sha512/32", |t| sha2::Sha512::digest(t)[..32].to_vec()),
        ("sha256 twice", |t| sha2::Sha256::digest(sha2::Sha256::digest(t)).to_vec()),
        ("H0", |t| tagged(0, t)),
        ("H1", |t| tagged(1, t)),
        ("H2", |t| tagged(2, t)),
        ("H5", |t| tagged(5, t)),
    ]
}
/// texts of awkward lengths and their digests
pub fn prehashed(d: &[NamedDigest]) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut v = vec![];
    for n in [0usize, 1, 16, 31, 32, 33, 55, 56, 57, 63, 64, 65, 66, 71, 72, 73, 100, 127, 128, 129, 130, 200, 255, 256, 257, 500, 1000] {
        for (_, h) in d {
            let t = base(n, 9);
            for f in forms(&h(&t)) {
                v.push((t.clone(), f));
            }
        }
    }
    v
}
