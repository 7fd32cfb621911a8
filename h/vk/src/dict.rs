//! Literals of the code under test, as material for generators (the way a
//! fuzzer's dictionary is): texts it may compare with, sizes it may count to.
use std::path::Path;

#[derive(Default, Debug, Clone)]
pub struct Dict {
    pub texts: Vec<String>,
    pub ints: Vec<u64>,
    pub idents: Vec<String>,
}
impl Dict {
    /// From the Rust files under these folders, in a fixed order.
    pub fn of(dirs: &[&str]) -> Dict {
        let mut d = Dict::default();
        for x in dirs {
            d.walk(Path::new(x));
        }
        d.texts.sort();
        d.texts.dedup();
        d.ints.sort();
        d.ints.dedup();
        d.idents.sort();
        d.idents.dedup();
        d
    }
    fn walk(&mut self, p: &Path) {
        if let Ok(r) = std::fs::read_dir(p) {
            let mut v: Vec<_> = r.filter_map(|e| e.ok()).map(|e| e.path()).collect();
            v.sort();
            v.iter().for_each(|p| self.walk(p));
        } else if p.extension().is_some_and(|e| e == "rs") {
            if let Ok(s) = std::fs::read_to_string(p) {
                self.lex(&s);
            }
        }
    }
    fn text(&mut self, s: String) {
        if s.is_empty() || s.len() > 200 {
            return;
        }
        // the fixed parts of format strings
        if s.contains(['{', '}']) {
            for part in s.split(['{', '}']) {
                let part = part.trim();
                if !part.is_empty() && part != s {
                    self.texts.push(part.into());
                }
            }
        }
        self.texts.push(s);
    }
    /// A plain scan; what it misreads is merely odd material.
    pub fn lex(&mut self, src: &str) {
        let c: Vec<char> = src.chars().collect();
        let at = |i: usize| c.get(i).copied().unwrap_or('\0');
        let mut i = 0;
        // value of the literal just read and the operator after it
        let mut fold: Option<(u64, char)> = None;
        while i < c.len() {
            match at(i) {
                '/' if at(i + 1) == '/' => {
                    while i < c.len() && at(i) != '\n' {
                        i += 1;
                    }
                }
                '/' if at(i + 1) == '*' => {
                    i += 2;
                    while i < c.len() && !(at(i) == '*' && at(i + 1) == '/') {
                        i += 1;
                    }
                    i += 2;
                }
                'r' if (at(i + 1) == '"' || at(i + 1) == '#') && true => {
                    let mut j = i + 1;
                    while at(j) == '#' {
                        j += 1;
                    }
                    let n = j - i - 1;
                    if at(j) != '"' {
                        i += 1;
                        continue;
                    }
                    let start = j + 1;
                    j = start;
                    while j < c.len() && !(at(j) == '"' && (0..n).all(|k| at(j + 1 + k) == '#')) {
                        j += 1;
                    }
                    self.text(c[start..j.min(c.len())].iter().collect());
                    i = j + 1 + n;
                }
                '"' => {
                    let (s, j) = unescape(&c, i + 1, '"');
                    self.text(s);
                    i = j;
                }
                '\'' => {
                    // a character, or a lifetime
                    if at(i + 1) == '\\' || at(i + 2) == '\'' {
                        let (s, j) = unescape(&c, i + 1, '\'');
                        self.text(s);
                        i = j;
                    } else {
                        i += 1;
                    }
                }
                d if d.is_ascii_digit() && (i == 0 || !(at(i - 1).is_alphanumeric() || at(i - 1) == '_')) => {
                    let mut j = i;
                    while at(j).is_ascii_alphanumeric() || at(j) == '_' {
                        j += 1;
                    }
                    let t: String = c[i..j].iter().filter(|x| **x != '_').collect();
                    let (t, radix) = match t.get(..2) {
                        Some("0x") => (t[2..].to_string(), 16),
                        Some("0b") => (t[2..].to_string(), 2),
                        Some("0o") => (t[2..].to_string(), 8),
                        _ => (t, 10),
                    };
                    let digits: String = t.chars().take_while(|x| x.is_digit(radix)).collect();
                    let mut k = j;
                    while at(k) == ' ' {
                        k += 1;
                    }
                    let mut next = None;
                    if let Ok(mut n) = u64::from_str_radix(&digits, radix) {
                        self.ints.push(n);
                        if let Some((m, op)) = fold {
                            n = match op {
                                '*' => m.saturating_mul(n),
                                _ => m.checked_shl(n.min(63) as u32).unwrap_or(0),
                            };
                            self.ints.push(n);
                        }
                        if at(k) == '*' {
                            next = Some((n, '*'));
                            k += 1;
                        } else if at(k) == '<' && at(k + 1) == '<' {
                            next = Some((n, '<'));
                            k += 2;
                        }
                        while next.is_some() && at(k) == ' ' {
                            k += 1;
                        }
                    }
                    i = if next.is_some() { k } else { j };
                    fold = next;
                    continue;
                }
                a if a.is_alphabetic() || a == '_' => {
                    let mut j = i;
                    while at(j).is_alphanumeric() || at(j) == '_' {
                        j += 1;
                    }
                    self.idents.push(c[i..j].iter().collect());
                    i = j;
                }
                _ => i += 1,
            }
            fold = None;
        }
    }
    /// Lengths worth trying, up to a limit: around every number of the code
    /// (also read as KB or MB), and around powers of two and ten.
    pub fn sizes(&self, max: u64) -> Vec<u64> {
        let mut v = vec![0, 1, 2];
        let mut around = |n: u64| {
            for x in [n.saturating_sub(1), n, n.saturating_add(1)] {
                if x <= max {
                    v.push(x);
                }
            }
        };
        self.ints.iter().for_each(|n| [1, 1 << 10, 1 << 20].iter().for_each(|k| around(n.saturating_mul(*k))));
        (2..40).for_each(|k| around(1 << k));
        (1..12).for_each(|k| around(10u64.pow(k)));
        v.sort();
        v.dedup();
        v
    }
}

fn unescape(c: &[char], mut i: usize, end: char) -> (String, usize) {
    let mut s = String::new();
    while i < c.len() && c[i] != end {
        if c[i] != '\\' {
            s.push(c[i]);
            i += 1;
            continue;
        }
        i += 1;
        match c.get(i).copied().unwrap_or('\0') {
            'n' => s.push('\n'),
            't' => s.push('\t'),
            'r' => s.push('\r'),
            '0' => s.push('\0'),
            'x' => {
                let h: String = c.iter().skip(i + 1).take(2).collect();
                s.push(u8::from_str_radix(&h, 16).unwrap_or(0) as char);
                i += 2;
            }
            'u' => {
                let h: String = c.iter().skip(i + 2).take_while(|x| **x != '}').collect();
                s.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
                i += 2 + h.len();
            }
            '\n' => {
                while c.get(i + 1).is_some_and(|x| x.is_whitespace()) {
                    i += 1;
                }
            }
            x => s.push(x),
        }
        i += 1;
    }
    (s, i + 1)
}

/// Texts programs are known to treat specially.
pub const WORDS: &[&str] = &[
    "true", "false", "True", "null", "NULL", "None", "nil", "undefined", "NaN", "nan", "inf", "Infinity", "-Infinity", "yes", "no", "on", "off",
    "0", "-0", "00", "007", "+1", "-1", "1.0", "1.", ".5", "1e5", "1E+5", "0x10", "1_000", "1,000", "18446744073709551616", "9007199254740993", "-9223372036854775809",
    "http://", "https://", "https://h/x?y=z#f", "//h/x", "file:///etc", "mailto:a@b.c", "javascript:x", "urn:uuid:1", "a://b", "C:\\x", "~/x", "./x", "../x", "a/../b", "a/./b", "/a/", "a//b", "..", ".",
    "&amp;", "&lt;", "&#39;", "%u0041", "%00", "%2F", "%2f", "%252F", "%25", "%", "%%", "%zz", "%E2%82", "+", "++", "a+b", "a b", "a%20b", "a=b", "a&b", "a;b", "a,b", "a|b", "k=v&k2=v2", "[]", "a[]", "a[0]", "a[b]", "a.b", "{}", "{x}", "{{x}}", "${x}", "$x", "#", "?", "?x=1", "#f", "*", "**", "\\", "\\n", "\\u0041", "'", "\"", "\"x\"", "'x'", "`x`",
    "\r\n", "a\r\nb", "\n", "\t", " ", "  ", " a", "a ", "\u{a0}", "\u{200b}", "\u{feff}x", "\u{202e}x", "\0", "a\0b", "\u{7f}", "\u{85}", "\u{2028}",
    "é", "e\u{301}", "ß", "İ", "ı", "ſ", "Ǆ", "ﬀ", "Å", "\u{212b}", "漢字", "👨‍👩‍👧", "🦀", "\u{10ffff}", "\u{fffd}", "\u{d7ff}", "\u{e000}",
    "A", "aA", "ABC", "abc", "Abc", "aBc", "snake_case", "kebab-case", "CamelCase", "SCREAMING", "__", "_x", "x_", "-", "--", "-x", "--x", "x--y",
    "c2f7ae12-4a4c-4b13-9c8f-0d2a3b4c5d6e", "C2F7AE12-4A4C-4B13-9C8F-0D2A3B4C5D6E", "c2F7ae12-4A4c-4b13-9c8F-0d2A3b4c5D6e", "{c2f7ae12-4a4c-4b13-9c8f-0d2a3b4c5d6e}",
    "2020-02-29", "2020-02-30", "2020-02-29T23:59:60Z", "2020-02-29t01:02:03.004+05:30", "12:34:56", "P1D", "1700000000",
    "a@b.example", "user:pass@h", "127.0.0.1", "::1", "[::1]", "localhost", "example.com", "EXAMPLE.com", "xn--e1afmkfd", "h:80",
    "YWJj", "YWI=", "YQ==", "a-b_c", "_-", "deadbeef", "DEADBEEF", "0xDEADBEEF", "#fff",
    "{\"a\":1}", "[1,2]", "\"s\"", "<a>", "<a/>", "<!-- x -->", "]]>", "<?xml", "'; DROP TABLE x; --", "$(x)", "`x`", "| x", "> x", "a\\\"b", "//x", "/* x */", "%s", "%n", "{0}",
    "application/json", "text/html", "charset=utf-8", "utf-8", "gzip", "chunked", "close", "keep-alive", "upgrade", "websocket", "bearer", "Bearer x", "basic",
    "id", "name", "type", "value", "key", "page", "page_token", "next_page", "limit", "offset", "cursor", "filter", "sort", "sort_by", "q", "query", "search", "tags", "status", "error", "message", "request_id", "error_code", "data", "items", "body", "self", "default", "token", "password", "api_key", "version",
];
