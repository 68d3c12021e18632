//! C06: the tokenizer and its accelerated scanning routines.
use ass_core::tokenizer::simd::{parse_hex_u32, scan_delimiters, validate_utf8_batch};
use ass_core::tokenizer::{AssTokenizer, TokenType};
use mc_common::*;

#[derive(PartialEq, Eq, Debug, Clone)]
struct RTok {
    kind: &'static str,
    at: (usize, usize),
    line: usize,
    col: usize,
}

#[derive(Clone, Copy, PartialEq)]
enum Ctx {
    Doc,
    Header,
    Field,
    Override,
}

fn kind_name(k: TokenType) -> &'static str {
    match k {
        TokenType::Text => "text",
        TokenType::Number => "number",
        TokenType::HexValue => "hex",
        TokenType::Colon => "colon",
        TokenType::Comma => "comma",
        TokenType::Newline => "newline",
        TokenType::SectionClose => "close",
        TokenType::SectionHeader => "header",
        TokenType::OverrideClose => "oclose",
        TokenType::OverrideBlock => "override",
        TokenType::Comment => "comment",
        TokenType::Whitespace => "white",
        _ => "other",
    }
}

fn white(s: &str) -> bool {
    !s.is_empty() && s.chars().all(char::is_whitespace)
}

fn is_hex(s: &str) -> bool {
    s.strip_prefix("&H").is_some_and(|d| {
        let d = d.strip_suffix('&').unwrap_or(d);
        [2, 4, 6, 8].contains(&d.len()) && d.bytes().all(|b| b.is_ascii_hexdigit())
    })
}

/// The tokens of `src` by the character-at-a-time definition.
fn reference(src: &str) -> Vec<RTok> {
    let bom = if src.starts_with('\u{feff}') { 3 } else { 0 };
    let place = |p: usize| {
        // a line ends at "\n", "\r\n" or a lone "\r"; columns count characters
        let (mut line, mut col, mut prev) = (1, 1, ' ');
        for c in src[bom..p].chars() {
            match c {
                '\n' => { if prev != '\r' { line += 1 } col = 1 }
                '\r' => { line += 1; col = 1 }
                _ => col += 1,
            }
            prev = c;
        }
        (line, col)
    };
    let until = |from: usize, stop: &dyn Fn(char) -> bool| src[from..].find(stop).map_or(src.len(), |i| from + i);
    let mut out = vec![];
    let mut p = bom;
    let mut ctx = Ctx::Doc;
    loop {
        if ctx != Ctx::Field {
            p = until(p, &|c| !c.is_whitespace() || c == '\n' || c == '\r');
        }
        let Some(c) = src[p..].chars().next() else { return out };
        let one = p + c.len_utf8();
        let text = |stop: &dyn Fn(char) -> bool| {
            let e = until(p, stop);
            let s = &src[p..e];
            let k = if is_hex(s) {
                "hex"
            } else if s.chars().all(|c| c.is_ascii_digit() || ".-".contains(c)) {
                "number"
            } else if white(s) {
                "white"
            } else {
                "text"
            };
            (k, e)
        };
        let doc_stop = |c: char| ",:{}[];\n\r".contains(c);
        let (k, e) = match c {
            '[' => { ctx = Ctx::Header; ("header", until(one, &|c| c == ']')) }
            ']' if ctx == Ctx::Header => { ctx = Ctx::Doc; ("close", one) }
            ':' if ctx == Ctx::Doc => { ctx = Ctx::Field; ("colon", one) }
            '{' => {
                ctx = Ctx::Override;
                let mut depth = 1;
                let e = src[one..].char_indices().find(|(_, c)| {
                    depth += match c { '{' => 1, '}' => -1, _ => 0 };
                    depth == 0
                }).map_or(src.len(), |(i, _)| one + i);
                ("override", e)
            }
            '}' if ctx == Ctx::Override => { ctx = Ctx::Doc; ("oclose", one) }
            ',' => ("comma", one),
            '\n' | '\r' => { ctx = Ctx::Doc; ("newline", if src[p..].starts_with("\r\n") { p + 2 } else { one }) }
            ';' if ctx == Ctx::Doc => ("comment", until(p, &|c| c == '\n' || c == '\r')),
            '!' if ctx == Ctx::Doc && src[one..].starts_with(':') => ("comment", until(p, &|c| c == '\n' || c == '\r')),
            '}' | ']' => ("text", one),
            _ if ctx == Ctx::Field => {
                let e = until(p, &|c| ",\n\r{[".contains(c));
                let s = &src[p..e];
                let k = if s.chars().all(|c| c.is_ascii_digit() || ".-:".contains(c)) { "number" } else if white(s) { "white" } else { "text" };
                (k, e)
            }
            _ => text(&doc_stop),
        };
        let (line, col) = place(p);
        out.push(RTok { kind: k, at: (p, e), line, col });
        p = e;
    }
}

fn observe<'a>(src: &'a str, t: &mut AssTokenizer<'a>) -> Result<Vec<RTok>, String> {
    let mut out = vec![];
    let mut last = if src.starts_with('\u{feff}') { 3 } else { 0 };
    while let Some(k) = t.next_token().map_err(|e| format!("error {e} after {out:?}"))? {
        let at = k.span.as_ptr() as usize - src.as_ptr() as usize;
        let end = at + k.span.len();
        if src.get(at..end) != Some(k.span) || at < last || !(white(&src[last..at]) || at == last) {
            return Err(format!("token {:?} at {at}..{end} after offset {last}", k.span));
        }
        if t.position() != end {
            return Err(format!("position() is {} after the token {at}..{end}", t.position()));
        }
        last = end;
        out.push(RTok { kind: kind_name(k.token_type), at: (at, end), line: k.line, col: k.column });
        if out.len() > src.len() + 1 {
            return Err("more tokens than bytes".into());
        }
    }
    if last != src.len() && !white(&src[last..]) {
        return Err(format!("tokens end at {last}"));
    }
    Ok(out)
}

fn check_text(run: &Run, src: &str) -> Result<(), String> {
    let ctx = |m: String| format!("source {src:?}\n{m}");
    let want = reference(src);
    let mut t = AssTokenizer::new(src);
    let got = guard(|| observe(src, &mut t)).map_err(|p| ctx(format!("panic: {p}")))?.map_err(ctx)?;
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(ctx(format!("token {i}: {:?}, expected {:?}\nall {got:?}", got.get(i), want.get(i))));
    }
    run.steps(got.len() as u64);
    run.traces(1);
    let shape: Vec<_> = got.iter().map(|t| (t.kind, t.line, t.at.1 - t.at.0)).collect();
    run.state(&shape);
    t.reset();
    if t.line() != 1 || t.column() != 1 || !t.issues().is_empty() || guard(|| observe(src, &mut t))? != Ok(got.clone()) {
        return Err(ctx("different tokens after reset".into()));
    }
    t.reset();
    match t.tokenize_all() {
        // more than fifty tokens: refused by design of tokenize_all (pinned by the repository's tests)
        Err(_) if got.len() > 50 => {}
        Ok(v) if v.len() == got.len() && v.iter().zip(&got).all(|(a, b)| kind_name(a.token_type) == b.kind && a.span == &src[b.at.0..b.at.1] && (a.line, a.column) == (b.line, b.col)) => {}
        r => return Err(ctx(format!("tokenize_all gives {r:?}"))),
    }
    Ok(())
}

const SYMS: [&str; 19] = [
    "a", "\n", ":", " ", ",", "[", "]", "{", "}", ";", "1", "\r", "!", "é", "&H1F", "abcdefghijklmnop", "-", "\u{feff}", "\u{3000}",
];

fn is_delim(b: u8) -> bool {
    b":,{}[]\n\r".contains(&b)
}

pub fn c06(run: &Run) {
    run.rule("source texts over a 19-symbol alphabet, all lengths up to the bound; for the accelerated scanners every length up to 52 with one and two special bytes at every position");
    let n = seq_count(SYMS.len(), run.pick(5, 7));
    run.stage("texts", n, |i| check_text(run, &string_at(&SYMS, i)));
    // a longer text in front moves every construct across the vector boundaries
    const SH: [&str; 10] = [":", ",", "{", "}", "\n", "\r", ";", "é", "a", "["];
    let k = seq_count(SH.len(), run.pick(4, 5));
    run.stage("shifted", k * 34, |i| {
        let s = string_at(&SH, i / 34);
        let pad = "abcdefghijklmnopqrstuvwxyz012345xy";
        check_text(run, &format!("{}{s}{}", &pad[..(i % 34) as usize], &pad[..17]))
    });
    // every (length, position, byte) and every pair of delimiters
    run.stage("delimiters", 53 * 53 * 128, |i| {
        let d = mixed(&[53, 53, 128], i);
        if d[1] >= d[0] { return Ok(()) }
        for bg in [b'a', b';', 0x7f] {
            let mut v = vec![bg; d[0]];
            v[d[1]] = d[2] as u8;
            for second in (d[1] + 1..d[0]).step_by(1) {
                if d[2] % 16 != 10 && d[2] != 44 { break }
                let mut w = v.clone();
                w[second] = b'{';
                one_delim(std::str::from_utf8(&w).unwrap())?;
            }
            one_delim(std::str::from_utf8(&v).unwrap())?;
        }
        run.traces(1);
        Ok(())
    });
    run.stage("delimiters-unicode", 40 * 40 * 6, |i| {
        let d = mixed(&[40, 40, 6], i);
        // bytes of the continuation range resemble delimiters without their top bit
        let ch = ["é", "ຬ", "\u{bfba}", "𝄺", "»", "Ûä"][d[2]];
        let s = format!("{}{ch}{},{}", "x".repeat(d[0]), ch.repeat(d[1] % 5), ch.repeat(d[1] / 5));
        one_delim(&s)?;
        one_delim(&s.replace(',', ""))
    });
    fn one_delim(s: &str) -> Result<(), String> {
        let want = s.bytes().position(is_delim);
        let got = scan_delimiters(s);
        if got != want { return Err(format!("scan_delimiters({s:?}) = {got:?}, expected {want:?}")) }
        Ok(())
    }
    // hexadecimal
    let hex = |s: &str| -> Result<(), String> {
        let want = ((1..=8).contains(&s.len()) && s.bytes().all(|b| b.is_ascii_hexdigit()))
            .then(|| s.bytes().fold(0u32, |a, b| a * 16 + (b as char).to_digit(16).unwrap()));
        let got = parse_hex_u32(s);
        if got != want { return Err(format!("parse_hex_u32({s:?}) = {got:?}, expected {want:?}")) }
        Ok(())
    };
    const H: [&str; 15] = ["0", "9", "a", "f", "A", "F", "g", "G", "/", ":", "@", "`", "+", "-", "é"];
    run.stage("hex", seq_count(H.len(), run.pick(5, 6)), |i| hex(&string_at(&H, i)));
    run.stage("hex-long", 24 * 24 * 128 * 6, |i| {
        // lengths 1..=24, every position, every byte, over six backgrounds
        let d = mixed(&[24, 24, 128, 6], i);
        if d[1] > d[0] { return Ok(()) }
        let mut v = vec![b"09afAF"[d[3]]; d[0] + 1];
        v[d[1]] = d[2] as u8;
        hex(std::str::from_utf8(&v).unwrap())
    });
    // UTF-8
    const U: [&[u8]; 14] = [b"a", &[0xC3, 0xA9], &[0xC3], &[0xA9], &[0xE2, 0x82, 0xAC], &[0xE2, 0x82], &[0xED, 0xA0, 0x80], &[0xF0, 0x9F, 0x8E, 0xB5],
        &[0xF0, 0x9F], &[0xFF], &[0xC0, 0x80], &[0xF4, 0x90, 0x80, 0x80], b"\0", &[0x7f]];
    run.stage("utf8", seq_count(U.len(), run.pick(3, 4)) * 34, |i| {
        let mut v = b"the quick brown fox jumps over the lazy dog"[..(i % 34) as usize].to_vec();
        for k in seq_at(U.len(), i / 34) { v.extend(U[k]) }
        for tail in [0, 1, 15, 16] {
            let mut w = v.clone();
            w.extend(std::iter::repeat_n(b'z', tail));
            let want = std::str::from_utf8(&w).map(|_| ()).map_err(|e| e.valid_up_to());
            let got = validate_utf8_batch(&w);
            let at = |e: &ass_core::CoreError| match e { ass_core::CoreError::Utf8Error { position, .. } => *position, _ => usize::MAX };
            if got.as_ref().map(|_| ()).map_err(at) != want { return Err(format!("validate_utf8_batch({w:x?}) = {got:?}, expected {want:?}")) }
        }
        run.traces(1);
        Ok(())
    });
    run.assume("tokenize_all refuses more than fifty tokens (pinned by the repository's tests); longer token lists are checked through next_token");
}
