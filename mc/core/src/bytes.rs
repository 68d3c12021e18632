//! C14: what the byte and text helpers make of any input.
use ass_core::parser::{IssueCategory, Script};
use ass_core::utils::errors::encoding::{validate_ass_text_content, validate_bom_handling, validate_utf8_detailed};
use ass_core::utils::utf8::*;
use ass_core::utils::{CoreError, Spans};
use mc_common::*;

/// One step through bytes, by the table of well-formed sequences: the next
/// character, or the length of the longest ill-formed part, and whether it
/// only lacks its end.
enum Unit {
    Char(char, usize),
    Bad(usize, bool),
}

fn unit(b: &[u8]) -> Unit {
    let cont = |lead: u8, at: usize| match (lead, at) {
        (0xE0, 1) => 0xA0..=0xBF,
        (0xED, 1) => 0x80..=0x9F,
        (0xF0, 1) => 0x90..=0xBF,
        (0xF4, 1) => 0x80..=0x8F,
        _ => 0x80..=0xBFu8,
    };
    let n = match b[0] {
        0..=0x7F => 1,
        0xC2..=0xDF => 2,
        0xE0..=0xEF => 3,
        0xF0..=0xF4 => 4,
        _ => return Unit::Bad(1, false),
    };
    for i in 1..n {
        match b.get(i) {
            None => return Unit::Bad(i, true),
            Some(x) if !cont(b[0], i).contains(x) => return Unit::Bad(i, false),
            _ => {}
        }
    }
    let first = if n == 1 { b[0] as u32 } else { b[0] as u32 & (0x7F >> n) };
    let v = b[1..n].iter().fold(first, |a, &x| a << 6 | (x as u32 & 0x3F));
    Unit::Char(char::from_u32(v).unwrap(), n)
}

fn bom(b: &[u8]) -> Option<(BomType, usize)> {
    let sig: [(&[u8], BomType); 5] = [
        (b"\xFF\xFE\0\0", BomType::Utf32Le), (b"\0\0\xFE\xFF", BomType::Utf32Be), (b"\xEF\xBB\xBF", BomType::Utf8),
        (b"\xFF\xFE", BomType::Utf16Le), (b"\xFE\xFF", BomType::Utf16Be),
    ];
    sig.iter().find(|(s, _)| b.starts_with(s)).map(|&(s, t)| (t, s.len()))
}

fn check_bytes(b: &[u8], run: &Run) -> Result<(), String> {
    let (mut text, mut bad, mut first, mut i) = (String::new(), 0usize, None, 0);
    while i < b.len() {
        match unit(&b[i..]) {
            Unit::Char(c, n) => { text.push(c); i += n }
            Unit::Bad(n, open) => {
                first.get_or_insert((i, (!open).then_some(n)));
                text.push('\u{FFFD}');
                bad += 1;
                i += n
            }
        }
    }
    for (name, f) in [("validate_utf8", validate_utf8 as fn(&[u8]) -> _), ("validate_utf8_detailed", validate_utf8_detailed)] {
        match (f(b), first) {
            (Ok(()), None) => {}
            (Err(CoreError::Utf8Error { position, message }), Some((at, len))) if position == at => {
                let has = |n: usize| message.split(|c: char| !c.is_ascii_digit()).any(|w| w == n.to_string());
                if !has(at) || len.is_some_and(|n| !has(n)) || len.is_none() != message.contains("ncomplete") {
                    return Err(format!("{name}({b:02x?}) says {message:?}; first bad at {at}, {len:?} bytes"));
                }
            }
            (got, want) => return Err(format!("{name}({b:02x?}) = {got:?}, first bad part: {want:?}")),
        }
    }
    let got = recover_utf8(b);
    if got.0 != text || got.1 != bad {
        return Err(format!("recover_utf8({b:02x?}) = {got:?}, expected {text:?} with {bad} replacements"));
    }
    let n = text.chars().filter(|&c| c == '\u{FFFD}').count();
    if count_replacement_chars(&text) != n {
        return Err(format!("count_replacement_chars({text:?}) = {}", count_replacement_chars(&text)));
    }
    let mark = bom(b);
    if detect_bom(b) != mark {
        return Err(format!("detect_bom({b:02x?}) = {:?}, expected {mark:?}", detect_bom(b)));
    }
    let e = detect_encoding(b);
    let right = match mark {
        Some((t, n)) => e.has_bom && e.bom_type == Some(t) && e.encoding == t.encoding_name() && t.len() == n && t.signature() == &b[..n] && e.confidence == 1.0,
        None => !e.has_bom && e.bom_type.is_none() && (e.encoding == "UTF-8") == (bad == 0) && e.confidence > 0.0 && e.confidence < 1.0,
    };
    if !right { return Err(format!("detect_encoding({b:02x?}) = {e:?}; mark {mark:?}, {bad} bad parts")) }
    // a warning is due for a foreign mark, and for a first character that begins as the UTF-8 mark
    // does and is broken, or was and is replaced
    let warn = match mark {
        Some((BomType::Utf8, _)) => None,
        Some((BomType::Utf16Le | BomType::Utf16Be, _)) => Some("UTF-16"),
        Some(_) => Some("UTF-32"),
        None if b.first() == Some(&0xEF) && (first.is_some_and(|f| f.0 == 0) || text.starts_with('\u{FFFD}')) => Some(""),
        None => None,
    };
    match (validate_bom_handling(b), warn) {
        (Ok(()), None) => {}
        (Err(CoreError::Validation(m)), Some(w)) if m.contains(w) => {}
        (got, _) => return Err(format!("validate_bom_handling({b:02x?}) = {got:?}, expected {warn:?}")),
    }
    run.steps(8);
    Ok(())
}

/// `\r\n`, `\r` and `\n` each end a line.
fn lines(t: &str) -> String {
    let (mut out, mut cr) = (String::new(), false);
    for c in t.chars() {
        match c {
            '\n' if cr => {}
            '\r' | '\n' => out.push('\n'),
            c => out.push(c),
        }
        cr = c == '\r';
    }
    out
}

fn check_text(t: &str, run: &Run) -> Result<(), String> {
    let eq = |what: &str, got: &str, want: &str| if got == want { Ok(()) } else { Err(format!("{what}({t:?}) = {got:?}, expected {want:?}")) };
    let n = normalize_line_endings(t);
    eq("normalize_line_endings", &n, &lines(t))?;
    eq("normalize_line_endings twice", &normalize_line_endings(&n), &n)?;
    let kept = |c: char| !(c < ' ' || ('\u{7f}'..='\u{9f}').contains(&c)) || matches!(c, '\n' | '\t' | '\r');
    let clean: String = t.chars().filter(|&c| kept(c)).collect();
    eq("remove_control_chars", &remove_control_chars(t), &clean)?;
    if is_valid_ass_text(t) != (clean == t) {
        return Err(format!("is_valid_ass_text({t:?}) = {}, without control characters: {clean:?}", is_valid_ass_text(t)));
    }
    match (validate_ass_text_content(t), t.char_indices().find(|&(_, c)| !kept(c))) {
        (Ok(()), None) => {}
        (Err(CoreError::Validation(m)), Some((p, c))) if m.ends_with(&format!(" {p}")) && m.contains(&format!("{:04X}", c as u32)) => {}
        (got, want) => return Err(format!("validate_ass_text_content({t:?}) = {got:?}, first bad: {want:?}")),
    }
    if !t.contains('\r') {
        let spaced: String = t.chars().map(|c| if c.is_whitespace() && c != '\n' && c != '\t' { ' ' } else { c }).collect();
        eq("normalize_whitespace", &normalize_whitespace(t, false), &spaced)?;
        let mut one = spaced.clone();
        while one.contains("  ") { one = one.replace("  ", " ") }
        eq("normalize_whitespace, collapsing", &normalize_whitespace(t, true), &one)?;
        let mut l: Vec<&str> = t.split('\n').map(str::trim).collect();
        let got = trim_lines(t);
        // a last line end may stay or go
        if got != l.join("\n") {
            if l.last() == Some(&"") && t.ends_with(['\n']) || t.is_empty() { l.pop(); }
            eq("trim_lines", &got, &l.join("\n"))?;
        }
    }
    let (s, had) = strip_bom(t);
    let want = t.strip_prefix('\u{FEFF}');
    if had != want.is_some() || s != want.unwrap_or(t) {
        return Err(format!("strip_bom({t:?}) = {:?}", (s, had)));
    }
    for max in 0..=t.len() + 2 {
        let (s, cut) = truncate_at_char_boundary(t, max);
        let mut want = 0;
        for c in t.chars() {
            if want + c.len_utf8() > max { break }
            want += c.len_utf8();
        }
        if s != &t[..want] || cut != (want < t.len()) {
            return Err(format!("truncate_at_char_boundary({t:?}, {max}) = {:?}", (s, cut)));
        }
        run.steps(1);
    }
    // a copy that is no part of the source, and every part of it
    let spans = Spans::new(t);
    let other = format!(" {t} ");
    if spans.validate_span(&other) || spans.span_offset(&other).is_some() || spans.span_line(&other).is_some() {
        return Err(format!("a copy of {t:?} counts as part of it"));
    }
    for a in 0..=t.len() {
        for b in a..=t.len() + 1 {
            let Some(part) = t.get(a..b) else {
                if spans.substring(a..b).is_some() { return Err(format!("substring({t:?}, {a}..{b}) exists")) }
                continue
            };
            let line = t[..a].matches('\n').count() + 1;
            let col = t[..a].rsplit('\n').next().unwrap().chars().count() + 1;
            let got = (spans.validate_span(part), spans.span_offset(part), spans.span_line(part), spans.span_column(part), spans.substring(a..b));
            if got != (true, Some(a), Some(line), Some(col), Some(part)) {
                return Err(format!("part {a}..{b} of {t:?} is placed at {got:?}, expected line {line}, column {col}"));
            }
        }
    }
    Ok(())
}

/// The parser warns about a mark only where a replacement character may stand for one.
fn check_parse(t: &str) -> Result<(), String> {
    let s = Script::parse(t).map_err(|e| e.to_string())?;
    let got = s.issues().iter().any(|i| i.message.contains("BOM") && i.category == IssueCategory::Format);
    if got != t.starts_with('\u{FFFD}') {
        return Err(format!("parsing {t:?} has the issues {:?}", s.issues()));
    }
    Ok(())
}

const MARKERS: [&str; 10] = ["[Script Info]", "[V4+ Styles]", "[Events]", "[Fonts]", "[Graphics]", "Dialogue:", "Comment:", "ScriptType:", "PlayRes", "Style:"];

fn check_likely(t: &str) -> Result<(), String> {
    let want = MARKERS.iter().any(|m| t.contains(m));
    let e = detect_encoding(t.as_bytes());
    if is_likely_ass_content(t) != want || e.encoding != "UTF-8" || (e.confidence > 0.9) != want {
        return Err(format!("{t:?} looks like a script: {}, {e:?}; expected {want}", is_likely_ass_content(t)));
    }
    Ok(())
}

pub fn c14(run: &Run) {
    run.rule("every string of up to 3 bytes, every longer one over an alphabet of byte classes up to the bound, every text over an alphabet of character classes up to the bound with every cut and part of it; each result compared with a direct reading of the encoding");
    const SIZES: [u64; 4] = [1, 256, 65_536, 1 << 24];
    run.stage("any-bytes", (SIZES[0] + SIZES[1] + SIZES[2] + SIZES[3]) / 256 + 1, |k| {
        for mut i in k * 256..(k + 1) * 256 {
            let mut len = 0;
            while len < 4 && i >= SIZES[len] { i -= SIZES[len]; len += 1 }
            if len == 4 { break }
            let b: Vec<u8> = (0..len).rev().map(|p| (i >> (8 * p)) as u8).collect();
            check_bytes(&b, run)?;
        }
        Ok(())
    });
    const ALPHA: [u8; 22] = [b'a', 0, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBB, 0xBD, 0xBF, 0xC1, 0xC2, 0xE0, 0xE2, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFE, 0xFF];
    let n = seq_count(22, run.pick(5, 6));
    run.stage("byte-classes", n.div_ceil(64), |k| {
        for i in k * 64..((k + 1) * 64).min(n) {
            let b: Vec<u8> = seq_at(22, i).into_iter().map(|s| ALPHA[s]).collect();
            check_bytes(&b, run)?;
            if i % 64 == 0 { run.state(&recover_utf8(&b)); }
        }
        Ok(())
    });
    const CHARS: [&str; 19] = ["a", " ", "\n", "\r", "\t", "é", "世", "\0", "\u{7f}", "\u{1f}", "\u{85}", "\u{a0}", "\u{2003}", "\u{2028}", "\u{200b}", "\u{3000}", "\u{FEFF}", "\u{FFFD}", "🎵"];
    run.stage("texts", seq_count(CHARS.len(), run.pick(4, 5)), |i| {
        let t = string_at(&CHARS, i);
        run.state(&t);
        run.traces(1);
        check_bytes(t.as_bytes(), run)?;
        check_text(&t, run)
    });
    const HEADS: [&str; 12] = ["", "\u{FEFF}", "\u{FEC0}", "\u{FEFE}", "\u{FF01}", "\u{F000}", "\u{FFFD}", "\u{FFFF}", "ÿþ", "a", "\0\0", "🎵"];
    const BODY: [&str; 4] = ["", "\n", "[Script Info]\nTitle: a\n", "; x\n[Events]\n"];
    run.stage("first-characters", (HEADS.len() * BODY.len()) as u64, |i| {
        let t = format!("{}{}", HEADS[i as usize / 4], BODY[i as usize % 4]);
        check_bytes(t.as_bytes(), run)?;
        check_text(&t, run)?;
        check_parse(&t)
    });
    // a marker whole, with any one character left out, doubled or replaced, behind and before others
    run.stage("script-markers", (MARKERS.len() * 16 * 4) as u64, |i| {
        let v = mixed(&[MARKERS.len(), 16, 4], i);
        let m = MARKERS[v[0]];
        if v[1] > m.len() { return Ok(()) }
        let word = match v[1] {
            0 => m.to_string(),
            p => format!("{}{}{}", &m[..p - 1], ["", "x", &m[p - 1..p].to_lowercase(), " "][v[2]], &m[p..]),
        };
        for ctx in ["{}", "世{}", "a\r\n{}b", "[]{}\0"] {
            check_likely(&ctx.replace("{}", &word))?;
        }
        Ok(())
    });
}
