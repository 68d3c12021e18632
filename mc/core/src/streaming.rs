//! C13: chunked parsing.
use ass_core::parser::streaming::{build_modified_source, LineProcessor, ParserState, SectionKind, StreamingParser};
use mc_common::*;

/// What a stream knows after some text: lines, section, state, formats.
type Seen = (usize, Option<SectionKind>, ParserState, Option<String>, Option<String>);

fn seen(p: &LineProcessor) -> Seen {
    let c = &p.context;
    (c.line_number, c.current_section, p.state.clone(), c.events_format.clone(), c.styles_format.clone())
}

/// Complete lines of a text; CR, LF and CRLF end a line.
fn lines(t: &str) -> (Vec<&str>, &str) {
    let mut v = vec![];
    let mut rest = t;
    while let Some(i) = rest.find(['\r', '\n']) {
        v.push(&rest[..i]);
        rest = if rest[i..].starts_with("\r\n") { &rest[i + 2..] } else { &rest[i + 1..] };
    }
    (v, rest)
}

fn reference(t: &str) -> Seen {
    let mut s: Seen = (0, None, ParserState::ExpectingSection, None, None);
    for l in lines(t).0 {
        s.0 += 1;
        let l = l.trim();
        if l.is_empty() || l.starts_with(';') || l.starts_with("!:") { continue }
        if l.starts_with('[') && l.ends_with(']') {
            let k = match l[1..l.len() - 1].trim() {
                "Script Info" => SectionKind::ScriptInfo,
                "V4+ Styles" | "V4 Styles" => SectionKind::Styles,
                "Events" => SectionKind::Events,
                "Fonts" => SectionKind::Fonts,
                "Graphics" => SectionKind::Graphics,
                _ => SectionKind::Unknown,
            };
            s.1 = Some(k);
            s.2 = ParserState::InSection(k);
            match k { SectionKind::Events => s.3 = None, SectionKind::Styles => s.4 = None, _ => {} }
            continue;
        }
        match s.2.clone() {
            ParserState::ExpectingSection => {}
            ParserState::InSection(k) => {
                let f = l.strip_prefix("Format:").map(|f| f.trim().to_string());
                match k {
                    SectionKind::Styles if f.is_some() => s.4 = f,
                    SectionKind::Events if f.is_some() => s.3 = f,
                    SectionKind::Events if l.starts_with("Dialogue:") || l.starts_with("Comment:") => s.2 = ParserState::InEvent { section: k, fields_seen: 0 },
                    _ => {}
                }
            }
            // the line after an event belongs to it
            ParserState::InEvent { section, .. } => s.2 = ParserState::InSection(section),
        }
    }
    s
}

/// Feeds the pieces; returns what is known after them and after finishing.
fn feed(pieces: &[&[u8]]) -> Result<(Seen, Vec<String>), String> {
    let mut p = StreamingParser::new();
    let mut deltas = 0;
    for c in pieces { deltas += p.feed_chunk(c).map_err(|e| e.to_string())?.len() }
    let s = seen(p.line_processor());
    let r = p.finish().map_err(|e| e.to_string())?;
    let mut v = r.sections().to_vec();
    v.push(format!("{deltas} deltas, {} issues, {:?}", r.issues().len(), r.version()));
    Ok((s, v))
}

fn check(run: &Run, t: &str, three: bool) -> Result<(), String> {
    let ctx = |m: String| format!("document {t:?}: {m}");
    let b = t.as_bytes();
    let want = reference(t);
    let run_one = |pieces: &[&[u8]]| guard(|| feed(pieces)).map_err(|p| format!("panic {p}"))?;
    let whole = run_one(&[b]).map_err(|e| ctx(format!("fed whole: {e}")))?;
    if whole.0 != want { return Err(ctx(format!("fed whole gives {:?}, expected {want:?}", whole.0))) }
    run.state(&format!("{want:?}"));
    for i in 0..=b.len() {
        let hi = if three { b.len() } else { i };
        for j in i..=hi {
            let r = run_one(&[&b[..i], &b[i..j], &b[j..]]).map_err(|e| ctx(format!("cut at {i} and {j}: {e}")))?;
            if r != whole { return Err(ctx(format!("cut at {i} and {j} gives {r:?}, whole {whole:?}"))) }
            run.steps(1);
        }
    }
    let bytes: Vec<&[u8]> = b.chunks(1).collect();
    if run_one(&bytes).map_err(|e| ctx(format!("byte by byte: {e}")))? != whole { return Err(ctx("byte by byte differs".into())) }
    // a parser that was reset starts afresh, wherever it was
    for i in 0..=b.len() {
        let mut p = StreamingParser::with_capacity(1);
        let _ = p.feed_chunk(&b[..i]);
        p.reset();
        p.feed_chunk(b).map_err(|e| ctx(format!("after reset at {i}: {e}")))?;
        if seen(p.line_processor()) != want { return Err(ctx(format!("after reset at {i}: {:?}", seen(p.line_processor())))) }
    }
    run.traces(1);
    Ok(())
}

pub fn c13(run: &Run) {
    run.rule("every document over a token alphabet, every cut into two (short ones: three) pieces and into single bytes, and a reset at every byte");
    run.assume("a stream is observed through its line processor (hook ass_verif): the parser delivers no entries yet, see known findings");
    run.finding("streaming-yields-nothing", || {
        let mut p = StreamingParser::new();
        let d = p.feed_chunk(b"[Script Info]\nTitle: x\n").unwrap().len();
        if d + p.finish().unwrap().sections().len() == 0 { Err("feeding a document with a [Script Info] section reports neither sections nor deltas".into()) } else { Ok(()) }
    });
    const T: [&str; 12] = ["[Events]", "[V4+ Styles]", "[é]", "Format: a, é", "Dialogue: 0", "Title: x", ";c", "\n", "\r\n", "\r", " ", "\u{1f600}"];
    run.stage("documents", seq_count(12, run.pick(5, 6)), |i| {
        let t = string_at(&T, i);
        check(run, &t, t.len() < run.pick(14, 24))
    });
    const L: [&str; 10] = ["[Script Info]", "[Events]", "[V4 Styles]", " [ Fonts ] ", "Format:Name", "Comment: é", "", "!: c", "[Ev", "x]"];
    const E: [&str; 3] = ["\n", "\r\n", "\r"];
    run.stage("lines", seq_count(10, run.pick(5, 6)) * 3, |i| {
        let v = seq_at(10, i / 3);
        let e = E[(i % 3) as usize];
        let t: String = v.iter().map(|&k| format!("{}{e}", L[k])).collect();
        check(run, &t, false)
    });
    // bytes that are no text are refused however they are cut
    const B: [&[u8]; 7] = [b"a", b"\n", "é".as_bytes(), b"\xc3", b"\xff", b"\xf0\x9f", "\u{1f600}".as_bytes()];
    run.stage("bytes", seq_count(7, run.pick(5, 6)), |i| {
        let b: Vec<u8> = seq_at(7, i).iter().flat_map(|&k| B[k].to_vec()).collect();
        let valid = std::str::from_utf8(&b).is_ok();
        for i in 0..=b.len() {
            for j in i..=b.len() {
                let r = guard(|| feed(&[&b[..i], &b[i..j], &b[j..]])).map_err(|p| format!("{b:?} cut at {i}, {j}: panic {p}"))?;
                if r.is_ok() != valid { return Err(format!("{b:?} cut at {i} and {j}: accepted is {}, valid is {valid}", r.is_ok())) }
                run.steps(1);
            }
        }
        Ok(())
    });
    const W: [&str; 5] = ["", "a", "é", "\r\n", "xyz"];
    run.stage("modified source", seq_count(5, 3) * 5, |i| {
        let t: String = seq_at(5, i / 5).iter().map(|&k| W[k]).collect();
        let r = W[(i % 5) as usize];
        for a in (0..=t.len()).filter(|&a| t.is_char_boundary(a)) {
            for b in (a..=t.len()).filter(|&b| t.is_char_boundary(b)) {
                let mut w = t.clone();
                w.replace_range(a..b, r);
                if guard(|| build_modified_source(&t, a..b, r))? != w { return Err(format!("build_modified_source({t:?}, {a}..{b}, {r:?})")) }
            }
        }
        Ok(())
    });
}
