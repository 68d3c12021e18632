//! C01 / C02: the parser against the reference parser.
use crate::refparse::{self, RDoc, RSec};
use ass_core::parser::ast::{Section, Span};
use ass_core::parser::Script;
use mc_common::*;

fn within<'a>(src: &'a str, s: &str) -> Option<std::ops::Range<usize>> {
    let (a, b) = (src.as_ptr() as usize, s.as_ptr() as usize);
    (b >= a && b + s.len() <= a + src.len()).then(|| b - a..b - a + s.len())
}

fn line_of(src: &str, off: usize) -> usize {
    1 + src.as_bytes()[..off].iter().filter(|&&b| b == b'\n').count()
}

/// Every slice, span, line and column of one item.
fn item(src: &str, what: &str, span: Span, texts: &[&str]) -> Result<(), String> {
    if !(span.start <= span.end && span.end <= src.len() && src.is_char_boundary(span.start) && src.is_char_boundary(span.end)) {
        return Err(format!("{what}: span {span:?} is not a slice of the source (len {})", src.len()));
    }
    if span.line as usize != line_of(src, span.start) {
        return Err(format!("{what}: span {span:?} says line {}, but offset {} is on line {}", span.line, span.start, line_of(src, span.start)));
    }
    let ls = src[..span.start].rfind('\n').map_or(0, |i| i + 1);
    // columns are counted in bytes from the line start (1-based)
    let col = span.start - ls + 1;
    if what != "script info" && span.column as usize != col {
        return Err(format!("{what}: span {span:?} says column {}, but offset {} is column {col}", span.column, span.start));
    }
    for t in texts {
        if t.is_empty() {
            continue;
        }
        match within(src, t) {
            None => return Err(format!("{what}: {t:?} is not a slice of the source")),
            Some(r) => {
                if r.start < span.start || r.end > span.end {
                    return Err(format!("{what}: text {t:?} at {r:?} lies outside the item span {span:?}"));
                }
            }
        }
    }
    Ok(())
}

pub fn check_zero_copy(src: &str, s: &Script) -> Result<(), String> {
    if s.source() != src {
        return Err("source() differs".into());
    }
    for sec in s.sections() {
        match sec {
            Section::ScriptInfo(i) => {
                let mut t: Vec<&str> = vec![];
                for (k, v) in &i.fields {
                    t.extend([*k, *v]);
                }
                // the section span starts behind the header line
                item(src, "script info", i.span, &t)?;
            }
            Section::Styles(v) => {
                for s in v {
                    let t = [s.name, s.fontname, s.fontsize, s.primary_colour, s.secondary_colour, s.outline_colour, s.back_colour,
                        s.bold, s.italic, s.underline, s.strikeout, s.scale_x, s.scale_y, s.spacing, s.angle, s.border_style, s.outline,
                        s.shadow, s.alignment, s.margin_l, s.margin_r, s.margin_v, s.encoding, s.margin_t.unwrap_or(""),
                        s.margin_b.unwrap_or(""), s.relative_to.unwrap_or(""), s.parent.unwrap_or("")];
                    item(src, "style", s.span, &t)?;
                }
            }
            Section::Events(v) => {
                for e in v {
                    let t = [e.layer, e.start, e.end, e.style, e.name, e.margin_l, e.margin_r, e.margin_v, e.effect, e.text,
                        e.margin_t.unwrap_or(""), e.margin_b.unwrap_or("")];
                    item(src, "event", e.span, &t)?;
                }
            }
            Section::Fonts(v) => {
                for f in v {
                    let mut t = f.data_lines.clone();
                    t.push(f.filename);
                    item(src, "font", f.span, &t)?;
                }
            }
            Section::Graphics(v) => {
                for f in v {
                    let mut t = f.data_lines.clone();
                    t.push(f.filename);
                    item(src, "graphic", f.span, &t)?;
                }
            }
        }
    }
    let nlines = src.split('\n').count();
    for i in s.issues() {
        if i.line < 1 || i.line > nlines {
            return Err(format!("issue {:?} reported on line {} of {nlines}", i.message, i.line));
        }
        if let Some((a, b)) = i.span {
            if a > b || b > src.len() {
                return Err(format!("issue span {a}..{b} outside source"));
            }
        }
    }
    // structural queries agree with the spans
    for sec in s.sections() {
        if let Some(sp) = sec.span() {
            if sp.start < sp.end {
                let hit = s.section_at_offset(sp.start);
                if !hit.is_some_and(|h| h.span().is_some_and(|x| x.contains(sp.start))) {
                    return Err(format!("section_at_offset({}) misses {:?}", sp.start, sec.section_type()));
                }
            }
        }
    }
    for (i, (ty, r)) in s.section_boundaries().into_iter().enumerate() {
        let with_span: Vec<_> = s.sections().iter().filter(|x| x.span().is_some()).collect();
        let x = with_span.get(i).ok_or("section_boundaries too long")?;
        if x.section_type() != ty || x.span().map(|p| p.start..p.end) != Some(r) {
            return Err("section_boundaries disagrees with spans".into());
        }
    }
    Ok(())
}

/// The real parse in the reference representation.
pub fn observe(s: &Script) -> RDoc {
    use crate::refparse::{REvent, RMedia, RStyle};
    let o = |x: Option<&str>| x.map(str::to_string);
    let y = |x: &str| Some(x.to_string());
    let secs = s.sections().iter().map(|sec| match sec {
        Section::ScriptInfo(i) => RSec::Info(i.fields.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()),
        Section::Styles(v) => RSec::Styles(v.iter().map(|s| RStyle {
            line: s.span.line as usize,
            parent: o(s.parent),
            cols: vec![y(s.name), y(s.fontname), y(s.fontsize), y(s.primary_colour), y(s.secondary_colour), y(s.outline_colour), y(s.back_colour),
                y(s.bold), y(s.italic), y(s.underline), y(s.strikeout), y(s.scale_x), y(s.scale_y), y(s.spacing), y(s.angle), y(s.border_style),
                y(s.outline), y(s.shadow), y(s.alignment), y(s.margin_l), y(s.margin_r), y(s.margin_v), y(s.encoding), o(s.margin_t), o(s.margin_b), o(s.relative_to)],
        }).collect()),
        Section::Events(v) => RSec::Events(v.iter().map(|e| REvent {
            line: e.span.line as usize,
            kind: e.event_type.as_str(),
            cols: vec![y(e.layer), y(e.start), y(e.end), y(e.style), y(e.name), y(e.margin_l), y(e.margin_r), y(e.margin_v), y(e.effect), y(e.text), o(e.margin_t), o(e.margin_b)],
        }).collect()),
        Section::Fonts(v) => RSec::Fonts(v.iter().map(|f| RMedia { line: f.span.line as usize, name: f.filename.to_string(), data: f.data_lines.iter().map(|s| s.to_string()).collect() }).collect()),
        Section::Graphics(v) => RSec::Graphics(v.iter().map(|f| RMedia { line: f.span.line as usize, name: f.filename.to_string(), data: f.data_lines.iter().map(|s| s.to_string()).collect() }).collect()),
    }).collect();
    let mut problems: Vec<usize> = s.issues().iter().filter(|i| i.severity != ass_core::parser::IssueSeverity::Info).map(|i| i.line).collect();
    problems.sort();
    problems.dedup();
    use ass_core::ScriptVersion::*;
    RDoc {
        secs,
        problems,
        script_type: Some(match s.version() { SsaV4 => "v4.00", AssV4 => "v4.00+", AssV4Plus => "v4.00++" }.to_string()),
        mixed_formats: false,
        styles_format: s.styles_format().map(|f| f.iter().map(|x| x.to_string()).collect()),
        events_format: s.events_format().map(|f| f.iter().map(|x| x.to_string()).collect()),
    }
}

pub fn expect(src: &str) -> RDoc {
    let mut r = refparse::parse(src);
    r.script_type = Some(match r.script_type.as_deref() {
        Some("v4.00") => "v4.00",
        Some("v4.00++" | "v4.00+ extended") => "v4.00++",
        _ => "v4.00+",
    }.to_string());
    r.problems.sort();
    r.problems.dedup();
    r.mixed_formats = false;
    r
}

fn check(run: &Run, src: &str, full: bool) -> Result<(), String> {
    let ctx = |e: String| format!("source {src:?}\n{e}");
    let s = guard(|| Script::parse(src)).map_err(|p| ctx(format!("panic: {p}")))?.map_err(|e| ctx(format!("parse error {e}")))?;
    check_zero_copy(src, &s).map_err(ctx)?;
    if full {
        let (got, want) = (observe(&s), expect(src));
        if got.secs != want.secs {
            return Err(ctx(format!("sections differ\n got  {:?}\n want {:?}", got.secs, want.secs)));
        }
        if got.problems != want.problems {
            return Err(ctx(format!("reported problem lines {:?}, expected {:?}: {:?}", got.problems, want.problems, s.issues())));
        }
        if got != want {
            return Err(ctx(format!("version/format differ\n got  {:?} {:?} {:?}\n want {:?} {:?} {:?}", got.script_type, got.styles_format, got.events_format, want.script_type, want.styles_format, want.events_format)));
        }
        run.state(&got.secs);
    } else {
        run.state(&observe(&s));
    }
    run.steps(src.split('\n').count() as u64);
    Ok(())
}

pub const CHARS: [&str; 17] = ["a", "\n", "[", "]", ":", ",", " ", ";", "\r\n", "é", "*", "\u{feff}", "{", "\\N", "[Events]", "Dialogue:", "fontname: x\n"];

pub const LINES: [&str; 30] = [
    "[Events]",
    "Dialogue: 0,0:00:00.00,0:00:01.00,Default,,0,0,0,,a, b",
    "[V4+ Styles]",
    "Style: D,Arial,20,&H1,&H2,&H3,&H4,0,0,0,0,100,100,0,0,1,2,2,2,10,10,10,1",
    "[Script Info]",
    "Title: x: y",
    "[Fonts]",
    "fontname: f.ttf",
    "!DATA1",
    "",
    "; note",
    "junk",
    "Format: Start, End, Text",
    "Comment: 5,0:00:00.00,0:00:01.00,",
    "Format: Text, Layer",
    "Format: Fontname, Name",
    "Style: *P,A1,B2",
    "[Graphics]",
    "filename: g.bmp",
    "[Unknown]",
    "[unclosed",
    " [Events] x\r",
    "# hash",
    "ScriptType: v4.00",
    "  Movie: 1 , 2 , 3 \r",
    "![DATA2]é",
    ";DATA3",
    "Picture: \u{e9},\u{3bb}",
    "Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginT, MarginB, Effect, Text",
    "Dialogue: 1,2,3,4,5,6,7,8,9,10,t,u",
];

const PREFIX: [&str; 5] = ["", "\u{feff}[Script Info]\r\nTitle: z\r\n\r\n[V4 Styles]\r\nFormat: Name, Fontname\r\nStyle: q,r\r\n", "\n\n; c\n[Events]\nFormat: Start, End, Text\n", "[Fonts]\nfontname: a\nXX\n", "\n  [ Script Info ]\n\n;x\n"];

pub fn lines_doc(p: usize, seq: &[usize], final_nl: bool) -> String {
    let mut s = PREFIX[p].to_string();
    s += &seq.iter().map(|&i| LINES[i]).collect::<Vec<_>>().join("\n");
    if final_nl {
        s.push('\n');
    }
    s
}

pub fn c01(run: &Run) {
    run.rule("every string over a 17-symbol grammar-relevant alphabet and every document of a bounded number of lines over a 30-line alphabet behind 5 prefixes, parsed by the real parser; a state is a distinct parse result");
    run.assume("inputs below the 50 MB limit; columns are counted in bytes");
    let n = run.pick(6, 7);
    run.sample(format!("{:?}", string_at(&CHARS, seq_count(CHARS.len(), n) - 12345)));
    run.stage("chars", seq_count(CHARS.len(), n), |i| check(run, &string_at(&CHARS, i), false));
    let d = run.pick(4, 5);
    let per = seq_count(LINES.len(), d);
    run.sample(lines_doc(2, &seq_at(LINES.len(), per / 2), true));
    run.stage("lines", per * 10, |i| {
        let (s, k) = (i / 10, (i % 10) as usize);
        check(run, &lines_doc(k / 2, &seq_at(LINES.len(), s), k % 2 == 0), true)
    });
}

pub fn c02(run: &Run) {
    run.rule("every document of a bounded number of lines over a 30-line alphabet of headers, formats, entries and damage behind 5 prefixes, compared entry by entry with a line-oriented reference parser; a state is a distinct list of sections");
    run.assume("within sections '!:' comment lines are outside the alphabet");
    let d = run.pick(4, 5);
    let per = seq_count(LINES.len(), d);
    run.sample(lines_doc(1, &seq_at(LINES.len(), per / 3), true));
    run.stage("lines", per * 10, |i| {
        let (s, k) = (i / 10, (i % 10) as usize);
        check(run, &lines_doc(k / 2, &seq_at(LINES.len(), s), k % 2 == 0), true)
    });
    // deeper, single context
    let d = run.pick(5, 6);
    let core = 20; // first 20 lines of the alphabet
    run.stage("deep", seq_count(core, d), |i| check(run, &lines_doc(0, &seq_at(core, i), true), true));
    // character-level documents: the reference decides these too
    let n = run.pick(6, 7);
    run.stage("chars", seq_count(CHARS.len(), n), |i| check(run, &string_at(&CHARS, i), true));
}
