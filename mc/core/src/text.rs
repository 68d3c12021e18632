//! C08: event text analysis.
use ass_core::analysis::events::tags::{parse_override_block, parse_override_block_with_registry, DiagnosticKind};
use ass_core::analysis::events::{LineBreakType, TextAnalysis, TextWithLineBreaks};
use ass_core::plugin::{ExtensionRegistry, TagHandler, TagResult};
use mc_common::*;

#[derive(Debug, PartialEq, Eq, Clone, Default)]
struct Out {
    plain: String,
    chars: usize,
    lines: usize,
    bidi: bool,
    complex: bool,
    tags: Vec<(String, String, u8, usize)>,
    diags: Vec<(String, usize, &'static str)>,
}

/// Which registry is in use: none, empty, or one with handlers
/// (`b` succeeds, `t` fails, `fn` ignores).
#[derive(Clone, Copy, PartialEq)]
enum Reg {
    None,
    Empty,
    Handlers,
}

fn weight(name: &str) -> u8 {
    match name {
        "t" | "pbo" => 4,
        "p" => 5,
        "move" | "fad" | "fade" | "frx" | "fry" | "frz" | "fscx" | "fscy" | "fsp" | "clip" | "iclip" => 3,
        "b" | "i" | "u" | "s" | "c" | "1c" | "2c" | "3c" | "4c" | "alpha" | "1a" | "2a" | "3a" | "4a" | "fn" | "fs" => 1,
        _ => 2,
    }
}

/// The tags written in one override block.
fn block(content: &str, at: usize, reg: Reg, out: &mut Out) {
    let mut p = 0;
    while let Some(i) = content[p..].find('\\') {
        let start = p + i;
        let name_at = start + 1;
        let rest = &content[name_at..];
        let mut len = rest.chars().next().filter(|c| c.is_ascii_digit()).map_or(0, |_| 1);
        while rest[len..].starts_with(|c: char| c.is_ascii_alphabetic()) {
            len += 1;
            if ["r", "fn"].contains(&&rest[..len]) { break }
        }
        if len == 0 {
            let next = rest.chars().next();
            let end = name_at + next.map_or(0, |c| c.len_utf8());
            out.diags.push((content[start..end].into(), at + start, "empty"));
            p = if next == Some('\\') { name_at } else { end };
            continue;
        }
        let (name, tail) = rest.split_at(len);
        let alen = if name == "t" && tail.starts_with('(') {
            let mut d = 0;
            tail.char_indices().find(|(_, c)| {
                d += match c { '(' => 1, ')' => -1, _ => 0 };
                d == 0
            }).map_or(tail.len(), |(i, _)| i + 1)
        } else {
            tail.find('\\').unwrap_or(tail.len())
        };
        let end = name_at + len + alen;
        let mut w = weight(name);
        if reg == Reg::Handlers && name == "b" { w = 2 }
        if reg == Reg::Handlers && name == "t" {
            out.diags.push((content[start..end].into(), at + start, "malformed"));
        }
        out.tags.push((name.into(), tail[..alen].into(), w, at + start));
        p = end;
    }
}

/// Reference analysis; None = nesting too deep.
fn reference(text: &str, reg: Reg) -> Option<Out> {
    let mut out = Out::default();
    let mut drawing = false;
    let mut p = 0;
    while let Some(c) = text[p..].chars().next() {
        let one = p + c.len_utf8();
        match c {
            '{' => {
                let mut depth = 1;
                let mut end = None;
                for (i, c) in text[one..].char_indices() {
                    match c { '{' => depth += 1, '}' => depth -= 1, _ => {} }
                    if depth > 100 { return None }
                    if depth == 0 { end = Some(one + i); break }
                }
                let e = end.unwrap_or(text.len());
                let content = &text[one..e];
                if content.is_empty() {
                    out.diags.push((if end.is_some() { "}".into() } else { String::new() }, one, "empty"));
                }
                block(content, one, reg, &mut out);
                for piece in content.split("\\p").skip(1) {
                    let n = piece.find(|c: char| !c.is_ascii_digit() && c != '-').unwrap_or(piece.len());
                    if let Ok(v) = piece[..n].parse::<i32>() { drawing = v > 0 }
                }
                p = end.map_or(e, |e| e + 1);
                continue;
            }
            '\\' => {
                let next = text[one..].chars().next();
                if !drawing {
                    match next {
                        Some('n' | 'N') => out.plain.push('\n'),
                        Some('h') => out.plain.push('\u{a0}'),
                        _ => { out.plain.push('\\'); out.plain.extend(next) }
                    }
                }
                p = one + next.map_or(0, |c| c.len_utf8());
                continue;
            }
            _ if !drawing => out.plain.push(c),
            _ => {}
        }
        p = one;
    }
    out.chars = out.plain.chars().count();
    let nl = out.plain.matches('\n').count();
    out.lines = if out.plain.chars().all(|c| c == '\n') { nl + 1 } else { nl + !out.plain.ends_with('\n') as usize };
    let any = |r: &[std::ops::RangeInclusive<u32>]| out.plain.chars().any(|c| r.iter().any(|r| r.contains(&(c as u32))));
    out.bidi = any(&[0x590..=0x6FF, 0x750..=0x77F, 0x8A0..=0x8FF]);
    out.complex = any(&[0..=0x1F, 0x7F..=0x9F, 0x100..=u32::MAX]);
    Some(out)
}

fn diag(k: DiagnosticKind) -> &'static str {
    match k {
        DiagnosticKind::EmptyOverride => "empty",
        DiagnosticKind::MalformedTag => "malformed",
        _ => "other",
    }
}

struct H(&'static str, TagResult);
impl TagHandler for H {
    fn name(&self) -> &'static str { self.0 }
    fn process(&self, _: &str) -> TagResult { self.1.clone() }
}

fn handlers() -> ExtensionRegistry {
    let mut r = ExtensionRegistry::new();
    r.register_tag_handler(Box::new(H("b", TagResult::Processed))).unwrap();
    r.register_tag_handler(Box::new(H("t", TagResult::Failed("x".into())))).unwrap();
    r.register_tag_handler(Box::new(H("fn", TagResult::Ignored))).unwrap();
    r
}

fn analyse(text: &str, reg: Option<&ExtensionRegistry>) -> Option<Out> {
    let a = match reg { None => TextAnalysis::analyze(text), r => TextAnalysis::analyze_with_registry(text, r) }.ok()?;
    Some(Out {
        plain: a.plain_text().into(),
        chars: a.char_count(),
        lines: a.line_count(),
        bidi: a.has_bidi_text(),
        complex: a.has_complex_unicode(),
        tags: a.override_tags().iter().map(|t| (t.name().into(), t.args().into(), t.complexity(), t.position())).collect(),
        diags: a.diagnostics().iter().map(|d| (d.span.into(), d.offset, diag(d.kind.clone()))).collect(),
    })
}

fn check(run: &Run, text: &str, empty: &ExtensionRegistry, full: &ExtensionRegistry) -> Result<(), String> {
    for (k, r, name) in [(Reg::None, None, "no"), (Reg::Empty, Some(empty), "an empty"), (Reg::Handlers, Some(full), "a three-handler")] {
        let want = reference(text, k);
        let got = guard(|| analyse(text, r)).map_err(|p| format!("analysing {text:?} with {name} registry panics: {p}"))?;
        if got != want {
            return Err(format!("text {text:?} with {name} registry\n{got:?}\nexpected {want:?}"));
        }
        if k == Reg::None {
            if let Some(g) = &got {
                run.state(&(&g.plain, g.tags.len(), g.diags.len(), g.lines));
                for t in &g.tags {
                    if !text[t.3..].starts_with(&format!("\\{}{}", t.0, t.1)) {
                        return Err(format!("text {text:?}: tag {t:?} is not at its position"));
                    }
                }
            }
        }
    }
    run.steps(text.chars().count() as u64);
    run.traces(3);
    Ok(())
}

const SYMS: [&str; 22] = [
    "{", "}", "\\", "a", "b1", "N", "n", "h", "é", "p1", "p0", "t(", ")", "fn", "r", " ", "1c", "(", "\n", "א", "😀", "pos(1,2)",
];
const IN: [&str; 12] = ["\\", "b", "1", "(", ")", "t", "é", "fn", "r", "p", "{", "}"];

pub fn c08(run: &Run) {
    run.rule("every event text of up to the bound over 22 symbols, every block content over 12 symbols, with no registry, an empty one and one with handlers");
    let (empty, full) = (ExtensionRegistry::new(), handlers());
    run.stage("texts", seq_count(SYMS.len(), run.pick(5, 6)), |i| check(run, &string_at(&SYMS, i), &empty, &full));
    run.stage("blocks", seq_count(IN.len(), run.pick(5, 6)), |i| {
        let s = string_at(&IN, i);
        check(run, &format!("é{{{s}}}x{{\\p0}}y"), &empty, &full)?;
        // the block parser on its own, at any offset
        for at in [0usize, 7] {
            let mut want = Out::default();
            block(&s, at, Reg::None, &mut want);
            for plain in [true, false] {
                let (mut t, mut d) = (vec![], vec![]);
                guard(|| if plain { parse_override_block(&s, at, &mut t, &mut d) } else { parse_override_block_with_registry(&s, at, &mut t, &mut d, Some(&empty)) })
                    .map_err(|p| format!("block {s:?} panics: {p}"))?;
                let got = Out {
                    tags: t.iter().map(|t| (t.name().into(), t.args().into(), t.complexity(), t.position())).collect(),
                    diags: d.iter().map(|d| (d.span.into(), d.offset, diag(d.kind.clone()))).collect(),
                    ..Out::default()
                };
                if got != want { return Err(format!("block {s:?}: {got:?}, expected {want:?}")) }
            }
        }
        Ok(())
    });
    run.stage("nesting", 130 * 4, |i| {
        let (n, k) = ((i / 4) as usize, i % 4);
        let s = match k { 0 => "{".repeat(n), 1 => format!("{}{}", "{".repeat(n), "}".repeat(n)), 2 => format!("{}\\b1{}x", "{".repeat(n), "}".repeat(n)), _ => "{\\b1}{a".repeat(n) };
        check(run, &s, &empty, &full)
    });
    const NAMES: [&str; 44] = [
        "b", "i", "u", "s", "c", "1c", "2c", "3c", "4c", "alpha", "1a", "2a", "3a", "4a", "fn", "fs", "move", "fad", "fade", "frx", "fry", "frz", "fscx", "fscy",
        "fsp", "clip", "iclip", "t", "pbo", "p", "an", "a", "k", "kf", "pos", "org", "q", "be", "blur", "bord", "xbord", "shad", "r", "fe",
    ];
    run.stage("names", 44 * 44, |i| {
        let (a, b) = (NAMES[i as usize / 44], NAMES[i as usize % 44]);
        for args in ["", "1", "(1,2)", "&HFF&"] {
            check(run, &format!("x{{\\{a}{args}\\{b}{args}}}y"), &empty, &full)?;
        }
        Ok(())
    });
    const LB: [&str; 8] = ["\\", "N", "n", "h", "a", "é", "{", " "];
    run.stage("line-breaks", seq_count(LB.len(), run.pick(6, 8)), |i| {
        let s = string_at(&LB, i);
        for drawing in [false, true] {
            let t = guard(|| TextWithLineBreaks::from_text(&s, drawing))?;
            let (mut text, mut br, mut nb) = (String::new(), vec![], vec![]);
            let mut it = s.chars();
            while let Some(c) = it.next() {
                if c != '\\' { text.push(c); continue }
                match it.next() {
                    Some('N') => if !drawing { br.push((text.len(), LineBreakType::Hard)); text.push('\n') },
                    Some('n') => if !drawing { br.push((text.len(), LineBreakType::Soft)); text.push('\n') },
                    Some('h') => if !drawing { nb.push(text.len()); text.push('\u{a0}') },
                    o => { text.push('\\'); text.extend(o) }
                }
            }
            let got: Vec<_> = t.line_breaks.iter().map(|b| (b.position, b.break_type)).collect();
            if t.text != text || got != br || t.nbsp_positions != nb { return Err(format!("{s:?} drawing {drawing}: {t:?}, expected {text:?} {br:?} {nb:?}")) }
            for p in 0..=text.len() {
                if t.get_break_type_at(p) != br.iter().find(|b| b.0 == p).map(|b| b.1) || t.is_nbsp_at(p) != nb.contains(&p) { return Err(format!("{s:?}: lookups at {p}")) }
            }
        }
        Ok(())
    });
}

/// Visible length, tags as (name, args) and number of diagnostics of a text.
pub fn summary(text: &str) -> Option<(usize, Vec<(String, String)>, usize)> {
    reference(text, Reg::None).map(|o| (o.chars, o.tags.into_iter().map(|t| (t.0, t.1)).collect(), o.diags.len()))
}
