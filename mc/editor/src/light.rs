//! E18: highlighting, completion and validation against the current text.
use crate::text::{doc, rg};
use ass_core::analysis::{AnalysisConfig, ScriptAnalysis, ScriptAnalysisOptions};
use ass_core::parser::{Script, Section};
use ass_editor::core::{EditorDocument, Position};
use ass_editor::extensions::builtin::auto_complete::{AutoCompleteExtension, CompletionType};
use ass_editor::extensions::builtin::syntax_highlight::{HighlightToken, SyntaxHighlightExtension, TokenType};
use ass_editor::utils::validator::{LazyValidator, ValidationResult, ValidationSeverity, ValidatorConfig};
use mc_common::*;
use std::collections::BTreeMap;
use std::time::Duration;

type Tok = (TokenType, usize, usize, Option<String>);

/// Adds `line[a..b]` without surrounding blanks.
fn put(out: &mut Vec<Tok>, t: TokenType, line: &str, at: usize, a: usize, b: usize, info: Option<&str>) {
    let s = &line[a..b];
    let cut = s.len() - s.trim_start().len();
    if !s.trim().is_empty() {
        out.push((t, at + a + cut, at + a + cut + s.trim().len(), info.map(str::to_string)));
    }
}

/// The tokens a text consists of, read line by line.
fn tokens(text: &str) -> Vec<Tok> {
    use TokenType::*;
    let (mut out, mut at, mut section) = (vec![], 0, None::<String>);
    for raw in text.split_inclusive('\n') {
        let line = raw.strip_suffix('\n').unwrap_or(raw);
        let line = if raw.ends_with('\n') { line.strip_suffix('\r').unwrap_or(line) } else { line };
        let n = line.len();
        if line.starts_with('[') && line.ends_with(']') {
            out.push((SectionHeader, at, at + n, Some(line[1..n - 1].to_string())));
            section = Some(line[1..n - 1].to_string());
        } else if line.starts_with(';') {
            out.push((Comment, at, at + n, None));
        } else {
            match section.as_deref() {
                None => {}
                Some("Script Info" | "Aegisub Project Garbage") => {
                    if let Some(c) = line.find(':') {
                        put(&mut out, FieldName, line, at, 0, c + 1, Some(&line[..c]));
                        put(&mut out, FieldValue, line, at, c + 1, n, None);
                    }
                }
                Some("V4+ Styles" | "V4 Styles" | "Events") if line.starts_with("Format:") => {
                    put(&mut out, FieldName, line, at, 0, 7, Some("Format"));
                    put(&mut out, FieldValue, line, at, 7, n, None);
                }
                Some("V4+ Styles" | "V4 Styles") => {
                    if line.starts_with("Style:") {
                        put(&mut out, FieldName, line, at, 0, 6, Some("Style"));
                        let mut a = 6;
                        for (i, f) in line[6..].split(',').enumerate() {
                            let (t, info) = if i == 0 { (StyleName, Some(f.trim())) } else { (FieldValue, None) };
                            put(&mut out, t, line, at, a, a + f.len(), info);
                            a += f.len() + 1;
                        }
                    }
                }
                Some("Events") => event(&mut out, line, at),
                Some(_) if !line.trim().is_empty() => out.push((Text, at, at + n, None)),
                Some(_) => {}
            }
        }
        at += raw.len();
    }
    out
}

fn event(out: &mut Vec<Tok>, line: &str, at: usize) {
    use TokenType::*;
    let Some(kind) = ["Dialogue", "Comment"].into_iter().find(|k| line.strip_prefix(k).is_some_and(|r| r.starts_with(':'))) else { return };
    put(out, EventType, line, at, 0, kind.len() + 1, Some(kind));
    let mut a = kind.len() + 1;
    let f: Vec<&str> = line[a..].splitn(10, ',').collect();
    if f.len() < 10 { return }
    for (i, f) in f[..9].iter().enumerate() {
        match i {
            1 | 2 => put(out, TimeCode, line, at, a, a + f.len(), None),
            3 => put(out, StyleName, line, at, a, a + f.len(), Some(f.trim())),
            _ => put(out, FieldValue, line, at, a, a + f.len(), None),
        }
        a += f.len() + 1;
    }
    let mut rest = f[9];
    while !rest.is_empty() {
        let p = line.len() - rest.len();
        let open = rest.find('{').unwrap_or(rest.len());
        if open > 0 {
            out.push((Text, at + p, at + p + open, None));
            rest = &rest[open..];
            continue;
        }
        let Some(close) = rest.find('}') else {
            out.push((Error, at + p, at + line.len(), Some("Unclosed override tag".into())));
            return;
        };
        out.push((OverrideTag, at + p, at + p + 1, None));
        let mut q = at + p + 1;
        for part in rest[1..close].split('\\') {
            let name = part.find(|c: char| !c.is_alphanumeric()).unwrap_or(part.len());
            if name > 0 {
                out.push((OverrideTag, q, q + name, Some(part[..name].into())));
                if name < part.len() { out.push((TagParameter, q + name, q + part.len(), None)) }
            }
            q += part.len() + 1;
        }
        out.push((OverrideTag, at + p + close, at + p + close + 1, None));
        rest = &rest[close + 1..];
    }
}

/// The tokens given, without blank ones and without the blanks around fields.
fn seen(text: &str, got: &[HighlightToken]) -> Result<Vec<Tok>, String> {
    use TokenType::*;
    let (mut v, mut last) = (vec![], 0);
    for t in got {
        let (a, b) = (t.range.start.offset, t.range.end.offset);
        let Some(s) = text.get(a..b) else { return Err(format!("{t:?} lies outside {text:?}")) };
        if a < last { return Err(format!("{t:?} begins before the token ahead of it ends, in {text:?}")) }
        last = b;
        let blank = matches!(t.token_type, FieldValue | FieldName | StyleName | TimeCode | EventType);
        let cut = if blank { s.len() - s.trim_start().len() } else { 0 };
        let end = if blank { a + s.trim_end().len() } else { b };
        if end > a + cut && !(s.trim().is_empty() && section_text(&t.token_type, text, a)) {
            v.push((t.token_type, a + cut, end, t.semantic_info.clone()));
        }
    }
    Ok(v)
}

/// Whether a Text token at `a` is a whole line of a section not looked into.
fn section_text(t: &TokenType, text: &str, a: usize) -> bool {
    *t == TokenType::Text && (a == 0 || text.as_bytes()[a - 1] == b'\n')
}

fn check_tokens(ext: &mut SyntaxHighlightExtension, d: &EditorDocument, run: &Run) -> Result<(), String> {
    let text = d.text();
    let got = guard(|| ext.tokenize_document(d)).map_err(|p| format!("highlighting {text:?} panics: {p}"))?.map_err(|e| e.to_string())?;
    let got = seen(&text, &got)?;
    let want: Vec<Tok> = tokens(&text);
    if let Some(i) = (0..got.len().max(want.len())).find(|&i| got.get(i) != want.get(i)) {
        return Err(format!("highlighting {text:?}: token {i} is {:?}, expected {:?}", got.get(i), want.get(i)));
    }
    run.steps(1);
    Ok(())
}

/// Everything offered in one place or another: section headers, fields by section, tags.
struct Universe {
    sections: Vec<String>,
    fields: BTreeMap<&'static str, Vec<String>>,
    tags: Vec<String>,
}

fn offered(text: &str, at: usize, kind: CompletionType) -> Vec<String> {
    let got = AutoCompleteExtension::new().get_completions(&doc(text), Position::new(at)).unwrap_or_default();
    got.into_iter().filter(|c| c.completion_type == kind).map(|c| c.label).collect()
}

fn universe() -> Universe {
    let fields = ["Script Info", "V4+ Styles", "V4 Styles", "Events", "Fonts"].map(|s| {
        let head = format!("[{s}]\n");
        (s, offered(&format!("{head} "), head.len(), CompletionType::Field))
    });
    let mut tags = vec![];
    for c in ('a'..='z').chain('A'..='Z').chain('0'..='9') {
        let t = format!("{{\\{c}");
        tags.extend(offered(&t, t.len(), CompletionType::Tag));
    }
    tags.retain(|t| t.starts_with('\\'));
    Universe { sections: offered("", 0, CompletionType::Section), fields: fields.into(), tags }
}

fn check_completion(u: &Universe, ext: &mut AutoCompleteExtension, d: &EditorDocument, at: usize, run: &Run) -> Result<(), String> {
    const MAX: usize = 20;
    let text = d.text();
    let got = guard(|| ext.get_completions(d, Position::new(at))).map_err(|p| format!("completing at {at} of {text:?} panics: {p}"))?;
    run.steps(1);
    if !text.is_char_boundary(at) {
        return if got.is_err() { Ok(()) } else { Err(format!("completing at {at} of {text:?} gives {got:?}")) };
    }
    let got = got.map_err(|e| format!("completing at {at} of {text:?} fails: {e}"))?;
    let start = text[..at].rfind('\n').map_or(0, |p| p + 1);
    let line = text[start..].split('\n').next().unwrap();
    let line = line.strip_suffix('\r').unwrap_or(line);
    let before = &line[..(at - start).min(line.len())];
    let section = text[..start].lines().rev().find(|l| l.len() > 1 && l.starts_with('[') && l.ends_with(']')).map(|l| &l[1..l.len() - 1]);
    let block = before.rfind('{').map(|p| &before[p + 1..]).filter(|b| !b.contains('}'));
    let of = |k: CompletionType| got.iter().filter(|c| c.completion_type == k).map(|c| c.label.clone()).collect::<Vec<_>>();
    let bad = |what: &str, got: &[String], want: &[String]| Err(format!("at {at} of {text:?} the {what} offered are {got:?}, expected {want:?}"));
    // headers, at the beginning of a header
    let typed = before.get(1..).unwrap_or("").to_lowercase();
    let heads: Vec<String> = if line.is_empty() || line.starts_with('[') {
        u.sections.iter().filter(|s| s[1..].to_lowercase().starts_with(&typed)).cloned().collect()
    } else { vec![] };
    let s = of(CompletionType::Section);
    if got.len() < MAX && s != heads { return bad("sections", &s, &heads) }
    // fields that begin as the line does
    let f = of(CompletionType::Field);
    let all: Vec<String> = match section {
        Some(n) if block.is_none() => u.fields.get(n).cloned().unwrap_or_default(),
        _ => vec![],
    };
    let typed = before.trim_start().to_lowercase();
    let may: Vec<String> = all.into_iter().filter(|x| x.to_lowercase().starts_with(&typed)).collect();
    if f.iter().any(|x| !may.contains(x)) || got.len() < MAX && before.len() == line.len() && f != may { return bad("fields", &f, &may) }
    // tags that begin as the one being typed
    let t = of(CompletionType::Tag);
    let want: Vec<String> = match block {
        None => vec![],
        Some(b) => {
            let name: String = b.rsplit_once('\\').map_or(String::new(), |(_, n)| n.chars().take_while(|c| c.is_alphanumeric()).collect());
            u.tags.iter().filter(|x| x[1..].starts_with(&name)).cloned().collect()
        }
    };
    // which come first is left open
    let (mut a, mut b) = (t.clone(), want.clone());
    a.sort();
    b.sort();
    if a.iter().any(|x| !b.contains(x)) || got.len() < MAX && a != b || !b.is_empty() && a.is_empty() { return bad("tags", &t, &want) }
    // the document's styles, in the style field of an event
    let l = line.trim_start();
    let names: Vec<String> = if section == Some("Events") && (l.starts_with("Dialogue:") || l.starts_with("Comment:")) && before.matches(',').count() == 3 {
        let s = Script::parse(&text).map_err(|e| e.to_string())?;
        s.sections().iter().filter_map(|s| if let Section::Styles(v) = s { Some(v) } else { None }).flatten().map(|s| s.name.to_string()).collect()
    } else { vec![] };
    let n = of(CompletionType::StyleRef);
    if got.len() < MAX && n != names { return bad("styles", &n, &names) }
    Ok(())
}

fn shape(r: &ValidationResult) -> (Vec<String>, bool, usize, usize, String) {
    (r.issues.iter().map(|i| format!("{i:?}")).collect(), r.is_valid, r.warning_count, r.error_count, r.summary())
}

fn config(n: usize) -> ValidatorConfig {
    let on = |b: usize| n >> b & 1 == 0;
    ValidatorConfig {
        min_validation_interval: if on(0) { Duration::ZERO } else { Duration::from_secs(3600) },
        max_issues: if on(1) { 0 } else { 2 },
        severity_threshold: if on(2) { ValidationSeverity::Info } else { ValidationSeverity::Warning },
        enable_performance_hints: on(3),
        enable_accessibility_checks: on(3),
        ..ValidatorConfig::default()
    }
}

/// What a validator without any history says, and what the linter says, of a text.
fn check_validation(got: &ValidationResult, text: &str, c: &ValidatorConfig) -> Result<(), String> {
    let mut fresh = LazyValidator::with_config(c.clone());
    let d = doc(text);
    let want = fresh.validate(&d).map_err(|e| e.to_string())?;
    if shape(got) != shape(want) {
        return Err(format!("validating {text:?} says {:?}, a new validator {:?}", shape(got), shape(want)));
    }
    let errors = got.issues.iter().filter(|i| i.severity >= ValidationSeverity::Error).count();
    let warnings = got.issues.iter().filter(|i| i.severity == ValidationSeverity::Warning).count();
    if got.error_count != errors || got.warning_count != warnings || got.is_valid != (errors == 0) {
        return Err(format!("{got:?} does not count its issues right"));
    }
    if got.issues.iter().any(|i| i.severity < c.severity_threshold) || c.max_issues > 0 && got.issues.len() > c.max_issues {
        return Err(format!("{:?} goes beyond {c:?}", got.issues));
    }
    let mut o = ScriptAnalysisOptions::empty();
    o.set(ScriptAnalysisOptions::UNICODE_LINEBREAKS, c.enable_unicode_checks);
    o.set(ScriptAnalysisOptions::PERFORMANCE_HINTS, c.enable_performance_hints);
    o.set(ScriptAnalysisOptions::STRICT_COMPLIANCE, c.enable_spec_compliance);
    o.set(ScriptAnalysisOptions::BIDI_ANALYSIS, c.enable_accessibility_checks);
    let s = Script::parse(text).map_err(|e| e.to_string())?;
    let Ok(a) = ScriptAnalysis::analyze_with_config(&s, AnalysisConfig { options: o, max_events_threshold: 1000 }) else { return Ok(()) };
    let mut want: Vec<(String, String, Option<usize>, Option<usize>)> = vec![];
    for i in a.lint_issues() {
        let sev = match i.severity().to_string().as_str() { "hint" | "info" => "Info", "warning" => "Warning", "error" => "Error", _ => "Critical" };
        want.push((sev.into(), i.message().into(), i.location().map(|l| l.line), i.location().map(|l| l.column)));
    }
    for (missing, m) in [(text.is_empty(), "Document is empty"), (!text.contains("[Script Info]"), "Missing [Script Info] section"), (!text.contains("[Events]"), "Missing [Events] section")] {
        if missing { want.push(("Warning".into(), m.into(), None, None)) }
    }
    want.retain(|w| w.0 != "Info" || c.severity_threshold == ValidationSeverity::Info);
    let mut have: Vec<_> = got.issues.iter().map(|i| (format!("{:?}", i.severity), i.message.clone(), i.line, i.column)).collect();
    let full = c.max_issues == 0 || want.len() <= c.max_issues;
    want.sort();
    have.sort();
    if full && have != want || !full && (have.len() != c.max_issues || have.iter().any(|h| !want.contains(h))) {
        return Err(format!("validating {text:?} reports {have:?}, expected {want:?}"));
    }
    Ok(())
}

const LINES: [&str; 22] = [
    "", "[Script Info]", "[V4+ Styles]", "[Events]", "[Fonts]", "[", "[e", "Title: é:x", "  Play", "; [Events]", "Format: Name, Size", "Style: A,Arial,20", "Style:B, x", "Style:  é ,", "F",
    "Dialogue: 0,0:00:00.00,0:00:05.00, A ,,0,0,0,,é{\\b1\\pos(1,2)}w{\\", "Comment: 0,0:00:00.00,0:00:01.00,B,,0,0,0,,", "Dialogue:,,,,,,,,,{", "Dialogue: 0,1,2,", "世{\\b1}x\\N{", "Di", "a]",
];
const PIECES: [&str; 14] = ["{", "}", "\\", "b", "1", "(", ")", ",", "é", " ", "fs", "x", "*", "世"];

pub fn e18(run: &Run) {
    run.rule("after every step of a history, the highlighting, the completions at every place and the validation of a document are those of its text then, as read line by line");
    run.assume("which field names, tags and sections exist is taken from what completion offers where nothing is typed; issues come from the linter (C10); lines inside an override block are split at backslashes into a name of letters and digits and the rest");
    let u = universe();
    run.stage("offers", 1, |_| {
        if u.sections.len() < 4 || u.tags.len() < 30 || ["Script Info", "V4+ Styles", "Events"].iter().any(|s| u.fields[s].is_empty()) {
            return Err(format!("nothing typed offers {:?}, {:?}, {:?}", u.sections, u.fields, u.tags));
        }
        Ok(())
    });
    let n = LINES.len();
    run.stage("lines", 4 * seq_count(n, run.pick(3, 4)), |i| {
        let (v, end) = (seq_at(n, i / 4), ["\n", "\r\n"][i as usize % 2]);
        let mut t = v.iter().map(|&l| LINES[l]).collect::<Vec<_>>().join(end);
        if i % 4 > 1 { t.push_str(end) }
        let d = doc(&t);
        run.state(&t);
        check_tokens(&mut SyntaxHighlightExtension::new(), &d, run)?;
        // completions where the last line is, for longer documents
        let from = if v.len() < 3 { 0 } else { t.trim_end_matches(['\r', '\n']).rfind('\n').map_or(0, |p| p + 1) };
        let mut ext = AutoCompleteExtension::new();
        for at in from..=t.len() + 2 {
            check_completion(&u, &mut ext, &d, at, run)?;
        }
        Ok(())
    });
    run.stage("event-texts", seq_count(PIECES.len(), run.pick(4, 6)), |i| {
        let head = "[Events]\nDialogue: 0,0:00:00.00,0:00:05.00,A,,0,0,0,,";
        let body = string_at(&PIECES, i);
        let t = format!("{head}{body}");
        let d = doc(&t);
        check_tokens(&mut SyntaxHighlightExtension::new(), &d, run)?;
        run.traces(1);
        check_completion(&u, &mut AutoCompleteExtension::new(), &d, t.len(), run)
    });
    // one extension and one validator along a history of edits to two documents
    const BASE: [&str; 3] = [
        "", "[Script Info]\nTitle: a\n\n[V4+ Styles]\nFormat: Name, Fontname\nStyle: A,x\n\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\nDialogue: 0,0:00:00.00,0:00:05.00,A,,0,0,0,,x\n",
        "[Events]\r\nFormat: Layer, Start, End, Style, Text\r\nDialogue: 0,0:00:05.00,0:00:00.00,Q,{\\b1}x\r\n",
    ];
    const TEXT: [&str; 6] = ["x", "[Events]\n", "{\\b1", "\r\n", "Style: Z\n", "é"];
    // an edit: which document, insert a piece, delete a line or a part, undo, or put the first text back
    let ops = 2 * (TEXT.len() * 3 + 4);
    let history = |i: u64, configs: u64| {
        let (k, seq) = ((i % configs) as usize, seq_at(ops, i / configs));
        let c = config(k / 3);
        let mut docs = [doc(BASE[k % 3]), doc(BASE[(k + 1) % 3])];
        for d in &mut docs { d.set_validator_config(c.clone()) }
        let (mut hl, mut ac, mut val) = (SyntaxHighlightExtension::new(), AutoCompleteExtension::new(), LazyValidator::with_config(c.clone()));
        for step in 0..=seq.len() {
            if step > 0 {
                let o = seq[step - 1];
                let d = &mut docs[o % 2];
                let (t, len) = (d.text(), d.len_bytes());
                let o = o / 2;
                let mid = t.rfind("A,").or(t.find('\n')).unwrap_or(0);
                let done = match o {
                    0..18 => d.insert(Position::new([0, mid, len][o % 3]), TEXT[o / 3]),
                    18 => d.delete(rg(0, t.find('\n').map_or(len, |p| p + 1))),
                    19 => d.delete(rg(mid, len)),
                    20 => { let _ = d.undo(); Ok(()) }
                    // the same length, and another text
                    _ => d.replace(rg(0, len), &t.replace('x', "y").replace("A,", "B,")),
                };
                done.map_err(|e| e.to_string())?;
            }
            for d in &mut docs {
                let text = d.text();
                check_tokens(&mut hl, d, run)?;
                for at in [0, text.rfind(",A").map_or(0, |p| p + 1), text.len()] {
                    check_completion(&u, &mut ac, d, at, run)?;
                }
                let own = d.validate_comprehensive().map_err(|e| e.to_string())?;
                check_validation(&own, &text, &c).map_err(|e| format!("the document's own validator: {e}"))?;
                check_validation(val.validate(d).map_err(|e| e.to_string())?, &text, &c)?;
                let ok = d.is_valid_cached().map_err(|e| e.to_string())?;
                let forced = d.force_validate().map_err(|e| e.to_string())?;
                if ok != own.is_valid || shape(&forced) != shape(&own) {
                    return Err(format!("{text:?} is valid: {ok}, validated anew: {:?}, was {:?}", shape(&forced), shape(&own)));
                }
                if step == 1 && k < 3 {
                    // another configuration takes effect at once
                    let c = config(14);
                    d.set_validator_config(c.clone());
                    check_validation(&d.validate_comprehensive().map_err(|e| e.to_string())?, &text, &c).map_err(|e| format!("after a change of configuration: {e}"))?;
                    d.set_validator_config(config(k / 3));
                }
            }
        }
        run.traces(1);
        Ok(())
    };
    run.stage("histories", 48 * seq_count(ops, 2), |i| history(i, 48));
    // longer ones with the configurations that differ in how results are kept
    if run.thorough() {
        run.stage("longer-histories", 12 * seq_count(ops, 3), |i| history(i, 12));
    }
}
