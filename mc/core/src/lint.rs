//! C10: the linter.
use crate::{text, values};
use ass_core::analysis::linting::{lint_script, lint_script_with_analysis, BuiltinRules, IssueCategory as Cat, IssueSeverity as Sev, LintConfig, LintIssue};
use ass_core::analysis::ScriptAnalysis;
use ass_core::parser::Script;
use mc_common::*;

const RULES: [(&str, Cat); 8] = [
    ("timing-overlap", Cat::Timing),
    ("negative-duration", Cat::Timing),
    ("invalid-color", Cat::Styling),
    ("missing-style", Cat::Styling),
    ("invalid-tag", Cat::Content),
    ("performance", Cat::Performance),
    ("encoding", Cat::Encoding),
    ("accessibility", Cat::Accessibility),
];
const SEVS: [Sev; 5] = [Sev::Info, Sev::Hint, Sev::Warning, Sev::Error, Sev::Critical];

#[derive(Clone, Default)]
struct Doc {
    info: Vec<(String, String)>,
    styles: Vec<(String, [String; 4])>,
    events: Vec<(String, String, String, String)>, // start, end, style, text
    style_cut: usize, // 0 = one section, n = second section after n styles
    event_cut: usize,
    info_cut: usize,
}

impl Doc {
    fn source(&self) -> String {
        let mut s = String::from("[Script Info]\nTitle: x\n");
        for (i, (k, v)) in self.info.iter().enumerate() {
            if self.info_cut > 0 && self.info_cut == i { s += "[Script Info]\n" }
            s += &format!("{k}: {v}\n");
        }
        const S: &str = "[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n";
        const E: &str = "[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n";
        if !self.styles.is_empty() { s += S }
        for (i, (n, c)) in self.styles.iter().enumerate() {
            if self.style_cut > 0 && self.style_cut == i { s += S }
            s += &format!("Style: {n},Arial,20,{},{},{},{},0,0,0,0,100,100,0,0,1,1,1,2,0,0,0,1\n", c[0], c[1], c[2], c[3]);
        }
        if !self.events.is_empty() { s += E }
        for (i, (a, b, st, t)) in self.events.iter().enumerate() {
            if self.event_cut > 0 && self.event_cut == i { s += E }
            s += &format!("Dialogue: 0,{a},{b},{st},,0,0,0,,{t}\n");
        }
        s
    }

    /// Findings as (rule, severity, things the message has to name).
    fn findings(&self) -> Vec<(usize, Sev, Vec<String>)> {
        let mut out = vec![];
        let times: Vec<Option<(u32, u32)>> = self.events.iter().map(|e| Some((values::time_value(&e.0)?, values::time_value(&e.1)?))).collect();
        if times.len() > 1 && times.iter().any(|t| t.is_none()) {
            out.push((0, Sev::Warning, vec![]));
        } else {
            for i in 0..times.len() {
                for j in i + 1..times.len() {
                    let (a, b) = (times[i].unwrap(), times[j].unwrap());
                    if a.0 < a.1 && b.0 < b.1 && a.0 < b.1 && b.0 < a.1 {
                        let e = |k: usize| [self.events[k].0.clone(), self.events[k].1.clone()];
                        out.push((0, Sev::Warning, [e(i), e(j)].concat()));
                    }
                }
            }
        }
        for (e, t) in self.events.iter().zip(&times) {
            if t.is_some_and(|t| t.0 >= t.1) { out.push((1, Sev::Error, vec![e.0.clone(), e.1.clone()])) }
        }
        for s in &self.styles {
            for c in &s.1 {
                if values::color_value(c).is_none() { out.push((2, Sev::Error, vec![c.clone()])) }
            }
        }
        let mut dialogue = 0;
        for ((_, _, style, txt), t) in self.events.iter().zip(&times) {
            if !self.styles.iter().any(|s| s.0 == *style) { out.push((3, Sev::Error, vec![style.clone()])) }
            let a = text::summary(txt);
            if let Some((chars, tags, diags)) = &a {
                for (name, args) in tags {
                    for part in format!("{name}{args}").split('\\') {
                        let rest = ["c", "1c", "2c", "3c", "4c"].iter().find_map(|n| part.strip_prefix(n)).and_then(|r| r.strip_prefix("&H").or(r.strip_prefix("&h")));
                        if let Some((v, _)) = rest.and_then(|r| r.split_once('&')) {
                            if values::color_value(&format!("&H{v}&")).is_none() { out.push((2, Sev::Error, vec![v.to_string()])) }
                        }
                    }
                }
                for _ in 0..*diags { out.push((4, Sev::Warning, vec![])) }
                if t.is_some_and(|t| t.0 < t.1) {
                    dialogue += 1;
                    if *chars > 500 { out.push((5, Sev::Hint, vec![chars.to_string()])) }
                    if tags.len() > 20 { out.push((5, Sev::Hint, vec![tags.len().to_string()])) }
                }
                if *chars > 200 { out.push((7, Sev::Hint, vec![chars.to_string()])) }
                if let Some((s, e)) = *t {
                    // 20 characters a second: chars / (cs / 100) > 20
                    if s < e && *chars as u64 * 100 > 20 * (e - s) as u64 { out.push((7, Sev::Hint, vec![])) }
                }
            }
            if t.is_some_and(|t| t.0 <= t.1 && t.1 - t.0 < 50) { out.push((7, Sev::Hint, vec![((t.unwrap().1 - t.unwrap().0) * 10).to_string()])) }
            if txt.chars().any(|c| c.is_control() && !"\t\r\n".contains(c)) { out.push((6, Sev::Warning, vec![])) }
            if txt.contains('\u{fffd}') { out.push((6, Sev::Warning, vec![])) }
            if txt.len() > 3 * txt.chars().count() { out.push((6, Sev::Hint, vec![])) }
        }
        if dialogue > 1000 { out.push((5, Sev::Hint, vec![dialogue.to_string()])) }
        for (k, v) in &self.info {
            if v.chars().any(|c| c.is_control()) { out.push((6, Sev::Warning, vec![k.clone()])) }
        }
        out
    }
}

fn show(v: &[LintIssue]) -> Vec<String> {
    v.iter().map(|i| format!("{i:?}")).collect()
}

/// Every built-in rule against its definition.
fn rules(run: &Run, d: &Doc) -> Result<(), String> {
    let src = d.source();
    let ctx = |m: String| format!("script {:?}: {m}", if src.len() > 3000 { "(large)" } else { &src });
    let script = Script::parse(&src).map_err(|e| ctx(e.to_string()))?;
    let want = d.findings();
    let (got, an, via) = guard(|| {
        let a = ScriptAnalysis::analyze(&script).unwrap();
        let g = BuiltinRules::all_rules().iter().map(|r| (r.id(), r.check_script(&a))).collect::<Vec<_>>();
        let l = lint_script(&script, &LintConfig::default()).unwrap();
        (g, show(a.lint_issues()), show(&l))
    })
    .map_err(|p| ctx(format!("panic {p}")))?;
    for (k, (id, issues)) in got.iter().enumerate() {
        if *id != RULES[k].0 { return Err(ctx(format!("rule {k} is {id}"))) }
        let mut left: Vec<_> = want.iter().filter(|w| w.0 == k).collect();
        for i in issues {
            if i.rule_id() != *id || i.category() != RULES[k].1 { return Err(ctx(format!("{id} reports {i:?}"))) }
            // the most demanding expectation first
            left.sort_by_key(|w| std::cmp::Reverse(w.2.len()));
            let at = left.iter().position(|w| w.1 == i.severity() && w.2.iter().all(|x| i.message().matches(x.as_str()).count() >= w.2.iter().filter(|y| *y == x).count()));
            match at {
                Some(p) => { left.remove(p); }
                None => return Err(ctx(format!("{id} reports {:?}, which nothing calls for", i.message()))),
            }
        }
        if let Some(w) = left.first() { return Err(ctx(format!("{id} misses {w:?}"))) }
    }
    let all: Vec<String> = got.iter().flat_map(|g| show(&g.1)).collect();
    if all != an || all != via { return Err(ctx("lint_issues() or lint_script differ from what the rules report".into())) }
    run.traces(1);
    run.steps(want.len() as u64);
    run.state(&want.iter().map(|w| (w.0, w.2.clone())).collect::<Vec<_>>());
    Ok(())
}

fn ev(a: &str, b: &str, s: &str, t: &str) -> (String, String, String, String) {
    (a.into(), b.into(), s.into(), t.into())
}

pub fn c10(run: &Run) {
    run.rule("every script of up to 2 (thorough 3) events over an alphabet that trips each rule, in every cut into sections; every text over a token alphabet; limits at their boundary; every configuration over a script with findings of all rules");
    let style = |n: &str, c: &str| (n.to_string(), [c.to_string(), "&H000000FF".into(), "&H00000000".into(), c.to_string()]);
    let styles: Vec<Vec<(String, [String; 4])>> = vec![
        vec![],
        vec![style("Default", "&H00FFFFFF")],
        vec![style("Alt", "&HNOPE"), style("Default", "&HFFFFFF&")],
        vec![style("Default", "&H00FFFFFF"), style("Alt", "+12345")],
    ];
    let times = [("0:00:01.00", "0:00:03.00"), ("0:00:02.00", "0:00:09.00"), ("0:00:03.00", "0:00:03.00"), ("0:00:05.00", "0:00:04.00"), ("0:00:01.00", "0:00:01.49"), ("0:00:01.00", "0:00:01.50"), ("x", "0:00:04.00")];
    let names = ["Default", "Alt", "alt"];
    let texts = ["one", "{\\1c&hZZ&}a", "{\\q\\}{}", "bell\u{7}\u{fffd}", "\u{1f600}"];
    let n = times.len() * names.len() * texts.len();
    let event = |k: usize| {
        let v = mixed(&[times.len(), names.len(), texts.len()], k as u64);
        ev(times[v[0]].0, times[v[0]].1, names[v[1]], texts[v[2]])
    };
    run.stage("scripts", seq_count(n, 2) * 4 * 3, |i| {
        let v = seq_at(n, i / 12);
        let s = styles[(i % 4) as usize].clone();
        let cut = (i / 4 % 3) as usize;
        let d = Doc { events: v.iter().map(|&k| event(k)).collect(), styles: s, style_cut: cut.min(1), event_cut: cut / 2, ..Doc::default() };
        rules(run, &d)
    });
    let few: Vec<usize> = (0..n).step_by(7).collect();
    run.stage("three events", (few.len() as u64).pow(3) * 3, |i| {
        let v = mixed(&[few.len(), few.len(), few.len(), 3], i);
        let d = Doc { events: v[..3].iter().map(|&k| event(few[k])).collect(), styles: styles[2].clone(), event_cut: v[3], ..Doc::default() };
        rules(run, &d)
    });
    const T: [&str; 16] = ["{", "}", "\\", "c", "1", "&H", "&h", "&", "FFFFFF", "ZZ", "é", "(", ")", "t", "\u{1f600}", "\u{9f}"];
    run.stage("texts", seq_count(16, run.pick(4, 5)), |i| {
        let t = format!("x{{\\{}", string_at(&T, i));
        rules(run, &Doc { events: vec![ev("0:00:00.00", "0:00:05.00", "Default", &t)], ..Doc::default() })
    });
    // script info values, in one or two sections
    let vals = ["plain", "tab\there", "bell\u{7}", "é\u{9f}", "x"];
    run.stage("script info", 5u64.pow(3) * 3, |i| {
        let v = mixed(&[5, 5, 5, 3], i);
        let info = (0..3).map(|k| (format!("Key{k}"), vals[v[k]].to_string())).collect();
        rules(run, &Doc { info, info_cut: v[3], ..Doc::default() })
    });
    // limits: characters, tags, duration, reading speed, number of events
    let cs = |c: u32| ass_core::utils::format_ass_time(c);
    let lens = [0, 1, 2, 10, 199, 200, 201, 499, 500, 501, 1000];
    let durs = [0u32, 1, 4, 5, 6, 49, 50, 51, 99, 100, 101, 994, 995, 996, 1000, 1005, 2499, 2500, 2501, 5000];
    let wraps: [fn(String) -> String; 4] = [|s| s, |s| format!("{{\\b1}}{s}"), |s| format!("{s}\\N"), |s| s.replace('a', "é")];
    run.stage("limits", (lens.len() * durs.len() * 4) as u64, |i| {
        let v = mixed(&[lens.len(), durs.len(), 4], i);
        let t = wraps[v[2]]("a".repeat(lens[v[0]]));
        rules(run, &Doc { events: vec![ev("0:00:01.00", &cs(100 + durs[v[1]]), "Default", &t)], ..Doc::default() })
    });
    run.stage("tag count", 45 * 2, |i| {
        let k = (i / 2) as usize;
        let t = if i % 2 == 0 { format!("{{{}}}x", "\\b1".repeat(k)) } else { "{\\i1}x".repeat(k) };
        rules(run, &Doc { events: vec![ev("0:00:01.00", "0:00:09.00", "Default", &t)], ..Doc::default() })
    });
    run.stage("event count", 4, |i| {
        let n = [999, 1000, 1001, 1002][i as usize];
        let events = (0..n).map(|k| ev(&cs(k * 100), &cs(k * 100 + 100), "Default", "x")).collect();
        rules(run, &Doc { events, event_cut: 500, styles: styles[1].clone(), ..Doc::default() })
    });
    // configurations
    let d = Doc {
        info: vec![("Key".into(), "\u{1}".into())],
        styles: styles[2].clone(),
        events: vec![
            ev("0:00:01.00", "0:00:03.00", "Default", "{\\q\\}{}"),
            ev("0:00:02.00", "0:00:04.00", "No", &"\u{1f600}".repeat(600)),
            ev("0:00:03.00", "0:00:03.00", "Nil", "{\\c&HZ&}\u{fffd}"),
        ],
        ..Doc::default()
    };
    let src = d.source();
    let script = Script::parse(&src).unwrap();
    let analysis = ScriptAnalysis::analyze(&script).unwrap();
    let full: Vec<Vec<(Sev, String)>> = BuiltinRules::all_rules().iter().map(|r| r.check_script(&analysis).iter().map(|i| (i.severity(), format!("{i:?}"))).collect()).collect();
    assert!(full.iter().all(|v| !v.is_empty()));
    let total: usize = full.iter().map(|v| v.len()).sum();
    run.state(&("total", total));
    let limits = [0, 1, 2, 3, 5, total - 1, total, total + 1, usize::MAX];
    // disabled rules: none, each one, pairs (thorough: every subset)
    let dis: Vec<usize> = (0..256usize).filter(|b| run.pick(b.count_ones() <= 1 || *b == 255, true)).collect();
    run.stage("configurations", (256 * dis.len() * 5 * limits.len() * 2) as u64, |i| {
        let v = mixed(&[256, dis.len(), 5, limits.len(), 2], i);
        let on = |bits: usize| (0..8).filter(|k| bits >> k & 1 == 1).map(|k| RULES[k].0).collect::<Vec<_>>();
        let mut enabled_rules = on(v[0]);
        if v[4] == 1 { enabled_rules.push("nope") }
        let cfg = LintConfig { min_severity: SEVS[v[2]], max_issues: limits[v[3]], strict_mode: v[4] == 1, disabled_rules: on(dis[v[1]]), enabled_rules: enabled_rules.clone() };
        let got = guard(|| lint_script_with_analysis(&analysis, &cfg).unwrap())?;
        let mut want: Vec<&String> = vec![];
        for k in 0..8 {
            if dis[v[1]] >> k & 1 == 1 || !(enabled_rules.is_empty() || v[0] >> k & 1 == 1) { continue }
            want.extend(full[k].iter().filter(|x| x.0 >= SEVS[v[2]]).map(|x| &x.1));
        }
        if limits[v[3]] > 0 { want.truncate(limits[v[3]]) }
        if show(&got).iter().collect::<Vec<_>>() != want {
            return Err(format!("{cfg:?}: {} findings, expected {}", got.len(), want.len()));
        }
        run.steps(1);
        Ok(())
    });
    run.stage("rule lookup", 1, |_| {
        let ids: Vec<&str> = RULES.iter().map(|r| r.0).collect();
        if BuiltinRules::all_rule_ids() != ids { return Err("all_rule_ids".into()) }
        for (id, _) in RULES {
            if BuiltinRules::rule_by_id(id).map(|r| r.id()) != Some(id) { return Err(format!("rule_by_id({id})")) }
        }
        if BuiltinRules::rule_by_id("nope").is_some() { return Err("rule_by_id of an unknown name".into()) }
        for c in [Cat::Timing, Cat::Styling, Cat::Content, Cat::Performance, Cat::Compliance, Cat::Accessibility, Cat::Encoding] {
            let want: Vec<&str> = RULES.iter().filter(|r| r.1 == c).map(|r| r.0).collect();
            if BuiltinRules::rules_for_category(c).iter().map(|r| r.id()).collect::<Vec<_>>() != want { return Err(format!("rules_for_category({c})")) }
        }
        Ok(())
    });
}
