//! C09: overlap and timing analysis.
use ass_core::analysis::events::{self as ev, DialogueInfo, TimingRelation};
use ass_core::analysis::ScriptAnalysis;
use ass_core::parser::ast::Event;
use ass_core::parser::Script;
use ass_core::utils::format_ass_time;
use mc_common::*;
use std::collections::BTreeSet;

fn pairs(t: &[(u32, u32)]) -> BTreeSet<(usize, usize)> {
    let mut s = BTreeSet::new();
    for i in 0..t.len() {
        for j in i + 1..t.len() {
            let (a, b) = (t[i], t[j]);
            if a.0 < a.1 && b.0 < b.1 && a.0 < b.1 && b.0 < a.1 { s.insert((i, j)); }
        }
    }
    s
}

fn unordered(v: &[(usize, usize)]) -> Result<BTreeSet<(usize, usize)>, String> {
    let s: BTreeSet<_> = v.iter().map(|&(a, b)| (a.min(b), a.max(b))).collect();
    if s.len() != v.len() { return Err(format!("a pair is reported twice: {v:?}")) }
    Ok(s)
}

/// One list of intervals through every timing analysis.
fn check(run: &Run, t: &[(u32, u32)], ranges: &[u32]) -> Result<(), String> {
    let text: Vec<(String, String)> = t.iter().map(|&(a, b)| (format_ass_time(a), format_ass_time(b))).collect();
    let events: Vec<Event> = text.iter().map(|(a, b)| Event { start: a, end: b, text: "x", ..Event::default() }).collect();
    let refs: Vec<&Event> = events.iter().collect();
    let ctx = |m: String| format!("events {t:?}: {m}");
    let want = pairs(t);
    let got = guard(|| (ev::find_overlapping_events(&events), ev::find_overlapping_event_refs(&refs), ev::count_overlapping_events(&events))).map_err(|p| ctx(format!("panic {p}")))?;
    for g in [got.0.as_ref(), got.1.as_ref()] {
        let g = g.map_err(|e| ctx(e.to_string()))?;
        if unordered(g)? != want { return Err(ctx(format!("overlaps {g:?}, expected {want:?}"))) }
    }
    if got.2.ok() != Some(want.len()) { return Err(ctx("count_overlapping_events".into())) }
    run.state(&(t.len(), &want));
    // dialogue infos exist for events that last some time
    let mut infos = vec![];
    let mut kept = vec![];
    for (e, &(a, b)) in events.iter().zip(t) {
        match DialogueInfo::analyze(e) {
            Ok(i) if a < b => {
                if (i.start_time_cs(), i.end_time_cs(), i.duration_cs()) != (a, b, b - a) || i.duration_ms() as u64 != ((b - a) as u64 * 10).min(u32::MAX as u64) {
                    return Err(ctx(format!("info of {a}..{b}: {} {} {} {}", i.start_time_cs(), i.end_time_cs(), i.duration_cs(), i.duration_ms())));
                }
                infos.push(i);
                kept.push((a, b));
            }
            Err(_) if a >= b => {}
            r => return Err(ctx(format!("analyze({a}..{b}) is {r:?}"))),
        }
    }
    let kp = pairs(&kept);
    if unordered(&ev::find_overlapping_dialogue_events(&infos))? != kp || ev::count_overlapping_dialogue_events(&infos) != kp.len() {
        return Err(ctx("find_overlapping_dialogue_events".into()));
    }
    for (i, a) in kept.iter().enumerate() {
        for (j, b) in kept.iter().enumerate() {
            let want = if a == b {
                TimingRelation::Identical
            } else if !(a.0 < b.1 && b.0 < a.1) {
                TimingRelation::NoOverlap
            } else if (a.0 <= b.0 && b.1 <= a.1) || (b.0 <= a.0 && a.1 <= b.1) {
                TimingRelation::FullOverlap
            } else {
                TimingRelation::PartialOverlap
            };
            if infos[i].timing_relation(&infos[j]) != want { return Err(ctx(format!("relation of {a:?} to {b:?}: {:?}, expected {want:?}", infos[i].timing_relation(&infos[j])))) }
        }
        for &s in ranges {
            for &e in ranges {
                if infos[i].overlaps_time_range(s, e) != (a.0 < e && s < a.1) { return Err(ctx(format!("{a:?} overlaps_time_range({s}, {e})"))) }
            }
        }
    }
    for &s in ranges {
        for &e in ranges {
            let want: Vec<usize> = (0..kept.len()).filter(|&i| kept[i].0 < e && s < kept[i].1).collect();
            if ev::find_events_in_range(&infos, s, e) != want { return Err(ctx(format!("find_events_in_range({s}, {e})"))) }
        }
    }
    let total = kept.iter().map(|x| x.1).max().zip(kept.iter().map(|x| x.0).min()).map(|(b, a)| b - a);
    let sum: u64 = kept.iter().map(|x| (x.1 - x.0) as u64).sum();
    let avg = (!kept.is_empty()).then(|| (sum / kept.len() as u64) as u32);
    let g = guard(|| (ev::calculate_total_duration(&infos), ev::calculate_average_duration(&infos))).map_err(|p| ctx(format!("panic {p}")))?;
    if g != (total, avg) { return Err(ctx(format!("durations {g:?}, expected {:?}", (total, avg)))) }
    let mut sorted: Vec<DialogueInfo> = infos.clone();
    ev::sort_events_by_time(&mut sorted);
    let mut w = kept.clone();
    w.sort();
    if sorted.iter().map(|i| (i.start_time_cs(), i.end_time_cs())).collect::<Vec<_>>() != w { return Err(ctx("sort_events_by_time".into())) }
    run.traces(1);
    run.steps((t.len() * t.len()) as u64);
    Ok(())
}

pub fn c09(run: &Run) {
    run.rule("every list of up to 4 (thorough 5) events with start and end on a 5-point grid, lists over extreme times, and invalid times at every place");
    let g = 5u32;
    let n = (g * g) as usize;
    run.stage("grid", seq_count(n, run.pick(4, 5)), |i| {
        let t: Vec<(u32, u32)> = seq_at(n, i).iter().map(|&k| (k as u32 / g * 7, k as u32 % g * 7)).collect();
        check(run, &t, &[0, 6, 7, 14, 28])
    });
    const X: [u32; 5] = [0, 1, 429_496_729, 429_496_730, u32::MAX];
    run.stage("extremes", seq_count(25, run.pick(3, 4)), |i| {
        let t: Vec<(u32, u32)> = seq_at(25, i).iter().map(|&k| (X[k / 5], X[k % 5])).collect();
        check(run, &t, &X)
    });
    // times that do not parse
    const T: [&str; 5] = ["0:00:00.00", "0:00:01.00", "0:00:02.00", "x", ""];
    run.stage("invalid", seq_count(25, 3), |i| {
        let v = seq_at(25, i);
        let events: Vec<Event> = v.iter().map(|&k| Event { start: T[k / 5], end: T[k % 5], ..Event::default() }).collect();
        let bad = v.iter().any(|&k| k / 5 > 2 || k % 5 > 2);
        let r = guard(|| ev::find_overlapping_events(&events))?;
        // a list of fewer than two events has no pairs, whatever its times
        let want = if v.len() < 2 { Some(BTreeSet::new()) } else if bad { None } else { Some(pairs(&v.iter().map(|&k| (k as u32 / 5, k as u32 % 5)).collect::<Vec<_>>())) };
        let got = match &r { Ok(p) => Some(unordered(p)?), Err(_) => None };
        if got != want { return Err(format!("{events:?}: {got:?}, expected {want:?}")) }
        Ok(())
    });
    // the whole script: every events section counts, in the order written
    run.stage("scripts", seq_count(18, run.pick(4, 5)), |i| {
        let v = seq_at(18, i);
        let mut src = String::from("[Script Info]\nTitle: t\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n");
        let mut t = vec![];
        for &k in &v {
            if k >= 16 { src.push_str(["[Events]\n", "[Unknown]\n[Events]\n"][k - 16]); continue }
            let (a, b) = (k as u32 / 4, k as u32 % 4);
            src.push_str(&format!("{}: 0,{},{},Default,,0,0,0,,{{\\move(1,2,3,4)}}x\n", ["Dialogue", "Comment"][(a + b) as usize % 2], format_ass_time(a), format_ass_time(b)));
            if a < b { t.push((a, b)) }
        }
        let s = Script::parse(&src).map_err(|e| e.to_string())?;
        let a = ScriptAnalysis::analyze(&s).map_err(|e| e.to_string())?;
        let got: Vec<_> = a.dialogue_info().iter().map(|d| (d.start_time_cs(), d.end_time_cs())).collect();
        let p = a.performance_summary();
        if got != t || p.total_events != t.len() || p.overlapping_events != pairs(&t).len() || p.complex_animations != t.len() {
            return Err(format!("{src:?}: {got:?} {p:?}, expected {t:?}"));
        }
        Ok(())
    });
    // counts around every threshold of the summary
    let cases: Vec<(usize, usize, usize)> = {
        let mut c = vec![];
        for n in (0..13).chain([49, 50, 51, 99, 100, 101, 499, 500, 501, 999, 1000, 1001]) {
            for anim in [0, 49, 50, 51, 99, 100, 101, 600] {
                for same in [0, 1, 2, 3, 6, 7, 10, 11, 12] { c.push((n, anim.min(n), same.min(n))) }
            }
        }
        c.sort();
        c.dedup();
        c
    };
    run.stage("summary", cases.len() as u64, |i| {
        let (n, anim, same) = cases[i as usize];
        let mut src = String::from("[Events]\n");
        for k in 0..n {
            let at = if k < same { 0 } else { k as u32 * 10 };
            src.push_str(&format!("Dialogue: 0,{},{},Default,,0,0,0,,{}x\n", format_ass_time(at), format_ass_time(at + 10), if k < anim { "{\\t(1)}" } else { "" }));
        }
        let s = Script::parse(&src).map_err(|e| e.to_string())?;
        let p = ScriptAnalysis::analyze(&s).map_err(|e| e.to_string())?.performance_summary();
        let over = same * same.saturating_sub(1) / 2;
        let mut w = 100u8;
        w -= if n > 1000 { 20 } else if n > 500 { 10 } else { 0 };
        w -= if over > 50 { 15 } else if over > 20 { 8 } else { 0 };
        w -= if anim > 100 { 10 } else if anim > 50 { 5 } else { 0 };
        if (p.total_events, p.overlapping_events, p.complex_animations, p.performance_score) != (n, over, anim, w) {
            return Err(format!("{n} events, {anim} animated, {same} at once: {p:?}, expected overlaps {over}, score {w}"));
        }
        Ok(())
    });
    // animation and complexity scores saturate
    const NAMES: [(&str, u32); 7] = [("b1", 1), ("fscx2", 3), ("move(1,2,3,4)", 4), ("t(1)", 5), ("p0", 8), ("k5", 2), ("clip(1)", 3)];
    run.stage("scores", 7 * 300 * 6, |i| {
        let d = mixed(&[7, 300, 6], i);
        let (tag, w) = NAMES[d[0]];
        let chars = [0, 50, 51, 201, 501, 1001][d[2]];
        let text = format!("{}{}", format!("{{\\{tag}}}").repeat(d[1]), "x".repeat(chars));
        let e = Event { start: "0:00:00.00", end: "0:00:01.00", text: &text, ..Event::default() };
        let info = guard(|| DialogueInfo::analyze(&e)).map_err(|p| format!("{} tags {tag}: panic {p}", d[1]))?.map_err(|e| e.to_string())?;
        let anim = (w * d[1] as u32).min(10);
        let score = anim * 5 + [0, 0, 5, 15, 30, 50][d[2]] + match d[1] { 0 => 0, 1..=5 => 5, 6..=15 => 15, 16..=30 => 25, _ => 35 };
        if (info.animation_score() as u32, info.complexity_score() as u32, info.override_count()) != (anim, score.min(100), d[1]) {
            return Err(format!("{} tags {tag}, {chars} characters: {} {}, expected {anim} {score}", d[1], info.animation_score(), info.complexity_score()));
        }
        Ok(())
    });
}
