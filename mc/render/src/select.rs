//! R01: which events are shown at a time.
use crate::mx;
use ass_core::parser::Script;
use ass_renderer::renderer::EventSelector;
use mc_common::*;
use std::collections::BTreeSet;

/// An event as planned: kind (0 dialogue, 1 comment, 2 another kind), start and end
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
struct E {
    kind: u8,
    start: u32,
    end: u32,
}

fn stamp(cs: u32) -> String {
    format!("{}:{:02}:{:02}.{:02}", cs / 360000, cs / 6000 % 60, cs / 100 % 60, cs % 100)
}

/// `split`: events from this number on go to a second section
fn source(events: &[E], split: usize, tag: &str) -> String {
    let mut s = String::from("[Script Info]\nTitle: t\n\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n");
    for (i, e) in events.iter().enumerate() {
        if i == split {
            s.push_str("\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize\nStyle: Default,Arial,20\n\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n");
        }
        let kind = ["Dialogue", "Comment", "Picture"][e.kind as usize];
        s.push_str(&format!("{kind}: 0,{},{},Default,,0,0,0,,{tag}{i}\n", stamp(e.start), stamp(e.end)));
    }
    s
}

/// what the statement says is shown
fn shown(events: &[E], comments: bool, t: u32) -> Vec<usize> {
    (0..events.len()).filter(|&i| (events[i].kind == 0 || comments && events[i].kind == 1) && events[i].start <= t && t < events[i].end).collect()
}

struct Seen {
    events: Vec<String>,
    on: Vec<usize>,
    off: Vec<usize>,
    dirty: bool,
}

fn ask(sel: &mut EventSelector, script: &Script<'_>, t: u32) -> Result<Seen, String> {
    let a = sel.select_active(script, t).map_err(|e| format!("selecting at {t} fails: {e}"))?;
    Ok(Seen { events: a.events.iter().map(|e| e.text.to_string()).collect(), on: a.newly_active, off: a.newly_inactive, dirty: a.is_dirty })
}

fn diff(a: &[usize], b: &[usize]) -> Vec<usize> {
    a.iter().filter(|i| !b.contains(i)).copied().collect()
}

fn check(seen: &Seen, tag: &str, want: &[usize], before: Option<&[usize]>) -> Result<(), String> {
    let names: Vec<String> = want.iter().map(|i| format!("{tag}{i}")).collect();
    if seen.events != names {
        return Err(format!("shown are {:?} instead of {names:?}", seen.events));
    }
    if let Some(before) = before {
        let (on, off) = (diff(want, before), diff(before, want));
        if seen.on != on || seen.off != off {
            return Err(format!("after {before:?} came {want:?}, but newly shown is {:?} and newly hidden {:?}", seen.on, seen.off));
        }
        if !seen.dirty && !(on.is_empty() && off.is_empty()) {
            return Err(format!("{on:?} appeared and {off:?} disappeared, yet nothing is reported to redraw"));
        }
    }
    Ok(())
}

pub fn r01(r: &Run) {
    r.rule("every set of events over a time grid (all kinds, empty and reversed intervals, one or two events sections) at every time of the grid; every sequence of requests, of switching comments and of resets over an alphabet of scripts and times, the scripts kept alive or parsed anew for each request");
    r.assume("newly shown and hidden events are compared within one script only: numbers of events of different scripts do not denote the same events");
    let grids: [Vec<u32>; 2] = [vec![0, 1, 2, 3], vec![0, 99, 6000, 360000]];
    for (g, grid) in grids.iter().enumerate() {
        let n = grid.len() as u64;
        let kinds = r.pick(2u64, 3);
        let per = kinds * n * n;
        let max = if g == 0 { 3 } else { 2 };
        let times: Vec<u32> = grid.iter().flat_map(|&t| [t.saturating_sub(1), t, t + 1]).collect::<BTreeSet<_>>().into_iter().collect();
        r.stage(&format!("event-sets-{g}"), seq_count(per as usize, max), |k| {
            let events: Vec<E> = seq_at(per as usize, k)
                .iter()
                .map(|&d| {
                    let d = mx(&[kinds, n, n], d as u64);
                    E { kind: d[0] as u8, start: grid[d[1] as usize], end: grid[d[2] as usize] }
                })
                .collect();
            for split in [usize::MAX, events.len() / 2] {
                let src = source(&events, split, "e");
                let script = Script::parse(&src).map_err(|e| e.to_string())?;
                for comments in [false, true] {
                    // upwards, then downwards
                    let mut sel = EventSelector::new();
                    sel.set_render_comments(comments);
                    let mut before: Vec<usize> = vec![];
                    for &t in times.iter().chain(times.iter().rev()) {
                        let want = shown(&events, comments, t);
                        let seen = ask(&mut sel, &script, t)?;
                        check(&seen, "e", &want, Some(&before)).map_err(|m| format!("{events:?} with comments {comments} at {t}: {m}"))?;
                        r.state(&(&events, split == usize::MAX, comments, t));
                        before = want;
                        r.steps(1);
                    }
                }
            }
            Ok(())
        });
    }

    // histories over an alphabet of scripts
    let e = |kind, start, end| E { kind, start, end };
    let scripts: Vec<Vec<E>> = vec![
        vec![e(0, 1, 3), e(1, 0, 2), e(0, 2, 4)],
        // as many events, other times
        vec![e(0, 2, 4), e(1, 1, 4), e(0, 0, 1)],
        // as many events, other kinds
        vec![e(1, 1, 3), e(0, 0, 2), e(0, 2, 4)],
        // fewer events
        vec![e(0, 1, 3), e(1, 0, 2)],
        vec![],
        // unsorted, nested and touching, a long one between short ones
        vec![e(0, 2, 3), e(0, 0, 9), e(0, 3, 3), e(0, 1, 2), e(1, 0, 9)],
        // same first and last event as the first script, another one between
        vec![e(0, 1, 3), e(1, 1, 2), e(0, 2, 4)],
    ];
    let times = [0u32, 1, 2, 3, 200];
    let ns = r.pick(3, scripts.len()) as u64;
    let base = ns * times.len() as u64;
    let ops = base + 3;
    let depth = 4;
    for fresh in [false, true] {
        r.stage(if fresh { "histories-reparsed" } else { "histories-kept" }, seq_count(ops as usize, depth), |k| {
            let path = seq_at(ops as usize, k);
            let kept: Vec<(String, String)> = scripts.iter().enumerate().map(|(i, s)| (source(s, if i == 5 { 2 } else { usize::MAX }, &format!("s{i}e")), format!("s{i}e"))).collect();
            let parsed: Vec<Script<'_>> = kept.iter().map(|(s, _)| Script::parse(s).unwrap()).collect();
            let mut sel = EventSelector::new();
            let (mut comments, mut before): (bool, Option<(usize, Vec<usize>)>) = (false, None);
            let mut asked = 0u64;
            for (step, &op) in path.iter().enumerate() {
                let op = op as u64;
                if op >= base {
                    match op - base {
                        0 | 1 => {
                            comments = op == base;
                            sel.set_render_comments(comments);
                        }
                        _ => {
                            sel.reset();
                            before = None;
                        }
                    }
                    continue;
                }
                let (s, t) = ((op / times.len() as u64) as usize, times[(op % times.len() as u64) as usize]);
                let want = shown(&scripts[s], comments, t);
                let seen = if fresh {
                    let text = kept[s].0.clone();
                    let script = Script::parse(&text).map_err(|e| e.to_string())?;
                    ask(&mut sel, &script, t)?
                } else {
                    ask(&mut sel, &parsed[s], t)?
                };
                asked += 1;
                let last = match &before {
                    None => Some(vec![]),
                    Some((b, l)) if *b == s => Some(l.clone()),
                    _ => None,
                };
                check(&seen, &kept[s].1, &want, last.as_deref()).map_err(|m| format!("step {step} of {}: {m}", told(&path, &times, base)))?;
                r.state(&(s, comments, t, before.as_ref().map(|(b, l)| (*b, l.clone()))));
                before = Some((s, want));
            }
            r.steps(asked);
            r.traces(1);
            Ok(())
        });
    }

    // what cannot be read as a time does not stop anything
    let stamps = ["", "x", "0:00", "-1:00:00.00", "0:00:00.000", "99999999:00:00.00", "4294967295:59:59.99", "0:60:00.00", "0:00:60.00", "1:2:3.4", "é"];
    r.stage("unreadable-times", (stamps.len() * stamps.len()) as u64, |k| {
        let d = mx(&[stamps.len() as u64, stamps.len() as u64], k);
        let (a, b) = (stamps[d[0] as usize], stamps[d[1] as usize]);
        let src = format!("[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\nDialogue: 0,0:00:00.00,0:00:01.00,D,,0,0,0,,x\nDialogue: 0,{a},{b},D,,0,0,0,,y\nDialogue: 0,0:00:00.50,0:00:02.00,D,,0,0,0,,z\n");
        let script = Script::parse(&src).map_err(|e| e.to_string())?;
        for t in [0, 60, 150, u32::MAX] {
            let mut sel = EventSelector::new();
            let seen = guard(|| ask(&mut sel, &script, t)).map_err(|m| format!("start {a:?}, end {b:?} at {t}: {m}"))??;
            let others: Vec<&String> = seen.events.iter().filter(|e| *e != "y").collect();
            let want: Vec<&str> = [("x", 0, 100), ("z", 50, 200)].iter().filter(|e| e.1 <= t && t < e.2).map(|e| e.0).collect();
            if others != want {
                return Err(format!("beside an event from {a:?} to {b:?}, {t} shows {others:?} instead of {want:?}"));
            }
            r.steps(1);
        }
        Ok(())
    });
}

fn told(path: &[usize], times: &[u32], base: u64) -> String {
    path.iter()
        .map(|&op| match op as u64 {
            o if o < base => format!("script {} at {}", o / times.len() as u64, times[(o % times.len() as u64) as usize]),
            o if o == base => "comments on".into(),
            o if o == base + 1 => "comments off".into(),
            _ => "reset".into(),
        })
        .collect::<Vec<_>>()
        .join(", ")
}
