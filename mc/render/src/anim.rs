//! R03: animations.
use crate::mx;
use crate::pipe::*;
use ass_renderer::animation::{AnimatedResult, AnimatedValue, AnimationController, AnimationInterpolation, AnimationTag, AnimationTiming, AnimationTrack};
use ass_renderer::pipeline::transform::TransformAnimation;
use mc_common::*;

fn numbers(r: &AnimatedResult) -> Vec<f64> {
    match r {
        AnimatedResult::Integer(v) => vec![f64::from(*v)],
        AnimatedResult::Float(v) => vec![f64::from(*v)],
        AnimatedResult::Color(c) => c.iter().map(|v| f64::from(*v)).collect(),
        AnimatedResult::Position(p) | AnimatedResult::Scale(p) => vec![f64::from(p.0), f64::from(p.1)],
    }
}

fn ends(v: &AnimatedValue) -> (Vec<f64>, Vec<f64>) {
    match v {
        AnimatedValue::Integer { from, to } => (vec![f64::from(*from)], vec![f64::from(*to)]),
        AnimatedValue::Float { from, to } => (vec![f64::from(*from)], vec![f64::from(*to)]),
        AnimatedValue::Color { from, to } => (from.iter().map(|v| f64::from(*v)).collect(), to.iter().map(|v| f64::from(*v)).collect()),
        AnimatedValue::Position { from, to } | AnimatedValue::Scale { from, to } => (vec![f64::from(from.0), f64::from(from.1)], vec![f64::from(to.0), f64::from(to.1)]),
    }
}

fn values() -> Vec<AnimatedValue> {
    let mut v = Vec::new();
    let ints = [0, 1, -1, 100, 255, i32::MAX, i32::MIN];
    let floats = [0.0f32, 0.1, 0.7, -3.5, 100.0, 1.0e9, 3.0e38, -3.0e38];
    for a in ints {
        v.extend(ints.iter().map(|&b| AnimatedValue::Integer { from: a, to: b }));
    }
    for a in floats {
        for b in floats {
            v.push(AnimatedValue::Float { from: a, to: b });
            v.push(AnimatedValue::Position { from: (a, b), to: (b, -a) });
            v.push(AnimatedValue::Scale { from: (b, a), to: (a, 1.0) });
        }
    }
    for (a, b) in [([0, 0, 0, 0], [255, 255, 255, 255]), ([255, 0, 128, 7], [0, 255, 128, 200]), ([1, 2, 3, 4], [4, 3, 2, 1])] {
        v.push(AnimatedValue::Color { from: a, to: b });
    }
    v
}

/// The share of the way done at a time, as stated
fn share(start: u32, end: u32, accel: f32, kind: AnimationInterpolation, t: u32) -> f64 {
    let p = if t <= start {
        0.0
    } else if t >= end {
        1.0
    } else {
        let linear = f64::from(t - start) / f64::from(end - start);
        if (accel - 1.0).abs() < 0.001 {
            linear
        } else {
            linear.powf(f64::from(accel))
        }
    };
    match kind {
        AnimationInterpolation::Linear => p,
        AnimationInterpolation::Smooth => p * p * (3.0 - 2.0 * p),
        AnimationInterpolation::Smoother => p * p * p * (p * (p * 6.0 - 15.0) + 10.0),
    }
}

/// `got` lies at `p` of the way from `from` to `to`
fn near(what: &str, got: f64, from: f64, to: f64, p: f64, whole: bool) -> Result<(), String> {
    let want = from + (to - from) * p;
    let room = (to - from).abs() * 2.0e-6 + from.abs().max(to.abs()) * 3.0e-7 + if whole { 1.0 } else { 0.0 };
    if (got - want).abs() > room {
        return Err(format!("{what}: {got} instead of {want}, {p} of the way from {from} to {to}"));
    }
    let (low, high) = (from.min(to), from.max(to));
    if got < low || got > high {
        return Err(format!("{what}: {got} lies outside {low} to {high}"));
    }
    if p == 0.0 && got != from || p == 1.0 && got != to {
        return Err(format!("{what}: {got} at {p} of the way from {from} to {to}"));
    }
    Ok(())
}

fn monotone(what: &str, all: &[f64], from: f64, to: f64) -> Result<(), String> {
    match all.windows(2).position(|w| if to >= from { w[1] < w[0] } else { w[1] > w[0] }) {
        Some(i) => Err(format!("{what}: {} then {} on the way from {from} to {to}", all[i], all[i + 1])),
        None => Ok(()),
    }
}

const KINDS: [AnimationInterpolation; 3] = [AnimationInterpolation::Linear, AnimationInterpolation::Smooth, AnimationInterpolation::Smoother];
const ACCELS: [f32; 8] = [1.0, 0.0, 0.3, 0.5, 2.0, 3.0, 7.5, 40.0];

fn track_case(run: &Run, value: &AnimatedValue, kind: AnimationInterpolation, start: u32, end: u32, accel: f32) -> Result<(), String> {
    let track = AnimationTrack::new("p".into(), AnimationTiming::new(start, end, accel), value.clone(), kind);
    let mut times: Vec<u32> = (0..12).chain(u32::MAX - 12..=u32::MAX).chain([100, 1 << 24, 1 << 31]).collect();
    if end > start {
        times.extend((0..16).map(|k| start + ((end - start) as u64 * k / 16) as u32));
    }
    times.sort_unstable();
    times.dedup();
    let (from, to) = ends(value);
    let whole = !matches!(value, AnimatedValue::Float { .. } | AnimatedValue::Position { .. } | AnimatedValue::Scale { .. });
    let mut seen: Vec<Vec<f64>> = vec![Vec::new(); from.len()];
    for &t in &times {
        run.steps(1);
        let got = numbers(&track.evaluate(t));
        if got.len() != from.len() {
            return Err(format!("{value:?} evaluates to another kind"));
        }
        let p = share(start, end, accel, kind, t);
        for i in 0..got.len() {
            near(&format!("{value:?} {kind:?} over {start}..{end} accel {accel} at {t}, part {i}"), got[i], from[i], to[i], p, whole)?;
            seen[i].push(got[i]);
        }
    }
    for i in 0..seen.len() {
        monotone(&format!("{value:?} {kind:?} over {start}..{end} accel {accel}"), &seen[i], from[i], to[i])?;
    }
    Ok(())
}

/// Modifiers with the property they animate and its ends, or none
fn modifiers() -> Vec<(&'static str, Option<(&'static str, Vec<f64>, Vec<f64>)>)> {
    vec![
        ("\\fscx(100,200)", Some(("fscx", vec![100.0], vec![200.0]))),
        ("\\fscy(50,25.5)", Some(("fscy", vec![50.0], vec![25.5]))),
        ("\\fs(20,40)", Some(("fs", vec![20.0], vec![40.0]))),
        ("\\frz(0,-360)", Some(("frz", vec![0.0], vec![-360.0]))),
        ("\\fr(10,5)", Some(("frz", vec![10.0], vec![5.0]))),
        ("\\c(&H0000FF&,&HFF0000&)", Some(("c", vec![255.0, 0.0, 0.0, 255.0], vec![0.0, 0.0, 255.0, 255.0]))),
        ("\\1c(&H80010203&,&H00102030)", Some(("c", vec![3.0, 2.0, 1.0, 127.0], vec![48.0, 32.0, 16.0, 255.0]))),
        ("\\alpha(&H00&,&HFF&)", Some(("alpha", vec![255.0], vec![0.0]))),
        ("\\fsp(1,2)", None),
        ("\\fry(1,2)", None),
        ("\\clip(1,2)", None),
        ("\\fs20", None),
        ("\\fs(1)", None),
        ("\\fs)1,2(", None),
        ("\\fs(1,2,3)", None),
        ("", None),
    ]
}

fn controller_case(run: &Run, tags: &[(usize, usize, usize, usize)], start: u32, end: u32) -> Result<(), String> {
    let mods = modifiers();
    let t1s = [None, Some(0), Some(3), Some(u32::MAX)];
    let t2s = [None, Some(0), Some(8), Some(u32::MAX)];
    let accels = [None, Some(1.0), Some(2.0)];
    let mut c = AnimationController::new();
    // the animations, latest last
    let mut want: Vec<(&str, u32, u32, f32, Vec<f64>, Vec<f64>)> = Vec::new();
    for &(m, a, b, k) in tags {
        let tag = AnimationTag { t1: t1s[a], t2: t2s[b], accel: accels[k], modifiers: vec![mods[m].0.to_string()] };
        c.add_from_tag(&tag, start, end).map_err(|e| format!("{tag:?} is refused: {e}"))?;
        if let Some((name, from, to)) = &mods[m].1 {
            want.push((name, start.saturating_add(t1s[a].unwrap_or(0)), t2s[b].map_or(end, |t| start.saturating_add(t)), accels[k].unwrap_or(1.0), from.clone(), to.clone()));
        }
    }
    for t in (0..30).step_by(3).chain([u32::MAX - 9, u32::MAX - 1, u32::MAX]) {
        run.steps(1);
        let state = c.evaluate(t);
        for name in ["fscx", "fscy", "fs", "frz", "c", "alpha", "fsp", "fry", "clip", "p"] {
            let expect = want.iter().rev().find(|w| w.0 == name);
            let got = state.get_property(name).map(numbers);
            match (expect, got) {
                (None, None) => {}
                (Some((_, s, e, accel, from, to)), Some(got)) if got.len() == from.len() => {
                    let p = share(*s, *e, *accel, AnimationInterpolation::Linear, t);
                    for i in 0..got.len() {
                        near(&format!("{name} of {tags:?} in {start}..{end} at {t}"), got[i], from[i], to[i], p, got.len() == 4 || name == "alpha")?;
                    }
                }
                (_, got) => return Err(format!("{tags:?} gives {name} the value {got:?}")),
            }
        }
        let active = want.iter().filter(|w| w.1 <= t && t <= w.2).count();
        if c.active_tracks(t).len() != active || c.is_active(t) != (active > 0) {
            return Err(format!("{tags:?} in {start}..{end}: {} are active at {t} instead of {active}", c.active_tracks(t).len()));
        }
        // the named readings agree with the properties
        let one = |n: &str| state.get_property(n).map(|r| numbers(r)[0]);
        let scale = match (one("fscx"), one("fscy")) {
            (None, None) => None,
            (x, y) => Some((x.unwrap_or(100.0), y.unwrap_or(100.0))),
        };
        if state.font_size().map(f64::from) != one("fs") || state.rotation().map(f64::from) != one("frz") || state.scale().map(|(x, y)| (f64::from(x), f64::from(y))) != scale || state.color().map(|c| c.map(f64::from).to_vec()) != state.get_property("c").map(numbers) {
            return Err(format!("{tags:?} at {t}: the readings differ from the properties"));
        }
    }
    Ok(())
}

/// Parameter lists of `\t` with what they state: start, end (0 for the whole event) and acceleration
const PARAMS: [(&str, u32, u32, f32); 17] = [
    ("", 0, 0, 1.0),
    ("1,", 0, 0, 1.0),
    ("2,", 0, 0, 2.0),
    ("3,", 0, 0, 3.0),
    ("0.3,", 0, 0, 0.3),
    ("0,0,", 0, 0, 1.0),
    ("0,500,", 0, 500, 1.0),
    (" 200 , 700 ,", 200, 700, 1.0),
    ("200,700,2,", 200, 700, 2.0),
    ("200,700,3,", 200, 700, 3.0),
    ("200,700,1.7,", 200, 700, 1.7),
    ("300,300,", 300, 300, 1.0),
    ("10,20,", 10, 20, 1.0),
    ("700,200,", 700, 200, 1.0),
    ("900,5000,", 900, 5000, 1.0),
    ("5000,9000,", 5000, 9000, 1.0),
    ("0,4294967295,0.4,", 0, u32::MAX, 0.4),
];

fn way(start: u32, end: u32, accel: f32, t: u32, whole: u32) -> f64 {
    let end = if end > 0 { end } else { whole };
    share(start, end, accel, AnimationInterpolation::Linear, t)
}

fn progress_case(run: &Run, p: usize, whole: u32) -> Result<(), String> {
    let (params, start, end, accel) = PARAMS[p];
    let arg = format!("({params}\\fs40\\frz90)");
    let a = TransformAnimation::parse(&arg).ok_or_else(|| format!("{arg} is not a transform"))?;
    let mut last = 0.0;
    for t in (0..=1000).step_by(7).chain([4999, 5000, 5001, 8999, 9000, u32::MAX - 1, u32::MAX]) {
        run.steps(1);
        let got = f64::from(a.calculate_progress(t, whole));
        near(&format!("{arg} in an event of {whole} ms at {t}"), got, 0.0, 1.0, way(start, end, accel, t, whole), false)?;
        if got < last {
            return Err(format!("{arg} in an event of {whole} ms goes back to {got} from {last} at {t}"));
        }
        last = got;
    }
    Ok(())
}

/// Tags with the number they animate, as (plain tag, what it sets)
fn targets() -> Vec<(&'static str, Vec<usize>)> {
    let rgb = |at: usize| vec![at, at + 1, at + 2];
    vec![
        ("\\fs30", vec![FS]),
        ("\\fs5.5", vec![FS]),
        ("\\fscx150", vec![SCALE_X]),
        ("\\fscy40", vec![SCALE_Y]),
        ("\\fsp7", vec![SPACING]),
        ("\\frz-270", vec![TURN_Z]),
        ("\\fr90", vec![TURN_Z]),
        ("\\frx33", vec![TURN_X]),
        ("\\fry-33", vec![TURN_Y]),
        ("\\c&H010203&", rgb(FILL)),
        ("\\1c&HFFFEFD&", rgb(FILL)),
        ("\\3c&H808000&", rgb(LINE)),
        ("\\4c&H123456&", rgb(SHADE)),
        ("\\alpha&H80&", vec![FILL + 3, LINE + 3, SHADE + 3]),
        ("\\alpha&HFF", vec![FILL + 3, LINE + 3, SHADE + 3]),
        ("\\bord4", vec![BORDER_X, BORDER_Y]),
        ("\\bord0.5", vec![BORDER_X, BORDER_Y]),
        ("\\shad5", vec![SHADOW_X, SHADOW_Y]),
        ("\\blur3", vec![BLUR]),
    ]
}

/// Fill, outline and shadow are drawn all along, so that each of their numbers can be seen
const STYLES: [&str; 2] = ["12,&H40FF8000,&H000000FF,&H20112233,&H60334455,0,0,0,0,80,120,3,0,1,2,3,2,2,2,2,1", "20,&H00FFFFFF,&H000000FF,&H00000000,&H00000000,0,0,0,0,100,100,0,0,1,1,1,7,0,0,0,1"];
const BEFORE: [&str; 4] = ["", "\\fs8\\c&H00FF00&\\alpha&H10&\\bord1\\shad1\\fsp1", "\\frz45\\frx10\\fry10\\3c&HFFFFFF&\\4c&HFFFFFF&", "\\fscx50\\fscy200\\blur1"];

fn one_look(source: &str, t: u32) -> Result<Look, String> {
    let mut all = looks(&layers(source, t)?);
    if all.len() != 1 {
        return Err(format!("{source:?} at {t} is drawn as {} texts", all.len()));
    }
    Ok(all.remove(0))
}

fn layer_case(run: &Run, style: usize, before: usize, tags: &[(usize, usize)], start: u32, length: u32) -> Result<(), String> {
    let all = targets();
    let b = BEFORE[before];
    let transforms: String = tags.iter().map(|&(g, p)| format!("\\t({}{})", PARAMS[p].0, all[g].0)).collect();
    let end = start + length;
    let from = one_look(&script(STYLES[style], start, end, &format!("{{\\pos(30,30){b}}}ab")), start)?;
    let to: Vec<Look> = tags.iter().map(|&(g, _)| one_look(&script(STYLES[style], start, end, &format!("{{\\pos(30,30){b}{}}}ab", all[g].0)), start)).collect::<Result<_, _>>()?;
    let source = script(STYLES[style], start, end, &format!("{{\\pos(30,30){b}{transforms}}}ab"));
    for t in (start..=end).step_by(if length > 40 { 7 } else { 1 }).chain([end.saturating_sub(1).max(start), end]) {
        run.steps(1);
        let got = one_look(&source, t)?;
        let mut want = from.v;
        let (mut low, mut high) = (from.v, from.v);
        for (i, &(g, p)) in tags.iter().enumerate() {
            let (_, s, e, accel) = PARAMS[p];
            let w = way(s, e, accel, (t - start) * 10, length * 10);
            for &k in &all[g].1 {
                want[k] += (to[i].v[k] - want[k]) * w;
                low[k] = low[k].min(to[i].v[k]);
                high[k] = high[k].max(to[i].v[k]);
            }
        }
        for k in 0..LOOKS {
            let colour = (FILL..BORDER_X).contains(&k);
            // a scale within a hundredth of 100 counts as none
            let scale = if k <= SCALE_Y { 0.011 } else { 0.0 };
            let room = scale + (high[k] - low[k]) * 3.0e-6 + want[k].abs() * 1.0e-6 + if colour { tags.len() as f64 } else { 0.0 };
            if (got.v[k] - want[k]).abs() > room || got.v[k] < low[k] - 1e-4 - scale || got.v[k] > high[k] + 1e-4 + scale {
                return Err(format!("{b}{transforms} over {start}..{end} at {t}: part {k} is {} instead of {} ({} to {})", got.v[k], want[k], low[k], high[k]));
            }
            // what no running transform touches is as before
            if (high[k] - low[k]).abs() < 1e-4 && (got.v[k] - from.v[k]).abs() > 1e-4 + scale {
                return Err(format!("{b}{transforms} at {t}: part {k} turns from {} to {}", from.v[k], got.v[k]));
            }
        }
        if got.rest != from.rest || got.karaoke != from.karaoke {
            return Err(format!("{b}{transforms} at {t}: {} {:?} instead of {} {:?}", got.rest, got.karaoke, from.rest, from.karaoke));
        }
        if got.around.is_some_and(|o| from.around.is_some_and(|f| f != o)) {
            return Err(format!("{b}{transforms} at {t}: turned about {:?} instead of {:?}", got.around, from.around));
        }
        let tiny = tags.iter().all(|&(_, p)| (t - start) * 10 <= PARAMS[p].1);
        if tiny && got != from {
            return Err(format!("{b}{transforms} at {t}, before anything starts: {got:?} instead of {from:?}"));
        }
        if let [(_, p)] = tags {
            let (_, s, e, accel) = PARAMS[*p];
            if way(s, e, accel, (t - start) * 10, length * 10) == 1.0 && got.v != to[0].v {
                return Err(format!("{b}{transforms} at {t}, after the end: {:?} instead of {:?}", got.v, to[0].v));
            }
        }
    }
    Ok(())
}

/// Times of a `\move` or none, and what they state in ms (0 to 0: the whole event)
const MOVES: [(&str, u32, u32); 9] = [("", 0, 0), (",0,0", 0, 0), (",0,500", 0, 500), (",200,700", 200, 700), (", 200 , 210", 200, 210), (",300,300", 300, 300), (",3,8", 3, 8), (",500,4294967295", 500, u32::MAX), (",5000,9000", 5000, 9000)];

fn move_case(run: &Run, style: usize, align: &str, ends: [i32; 4], times: usize, start: u32, length: u32, layout: bool) -> Result<(), String> {
    let [x1, y1, x2, y2] = ends;
    // coordinates of a layout of other proportions
    let script = |style: &str, start: u32, end: u32, text: &str| {
        let s = script(style, start, end, text);
        if layout { s.replace("[Script Info]\n", "[Script Info]\nLayoutResX: 100\nLayoutResY: 200\n") } else { s }
    };
    let (t, s, e) = MOVES[times];
    let end = start + length;
    let at = |x: i32, y: i32| one_look(&script(STYLES[style], start, end, &format!("{{{align}\\pos({x},{y})}}ab")), start);
    let (from, to) = (at(x1, y1)?, at(x2, y2)?);
    let source = script(STYLES[style], start, end, &format!("{{{align}\\move({x1},{y1},{x2},{y2}{t})}}ab"));
    let (begin, stop) = if s == 0 && e == 0 { (0, length * 10) } else { (s, e) };
    for now in (start..=end).step_by(if length > 40 { 7 } else { 1 }).chain([end]) {
        run.steps(1);
        let got = one_look(&source, now)?;
        if got.v != from.v || got.rest != from.rest {
            return Err(format!("\\move{ends:?}{t} changes more than the place"));
        }
        // times between two hundredths are rounded
        let ms = (now - start) * 10;
        let early = share(begin, stop, 1.0, AnimationInterpolation::Linear, ms.saturating_sub(10));
        let late = share(begin, stop, 1.0, AnimationInterpolation::Linear, ms + 10);
        let exact = begin % 10 == 0 && (stop % 10 == 0 || stop == u32::MAX);
        let p = share(begin, stop, 1.0, AnimationInterpolation::Linear, ms);
        for (g, a, b) in [(got.x, from.x, to.x), (got.y, from.y, to.y)] {
            let line = |p: f64| a + (b - a) * p;
            let (low, high) = if exact { (line(p), line(p)) } else { (line(early), line(late)) };
            if g < low.min(high) - 1e-3 || g > low.max(high) + 1e-3 {
                return Err(format!("\\move{ends:?}{t} over {start}..{end} at {now}: {g} instead of {low} to {high} (from {a} to {b})"));
            }
            if p == 0.0 && early == late && g != a || p == 1.0 && early == 1.0 && (g - b).abs() > 1e-4 {
                return Err(format!("\\move{ends:?}{t} over {start}..{end} at {now}: {g} is not the end {a} or {b}"));
            }
        }
    }
    Ok(())
}

/// Fades with the transparency (0 opaque, 255 clear) they state, over time in ms
fn fades() -> Vec<(String, [u32; 3], [u32; 4], bool)> {
    let mut all = Vec::new();
    // (fade-in, fade-out) lengths
    for (i, o) in [(0, 0), (300, 200), (0, 400), (400, 0), (1000, 0), (0, 1000), (700, 700), (2000, 3000), (10, 10)] {
        all.push((format!("\\fad({i},{o})"), [255, 0, 255], [0, i, o, 0], true));
    }
    for a in [[255, 0, 255], [255, 32, 224], [0, 255, 0], [10, 10, 10], [0, 128, 255]] {
        for t in [[0, 300, 600, 900], [100, 200, 700, 800], [0, 0, 1000, 1000], [200, 200, 500, 500], [0, 500, 500, 1000], [0, 4000, 5000, 6000]] {
            all.push((format!("\\fade({},{},{},{},{},{},{})", a[0], a[1], a[2], t[0], t[1], t[2], t[3]), a, t, false));
        }
    }
    all
}

/// Transparency a fade states at a time
fn clear(a: &[u32; 3], t: &[u32; 4], simple: bool, now: f64, length: u32) -> f64 {
    let length = f64::from(length);
    let a = a.map(f64::from);
    let t = if simple { [0.0, f64::from(t[1]), length - f64::from(t[2]), length] } else { t.map(f64::from) };
    let ramp = |from: f64, to: f64, s: f64, e: f64| if e > s { from + (to - from) * (now - s) / (e - s) } else { to };
    if now < t[0] {
        a[0]
    } else if now < t[1] {
        ramp(a[0], a[1], t[0], t[1])
    } else if now < t[2] {
        a[1]
    } else if now < t[3] {
        ramp(a[1], a[2], t[2], t[3])
    } else {
        a[2]
    }
}

fn fade_case(run: &Run, style: usize, fade: usize, start: u32, length: u32) -> Result<(), String> {
    let (tag, a, t, simple) = &fades()[fade];
    let end = start + length;
    let full = one_look(&script(STYLES[style], start, end, "ab"), start)?;
    let source = script(STYLES[style], start, end, &format!("{{{tag}}}ab"));
    for now in start..=end {
        run.steps(1);
        let got = one_look(&source, now)?;
        let ms = (now - start) * 10;
        // where a step is made at this very time, both of its sides are right
        let sides = [0.0, -1e-6].map(|d| clear(a, t, *simple, f64::from(ms) + d, length * 10));
        let sides = if (sides[0] - sides[1]).abs() > 0.1 && (now > start || !simple) { sides } else { [sides[0]; 2] };
        for k in 0..LOOKS {
            let alpha = [FILL + 3, LINE + 3, SHADE + 3].contains(&k);
            // at the very end of an event without a fade-out, both values are right
            let end_of_event = *simple && now == end && t[2] == 0 && (got.v[k] == full.v[k] || got.v[k] == 0.0);
            let right = |clear: f64| {
                let want = if alpha { full.v[k] * (255.0 - clear) / 255.0 } else { full.v[k] };
                let exact = !alpha || clear == 0.0 || clear == 255.0;
                if exact { got.v[k] == want } else { (got.v[k] - want).abs() <= 1.01 }
            };
            if !sides.iter().any(|&c| right(c)) && !end_of_event {
                return Err(format!("{tag} over {start}..{end} at {now}: part {k} is {} of {} at transparency {sides:?}", got.v[k], full.v[k]));
            }
            if got.v[k] > full.v[k] {
                return Err(format!("{tag} at {now}: part {k} rises to {}", got.v[k]));
            }
        }
    }
    Ok(())
}

pub fn r03(run: &Run) {
    run.rule("the value is the initial one at and before the start, the final one at and after the end, and in between it moves monotonically, at every time where the definition puts it");
    run.assume("accelerations are not negative (a negative one is a bounce by design) and not NaN; 0.5 in \\t eases as 1-(1-t)^2 by design, and a single number of 10 or more is a time by design, so these are only checked for their ends and bounds");
    run.assume("plain tags come before the \\t that animates them, and \\move and \\fade times are not reversed");
    let vals = values();
    let edge = [0, 1, 2, 5, 9, u32::MAX - 5, u32::MAX];
    run.stage("tracks", (vals.len() * edge.len() * edge.len()) as u64, |i| {
        let d = mx(&[vals.len() as u64, edge.len() as u64, edge.len() as u64], i);
        for kind in KINDS {
            for accel in ACCELS {
                track_case(run, &vals[d[0] as usize], kind, edge[d[1] as usize], edge[d[2] as usize], accel)?;
            }
        }
        run.state(&i);
        Ok(())
    });
    let n = modifiers().len() as u64 * 4 * 4 * 3;
    let spans = [(0, 20), (5, 25), (7, 7), (20, 5), (u32::MAX - 10, u32::MAX), (0, 0)];
    let deep = run.pick(1, 2);
    let pairs = if deep == 2 { n } else { modifiers().len() as u64 };
    run.stage("controllers", n * (1 + pairs) * spans.len() as u64, |i| {
        let d = mx(&[n, 1 + pairs, spans.len() as u64], i);
        let tag = |k: u64| {
            let d = mx(&[modifiers().len() as u64, 4, 4, 3], k);
            (d[0] as usize, d[1] as usize, d[2] as usize, d[3] as usize)
        };
        let mut tags = vec![tag(d[0])];
        if d[1] > 0 {
            tags.push(if deep == 2 { tag(d[1] - 1) } else { ((d[1] - 1) as usize, 1, 2, 2) });
        }
        let (s, e) = spans[d[2] as usize];
        run.state(&i);
        controller_case(run, &tags, s, e)
    });
    let alpha = ["\\fs", "\\c", "\\alpha", "(", ")", ",", "&H", "FF", "&", "é", " ", "+", "000000"];
    run.stage("modifier texts", seq_count(alpha.len(), run.pick(5, 6)), |i| {
        let s = string_at(&alpha, i);
        run.steps(1);
        let mut c = AnimationController::new();
        let tag = AnimationTag { t1: Some(0), t2: Some(10), accel: None, modifiers: vec![s.clone()] };
        if c.add_from_tag(&tag, 0, 10).is_ok() {
            let now = |t| c.evaluate(t);
            for name in ["fs", "c", "alpha"] {
                let v: Vec<Vec<f64>> = [0, 3, 7, 10].iter().filter_map(|&t| now(t).get_property(name).map(numbers)).collect();
                for k in 0..v.first().map_or(0, Vec::len) {
                    monotone(&s, &v.iter().map(|w| w[k]).collect::<Vec<_>>(), v[0][k], v[3][k])?;
                }
            }
        }
        Ok(())
    });
    let wholes = [0, 10, 500, 1000, 5000, u32::MAX];
    run.stage("transform progress", (PARAMS.len() * wholes.len()) as u64, |i| {
        let d = mx(&[PARAMS.len() as u64, wholes.len() as u64], i);
        run.state(&i);
        progress_case(run, d[0] as usize, wholes[d[1] as usize])
    });
    let alpha = ["(", ")", ",", "\\fs", "\\alpha", "\\", "1", "20", "-", ".", "&H", "FF", "&", "é", " ", "\\t"];
    run.stage("transform texts", seq_count(alpha.len(), run.pick(5, 6)), |i| {
        let s = format!("({})", string_at(&alpha, i));
        run.steps(1);
        for s in [&s[..], &s[1..], &s[..s.len() - 1]] {
            if let Some(a) = TransformAnimation::parse(s) {
                let negative = a.accel < 0.0;
                let p: Vec<f64> = [0, 1, 5, 99, 100, 1000].iter().map(|&t| f64::from(a.calculate_progress(t, 100))).collect();
                let bad = p.iter().any(|p| !(0.0..=1.0).contains(p)) || p.windows(2).any(|w| w[1] < w[0]) || p[0] != 0.0 || a.end_ms <= 1000 && a.start_ms < 1000 && p[5] != 1.0;
                if !negative && !a.accel.is_nan() && bad {
                    return Err(format!("{s:?} progresses as {p:?}"));
                }
            }
        }
        Ok(())
    });
    let g = targets().len() as u64;
    let n = PARAMS.len() as u64;
    let times = [(0, 100), (250, 33), (100, 1)];
    run.stage("transformed layers", 2 * 4 * g * n * 3, |i| {
        let d = mx(&[2, 4, g, n, 3], i);
        let (s, l) = times[d[4] as usize];
        run.state(&i);
        layer_case(run, d[0] as usize, d[1] as usize, &[(d[2] as usize, d[3] as usize)], s, l)
    });
    // several transforms, also of the same part, one after another
    let few = run.pick(vec![0, 6, 8, 11], (0..PARAMS.len()).collect());
    let f = few.len() as u64;
    run.stage("several transforms", 2 * g * g * f * f, |i| {
        let d = mx(&[2, g, g, f, f], i);
        run.state(&i);
        layer_case(run, d[0] as usize, 1 + d[0] as usize, &[(d[1] as usize, few[d[3] as usize]), (d[2] as usize, few[d[4] as usize])], 120, 90)
    });
    let aligns = ["", "\\an5", "\\an7", "\\an9", "\\an1"];
    let moves = [[0, 0, 60, 40], [60, 40, 0, 0], [10, 20, 10, 20], [-30, 10, 90, -20]];
    run.stage("moves", 4 * (aligns.len() * moves.len() * MOVES.len()) as u64 * 3, |i| {
        let d = mx(&[2, aligns.len() as u64, moves.len() as u64, MOVES.len() as u64, 3, 2], i);
        let (s, l) = times[d[4] as usize];
        run.state(&i);
        move_case(run, d[0] as usize, aligns[d[1] as usize], moves[d[2] as usize], d[3] as usize, s, l, d[5] == 1)
    });
    let f = fades().len() as u64;
    run.stage("fades", 2 * f * 3, |i| {
        let d = mx(&[2, f, 3], i);
        let (s, l) = times[d[2] as usize];
        run.state(&i);
        fade_case(run, d[0] as usize, d[1] as usize, s, l)
    });
}
