//! R06 (override tags and drawings) and R10 (karaoke).
use crate::mx;
use crate::pipe::*;
use ass_core::analysis::events::TextAnalysis;
use ass_renderer::pipeline::drawing::{parse_draw_commands, process_drawing_commands, DrawCommand};
use ass_renderer::pipeline::tag_processor::{self as tp, KaraokeStyle, ProcessedTags};
use ass_renderer::pipeline::text_segmenter::segment_text_with_tags;
use ass_renderer::pipeline::IntermediateLayer;
use mc_common::*;
use std::collections::BTreeMap;
use tiny_skia::PathSegment;

/// What is in force at a character: names with values
type State = BTreeMap<&'static str, String>;

fn put<T: std::fmt::Debug>(s: &mut State, name: &'static str, v: Option<T>) {
    if let Some(v) = v {
        s.insert(name, format!("{v:?}"));
    }
}

/// The state a run carries, by effect: an alpha for all colours is one of each of them
fn state_of(t: &ProcessedTags) -> State {
    let mut s = State::new();
    put(&mut s, "pos", t.position);
    put(&mut s, "move", t.movement);
    put(&mut s, "org", t.origin);
    put(&mut s, "1c", t.colors.primary.map(|c| [c[0], c[1], c[2]]));
    put(&mut s, "2c", t.colors.secondary.map(|c| [c[0], c[1], c[2]]));
    put(&mut s, "3c", t.colors.outline.map(|c| [c[0], c[1], c[2]]));
    put(&mut s, "4c", t.colors.shadow.map(|c| [c[0], c[1], c[2]]));
    put(&mut s, "1a", t.colors.alpha1.or(t.colors.alpha));
    put(&mut s, "2a", t.colors.alpha2.or(t.colors.alpha));
    put(&mut s, "3a", t.colors.alpha3.or(t.colors.alpha));
    put(&mut s, "4a", t.colors.alpha4.or(t.colors.alpha));
    put(&mut s, "fn", t.font.name.clone());
    put(&mut s, "fs", t.font.size);
    put(&mut s, "fscx", t.font.scale_x);
    put(&mut s, "fscy", t.font.scale_y);
    put(&mut s, "fsp", t.font.spacing);
    put(&mut s, "frx", t.font.rotation_x);
    put(&mut s, "fry", t.font.rotation_y);
    put(&mut s, "frz", t.font.rotation_z);
    let f = &t.formatting;
    put(&mut s, "b", f.bold);
    put(&mut s, "i", f.italic);
    put(&mut s, "u", f.underline);
    put(&mut s, "s", f.strikeout);
    put(&mut s, "bord", f.border);
    put(&mut s, "xbord", f.border_x);
    put(&mut s, "ybord", f.border_y);
    put(&mut s, "shad", f.shadow);
    put(&mut s, "xshad", f.shadow_x);
    put(&mut s, "yshad", f.shadow_y);
    put(&mut s, "blur", f.blur);
    put(&mut s, "be", f.blur_edges);
    put(&mut s, "an", f.alignment);
    put(&mut s, "q", f.wrap_style);
    put(&mut s, "fax", t.shear_x);
    put(&mut s, "fay", t.shear_y);
    put(&mut s, "p", t.drawing_mode);
    put(&mut s, "clip", t.clip.as_ref().map(|c| (c.x1, c.y1, c.x2, c.y2, c.inverse)));
    put(&mut s, "fade", t.fade.as_ref().map(|f| (f.alpha_start, f.alpha_end, f.time_start, f.time_end, f.alpha_middle, f.time_fade_in, f.time_fade_out)));
    put(&mut s, "k", t.karaoke.as_ref().map(|k| (k.duration, style_of(&k.style))));
    if !t.transforms.is_empty() {
        put(&mut s, "t", Some(t.transforms.iter().map(|t| (t.animation.start_ms, t.animation.end_ms, t.animation.accel, format!("{:?}", t.animation.target_tags))).collect::<Vec<_>>()));
    }
    s
}

fn style_of(k: &KaraokeStyle) -> u8 {
    match k {
        KaraokeStyle::Basic => 0,
        KaraokeStyle::Fill => 1,
        KaraokeStyle::Outline => 2,
        KaraokeStyle::Sweep => 3,
    }
}

/// What one piece of a text does
#[derive(Clone)]
enum Piece {
    /// shows these characters
    Shows(&'static str),
    /// sets these values ("" takes a value back)
    Sets(&'static [(&'static str, &'static str)]),
    /// takes back what is not of the whole line
    Resets(&'static [(&'static str, &'static str)]),
}

/// What `\r` leaves
const OF_THE_LINE: [&str; 9] = ["pos", "move", "org", "clip", "fade", "k", "p", "an", "q"];

fn pieces() -> Vec<(&'static str, Piece)> {
    use Piece::*;
    vec![
        ("a", Shows("a")),
        ("{\\b1}", Sets(&[("b", "true")])),
        ("{\\r}", Resets(&[])),
        ("{\\i1\\fs30.5 \\b0 }", Sets(&[("i", "true"), ("fs", "30.5"), ("b", "false")])),
        ("{\\alpha&H80&\\3a&HFF}", Sets(&[("1a", "127"), ("2a", "127"), ("3a", "0"), ("4a", "127")])),
        ("{\\1a&H40&}", Sets(&[("1a", "191")])),
        ("é b", Shows("é b")),
        ("{\\c&H0102FF&\\an8}", Sets(&[("1c", "[255, 2, 1]"), ("an", "8")])),
        ("{\\k50}", Sets(&[("k", "(50, 0)")])),
        ("{\\p1}", Sets(&[("p", "1")])),
        ("{\\p0}", Sets(&[("p", "0")])),
        ("\\N", Shows("\n")),
        ("{\\pos(1,2.5)}", Sets(&[("pos", "(1.0, 2.5)")])),
        ("{\\t(0,500,\\fs40\\c&H00FF00&)\\fs20}", Sets(&[("t", "(0, 500, 1.0, \"[FontSize(40.0), PrimaryColor([0, 255, 0, 0])]\")"), ("fs", "20.0")])),
        ("{\\t(2,\\clip(1,2,3,4)\\frz5)\\u1}", Sets(&[("t", "(0, 0, 2.0, \"[FontRotationZ(5.0)]\")"), ("u", "true")])),
        ("{no tag \\b1 here}", Sets(&[("b", "true")])),
        ("{i is a comment}", Sets(&[])),
        ("{}", Sets(&[])),
        ("}", Shows("}")),
        ("\\h", Shows("\u{a0}")),
        ("\\x", Shows("\\x")),
        ("{\\fnDejaVu Sans\\fscx50\\fscy200\\fsp-3}", Sets(&[("fn", "\"DejaVu Sans\""), ("fscx", "50.0"), ("fscy", "200.0"), ("fsp", "-3.0")])),
        ("{\\fn}", Sets(&[("fn", "")])),
        ("{\\b\\i}", Sets(&[("b", ""), ("i", "")])),
        ("{\\2c&H112233&\\3c&H445566&\\4c&H778899&}", Sets(&[("2c", "[51, 34, 17]"), ("3c", "[102, 85, 68]"), ("4c", "[153, 136, 119]")])),
        ("{\\1c&HFFFFFF&\\2a&H01&\\4a&H10&}", Sets(&[("1c", "[255, 255, 255]"), ("2a", "254"), ("4a", "239")])),
        ("{\\bord2\\xbord3\\ybord0\\shad1\\xshad-1\\yshad4}", Sets(&[("bord", "2.0"), ("xbord", "3.0"), ("ybord", "0.0"), ("shad", "1.0"), ("xshad", "-1.0"), ("yshad", "4.0")])),
        ("{\\frz45\\frx-10\\fry400\\org(3,4)}", Sets(&[("frz", "45.0"), ("frx", "-10.0"), ("fry", "400.0"), ("org", "(3.0, 4.0)")])),
        ("{\\fr90\\fax0.5\\fay-1\\blur2\\be3}", Sets(&[("frz", "90.0"), ("fax", "0.5"), ("fay", "-1.0"), ("blur", "2.0"), ("be", "3.0")])),
        ("{\\clip(1,2,3,4)}", Sets(&[("clip", "(1.0, 2.0, 3.0, 4.0, false)")])),
        ("{\\iclip( 5 ,6,7,8)\\q2}", Sets(&[("clip", "(5.0, 6.0, 7.0, 8.0, true)"), ("q", "2")])),
        ("{\\move(1,2,3,4)}", Sets(&[("move", "(1.0, 2.0, 3.0, 4.0, 0, 0)")])),
        ("{\\move(1,2,3,4,100,250)}", Sets(&[("move", "(1.0, 2.0, 3.0, 4.0, 10, 25)")])),
        ("{\\fad(100,200)}", Sets(&[("fade", "(0, 0, 10, 20, None, None, None)")])),
        ("{\\fade(255,32,224,0,500,2000,2200)}", Sets(&[("fade", "(255, 224, 0, 220, Some(32), Some(50), Some(20))")])),
        ("{\\kf20\\a6}", Sets(&[("k", "(20, 1)"), ("an", "8")])),
        ("{\\ko7}", Sets(&[("k", "(7, 2)")])),
        ("{\\K9\\a1}", Sets(&[("k", "(9, 3)"), ("an", "1")])),
        ("{\\s1\\a11}", Sets(&[("s", "true"), ("an", "6")])),
        ("{\\fs18\\r\\i0}", Resets(&[("i", "false")])),
        ("{\\zz9\\fs}", Sets(&[])),
    ]
}

/// Every character with what is in force there
fn expected(text: &[&Piece]) -> Vec<(char, State)> {
    let mut state = State::new();
    let mut all = Vec::new();
    for p in text {
        let sets = match p {
            Piece::Shows(s) => {
                all.extend(s.chars().map(|c| (c, state.clone())));
                continue;
            }
            Piece::Sets(sets) => sets,
            Piece::Resets(sets) => {
                state.retain(|k, _| OF_THE_LINE.contains(k));
                sets
            }
        };
        for (k, v) in sets.iter() {
            if v.is_empty() {
                state.remove(k);
            } else if *k == "t" {
                let before = state.get(k).map_or(String::new(), |s| format!("{}, ", &s[1..s.len() - 1]));
                state.insert(k, format!("[{before}{v}]"));
            } else {
                state.insert(k, v.to_string());
            }
        }
    }
    all
}

/// The characters of a stretch of source text that has no block in it
fn shown(source: &str) -> String {
    let mut out = String::new();
    let mut chars = source.chars();
    while let Some(c) = chars.next() {
        match (c, c == '\\') {
            (_, true) => match chars.next() {
                Some('N' | 'n') => out.push('\n'),
                Some('h') => out.push('\u{a0}'),
                Some(o) => {
                    out.push(c);
                    out.push(o);
                }
                None => out.push(c),
            },
            _ => out.push(c),
        }
    }
    out
}

fn runs_case(run: &Run, text: &str) -> Result<Vec<(char, State)>, String> {
    run.steps(1);
    let segments = segment_text_with_tags(text, None).map_err(|e| format!("{text:?} has no runs: {e}"))?;
    let mut all = Vec::new();
    let mut visible = String::new();
    let mut at = 0;
    let single = segments.len() == 1 && segments[0].start == 0 && segments[0].end == text.len();
    for s in &segments {
        let state = state_of(&s.tags);
        if !s.tags.drawing_mode.is_some_and(|p| p > 0) {
            visible.push_str(&s.text);
        }
        all.extend(s.text.chars().map(|c| (c, state.clone())));
        if s.start < at || s.end < s.start || text.get(s.start..s.end).is_none() {
            return Err(format!("{text:?} has a run at {}..{} after {at}", s.start, s.end));
        }
        if !single && !s.text.is_empty() && shown(&text[s.start..s.end]) != s.text {
            return Err(format!("{text:?} at {}..{} is not the run {:?}", s.start, s.end, s.text));
        }
        at = s.end;
    }
    let analysis = TextAnalysis::analyze(text).map_err(|e| e.to_string())?;
    // whether a level that is no number ("1)") draws is not settled, nor one in nested braces or parentheses
    let plain_level = text.split('}').all(|b| !b.contains("p1") || b.matches('{').count() < 2 && !b.contains(['(', ')'])) && text.match_indices("p1").map(|(p, _)| text[p + 2..].trim_start()).all(|r| r.is_empty() || r.starts_with(['\\', '}']));
    if plain_level && visible != analysis.plain_text() {
        return Err(format!("the runs of {text:?} show {visible:?}, the text is {:?}", analysis.plain_text()));
    }
    Ok(all)
}

/// An argument list as written, and the numbers in it
fn lists() -> Vec<(String, Option<Vec<f64>>)> {
    let atoms: [(&str, Option<f64>); 9] = [("0", Some(0.0)), ("1.5", Some(1.5)), (" 300 ", Some(300.0)), ("-2", Some(-2.0)), ("4294967295", Some(4294967295.0)), ("4294967296", Some(4294967296.0)), ("7", Some(7.0)), ("x", None), ("", None)];
    let mut all = Vec::new();
    for n in 1..=8u32 {
        // all lists of two numbers and of three, and those of more numbers that vary in two places
        let places = if n <= 3 { n } else { 2 };
        for base in 0..n.saturating_sub(places) + 1 {
            for i in 0..9u64.pow(places) {
                let d = mx(&vec![9; places as usize], i);
                let list: Vec<_> = (0..n).map(|k| if k >= base && k < base + places { atoms[d[(k - base) as usize] as usize] } else { atoms[[0, 2, 6][k as usize % 3]] }).collect();
                all.push((list.iter().map(|a| a.0).collect::<Vec<_>>().join(","), list.iter().map(|a| a.1).collect()));
            }
        }
    }
    all.sort_by(|a, b| a.0.cmp(&b.0));
    all.dedup_by(|a, b| a.0 == b.0);
    all
}

fn whole(v: f64, max: f64) -> bool {
    v >= 0.0 && v <= max && v.fract() == 0.0
}

fn list_case(run: &Run, list: &str, numbers: &Option<Vec<f64>>) -> Result<(), String> {
    let times = |v: &[f64]| v.iter().all(|&v| whole(v, 4294967295.0));
    for arg in [format!("({list})"), list.to_string()] {
        run.steps(4);
        let bad = |what: &str, got: String, want: String| Err(format!("{what} of {arg:?} is {got} instead of {want}"));
        let n = numbers.as_deref().unwrap_or(&[]);
        let f = |i: usize| n[i] as f32;
        let want = (n.len() == 2).then(|| (f(0), f(1)));
        if tp::parse_pos_args(&arg) != want {
            return bad("position", format!("{:?}", tp::parse_pos_args(&arg)), format!("{want:?}"));
        }
        let want = (n.len() == 4).then(|| (f(0), f(1), f(2), f(3), false));
        let got = tp::parse_clip_args(&arg).map(|c| (c.x1, c.y1, c.x2, c.y2, c.inverse));
        if got != want {
            return bad("clip", format!("{got:?}"), format!("{want:?}"));
        }
        // a move whose times are not times is left to the code
        if numbers.is_none() || n.len() < 4 || n.len() == 4 || n.len() == 6 && times(&n[4..]) {
            let t = |i: usize, up: f64| if n.len() == 6 { ((n[i] + up) / 10.0).floor() as u32 } else { 0 };
            let want = (n.len() == 4 || n.len() == 6).then(|| (f(0), f(1), f(2), f(3), t(4, 0.0), t(5, 9.0)));
            let got = tp::parse_move_args(&arg);
            if got != want && (numbers.is_some() || !list.split(',').take(4).all(|a| a.trim().parse::<f32>().is_ok())) {
                return bad("move", format!("{got:?}"), format!("{want:?}"));
            }
        }
        let cs = |v: f64| (v / 10.0).floor() as u32;
        let got = tp::parse_fade_args(&arg).map(|f| (f.alpha_start, f.alpha_middle, f.alpha_end, f.time_start, f.time_fade_in, f.time_fade_out, f.time_end));
        let want = match n.len() {
            2 if times(n) => Some((0, None, 0, cs(n[0]), None, None, cs(n[1]))),
            7 if times(n) && n[..3].iter().all(|&a| a <= 255.0) => {
                let t: Vec<u32> = n[3..].iter().map(|&v| cs(v)).collect();
                Some((n[0] as u8, Some(n[1] as u8), n[2] as u8, t[0], Some(t[1].saturating_sub(t[0])), Some(t[3].saturating_sub(t[2])), t[3]))
            }
            _ => None,
        };
        if got != want && n.len() < 8 {
            return bad("fade", format!("{got:?}"), format!("{want:?}"));
        }
    }
    Ok(())
}

fn hex_case(run: &Run, i: u64) -> Result<(), String> {
    run.steps(1);
    let d = mx(&[4, 3, 16, 16, 2], i);
    let v = (d[2] * 16 + d[3]) as u8;
    let (open, close) = (["&H", "&h", "H&H", "&H"][d[0] as usize], ["&", "", "&"][d[1] as usize]);
    let hex = if d[4] == 0 { format!("{v:02X}") } else { format!("{v:02x}") };
    let alpha = format!("{open}{hex}{close}");
    if tp::parse_alpha(&alpha) != Some(255 - v) {
        return Err(format!("alpha {alpha} is {:?}", tp::parse_alpha(&alpha)));
    }
    for (k, parts) in [[v, 0x12, 0xab], [0x12, v, 0xab], [0x12, 0xab, v]].iter().enumerate() {
        let hex: String = parts.iter().map(|v| if d[4] == 0 { format!("{v:02X}") } else { format!("{v:02x}") }).collect();
        let colour = format!("{open}{hex}{close}");
        let got = tp::parse_color(&colour).map(|c| [c[0], c[1], c[2]]);
        if got != Some([parts[2], parts[1], parts[0]]) {
            return Err(format!("colour {colour} (part {k}) is {got:?}"));
        }
    }
    Ok(())
}

/// One drawing command as written with the steps it denotes
#[derive(Clone, Debug, PartialEq)]
enum Step {
    Move(f32, f32),
    Line(f32, f32),
    Curve([f32; 6]),
    Close,
}

fn commands() -> Vec<(&'static str, Vec<Step>)> {
    use Step::*;
    vec![
        ("m 0 0", vec![Move(0.0, 0.0)]),
        ("m 10 5 20 5.5", vec![Move(10.0, 5.0), Line(20.0, 5.5)]),
        ("n -3 4", vec![Move(-3.0, 4.0)]),
        ("l 30 10", vec![Line(30.0, 10.0)]),
        ("l 1 2 3 4 5 -6.25", vec![Line(1.0, 2.0), Line(3.0, 4.0), Line(5.0, -6.25)]),
        ("b 1 2 3 4 5 6", vec![Curve([1.0, 2.0, 3.0, 4.0, 5.0, 6.0])]),
        ("b 0 10 10 10 10 0 10 -10 0 -10 0 0", vec![Curve([0.0, 10.0, 10.0, 10.0, 10.0, 0.0]), Curve([10.0, -10.0, 0.0, -10.0, 0.0, 0.0])]),
        ("c", vec![Close]),
        ("M 7 8 L 9 9", vec![Move(7.0, 8.0), Line(9.0, 9.0)]),
        ("m-1 -2l+3 .5", vec![Move(-1.0, -2.0), Line(3.0, 0.5)]),
    ]
}

fn steps_of(c: &[DrawCommand]) -> Vec<Step> {
    c.iter()
        .map(|c| match c {
            DrawCommand::MoveTo { x, y } | DrawCommand::MoveToNoDraw { x, y } => Step::Move(*x, *y),
            DrawCommand::LineTo { x, y } => Step::Line(*x, *y),
            DrawCommand::BezierTo { x1, y1, x2, y2, x3, y3 } => Step::Curve([*x1, *y1, *x2, *y2, *x3, *y3]),
            DrawCommand::ClosePath => Step::Close,
            DrawCommand::Spline { points } | DrawCommand::ExtendSpline { points } => Step::Line(points.len() as f32, f32::NAN),
        })
        .collect()
}

/// The outline a list of steps denotes: contours with something in them
fn outline(steps: &[Step]) -> Vec<Vec<Step>> {
    let mut all: Vec<Vec<Step>> = Vec::new();
    let mut start = (0.0, 0.0);
    let mut open = false;
    for s in steps {
        match s {
            Step::Move(x, y) => {
                start = (*x, *y);
                open = false;
            }
            Step::Close => {
                if open {
                    all.last_mut().unwrap().push(Step::Close);
                }
                open = false;
            }
            s => {
                if !open {
                    all.push(vec![Step::Move(start.0, start.1)]);
                    open = true;
                }
                all.last_mut().unwrap().push(s.clone());
            }
        }
    }
    all
}

fn outline_of(path: &tiny_skia::Path) -> Vec<Vec<Step>> {
    let steps: Vec<Step> = path
        .segments()
        .map(|s| match s {
            PathSegment::MoveTo(p) => Step::Move(p.x, p.y),
            PathSegment::LineTo(p) => Step::Line(p.x, p.y),
            PathSegment::QuadTo(a, b) => Step::Curve([a.x, a.y, a.x, a.y, b.x, b.y]),
            PathSegment::CubicTo(a, b, c) => Step::Curve([a.x, a.y, b.x, b.y, c.x, c.y]),
            PathSegment::Close => Step::Close,
        })
        .collect();
    outline(&steps)
}

fn points(s: &Step) -> Vec<f32> {
    match s {
        Step::Move(x, y) | Step::Line(x, y) => vec![*x, *y],
        Step::Curve(p) => p.to_vec(),
        Step::Close => vec![],
    }
}

fn drawing_case(run: &Run, picks: &[usize], join: &str) -> Result<(), String> {
    run.steps(1);
    let all = commands();
    let text = picks.iter().map(|&i| all[i].0).collect::<Vec<_>>().join(join);
    let steps: Vec<Step> = picks.iter().flat_map(|&i| all[i].1.clone()).collect();
    for text in [text.clone(), format!("  {text} "), format!("{text}\\p0}}")] {
        let got = parse_draw_commands(&text).map_err(|e| format!("{text:?} is refused: {e}"))?;
        if steps_of(&got) != steps {
            return Err(format!("{text:?} denotes {got:?}"));
        }
    }
    let want = outline(&steps);
    let path = process_drawing_commands(&text).map_err(|e| e.to_string())?;
    let got = path.as_ref().map(outline_of).unwrap_or_default();
    // a path of one point only need not be kept, and where a contour goes on after it was closed is up to the path
    let flat = want.iter().flatten().flat_map(points).collect::<Vec<_>>();
    let degenerate = flat.chunks(2).all(|p| p[0] == flat[0] && p[1] == flat[1]);
    if got != want && !(got.is_empty() && (want.is_empty() || degenerate)) {
        return Err(format!("{text:?} is the path {got:?} instead of {want:?}"));
    }
    Ok(())
}

/// A spline keeps the points written, closed where it is an `s`, and is drawn alike wherever it is put and whichever way up
fn spline_case(run: &Run, points: &[(f32, f32)], closed: bool) -> Result<(), String> {
    run.steps(3);
    let written = |map: &dyn Fn((f32, f32)) -> (f32, f32)| {
        let all: Vec<String> = points.iter().map(|&p| map(p)).map(|(x, y)| format!("{x} {y}")).collect();
        let (x, y) = map(points[0]);
        format!("m {x} {y} {} {} l 3 3", if closed { "s" } else { "p" }, all.join(" "))
    };
    let text = written(&|p| p);
    let got = parse_draw_commands(&text).map_err(|e| format!("{text:?} is refused: {e}"))?;
    let mut want = points.to_vec();
    if closed && want.first() != want.last() {
        want.push(want[0]);
    }
    let ((DrawCommand::Spline { points: p }, true) | (DrawCommand::ExtendSpline { points: p }, false)) = (&got[1], closed) else {
        return Err(format!("{text:?} denotes {got:?}"));
    };
    if *p != want || got.len() != 3 {
        return Err(format!("{text:?} is a spline along {p:?} instead of {want:?}"));
    }
    let drawn = |text: &str| -> Result<Vec<PathSegment>, String> {
        Ok(process_drawing_commands(text).map_err(|e| e.to_string())?.map(|p| p.segments().collect()).unwrap_or_default())
    };
    let plain = drawn(&text)?;
    let maps: [(&str, fn((f32, f32)) -> (f32, f32)); 3] = [("moved", |p| (p.0 + 64.0, p.1 - 32.0)), ("turned over", |p| (p.1, p.0)), ("enlarged", |p| (p.0 * -2.0, p.1 * 4.0))];
    for (what, map) in maps {
        let other = drawn(&written(&map))?;
        let near = |p: tiny_skia::Point, q: tiny_skia::Point| {
            let (x, y) = map((p.x, p.y));
            (x - q.x).abs() < 1e-3 && (y - q.y).abs() < 1e-3
        };
        let same = plain.len() == other.len()
            && plain.iter().zip(&other).all(|(a, b)| match (a, b) {
                (PathSegment::MoveTo(p), PathSegment::MoveTo(q)) => near(*p, *q),
                // (the last line goes to the same place in each)
                (PathSegment::LineTo(_), PathSegment::LineTo(_)) | (PathSegment::Close, PathSegment::Close) => true,
                (PathSegment::CubicTo(a, b, c), PathSegment::CubicTo(x, y, z)) => near(*a, *x) && near(*b, *y) && near(*c, *z),
                _ => false,
            });
        if !same {
            return Err(format!("{text:?} {what} is {other:?}, but as written {plain:?}"));
        }
    }
    Ok(())
}

/// Where a drawing of this event is put
fn place_case(run: &Run, i: u64) -> Result<(), String> {
    let shapes = ["m 0 0 l 10 0 10 20 0 20", "m 4 -3 l 30 5 b 30 10 20 20 7 9", "m 1 1 l 9 1 9 9 m 20 20 l 30 20 30 30"];
    let d = mx(&[shapes.len() as u64, 10, 4, 4, 3], i);
    let shape = shapes[d[0] as usize];
    let level = [1, 2, 3, 5][d[2] as usize];
    let align = if d[1] == 0 { String::new() } else { format!("\\an{}", d[1]) };
    let numpad = if d[1] == 0 { 2 } else { d[1] };
    let (place, x, y) = [("\\pos(30,20)", 30.0, 20.0), ("\\pos(-4.5,0)", -4.5, 0.0), ("\\move(0,0,40,20)", 20.0, 10.0), ("\\pos(10,10)\\frz0", 10.0, 10.0)][d[3] as usize];
    // text after a drawing, or another drawing
    let tail = ["", "{\\p0}ab", "{\\p0}"][d[4] as usize];
    let style = "12,&H00FFFFFF,&H000000FF,&H20112233,&H60334455,0,0,0,0,100,100,0,0,1,2,3,2,2,2,2,1";
    let source = script(style, 100, 200, &format!("{{{align}{place}\\p{level}}}{shape}{tail}"));
    run.steps(1);
    let all = layers(&source, 150)?;
    let drawn: Vec<_> = all.iter().filter_map(|l| if let IntermediateLayer::Vector(v) = l { v.path.as_ref() } else { None }).collect();
    let [path] = &drawn[..] else { return Err(format!("{source:?} is drawn as {} shapes", drawn.len())) };
    let texts: Vec<String> = looks(&all).into_iter().map(|l| l.text).collect();
    if texts != if d[4] == 1 { vec!["ab"] } else { vec![] } {
        return Err(format!("{source:?} shows {texts:?}"));
    }
    // the screen has twice the script's resolution
    let scale = 2.0 * 0.5f32.powi(level - 1);
    let plain = process_drawing_commands(shape).unwrap().unwrap();
    let b = plain.bounds();
    let side = |low: f32, high: f32, k: u64| [low, (low + high) / 2.0, high][k as usize] * scale;
    let dx = 2.0 * x - side(b.left(), b.right(), (numpad - 1) % 3);
    let dy = 2.0 * y - side(b.bottom(), b.top(), (numpad - 1) / 3);
    let want: Vec<f32> = outline_of(&plain).iter().flatten().flat_map(points).enumerate().map(|(k, v)| v * scale + if k % 2 == 0 { dx } else { dy }).collect();
    let got: Vec<f32> = outline_of(path).iter().flatten().flat_map(points).collect();
    if got.len() != want.len() || got.iter().zip(&want).any(|(g, w)| (g - w).abs() > 1e-3) {
        return Err(format!("{source:?} is drawn along {got:?} instead of {want:?}"));
    }
    Ok(())
}

pub fn r06(run: &Run) {
    run.rule("every character of every text carries exactly what the tags before it set, by a left-to-right reading of them, and drawings follow the steps they state");
    run.assume("\\r with a style name counts as \\r, and colours are written with six digits");
    let all = pieces();
    let n = all.len();
    run.stage("runs", seq_count(n, run.pick(3, 4)), |i| {
        let picks = seq_at(n, i);
        let text: String = picks.iter().map(|&k| all[k].0).collect();
        let want = expected(&picks.iter().map(|&k| &all[k].1).collect::<Vec<_>>());
        run.state(&text);
        let got = runs_case(run, &text)?;
        if let Some(k) = (0..got.len().max(want.len())).find(|&k| got.get(k) != want.get(k)) {
            return Err(format!("{text:?}, character {k}: {:?} instead of {:?}", got.get(k), want.get(k)));
        }
        Ok(())
    });
    // longer texts over the tags that act on each other
    let few = 12;
    run.stage("long runs", seq_count(few, run.pick(4, 6)), |i| {
        let picks = seq_at(few, i);
        let text: String = picks.iter().map(|&k| all[k].0).collect();
        let want = expected(&picks.iter().map(|&k| &all[k].1).collect::<Vec<_>>());
        let got = runs_case(run, &text)?;
        if got != want {
            return Err(format!("{text:?}: {got:?} instead of {want:?}"));
        }
        Ok(())
    });
    // the reading of a whole event agrees with that of its last run
    let blocks: Vec<usize> = (0..n).filter(|&k| matches!(all[k].1, Piece::Sets(_)) && !all[k].0.contains("\\b\\i") && all[k].0 != "{\\fn}").collect();
    run.stage("whole events", seq_count(blocks.len(), run.pick(2, 3)), |i| {
        let picks: Vec<usize> = seq_at(blocks.len(), i).into_iter().map(|k| blocks[k]).collect();
        let text: String = picks.iter().map(|&k| all[k].0).collect::<String>() + "z";
        run.steps(1);
        let (tags, plain) = tp::process_event_tags(&text, None).map_err(|e| e.to_string())?;
        let want = expected(&picks.iter().map(|&k| &all[k].1).chain([&Piece::Shows("z")]).collect::<Vec<_>>());
        let drawing = want[0].1.get("p").is_some_and(|p| p != "0");
        let got = state_of(&tags);
        if plain != if drawing { "" } else { "z" } {
            return Err(format!("{text:?} shows {plain:?}"));
        }
        if let Some(k) = want[0].1.keys().chain(got.keys()).find(|k| got.get(*k) != want[0].1.get(*k)) {
            return Err(format!("{text:?} sets {k} to {:?} instead of {:?}", got.get(k), want[0].1.get(k)));
        }
        Ok(())
    });
    let alpha = ["{", "}", "\\", "(", ")", "b1", "fn", "t", ",", "é", "N", "p1", "1c", "&H", " "];
    run.stage("any texts", seq_count(alpha.len(), run.pick(6, 7)), |i| {
        let text = string_at(&alpha, i);
        runs_case(run, &text).map_err(|e| format!("{text:?}: {e}"))?;
        tp::process_event_tags(&text, None).map_err(|e| format!("{text:?}: {e}"))?;
        Ok(())
    });
    let args = lists();
    run.stage("number lists", args.len() as u64, |i| {
        run.state(&args[i as usize].0);
        list_case(run, &args[i as usize].0, &args[i as usize].1)
    });
    run.stage("hexadecimal values", 4 * 3 * 16 * 16 * 2, |i| hex_case(run, i));
    let alpha = ["(", ")", ",", "1", "-", ".", " ", "&", "H", "F", "é", "+"];
    run.stage("any arguments", seq_count(alpha.len(), run.pick(6, 7)), |i| {
        let s = string_at(&alpha, i);
        run.steps(6);
        (tp::parse_pos_args(&s), tp::parse_move_args(&s), tp::parse_clip_args(&s), tp::parse_fade_args(&s), tp::parse_color(&s), tp::parse_alpha(&s));
        Ok(())
    });
    let c = commands().len();
    run.stage("drawings", seq_count(c, run.pick(5, 7)), |i| {
        let picks = seq_at(c, i);
        // nothing but a move starts a drawing
        if picks.is_empty() || !commands()[picks[0]].0.to_ascii_lowercase().starts_with('m') {
            return Ok(());
        }
        run.state(&picks);
        drawing_case(run, &picks, if i % 2 == 0 { " " } else { "  " })
    });
    let grid = [-4i64, 0, 10];
    let longest = run.pick(5, 6);
    run.stage("splines", 2 * seq_count(9, longest), |i| {
        let picks = seq_at(9, i / 2);
        if picks.len() < 3 {
            return Ok(());
        }
        let at = |k: usize| (grid[k % 3] as f32 * 1.5, grid[k / 3] as f32);
        spline_case(run, &picks.iter().map(|&k| at(k)).collect::<Vec<_>>(), i % 2 == 0)
    });
    let alpha = ["m", "l", "b", "s", "p", "c", "n", "1", " ", "-", ".", "é", "x", "1 2 ", "1 2 3 4 5 6 "];
    run.stage("any drawings", seq_count(alpha.len(), run.pick(6, 7)), |i| {
        let s = string_at(&alpha, i);
        run.steps(1);
        let path = process_drawing_commands(&s).map_err(|e| format!("{s:?} fails: {e}"))?;
        if path.is_some() && parse_draw_commands(&s).is_err() {
            return Err(format!("{s:?} is drawn though it is refused"));
        }
        Ok(())
    });
    run.stage("placed drawings", 3 * 10 * 4 * 4 * 3, |i| {
        run.state(&i);
        place_case(run, i)
    });
}

// ---- karaoke

/// Pieces of a line: a syllable tag (style, duration), text, a break, another tag
fn karaoke_case(run: &Run, picks: &[usize], start: u32, length: u32) -> Result<(), String> {
    let tags = [("{\\k3}", 0, 3), ("{\\kf5}", 1, 5), ("{\\ko2}", 2, 2), ("{\\K4}", 3, 4), ("{\\k0}", 0, 0), ("{\\k2\\kf3}", 1, 3)];
    let others = ["ab", "é", "\\N", "{\\b1}", "{\\r}", "{\\2c&H0000FF&\\2a&H80&}"];
    let mut text = String::from("{\\an7}");
    // the texts shown, with the syllable they belong to: style, start and duration
    let mut syllable: Option<(u8, u32, u32)> = None;
    let mut want: Vec<(char, Option<(u8, u32, u32)>)> = Vec::new();
    for &p in picks {
        if p < tags.len() {
            let (t, style, d) = tags[p];
            let mut at = syllable.map_or(0, |(_, s, d)| s + d);
            if t.matches("\\k").count() == 2 {
                at += 2;
            }
            syllable = Some((style, at, d));
            text.push_str(t);
        } else {
            let t = others[p - tags.len()];
            text.push_str(t);
            if !t.starts_with('{') && !t.starts_with('\\') {
                want.extend(t.chars().map(|c| (c, syllable)));
            }
        }
    }
    let source = script("12,&H00FFFFFF,&H400000FF,&H20112233,&H60334455,0,0,0,0,100,100,0,0,1,2,3,2,2,2,2,1", start, start + length, &text);
    for t in start..=start + length {
        run.steps(1);
        let seen: Vec<(char, Option<(f64, u8, [u8; 4])>)> = looks(&layers(&source, t)?).into_iter().flat_map(|l| l.text.chars().map(|c| (c, l.karaoke)).collect::<Vec<_>>()).collect();
        if seen.len() != want.len() {
            return Err(format!("{text:?} shows {} characters instead of {}", seen.len(), want.len()));
        }
        for (s, w) in seen.iter().zip(&want) {
            let now = t - start;
            let p = w.1.map(|(style, at, d)| (if now < at { 0.0 } else if now >= at + d { 1.0 } else { f64::from(now - at) / f64::from(d) }, style));
            let same = match (p, s.1) {
                (None, None) => true,
                (Some((p, style)), Some((got, st, _))) => (p - got).abs() < 1e-6 && style == st,
                _ => false,
            };
            if s.0 != w.0 || !same {
                return Err(format!("{text:?} over {start}..{} at {t}: {s:?} instead of {:?} {p:?}", start + length, w.0));
            }
        }
    }
    Ok(())
}

pub fn r10(run: &Run) {
    run.rule("every character is sung by the share of its own syllable's time that has passed, and a syllable starts where the ones before it in the event end");
    let few = [0, 1, 6, 8, 9];
    run.stage("lines", seq_count(12, run.pick(4, 5)), |i| {
        let picks = seq_at(12, i);
        run.state(&picks);
        let (s, l) = [(0, 12), (100, 9), (7, 0)][i as usize % 3];
        karaoke_case(run, &picks, s, l)
    });
    run.stage("long lines", seq_count(few.len(), run.pick(5, 7)), |i| {
        let picks: Vec<usize> = seq_at(few.len(), i).into_iter().map(|k| few[k]).collect();
        run.state(&picks);
        karaoke_case(run, &picks, 50, 20)
    });
}
