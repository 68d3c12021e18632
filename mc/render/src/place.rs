//! Where lines of text lie: alignment, margins, positions, line breaks and wrapping.
use crate::mx;
use ass_core::parser::{Event, Script, Section};
use ass_renderer::pipeline::shaping::{shape_text_with_style, ShapedText};
use ass_renderer::pipeline::{IntermediateLayer, SoftwarePipeline, TextData, TextEffect};
use ass_renderer::renderer::RenderContext;
use ass_renderer::Pipeline;
use mc_common::{guard, seq_at, seq_count, Run};
use std::cell::RefCell;
use std::collections::HashMap;

const STYLE: &str = "Format: Name, Fontname, Fontsize, ScaleX, ScaleY, Spacing, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV\n";
const EVENT: &str = "Format: Layer, Start, End, Style, MarginL, MarginR, MarginV, Text\n";
const FONT: &str = "DejaVu Sans Mono";
/// The pipeline draws glyphs at nine tenths of the font size
const GLYPHS: f64 = 0.9;

thread_local! {
    static PIPELINES: RefCell<HashMap<(u32, u32), (SoftwarePipeline, RenderContext)>> = RefCell::new(HashMap::new());
    static FONTS: RefCell<Option<fontdb::Database>> = const { RefCell::new(None) };
    static SHAPED: RefCell<HashMap<(String, u32, bool), ShapedText>> = RefCell::new(HashMap::new());
}

/// What a text measures at a size, taken from the shaper
fn shaped(text: &str, size: f64, bold: bool) -> ShapedText {
    SHAPED.with(|m| {
        m.borrow_mut()
            .entry((text.to_string(), (size as f32).to_bits(), bold))
            .or_insert_with(|| {
                FONTS.with(|f| {
                    let mut f = f.borrow_mut();
                    let db = f.get_or_insert_with(|| {
                        let mut d = fontdb::Database::new();
                        d.load_system_fonts();
                        d
                    });
                    shape_text_with_style(text, FONT, size as f32, bold, false, db).expect("the font of the checks is installed")
                })
            })
            .clone()
    })
}

struct Page {
    play: (u32, u32),
    frame: (u32, u32),
    wrap: u32,
    /// alignment, left, right and vertical margin of the styles Default and Other
    styles: [(u32, [u32; 3]); 2],
}

fn source(page: &Page, events: &[(&str, [&str; 3], String)]) -> String {
    let mut s = format!("[Script Info]\nPlayResX: {}\nPlayResY: {}\nWrapStyle: {}\n\n[V4+ Styles]\n{STYLE}", page.play.0, page.play.1, page.wrap);
    for (name, (a, m)) in ["Default", "Other"].iter().zip(&page.styles) {
        s.push_str(&format!("Style: {name},{FONT},10,100,100,0,1,0,0,{a},{},{},{}\n", m[0], m[1], m[2]));
    }
    s.push_str(&format!("\n[Events]\n{EVENT}"));
    for (style, m, text) in events {
        s.push_str(&format!("Dialogue: 0,0:00:00.00,0:00:01.00,{style},{},{},{},{text}\n", m[0], m[1], m[2]));
    }
    s
}

fn texts(page: &Page, source: &str) -> Result<Vec<TextData>, String> {
    let build = || -> Result<Vec<TextData>, String> {
        let script = Script::parse(source).map_err(|e| format!("the script does not parse: {e}"))?;
        let events: Vec<&Event<'_>> = script.sections().iter().filter_map(|s| if let Section::Events(e) = s { Some(e.iter()) } else { None }).flatten().collect();
        PIPELINES.with(|p| {
            let mut p = p.borrow_mut();
            let (pipeline, context) = p.entry(page.frame).or_insert_with(|| (SoftwarePipeline::with_dimensions(page.frame.0 as f32, page.frame.1 as f32), RenderContext::new(page.frame.0, page.frame.1)));
            pipeline.prepare_script(&script, None).map_err(|e| e.to_string())?;
            let layers = pipeline.process_events(&events, 0, context).map_err(|e| e.to_string())?;
            Ok(layers.into_iter().filter_map(|l| if let IntermediateLayer::Text(t) = l { Some(t) } else { None }).collect())
        })
    };
    guard(build).map_err(|e| format!("building {source:?} panics: {e}"))?
}

/// One run of a line as its tags ask for it
#[derive(Clone, Copy, Debug, PartialEq)]
struct Run1 {
    text: &'static str,
    size: f64,
    bold: bool,
    sx: f64,
    sy: f64,
    gap: f64,
}

impl Run1 {
    fn shape(&self, scale: (f64, f64)) -> ShapedText {
        shaped(self.text, self.size * scale.1 * self.sy * GLYPHS, self.bold)
    }
    /// How far it carries the line on
    fn width(&self, scale: (f64, f64)) -> f64 {
        let n = self.text.chars().count() as f64;
        (f64::from(self.shape(scale).width) + self.gap * scale.0 * n) * self.sx / self.sy
    }
}

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() < 0.02
}

/// Where the whole line starts, with `gap` the spacing that may or may not hang over its end
fn starts(x: f64, width: f64, gap: f64, column: u32) -> [f64; 2] {
    match column {
        0 => [x, x],
        1 => [x - width / 2.0, x - (width - gap) / 2.0],
        _ => [x - width, x - (width - gap)],
    }
}

fn lines_case(run: &Run, page: &Page, style: &str, margins: [&str; 3], lead: (&str, Option<u32>), place: Option<(f64, f64)>, lines: &[Vec<usize>]) -> Result<(), String> {
    let mut cur = Run1 { text: "", size: 10.0, bold: false, sx: 1.0, sy: 1.0, gap: 0.0 };
    let first = cur;
    let mut text = if lead.0.is_empty() { String::new() } else { format!("{{{}}}", lead.0) };
    if let Some((x, y)) = place {
        text.push_str(&format!("{{\\pos({x},{y})}}"));
    }
    let mut want: Vec<Vec<Run1>> = Vec::new();
    for (k, line) in lines.iter().enumerate() {
        if k > 0 {
            text.push_str("\\N");
        }
        let mut l: Vec<Run1> = Vec::new();
        for &piece in line {
            let (s, t) = PIECES[piece];
            text.push_str(s);
            match t {
                "" => match s {
                    "{\\b1}" => cur.bold = true,
                    "{\\fs20}" => cur.size = 20.0,
                    "{\\fscx200}" => cur.sx = 2.0,
                    "{\\fscy50}" => cur.sy = 0.5,
                    "{\\fsp3}" => cur.gap = 3.0,
                    "{\\r}" => cur = first,
                    "{\\1c&H0000FF&}" => {}
                    other => unreachable!("{other}"),
                },
                t => l.push(Run1 { text: t, ..cur }),
            }
        }
        if !l.is_empty() {
            want.push(l);
        }
    }
    let source = source(page, &[(style, margins, text.clone())]);
    let got = texts(page, &source)?;
    run.steps(1);
    let told = |e: String| format!("{text:?} (style {style} {:?}, margins {margins:?}, script {:?} on {:?}): {e}", page.styles, page.play, page.frame);
    let shown: Vec<&str> = got.iter().map(|t| t.text.as_str()).collect();
    let flat: Vec<&str> = want.iter().flatten().map(|r| r.text).collect();
    if shown != flat {
        return Err(told(format!("the runs are {shown:?}")));
    }
    let scale = (f64::from(page.frame.0) / f64::from(page.play.0), f64::from(page.frame.1) / f64::from(page.play.1));
    // a style that is not there is the first one
    let (align, sm) = page.styles[usize::from(style == "Other")];
    let align = lead.1.unwrap_or(align);
    let m: Vec<f64> = (0..3)
        .map(|i| match margins[i].trim_start_matches('0') {
            "" => f64::from(sm[i]),
            v => v.parse().unwrap(),
        })
        .collect();
    let (column, row) = ((align - 1) % 3, (align - 1) / 3);
    let (w, h) = (f64::from(page.frame.0), f64::from(page.frame.1));
    let (ax, ay) = match place {
        Some((x, y)) => (x * scale.0, y * scale.1),
        None => ([m[0] * scale.0, (m[0] * scale.0 + w - m[1] * scale.0) / 2.0, w - m[1] * scale.0][column as usize], [h - m[2] * scale.1, h / 2.0, m[2] * scale.1][row as usize]),
    };
    let mut at = 0;
    let mut tops: Vec<f64> = Vec::new();
    for line in &want {
        let width: f64 = line.iter().map(|r| r.width(scale)).sum();
        let over = line.last().map_or(0.0, |r| r.gap * scale.0 * r.sx / r.sy);
        let go = starts(ax, width, over, column);
        let x0 = f64::from(got[at].x);
        if !go.iter().any(|&g| near(g, x0)) {
            return Err(told(format!("the line {:?} starts at {x0} instead of {}", line.iter().map(|r| r.text).collect::<Vec<_>>(), go[0])));
        }
        let mut x = x0;
        tops.push(f64::from(got[at].y));
        for r in line {
            let t = &got[at];
            if !near(f64::from(t.x), x) {
                return Err(told(format!("the run {:?} starts at {} instead of {x}", r.text, t.x)));
            }
            let seen = t.effects.iter().find_map(|e| if let TextEffect::Scale { x, y } = e { Some((f64::from(*x) / 100.0, f64::from(*y) / 100.0)) } else { None }).unwrap_or((1.0, 1.0));
            if !near(seen.0, r.sx) || !near(seen.1, r.sy) || !near(f64::from(t.font_size), r.size * scale.1 * r.sy * GLYPHS) || !near(f64::from(t.spacing), r.gap * scale.0) {
                return Err(told(format!("the run {:?} is drawn at size {} scale {seen:?} spacing {}", r.text, t.font_size, t.spacing)));
            }
            x += r.width(scale);
            at += 1;
        }
    }
    // the height of a line of one size: that of its font size, or of the font
    let plain = want.iter().flatten().all(|r| r.size == 10.0 && r.sy == 1.0);
    if plain && !want.is_empty() {
        let n = want.len() as f64;
        let lh = 10.0 * scale.1;
        let boxes = [lh, f64::from(want[0][0].shape(scale).height)];
        let ok = boxes.iter().any(|b| {
            (0..want.len()).all(|i| {
                let y = match row {
                    0 => ay - (n - 1.0 - i as f64) * lh - b,
                    1 => ay - ((n - 1.0) * lh + b) / 2.0 + i as f64 * lh,
                    _ => ay + i as f64 * lh,
                };
                near(y, tops[i])
            })
        });
        if !ok {
            return Err(told(format!("the lines lie at {tops:?}, not {lh} apart from {ay} with alignment {align}")));
        }
    } else if tops.windows(2).any(|t| t[1] < t[0] + 1.0) {
        return Err(told(format!("the lines lie at {tops:?}, not below each other")));
    }
    run.state(&(tops.len(), column, row, flat.len(), place.is_some()));
    Ok(())
}

/// What is written, and the text it shows
const PIECES: [(&str, &str); 10] = [("ab", "ab"), ("{\\b1}", ""), ("W i", "W i"), ("{\\fscx200}", ""), ("{\\fsp3}", ""), ("{\\fs20}", ""), ("{\\fscy50}", ""), ("{\\r}", ""), ("{\\1c&H0000FF&}", ""), ("é", "é")];

const PAGES: [((u32, u32), (u32, u32)); 4] = [((160, 120), (160, 120)), ((80, 60), (160, 120)), ((100, 80), (160, 120)), ((320, 60), (160, 120))];

/// Neighbouring texts without a tag between them are one run
fn spread(picks: &[usize], broken: usize) -> Option<Vec<Vec<usize>>> {
    let mut lines = vec![Vec::new()];
    for &p in picks {
        if p == broken {
            lines.push(Vec::new());
        } else {
            lines.last_mut().unwrap().push(p);
        }
    }
    // what is judged: no empty lines, and a change between neighbouring texts
    let text = |p: usize| !PIECES[p].1.is_empty();
    let good = lines.iter().all(|l: &Vec<usize>| l.iter().any(|&p| text(p)) && l.windows(2).all(|w| !(text(w[0]) && text(w[1]))));
    good.then_some(lines)
}

pub fn r11(run: &Run) {
    run.rule("a line of text starts, is centred or ends at the margin, middle or position its alignment names; runs follow one another by what they measure; lines lie one line height apart, upwards from a bottom, around a middle and downwards from a top; margins of an event that are zero are those of its style");
    let n = PIECES.len() + 1;
    run.stage("runs", 9 * seq_count(n, run.pick(4, 5)), |i| {
        let a = (i % 9) as u32 + 1;
        let Some(lines) = spread(&seq_at(n, i / 9), n - 1) else { return Ok(()) };
        let (play, frame) = PAGES[(i / 9 % 4) as usize];
        let page = Page { play, frame, wrap: 2, styles: [(a, [3, 8, 5]), (2, [0; 3])] };
        lines_case(run, &page, "Default", ["0"; 3], ("", None), None, &lines)
    });
    let leads: Vec<(String, Option<u32>)> = [(String::new(), None)]
        .into_iter()
        .chain((1..10).map(|a| (format!("\\an{a}"), Some(a))))
        .chain([(1, 1), (2, 2), (3, 3), (5, 7), (6, 8), (7, 9), (9, 4), (10, 5), (11, 6)].map(|(a, n)| (format!("\\a{a}"), Some(n))))
        .collect();
    let fixed = [vec![vec![0]], vec![vec![0, 1, 2]], vec![vec![0], vec![9]], vec![vec![2], vec![0, 1, 9], vec![9]]];
    let margins = ["", "0", "0000", "6", "0012"];
    run.stage("margins", 9 * leads.len() as u64 * 125 * 4 * 4 * 3, |i| {
        let d = mx(&[9, leads.len() as u64, 125, 4, 4, 3], i);
        let (play, frame) = PAGES[d[3] as usize];
        let m = [margins[(d[2] % 5) as usize], margins[(d[2] / 5 % 5) as usize], margins[(d[2] / 25) as usize]];
        let page = Page { play, frame, wrap: 2, styles: [(d[0] as u32 + 1, [4, 9, 7]), (10 - d[0] as u32 - 1, [11, 0, 2])] };
        let lead = &leads[d[1] as usize];
        lines_case(run, &page, ["Default", "Other", "Missing"][d[5] as usize], m, (&lead.0, lead.1), None, &fixed[d[4] as usize])
    });
    let spots = [0.0, 40.0, -7.5, 200.0];
    run.stage("positions", 9 * leads.len() as u64 * 16 * 4 * 4, |i| {
        let d = mx(&[9, leads.len() as u64, 16, 4, 4], i);
        let (play, frame) = PAGES[d[3] as usize];
        let page = Page { play, frame, wrap: 0, styles: [(d[0] as u32 + 1, [4, 9, 7]), (2, [0; 3])] };
        let lead = &leads[d[1] as usize];
        lines_case(run, &page, "Default", ["0", "3", "0"], (&lead.0, lead.1), Some((spots[(d[2] % 4) as usize], spots[(d[2] / 4) as usize])), &fixed[d[4] as usize])
    });
    let widths: Vec<u32> = (0..run.pick(24, 60)).map(|k| 6 + 7 * k as u32 * 24 / run.pick(24, 60) as u32).collect();
    let most = run.pick(5, 7);
    run.stage("wrapping", widths.len() as u64 * 7 * TAGS.len() as u64 * seq_count(WORDS.len(), most), |i| {
        let w = widths.len() as u64;
        let (wide, how, tag) = (widths[(i % w) as usize], i / w % 7, i / w / 7 % TAGS.len() as u64);
        let words: Vec<&str> = seq_at(WORDS.len(), i / w / 7 / TAGS.len() as u64).into_iter().map(|k| WORDS[k]).collect();
        if words.is_empty() {
            return Ok(());
        }
        wrap_case(run, wide, how, &TAGS[tag as usize], &words)
    });
    let tails = ["", "{\\an8}", "{\\an5}", "{\\a6}", "{\\pos(80,110)}", "{\\an1}"];
    let bodies = ["ab", "ab\\Né", "W i{\\b1}ab"];
    let kinds = tails.len() * bodies.len();
    run.stage("several events", 3 * 4 * seq_count(kinds, run.pick(3, 4)), |i| {
        let picks = seq_at(kinds, i / 12);
        let (play, frame) = PAGES[(i / 3 % 4) as usize];
        let events: Vec<(String, bool, u32)> = picks
            .iter()
            .map(|&k| (format!("{}{}", tails[k / bodies.len()], bodies[k % bodies.len()]), tails[k / bodies.len()].contains("pos"), [0, 8, 5, 8, 0, 1][k / bodies.len()]))
            .collect();
        several_case(run, &Page { play, frame, wrap: 2, styles: [([2, 7, 5][(i % 3) as usize], [3, 4, 5]), (2, [0; 3])] }, &events)
    });
}

const WORDS: [&str; 4] = ["i", "ab", "WWWW", "é-"];
const TAGS: [(&str, Run1); 4] = [
    ("", Run1 { text: "", size: 10.0, bold: false, sx: 1.0, sy: 1.0, gap: 0.0 }),
    ("\\fsp2", Run1 { text: "", size: 10.0, bold: false, sx: 1.0, sy: 1.0, gap: 2.0 }),
    ("\\fscx50\\fscy200", Run1 { text: "", size: 10.0, bold: false, sx: 0.5, sy: 2.0, gap: 0.0 }),
    ("\\fs20\\b1\\fscx150", Run1 { text: "", size: 20.0, bold: true, sx: 1.5, sy: 1.0, gap: 0.0 }),
];

/// What words in one line cover
fn ink(words: &[&str], tag: &Run1, scale: (f64, f64)) -> f64 {
    let line = words.join(" ");
    let s = shaped(&line, tag.size * scale.1 * tag.sy * GLYPHS, tag.bold);
    let n = line.chars().count() as f64 - 1.0;
    (f64::from(s.ink_max - s.ink_min) + tag.gap * scale.0 * n) * tag.sx / tag.sy
}

fn wrap_case(run: &Run, wide: u32, how: u64, tag: &(&str, Run1), words: &[&str]) -> Result<(), String> {
    // the script's style, then what the tag says
    let (script, q) = [(0, ""), (1, ""), (2, ""), (3, ""), (2, "\\q1"), (0, "\\q2"), (1, "\\q9")][how as usize];
    let style = match q {
        "\\q1" => 1,
        "\\q2" => 2,
        _ => script,
    };
    let page = Page { play: (200, 60), frame: (240, 60), wrap: script, styles: [(2, [0, 200 - wide, 5]), (2, [0; 3])] };
    let scale = (1.2, 1.0);
    let room = f64::from(wide) * scale.0;
    let line = words.join(" ");
    let text = format!("{{{}{q}}}{line}", tag.0);
    let source = source(&page, &[("Default", ["0"; 3], text.clone())]);
    let got = texts(&page, &source)?;
    run.steps(1);
    let lines: Vec<&str> = got.iter().map(|t| t.text.as_str()).collect();
    let told = |e: &str| format!("{text:?} in {room} with wrap style {script}: {e}: {lines:?}");
    if lines.join(" ") != line {
        return Err(told("words are lost"));
    }
    let broken: Vec<Vec<&str>> = lines.iter().map(|l| l.split(' ').collect()).collect();
    if style == 2 {
        return if broken.len() == 1 { Ok(()) } else { Err(told("the line is broken")) };
    }
    // too close to tell: no opinion
    let close = std::cell::Cell::new(false);
    let fits = |w: &[&str]| {
        let x = ink(w, &tag.1, scale);
        close.set(close.get() || (x - room).abs() < 0.05);
        x <= room
    };
    let mut greedy: Vec<Vec<&str>> = vec![vec![words[0]]];
    for &w in &words[1..] {
        let last = greedy.last_mut().unwrap();
        last.push(w);
        if !fits(last) {
            last.pop();
            greedy.push(vec![w]);
        }
    }
    if close.get() {
        return Ok(());
    }
    run.state(&(style, greedy.len(), broken == greedy));
    if style == 1 && broken != greedy {
        return Err(told(&format!("instead of {greedy:?}")));
    }
    if broken.len() != greedy.len() {
        return Err(told(&format!("{} lines are enough", greedy.len())));
    }
    if let Some(l) = broken.iter().find(|l| l.len() > 1 && !fits(l)) {
        return Err(told(&format!("{l:?} is too long")));
    }
    // smart: no way to break into as many lines has a shorter longest line
    let widest = |b: &[Vec<&str>]| b.iter().map(|l| ink(l, &tag.1, scale)).fold(0.0, f64::max);
    if style != 1 && words.len() <= 12 {
        let best = (0..1u32 << (words.len() - 1))
            .filter(|m| m.count_ones() as usize + 1 == greedy.len())
            .map(|m| {
                let mut b: Vec<Vec<&str>> = vec![vec![words[0]]];
                for (k, &w) in words[1..].iter().enumerate() {
                    if m >> k & 1 == 1 {
                        b.push(vec![w]);
                    } else {
                        b.last_mut().unwrap().push(w);
                    }
                }
                widest(&b)
            })
            .fold(f64::MAX, f64::min);
        if widest(&broken) > best + 0.05 {
            return Err(told(&format!("the longest line has {}, {best} would do", widest(&broken))));
        }
    }
    // each line is centred, and they lie below each other
    for (t, l) in got.iter().zip(&lines) {
        let r = Run1 { text: "", ..tag.1 };
        let adv = (f64::from(shaped(l, r.size * r.sy * GLYPHS, r.bold).width) + r.gap * scale.0 * l.chars().count() as f64) * r.sx / r.sy;
        if !starts(room / 2.0, adv, r.gap * scale.0 * r.sx / r.sy, 1).iter().any(|&g| near(g, f64::from(t.x))) {
            return Err(told(&format!("{l:?} starts at {}", t.x)));
        }
    }
    if got.windows(2).any(|t| t[1].y < t[0].y + 1.0) {
        return Err(told("the lines do not lie below each other"));
    }
    Ok(())
}

/// Events at the same time: (text, positioned, alignment or none of its own)
fn several_case(run: &Run, page: &Page, events: &[(String, bool, u32)]) -> Result<(), String> {
    let all: Vec<_> = events.iter().map(|e| ("Default", ["0"; 3], e.0.clone())).collect();
    let together = texts(page, &source(page, &all))?;
    run.steps(1);
    let told = |e: String| format!("{:?} aligned {} ({:?} on {:?}): {e}", events.iter().map(|e| &e.0).collect::<Vec<_>>(), page.styles[0].0, page.play, page.frame);
    let lh = 10.0 * page.frame.1 as f32 / page.play.1 as f32;
    let height = page.frame.1 as f32;
    let mut at = 0;
    // rows taken by the events before: alignment, top and bottom
    let mut taken: Vec<(u32, f32, f32)> = Vec::new();
    for (e, one) in events.iter().zip(&all) {
        let alone = texts(page, &source(page, std::slice::from_ref(one)))?;
        let here = together.get(at..at + alone.len()).ok_or_else(|| told("runs are missing".into()))?;
        at += alone.len();
        let dy = here[0].y - alone[0].y;
        if here.iter().zip(&alone).any(|(h, a)| h.text != a.text || h.x != a.x || !near(f64::from(h.y - a.y), f64::from(dy))) {
            return Err(told(format!("{:?} is torn apart", e.0)));
        }
        let align = if e.2 == 0 { page.styles[0].0 } else { e.2 };
        let (top, bottom) = here.iter().fold((f32::MAX, f32::MIN), |(a, b), t| (a.min(t.y), b.max(t.y + lh)));
        let own = (top - dy, bottom - dy);
        if e.1 {
            if dy != 0.0 {
                return Err(told(format!("the positioned {:?} is moved by {dy}", e.0)));
            }
            continue;
        }
        // events of one column are over each other
        let same = |a: u32| (a - 1) % 3 == (align - 1) % 3;
        let hits = |t: f32, b: f32| taken.iter().any(|k| same(k.0) && k.1 < b - 0.6 && t + 0.6 < k.2);
        // (four pixels are kept between events)
        let free = |t: f32, b: f32| !taken.iter().any(|k| k.1 < b + 4.6 && t - 4.6 < k.2);
        if dy != 0.0 && free(own.0, own.1) && own.0 >= 0.0 && own.1 <= height {
            return Err(told(format!("{:?} is moved by {dy} though its place is free", e.0)));
        }
        let room = match (align - 1) / 3 {
            0 => taken.iter().map(|k| k.1).fold(own.0, f32::min) >= bottom - top + 5.0,
            2 => height - taken.iter().map(|k| k.2).fold(own.1, f32::max) >= bottom - top + 5.0,
            _ => false,
        };
        if hits(top, bottom) && room {
            return Err(told(format!("{:?} at {top}..{bottom} covers an earlier event ({taken:?})", e.0)));
        }
        taken.push((align, top, bottom));
    }
    run.state(&(taken.len(), events.len()));
    Ok(())
}
