//! R02: a frame depends on script, time and settings only.
use crate::mx;
use ass_core::parser::Script;
use ass_renderer::backends::coverage::{composite_bitmap, RenderBitmap};
use ass_renderer::backends::BackendType;
use ass_renderer::renderer::{Frame, RenderContext, Renderer};
use mc_common::*;
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

const STYLE: &str = "Format: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n";
const EVENT: &str = "\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n";
const PLAY: &str = "PlayResX: 64\nPlayResY: 48\n";

fn style(name: &str, size: &str, colour: &str, rest: &str) -> String {
    format!("Style: {name},DejaVu Sans,{size},{colour},&H0000FF,&H00FF00,&H80000000,{rest}\n")
}
const PLAIN: &str = "0,0,0,0,100,100,0,0,1,1,1,2,2,2,2,1";

fn script(info: &str, styles: &str, events: &[(&str, &str)]) -> String {
    let mut s = format!("[Script Info]\nScriptType: v4.00+\n{info}\n[V4+ Styles]\n{STYLE}{styles}{EVENT}");
    for (times, rest) in events {
        s.push_str(&format!("Dialogue: {},{times},{rest}\n", if rest.contains("up") { 1 } else { 0 }));
    }
    s
}

/// A system font under a name of its own, so that only the script naming its file has it
fn own_font() -> Option<PathBuf> {
    let mut bytes = std::fs::read("/usr/share/fonts/truetype/dejavu/DejaVuSansMono.ttf").ok()?;
    let wide = |s: &str| s.bytes().flat_map(|b| [0, b]).collect::<Vec<u8>>();
    for (from, to) in [(wide("DejaVu"), wide("Verify")), (b"DejaVu".to_vec(), b"Verify".to_vec())] {
        let mut at = 0;
        while at + from.len() <= bytes.len() {
            if bytes[at..at + from.len()] == from[..] {
                bytes[at..at + to.len()].copy_from_slice(&to);
                at += to.len();
            } else {
                at += 1;
            }
        }
    }
    let dir = std::env::temp_dir().join(format!("mc-render-{}", std::process::id()));
    std::fs::create_dir_all(&dir).ok()?;
    let path = dir.join("own.ttf");
    std::fs::write(&path, bytes).ok()?;
    Some(path)
}

/// Scripts by name; the times asked about are 0.5 s, 1.5 s, 2.5 s and so on
fn scripts(font: Option<&PathBuf>) -> Vec<(&'static str, String)> {
    let red = style("Default", "12", "&H0000FF", PLAIN);
    let all = "0:00:00.00,0:00:03.00";
    let (a, b, c) = ("0:00:00.00,0:00:01.00", "0:00:01.00,0:00:02.00", "0:00:01.00,0:00:03.00");
    let t = |s: &'static str| format!("Default,,0,0,0,,{s}");
    let mut v = vec![
        ("static", script(PLAY, &red, &[(a, &t("ab")), (b, &t("cd")), (c, &t("{\\pos(20,20)}ab"))])),
        // the same but for one letter of the style, or of the text
        ("static-blue", script(PLAY, &style("Default", "12", "&HFF0000", PLAIN), &[(a, &t("ab")), (b, &t("cd")), (c, &t("{\\pos(20,20)}ab"))])),
        ("static-other", script(PLAY, &red, &[(a, &t("ac")), (b, &t("cd")), (c, &t("{\\pos(21,20)}ab"))])),
        ("no-sizes", script("", &red, &[(a, &t("ab")), (b, &t("{\\pos(900,500)\\fs400}cd"))])),
        ("layout", script("PlayResX: 64\nPlayResY: 48\nLayoutResX: 128\nLayoutResY: 96\nScaledBorderAndShadow: no\nWrapStyle: 2\n", &red, &[(a, &t("a long line of words")), (c, &t("{\\pos(20,20)}ab"))])),
        ("wrapped", script(PLAY, &red, &[(a, &t("a long line of words")), (b, &t("{\\q2}a long line of words")), (c, &t("x\\Ny\\Nz"))])),
        ("two-styles", script(PLAY, &(style("A", "9", "&H00FFFF", PLAIN) + &style("B", "14", "&HFF00FF", "-1,-1,-1,-1,80,120,2,0,3,2,2,8,2,2,2,1")), &[(a, "A,,0,0,0,,ab"), (b, "B,,0,0,0,,ab"), (c, "None,,0,0,0,,cd")])),
        ("stacked", script(PLAY, &red, &[(a, &t("ab")), (all, &t("cd")), (c, &t("ef")), (b, "Default,,0,0,0,,up")])),
        ("moving", script(PLAY, &red, &[(all, &t("{\\move(0,20,60,20)}ab")), (b, &t("{\\fad(500,500)}cd"))])),
        ("transformed", script(PLAY, &red, &[(all, &t("{\\t(0,3000,\\1c&HFF0000&\\fs20\\frz90)}ab")), (a, &t("{\\t(\\alpha&HFF&)}cd"))])),
        ("karaoke", script(PLAY, &red, &[(all, &t("{\\k50}a{\\k100}b{\\kf100}cd{\\ko50}e"))])),
        ("blurred", script(PLAY, &red, &[(a, &t("{\\blur2}ab")), (b, &t("{\\blur2\\pos(20,20)}ab")), (c, &t("{\\pos(30.5,30.5)\\blur1\\bord3}ab"))])),
        ("projected", script(PLAY, &red, &[(a, &t("{\\blur2\\frx60}ab")), (b, &t("{\\frx60}ab")), (c, &t("{\\blur2\\fry60\\pos(20,20)}ab"))])),
        ("edges", script(PLAY, &red, &[(a, &t("{\\be2}ab")), (b, &t("{\\fscx150\\fscy50\\fsp3}ab")), (c, &t("{\\fax0.5\\frz30\\xbord3\\yshad4\\u1\\s1}ab"))])),
        ("clipped", script(PLAY, &red, &[(a, &t("{\\clip(10,10,40,40)\\pos(20,30)}ab")), (b, &t("{\\iclip(10,10,40,40)\\pos(20,30)}ab")), (c, &t("{\\clip(30,0,64,48)\\blur2}ab"))])),
        ("drawn", script(PLAY, &red, &[(a, &t("{\\an7\\pos(5,5)\\p1}m 0 0 l 30 0 30 30 0 30")), (b, &t("{\\an7\\pos(5,5)\\p2\\blur2}m 0 0 b 30 0 30 30 0 30")), (c, &t("{\\an7\\pos(9,9)\\clip(0,0,20,20)\\p1\\bord2}m 0 0 l 30 0 30 30"))])),
        ("sizes", script(PLAY, &red, &[(a, &t("{\\fs12.000001}ab")), (b, &t("{\\fs-12}ab")), (c, &t("{\\fs0}ab"))])),
        ("empty", String::from("[Script Info]\nTitle: none\n")),
    ];
    if let Some(font) = font {
        let own = style("Default", "12", "&H0000FF", PLAIN).replace("DejaVu Sans", "Verify Sans Mono");
        v.push(("own-font", script(&format!("{PLAY}Font: {}\n", font.display()), &own, &[(a, &t("iiii")), (c, &t("{\\an7}iiii WW"))])));
        v.push(("font-missing", script(PLAY, &own, &[(a, &t("iiii")), (c, &t("{\\an7}iiii WW"))])));
    }
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Kind {
    Full,
    /// from the frame last drawn of this script in this size
    Incremental,
    Bitmaps,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Req {
    script: usize,
    time: u32,
    size: usize,
    kind: Kind,
}

type Pixels = Arc<Vec<u8>>;

const SIZES: [(u32, u32); 3] = [(64, 48), (48, 64), (96, 72)];

fn context(size: usize) -> RenderContext {
    RenderContext::with_font_database(SIZES[size].0, SIZES[size].1, fontdb_empty())
}

fn fontdb_empty() -> fontdb::Database {
    fontdb::Database::new()
}

/// the picture a player puts together from the bitmaps
fn composed(v: &[RenderBitmap], size: usize) -> Vec<u8> {
    let (w, h) = SIZES[size];
    let mut out = vec![0; (w * h * 4) as usize];
    for b in v {
        composite_bitmap(&mut out, w, h, b);
    }
    out
}

struct Machine<'s> {
    sources: &'s [(&'static str, String)],
    renderer: Renderer,
    size: usize,
    last: HashMap<(usize, usize), Frame>,
}

impl<'s> Machine<'s> {
    fn new(sources: &'s [(&'static str, String)], size: usize) -> Self {
        Machine { sources, renderer: Renderer::new(BackendType::Software, context(size)).expect("renderer"), size, last: HashMap::new() }
    }

    /// the bytes drawn, and the time the frame says it shows
    fn draw(&mut self, q: Req) -> Result<Vec<u8>, String> {
        if q.size != self.size {
            self.renderer.set_context(context(q.size));
            self.size = q.size;
        }
        // parsed anew each time, so that scripts take each other's place in memory
        let text = self.sources[q.script].1.clone();
        let script = Script::parse(&text).map_err(|e| e.to_string())?;
        let frame = match (q.kind, self.last.get(&(q.script, q.size))) {
            (Kind::Bitmaps, _) => return self.renderer.render_frame_bitmaps(&script, q.time).map(|v| composed(&v, q.size)).map_err(|e| e.to_string()),
            (Kind::Incremental, Some(last)) => {
                let last = last.clone();
                self.renderer.render_frame_incremental(&script, q.time, &last)
            }
            _ => self.renderer.render_frame(&script, q.time),
        }
        .map_err(|e| e.to_string())?;
        if (frame.timestamp(), frame.width(), frame.height()) != (q.time, SIZES[q.size].0, SIZES[q.size].1) {
            return Err(format!("the frame for {} says {}x{} at {}", q.time, frame.width(), frame.height(), frame.timestamp()));
        }
        let pixels = frame.data().to_vec();
        self.last.insert((q.script, q.size), frame);
        Ok(pixels)
    }
}

/// a fresh renderer in a fresh thread, where nothing was drawn before
fn alone<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| s.spawn(f).join()).unwrap_or_else(|p| std::panic::resume_unwind(p))
}

/// tags with usual, extreme and broken values
const TAGS: &[&str] = &[
    "\\b1", "\\i1", "\\u1", "\\s1", "\\b0", "\\b700", "\\fs0", "\\fs1", "\\fs-5", "\\fs30", "\\fs1000", "\\fs100000", "\\fs1e30", "\\fsnan", "\\fsinf",
    "\\fscx0", "\\fscx-100", "\\fscx1000000", "\\fscy0", "\\fscy-100", "\\fscy1000000", "\\fsp-100", "\\fsp1e30", "\\frz45", "\\frz1e30", "\\frx90", "\\frx89.99", "\\fry90", "\\fry45", "\\fax1", "\\fax1e30", "\\fay-2",
    "\\bord0", "\\bord-3", "\\bord5", "\\bord100000", "\\bord1e30", "\\xbord3", "\\ybord-3", "\\shad5", "\\shad-5", "\\shad1e30", "\\xshad3", "\\yshad-1e30",
    "\\blur0.1", "\\blur3", "\\blur-3", "\\blur30", "\\blur1e30", "\\blurnan", "\\be1", "\\be100", "\\be-1", "\\be20",
    "\\pos(10,10)", "\\pos(-1e30,1e30)", "\\pos(1e9,1e9)", "\\pos(nan,inf)", "\\pos(10)", "\\pos(,)", "\\move(0,0,64,48)", "\\move(0,0,64,48,500,1500)", "\\move(0,0,64,48,1500,500)", "\\move(0,0,64,48,4294967295,4294967295)", "\\move(1,2,3)",
    "\\org(10,10)", "\\org(1e30,1e30)\\frz30", "\\clip(10,10,40,40)", "\\clip(40,40,10,10)", "\\clip(-1e30,-1e30,1e30,1e30)", "\\iclip(10,10,40,40)", "\\clip(m 0 0 l 30 0 30 30)", "\\clip(1)", "\\clip(nan,0,0,nan)",
    "\\an1", "\\an5", "\\an9", "\\an0", "\\an10", "\\a6", "\\q0", "\\q2", "\\q9", "\\1c&H00FF00&", "\\3c&HFFFFFFFFFF&", "\\c", "\\1a&H80&", "\\alpha&HFF&", "\\alpha&H1FF&", "\\1é",
    "\\k50", "\\kf50", "\\ko50", "\\K0", "\\k4294967295", "\\k-5", "\\kt50", "\\fad(500,500)", "\\fad(4294967295,4294967295)", "\\fad(0,0)", "\\fad(1)", "\\fade(255,0,255,0,500,1500,2000)", "\\fade(255,0,255,2000,1500,500,0)", "\\fade(0,0,0,4294967295,4294967295,4294967295,4294967295)",
    "\\t(\\fs40)", "\\t(0,1000,\\frz360)", "\\t(1000,0,\\fs40)", "\\t(0,4294967295,2,\\1c&HFF0000&)", "\\t(-1,\\fs20)", "\\t(0,0,0,\\bord9)", "\\t(", "\\t()", "\\t(500,1500,-3,\\alpha&HFF&\\fscx300\\blur3)", "\\t(é)",
    "\\p1", "\\p1}m 0 0 l 30 0 30 30{", "\\p0", "\\p-1", "\\p99}m 0 0 l 1e30 0 0 1e30{", "\\p1}m 0 0 b 1 2 3{", "\\p4294967296}m nan nan l 1 1{", "\\p1}m 0 0 l 1000000000 0 1000000000 1000000000 0 1000000000{", "\\pbo10", "\\fnNone", "\\fn", "\\fe1", "\\r", "\\rNone", "\\", "(", ")", "\\unknown", "é",
];

/// tags with values close to one another, kind by kind
const NEAR: &[&[&str]] = &[
    &["", "\\fsp2", "\\fsp2.4", "\\fsp2.9", "\\fsp-0.4", "\\fsp-0.9"],
    &["", "\\fs12.3", "\\fs12.7", "\\fs13"],
    &["", "\\bord0.2", "\\bord0.8", "\\bord1", "\\xbord1.5\\ybord0.5", "\\xbord0.5\\ybord1.5"],
    &["", "\\shad0.3", "\\shad0.8", "\\xshad1\\yshad2", "\\xshad2\\yshad1", "\\xshad-1"],
    &["", "\\blur0.4", "\\blur0.9", "\\blur1.2", "\\be1", "\\be2"],
    &["", "\\frz10", "\\frz10.8", "\\frz-10", "\\frz370"],
    &["", "\\fscx110", "\\fscx110.9", "\\fscy110", "\\fscx110\\fscy110"],
    &["", "\\fax0.2", "\\fax0.28", "\\fay0.2", "\\fax-0.2"],
    &["", "\\frx20", "\\frx20.9", "\\fry20", "\\frx-20"],
    &["", "\\org(10,10)\\frz20", "\\org(10.6,10)\\frz20", "\\org(10,10.6)\\frz20", "\\frz20"],
    &["", "\\b1", "\\i1", "\\b1\\i1", "\\u1", "\\s1", "\\fnDejaVu Serif", "\\fnDejaVu Sans Mono"],
    &["", "\\1c&H0100FF&", "\\1c&H00FF01&", "\\1a&H01&", "\\3c&H01FF00&", "\\3a&H01&", "\\4c&H010000&", "\\4a&H81&", "\\2c&H01FF00&"],
    &["", "\\pos(20,20)", "\\pos(20.4,20)", "\\pos(20.8,20)", "\\pos(20,20.4)", "\\pos(-3.3,20)"],
    &["", "\\clip(10,10,30,30)", "\\clip(10.4,10,30,30)", "\\clip(10,10,30.6,30)", "\\iclip(10,10,30,30)"],
    &["", "\\k50", "\\k150", "\\kf150", "\\kf160", "\\ko150"],
];

pub fn r02(r: &Run) {
    r.rule("every history of drawing requests (full, incremental, bitmap list) up to the stated length over an alphabet of scripts, times and frame sizes is run in a thread of its own; every frame of it is compared byte by byte with the one a fresh renderer in a fresh thread draws; the scripts are parsed anew for each request");
    r.assume("incremental requests continue from the last frame of the same script and size");
    let font = own_font();
    let sources = scripts(font.as_ref());
    let known: Mutex<HashMap<(usize, u32, usize, bool), Result<Pixels, String>>> = Mutex::new(HashMap::new());
    let fresh = |q: Req| -> Result<Pixels, String> {
        let key = (q.script, q.time, q.size, q.kind == Kind::Bitmaps);
        if let Some(v) = known.lock().unwrap().get(&key) {
            return v.clone();
        }
        let kind = if q.kind == Kind::Bitmaps { Kind::Bitmaps } else { Kind::Full };
        let v = alone(|| Machine::new(&sources, q.size).draw(Req { kind, ..q })).map(Arc::new);
        known.lock().unwrap().insert(key, v.clone());
        v
    };
    let show = |q: &Req| format!("{:?} of {} at {} in {:?}", q.kind, sources[q.script].0, q.time, SIZES[q.size]);
    let run = |path: &[Req]| -> Result<(), String> {
        let drawn = alone(|| {
            let mut m = Machine::new(&sources, path[0].size);
            path.iter().map(|&q| guard(|| m.draw(q)).unwrap_or_else(|p| Err(format!("panic: {p}")))).collect::<Vec<_>>()
        });
        for (i, (q, got)) in path.iter().zip(drawn).enumerate() {
            let want = fresh(*q)?;
            let got = got.map_err(|e| format!("{}: {e}", show(q)))?;
            if got != *want {
                let before: Vec<String> = path[..i].iter().map(show).collect();
                let off = got.iter().zip(want.iter()).filter(|(a, b)| a != b).count();
                let at = got.iter().zip(want.iter()).position(|(a, b)| a != b);
                return Err(format!("after {before:?}, {} differs from a fresh renderer in {off} of {} bytes, first at {at:?}", show(q), want.len()));
            }
            r.state(&(path[..=i].to_vec(), h64(&got)));
        }
        r.steps(path.len() as u64);
        r.traces(1);
        Ok(())
    };

    // requests of a script alphabet
    let requests = |names: &[&str], times: &[u32], sizes: &[usize], kinds: &[Kind]| -> Vec<Req> {
        let mut v = vec![];
        for (script, (name, _)) in sources.iter().enumerate() {
            if names.is_empty() || names.contains(name) {
                for &time in times {
                    for &size in sizes {
                        for &kind in kinds {
                            v.push(Req { script, time, size, kind });
                        }
                    }
                }
            }
        }
        v
    };
    let histories = |name: &str, alphabet: Vec<Req>, depth: usize| {
        let n = alphabet.len() as u64;
        r.stage(name, n.pow(depth as u32), |k| {
            let mut k = k;
            let path: Vec<Req> = (0..depth)
                .map(|_| {
                    let q = alphabet[(k % n) as usize];
                    k /= n;
                    q
                })
                .collect();
            run(&path)
        });
    };
    use Kind::*;
    let times = [50u32, 150, 250];

    // the references themselves: something is drawn, always the same
    let all = requests(&[], &[0, 50, 100, 150, 199, 200, 250, 299, 300], &[0, 1, 2], &[Full, Bitmaps]);
    r.stage("fresh", all.len() as u64, |k| {
        let q = all[k as usize];
        let a = fresh(q)?;
        let b = alone(|| Machine::new(&sources, q.size).draw(q))?;
        if *a != b {
            return Err(format!("two fresh renderers draw {} differently", show(&q)));
        }
        if q.kind == Kind::Bitmaps {
            let frame = fresh(Req { kind: Full, ..q })?;
            if let Some(at) = (0..a.len()).find(|&i| a[i].abs_diff(frame[i]) > 1) {
                return Err(format!("{} composed: byte {at} is {} instead of {}; {} differ: {:?}", show(&q), a[at], frame[at], (0..a.len()).filter(|&i| a[i].abs_diff(frame[i]) > 1).count(), (0..a.len()).filter(|&i| a[i].abs_diff(frame[i]) > 1).map(|i| (i / 4 % SIZES[q.size].0 as usize, i / 4 / SIZES[q.size].0 as usize, i % 4, a[i], frame[i])).take(40).collect::<Vec<_>>()));
            }
        }
        r.sample(format!("{}: {} bytes, {} of them not 0", show(&q), a.len(), a.iter().filter(|b| **b != 0).count()));
        r.steps(1);
        Ok(())
    });
    let effects = ["blurred", "projected", "edges", "clipped", "karaoke", "drawn"];
    histories("pairs", requests(&[], &times, &[0], r.pick(&[Full], &[Full, Bitmaps])), 2);
    if !r.thorough() {
        histories("pairs-bitmaps", requests(&effects, &times, &[0], &[Full, Bitmaps]), 2);
    }
    histories("pairs-sizes", requests(&[], r.pick(&[50], &times), r.pick(&[0, 1], &[0, 1, 2]), r.pick(&[Full], &[Full, Incremental])), 2);
    for (name, _) in sources.iter() {
        histories(&format!("one-script-{name}"), requests(&[name], r.pick(&times, &[0, 50, 150, 199, 250, 300]), r.pick(&[0], &[0, 1]), &[Full, Incremental]), 3);
    }
    let groups: [&[&str]; 5] = [&["static", "static-blue", "static-other", "own-font", "font-missing"], &["blurred", "projected", "edges", "clipped"], &["static", "layout", "no-sizes", "two-styles"], &["moving", "transformed", "karaoke", "stacked"], &["sizes", "static", "drawn", "wrapped"]];
    for (n, group) in groups[..r.pick(2, 5)].iter().enumerate() {
        histories(&format!("triples-{n}"), requests(group, r.pick(&times[..2], &times), &[0], r.pick(&[Full], &[Full, Incremental])), 3);
        if r.thorough() {
            histories(&format!("quadruples-{n}"), requests(group, &times, &[0], &[Full]), 4);
        }
    }

    // lines that are alike but for a little: none is drawn as another was
    let modes = ["", "\\blur1", "\\bord2", "\\shad2", "\\clip(0,0,40,40)", "\\kf150", "\\frz30", "\\fscx150"];
    let near: Vec<Vec<&str>> = r.pick(NEAR.iter().map(|f| f.to_vec()).collect(), vec![NEAR.concat()]);
    for (n, values) in near.iter().enumerate() {
        let d = [modes.len() as u64, values.len() as u64, values.len() as u64];
        r.stage(&format!("near-{n}"), d.iter().product(), |k| {
            let k = mx(&d, k);
            let texts: Vec<String> = [k[1], k[2]].iter().map(|&i| format!("{{{}{}}}lia", modes[k[0] as usize], values[i as usize])).collect();
            let sources: Vec<(&'static str, String)> = texts.iter().map(|text| ("near", script(PLAY, &style("Default", "12", "&H0000FF", PLAIN), &[("0:00:00.00,0:00:03.00", &format!("Default,,0,0,0,,{text}"))]))).collect();
            let q = |script| Req { script, time: 100, size: 0, kind: Full };
            let want = alone(|| Machine::new(&sources, 0).draw(q(1)))?;
            let got = alone(|| {
                let mut m = Machine::new(&sources, 0);
                m.draw(q(0))?;
                m.draw(q(1))
            })?;
            r.steps(3);
            r.state(&(k.clone(), h64(&got)));
            if got != want {
                return Err(format!("{:?} is drawn otherwise after {:?}", texts[1], texts[0]));
            }
            Ok(())
        });
    }

    // any tags: nothing panics, and the two ways of drawing agree
    let tags = TAGS;
    let per = tags.len() as u64;
    r.stage("tags", per * r.pick(1, per), |k| {
        let d = mx(&[per, per], k);
        let (x, y) = (tags[d[1] as usize], tags[d[0] as usize]);
        if r.thorough() && d[1] < d[0] {
            return Ok(()); // the pair (y, x)
        }
        let text = if r.thorough() { format!("{{{x}{y}}}ab{{{y}}}cd{{{x}}}") } else { format!("{{{x}}}ab{{\\r}}cd{{{x}}}") };
        let sources = [("tags", script(PLAY, &style("Default", "12", "&H0000FF", PLAIN), &[("0:00:01.00,0:00:03.00", &format!("Default,,0,0,0,,{text}"))]))];
        // the colours of blurred shapes are no premultiplied ones: see the finding blur-straight-alpha of R05
        let blurred = [x, y].iter().any(|t| t.contains("\\b") && (t.contains("\\blur") || t.contains("\\be")));
        alone(|| {
            let mut m = Machine::new(&sources, 0);
            for &time in r.pick(&[100, 150, 299][..], &[150]) {
                let full = Req { script: 0, time, size: 0, kind: Full };
                let a = guard(|| m.draw(full)).map_err(|p| format!("{text:?} at {time}: {p}"))?;
                let b = guard(|| m.draw(Req { kind: Bitmaps, ..full })).map_err(|p| format!("{text:?} at {time} as bitmaps: {p}"))?;
                match (a, b) {
                    (Ok(a), Ok(b)) => {
                        if let Some(at) = (0..a.len()).find(|&i| a[i].abs_diff(b[i]) > 3 && (!blurred || i % 4 == 3)) {
                            return Err(format!("{text:?} at {time}: byte {at} is {} drawn and {} composed", a[at], b[at]));
                        }
                        r.state(&(d.clone(), h64(&a)));
                        if time == 150 {
                            r.sample(format!("{text:?}: {} bytes not 0", a.iter().filter(|b| **b != 0).count()));
                        }
                    }
                    (a, b) => {
                        if a.is_ok() != b.is_ok() {
                            return Err(format!("{text:?} at {time}: drawn {:?}, composed {:?}", a.map(|_| ()), b.map(|_| ())));
                        }
                    }
                }
                r.steps(2);
            }
            Ok(())
        })
    });
    if let Some(font) = font {
        let _ = std::fs::remove_file(&font);
        let _ = std::fs::remove_dir(font.parent().unwrap());
    }
}
