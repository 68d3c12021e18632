//! R09: `\clip` and `\iclip` decide which pixels a line may touch.
use crate::mx;
use ass_core::parser::Script;
use ass_renderer::backends::coverage::composite_bitmap;
use ass_renderer::backends::BackendType;
use ass_renderer::renderer::{RenderContext, Renderer};
use mc_common::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub const HEAD: &str = "[Script Info]\nScriptType: v4.00+\nPlayResX: 64\nPlayResY: 48\n\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\nStyle: Default,DejaVu Sans,20,&H000000FF,&H00FF00FF,&H0000FF00,&H80FF0000,0,0,0,0,100,100,0,0,1,2,3,5,2,2,2,1\nStyle: Box,DejaVu Sans,20,&H400000FF,&H00FF00FF,&H0000FF00,&H80FF0000,0,0,0,0,100,100,0,0,3,2,0,5,2,2,2,1\n\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n";

/// What is clipped: style, tags before the clip, tags after it and text
const CONTENTS: &[(&str, &str, &str)] = &[
    ("Default", "", "}AB"),
    ("Default", "\\bord0\\shad0", "}AB"),
    ("Default", "\\bord4", "\\shad0}AB"),
    ("Default", "\\shad6\\bord0", "}AB"),
    ("Default", "", "\\blur2}AB"),
    ("Default", "\\blur2\\bord0\\shad0", "}AB"),
    ("Default", "\\be2", "}AB"),
    ("Box", "", "}AB"),
    ("Default", "\\u1\\s1", "}AB"),
    ("Default", "\\frz35", "}AB"),
    ("Default", "", "\\frx40\\fry20}AB"),
    ("Default", "\\fscx150\\fscy60\\fax0.4", "}AB"),
    ("Default", "", "\\k50}A{\\k100}B"),
    ("Default", "\\an7\\pos(8,6)", "\\p1\\bord0\\shad0}m 0 0 l 48 0 48 36 0 36"),
    ("Default", "\\an7\\pos(8,6)\\p1\\bord3", "}m 0 0 b 48 0 48 36 0 36"),
    ("Default", "\\an7\\pos(8,6)", "\\blur2\\p1}m 0 0 l 48 0 48 36 0 36"),
    ("Default", "\\an7\\pos(3.3,2.7)", "\\1a&H80&}A\\NB"),
    ("Default", "\\an5\\pos(32,24)", "}A{\\1c&HFFFFFF&}B{\\fs30\\alpha&H60&}C"),
    ("Default", "\\move(0,24,64,24)", "\\fad(900,900)}AB"),
    ("Default", "\\t(\\frz180\\fs30\\1c&HFFFFFF&)", "}AB"),
    ("Default", "\\an8\\pos(32,0)\\fsp6", "\\i1\\b1}ABC"),
];

pub fn r09(r: &Run) {
    r.rule("every way of drawing listed is rendered with every rectangle over a grid of coordinates (inside, outside, across the frame's edges, fractional, reversed, empty), as clip and inverse clip, over another line; each pixel wholly outside what the clip leaves must be as without the line, and each wholly inside as with a clip that leaves everything");
    r.assume("pixels that an edge of the rectangle cuts through are not judged");
    let times = [100u32, 150, 250];
    let sizes = [(64u32, 48u32), (96, 72), (32, 24)];
    let xs: Vec<&str> = r.pick(vec!["-9", "0", "20.5", "33", "80"], vec!["-9", "0", "8", "20.5", "33", "40.25", "64", "80"]);
    let ys: Vec<&str> = r.pick(vec!["-9", "11.25", "24", "60"], vec!["-9", "0", "11.25", "24", "30.5", "48", "60"]);
    let (nx, ny) = (xs.len() as u64, ys.len() as u64);
    let n = CONTENTS.len() as u64;

    type Key = (usize, usize, usize, String);
    let known: Mutex<HashMap<Key, Arc<Vec<u8>>>> = Mutex::new(HashMap::new());
    // as a frame, or put together from the bitmaps
    let draw = |content: Option<usize>, time: usize, size: usize, clip: &str, bitmaps: bool| -> Result<Vec<u8>, String> {
        let mut text = format!("{HEAD}Dialogue: 0,0:00:00.00,0:00:03.00,Default,,0,0,0,,{{\\an7\\pos(0,0)\\p1\\bord0\\shad0\\1c&H408000&\\1a&H30&}}m 0 0 l 64 0 64 48 0 30\n");
        if let Some(c) = content {
            let (style, before, after) = CONTENTS[c];
            text.push_str(&format!("Dialogue: 1,0:00:01.00,0:00:03.00,{style},,0,0,0,,{{{before}{clip}{after}\n"));
        }
        let script = Script::parse(&text).map_err(|e| e.to_string())?;
        let (w, h) = sizes[size];
        let mut renderer = Renderer::new(BackendType::Software, RenderContext::with_font_database(w, h, fontdb::Database::new())).map_err(|e| e.to_string())?;
        if bitmaps {
            let mut out = vec![0; (w * h * 4) as usize];
            for b in renderer.render_frame_bitmaps(&script, times[time]).map_err(|e| e.to_string())? {
                composite_bitmap(&mut out, w, h, &b);
            }
            return Ok(out);
        }
        Ok(renderer.render_frame(&script, times[time]).map_err(|e| e.to_string())?.data().to_vec())
    };
    let reference = |content: Option<usize>, time: usize, size: usize, clip: &str| -> Result<Arc<Vec<u8>>, String> {
        let key = (content.map_or(usize::MAX, |c| c), time, size, clip.to_string());
        if let Some(v) = known.lock().unwrap().get(&key) {
            return Ok(v.clone());
        }
        let v = Arc::new(draw(content, time, size, clip, false)?);
        known.lock().unwrap().insert(key, v.clone());
        Ok(v)
    };
    const ALL: &str = "\\clip(-4000,-4000,4000,4000)";

    let judge = |c: usize, time: usize, size: usize, inverse: bool, at: [&str; 4], bitmaps: bool| -> Result<(), String> {
        let [x1, y1, x2, y2] = at;
        let clip = format!("\\{}({x1},{y1},{x2},{y2})", if inverse { "iclip" } else { "clip" });
        let (w, h) = (sizes[size].0 as usize, sizes[size].1 as usize);
        let (sx, sy) = (w as f64 / 64.0, h as f64 / 48.0);
        let v = |s: &str, k: f64| s.parse::<f64>().unwrap() * k;
        let (x1, x2) = (v(x1, sx).min(v(x2, sx)), v(x1, sx).max(v(x2, sx)));
        let (y1, y2) = (v(y1, sy).min(v(y2, sy)), v(y1, sy).max(v(y2, sy)));
        let behind = reference(None, time, size, "")?;
        let whole = reference(Some(c), time, size, ALL)?;
        let got = draw(Some(c), time, size, &clip, bitmaps)?;
        let tolerance = if bitmaps { 3 } else { 0 };
        // the colours of blurred shapes are no premultiplied ones: see the finding blur-straight-alpha of R05
        let blurred = bitmaps && (CONTENTS[c].1.contains("\\be") || CONTENTS[c].2.contains("\\blur"));
        let (mut kept, mut left) = (0u32, 0u32);
        for y in 0..h {
            for x in 0..w {
                let (l, t) = (x as f64, y as f64);
                let inside = l >= x1 && l + 1.0 <= x2 && t >= y1 && t + 1.0 <= y2;
                let outside = l + 1.0 <= x1 || l >= x2 || t + 1.0 <= y1 || t >= y2;
                let (shown, hidden) = if inverse { (outside, inside) } else { (inside, outside) };
                let want = match (shown, hidden) {
                    (true, _) => &whole,
                    (_, true) => &behind,
                    _ => continue,
                };
                let p = (y * w + x) * 4;
                for i in if blurred { p + 3 } else { p }..p + 4 {
                    if got[i].abs_diff(want[i]) > tolerance {
                        return Err(format!("{clip} on {:?} at {} in {w}x{h}{}: pixel ({x}, {y}) is {:?}, but {:?} {}", CONTENTS[c], times[time], if bitmaps { ", composed" } else { "" }, &got[p..p + 4], &want[p..p + 4], if shown { "with all of the line shown" } else { "behind the line" }));
                    }
                }
                if whole[p..p + 4] != behind[p..p + 4] {
                    if shown {
                        kept += 1
                    } else {
                        left += 1
                    }
                }
            }
        }
        r.state(&(c, clip, time, size, h64(&got)));
        r.steps(1);
        r.traces(1);
        if kept > 0 && left > 0 && time == 1 {
            r.sample(format!("{:?} {}: {kept} pixels shown, {left} hidden", CONTENTS[c], if inverse { "iclip" } else { "clip" }));
        }
        Ok(())
    };

    // the clip that leaves everything leaves everything
    r.stage("whole", n * 3 * 3, |k| {
        let d = mx(&[n, 3, 3], k);
        let (c, time, size) = (d[0] as usize, d[1] as usize, d[2] as usize);
        let (w, h) = (sizes[size].0 as i32, sizes[size].1 as i32);
        let behind = reference(None, time, size, "")?;
        let free = draw(Some(c), time, size, "", false)?;
        for clip in [ALL, "\\iclip(-40,-40,-30,-30)", "\\clip(4000,4000,-4000,-4000)"] {
            let whole = reference(Some(c), time, size, clip)?;
            // nothing is lost (clipped text is filled in another way, which rounds differently and shows wider shadows)
            {
                let (a, b, what) = (&free, &whole, "only without");
                for y in 0..h {
                    for x in 0..w {
                        let p = |x: i32, y: i32| ((y * w + x) * 4) as usize;
                        let i = p(x, y);
                        let strong = (0..4).any(|j| a[i + j].abs_diff(behind[i + j]) > 40);
                        let near = (-2..=2).any(|dy| {
                            (-2..=2).any(|dx| {
                                let (x, y) = (x + dx, y + dy);
                                x >= 0 && y >= 0 && x < w && y < h && b[p(x, y)..p(x, y) + 4] != behind[p(x, y)..p(x, y) + 4]
                            })
                        });
                        if strong && !near {
                            return Err(format!("{:?} at {} in {w}x{h}: pixel ({x}, {y}) is drawn {what} {clip}", CONTENTS[c], times[time]));
                        }
                    }
                }
            }
        }
        if free == **behind && !(time == 0 && CONTENTS[c].2.contains("fad")) {
            return Err(format!("{:?} at {} in {w}x{h} draws nothing", CONTENTS[c], times[time]));
        }
        r.steps(4);
        Ok(())
    });
    // every rectangle of the grid
    r.stage("rectangles", n * 2 * nx * nx * ny * ny, |k| {
        let d = mx(&[n, 2, nx, ny, nx, ny], k);
        let at = [xs[d[2] as usize], ys[d[3] as usize], xs[d[4] as usize], ys[d[5] as usize]];
        judge(d[0] as usize, 1, 0, d[1] == 1, at, false)
    });
    // other frame sizes and times, drawn and composed
    let some = r.pick([["20.5", "11.25", "33", "60"], ["33", "24", "-9", "-9"], ["0", "0", "64", "24"]].to_vec(), vec![["20.5", "11.25", "33", "60"], ["33", "24", "-9", "-9"], ["0", "0", "64", "24"], ["20", "12", "44", "36"], ["40.25", "30.5", "90", "90"], ["8", "8", "8", "40"], ["63", "47", "64", "48"]]);
    let ns = some.len() as u64;
    r.stage("sizes", n * 2 * ns * 3 * 3 * 2, |k| {
        let d = mx(&[n, 2, ns, 3, 3, 2], k);
        judge(d[0] as usize, d[3] as usize, d[4] as usize, d[1] == 1, some[d[2] as usize], d[5] == 1)
    });
}
