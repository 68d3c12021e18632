//! R12: softening, clips and where a line is change what they are for, and neither move,
//! lose nor add to what is drawn.
use crate::mx;
use ass_core::parser::Script;
use ass_renderer::backends::BackendType;
use ass_renderer::renderer::{RenderContext, Renderer};
use mc_common::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub const W: u32 = 200;
pub const H: u32 = 160;

/// How much there is of every channel, and where the alpha lies
#[derive(Clone, Copy, Debug)]
pub struct Mass {
    /// red, green, blue (each times alpha) and alpha, in whole pixels
    pub sum: [f64; 4],
    pub x: f64,
    pub y: f64,
    pub xx: f64,
    pub xy: f64,
    pub yy: f64,
}

fn frame(text: &str, at: u32) -> Result<Vec<u8>, String> {
    let source = format!(
        "[Script Info]\nPlayResX: {W}\nPlayResY: {H}\n\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV\nStyle: Default,DejaVu Sans,24,&H00FFFFFF,&H000000FF,&H0000FF00,&H00FF0000,1,0,0,5,0,0,0\n\n[Events]\nFormat: Layer, Start, End, Style, Text\nDialogue: 0,0:00:00.00,0:00:01.00,Default,{text}\n"
    );
    let draw = || -> Result<Vec<u8>, String> {
        let script = Script::parse(&source).map_err(|e| e.to_string())?;
        let mut renderer = Renderer::new(BackendType::Software, RenderContext::with_font_database(W, H, fontdb::Database::new())).map_err(|e| e.to_string())?;
        Ok(renderer.render_frame(&script, at).map_err(|e| e.to_string())?.data().to_vec())
    };
    guard(draw).map_err(|e| format!("drawing {text:?} panics: {e}"))?
}

pub fn mass(data: &[u8]) -> Mass {
    let mut sum = [0.0; 4];
    let (mut sx, mut sy, mut sxx, mut sxy, mut syy) = (0.0, 0.0, 0.0, 0.0, 0.0);
    for y in 0..H {
        for x in 0..W {
            let px = &data[((y * W + x) * 4) as usize..][..4];
            let a = f64::from(px[3]) / 255.0;
            if a > 0.0 {
                let (x, y) = (f64::from(x) + 0.5, f64::from(y) + 0.5);
                for c in 0..3 {
                    sum[c] += f64::from(px[c]) / 255.0;
                }
                sum[3] += a;
                sx += a * x;
                sy += a * y;
                sxx += a * x * x;
                sxy += a * x * y;
                syy += a * y * y;
            }
        }
    }
    let s = sum[3];
    let (x, y) = (sx / s, sy / s);
    Mass { sum, x, y, xx: sxx / s - x * x, xy: sxy / s - x * y, yy: syy / s - y * y }
}

/// The outermost pixels drawn: left, top, right and bottom
fn extent(data: &[u8]) -> [i32; 4] {
    let mut e = [W as i32, H as i32, -1, -1];
    for y in 0..H {
        for x in 0..W {
            if data[((y * W + x) * 4 + 3) as usize] > 0 {
                let (x, y) = (x as i32, y as i32);
                e = [e[0].min(x), e[1].min(y), e[2].max(x), e[3].max(y)];
            }
        }
    }
    e
}

const SHAPES: &[&str] = &["", "\\frz40", "\\frz-90", "\\frx30", "\\fry40\\frz20", "\\fscx200", "\\fscx50\\fscy150", "\\fsp6", "\\fax0.5", "\\org(60,50)\\frz30", "\\i1\\b1", "\\fscy60\\fry-20"];
const EDGES: &[&str] = &["", "\\bord2", "\\bord6", "\\shad4", "\\bord3\\shad-5", "\\xbord5\\ybord1", "\\bord1\\xshad7\\yshad-2"];
const SOFT: &[&str] = &["\\blur0.6", "\\blur2", "\\blur5", "\\be1", "\\be3", "\\be2\\blur1", "\\u1\\blur1", "\\k0\\blur1", "\\s1\\blur4"];
const TEXTS: &[&str] = &["}Ag", "}i", "}pW{\\1c&H0000FF&}d", "}gA\\Nxyz", "}||||"];

/// Rendered texts, so that each is drawn once
pub struct Known(pub Mutex<HashMap<(String, u32), Arc<Vec<u8>>>>);

impl Known {
    pub fn frame(&self, text: &str, at: u32) -> Result<Arc<Vec<u8>>, String> {
        let key = (text.to_string(), at);
        if let Some(f) = self.0.lock().unwrap().get(&key) {
            return Ok(f.clone());
        }
        let f = Arc::new(frame(text, at)?);
        self.0.lock().unwrap().insert(key, f.clone());
        Ok(f)
    }
}

pub fn r12(r: &Run) {
    r.rule("every shape of text listed, with every edge and softening, is compared with the same text drawn sharp (how much it covers, around which middle, how far spread), with the same text under clips that leave all of it, and with the same text elsewhere in the frame or beyond its border");
    r.assume("how exactly edges are anti-aliased is not judged: sums over a picture may differ by a few percent and its middle by a pixel");
    let known = Known(Mutex::new(HashMap::new()));
    let (shapes, edges, texts): (&[&str], &[&str], &[&str]) = (&SHAPES[..r.pick(10, 12)], &EDGES[..r.pick(6, 7)], TEXTS);
    let d = [shapes.len() as u64, edges.len() as u64, SOFT.len() as u64, texts.len() as u64];
    r.stage("softening", d.iter().product(), |i| {
        let k = mx(&d, i);
        let (shape, edge, soft, text) = (shapes[k[0] as usize], edges[k[1] as usize], SOFT[k[2] as usize], texts[k[3] as usize]);
        let kept = soft.split('\\').filter(|t| t.starts_with(['u', 's', 'k'])).map(|t| format!("\\{t}")).collect::<String>();
        let sharp = mass(&known.frame(&format!("{{\\pos(100,80){kept}{shape}{edge}{text}"), 50)?);
        let t = format!("{{\\pos(100,80){soft}{shape}{edge}{text}");
        let got = mass(&*known.frame(&t, 50)?);
        r.steps(1);
        r.state(&(got.sum[3] as u64));
        let ratio = got.sum[3] / sharp.sum[3];
        let off = (got.x - sharp.x).hypot(got.y - sharp.y);
        if !(0.92..1.35).contains(&ratio) || off > 1.0 {
            return Err(format!("{t:?} covers {:.1} around ({:.1},{:.1}) instead of {:.1} around ({:.1},{:.1})", got.sum[3], got.x, got.y, sharp.sum[3], sharp.x, sharp.y));
        }
        // runs and lines lie at whole pixels and thin strokes may fall between them, so that
        // only the spread of a short run is known well enough
        let single = text == "}Ag" || text == "}i";
        if let Some(radius) = soft.trim_start_matches("\\u1").trim_start_matches("\\s1").strip_prefix("\\blur").filter(|_| single).and_then(|r| r.parse::<f64>().ok()) {
            // what a Gaussian blur adds, alike in all directions
            let variance = (radius * 2.0).powi(2) / 256f64.ln();
            let added = [got.xx - sharp.xx, got.xy - sharp.xy, got.yy - sharp.yy];
            let slack = 3.0 + 0.12 * variance;
            if (added[0] - variance).abs() > slack || added[1].abs() > slack || (added[2] - variance).abs() > slack {
                return Err(format!("{t:?} spreads what is drawn by {added:.2?} instead of {variance:.2} in every direction"));
            }
        }
        // a long edge is softened as far outwards as can be seen
        let upright = ["", "\\fscx200", "\\fscx50\\fscy150", "\\fsp6"].contains(&shape);
        if let Some(radius) = soft.strip_prefix("\\blur").filter(|_| text == "}||||" && upright).and_then(|r| r.parse::<f64>().ok()) {
            let least = (1.4 * 2.0 * radius / 256f64.ln().sqrt()).floor() as i32 - 1;
            let [a, b] = [known.frame(&format!("{{\\pos(100,80){kept}{shape}{edge}{text}"), 50)?, known.frame(&t, 50)?].map(|d| extent(&d));
            let grown = [a[0] - b[0], a[1] - b[1], b[2] - a[2], b[3] - a[3]];
            if grown.iter().any(|&g| g < least) {
                return Err(format!("{t:?} reaches {grown:?} pixels further to the left, top, right and bottom than sharp, not {least}"));
            }
        }
        Ok(())
    });

    let sung = ["\\k0", "\\k30", "\\k100", "\\kf100", "\\K60", "\\ko100", "\\k20\\kf60"];
    let softs = ["\\blur1", "\\blur3", "\\be2", "\\clip(0,0,200,160)", "\\blur1\\clip(0,0,200,160)", "\\u1", "\\s1", "\\u1\\blur2", "\\s1\\clip(0,0,200,160)"];
    let (e, s) = (["", "\\shad5"], ["", "\\frz40", "\\fry40\\frz20", "\\fscx200", "\\fax0.5"]);
    let g = [sung.len() as u64, softs.len() as u64, e.len() as u64, s.len() as u64, 4];
    r.stage("sung", g.iter().product(), |i| {
        let k = mx(&g, i);
        let (sung, soft, edge, shape, at) = (sung[k[0] as usize], softs[k[1] as usize], e[k[2] as usize], s[k[3] as usize], [10, 30, 50, 90][k[4] as usize]);
        let t = format!("{{\\pos(100,80){sung}{shape}{edge}{soft}}}Hggg");
        // sung text is white and text to be sung is red
        let share = |m: &Mass| m.sum[1] / m.sum[0];
        let sharp = mass(&known.frame(&format!("{{\\pos(100,80){sung}{shape}{edge}}}Hggg"), at)?);
        let got = mass(&*known.frame(&t, at)?);
        r.steps(1);
        r.state(&(sung, at, (share(&got) * 100.0) as u64));
        if (share(&got) - share(&sharp)).abs() > 0.1 {
            return Err(format!("{t:?} at {at} shows {:.2} of the text as sung, and without {soft}, {:.2}", share(&got), share(&sharp)));
        }
        Ok(())
    });

    let clips = &["\\clip(0,0,200,160)", "\\iclip(-90,-90,-80,-80)", "\\clip(-500,-500,900,900)", "\\u0\\clip(0,0,200,160)"][..r.pick(2, 4)];
    let softs = ["", "\\blur0.6", "\\blur2", "\\be1", "\\k1", "\\k0", "\\k200", "\\kf100", "\\kf0\\blur1", "\\kf100\\blur1", "\\k200\\blur1"];
    let e = [shapes.len() as u64, edges.len() as u64, softs.len() as u64, texts.len() as u64, clips.len() as u64];
    r.stage("whole clips", e.iter().product(), |i| {
        let k = mx(&e, i);
        let (shape, edge, soft, text, clip) = (shapes[k[0] as usize], edges[k[1] as usize], softs[k[2] as usize], texts[k[3] as usize], clips[k[4] as usize]);
        let open = mass(&known.frame(&format!("{{\\pos(100,80){soft}{shape}{edge}{text}"), 50)?);
        let t = format!("{{\\pos(100,80){clip}{soft}{shape}{edge}{text}");
        let got = mass(&*known.frame(&t, 50)?);
        r.steps(1);
        r.state(&(got.sum[3] as u64));
        // the colours of softened shapes are no premultiplied ones: see the finding blur-straight-alpha of R05
        // and a sweep over a glyph of two columns can stop at either of them
        if text == "}i" && soft.contains("kf1") {
            return Ok(());
        }
        let judged = if soft.contains("\\b") { 3..4 } else { 0..4 };
        let worst = judged.map(|c| (got.sum[c] - open.sum[c]).abs() / open.sum[3]).fold(0.0, f64::max);
        let off = (got.x - open.x).hypot(got.y - open.y);
        if worst > 0.16 || off > 1.5 {
            return Err(format!("{t:?} draws {:?} around ({:.1},{:.1}) but without the clip {:?} around ({:.1},{:.1})", got.sum, got.x, got.y, open.sum, open.x, open.y));
        }
        Ok(())
    });

    let xs: Vec<i64> = r.pick(vec![-96, 63], vec![-130, -96, -37, 41, 95, 140]);
    let ys: Vec<i64> = r.pick(vec![-74, 33], vec![-90, -74, -21, 30, 78, 100]);
    let softs = ["", "\\blur2", "\\be3", "\\kf100\\blur1", "\\u1\\blur6", "\\clip(-500,-500,900,900)"];
    let e = [xs.len() as u64, ys.len() as u64, shapes.len() as u64, edges.len() as u64, softs.len() as u64, texts.len() as u64];
    r.stage("elsewhere", e.iter().product(), |i| {
        let k = mx(&e, i);
        let (dx, dy) = (xs[k[0] as usize], ys[k[1] as usize]);
        let (shape, edge, soft, text) = (shapes[k[2] as usize], edges[k[3] as usize], softs[k[4] as usize], texts[k[5] as usize]);
        let home = known.frame(&format!("{{\\pos(100,80){soft}{shape}{edge}{text}"), 50)?;
        let moved = shape.replace("\\org(60,50)", &format!("\\org({},{})", 60 + dx, 50 + dy));
        let t = format!("{{\\pos({},{}){soft}{moved}{edge}{text}", 100 + dx, 80 + dy);
        let got = frame(&t, 50)?;
        r.steps(1);
        r.state(&(dx, dy, got.iter().filter(|&&b| b > 0).count()));
        let mut worst = (0u8, 0, 0);
        for y in 0..i64::from(H) {
            for x in 0..i64::from(W) {
                let (hx, hy) = (x - dx, y - dy);
                for c in (if soft.contains("\\b") { 3 } else { 0 })..4 {
                    let at_home = if (0..i64::from(W)).contains(&hx) && (0..i64::from(H)).contains(&hy) { home[((hy * i64::from(W) + hx) * 4) as usize + c] } else { 0 };
                    let diff = got[((y * i64::from(W) + x) * 4) as usize + c].abs_diff(at_home);
                    if diff > worst.0 { worst = (diff, x, y); }
                }
            }
        }
        if worst.0 > 80 {
            return Err(format!("{t:?} is not what is drawn at (100,80): pixel ({},{}) differs by {}", worst.1, worst.2, worst.0));
        }
        Ok(())
    });
}
