//! R13: text is turned, scaled and slanted as its tags and its style say.
use crate::mx;
use crate::soft::{mass, Known, Mass, H, W};
use ass_core::parser::Script;
use ass_renderer::backends::BackendType;
use ass_renderer::renderer::{RenderContext, Renderer};
use mc_common::*;
use std::collections::HashMap;
use std::sync::Mutex;

/// What of the tags a text has
#[derive(Clone, Copy, Debug, Default)]
struct Turn {
    frz: f64,
    frx: f64,
    fry: f64,
    fscx: f64,
    fscy: f64,
    fax: f64,
    fay: f64,
}

impl Turn {
    fn none() -> Turn {
        Turn { fscx: 100.0, fscy: 100.0, ..Turn::default() }
    }

    fn tags(&self) -> String {
        let mut tags = String::new();
        for (name, value, plain) in [("fscx", self.fscx, 100.0), ("fscy", self.fscy, 100.0), ("frz", self.frz, 0.0), ("frx", self.frx, 0.0), ("fry", self.fry, 0.0), ("fax", self.fax, 0.0), ("fay", self.fay, 0.0)] {
            if value != plain {
                tags.push_str(&format!("\\{name}{value}"));
            }
        }
        tags
    }

    /// Where a point goes; how far it is from the point that stays
    fn of(&self, dx: f64, dy: f64) -> (f64, f64) {
        let (x, y) = (dx + self.fax * dy, dy + self.fay * dx);
        let (x, y) = (x * self.fscx / 100.0, y * self.fscy / 100.0);
        let (s, c) = self.frz.to_radians().sin_cos();
        // against the clock, on a screen whose y points down
        let (x, y) = (x * c + y * s, y * c - x * s);
        let (s, c) = self.frx.to_radians().sin_cos();
        let (y, z) = (y * c, -y * s);
        let (s, c) = self.fry.to_radians().sin_cos();
        let (x, z) = (x * c - z * s, x * s + z * c);
        // seen from libass's distance of 20000/64 pixels
        let dist = 20000.0 / 64.0;
        (x * dist / (z + dist), y * dist / (z + dist))
    }
}

/// How a text would be spread if all its pixels were moved, unless some
/// would leave the frame
fn moved(data: &[u8], (ox, oy): (f64, f64), turn: &Turn) -> Option<Mass> {
    let (mut s, mut sx, mut sy, mut sxx, mut sxy, mut syy) = (0.0, 0.0, 0.0, 0.0, 0.0, 0.0);
    for y in 0..H {
        for x in 0..W {
            let a = f64::from(data[((y * W + x) * 4 + 3) as usize]) / 255.0;
            if a > 0.0 {
                let (dx, dy) = (f64::from(x) + 0.5 - ox, f64::from(y) + 0.5 - oy);
                let (mx, my) = turn.of(dx, dy);
                // how much larger what is there becomes
                let (px, py) = (turn.of(dx + 0.01, dy), turn.of(dx, dy + 0.01));
                let area = ((px.0 - mx) * (py.1 - my) - (px.1 - my) * (py.0 - mx)).abs() * 1e4;
                let (a, x, y) = (a * area, mx + ox, my + oy);
                if x < 1.0 || y < 1.0 || x > f64::from(W) - 1.0 || y > f64::from(H) - 1.0 {
                    return None;
                }
                s += a;
                sx += a * x;
                sy += a * y;
                sxx += a * x * x;
                sxy += a * x * y;
                syy += a * y * y;
            }
        }
    }
    let (x, y) = (sx / s, sy / s);
    Some(Mass { sum: [0.0, 0.0, 0.0, s], x, y, xx: sxx / s - x * x, xy: sxy / s - x * y, yy: syy / s - y * y })
}

fn alike(what: &str, got: &Mass, want: Option<Mass>, placed: bool) -> Result<(), String> {
    let Some(want) = want else { return Ok(()) };
    let off = if placed { (got.x - want.x).hypot(got.y - want.y) } else { 0.0 };
    let slack = 2.5 + 0.09 * (want.xx + want.yy);
    let ratio = got.sum[3] / want.sum[3];
    if !(0.88..1.14).contains(&ratio) {
        return Err(format!("{what} covers {:.1} pixels instead of {:.1}", got.sum[3], want.sum[3]));
    }
    if off > 1.6 {
        return Err(format!("{what} lies around ({:.1},{:.1}) instead of ({:.1},{:.1})", got.x, got.y, want.x, want.y));
    }
    if (got.xx - want.xx).abs() > slack || (got.xy - want.xy).abs() > slack || (got.yy - want.yy).abs() > slack {
        return Err(format!("{what} spreads by {:.1} {:.1} {:.1} (x, xy, y) instead of {:.1} {:.1} {:.1}", got.xx, got.xy, got.yy, want.xx, want.xy, want.yy));
    }
    Ok(())
}

/// Lines of several events, in the styles given
fn scene(styles: &[(&str, &str)], events: &[(&str, &str)], at: u32) -> Result<Vec<u8>, String> {
    let mut source = format!("[Script Info]\nPlayResX: {W}\nPlayResY: {H}\n\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV\n");
    for (name, angle) in styles {
        source.push_str(&format!("Style: {name},DejaVu Sans,24,&H00FFFFFF,{angle},1,0,0,2,80,70,60\n"));
    }
    source.push_str("\n[Events]\nFormat: Layer, Start, End, Style, Text\n");
    for (style, text) in events {
        source.push_str(&format!("Dialogue: 0,0:00:00.00,0:00:01.00,{style},{text}\n"));
    }
    let draw = || -> Result<Vec<u8>, String> {
        let script = Script::parse(&source).map_err(|e| e.to_string())?;
        let mut renderer = Renderer::new(BackendType::Software, RenderContext::with_font_database(W, H, fontdb::Database::new())).map_err(|e| e.to_string())?;
        Ok(renderer.render_frame(&script, at).map_err(|e| e.to_string())?.data().to_vec())
    };
    guard(draw).map_err(|e| format!("drawing {events:?} panics: {e}"))?
}

pub fn r13(r: &Run) {
    r.rule("every combination of the angles, scales, slants, origins and alignments listed is drawn and its area, its middle and its spread are compared with those of the untransformed picture whose pixels are moved one by one; angles of styles are compared with the same angles of tags, and turned events that give way to others with those that do not");
    r.assume("the point a slant leaves in place, and slanted or scaled lines of several runs, are not judged, nor are pictures part of which leaves the frame; neither are the edges' anti-aliasing (sums over pictures may differ by some percent)");
    let known = Known(Mutex::new(HashMap::new()));
    let orgs: &[Option<(i32, i32)>] = &[None, Some((80, 60)), Some((125, 95))];

    let frz = r.pick(vec![0.0, 30.0, 90.0, -45.0], vec![0.0, 30.0, 90.0, -45.0, 200.0, 370.0, -117.5]);
    let frx = r.pick(vec![0.0, 40.0, -25.0], vec![0.0, 40.0, -25.0, 180.0, 130.0]);
    let fry = r.pick(vec![0.0, 35.0, -60.0], vec![0.0, 35.0, -60.0, 180.0, 205.0]);
    let sx = [100.0, 150.0];
    let sy = [100.0, 60.0];
    let aligns = r.pick(vec![5, 1, 9], (1..10).collect());
    let texts = ["Ag", "W"];
    let d = [frz.len() as u64, frx.len() as u64, fry.len() as u64, 2, 2, aligns.len() as u64, orgs.len() as u64, 2];
    r.stage("one run", d.iter().product(), |i| {
        let k = mx(&d, i).iter().map(|&v| v as usize).collect::<Vec<_>>();
        let turn = Turn { frz: frz[k[0]], frx: frx[k[1]], fry: fry[k[2]], fscx: sx[k[3]], fscy: sy[k[4]], ..Turn::none() };
        let place = format!("\\an{}\\pos(100,80)", aligns[k[5]]);
        // what is scaled keeps its anchor, what is turned its origin
        let (scale, turned) = (Turn { fscx: turn.fscx, fscy: turn.fscy, ..Turn::none() }, Turn { fscx: 100.0, fscy: 100.0, ..turn });
        let plain = known.frame(&format!("{{{place}{}}}{}", scale.tags(), texts[k[7]]), 50)?;
        let flat = known.frame(&format!("{{{place}}}{}", texts[k[7]]), 50)?;
        let what = format!("{{{place}{}}}{}", scale.tags(), texts[k[7]]);
        if k[0] + k[1] + k[2] + k[6] == 0 {
            alike(&what, &mass(&plain), moved(&flat, (100.0, 80.0), &scale), true)?;
        }
        let org = orgs[k[6]].map(|(x, y)| format!("\\org({x},{y})")).unwrap_or_default();
        let origin = orgs[k[6]].map_or((100.0, 80.0), |(x, y)| (f64::from(x), f64::from(y)));
        let t = format!("{{{place}{org}{}}}{}", turn.tags(), texts[k[7]]);
        let got = mass(&*known.frame(&t, 50)?);
        r.steps(2);
        r.state(&(got.x as i64, got.y as i64, got.xx as i64));
        alike(&format!("{t:?}"), &got, moved(&plain, origin, &turned), true)
    });

    // underlined and struck through text
    let texts = ["{\\u1}Ag", "{\\s1}W", "{\\u1\\s1}A l"];
    let orgs = &orgs[..2];
    let aligns = r.pick(vec![5, 1], vec![5, 1, 6, 8]);
    let d = [frz.len() as u64, frx.len() as u64, fry.len() as u64, 2, 2, aligns.len() as u64, orgs.len() as u64, texts.len() as u64];
    r.stage("decorated", d.iter().product(), |i| {
        let k = mx(&d, i).iter().map(|&v| v as usize).collect::<Vec<_>>();
        let turn = Turn { frz: frz[k[0]], frx: frx[k[1]], fry: fry[k[2]], fscx: sx[k[3]], fscy: sy[k[4]], ..Turn::none() };
        let place = format!("\\an{}\\pos(100,80)", aligns[k[5]]);
        let (scale, turned) = (Turn { fscx: turn.fscx, fscy: turn.fscy, ..Turn::none() }, Turn { fscx: 100.0, fscy: 100.0, ..turn });
        let what = format!("{{{place}{}}}{}", scale.tags(), texts[k[7]]);
        let plain = known.frame(&what, 50)?;
        if k[0] + k[1] + k[2] + k[6] == 0 {
            let flat = known.frame(&format!("{{{place}}}{}", texts[k[7]]), 50)?;
            alike(&what, &mass(&plain), moved(&flat, (100.0, 80.0), &scale), true)?;
        }
        let org = orgs[k[6]].map(|(x, y)| format!("\\org({x},{y})")).unwrap_or_default();
        let origin = orgs[k[6]].map_or((100.0, 80.0), |(x, y)| (f64::from(x), f64::from(y)));
        let t = format!("{{{place}{org}{}}}{}", turn.tags(), texts[k[7]]);
        let got = mass(&*known.frame(&t, 50)?);
        r.steps(2);
        r.state(&(got.x as i64, got.y as i64, got.xx as i64));
        alike(&format!("{t:?}"), &got, moved(&plain, origin, &turned), true)
    });

    let texts = ["Ag", "W", "{\\u1}Ag"];
    let fax = [0.0, 0.4, -0.7];
    let fay = [0.0, 0.3, -0.5];
    let frz = [0.0, 90.0, -30.0, 200.0];
    let d = [3, 3, 4, 2, 2, texts.len() as u64];
    r.stage("slants", d.iter().product(), |i| {
        let k = mx(&d, i).iter().map(|&v| v as usize).collect::<Vec<_>>();
        let turn = Turn { frz: frz[k[2]], fscx: sx[k[3]], fscy: sy[k[4]], fax: fax[k[0]], fay: fay[k[1]], ..Turn::none() };
        let plain = known.frame(&format!("{{\\pos(100,80)}}{}", texts[k[5]]), 50)?;
        let t = format!("{{\\pos(100,80){}}}{}", turn.tags(), texts[k[5]]);
        let got = mass(&*known.frame(&t, 50)?);
        r.steps(1);
        r.state(&(got.x as i64, got.y as i64, got.xx as i64));
        alike(&format!("{t:?}"), &got, moved(&plain, (100.0, 80.0), &turn), false)
    });

    // lines of several runs turn as one
    let texts = ["Ag{\\u1\\1c&H0000FF&}Wi", "gA\\Nxyz", "A{\\b1}g\\N{\\b0}W{\\i1}pp", "a\\Nb\\Nc"];
    let frz = r.pick(vec![0.0, 30.0, 90.0, -120.0], vec![0.0, 30.0, 90.0, -45.0, 200.0, -120.0]);
    let frx = [0.0, 40.0, -25.0];
    let fry = [0.0, 35.0, -40.0];
    let orgs: &[Option<(i32, i32)>] = &[None, Some((105, 70))];
    let d = [frz.len() as u64, 3, 3, 9, orgs.len() as u64, texts.len() as u64, 3];
    r.stage("several runs", d.iter().product(), |i| {
        let k = mx(&d, i).iter().map(|&v| v as usize).collect::<Vec<_>>();
        let turn = Turn { frz: frz[k[0]], frx: frx[k[1]], fry: fry[k[2]], ..Turn::none() };
        let align = k[3] + 1;
        let org = orgs[k[4]].map(|(x, y)| format!("\\org({x},{y})")).unwrap_or_default();
        let (left, middle, right) = (60.0, 100.0, 140.0);
        let (top, centre, bottom) = (40.0, 80.0, 120.0);
        // where it is: placed by its margins, at a position or on its way
        let (place, anchor) = match k[6] {
            0 => (String::new(), ([right, left, middle][align % 3], [bottom, centre, top][(align - 1) / 3])),
            1 => ("\\pos(90,85)".to_string(), (90.0, 85.0)),
            _ => ("\\move(70,60,130,110)".to_string(), (100.0, 85.0)),
        };
        let head = format!("\\an{align}{place}");
        let (x, y) = orgs[k[4]].map_or(anchor, |(x, y)| (f64::from(x), f64::from(y)));
        let margins = if k[6] == 0 { "60,60,40" } else { "0,0,0" };
        let draw = |text: &str| -> Result<Vec<u8>, String> {
            let source = format!("[Script Info]\nPlayResX: {W}\nPlayResY: {H}\n\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV\nStyle: Default,DejaVu Sans,18,&H00FFFFFF,1,0,0,2,{margins}\n\n[Events]\nFormat: Layer, Start, End, Style, Text\nDialogue: 0,0:00:00.00,0:00:01.00,Default,{text}\n");
            let draw = || -> Result<Vec<u8>, String> {
                let script = Script::parse(&source).map_err(|e| e.to_string())?;
                let mut renderer = Renderer::new(BackendType::Software, RenderContext::with_font_database(W, H, fontdb::Database::new())).map_err(|e| e.to_string())?;
                Ok(renderer.render_frame(&script, 50).map_err(|e| e.to_string())?.data().to_vec())
            };
            guard(draw).map_err(|e| format!("drawing {text:?} panics: {e}"))?
        };
        let plain = draw(&format!("{{{head}}}{}", texts[k[5]]))?;
        let t = format!("{{{head}{org}{}}}{}", turn.tags(), texts[k[5]]);
        let got = mass(&draw(&t)?);
        r.steps(2);
        r.state(&(got.x as i64, got.y as i64, got.xx as i64));
        alike(&format!("{t:?} with margins {margins}"), &got, moved(&plain, (x, y), &turn), true)
    });

    let grids = [(100, 160), (200, 80), (400, 320), (100, 80), (50, 160)];
    let frz = [0.0, 30.0, 90.0, -120.0];
    let d = [grids.len() as u64, 4, 3, 3, 2, 3];
    r.stage("other resolutions", d.iter().product(), |i| {
        let k = mx(&d, i).iter().map(|&v| v as usize).collect::<Vec<_>>();
        let (gx, gy) = grids[k[0]];
        let turn = Turn { frz: frz[k[1]], frx: frx[k[2]], fry: fry[k[3]], ..Turn::none() };
        // a point of the frame, in the script's own coordinates
        let point = |tag: &str, x: i32, y: i32| format!("\\{tag}({},{})", f64::from(x * gx) / f64::from(W), f64::from(y * gy) / f64::from(H));
        let text = format!("{}Ag", ["", "{\\i1}W"][k[4]]);
        let (head, origin) = match k[5] {
            0 => (point("pos", 100, 80), (100.0, 80.0)),
            1 => (point("pos", 100, 80) + &point("org", 80, 60), (80.0, 60.0)),
            _ => (point("org", 120, 84) + &point("pos", 100, 88), (120.0, 84.0)),
        };
        let draw = |tags: &str| -> Result<Vec<u8>, String> {
            let source = format!("[Script Info]\nPlayResX: {gx}\nPlayResY: {gy}\n\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, BorderStyle, Outline, Shadow, Alignment\nStyle: Default,DejaVu Sans,{},&H00FFFFFF,1,0,0,5\n\n[Events]\nFormat: Layer, Start, End, Style, Text\nDialogue: 0,0:00:00.00,0:00:01.00,Default,{{{head}{tags}}}{text}\n", 24 * gy / H as i32);
            let draw = || -> Result<Vec<u8>, String> {
                let script = Script::parse(&source).map_err(|e| e.to_string())?;
                let mut renderer = Renderer::new(BackendType::Software, RenderContext::with_font_database(W, H, fontdb::Database::new())).map_err(|e| e.to_string())?;
                Ok(renderer.render_frame(&script, 50).map_err(|e| e.to_string())?.data().to_vec())
            };
            guard(draw).map_err(|e| format!("drawing {text:?} panics: {e}"))?
        };
        let got = mass(&draw(&turn.tags())?);
        r.steps(2);
        r.state(&(got.x as i64, got.y as i64, got.xx as i64));
        alike(&format!("{{{head}{}}}{text} on a grid of {gx}x{gy}", turn.tags()), &got, moved(&draw("")?, origin, &turn), true)
    });

    let angles = ["0", "30", "-90", "12.5", "360", "725"];
    let tags = ["", "\\frz0", "\\frz45", "\\fr10", "\\t(\\frz90)", "\\t(0,2000,\\frz90)", "\\frx30", "\\frz5\\t(\\frz90)"];
    let places = ["", "\\an5\\pos(100,80)", "\\an8", "\\org(70,70)"];
    let texts = ["Ag", "A{\\1c&H00FF00&}g", "A\\Ng"];
    let d = [angles.len() as u64, tags.len() as u64, places.len() as u64, texts.len() as u64, 3];
    r.stage("style angles", d.iter().product(), |i| {
        let k = mx(&d, i).iter().map(|&v| v as usize).collect::<Vec<_>>();
        let (angle, tag, place, text, at) = (angles[k[0]], tags[k[1]], places[k[2]], texts[k[3]], [0, 50, 99][k[4]]);
        let a = scene(&[("Default", "0"), ("Turned", angle)], &[("Turned", &format!("{{{place}{tag}}}{text}"))], at)?;
        let b = scene(&[("Default", "0"), ("Turned", "0")], &[("Turned", &format!("{{{place}\\frz{angle}{tag}}}{text}"))], at)?;
        r.steps(2);
        r.state(&(a.iter().filter(|&&v| v > 0).count()));
        if a != b {
            return Err(format!("{{{place}{tag}}}{text:?} at {at} in a style turned by {angle} is drawn otherwise than with \\frz{angle}"));
        }
        Ok(())
    });

    let aligns = [1, 2, 3, 4, 5, 6, 7, 8, 9];
    let turns = ["\\frz90", "\\frz180", "\\frz-30", "\\frx40", "\\fry50\\frz20", "\\org(100,80)\\frz0.001"];
    let others = ["m", "m\\Nn", "{\\fs40}m"];
    let d = [9, turns.len() as u64, others.len() as u64, 2];
    r.stage("giving way", d.iter().product(), |i| {
        let k = mx(&d, i).iter().map(|&v| v as usize).collect::<Vec<_>>();
        let head = format!("\\an{}", aligns[k[0]]);
        let text = ["Ag", "A{\\i1}g"][k[3]];
        // the other event is there, but cannot be seen
        let other = format!("{{{head}\\alpha&HFF&}}{}", others[k[2]]);
        let styles = [("Default", "0")];
        let middle = |events: &[(&str, &str)]| scene(&styles, events, 50).map(|d| mass(&d));
        let line = |tags: &str| format!("{{{head}{tags}}}{text}");
        let moved = |tags: &str| -> Result<(f64, f64), String> {
            let (alone, stacked) = (middle(&[("Default", &line(tags))])?, middle(&[("Default", &other), ("Default", &line(tags))])?);
            Ok((stacked.x - alone.x, stacked.y - alone.y))
        };
        let (plain, turned) = (moved("")?, moved(turns[k[1]])?);
        r.steps(4);
        r.state(&(plain.1 as i64));
        if (plain.0 - turned.0).abs() > 0.6 || (plain.1 - turned.1).abs() > 0.6 {
            return Err(format!("{:?} gives way to {other:?} by ({:.1},{:.1}), but by ({:.1},{:.1}) without being turned", line(turns[k[1]]), turned.0, turned.1, plain.0, plain.1));
        }
        Ok(())
    });
}
