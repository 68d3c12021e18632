//! R05: blending and rasterising against their arithmetic definition.
use crate::mx;
use ass_renderer::backends::coverage::{composite, composite_bitmap, CoverageTile, RenderBitmap};
use ass_renderer::backends::raster::Rasterizer;
use mc_common::*;
use std::sync::Arc;
use tiny_skia::PathBuilder;

/// a * b / 255, rounded to the nearest
fn mul(a: u8, b: u8) -> u8 {
    ((2 * u32::from(a) * u32::from(b) + 255) / 510) as u8
}

/// one pixel: the colour's alpha first, then the coverage, over what is there
fn over(d: [u8; 4], cov: u8, c: [u8; 4]) -> Option<[u8; 4]> {
    let p = [mul(c[0], c[3]), mul(c[1], c[3]), mul(c[2], c[3]), c[3]];
    let inv = 255 - mul(c[3], cov);
    let mut out = [0; 4];
    for i in 0..4 {
        out[i] = mul(p[i], cov).checked_add(mul(d[i], inv))?;
    }
    Some(out)
}

fn tile(w: u32, h: u32, data: Vec<u8>) -> CoverageTile {
    CoverageTile { width: w, height: h, data: Arc::new(data) }
}

/// The area of `poly` inside the unit pixel (x, y), signed by its direction
fn pixel_area(poly: &[(f64, f64)], x: f64, y: f64) -> f64 {
    let mut p = poly.to_vec();
    for side in 0..4 {
        let d = |q: (f64, f64)| match side {
            0 => q.0 - x,
            1 => x + 1.0 - q.0,
            2 => q.1 - y,
            _ => y + 1.0 - q.1,
        };
        let mut n = vec![];
        for i in 0..p.len() {
            let (a, b) = (p[i], p[(i + 1) % p.len()]);
            let (da, db) = (d(a), d(b));
            if da >= 0.0 {
                n.push(a);
            }
            if (da >= 0.0) != (db >= 0.0) {
                let t = da / (da - db);
                n.push((a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t));
            }
        }
        p = n;
    }
    (0..p.len()).map(|i| (p[i], p[(i + 1) % p.len()])).map(|(a, b)| (a.0 * b.1 - b.0 * a.1) / 2.0).sum()
}

fn lines(r: &mut Rasterizer, poly: &[(f64, f64)]) {
    for i in 0..poly.len() {
        let (a, b) = (poly[i], poly[(i + 1) % poly.len()]);
        r.line(a.0 as f32, a.1 as f32, b.0 as f32, b.1 as f32);
    }
}

fn same(what: &str, got: &[u8], want: impl Fn(usize, usize) -> f64, w: usize, h: usize, tol: f64) -> Result<(), String> {
    if got.len() != w * h {
        return Err(format!("{what}: {} values for {w}x{h} pixels", got.len()));
    }
    for y in 0..h {
        for x in 0..w {
            let e = want(x, y).abs().min(1.0) * 255.0;
            let g = f64::from(got[y * w + x]);
            if (g - e).abs() > tol {
                return Err(format!("{what}: pixel {x},{y} is covered by {g}, expected {e}"));
            }
        }
    }
    Ok(())
}

const SOME: [u8; 24] = [0, 1, 2, 3, 7, 8, 15, 16, 31, 63, 64, 85, 100, 126, 127, 128, 129, 170, 191, 192, 200, 253, 254, 255];

pub fn r05(r: &Run) {
    r.rule("every alpha and coverage with every (quick: 24) colour channel and destination value, in the vector path and the tail; every small tile at every place of every small frame, extreme places included, with neighbouring pixels watched; every rectangle on a quarter-pixel grid, pairs of rectangles and every triangle on a half-pixel grid through the rasteriser and the path interface; values are compared with rounded exact arithmetic and clipped polygon areas");
    r.assume("destination pixels and colour bitmaps are premultiplied colours (no channel above its alpha), as the callers build them");

    // 256x256 (alpha, coverage) per case, one colour value per case
    let all: Vec<u8> = (0..=255).collect();
    let vals: &[u8] = r.pick(&SOME[..], &all[..]);
    r.stage("blend", (vals.len() * 256) as u64, |i| {
        let pa = (i % 256) as u8;
        let c = vals[(i / 256) as usize];
        let c2 = 255 - c;
        let color = [c, c2, c / 2, pa];
        let cov: Vec<u8> = (0..=255).collect();
        // a run of 256 + 3 covers both paths
        let mut data = cov.clone();
        data.extend([pa, 128, 255]);
        let t = tile(259, 1, data.clone());
        let mut before = vec![0u8; 259 * 4];
        for &d in vals {
            // a valid premultiplied pixel, varied along the row
            for (k, px) in before.chunks_exact_mut(4).enumerate() {
                let a = if k % 2 == 0 { 255 } else { d };
                px.copy_from_slice(&[d.min(a), a - d.min(a), (k as u8).min(a), a]);
            }
            let mut dst = before.clone();
            composite(&mut dst, 259, 1, &t, 0, 0, color);
            for k in 0..259 {
                let old: [u8; 4] = before[k * 4..k * 4 + 4].try_into().unwrap();
                let new: [u8; 4] = dst[k * 4..k * 4 + 4].try_into().unwrap();
                if over(old, data[k], color) != Some(new) {
                    return Err(format!("{color:?} with coverage {} over {old:?} gives {new:?}, expected {:?}", data[k], over(old, data[k], color)));
                }
                if new[..3].iter().any(|&v| v > new[3]) {
                    return Err(format!("{color:?} with coverage {} over {old:?} gives {new:?}: a channel above its alpha", data[k]));
                }
            }
            r.steps(259);
        }
        Ok(())
    });
    r.stage("bitmap", 256 * vals.len() as u64, |i| {
        let sa = (i % 256) as u8;
        let d = vals[(i / 256) as usize];
        for s in 0..=sa {
            let old = [d, 255 - d, d / 2, 255];
            let old2 = [0, d / 3, d / 2, d];
            let mut dst: Vec<u8> = [old, old2].concat();
            let before = dst.clone();
            let src = [s, sa - s, s / 2, sa];
            composite_bitmap(&mut dst, 2, 1, &RenderBitmap::Rgba { width: 2, height: 1, pixels: Arc::new([src, src].concat()), x: 0, y: 0 });
            for k in 0..8 {
                let want = u32::from(src[k % 4]) + u32::from(mul(before[k], 255 - sa));
                if u32::from(dst[k]) != want {
                    return Err(format!("{src:?} over {before:?} gives {dst:?}: value {k}, expected {want}"));
                }
            }
        }
        r.steps(u64::from(sa) + 1);
        Ok(())
    });

    // placement
    let (fw, fh, tw, th) = r.pick((5u64, 3u64, 10u64, 3u64), (10, 4, 14, 4));
    r.stage("place", (fw + 1) * (fh + 1) * (tw + 1) * (th + 1), |i| {
        let v = mx(&[fw + 1, fh + 1, tw + 1, th + 1], i);
        let (fw, fh, tw, th) = (v[0] as i64, v[1] as i64, v[2] as i64, v[3] as i64);
        r.state(&v);
        let n = (tw * th) as usize;
        let cov: Vec<u8> = (0..n).map(|k| [255, 0, 7, 128, 0, 0, 0, 0, 1, 254][k % 10]).collect();
        let rgba: Vec<u8> = (0..n).flat_map(|k| {
            let a = cov[k];
            [a / 2, a, (a / 3) ^ (a & k as u8 & 1), a]
        }).collect();
        let before: Vec<u8> = (0..fw * fh).flat_map(|k| [10 + k as u8, 0, 40, 90 + k as u8]).collect();
        let color = [200, 3, 77, 180];
        let far = [i32::MIN, i32::MIN + 1, -65536, 65536, i32::MAX - 1, i32::MAX];
        let xs: Vec<i32> = (-(tw as i32) - 1..=fw as i32 + 1).chain(far).collect();
        let ys: Vec<i32> = (-(th as i32) - 1..=fh as i32 + 1).chain(far).collect();
        for &x in &xs {
            for &y in &ys {
                let want = |rgba_src: bool| -> Vec<u8> {
                    let mut w = before.clone();
                    for ty in 0..th {
                        for tx in 0..tw {
                            let (px, py) = (tx + x as i64, ty + y as i64);
                            if px < 0 || py < 0 || px >= fw || py >= fh {
                                continue;
                            }
                            let d = ((py * fw + px) * 4) as usize;
                            let s = (ty * tw + tx) as usize;
                            let old: [u8; 4] = w[d..d + 4].try_into().unwrap();
                            let new = if rgba_src {
                                let p = &rgba[s * 4..s * 4 + 4];
                                std::array::from_fn(|k| p[k] + mul(old[k], 255 - p[3]))
                            } else {
                                over(old, cov[s], color).unwrap()
                            };
                            w[d..d + 4].copy_from_slice(&new);
                        }
                    }
                    w
                };
                let what = |k: &str| format!("{k} of {tw}x{th} at {x},{y} on {fw}x{fh}");
                for k in 0..3 {
                    let mut dst = before.clone();
                    let (w, h) = (tw as u32, th as u32);
                    guard(|| match k {
                        0 => composite(&mut dst, fw as u32, fh as u32, &tile(w, h, cov.clone()), x, y, color),
                        1 => composite_bitmap(&mut dst, fw as u32, fh as u32, &RenderBitmap::Coverage { width: w, height: h, coverage: Arc::new(cov.clone()), x, y, color }),
                        _ => composite_bitmap(&mut dst, fw as u32, fh as u32, &RenderBitmap::Rgba { width: w, height: h, pixels: Arc::new(rgba.clone()), x, y }),
                    })
                    .map_err(|e| format!("{} panics: {e}", what(["tile", "coverage", "bitmap"][k])))?;
                    if dst != want(k == 2) {
                        return Err(format!("{} gives {dst:?}, expected {:?}", what(["tile", "coverage", "bitmap"][k]), want(k == 2)));
                    }
                }
            }
        }
        r.steps((xs.len() * ys.len() * 3) as u64);
        r.traces((xs.len() * ys.len() * 3) as u64);
        Ok(())
    });

    // rectangles on a quarter-pixel grid, tile of W x 3 pixels; widths around the vector width
    for (w, name) in [(3usize, "rectangles"), (17, "wide-rectangles")] {
        let h = 3usize;
        let q: Vec<f64> = if w == 3 { (-3..=15).map(|v| v as f64 / 4.0).collect() } else { vec![-2.0, 0.0, 0.25, 1.0, 7.5, 8.0, 9.75, 15.0, 16.0, 16.5, 17.0, 20.0] };
        let qy: Vec<f64> = (-3..=15).map(|v| v as f64 / 4.0).collect();
        let n = (q.len() * q.len() * qy.len() * qy.len()) as u64;
        r.stage(name, n, |i| {
            let v = mx(&[q.len() as u64, q.len() as u64, qy.len() as u64, qy.len() as u64], i);
            let (x0, x1, y0, y1) = (q[v[0] as usize], q[v[1] as usize], qy[v[2] as usize], qy[v[3] as usize]);
            let poly = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)];
            let mut ras = Rasterizer::new(w, h);
            lines(&mut ras, &poly);
            let ov = |a: f64, b: f64, p: usize| (a.max(b).min(p as f64 + 1.0) - a.min(b).max(p as f64)).max(0.0);
            r.steps(1);
            same(&format!("rectangle {x0},{y0} to {x1},{y1}"), &ras.finish(), |x, y| ov(x0, x1, x) * ov(y0, y1, y), w, h, 0.501)
        });
    }
    // the path interface: anywhere on the plane
    let g: Vec<f64> = [-70000.25, -3.0, -1.75, -0.5, 0.0, 0.25, 2.0, 3.5, 1000.75].to_vec();
    let s = [0.25, 1.0, 2.5, 9.75];
    r.stage("paths", (g.len() * g.len() * s.len() * s.len() * 4) as u64, |i| {
        let v = mx(&[g.len() as u64, g.len() as u64, s.len() as u64, s.len() as u64, 4], i);
        let (x, y, w, h) = (g[v[0] as usize], g[v[1] as usize], s[v[2] as usize], s[v[3] as usize]);
        let mut c = vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h)];
        if v[4] % 2 == 1 {
            c.reverse();
        }
        let mut pb = PathBuilder::new();
        pb.move_to(c[0].0 as f32, c[0].1 as f32);
        for p in &c[1..] {
            pb.line_to(p.0 as f32, p.1 as f32);
        }
        if v[4] >= 2 {
            pb.close();
        }
        let path = pb.finish().ok_or("no path")?;
        let (t, ox, oy) = CoverageTile::rasterize(&path).ok_or("no tile")?;
        let ov = |a: f64, l: f64, p: f64| ((a + l).min(p + 1.0) - a.max(p)).max(0.0);
        let want = |tx: usize, ty: usize| ov(x, w, tx as f64 + f64::from(ox)) * ov(y, h, ty as f64 + f64::from(oy));
        same(&format!("path {c:?}"), &t.data, want, t.width as usize, t.height as usize, 0.501)?;
        // nothing of the shape lies outside the tile
        let (x0, y0) = (f64::from(ox), f64::from(oy));
        r.steps(1);
        if x < x0 || y < y0 || x + w > x0 + f64::from(t.width) || y + h > y0 + f64::from(t.height) {
            return Err(format!("path {c:?}: the tile {ox},{oy} {}x{} does not hold it", t.width, t.height));
        }
        Ok(())
    });
    // two rectangles on the pixel grid: covered where the winding is not zero
    r.stage("overlaps", 15 * 15 * 10 * 10 * 2, |i| {
        let v = mx(&[15, 15, 10, 10, 2], i);
        let iv = |k: u64, n: u64| -> (usize, usize) {
            let mut k = k;
            for a in 0..n {
                for b in a + 1..=n {
                    if k == 0 {
                        return (a as usize, b as usize);
                    }
                    k -= 1;
                }
            }
            unreachable!()
        };
        let (ax, bx, ay, by) = (iv(v[0], 5), iv(v[1], 5), iv(v[2], 4), iv(v[3], 4));
        let mut ras = Rasterizer::new(5, 4);
        let rect = |x: (usize, usize), y: (usize, usize)| vec![(x.0 as f64, y.0 as f64), (x.1 as f64, y.0 as f64), (x.1 as f64, y.1 as f64), (x.0 as f64, y.1 as f64)];
        lines(&mut ras, &rect(ax, ay));
        let mut b = rect(bx, by);
        if v[4] == 1 {
            b.reverse();
        }
        lines(&mut ras, &b);
        let within = |p: usize, q: (usize, usize)| p >= q.0 && p < q.1;
        let want = |x: usize, y: usize| {
            let a = (within(x, ax) && within(y, ay)) as i32;
            let b = (within(x, bx) && within(y, by)) as i32;
            f64::from(if v[4] == 1 { a - b } else { a + b })
        };
        r.steps(1);
        same(&format!("rectangles {ax:?} {ay:?} and {bx:?} {by:?}, {}", v[4]), &ras.finish(), want, 5, 4, 0.501)
    });
    // triangles
    let (gx, gy) = r.pick((7u64, 6u64), (11, 9));
    let (tw, th) = ((gx / 2) as usize, (gy / 2) as usize);
    r.stage("triangles", gx * gy * gx * gy, |i| {
        let v = mx(&[gx, gy, gx, gy], i);
        let at = |x: u64, y: u64| (x as f64 / 2.0, y as f64 / 2.0);
        for k in 0..gx * gy {
            let poly = [at(v[0], v[1]), at(v[2], v[3]), at(k % gx, k / gx)];
            let mut ras = Rasterizer::new(tw, th);
            if poly.iter().any(|p| p.0 > tw as f64) {
                continue; // (edges stay within the tile's width)
            }
            lines(&mut ras, &poly);
            same(&format!("triangle {poly:?}"), &ras.finish(), |x, y| pixel_area(&poly, x as f64, y as f64), tw, th, 0.52)?;
        }
        r.steps(gx * gy);
        Ok(())
    });
    // curves: against their fine subdivision, within the flattening error
    let c = r.pick(4u64, 6);
    r.stage("curves", c.pow(6), |i| {
        let v = mx(&[c, c, c, c, c, c], i);
        let p: Vec<(f64, f64)> = (0..3).map(|k| (1.0 + v[2 * k] as f64 * 1.5, 1.0 + v[2 * k + 1] as f64 * 1.5)).collect();
        let size = 2 + (c as usize) * 2;
        for cubic in [false, true] {
            let mut fine = vec![];
            for k in 0..64 {
                let t = k as f64 / 64.0;
                let m = 1.0 - t;
                let w = if cubic { [m * m * m, 3.0 * m * m * t, 3.0 * m * t * t + t * t * t] } else { [m * m, 2.0 * m * t, t * t] };
                fine.push((w[0] * p[0].0 + w[1] * p[1].0 + w[2] * p[2].0, w[0] * p[0].1 + w[1] * p[1].1 + w[2] * p[2].1));
            }
            fine.push(p[2]);
            let mut ras = Rasterizer::new(size, size);
            let f = |q: (f64, f64)| (q.0 as f32, q.1 as f32);
            let (a, b, e) = (f(p[0]), f(p[1]), f(p[2]));
            if cubic {
                ras.cubic(a.0, a.1, b.0, b.1, e.0, e.1, e.0, e.1);
            } else {
                ras.quad(a.0, a.1, b.0, b.1, e.0, e.1);
            }
            ras.line(e.0, e.1, a.0, a.1);
            // signed areas add up: no cancellation in a convex arch
            let tol = 0.3 * 255.0;
            same(&format!("{} {p:?}", if cubic { "cubic" } else { "quad" }), &ras.finish(), |x, y| pixel_area(&fine, x as f64, y as f64), size, size, tol)?;
        }
        r.steps(2);
        Ok(())
    });
    r.finding("blur-straight-alpha", || {
        let text = format!("{}Dialogue: 0,0:00:00.00,0:00:03.00,Default,,0,0,0,,{{\\an7\\pos(8,6)\\1a&H80&\\blur2\\bord0\\shad0}}AB\n", crate::clips::HEAD);
        let script = ass_core::parser::Script::parse(&text).map_err(|e| e.to_string())?;
        let mut renderer = ass_renderer::renderer::Renderer::new(ass_renderer::backends::BackendType::Software, ass_renderer::renderer::RenderContext::with_font_database(64, 48, fontdb::Database::new())).map_err(|e| e.to_string())?;
        let frame = renderer.render_frame(&script, 100).map_err(|e| e.to_string())?;
        match frame.data().chunks(4).position(|p| p[..3].iter().any(|&c| c > p[3])) {
            Some(at) => Err(format!("pixel {at} of a half transparent blurred text is {:?}: no premultiplied colour", &frame.data()[at * 4..at * 4 + 4])),
            None => Ok(()),
        }
    });
}
