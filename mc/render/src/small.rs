//! R07 (caches and atlas) and R08 (regions, matrices, frames).
use crate::mx;
use ass_renderer::cache::{CacheStats, DrawingCacheKey, RenderCache, TextCacheKey};
use ass_renderer::pipeline::compositing::alpha_blend;
use ass_renderer::pipeline::shaping::ShapedText;
use ass_renderer::renderer::{EventSelector, Frame};
use ass_renderer::utils::{cubic_bezier, lerp, CachedGlyph, DirtyRegion, GlyphCache, GlyphKey, Matrix3x3, TextureAtlas, Transform2D};
use mc_common::*;
use std::collections::BTreeMap;
use tiny_skia::PathBuilder;

/// What a bounded map may hold: the model follows which entry was given up.
#[derive(Clone, Default)]
struct Bounded {
    max: usize,
    held: BTreeMap<u8, u64>,
    evictions: usize,
}

impl Bounded {
    /// the contents seen after storing (k, v); at most one entry may be gone, and only when there was no room
    fn stored(&mut self, k: u8, v: u64, seen: &BTreeMap<u8, u64>) -> Result<(), String> {
        let full = self.held.len() >= self.max && !self.held.contains_key(&k);
        let mut want = self.held.clone();
        if self.max > 0 {
            want.insert(k, v);
        }
        let gone: Vec<u8> = want.keys().filter(|k| !seen.contains_key(k)).copied().collect();
        let ok = seen.iter().all(|(k, v)| want.get(k) == Some(v)) && gone.len() == (full && self.max > 0) as usize && (self.max == 0 || !gone.contains(&k)) && seen.len() <= self.max;
        if !ok {
            return Err(format!("storing {k}={v} with a limit of {} turns {:?} into {seen:?}", self.max, self.held));
        }
        self.evictions += gone.len();
        self.held = seen.clone();
        Ok(())
    }
}

fn text_key(k: u8) -> TextCacheKey {
    // keys that differ in one part each
    TextCacheKey {
        text: if k == 1 { "ab" } else { "a" }.into(),
        font_family: if k == 2 { "F" } else { "f" }.into(),
        font_size: if k == 3 { 11 } else { 10 },
        bold: k == 4,
        italic: k == 5,
    }
}

fn shaped(v: u64) -> ShapedText {
    ShapedText { glyphs: vec![], width: v as f32, height: 1.0, baseline: 0.0, font_size: 1.0, ascent: 0.0, descent: 0.0, ink_min: 0.0, ink_max: 0.0 }
}

fn path(v: u64) -> Option<tiny_skia::Path> {
    (v % 3 != 0).then(|| {
        let mut b = PathBuilder::new();
        b.move_to(0.0, 0.0);
        b.line_to(v as f32, 1.0);
        b.finish().unwrap()
    })
}

const KEYS: u8 = 6;

fn probe(c: &mut RenderCache, text: &mut usize, draw: &mut usize) -> (BTreeMap<u8, u64>, BTreeMap<u8, Option<tiny_skia::Path>>) {
    let mut t = BTreeMap::new();
    let mut d = BTreeMap::new();
    for k in 0..KEYS {
        if let Some(s) = c.get_shaped_text(&text_key(k)) {
            t.insert(k, s.width as u64);
            *text += 1;
        }
        if let Some(p) = c.get_drawing_path(&DrawingCacheKey { commands: format!("m {k}") }) {
            d.insert(k, p);
            *draw += 1;
        }
    }
    (t, d)
}

pub fn r07(r: &Run) {
    r.rule("every sequence of up to the stated number of stores and clears over keys that differ in one part each, with limits of zero to three; all keys are looked up after each step, and the entries, shared values and counters compared with a map that may give up one entry when full; every sequence of atlas allocations over a set of sizes with written contents read back");
    r.assume("which entry is given up is the cache's choice (a hash map's order); every choice seen is followed");
    let depth = r.pick(5, 6);
    // render cache: ops 0..3k: store text k with a new value; then drawings; then clear
    let ops = 2 * 4 + 1;
    r.stage("render-cache", 16 * seq_count(ops, depth), |i| {
        let (mt, md) = ((i % 4) as usize, (i / 4 % 4) as usize);
        let seq = seq_at(ops, i / 16);
        r.state(&(mt, md, &seq));
        let mut c = RenderCache::with_limits(mt, md);
        let (mut t, mut d) = (Bounded { max: mt, ..Default::default() }, Bounded { max: md, ..Default::default() });
        let (mut hits, mut dhits, mut asked) = (0, 0, 0);
        for (n, &op) in seq.iter().enumerate() {
            let v = n as u64 + 1;
            if op < 4 {
                // (rotate through all six keys by position)
                let k = (op as u8 + (n as u8 / 2) * 2) % KEYS;
                let kept = c.store_shaped_text(text_key(k), shaped(v));
                if kept.width != v as f32 {
                    return Err(format!("storing returns {} instead of {v}", kept.width));
                }
                let (ts, ds) = probe(&mut c, &mut hits, &mut dhits);
                asked += KEYS as usize;
                t.stored(k, v, &ts)?;
                if ds.len() != d.held.len() {
                    return Err("storing text changes the drawings".into());
                }
            } else if op < 8 {
                let k = (op as u8 - 4 + (n as u8 / 2) * 2) % KEYS;
                c.store_drawing_path(DrawingCacheKey { commands: format!("m {k}") }, path(v));
                let (ts, ds) = probe(&mut c, &mut hits, &mut dhits);
                asked += KEYS as usize;
                let mut seen = BTreeMap::new();
                for (kk, p) in &ds {
                    let vv = if *kk == k { v } else { *d.held.get(kk).ok_or(format!("drawing {kk} was never stored"))? };
                    if *p != path(vv) {
                        return Err(format!("drawing {kk} is {p:?}, expected the one stored at {vv}"));
                    }
                    seen.insert(*kk, vv);
                }
                d.stored(k, v, &seen)?;
                if ts != t.held {
                    return Err("storing a drawing changes the texts".into());
                }
            } else {
                c.clear();
                t = Bounded { max: mt, ..Default::default() };
                d = Bounded { max: md, ..Default::default() };
                (hits, dhits, asked) = (0, 0, 0);
                let s = c.stats();
                if s.text_hits + s.text_misses + s.drawing_hits + s.drawing_misses + s.evictions != 0 {
                    return Err("clear keeps statistics".into());
                }
                let (ts, ds) = probe(&mut c, &mut hits, &mut dhits);
                asked += KEYS as usize;
                if !ts.is_empty() || !ds.is_empty() {
                    return Err("clear keeps entries".into());
                }
            }
            let s: &CacheStats = c.stats();
            let got = (s.text_hits, s.text_misses, s.drawing_hits, s.drawing_misses, s.evictions);
            let want = (hits, asked - hits, dhits, asked - dhits, t.evictions + d.evictions);
            if got != want {
                return Err(format!("statistics {got:?}, expected {want:?} after {seq:?} with limits {mt} and {md}"));
            }
            r.steps(1);
        }
        r.traces(1);
        Ok(())
    });
    r.stage("glyph-cache", 4 * seq_count(6, r.pick(6, 8)), |i| {
        let max = (i % 4) as usize;
        let seq = seq_at(6, i / 4);
        let mut c = GlyphCache::new(max);
        let mut m = Bounded { max, ..Default::default() };
        let key = |k: u8| GlyphKey {
            font_family: if k == 1 { "F" } else { "f" }.into(),
            glyph_id: if k == 2 { 2 } else { 1 },
            size: if k == 3 { 2 } else { 1 },
            style_flags: if k == 4 { 2 } else { 1 },
        };
        for (n, &op) in seq.iter().enumerate() {
            let v = n as u64 + 1;
            if op == 5 {
                c.clear();
                m.held.clear();
            } else {
                c.insert(key(op as u8), CachedGlyph { bitmap: vec![v as u8], width: 1, height: 1, advance: v as f32, bearing_x: 0.0, bearing_y: 0.0 });
            }
            let seen: BTreeMap<u8, u64> = (0..5).filter_map(|k| c.get(&key(k)).map(|g| (k, u64::from(g.bitmap[0])))).collect();
            if op != 5 {
                m.stored(op as u8, v, &seen)?;
            }
            if c.len() != seen.len() || c.is_empty() != seen.is_empty() || seen != m.held {
                return Err(format!("{} entries, {seen:?} found, expected {:?}", c.len(), m.held));
            }
            r.steps(1);
        }
        Ok(())
    });
    // texture atlas
    let sizes: Vec<(u32, u32)> = r.pick(
        vec![(0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (3, 2), (4, 4), (5, 1), (1, 5), (u32::MAX, 1), (1, u32::MAX)],
        vec![(0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 3), (3, 2), (4, 1), (4, 4), (5, 1), (1, 5), (u32::MAX, 1), (1, u32::MAX), (u32::MAX - 1, u32::MAX)],
    );
    let n = sizes.len() + 1;
    r.stage("atlas", 4 * seq_count(n, r.pick(5, 6)), |i| {
        let (w, h) = [(4u32, 4u32), (3, 5), (1, 1), (0, 0)][(i % 4) as usize];
        let seq = seq_at(n, i / 4);
        let mut a = TextureAtlas::new(w, h);
        let mut want = vec![0u8; (w * h * 4) as usize];
        let mut held: Vec<(u32, u32, u32, u32)> = vec![];
        for (k, &op) in seq.iter().enumerate() {
            if op == sizes.len() {
                a.clear();
                held.clear();
                want.fill(0);
            } else {
                let (rw, rh) = sizes[op];
                let fresh = held.is_empty() && (k == 0 || seq[..k].iter().all(|&o| o == sizes.len()));
                match guard(|| a.allocate(rw, rh)).map_err(|e| format!("allocating {rw}x{rh} in {w}x{h} after {:?} panics: {e}", &seq[..k]))? {
                    None if fresh && rw <= w && rh <= h => return Err(format!("{rw}x{rh} does not go into an empty {w}x{h} atlas")),
                    None => {}
                    Some(g) => {
                        let now = (g.x, g.y, g.width, g.height);
                        let inside = g.width == rw && g.height == rh && u64::from(g.x) + u64::from(rw) <= u64::from(w) && u64::from(g.y) + u64::from(rh) <= u64::from(h);
                        let apart = held.iter().all(|o| o.0 + o.2 <= now.0 || now.0 + rw <= o.0 || o.1 + o.3 <= now.1 || now.1 + rh <= o.1 || o.2 == 0 || o.3 == 0 || rw == 0 || rh == 0);
                        if !inside || !apart || g.id as usize != held.len() {
                            return Err(format!("allocation {now:?} (id {}) in {w}x{h} next to {held:?}", g.id));
                        }
                        held.push(now);
                        let data: Vec<u8> = (0..rw * rh * 4).map(|b| (k as u32 * 50 + b + 1) as u8).collect();
                        a.write_region(&g, &data);
                        for y in 0..rh {
                            for b in 0..rw * 4 {
                                want[((g.y + y) * w * 4 + g.x * 4 + b) as usize] = data[(y * rw * 4 + b) as usize];
                            }
                        }
                    }
                }
            }
            if a.data() != want {
                return Err(format!("{w}x{h} atlas after {seq:?}: {:?}, expected {want:?}", a.data()));
            }
            r.steps(1);
        }
        r.traces(1);
        Ok(())
    });
}

fn covers(a: (u32, u32, u32, u32), x: u32, y: u32) -> bool {
    u64::from(x) >= u64::from(a.0) && u64::from(x) < u64::from(a.0) + u64::from(a.2) && u64::from(y) >= u64::from(a.1) && u64::from(y) < u64::from(a.1) + u64::from(a.3)
}

pub fn r08(r: &Run) {
    r.rule("every pair of regions over a coordinate grid with boundary values, every list of three, all points around them; matrix products and interpolations on grids of exactly representable values; every small frame in every pixel layout; results are compared with sets of pixels and elementary arithmetic");
    r.assume("regions that only touch may count as intersecting; pixels beyond the largest coordinate do not exist");
    const M: u32 = u32::MAX;
    let at: Vec<u32> = r.pick(vec![0, 1, 2, 5, M - 1, M], vec![0, 1, 2, 3, 5, 6, M - 2, M - 1, M]);
    let len: Vec<u32> = r.pick(vec![0, 1, 3, M], vec![0, 1, 2, 3, M - 1, M]);
    let (na, nl) = (at.len() as u64, len.len() as u64);
    let region = |i: u64| -> (u32, u32, u32, u32) {
        let v = mx(&[na, na, nl, nl], i);
        (at[v[0] as usize], at[v[1] as usize], len[v[2] as usize], len[v[3] as usize])
    };
    let n = (na * nl) * (na * nl);
    let pts: Vec<u32> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, M - 3, M - 2, M - 1];
    let mk = |a: (u32, u32, u32, u32)| DirtyRegion::new(a.0, a.1, a.2, a.3);
    r.stage("regions", n * n, |i| {
        let (a, b) = (region(i / n), region(i % n));
        if i % n == 0 {
            r.state(&a);
        }
        let (ra, rb) = (mk(a), mk(b));
        let got = guard(|| {
            let m = ra.merge(&rb);
            (m, ra.contains_point(3, 1), ra.intersects((b.0, b.1, b.0.saturating_add(b.2), b.1.saturating_add(b.3))), ra.area())
        });
        let (m, _, hit, area) = got.map_err(|e| format!("{a:?} with {b:?} panics: {e}"))?;
        if area != u64::from(a.2) * u64::from(a.3) {
            return Err(format!("area of {a:?} is {area}"));
        }
        let end = |r: (u32, u32, u32, u32)| ((u64::from(r.0) + u64::from(r.2)).min(M.into()), (u64::from(r.1) + u64::from(r.3)).min(M.into()));
        // the smallest region around both
        let want = (a.0.min(b.0), a.1.min(b.1), end(a).0.max(end(b).0), end(a).1.max(end(b).1));
        let has = (m.x, m.y, u64::from(m.x) + u64::from(m.width), u64::from(m.y) + u64::from(m.height));
        if has != want {
            return Err(format!("{a:?} merged with {b:?} is {m:?}, expected up to {want:?}"));
        }
        // (a pixel in common)
        let share = |s: u32, l: u32, t: u32, k: u32| (u64::from(s).max(t.into())) < ((u64::from(s) + u64::from(l)).min(u64::from(t) + u64::from(k))).min(M.into());
        let touch = |s: u32, l: u32, t: u32, k: u32| (u64::from(s).max(t.into())) <= ((u64::from(s) + u64::from(l)).min(u64::from(t) + u64::from(k))).min(M.into());
        let sharing = share(a.0, a.2, b.0, b.2) && share(a.1, a.3, b.1, b.3);
        let touching = touch(a.0, a.2, b.0, b.2) && touch(a.1, a.3, b.1, b.3);
        if sharing && !hit || hit && !touching {
            return Err(format!("{a:?} and {b:?} intersect: {hit}"));
        }
        if i % n == 0 {
            for &x in &pts {
                for &y in &pts {
                    let c = guard(|| ra.contains_point(x, y)).map_err(|e| format!("{a:?} {x},{y}: {e}"))?;
                    if c != covers(a, x, y) {
                        return Err(format!("{a:?} contains {x},{y}: {c}"));
                    }
                }
            }
        }
        r.steps(1);
        Ok(())
    });
    // the selector's list of regions
    let some: Vec<(u32, u32, u32, u32)> = {
        let mut v = vec![(0, 0, M, M), (M, 0, 1, 1), (M - 1, M - 1, M, M), (1, 1, 0, 5)];
        for x in [0u32, 1, 2, 4] {
            for y in [0u32, 1, 3] {
                for w in [1u32, 2, 3] {
                    v.push((x, y, w, 1 + (x + w) % 2));
                }
            }
        }
        v
    };
    let (k, d) = (some.len(), r.pick(4, 5));
    r.stage("region-lists", seq_count(k, d), |i| {
        let seq = seq_at(k, i);
        let mut s = EventSelector::new();
        for (n, &q) in seq.iter().enumerate() {
            let a = some[q];
            guard(|| s.add_dirty_region(a.0, a.1, a.2, a.3)).map_err(|e| format!("adding {a:?}: {e}"))?;
            for &q in &seq[..=n] {
                let a = some[q];
                let held = s.dirty_regions().iter().any(|g| {
                    g.x <= a.0 && g.y <= a.1 && u64::from(g.x) + u64::from(g.width) >= (u64::from(a.0) + u64::from(a.2)).min(M.into()) && u64::from(g.y) + u64::from(g.height) >= (u64::from(a.1) + u64::from(a.3)).min(M.into())
                });
                if !held {
                    return Err(format!("{a:?} is not covered by {:?} after adding {:?}", s.dirty_regions(), seq.iter().map(|&q| some[q]).collect::<Vec<_>>()));
                }
            }
        }
        r.steps(seq.len() as u64);
        s.clear_dirty_regions();
        if s.dirty_regions().is_empty() { Ok(()) } else { Err("clear keeps regions".into()) }
    });
    // matrices on exactly representable values
    let v = [-2.0f32, -1.0, 0.0, 0.5, 3.0];
    r.stage("matrices", 5u64.pow(6), |i| {
        let q = mx(&[5; 6], i);
        let f: Vec<f32> = q.iter().map(|&k| v[k as usize]).collect();
        let (x, y) = (f[4], f[5]);
        let parts = [Matrix3x3::translate(f[0], f[1]), Matrix3x3::scale(f[2], f[3]), Matrix3x3::identity(), Matrix3x3 { m: [[f[0], f[2], f[1]], [f[3], 1.0, f[2]], [0.0, 0.0, 1.0]] }, Matrix3x3::rotate(0.0)];
        let want = [(x + f[0], y + f[1]), (x * f[2], y * f[3]), (x, y), (f[0] * x + f[2] * y + f[1], f[3] * x + y + f[2]), (x, y)];
        for (a, w) in parts.iter().zip(want) {
            if a.transform_point(x, y) != w {
                return Err(format!("{a:?} takes {x},{y} to {:?}, expected {w:?}", a.transform_point(x, y)));
            }
            for b in &parts {
                let c = a.multiply(b);
                let one = b.transform_point(x, y);
                if c.transform_point(x, y) != a.transform_point(one.0, one.1) {
                    return Err(format!("the product of {a:?} and {b:?} does not apply them in turn"));
                }
            }
        }
        // a quarter turn, within rounding
        let t = Transform2D { tx: f[0], ty: f[1], sx: f[2], sy: f[3], rotation: std::f32::consts::FRAC_PI_2, shear_x: 0.0, shear_y: 0.0 };
        let p = t.to_matrix().transform_point(x, y);
        if (p.0 - (f[0] - f[3] * y)).abs() > 1e-4 || (p.1 - (f[1] + f[2] * x)).abs() > 1e-4 {
            return Err(format!("{t:?} takes {x},{y} to {p:?}"));
        }
        let o = Transform2D { tx: f[3], ty: f[2], sx: f[1], sy: f[0], rotation: 1.0, shear_x: f[0], shear_y: f[5] };
        for (s, k) in [(0.0, &t), (1.0, &o)] {
            let l = t.lerp(&o, s);
            if (l.tx - k.tx).abs() + (l.ty - k.ty).abs() + (l.sx - k.sx).abs() + (l.sy - k.sy).abs() + (l.rotation - k.rotation).abs() + (l.shear_x - k.shear_x).abs() + (l.shear_y - k.shear_y).abs() > 1e-6 {
                return Err(format!("{t:?} to {o:?} at {s} is {l:?}"));
            }
        }
        if lerp(x, y, 0.0) != x || lerp(x, y, 1.0) != y || lerp(x, y, 0.5) != (x + y) / 2.0 {
            return Err(format!("interpolating {x} and {y}"));
        }
        r.steps(30);
        Ok(())
    });
    r.stage("bezier", 11 * 11, |i| {
        let (p1, p2) = ((i % 11) as f32 / 10.0, (i / 11) as f32 / 10.0);
        let mut last = 0.0;
        for k in 0..=100 {
            let t = k as f64 / 100.0;
            let got = f64::from(cubic_bezier(t as f32, p1, p2));
            let want = 3.0 * (1.0 - t) * (1.0 - t) * t * f64::from(p1) + 3.0 * (1.0 - t) * t * t * f64::from(p2) + t * t * t;
            if (got - want).abs() > 1e-5 || got < last - 1e-5 {
                return Err(format!("bezier {p1} {p2} at {t}: {got}, expected {want} after {last}"));
            }
            last = got;
        }
        r.steps(101);
        Ok(())
    });
    r.stage("alpha-blend", 256 * 256, |i| {
        let (sa, s) = ((i / 256) as u8, (i % 256) as u8);
        for d in 0..=255u8 {
            for da in [0, d, 255] {
                let got = alpha_blend([s, d, 255 - s, sa], [d, s, 7, da]);
                let mix = |a: u8, b: u8| (u32::from(a) * u32::from(sa) + u32::from(b) * (255 - u32::from(sa))) as f64 / 255.0;
                let want = match sa {
                    0 => [d, s, 7, da].map(f64::from),
                    255 if da == 0 => [s, d, 255 - s, sa].map(f64::from),
                    _ => [mix(s, d), mix(d, s), mix(255 - s, 7), mix(255, da)],
                };
                if (0..4).any(|k| (f64::from(got[k]) - want[k]).abs() >= 1.0) {
                    return Err(format!("blending {s} at {sa} over {d} at {da} gives {got:?}, expected {want:?}"));
                }
            }
        }
        r.steps(768);
        Ok(())
    });
    // frames
    r.stage("frames", 5 * 4 * 3, |i| {
        use ass_renderer::renderer::PixelFormat;
        let (w, h) = ((i % 5) as u32, (i / 5 % 4) as u32);
        let f = [PixelFormat::Rgba8, PixelFormat::Bgra8, PixelFormat::Rgb8][(i / 20) as usize];
        let bpp = if f == PixelFormat::Rgb8 { 3 } else { 4 };
        let data: Vec<u8> = (0..w * h * bpp).map(|b| b as u8 + 1).collect();
        let frame = Frame::with_format(data.clone(), w, h, 77, f);
        let check = |x: &Frame, d: &[u8], t: u32, f: PixelFormat, what: &str| {
            if x.width() != w || x.height() != h || x.timestamp() != t || x.data() != d || x.pixels() != d || x.format() != f {
                return Err(format!("{what} of a {w}x{h} frame: {}x{} at {}: {:?}", x.width(), x.height(), x.timestamp(), x.data()));
            }
            Ok(())
        };
        check(&frame, &data, 77, f, "frame")?;
        if frame.bytes_per_pixel() != bpp as usize || frame.stride() != (w * bpp) as usize {
            return Err(format!("{} bytes a pixel, {} a row", frame.bytes_per_pixel(), frame.stride()));
        }
        check(&frame.with_timestamp(5), &data, 5, f, "copy")?;
        let mut copy = frame.clone();
        let blank = data.iter().enumerate().all(|(k, &b)| bpp == 4 && (k % 4 != 3 || b == 0));
        if frame.is_empty() != (bpp == 4 && blank) {
            return Err("emptiness".into());
        }
        copy.data_mut().fill(0);
        check(&frame, &data, 77, f, "a copy written to changes the frame: frame")?;
        check(&copy, &vec![0; data.len()], 77, f, "copy")?;
        if copy.is_empty() != (bpp == 4) {
            return Err("a blank frame is not empty".into());
        }
        let rgba: Vec<u8> = data.chunks(bpp as usize).flat_map(|p| match f {
            PixelFormat::Rgba8 => [p[0], p[1], p[2], p[3]],
            PixelFormat::Bgra8 => [p[2], p[1], p[0], p[3]],
            PixelFormat::Rgb8 => [p[0], p[1], p[2], 255],
        }).collect();
        check(&frame.clone().to_rgba(), &rgba, 77, PixelFormat::Rgba8, "conversion")?;
        check(&frame, &data, 77, f, "a conversion changes the frame: frame")?;
        let shared = frame.clone();
        if frame.into_buffer() != data || shared.into_buffer() != data {
            return Err("the buffer differs".into());
        }
        let e = Frame::empty(w, h, 9);
        check(&e, &vec![0; (w * h * 4) as usize], 9, PixelFormat::Rgba8, "empty")?;
        check(&Frame::from_rgba(vec![1; (w * h * 4) as usize], w, h), &vec![1; (w * h * 4) as usize], 0, PixelFormat::Rgba8, "rgba")?;
        r.steps(8);
        Ok(())
    });
}
