//! R04: placing events one after another.
use crate::mx;
use ass_renderer::collision::{BoundingBox, CollisionDetector, CollisionResolver, PositionedEvent, SmartCollisionResolver};
use mc_common::*;

type B = (i64, i64, i64, i64);

#[derive(Clone, Copy, Debug, PartialEq)]
struct P {
    b: B,
    layer: i32,
    align: u8,
}

fn hit(a: B, b: B, gap: i64) -> bool {
    a.0 < b.0 + b.2 + gap && b.0 < a.0 + a.2 + gap && a.1 < b.1 + b.3 + gap && b.1 < a.1 + a.3 + gap
}

/// The nearest free place in the stacking direction, if it is on the screen
fn place(held: &[P], p: P, margin: i64, screen: i64) -> Result<i64, (i64, i64)> {
    let free = |y: i64| !held.iter().any(|h| h.layer == p.layer && hit(h.b, (p.b.0, y, p.b.2, p.b.3), 2 * margin));
    let step = if (1..=3).contains(&p.align) { -1 } else { 1 };
    let mut y = p.b.1;
    while !free(y) {
        y += step;
    }
    let last = (screen - p.b.3).max(0);
    if (0..=last).contains(&y) { Ok(y) } else { Err((0, last)) }
}

fn event(p: P) -> PositionedEvent {
    PositionedEvent { bbox: bb(p.b), layer: p.layer, margin_v: 7, margin_l: 0, margin_r: 0, alignment: p.align, priority: 3 }
}

fn bb(b: B) -> BoundingBox {
    BoundingBox::new(b.0 as f32, b.1 as f32, b.2 as f32, b.3 as f32)
}

fn is(b: &BoundingBox, w: B) -> bool {
    (b.x, b.y, b.width, b.height) == (w.0 as f32, w.1 as f32, w.2 as f32, w.3 as f32)
}

pub fn r04(r: &Run) {
    r.rule("every sequence of up to the stated number of boxes (placed or fixed) over a grid of positions, sizes, layers and alignments, with and without a margin; each box is compared with the nearest free place in its stacking direction; every pair and list of boxes for the elementary tests and the free-place search; every priority order");
    r.assume("there is room when the nearest free place in the stacking direction lies on the screen; otherwise the box only has to stay on the screen");
    let screen = 60i64;
    let xs = [0i64, 35, 45];
    let ys = [-5i64, 0, 12, 30, 50];
    let hs = [10i64, 25];
    let mut all = vec![];
    for (k, &align) in [2u8, 8, 5, 10].iter().enumerate() {
        for &x in &xs {
            for &y in &ys {
                for &h in &hs {
                    if k < 2 || (x == 0 && h == 10) {
                        all.push((P { b: (x, y, 40, h), layer: 0, align }, false));
                    }
                }
            }
        }
    }
    for (x, y, h, layer, align) in [(0, 30, 10, 1, 2), (45, 0, 25, 1, 7), (0, 50, 10, -1, 3)] {
        all.push((P { b: (x, y, 40, h), layer, align }, false));
    }
    for (x, y, w, h, layer) in [(0, 50, 40, 10, 0), (35, 20, 40, 20, 0), (0, 0, 100, 60, 1), (10, 30, 0, 5, 0), (20, 41, 3, 1, 0)] {
        all.push((P { b: (x, y, w, h), layer, align: 2 }, true));
    }
    let n = all.len();
    let depth = r.pick(3, 4);
    r.stage("sequences", 2 * seq_count(n, depth), |i| {
        let margin = (i % 2) as i64 * 2;
        let seq = seq_at(n, i / 2);
        let mut res = CollisionResolver::new(100.0, screen as f32);
        if margin == 0 {
            res.set_collision_margin(0.0);
        }
        let mut held: Vec<P> = vec![];
        for (k, &q) in seq.iter().enumerate() {
            let (p, fixed) = all[q];
            let mut now = p;
            if fixed {
                res.add_fixed(event(p));
            } else {
                let got = res.find_position(event(p));
                let w = place(&held, p, margin, screen);
                let y = got.y as i64;
                let fits = match w {
                    Ok(w) => y == w,
                    Err((lo, hi)) => (lo..=hi).contains(&y),
                };
                now.b.1 = y;
                if !fits || !is(&got, now.b) {
                    return Err(format!("{p:?} after {:?} (margin {margin}) goes to {got:?}, expected {w:?}", seq[..k].iter().map(|&q| all[q].0).collect::<Vec<_>>()));
                }
            }
            held.push(now);
            let list = res.positioned_events();
            if list.len() != held.len() || list.iter().zip(&held).any(|(e, p)| !is(&e.bbox, p.b) || e.layer != p.layer || e.alignment != p.align || e.margin_v != 7 || e.priority != 3) {
                return Err(format!("the placed events are {list:?}, expected {held:?}"));
            }
        }
        r.steps(seq.len() as u64);
        r.traces(1);
        if seq.len() < depth {
            r.state(&(margin, format!("{held:?}")));
        }
        res.clear();
        if let Some(&q) = seq.first() {
            // nothing is left of the old frame, on a screen of another size
            let (p, _) = all[q];
            let got = res.find_position(event(p));
            if got.y as i64 != p.b.1.clamp(0, screen - p.b.3) {
                return Err(format!("after clear {p:?} goes to {got:?}"));
            }
        }
        Ok(())
    });
    // staircases: each step out of the way of one box ends in the next one
    let slots: Vec<(i64, i64)> = (0..10).map(|k| (k * 20, [20, 14, 25, 20, 18][k as usize % 5])).collect();
    r.stage("staircases", 1024 * 2 * 2 * 3 * 2, |i| {
        let v = mx(&[1024, 2, 2, 3, 2], i);
        let (margin, align, h) = (v[1] as i64, [2u8, 8][v[2] as usize], [6i64, 15, 30][v[3] as usize]);
        let mut held: Vec<P> = slots.iter().enumerate().filter(|(k, _)| v[0] >> k & 1 == 1).map(|(_, s)| P { b: (0, s.0 + 300, 40, s.1), layer: 0, align: 2 }).collect();
        if v[4] == 1 {
            held.reverse();
        }
        for y in [300, 310, 395, 480] {
            let mut res = CollisionResolver::new(100.0, 800.0);
            res.set_collision_margin(margin as f32);
            held.iter().for_each(|p| res.add_fixed(event(*p)));
            let p = P { b: (20, y, 40, h), layer: 0, align };
            let got = res.find_position(event(p));
            let w = place(&held, p, margin, 800).map_err(|_| "the screen has room")?;
            if !is(&got, (20, w, 40, h)) {
                return Err(format!("{p:?} among {held:?} (margin {margin}) goes to {got:?}, expected {w}"));
            }
            r.steps(1);
        }
        Ok(())
    });
    // boxes
    let g: Vec<i64> = vec![-3, 0, 1, 4, 10];
    let l: Vec<i64> = vec![0, 1, 4, 11];
    let nb = (g.len() * g.len() * l.len() * l.len()) as u64;
    let at = |i: u64| {
        let v = mx(&[5, 5, 4, 4], i);
        (g[v[0] as usize], g[v[1] as usize], l[v[2] as usize], l[v[3] as usize])
    };
    r.stage("boxes", nb * nb, |i| {
        let (a, b) = (at(i / nb), at(i % nb));
        let (fa, fb) = (bb(a), bb(b));
        if fa.intersects(&fb) != hit(a, b, 0) {
            return Err(format!("{a:?} intersects {b:?}: {}", fa.intersects(&fb)));
        }
        let span = |s: i64, l: i64, t: i64, k: i64| ((s + l).min(t + k) - s.max(t)).max(0);
        let area = span(a.0, a.2, b.0, b.2) * span(a.1, a.3, b.1, b.3);
        if fa.overlap_area(&fb) != area as f32 {
            return Err(format!("{a:?} and {b:?} share {}, expected {area}", fa.overlap_area(&fb)));
        }
        let m = b.2;
        if !is(&fa.expand(m as f32), (a.0 - m, a.1 - m, a.2 + 2 * m, a.3 + 2 * m)) || fa.center() != (a.0 as f32 + a.2 as f32 / 2.0, a.1 as f32 + a.3 as f32 / 2.0) {
            return Err(format!("{a:?} expanded by {m}: {:?}, centre {:?}", fa.expand(m as f32), fa.center()));
        }
        r.steps(1);
        Ok(())
    });
    // free places in steps of ten
    let ex: Vec<B> = vec![(0, 0, 40, 10), (0, 10, 40, 25), (30, 20, 40, 15), (0, 45, 100, 5), (0, 0, 100, 60), (60, 0, 10, 60), (0, 30, 40, 30)];
    let starts: Vec<i64> = vec![-215, -15, -5, 0, 3, 10, 25, 49, 50, 51, 60, 215];
    r.stage("free-places", (starts.len() * 3 * 2) as u64 * (1 << ex.len()), |i| {
        let v = mx(&[starts.len() as u64, 3, 2, 1 << ex.len()], i);
        let (y, x, h) = (starts[v[0] as usize], [0i64, 35, 70][v[1] as usize], [10i64, 25][v[2] as usize]);
        let held: Vec<B> = ex.iter().enumerate().filter(|(k, _)| v[3] >> k & 1 == 1).map(|(_, b)| *b).collect();
        let free = |y: i64| (0..=screen - h).contains(&y) && !held.iter().any(|b| hit(*b, (x, y, 30, h), 0));
        let want = (0..20).map(|k| y + 10 * k).chain((1..20).map(|k| y - 10 * k)).find(|&y| free(y));
        let list: Vec<BoundingBox> = held.iter().map(|b| bb(*b)).collect();
        let s = SmartCollisionResolver::new(100.0, screen as f32);
        let got = s.find_free_position(&bb((x, y, 30, h)), &list, &bb((0, 0, 100, screen)));
        if s.check_collision(&bb((x, y, 30, h)), &list) != held.iter().any(|b| hit(*b, (x, y, 30, h), 0)) {
            return Err("collision test".into());
        }
        r.steps(1);
        if got != want.map(|y| (x as f32, y as f32)) {
            return Err(format!("{:?} among {held:?} goes to {got:?}, expected {want:?}", (x, y, 30, h)));
        }
        Ok(())
    });
    // priorities
    let pr = [i32::MIN, -1, 0, 99, 100, i32::MAX];
    let m = r.pick(3u64, 4);
    r.stage("priorities", 18u64.pow(m as u32), |i| {
        let q = mx(&vec![18; m as usize], i);
        let mut ev: Vec<PositionedEvent> = q.iter().enumerate().map(|(k, &q)| PositionedEvent { priority: pr[(q % 6) as usize], margin_l: k as i32, ..event(P { b: (0, [0, 5, 40][(q / 6) as usize], 40, 10), layer: 0, align: 2 }) }).collect();
        let mut order: Vec<PositionedEvent> = ev.clone();
        order.sort_by_key(|e| std::cmp::Reverse(e.priority));
        let mut held: Vec<P> = vec![];
        let want: Vec<(i32, Result<i64, (i64, i64)>)> = order.iter().map(|e| {
            let p = P { b: (0, e.bbox.y as i64, 40, 10), layer: 0, align: 2 };
            let y = if e.priority >= 100 { Ok(p.b.1) } else { place(&held, p, 2, screen) };
            held.push(P { b: (0, y.unwrap_or(0), 40, 10), ..p });
            (e.margin_l, y)
        }).collect();
        let mut s = SmartCollisionResolver::new(100.0, screen as f32);
        guard(|| s.process_events(&mut ev)).map_err(|e| format!("priorities {q:?}: {e}"))?;
        for (e, w) in ev.iter().zip(&want) {
            let y = e.bbox.y as i64;
            let ok = match w.1 {
                Ok(w) => y == w,
                // (pushed up past the top: held there)
                Err(_) => y == 0,
            };
            if e.margin_l != w.0 || !ok {
                return Err(format!("event {} of {q:?} at {y}, expected {w:?}", e.margin_l));
            }
        }
        r.steps(m);
        Ok(())
    });
}
