//! E04: positions, lines and columns, ranges and selections.
use crate::text::{doc, line_end, line_of, line_starts, rg};
use ass_editor::core::{LineColumn, Position, PositionBuilder, Range, Selection};
use mc_common::*;
use std::collections::BTreeSet;

fn text_case(t: &str) -> Result<(), String> {
    let mut d = doc(t);
    let starts = line_starts(t);
    for p in 0..=t.len() + 2 {
        let got = d.position_to_line_column(Position::new(p)).map(|x| (x.line, x.column)).ok();
        let got2 = d.position_to_line_col(Position::new(p)).ok();
        let got3 = guard(|| d.at_pos(Position::new(p)).to_line_column().ok()).map_err(|e| format!("to_line_column at {p} of {t:?} panics: {e}"))?;
        if got != got2 || got != got3 {
            return Err(format!("the three conversions of {p} in {t:?} give {got:?} {got2:?} {got3:?}"));
        }
        if p > t.len() {
            if got.is_some() {
                return Err(format!("{p} is past the end of {t:?} but is at {got:?}"));
            }
            continue;
        }
        if !t.is_char_boundary(p) {
            continue;
        }
        let l = line_of(t, p);
        let want = (l + 1, t[starts[l]..p].chars().count() + 1);
        if got != Some(want) {
            return Err(format!("{p} in {t:?} is at {got:?}, expected {want:?}"));
        }
        let back = PositionBuilder::new().line(want.0).column(want.1).build(d.rope()).ok();
        let back2 = d.line_column_to_position(want.0, want.1).ok();
        if back != Some(Position::new(p)) || back2 != back {
            return Err(format!("{want:?} in {t:?} is {back:?} / {back2:?}, expected {p}"));
        }
        if PositionBuilder::new().offset(p).build(d.rope()).ok() != Some(Position::new(p)) {
            return Err(format!("offset {p} in {t:?} is refused"));
        }
    }
    for over in [t.len() + 1, usize::MAX] {
        if PositionBuilder::new().offset(over).build(d.rope()).is_ok() || d.position_to_line_column(Position::new(over)).is_ok() {
            return Err(format!("offset {over} in {t:?} is accepted"));
        }
    }
    // every line and column, also those that do not exist
    for l in 1..=starts.len() + 2 {
        let s = starts.get(l - 1).copied();
        let e = s.map(|_| line_end(t, l - 1));
        let b = PositionBuilder::new().at_line_start(l).build(d.rope()).ok().map(|p| p.offset);
        let f = PositionBuilder::new().at_line_end(l).build(d.rope()).ok().map(|p| p.offset);
        let a = d.at_line(l).ok().map(|a| a.position().offset);
        if (b, f, a) != (s, e, s) {
            return Err(format!("line {l} of {t:?} starts {b:?} / {a:?} ends {f:?}, expected {s:?} and {e:?}"));
        }
        for c in 0..=t.len() + 3 {
            let got = PositionBuilder::new().line(l).column(c).build(d.rope()).ok().map(|p| p.offset);
            let want = s.and_then(|s| {
                let next = starts.get(l).copied();
                let limit = next.unwrap_or(t.len());
                let mut at: Vec<usize> = t[s..limit].char_indices().map(|x| s + x.0).collect();
                if next.is_none() {
                    at.push(t.len());
                }
                c.checked_sub(1).and_then(|c| at.get(c).copied())
            });
            if got != want {
                return Err(format!("line {l} column {c} of {t:?} is {got:?}, expected {want:?}"));
            }
        }
    }
    let ends = (d.at_start().position().offset, d.at_end().position().offset);
    if ends != (0, t.len()) || PositionBuilder::at_start().build(d.rope()).ok() != Some(Position::start()) {
        return Err(format!("start and end of {t:?} are {ends:?}"));
    }
    Ok(())
}

fn set(r: &Range) -> BTreeSet<usize> {
    (r.start.offset..r.end.offset).collect()
}

fn range_case(a: usize, b: usize, c: usize, e: usize, max: usize) -> Result<(), String> {
    let p = Position::new;
    let x = Range::new(p(a), p(b));
    let y = Range::new(p(c), p(e));
    let (sx, sy) = (set(&x), set(&y));
    let bad = |what: String| Err(format!("{x:?} and {y:?}: {what}"));
    if (x.start.offset, x.end.offset) != (a.min(b), a.max(b)) {
        return bad(format!("Range::new({a}, {b})"));
    }
    if x.len() != sx.len() || x.is_empty() != sx.is_empty() {
        return bad(format!("len {} is_empty {}", x.len(), x.is_empty()));
    }
    for q in 0..=max + 1 {
        if x.contains(p(q)) != sx.contains(&q) {
            return bad(format!("contains {q}: {}", x.contains(p(q))));
        }
        let ext = x.extend_to(p(q));
        if (ext.start.offset, ext.end.offset) != (a.min(b).min(q), a.max(b).max(q)) {
            return bad(format!("extend_to {q}: {ext:?}"));
        }
    }
    let inter: BTreeSet<usize> = sx.intersection(&sy).copied().collect();
    // empty ranges denote no position: only the verdict on ranges with positions is settled by the sets
    if !x.is_empty() && !y.is_empty() && x.overlaps(&y) == inter.is_empty() {
        return bad(format!("overlaps {}", x.overlaps(&y)));
    }
    if x.overlaps(&y) != y.overlaps(&x) {
        return bad("overlaps is not symmetric".into());
    }
    match x.intersection(&y) {
        Some(i) if set(&i) == inter && !inter.is_empty() => {}
        None if inter.is_empty() => {}
        got => return bad(format!("intersection {got:?}, expected {inter:?}")),
    }
    let u = x.union(&y);
    let hull = (x.start.offset.min(y.start.offset), x.end.offset.max(y.end.offset));
    if (u.start.offset, u.end.offset) != hull || x.union(&y) != y.union(&x) {
        return bad(format!("union {u:?}"));
    }
    let s = Selection::new(p(a), p(b));
    if s.range() != x || s.is_empty() != x.is_empty() || s.is_reversed() != (b < a) {
        return bad(format!("selection {s:?}"));
    }
    let t = s.extend_to(p(c));
    if (t.anchor, t.cursor) != (p(a), p(c)) || Selection::empty(p(a)).range() != Range::empty(p(a)) {
        return bad(format!("extended selection {t:?}"));
    }
    let text = if x.is_empty() { format!("{a}") } else { format!("{}-{}", a.min(b), a.max(b)) };
    if x.to_string() != text {
        return bad(format!("printed {x}"));
    }
    Ok(())
}

pub fn e04(r: &Run) {
    r.rule("every text up to the stated length over an alphabet with one to four byte characters and every kind of line break; in it every byte offset, every line and every column, existing or not, converted both ways and compared with a scan of the text; every pair of ranges and selections over a small interval compared with sets of positions");
    r.assume("a line ends behind the line breaks the rope knows: LF, CR, CRLF, VT, FF, NEL, LS, PS; columns count characters from one and the characters of the line break belong to the line");
    let alpha = ["a", "é", "\n", "\r", "\u{2028}", "日", "\u{1f600}", "\u{85}"];
    r.stage("short-texts", seq_count(alpha.len(), r.pick(6, 7)), |i| {
        let t = string_at(&alpha, i);
        r.state(&t);
        r.steps(t.len() as u64 * 8);
        text_case(&t)
    });
    let alpha2 = ["ab", "\r\n", "é", "\u{b}", "\u{c}"];
    r.stage("long-lines", seq_count(alpha2.len(), r.pick(5, 7)), |i| {
        let t = string_at(&alpha2, i);
        r.state(&t);
        r.steps(t.len() as u64 * 8);
        text_case(&t)
    });
    // texts longer than a rope leaf
    r.stage("large", r.pick(6, 24), |i| {
        let t: String = (0..150 + i as usize * 17).map(|k| ["abcdefg é\n", "日本\r\n", "x\u{2029}", "\u{1f600}\r"][(k + i as usize) % 4]).collect();
        let d = doc(&t);
        let starts = line_starts(&t);
        let mut line = 0;
        for (p, _) in t.char_indices() {
            while starts.get(line + 1).is_some_and(|&b| b <= p) {
                line += 1;
            }
            let want = LineColumn { line: line + 1, column: t[starts[line]..p].chars().count() + 1 };
            let got = d.position_to_line_column(Position::new(p)).ok();
            if got != Some(want) || d.line_column_to_position(want.line, want.column).ok() != Some(Position::new(p)) {
                return Err(format!("{p} is at {got:?}, expected {want:?} (and back)"));
            }
        }
        for l in 0..starts.len() {
            let e = PositionBuilder::new().at_line_end(l + 1).build(d.rope()).ok().map(|p| p.offset);
            if e != Some(line_end(&t, l)) {
                return Err(format!("line {} ends at {e:?}", l + 1));
            }
        }
        Ok(())
    });
    let m = r.pick(7usize, 10);
    r.stage("ranges", (m as u64).pow(4), |i| {
        let v = mixed(&[m, m, m, m], i);
        r.state(&v);
        range_case(v[0], v[1], v[2], v[3], m)
    });
    r.stage("points", 1, |_| {
        for a in [0usize, 1, 5, usize::MAX - 1, usize::MAX] {
            for n in [0usize, 1, 5, usize::MAX] {
                let p = Position::new(a);
                if p.advance(n).offset != a.saturating_add(n) || p.retreat(n).offset != a.saturating_sub(n) || p.is_start() != (a == 0) {
                    return Err(format!("position {a} moved by {n}"));
                }
                if LineColumn::new(a, n).is_ok() != (a > 0 && n > 0) {
                    return Err(format!("line {a} column {n}"));
                }
            }
        }
        let far = rg(usize::MAX - 1, usize::MAX);
        if far.len() != 1 || !far.contains(Position::new(usize::MAX - 1)) || far.contains(Position::new(usize::MAX)) {
            return Err("range at the far end".into());
        }
        Ok(())
    });
    r.sample("\"a\\r\\né\" line 2 column 2 <-> offset 5");
}
