//! E01: edit histories of a document against a plain string.
use ass_editor::core::{EditorDocument, Position, Range};
use ass_editor::commands::DocumentCommandExt;
use mc_common::*;

pub fn doc(text: &str) -> EditorDocument {
    EditorDocument::from_content(text).expect("document of any text")
}
pub fn rg(a: usize, b: usize) -> Range {
    Range { start: Position::new(a), end: Position::new(b) }
}

/// Byte offsets at which lines start: behind every line break of the rope's
/// definition (LF, CR, CRLF, VT, FF, NEL, LS, PS).
pub fn line_starts(s: &str) -> Vec<usize> {
    let mut v = vec![0];
    let mut it = s.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        let next = i + c.len_utf8();
        match c {
            '\r' if it.peek().map(|x| x.1) == Some('\n') => {}
            '\n' | '\r' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}' => v.push(next),
            _ => {}
        }
    }
    v
}
pub fn line_of(s: &str, at: usize) -> usize {
    line_starts(s).iter().rposition(|&b| b <= at).unwrap()
}
/// End of a line, before its whole line break.
pub fn line_end(s: &str, line: usize) -> usize {
    let st = line_starts(s);
    let Some(&next) = st.get(line + 1) else { return s.len() };
    let body = &s[st[line]..next];
    let cut = if body.ends_with("\r\n") { 2 } else { body.chars().last().unwrap().len_utf8() };
    next - cut
}

#[derive(Debug, Clone)]
pub enum Op {
    Insert(usize, usize),
    Delete(usize, usize),
    Replace(usize, usize, usize),
    AtInsert(usize, usize),
    AtDelete(usize, usize),
    AtReplace(usize, usize, usize),
    PosInsert(usize, usize),
    PosLine(usize),
    PosDelete(usize, usize),
    PosBack(usize, usize),
    PosToEnd(usize, usize),
    StartInsert(usize),
    EndInsert(usize),
    LineInsert(usize, usize),
    SelReplace(usize, usize, usize),
    SelDelete(usize, usize),
    SelWrap(usize, usize),
    Indent(usize, usize, usize),
    Unindent(usize, usize, usize),
    CmdInsert(usize, usize, bool),
    CmdDelete(usize, usize, bool),
    CmdReplace(usize, usize, usize, bool),
}
use Op::*;
const TEXTS: [&str; 4] = ["", "x", "é\n", "\r\n"];

fn splice(m: &mut String, a: usize, b: usize, t: &str) -> bool {
    if a > b || b > m.len() || !m.is_char_boundary(a) || !m.is_char_boundary(b) {
        return false;
    }
    m.replace_range(a..b, t);
    true
}

pub fn model(op: &Op, m: &mut String) -> bool {
    match *op {
        Insert(p, t) | AtInsert(p, t) | PosInsert(p, t) | CmdInsert(p, t, _) => splice(m, p, p, TEXTS[t]),
        Delete(a, b) | SelDelete(a, b) | CmdDelete(a, b, _) => splice(m, a, b, ""),
        Replace(a, b, t) | SelReplace(a, b, t) | CmdReplace(a, b, t, _) => splice(m, a, b, TEXTS[t]),
        AtDelete(p, n) | PosDelete(p, n) => splice(m, p, p.saturating_add(n), ""),
        AtReplace(p, n, t) => splice(m, p, p.saturating_add(n), TEXTS[t]),
        PosLine(p) => splice(m, p, p, "\n"),
        PosBack(p, n) => splice(m, p.saturating_sub(n), p, ""),
        PosToEnd(p, t) => {
            if p > m.len() || !m.is_char_boundary(p) {
                return false;
            }
            let e = line_end(m, line_of(m, p)).max(p);
            splice(m, p, e, TEXTS[t])
        }
        StartInsert(t) => splice(m, 0, 0, TEXTS[t]),
        EndInsert(t) => {
            m.push_str(TEXTS[t]);
            true
        }
        LineInsert(l, t) => {
            let st = line_starts(m);
            l <= st.len() && splice(m, st[l - 1], st[l - 1], TEXTS[t])
        }
        SelWrap(a, b) => {
            if !splice(&mut m.clone(), a, b, "") {
                return false;
            }
            m.insert_str(b, "}");
            m.insert_str(a, "{é");
            true
        }
        Indent(a, b, n) | Unindent(a, b, n) => {
            if !splice(&mut m.clone(), a, b, "") {
                return false;
            }
            let st = line_starts(m);
            for l in (line_of(m, a)..=line_of(m, b)).rev() {
                if matches!(op, Indent(..)) {
                    m.insert_str(st[l], &" ".repeat(n));
                } else {
                    let k = m[st[l]..].bytes().take(n).take_while(|c| *c == b' ').count();
                    m.replace_range(st[l]..st[l] + k, "");
                }
            }
            true
        }
    }
}

pub fn real(op: &Op, d: &mut EditorDocument) -> bool {
    let p = Position::new;
    match *op {
        Insert(a, t) => d.insert(p(a), TEXTS[t]).is_ok(),
        Delete(a, b) => d.delete(rg(a, b)).is_ok(),
        Replace(a, b, t) => d.replace(rg(a, b), TEXTS[t]).is_ok(),
        AtInsert(a, t) => d.at(p(a)).insert_text(TEXTS[t]).is_ok(),
        AtDelete(a, n) => d.at(p(a)).delete_range(n).is_ok(),
        AtReplace(a, n, t) => d.at(p(a)).replace_text(n, TEXTS[t]).is_ok(),
        PosInsert(a, t) => d.at_pos(p(a)).insert_text(TEXTS[t]).is_ok(),
        PosLine(a) => d.at_pos(p(a)).insert_line().is_ok(),
        PosDelete(a, n) => d.at_pos(p(a)).delete(n).is_ok(),
        PosBack(a, n) => d.at_pos(p(a)).backspace(n).is_ok(),
        PosToEnd(a, t) => d.at_pos(p(a)).replace_to_line_end(TEXTS[t]).is_ok(),
        StartInsert(t) => d.at_start().insert_text(TEXTS[t]).is_ok(),
        EndInsert(t) => d.at_end().insert_text(TEXTS[t]).is_ok(),
        LineInsert(l, t) => d.at_line(l).and_then(|x| x.insert_text(TEXTS[t])).is_ok(),
        SelReplace(a, b, t) => d.select(rg(a, b)).replace_with(TEXTS[t]).is_ok(),
        SelDelete(a, b) => d.select(rg(a, b)).delete().is_ok(),
        SelWrap(a, b) => d.select(rg(a, b)).wrap_with_tag("{é", "}").is_ok(),
        CmdInsert(a, t, false) => d.insert_at(p(a), TEXTS[t]).is_ok_and(|r| r.success),
        CmdInsert(a, t, true) => d.command().at(p(a)).insert(TEXTS[t]).is_ok_and(|r| r.success),
        CmdDelete(a, b, false) => d.delete_range(rg(a, b)).is_ok_and(|r| r.success),
        CmdDelete(a, b, true) => d.command().range(rg(a, b)).delete().is_ok_and(|r| r.success),
        CmdReplace(a, b, t, false) => d.replace_range(rg(a, b), TEXTS[t]).is_ok_and(|r| r.success),
        CmdReplace(a, b, t, true) => d.command().range(rg(a, b)).replace(TEXTS[t]).is_ok_and(|r| r.success),
        Indent(a, b, n) => d.select(rg(a, b)).indent(n).is_ok(),
        Unindent(a, b, n) => d.select(rg(a, b)).unindent(n).is_ok(),
    }
}

fn same(d: &EditorDocument, m: &str) -> Result<(), String> {
    if d.text() != *m {
        return Err(format!("text {:?}, expected {m:?}", d.text()));
    }
    let lines = line_starts(m).len();
    if (d.len(), d.len_bytes(), d.is_empty(), d.len_lines()) != (m.len(), m.len(), m.is_empty(), lines) {
        return Err(format!("len {} len_bytes {} is_empty {} len_lines {} of {m:?}, expected {} {} lines {lines}", d.len(), d.len_bytes(), d.is_empty(), d.len_lines(), m.len(), m.is_empty()));
    }
    Ok(())
}

fn slices(d: &mut EditorDocument, m: &str) -> Result<(), String> {
    for a in 0..=m.len() + 1 {
        for b in 0..=m.len() + 1 {
            let got = d.text_range(rg(a, b)).ok();
            if got.as_deref() != if a <= b { m.get(a..b) } else { None } {
                return Err(format!("text_range {a}..{b} of {m:?} is {got:?}"));
            }
            let sel = d.select(rg(a, b)).text();
            if got.is_some() && got != Some(sel.clone()) {
                return Err(format!("select {a}..{b} of {m:?} is {sel:?}"));
            }
        }
    }
    Ok(())
}

fn step(op: &Op, d: &mut EditorDocument, m: &mut String) -> Result<(), String> {
    let (before, was) = (m.clone(), d.is_modified());
    let want = model(op, m);
    let got = guard(|| real(op, d)).map_err(|e| format!("{op:?} on {before:?} panics: {e}"))?;
    if want != got {
        return Err(format!("{op:?} on {before:?} succeeds: {got}, expected {want}"));
    }
    same(d, m).map_err(|e| format!("{op:?} on {before:?}: {e}"))?;
    let modified = if before == *m && want { d.is_modified() } else { want || was };
    if d.is_modified() != modified {
        return Err(format!("{op:?} on {before:?} (succeeds: {got}) leaves modified = {}, was {was}", d.is_modified()));
    }
    Ok(())
}

fn core_ops(len: usize, texts: &[usize]) -> Vec<Op> {
    let mut v = vec![];
    for a in 0..=len + 1 {
        for &t in texts {
            v.push(Insert(a, t));
        }
        for b in 0..=len + 1 {
            v.push(Delete(a, b));
            for &t in texts {
                v.push(Replace(a, b, t));
            }
        }
    }
    v
}

fn all_ops(len: usize) -> Vec<Op> {
    let mut v = core_ops(len, &[0, 1, 2, 3]);
    for a in 0..=len + 1 {
        v.push(PosLine(a));
        for t in 0..4 {
            v.extend([AtInsert(a, t), PosInsert(a, t), PosToEnd(a, t), CmdInsert(a, t, t % 2 == 0)]);
        }
        for n in [0, 1, 2, 3, usize::MAX] {
            v.extend([AtDelete(a, n), AtReplace(a, n, 2), PosDelete(a, n), PosBack(a, n)]);
        }
        for b in 0..=len + 1 {
            v.extend([CmdDelete(a, b, a % 2 == 0), CmdReplace(a, b, 2, b % 2 == 0), CmdReplace(a, b, 0, b % 2 == 1), SelReplace(a, b, 2), SelDelete(a, b), SelWrap(a, b), Indent(a, b, 2), Unindent(a, b, 1), Unindent(a, b, 3)]);
        }
    }
    for t in 0..4 {
        v.extend([StartInsert(t), EndInsert(t)]);
        for l in 1..6 {
            v.push(LineInsert(l, t));
        }
    }
    v
}

const DOCS: [&str; 8] = ["", "é", "a\r\nb", " \u{2028}é", "  a\n b\n", "\r\n\r\u{b}", "\u{85}\u{c}", "日\u{1f600}"];

pub fn e01(r: &Run) {
    r.rule("every history of the stated depth over every insert, delete, replace and fluent edit at every byte offset (also inside characters, reversed and past the end) of every start text; after each operation success, text, lengths, lines, slices and the modified flag are compared with a plain string put through the same operations");
    r.assume("lines are counted by the rope's definition: LF, CR, CRLF, VT, FF, NEL, LS and PS end a line");
    // every call once, from every start text and from every text built from two symbols
    let alpha = ["a", "é", "\n", "\r", "\u{2028}", " ", "日"];
    let n = seq_count(alpha.len(), r.pick(3, 4));
    r.stage("every-call", n, |i| {
        let t = string_at(&alpha, i);
        for op in all_ops(t.len()) {
            let (mut d, mut m) = (doc(&t), t.clone());
            step(&op, &mut d, &mut m)?;
            r.state(&m);
            r.steps(1);
        }
        slices(&mut doc(&t), &t)
    });
    // histories: first operation any call, then any plain edit
    let per: Vec<Vec<Op>> = DOCS.iter().map(|d| all_ops(d.len())).collect();
    let total: usize = per.iter().map(Vec::len).sum();
    r.stage("histories", total as u64, |i| {
        let (mut i, mut k) = (i as usize, 0);
        while i >= per[k].len() {
            i -= per[k].len();
            k += 1;
        }
        let first = &per[k][i];
        let (mut d, mut m) = (doc(DOCS[k]), DOCS[k].to_string());
        step(first, &mut d, &mut m)?;
        slices(&mut d, &m)?;
        let after = m.clone();
        let second = if r.thorough() { all_ops(after.len()) } else { core_ops(after.len(), &[1, 2, 3]) };
        for op in second {
            let (mut d, mut m) = (doc(DOCS[k]), DOCS[k].to_string());
            real(first, &mut d);
            model(first, &mut m);
            step(&op, &mut d, &mut m).map_err(|e| format!("from {:?} by {first:?}: {e}", DOCS[k]))?;
            r.state(&m);
            r.steps(2);
            r.traces(1);
        }
        Ok(())
    });
    // longer histories with coarse positions
    let k = 14;
    let depth = r.pick(5, 6);
    r.stage("deep", seq_count(k, depth) * 3, |i| {
        let seq = seq_at(k, i / 3);
        let t = ["", "a\né", "\r\n日"][(i % 3) as usize];
        let (mut d, mut m) = (doc(t), t.to_string());
        for s in seq {
            let l = m.len();
            let op = match s {
                0 => Insert(0, 2),
                1 => Insert(l, 3),
                2 => Insert(l / 2, 1),
                3 => Delete(0, l / 2),
                4 => Delete(l / 2, l),
                5 => Replace(0, l, 2),
                6 => Replace(l / 3, 2 * l / 3, 1),
                7 => PosToEnd(l / 2, 1),
                8 => PosBack(l, 2),
                9 => SelWrap(0, l),
                10 => Indent(0, l, 1),
                11 => Unindent(0, l, 2),
                12 => Delete(l, l + 1),
                _ => Insert(l + 1, 1),
            };
            step(&op, &mut d, &mut m)?;
            r.state(&m);
            r.steps(1);
        }
        r.traces(1);
        Ok(())
    });
    // texts longer than a rope leaf: edits at and around every character boundary
    let big: String = (0..r.pick(120, 500)).map(|i| ["abcdefg é\n", "日本\r\n", "xy"][i % 3]).collect();
    r.stage("large", big.len() as u64 + 2, |i| {
        let p = i as usize;
        for op in [Insert(p, 2), Delete(p, p + 1), Delete(p, p + 700), Replace(p, p + 30, 1), Delete(0, p), Delete(p, big.len()), PosToEnd(p, 0)] {
            let (mut d, mut m) = (doc(&big), big.clone());
            step(&op, &mut d, &mut m)?;
            step(&Insert(m.len() / 2, 3), &mut d, &mut m)?;
            step(&Replace(0, m.len(), 1), &mut d, &mut m)?;
            r.steps(3);
        }
        Ok(())
    });
    r.sample("from \"a\\r\\nb\": select 0..2, indent 2, then replace 1..1 by é");
}
