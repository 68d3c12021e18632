//! E12: search and replace.
use ass_editor::core::{EditorDocument, Position, Range};
use ass_editor::utils::indexing::{FstSearchIndex, LinearSearchIndex};
use ass_editor::utils::search::{DocumentSearch, DocumentSearchImpl, SearchOptions, SearchScope};
use mc_common::*;

type Found = (usize, usize, usize, usize);

fn searches() -> Vec<(&'static str, Box<dyn DocumentSearch>)> {
    vec![("search", Box::new(DocumentSearchImpl::new())), ("word index", Box::new(FstSearchIndex::new())), ("linear index", Box::new(LinearSearchIndex::new()))]
}

fn word(c: Option<char>) -> bool {
    c.is_some_and(|c| c.is_alphanumeric() || c == '_')
}

/// Whether `s..e` does not begin or end inside a word
fn whole(t: &str, s: usize, e: usize) -> bool {
    let cut = |at: usize| word(t[..at].chars().next_back()) && word(t[at..].chars().next());
    !cut(s) && !cut(e)
}

/// Longest match of a small regular expression at the start of a text: (written, what it matches)
type Rx = (&'static str, fn(&str) -> Option<usize>);
const RX: [Rx; 6] = [
    ("a+", |t| match t.len() - t.trim_start_matches('a').len() {
        0 => None,
        n => Some(n),
    }),
    ("a.", |t| {
        let mut c = t.chars();
        (c.next()? == 'a').then_some(())?;
        let n = c.next()?;
        (n != '\n').then_some(1 + n.len_utf8())
    }),
    ("b|ba", |t| t.starts_with('b').then_some(1)),
    ("ab?", |t| if t.starts_with("ab") { Some(2) } else { t.starts_with('a').then_some(1) }),
    ("\\s", |t| t.chars().next().filter(|c| c.is_whitespace()).map(|c| c.len_utf8())),
    ("_|\u{e9}", |t| t.chars().next().filter(|c| "_\u{e9}".contains(*c)).map(|c| c.len_utf8())),
];

/// A pattern: literal text, or one of the expressions
#[derive(Clone, Debug)]
enum Pat {
    Text(String),
    Rx(usize),
}

impl Pat {
    fn written(&self) -> &str {
        match self {
            Pat::Text(s) => s,
            Pat::Rx(k) => RX[*k].0,
        }
    }
    /// End of the occurrence that starts at `s`
    fn at(&self, t: &str, s: usize, to: usize, case: bool) -> Option<usize> {
        match self {
            Pat::Text(p) if p.is_empty() => None,
            Pat::Text(p) => (s..=to).filter(|&e| t.is_char_boundary(e)).find(|&e| {
                if case {
                    &t[s..e] == p
                } else {
                    t[s..e].chars().flat_map(char::to_lowercase).eq(p.chars().flat_map(char::to_lowercase))
                }
            }),
            Pat::Rx(k) => {
                // the letters the expressions name
                let low = t[s..to].replace('A', "a").replace('B', "b").replace('\u{c9}', "\u{e9}");
                (RX[*k].1)(if case { &t[s..to] } else { &low }).map(|n| s + n)
            }
        }
    }
}

/// Parts of the text in scope
fn parts(t: &str, scope: &SearchScope) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    let mut at = 0;
    match scope {
        SearchScope::All => out.push((0, t.len())),
        SearchScope::Range(r) => {
            let s = (r.start.offset..=t.len()).find(|&s| t.is_char_boundary(s));
            let e = (0..=r.end.offset.min(t.len())).rev().find(|&e| t.is_char_boundary(e));
            if let (Some(s), Some(e)) = (s, e) {
                if s < e {
                    out.push((s, e));
                }
            }
        }
        SearchScope::Lines { start, end } => {
            let lines: Vec<&str> = t.split('\n').collect();
            let to = (*end).min(lines.len() - 1);
            if *start <= to {
                at = lines[..*start].iter().map(|l| l.len() + 1).sum();
                out.push((at, at + lines[*start..=to].join("\n").len()));
            }
        }
        SearchScope::Sections(names) => {
            let mut on = false;
            for l in t.split_inclusive('\n') {
                if let Some(n) = l.trim_end().strip_prefix('[').and_then(|l| l.strip_suffix(']')) {
                    on = names.iter().any(|w| w == n || (w == "Styles" && n == "V4+ Styles"));
                }
                if on {
                    match out.last_mut() {
                        Some((_, e)) if *e == at => *e += l.len(),
                        _ => out.push((at, at + l.len())),
                    }
                }
                at += l.len();
            }
        }
    }
    out
}

/// Every occurrence, by looking at each place of the text
fn naive(t: &str, p: &Pat, o: &SearchOptions) -> Vec<Found> {
    let mut out: Vec<Found> = Vec::new();
    for (from, to) in parts(t, &o.scope) {
        let mut s = from;
        while s < to {
            let step = t[s..].chars().next().unwrap().len_utf8();
            let Some(e) = p.at(t, s, to, o.case_sensitive) else {
                s += step;
                continue;
            };
            let ok = !o.whole_words || whole(t, s, e);
            if ok {
                let line = t[..s].matches('\n').count();
                let col = s - t[..s].rfind('\n').map_or(0, |n| n + 1);
                out.push((s, e, line, col));
            }
            // a text that is not a whole word here may be one a letter further on; an expression took its match
            s = if ok || matches!(p, Pat::Rx(_)) { e } else { s + step };
        }
    }
    if o.max_results > 0 {
        out.truncate(o.max_results);
    }
    out
}

fn options(case_sensitive: bool, whole_words: bool, max_results: usize, scope: SearchScope, p: &Pat) -> SearchOptions {
    SearchOptions { case_sensitive, whole_words, max_results, use_regex: matches!(p, Pat::Rx(_)), scope }
}

fn check(name: &str, s: &dyn DocumentSearch, t: &str, p: &Pat, o: &SearchOptions) -> Result<(), String> {
    let got = s.search(p.written(), o).map_err(|e| format!("{name} of {:?} in {t:?} with {o:?}: {e}", p.written()))?;
    let want = naive(t, p, o);
    let at: Vec<Found> = got.iter().map(|g| (g.start.offset, g.end.offset, g.line, g.column)).collect();
    if at != want {
        return Err(format!("{name} of {:?} in {t:?} with {o:?} finds (start, end, line, column) {at:?} instead of {want:?}", p.written()));
    }
    for g in &got {
        let line = t.split('\n').nth(g.line).unwrap_or_default().trim_end_matches('\r');
        if g.text != t[g.start.offset..g.end.offset] || g.context != line {
            return Err(format!("{name} of {:?} in {t:?} shows {:?} in {:?} at {}..{}", p.written(), g.text, g.context, g.start.offset, g.end.offset));
        }
    }
    Ok(())
}

fn replaced(t: &str, found: &[Found], by: &str) -> String {
    let mut out = String::new();
    let mut at = 0;
    for f in found {
        out += &t[at..f.0];
        out += by;
        at = f.1;
    }
    out + &t[at..]
}

fn replace(name: &str, s: &dyn DocumentSearch, doc: &mut EditorDocument, p: &Pat, by: &str, o: &SearchOptions) -> Result<String, String> {
    let t = doc.text();
    let want = naive(&t, p, o);
    let what = format!("{name}: replacing {:?} by {by:?} in {t:?} with {o:?}", p.written());
    let got = s.find_replace(doc, p.written(), by, o).map_err(|e| format!("{what}: {e}"))?;
    let at: Vec<Found> = got.iter().map(|g| (g.start.offset, g.end.offset, g.line, g.column)).collect();
    if at != want {
        return Err(format!("{what} reports {at:?} instead of {want:?}"));
    }
    let now = replaced(&t, &want, by);
    if doc.text() != now {
        return Err(format!("{what} gives {:?} instead of {now:?}", doc.text()));
    }
    Ok(now)
}

const ATOMS: [&str; 10] = ["a", "A", "b", " ", "\n", "_", "\u{e9}", "\u{130}", "\r\n", "\u{c9}"];

const NAMES: [&[&str]; 7] = [&["Events"], &["V4+ Styles"], &["Styles"], &["Events", "V4+ Styles"], &["Script Info"], &["None"], &[]];
const LINES: [&str; 7] = ["a", "[Events]", "[V4+ Styles]", "ab a", "", "[Script Info]", "\u{e9}a"];

pub fn e12(r: &Run) {
    r.rule("a search gives exactly what looking at every place of the current text gives, in order, with range, line, column and context; replacing changes exactly these places");
    r.assume("occurrences do not overlap (leftmost first), case is folded character by character, words are runs of letters, digits and underscores, lines and columns count from 0 and columns are bytes; with whole words, an expression's matches are filtered");
    let short: Vec<Pat> = (0..seq_count(ATOMS.len(), 2)).map(|i| Pat::Text(seq_at(ATOMS.len(), i).into_iter().map(|k| ATOMS[k]).collect())).chain((0..RX.len()).map(Pat::Rx)).collect();
    let abc = ["a", "b", "A", "_", " "];
    let long: Vec<Pat> = (seq_count(5, 2)..seq_count(5, 3)).map(|i| Pat::Text(seq_at(5, i).into_iter().map(|k| abc[k]).collect())).collect();
    let go = |stage: &str, atoms: &[&str], max: usize, pats: &[Pat]| {
        r.stage(stage, seq_count(atoms.len(), max), |i| {
            let t: String = seq_at(atoms.len(), i).into_iter().map(|k| atoms[k]).collect();
            r.state(&t);
            let doc = EditorDocument::from_content(&t).map_err(|e| e.to_string())?;
            for (name, mut s) in searches() {
                s.build_index(&doc).map_err(|e| e.to_string())?;
                for p in pats {
                    for k in 0..8 {
                        // all occurrences, and the first one or two
                        let o = options(k & 1 > 0, k & 2 > 0, if k & 4 > 0 { 1 + i as usize % 2 } else { 0 }, SearchScope::All, p);
                        check(name, s.as_ref(), &t, p, &o)?;
                    }
                }
                r.steps(pats.len() as u64 * 8);
            }
            Ok(())
        });
    };
    go("texts and short patterns", &ATOMS, r.pick(3, 5), &short);
    go("texts and longer patterns", &abc, r.pick(5, 6), &long);
    // scopes: every range of bytes, every range of lines, sections
    r.stage("scopes", seq_count(LINES.len(), 3) * 2, |i| {
        let nl = ["\n", "\r\n"][i as usize % 2];
        let t: String = seq_at(LINES.len(), i / 2).into_iter().map(|k| LINES[k]).collect::<Vec<_>>().join(nl);
        r.state(&t);
        let mut scopes = vec![];
        for s in 0..6 {
            for e in 0..6 {
                scopes.push(SearchScope::Lines { start: s, end: e });
            }
        }
        scopes.push(SearchScope::Lines { start: 1, end: usize::MAX });
        scopes.push(SearchScope::Lines { start: usize::MAX, end: usize::MAX });
        for n in NAMES {
            scopes.push(SearchScope::Sections(n.iter().map(|n| n.to_string()).collect()));
        }
        let n = t.len();
        for s in 0..=n + 1 {
            for e in 0..=n + 1 {
                scopes.push(SearchScope::Range(Range { start: Position::new(s), end: Position::new(e) }));
            }
        }
        let doc = EditorDocument::from_content(&t).map_err(|e| e.to_string())?;
        let pats = [Pat::Text("a".into()), Pat::Text("A\n".replace('\n', nl)), Pat::Text("]".into()), Pat::Text("\u{e9}".into()), Pat::Text("Events".into()), Pat::Rx(0), Pat::Rx(4)];
        for (name, mut s) in searches() {
            s.build_index(&doc).map_err(|e| e.to_string())?;
            for (k, sc) in scopes.iter().enumerate() {
                for (n, p) in pats.iter().enumerate() {
                    if !r.thorough() && matches!(sc, SearchScope::Range(_)) && (k + k / 7) % 7 != n {
                        continue; // each range with one of the patterns
                    }
                    let o = options(k % 2 > 0, k % 3 == 0, [0, 0, 1][k % 5 % 3], sc.clone(), p);
                    check(name, s.as_ref(), &t, p, &o)?;
                }
            }
            r.steps((scopes.len() * pats.len()) as u64);
        }
        Ok(())
    });
    // replacing, in one step that undo takes back
    let by = ["", "a", "aa", "b", "\u{e9}\n", "[x]"];
    r.stage("replacing", seq_count(ATOMS.len(), r.pick(3, 4)), |i| {
        let t: String = seq_at(ATOMS.len(), i).into_iter().map(|k| ATOMS[k]).collect();
        r.state(&t);
        let pats = [Pat::Text("a".into()), Pat::Text("aa".into()), Pat::Text("\u{e9}".into()), Pat::Text(" ".into()), Pat::Text("".into()), Pat::Text("\n".into()), Pat::Rx(0), Pat::Rx(2)];
        for (name, mut s) in searches() {
            let mut doc = EditorDocument::from_content(&t).map_err(|e| e.to_string())?;
            s.build_index(&doc).map_err(|e| e.to_string())?;
            for p in &pats {
                for (k, by) in by.iter().enumerate() {
                    for how in 0..4 {
                        let o = options(how & 1 > 0, how & 2 > 0, [0, 0, 1, 0, 2, 100][k], SearchScope::All, p);
                        let now = replace(name, s.as_ref(), &mut doc, p, by, &o)?;
                        r.steps(1);
                        let mut left = 9;
                        while doc.text() != t && left > 0 && doc.can_undo() {
                            doc.undo().map_err(|e| e.to_string())?;
                            left -= 1;
                        }
                        if doc.text() != t {
                            return Err(format!("{name}: replacing {:?} by {by:?} in {t:?} gave {now:?}, undone {:?}", p.written(), doc.text()));
                        }
                    }
                }
            }
            let o = options(false, false, 0, SearchScope::All, &Pat::Rx(0));
            if s.search("(", &o).is_ok() || s.find_replace(&mut doc, "(", "x", &o).is_ok() || doc.text() != t {
                return Err(format!("{name} takes the expression \"(\" in {t:?}"));
            }
        }
        Ok(())
    });
    // edits between searches; the index is told of them, or built anew, or cleared
    let starts = ["", "a b\nab", "[Events]\nab \u{e9}a", "aab_a"];
    let depth = r.pick(4, 5);
    r.stage("histories", starts.len() as u64 * seq_count(9, depth) * 3, |i| {
        let (which, i) = ((i % 3) as usize, i / 3);
        let seq = seq_at(9, i / starts.len() as u64);
        let start = starts[i as usize % starts.len()];
        let (name, mut s) = searches().swap_remove(which);
        let mut doc = EditorDocument::from_content(start).map_err(|e| e.to_string())?;
        let mut text = start.to_string();
        // what the index was last told: nothing, or a text
        let mut told: Option<String> = None;
        let mut changes: Vec<Range> = vec![];
        let pats = [Pat::Text("a".into()), Pat::Text("ab".into()), Pat::Text("b\na".into()), Pat::Text("\u{c9}a".into()), Pat::Rx(3)];
        let opt = |p: &Pat, k: usize| options(k % 2 > 0, k % 3 == 1, 0, SearchScope::All, p);
        for (n, op) in seq.iter().enumerate() {
            let end = text.len();
            let mut edit = |doc: &mut EditorDocument, text: &mut String, s: usize, e: usize, by: &str| -> Result<(), String> {
                let range = Range::new(Position::new(s), Position::new(e));
                doc.replace(range, by).map_err(|e| e.to_string())?;
                text.replace_range(s..e, by);
                changes.push(range);
                Ok(())
            };
            match op {
                0 => edit(&mut doc, &mut text, 0, 0, "ba")?,
                1 => edit(&mut doc, &mut text, end, end, "\na\u{e9}a")?,
                2 => {
                    if let Some(mid) = text.find('a') {
                        edit(&mut doc, &mut text, mid, mid + 1, "")?
                    }
                }
                3 => edit(&mut doc, &mut text, 0, end, "ab a")?,
                4 | 5 => {
                    let p = &pats[n % 5];
                    let before = text.clone();
                    text = replace(name, s.as_ref(), &mut doc, p, ["ab", "\u{e9}\u{e9}a"][*op - 4], &opt(p, n))?;
                    if text != before {
                        changes.push(Range::new(Position::new(0), Position::new(before.len())));
                    }
                }
                6 => {
                    s.update_index(&doc, &changes).map_err(|e| format!("{name}: {e}"))?;
                    changes.clear();
                    told = Some(text.clone());
                }
                7 => {
                    s.build_index(&doc).map_err(|e| e.to_string())?;
                    changes.clear();
                    told = Some(text.clone());
                }
                _ => {
                    s.clear_index();
                    changes.clear();
                    changes.push(Range::new(Position::new(0), Position::new(0)));
                    told = None;
                }
            }
            r.steps(1);
            if doc.text() != text {
                return Err(format!("the document is {:?} instead of {text:?}", doc.text()));
            }
            let seen = told.clone().unwrap_or_default();
            if told.as_ref() == Some(&text) || told.is_none() {
                for (k, p) in pats.iter().enumerate() {
                    check(name, s.as_ref(), &seen, p, &opt(p, k + n)).map_err(|e| format!("{e} (after {seq:?} from {start:?})"))?;
                }
            }
        }
        r.state(&(which, &text, &told));
        Ok(())
    });
}
