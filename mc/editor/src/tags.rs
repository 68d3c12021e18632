//! E06: tag and karaoke commands.
use crate::events::check_range;
use ass_editor::commands::*;
use ass_editor::core::{EditorDocument, Position, Range, Result as EdResult};
use mc_common::*;

#[derive(Clone, Debug, PartialEq)]
enum Part {
    Note(String),
    /// name, arguments, offset of the backslash
    Tag(String, String, usize),
}
use Part::*;

#[derive(Clone, Debug, PartialEq)]
enum Piece {
    Ch(char),
    Block(Vec<Part>),
}
use Piece::*;

fn parts(s: &str, at: usize) -> Vec<Part> {
    let c: Vec<(usize, char)> = s.char_indices().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i].1 != '\\' {
            match out.last_mut() {
                Some(Note(n)) => n.push(c[i].1),
                _ => out.push(Note(c[i].1.to_string())),
            }
            i += 1;
            continue;
        }
        let from = c[i].0;
        let mut name = String::new();
        i += 1;
        while i < c.len() && name != "r" && name != "fn" && (c[i].1.is_ascii_alphabetic() || (name.is_empty() && c[i].1.is_ascii_digit())) {
            name.push(c[i].1);
            i += 1;
        }
        let mut args = String::new();
        let nested = name == "t" && i < c.len() && c[i].1 == '(';
        let mut depth = 0;
        while i < c.len() && (nested || c[i].1 != '\\') {
            args.push(c[i].1);
            depth += (c[i].1 == '(') as i32 - (c[i].1 == ')') as i32;
            i += 1;
            if nested && depth == 0 {
                break;
            }
        }
        out.push(Tag(name, args, at + from));
    }
    out
}

/// pieces of a text; None where braces are nested and blocks are a matter of taste
fn scan(s: &str) -> Option<Vec<Piece>> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        let c = s[i..].chars().next().unwrap();
        if c == '{' {
            let line = &s[i..i + s[i..].find(['\n', '\r']).unwrap_or(s.len() - i)];
            if let Some(e) = line.find('}') {
                if line[1..e].contains('{') {
                    return None;
                }
                out.push(Block(parts(&line[1..e], i + 1)));
                i += e + 1;
                continue;
            }
        }
        out.push(Ch(c));
        i += c.len_utf8();
    }
    Some(out)
}

fn write(p: &[Piece]) -> String {
    let mut s = String::new();
    for p in p {
        match p {
            Ch(c) => s.push(*c),
            Block(b) => {
                s.push('{');
                for q in b {
                    match q {
                        Note(n) => s.push_str(n),
                        Tag(n, a, _) => s.push_str(&format!("\\{n}{a}")),
                    }
                }
                s.push('}');
            }
        }
    }
    s
}

fn karaoke(n: &str) -> bool {
    ["k", "K", "kf", "ko", "kt"].contains(&n)
}

#[derive(Clone, Debug)]
enum Op {
    Insert(&'static str, bool),
    /// pattern, whether empty blocks go
    Remove(Option<&'static str>, bool),
    Replace(&'static str, &'static str, bool),
    Wrap(&'static str, Option<&'static str>),
    Parse,
    Generate(u32, KaraokeType, bool),
    Split(Vec<usize>, Option<u32>),
    Adjust(TimingAdjustment),
    Apply(KaraokeTemplate),
}
use Op::*;

fn ops() -> Vec<Op> {
    use KaraokeTemplate::*;
    use KaraokeType::*;
    use TimingAdjustment::*;
    let mut v = vec![Insert("\\b1", true), Insert("\\b1", false), Insert("{\\i1}", true), Insert(" \\pos(1,2) ", true), Insert("b1", true), Insert("", true)];
    v.push(Remove(None, true));
    v.push(Remove(None, false));
    for p in ["\\b", "\\k", "\\b1", "\\k10", "\\pos", "\\fn", "\\c", "", "b", "é"] {
        v.push(Remove(Some(p), true));
    }
    v.push(Remove(Some("\\b"), false));
    for (a, b) in [("\\b1", "\\b0"), ("\\b", "\\i"), ("\\k10", "\\k7"), ("\\i1", "\\c&H2&\\bord1"), ("\\b0", ""), ("\\t", "\\fad(1,2)"), ("", "\\b1")] {
        v.push(Replace(a, b, false));
        v.push(Replace(a, b, true));
    }
    for o in ["\\b1", "\\i1", "\\u1", "\\s1", "\\bord3", "\\be1", "\\shad1", "\\fs20", "\\c&H1&", "\\1c&H1&", "\\clip(1,2,3,4)"] {
        v.push(Wrap(o, None));
    }
    v.push(Wrap("\\bord3", Some("\\bord0")));
    v.push(Parse);
    for (d, t) in [(50, Standard), (7, Fill), (0, Outline), (u32::MAX, Transition)] {
        v.push(Generate(d, t, true));
        v.push(Generate(d, t, false));
    }
    for p in [vec![], vec![1], vec![2, 1], vec![1, 3, 99], vec![0, 2, 2]] {
        v.push(Split(p.clone(), Some(30)));
        v.push(Split(p, None));
    }
    for a in [Scale(2.0), Scale(0.5), Offset(5), Offset(-20), Offset(i32::MAX), Offset(i32::MIN), SetAll(3), SetAll(100), Custom(vec![]), Custom(vec![100, 1]), Custom(vec![5, 6, 7, 8])] {
        v.push(Adjust(a));
    }
    for t in [
        Equal { syllable_duration: 40, karaoke_type: Fill },
        Beat { beats_per_minute: 120, beats_per_syllable: 0.5, karaoke_type: Standard },
        Beat { beats_per_minute: 0, beats_per_syllable: 0.5, karaoke_type: Standard },
        Pattern { durations: vec![1, 2], karaoke_type: Outline },
        Pattern { durations: vec![], karaoke_type: Outline },
    ] {
        v.push(Apply(t));
    }
    v
}

fn command(op: &Op, g: Range) -> Box<dyn EditorCommand> {
    match op.clone() {
        Insert(t, w) => {
            let c = InsertTagCommand::new(g.start, t.into());
            Box::new(if w { c } else { c.no_auto_wrap() })
        }
        Remove(p, clean) => {
            let mut c = RemoveTagCommand::new(g);
            if let Some(p) = p {
                c = c.pattern(p.into());
            }
            Box::new(if clean { c } else { c.keep_empty_overrides() })
        }
        Replace(a, b, all) => {
            let c = ReplaceTagCommand::new(g, a.into(), b.into());
            Box::new(if all { c.all() } else { c })
        }
        Wrap(o, c) => {
            let w = WrapTagCommand::new(g, o.into());
            Box::new(match c {
                Some(c) => w.closing_tag(c.into()),
                None => w,
            })
        }
        Parse => Box::new(ParseTagCommand::new(g).with_positions()),
        Generate(d, t, auto) => {
            let c = GenerateKaraokeCommand::new(g, d).karaoke_type(t);
            Box::new(if auto { c } else { c.manual_syllables() })
        }
        Split(p, d) => {
            let c = SplitKaraokeCommand::new(g, p);
            Box::new(match d {
                Some(d) => c.duration(d),
                None => c,
            })
        }
        Adjust(a) => Box::new(AdjustKaraokeCommand { range: g, adjustment: a }),
        Apply(t) => Box::new(ApplyKaraokeCommand { event_range: g, karaoke_template: t }),
    }
}

fn fluent(doc: &mut EditorDocument, op: &Op, g: Range) -> Option<EdResult<()>> {
    use KaraokeTemplate::*;
    use TimingAdjustment::*;
    Some(match op.clone() {
        Insert(t, true) => doc.tags().at(g.start).insert(t).map(|_| ()),
        Insert(t, false) => doc.tags().at(g.start).insert_raw(t).map(|_| ()),
        Remove(None, true) => doc.tags().in_range(g).remove_all().map(|_| ()),
        Remove(Some(p), true) => doc.tags().in_range(g).remove_pattern(p).map(|_| ()),
        Remove(..) => return None,
        Op::Replace(a, b, true) => doc.tags().in_range(g).replace_all(a, b).map(|_| ()),
        Op::Replace(a, b, false) => doc.tags().in_range(g).replace(a, b).map(|_| ()),
        Wrap(o, None) => doc.tags().in_range(g).wrap(o).map(|_| ()),
        Wrap(o, Some(c)) => doc.tags().in_range(g).wrap_with(o, c).map(|_| ()),
        Parse => doc.tags().in_range(g).parse().map(|_| ()),
        Generate(d, t, auto) => {
            let k = doc.karaoke().in_range(g).generate(d).karaoke_type(t);
            if auto { k } else { k.manual_syllables() }.execute().map(|_| ())
        }
        Split(p, d) => {
            let k = doc.karaoke().in_range(g).split(p);
            match d {
                Some(d) => k.duration(d),
                None => k,
            }
            .execute()
            .map(|_| ())
        }
        Adjust(a) => {
            let k = doc.karaoke().in_range(g).adjust();
            match a {
                Scale(f) => k.scale(f),
                Offset(o) => k.offset(o),
                SetAll(d) => k.set_all(d),
                Custom(v) => k.custom(v),
            }
            .map(|_| ())
        }
        Apply(t) => {
            let k = doc.karaoke().in_range(g).apply();
            match t {
                Equal { syllable_duration, karaoke_type } => k.equal(syllable_duration, karaoke_type),
                Beat { beats_per_minute, beats_per_syllable, karaoke_type } => k.beat(beats_per_minute, beats_per_syllable, karaoke_type),
                Pattern { durations, karaoke_type } => k.pattern(durations, karaoke_type),
                ImportFrom { source_event_index } => k.import_from(source_event_index),
            }
            .map(|_| ())
        }
    })
}

/// what must become of the text of the range
enum Want {
    Exactly(String),
    Fails,
    /// refused, or as if nothing was asked for
    Nothing,
    Judge(Box<dyn Fn(&str) -> Result<(), String>>),
    /// only the rest of the document is checked
    Open,
}

/// tags in document order, edited
fn edit(p: &mut [Piece], mut f: impl FnMut(&mut Vec<Part>)) {
    for q in p {
        if let Block(b) = q {
            f(b);
        }
    }
}

fn fits(pat: &str, n: &str, a: &str) -> bool {
    match &parts(pat, 0)[..] {
        [Tag(pn, pa, _)] => pn == n && (pa.is_empty() || pa == a),
        _ => false,
    }
}

/// visible characters and the parts between them
fn gaps(p: &[Piece]) -> (Vec<char>, Vec<Vec<Part>>) {
    let (mut c, mut g) = (vec![], vec![vec![]]);
    for q in p {
        match q {
            Ch(x) => {
                c.push(*x);
                g.push(vec![]);
            }
            Block(b) => {
                for t in b {
                    g.last_mut().unwrap().push(match t {
                        Tag(n, a, _) => Tag(n.clone(), a.clone(), 0),
                        n => n.clone(),
                    });
                }
            }
        }
    }
    (c, g)
}

type KTag = (String, String);

fn parted(g: &[Part]) -> (Vec<Part>, Vec<KTag>) {
    let mut rest = vec![];
    let mut k = vec![];
    for t in g {
        match t {
            Tag(n, a, _) if karaoke(n) => k.push((n.clone(), a.clone())),
            t => rest.push(t.clone()),
        }
    }
    (rest, k)
}

/// the same text and other tags; what happened to the karaoke tags of each gap
fn karaoke_of(old: &[Piece], new: &str) -> Result<(Vec<char>, Vec<Vec<KTag>>, Vec<Vec<KTag>>), String> {
    let n = scan(new).ok_or("nested braces")?;
    if n.iter().any(|p| *p == Block(vec![])) && !old.contains(&Block(vec![])) {
        return Err("leaves an empty block".into());
    }
    let ((c0, g0), (c1, g1)) = (gaps(old), gaps(&n));
    if c0 != c1 {
        return Err("the text itself changed".into());
    }
    let (mut k0, mut k1) = (vec![], vec![]);
    for (a, b) in g0.iter().zip(&g1) {
        let ((ra, ka), (rb, kb)) = (parted(a), parted(b));
        if ra != rb {
            return Err("other tags changed".into());
        }
        k0.push(ka);
        k1.push(kb);
    }
    Ok((c0, k0, k1))
}

fn word_start(c: &[char], i: usize) -> bool {
    i < c.len() && !c[i].is_whitespace() && (i == 0 || c[i - 1].is_whitespace())
}

fn closing(open: &str) -> String {
    match &parts(open, 0)[..] {
        [Tag(n, ..)] if ["b", "i", "u", "s"].contains(&n.as_str()) => format!("\\{n}0"),
        [Tag(n, ..)] if n == "c" || n == "1c" => "\\c".into(),
        _ => "\\r".into(),
    }
}

fn tag_name(t: KaraokeType) -> &'static str {
    match t {
        KaraokeType::Standard => "k",
        KaraokeType::Fill => "kf",
        KaraokeType::Outline => "ko",
        KaraokeType::Transition => "kt",
    }
}

fn want(op: &Op, text: &str, inside: bool) -> Want {
    let Some(p) = scan(text) else { return Want::Open };
    // a remark between a value and the next tag: whose it is is left open
    let odd = |b: &Vec<Part>| b.iter().any(|t| matches!(t, Tag(n, a, _) if n.starts_with('b') && (n.len() > 4 || a.parse::<u32>().is_err())));
    if !matches!(op, Parse | Insert(..) | Wrap(..)) && p.iter().any(|x| matches!(x, Block(b) if odd(b))) {
        return Want::Open;
    }
    let mut q = p.clone();
    let bare = text.contains('{') && p.contains(&Ch('{'));
    match op {
        Insert("" | "b1", _) => Want::Fails,
        Insert(t, w) => {
            let t = t.trim();
            Want::Exactly(if *w && !t.starts_with('{') { format!("{{{t}}}{text}") } else { format!("{t}{text}") })
        }
        Remove(Some("" | "é"), _) => Want::Nothing,
        Remove(Some("b"), _) => Want::Open,
        Remove(pat, clean) => {
            let mut keep = vec![];
            for x in &mut q {
                let Block(b) = x else {
                    keep.push(true);
                    continue;
                };
                match pat {
                    // whether a remark goes with the tags is left open
                    None if b.iter().any(|t| matches!(t, Note(_))) => return Want::Open,
                    None => b.clear(),
                    Some(pat) => b.retain(|t| !matches!(t, Tag(n, a, _) if fits(pat, n, a))),
                }
                keep.push(!b.is_empty() || !clean);
            }
            let mut k = keep.into_iter();
            q.retain(|_| k.next().unwrap());
            Want::Exactly(write(&q))
        }
        Op::Replace("", ..) => Want::Nothing,
        Op::Replace(find, with, all) => {
            let mut made = 0;
            let keeps = matches!((&parts(find, 0)[..], &parts(with, 0)[..]), ([Tag(_, a, _)], [Tag(_, b, _)]) if a.is_empty() && b.is_empty());
            edit(&mut q, |b| {
                for t in b {
                    if let Tag(n, a, _) = t {
                        if fits(find, n, a) && (*all || made == 0) {
                            made += 1;
                            *t = Note(if keeps { format!("{with}{a}") } else { with.to_string() });
                        }
                    }
                }
            });
            Want::Exactly(write(&q))
        }
        Wrap(o, c) => Want::Exactly(format!("{{{o}}}{text}{{{}}}", c.map_or(closing(o), |c| c.to_string()))),
        Parse => Want::Exactly(text.into()),
        Generate(..) if text.contains(['{', '}']) => Want::Fails,
        Generate(..) if inside => Want::Open,
        Generate(d, t, auto) => {
            let (d, t, auto) = (d.to_string(), tag_name(*t), *auto);
            Want::Judge(Box::new(move |new| {
                let (c, _, k) = karaoke_of(&p, new)?;
                for (i, k) in k.iter().enumerate() {
                    if k.iter().any(|k| *k != (t.to_string(), d.clone())) || k.len() > 1 {
                        return Err("a tag that was not asked for".into());
                    }
                    if k.len() != 1 && i == 0 {
                        return Err("no tag at the start".into());
                    }
                    if !k.is_empty() && i > 0 && (!auto || c[i - 1] == '\\' || c[i..].iter().all(|c| c.is_whitespace())) {
                        return Err("a tag where no syllable starts".into());
                    }
                }
                // every word starts a syllable, with or without the space before it
                let mut seen = false;
                for i in 0..c.len() {
                    seen |= !k[i].is_empty();
                    if auto && word_start(&c, i) && !seen {
                        return Err("a word without a syllable of its own".into());
                    }
                    if !c[i].is_whitespace() {
                        seen = false;
                    }
                }
                Ok(())
            }))
        }
        Split(..) | Apply(_) if bare || inside => Want::Open,
        Split(at, d) => {
            let (at, d) = (at.clone(), d.map(|d| d.to_string()));
            Want::Judge(Box::new(move |new| {
                let (c, k0, k1) = karaoke_of(&p, new)?;
                for i in 0..k1.len() {
                    let here = i < c.len() && (i == 0 || (at.contains(&i) && c[i - 1] != '\\'));
                    if !here {
                        if k0[i] != k1[i] {
                            return Err("timing changed where nothing was to be split".into());
                        }
                        continue;
                    }
                    let Some((n, a)) = k1[i].last() else { return Err(format!("no tag at {i}")) };
                    if d.as_ref().map_or(a.parse::<u32>().is_err(), |d| a != d) || k1[i].len() != k0[i].len().max(1) || (k0[i].is_empty() && n != "k") {
                        return Err(format!("tags {:?} at {i}", k1[i]));
                    }
                }
                Ok(())
            }))
        }
        Adjust(how) => {
            let mut at = 0;
            edit(&mut q, |b| {
                for t in b {
                    let Tag(n, a, _) = t else { continue };
                    let (true, Ok(d)) = (karaoke(n), a.parse::<u32>()) else { continue };
                    let new: i64 = match how {
                        TimingAdjustment::Scale(f) => ((d as f64 * *f as f64) as i64).max(1),
                        TimingAdjustment::Offset(o) => (d as i64 + *o as i64).max(1),
                        TimingAdjustment::SetAll(d) => *d as i64,
                        TimingAdjustment::Custom(v) => v.get(at).map_or(d as i64, |d| *d as i64),
                    };
                    at += 1;
                    *a = new.to_string();
                }
            });
            // half a centisecond may go either way
            if matches!(how, TimingAdjustment::Scale(f) if *f == 0.5) {
                let mut odd = false;
                edit(&mut p.clone(), |b| odd |= b.iter().any(|t| matches!(t, Tag(n, a, _) if karaoke(n) && a.parse::<u32>().is_ok_and(|d| d % 2 == 1))));
                if odd {
                    let low = write(&q);
                    return Want::Judge(Box::new(move |new| {
                        let digits = |s: &str| s.replace(['3', '4'], "#");
                        (digits(new) == digits(&low)).then_some(()).ok_or("not the scaled text".to_string())
                    }));
                }
            }
            Want::Exactly(write(&q))
        }
        Apply(t) => {
            let (k, d) = match t {
                KaraokeTemplate::Equal { syllable_duration, karaoke_type } => (*karaoke_type, vec![*syllable_duration]),
                KaraokeTemplate::Beat { beats_per_minute: 120, karaoke_type, .. } => (*karaoke_type, vec![25]),
                KaraokeTemplate::Pattern { durations, karaoke_type } => (*karaoke_type, durations.clone()),
                _ => (KaraokeType::Standard, vec![]),
            };
            if d.is_empty() {
                return Want::Fails;
            }
            let k = tag_name(k);
            Want::Judge(Box::new(move |new| {
                let (c, _, k1) = karaoke_of(&p, new)?;
                let mut next = 0;
                for i in 0..k1.len() {
                    let mut tags = vec![];
                    if word_start(&c, i) {
                        tags.push((k.to_string(), d[next % d.len()].to_string()));
                        next += 1;
                    }
                    if k1[i] != tags {
                        return Err(format!("tags {:?} before character {i}, expected {tags:?}", k1[i]));
                    }
                }
                Ok(())
            }))
        }
    }
}

fn parsed(text: &str, at: usize) -> Option<Vec<ParsedTag>> {
    let mut out = vec![];
    for p in scan(text)? {
        let Block(b) = p else { continue };
        for t in b {
            let Tag(n, a, pos) = t else { continue };
            let (mut tag, mut parameters) = (format!("\\{n}{a}"), vec![]);
            if a.starts_with('(') && a.ends_with(')') {
                tag = format!("\\{n}");
                parameters = match &a[..] {
                    "(0,10,\\b1\\k10)" => vec!["0".into(), "10".into(), "\\b1\\k10".into()],
                    "(\\clip(1,2))" => vec!["\\clip(1,2)".into()],
                    _ => a[1..a.len() - 1].split(',').map(|s| s.to_string()).collect(),
                };
            }
            out.push(ParsedTag { tag, position: Some(Position::new(at + pos)), parameters });
        }
    }
    Some(out)
}

const TOKENS: &[&str] = &[
    "a", " ", "é", "\\N", "\n", "}", "{\\b1", "{\\b1}", "{\\bord2}", "{\\b1\\i1\\b0}", "{\\k10}", "{\\k10\\k100}", "{\\b1\\kf7}", "{note\\b1}", "{\\t(0,10,\\b1\\k10)}", "{\\K7}", "{\\pos(1,2)\\t(\\clip(1,2))}",
    "{\\fnArial\\c&H1&}",
];
const PRE: &str = "[Events]\nFormat: Text\nDialogue: {\\b1\\k9}x";
const POST: &str = "y{\\b1\\k9}\n";

#[derive(Clone, Copy, PartialEq)]
enum How {
    Direct,
    Executed,
    Fluent,
}

fn one(base: &str, text: &str, a: usize, b: usize, op: &Op, how: How) -> Result<(), String> {
    let whole = format!("{base}{text}{POST}");
    let mut doc = EditorDocument::from_content(&whole).map_err(|e| e.to_string())?;
    let g = Range { start: Position::new(base.len() + a), end: Position::new(base.len() + b) };
    let ctx = || format!("{op:?} on {a}..{b} of {text:?}");
    let got = guard(|| match how {
        How::Direct => command(op, g).execute(&mut doc).map(Some),
        How::Executed => doc.execute_command(&*command(op, g)).map(Some),
        How::Fluent => match fluent(&mut doc, op, g) {
            Some(x) => x.map(|_| None),
            None => command(op, g).execute(&mut doc).map(Some),
        },
    })
    .map_err(|e| format!("{}: panics: {e}", ctx()))?;
    let now = doc.text();
    let point = matches!(op, Insert(..));
    let slice = if point { text.get(a..) } else { text.get(a..b) };
    let Some(slice) = slice.filter(|_| point || a <= b) else {
        // no such range
        if got.is_ok() || now != whole {
            return Err(format!("{}: there is no such range, but {:?}", ctx(), now));
        }
        return Ok(());
    };
    let r = match got {
        Err(_) if now != whole => return Err(format!("{}: fails but leaves {now:?}", ctx())),
        Err(e) => {
            return match want(op, slice, inside(text, a) || inside(text, b)) {
                Want::Fails | Want::Nothing | Want::Open => Ok(()),
                _ => Err(format!("{}: fails: {e}", ctx())),
            }
        }
        Ok(r) => r,
    };
    if let Some(r) = &r {
        check_range(&whole, &now, r).map_err(|e| format!("{} gives {now:?}: {e}", ctx()))?;
    }
    let tail = if point { POST.to_string() } else { format!("{}{POST}", &text[b..]) };
    let head = &whole[..base.len() + a];
    let Some(new) = now.strip_prefix(head).and_then(|n| n.strip_suffix(&tail)) else {
        return Err(format!("{} changes the text outside: {now:?}", ctx()));
    };
    match want(op, slice, inside(text, a) || inside(text, b)) {
        Want::Exactly(w) if new != w => Err(format!("{} gives {new:?}, expected {w:?}", ctx())),
        Want::Nothing if new != slice => Err(format!("{} gives {new:?}", ctx())),
        Want::Fails => Err(format!("{} succeeds with {new:?}", ctx())),
        Want::Judge(f) => f(new).map_err(|e| format!("{} gives {new:?}: {e}", ctx())),
        _ => Ok(()),
    }?;
    if matches!(op, Parse) {
        let w = parsed(slice, base.len() + a);
        let c = ParseTagCommand::new(g).with_positions().parse_tags_from_text(slice).map_err(|e| e.to_string())?;
        let f = doc.tags().in_range(g).parse().map_err(|e| e.to_string())?;
        if w.as_ref().is_some_and(|w| c != *w) || c != f {
            return Err(format!("{} gives {c:?}, {f:?}, expected {w:?}", ctx()));
        }
        if let (Some(m), Some(w)) = (r.and_then(|r| r.message), w) {
            if !m.contains(&w.len().to_string()) {
                return Err(format!("{} says {m:?}", ctx()));
            }
        }
    } else if how == How::Executed {
        if now != whole || doc.can_undo() {
            doc.undo().map_err(|e| format!("{}: no undo: {e}", ctx()))?;
        }
        if doc.text() != whole {
            return Err(format!("{}: undo leaves {:?}", ctx(), doc.text()));
        }
    }
    Ok(())
}

fn inside(text: &str, at: usize) -> bool {
    let before = &text[..at];
    let line = before.rfind('\n').map_or(0, |p| p + 1);
    match before[line..].rfind('{') {
        Some(p) => !before[line + p..].contains('}'),
        None => false,
    }
}

fn text_at(i: u64) -> (String, Vec<usize>) {
    let mut s = String::new();
    let mut at = vec![0];
    for t in seq_at(TOKENS.len(), i) {
        s.push_str(TOKENS[t]);
        at.push(s.len());
    }
    (s, at)
}

pub fn e06(r: &Run) {
    r.rule("every text of up to the stated number of pieces (letters, spaces, a two-byte letter, an escape, a line break, a closing brace without an opening one and the reverse, and override blocks whose tags are prefixes of one another, karaoke tags of several kinds whose durations are prefixes of one another, remarks, nested and parenthesised tags) between neighbours that hold the same tags; on it every tag and karaoke command of the list with every pair of byte offsets (stage ranges; also reversed, inside characters and blocks, and behind the end) or every pair of piece borders (stage pieces); compared with a parser of blocks written for the check. Removing, replacing, inserting, wrapping and adjusting are compared exactly; generating, splitting and applying karaoke may place their tags among other tags of the same place as they like");
    r.assume("left open: nested braces, inserting karaoke inside a block or behind a brace that is never closed, whether remarks go when all tags are removed, patterns without a backslash, importing karaoke from another event (a stub), merging when wrapping");
    let list = ops();
    r.stage("ranges", seq_count(TOKENS.len(), r.pick(1, 2)), |i| {
        let (t, _) = text_at(i);
        r.state(&t);
        let mut n = 0;
        for a in 0..=t.len() + 1 {
            for b in 0..=t.len() + 1 {
                let over = |x: usize| if x > t.len() { x + POST.len() } else { x };
                for op in &list {
                    if matches!(op, Insert(..)) && b != a {
                        continue;
                    }
                    one(PRE, &t, over(a), over(b), op, How::Direct)?;
                    n += 1;
                }
            }
        }
        r.steps(n);
        r.traces(n);
        Ok(())
    });
    for (name, how, max) in [("pieces", How::Executed, r.pick(3, 4)), ("fluent", How::Fluent, r.pick(2, 3)), ("bare", How::Direct, r.pick(2, 3))] {
        r.stage(name, seq_count(TOKENS.len(), max), |i| {
            let (t, at) = text_at(i);
            r.state(&t);
            let mut n = 0;
            for (x, a) in at.iter().enumerate() {
                for b in &at[x..] {
                    for op in &list {
                        if matches!(op, Insert(..)) && b != a {
                            continue;
                        }
                        one(if name == "bare" { "" } else { PRE }, &t, *a, *b, op, how)?;
                        n += 1;
                    }
                }
            }
            r.steps(n);
            r.traces(n);
            Ok(())
        });
    }
}
