//! E10: event and style builders.
use ass_core::parser::ast::{Event, Section, Style};
use ass_core::{Script, ScriptVersion};
use ass_editor::core::{EditorDocument, EventBuilder, StyleBuilder};
use mc_common::*;

/// a value of a field, as set and as it must read back
#[derive(Clone, Debug, PartialEq)]
enum V {
    S(String),
    N(u32),
    F(f32),
    B(bool),
}
use V::*;

impl V {
    fn text(&self) -> String {
        match self {
            S(s) => s.clone(),
            N(n) => n.to_string(),
            F(f) => f.to_string(),
            B(b) => if *b { "-1" } else { "0" }.into(),
        }
    }
}

fn s(x: &str) -> V {
    S(x.into())
}

// ---- events

const EV: &[&str] = &["Start", "End", "Style", "Name", "Text", "Layer", "MarginL", "MarginR", "MarginV", "MarginT", "MarginB", "Effect"];
const EV_DEFAULT: &[&str] = &["0:00:00.00", "0:00:05.00", "Default", "", "", "0", "0", "0", "0", "0", "0", ""];
const STD: &[&str] = &["Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text"];
const SSA: &[&str] = &["Marked", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text"];
const PLUS: &[&str] = &["Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "MarginT", "MarginB", "Effect", "Text"];
const EV_FORMATS: &[&[&str]] = &[STD, SSA, STD, STD, STD, PLUS, &["Text"], &["Start", "End", "Text"], &["Effect", "Actor", "End", "Layer", "Text"], &["Text", "Start", "Name"], &["MarginB", "Style", "MarginT", "Start"], &["Text", "Effect"]];

fn ev_value(f: usize, variant: usize) -> V {
    if (5..11).contains(&f) {
        return N([0, 7 + f as u32, u32::MAX - f as u32][variant]);
    }
    let v: [[&str; 3]; 12] = [
        ["0:00:01.50", "0:00:10.00", "9:59:59.99"],
        ["0:00:01.51", "0:00:20.00", "99:00:00.00"],
        ["Main", "Default", "*Alt 2"],
        ["John", "Doe: \"x\"", "é"],
        ["Hi", "a, b,c {\\pos(1,2)}\\N", "Dialogue: 0,0:00:00.00"],
        [""; 3],
        [""; 3],
        [""; 3],
        [""; 3],
        [""; 3],
        [""; 3],
        ["fx", "Banner;5", "Scroll up;1;2;3"],
    ];
    s(v[f][variant])
}

fn set_event<'a>(b: EventBuilder<'a>, f: usize, v: &V) -> EventBuilder<'a> {
    let t = v.text();
    let n = if let N(n) = v { *n } else { 0 };
    match EV[f] {
        "Start" => b.start_time(t),
        "End" => b.end_time(t),
        "Style" => b.style(t),
        "Name" => b.speaker(t),
        "Text" => b.text(t),
        "Layer" => b.layer(n),
        "MarginL" => b.margin_left(n),
        "MarginR" => b.margin_right(n),
        "MarginV" => b.margin_vertical(n),
        "MarginT" => b.margin_top(n),
        "MarginB" => b.margin_bottom(n),
        _ => b.effect(t),
    }
}

fn ev_field<'a>(e: &'a Event, name: &str) -> Option<&'a str> {
    Some(match name {
        "Start" => e.start,
        "End" => e.end,
        "Style" => e.style,
        "Name" | "Actor" => e.name,
        "Text" => e.text,
        "Layer" => e.layer,
        "MarginL" => e.margin_l,
        "MarginR" => e.margin_r,
        "MarginV" => e.margin_v,
        "MarginT" => e.margin_t?,
        "MarginB" => e.margin_b?,
        "Effect" => e.effect,
        _ => return None,
    })
}

fn with_events<T>(text: &str, f: impl FnOnce(&[Event]) -> T) -> Result<T, String> {
    let script = Script::parse(text).map_err(|e| e.to_string())?;
    let all: Vec<Event> = script.sections().iter().filter_map(|x| if let Section::Events(e) = x { Some(e.clone()) } else { None }).flatten().collect();
    Ok(f(&all))
}

fn build_event(kind: usize, fields: &[(usize, V)], how: usize) -> Result<String, String> {
    let mut b = [EventBuilder::new, EventBuilder::dialogue, EventBuilder::comment][kind]();
    for (f, v) in fields {
        b = set_event(b, *f, v);
    }
    guard(|| match how {
        0 => b.build(),
        1 => b.build_with_version(ScriptVersion::SsaV4),
        2 => b.build_with_version(ScriptVersion::AssV4),
        3 => b.build_with_version(ScriptVersion::AssV4Plus),
        h => b.build_with_format(EV_FORMATS[h]),
    })
    .map_err(|e| format!("panics: {e}"))?
    .map_err(|e| format!("refused: {e}"))
}

/// can the value be told from its neighbours in the line
fn fits(field: &str, v: &str, rest: bool) -> Option<bool> {
    if v.contains(['\n', '\r']) {
        return Some(false);
    }
    if v.contains(',') && !rest {
        // how an effect with commas inside parentheses reads is the readers' business
        return if field == "Effect" && v.contains('(') { None } else { Some(false) };
    }
    Some(true)
}

fn event(kind: usize, fields: &[(usize, V)], how: usize) -> Result<(), String> {
    let cols = EV_FORMATS[how];
    let ctx = || format!("{} of {:?} with {cols:?}", ["event", "dialogue", "comment"][kind], fields.iter().map(|(f, v)| (EV[*f], v)).collect::<Vec<_>>());
    let val = |c: &str| {
        let f = EV.iter().position(|e| *e == c || (*e == "Name" && c == "Actor"))?;
        Some(fields.iter().rfind(|(g, _)| *g == f).map_or(EV_DEFAULT[f].to_string(), |(_, v)| v.text()))
    };
    let mut ok = true;
    for (i, c) in cols.iter().enumerate() {
        let Some(v) = val(c) else { continue };
        match fits(c, &v, *c == "Text" && i + 1 == cols.len()) {
            Some(x) => ok &= x,
            None => return build_event(kind, fields, how).map(|_| ()).or_else(|e| if e.starts_with("panics") { Err(format!("{}: {e}", ctx())) } else { Ok(()) }),
        }
    }
    let line = match build_event(kind, fields, how) {
        Ok(l) if ok => l,
        Ok(l) => return Err(format!("{}: makes {l:?}, which cannot hold the values", ctx())),
        Err(e) if e.starts_with("refused") && !ok => return Ok(()),
        Err(e) => return Err(format!("{}: {e}", ctx())),
    };
    let text = format!("[Events]\nFormat: {}\n{line}\nComment: {}\n", cols.join(", "), vec!["q"; cols.len()].join(","));
    with_events(&text, |e| {
        if e.len() != 2 {
            return Err(format!("{}: {line:?} reads as {} events", ctx(), e.len() as i64 - 1));
        }
        if e[0].event_type.as_str() != ["Dialogue", "Dialogue", "Comment"][kind] {
            return Err(format!("{}: {line:?} reads as a {}", ctx(), e[0].event_type.as_str()));
        }
        for c in cols {
            let Some(want) = val(c) else { continue };
            let got = ev_field(&e[0], c);
            if got != Some(&want) {
                return Err(format!("{}: {c} of {line:?} reads {got:?}, set to {want:?}", ctx()));
            }
        }
        Ok(())
    })?
}

// ---- styles

const ST: &[&str] = &["Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "Bold", "Italic", "Underline", "StrikeOut", "ScaleX", "ScaleY", "Spacing", "Angle", "BorderStyle",
    "Outline", "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "Encoding", "MarginT", "MarginB", "RelativeTo"];
const ST_DEFAULT: &[&str] = &["NewStyle", "Arial", "20", "&Hffffff", "&Hff0000", "&H0", "&H0", "0", "0", "0", "0", "100", "100", "0", "0", "1", "2", "0", "2", "10", "10", "10", "1", "0", "0", "0"];
const ST_SSA: &[&str] = &["Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "TertiaryColour", "BackColour", "Bold", "Italic", "BorderStyle", "Outline", "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "AlphaLevel", "Encoding"];
const ST_STD: &[&str] = &["Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "Bold", "Italic", "Underline", "StrikeOut", "ScaleX", "ScaleY", "Spacing", "Angle", "BorderStyle", "Outline",
    "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "Encoding"];
const ST_PLUS: &[&str] = &["Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "Bold", "Italic", "Underline", "StrikeOut", "ScaleX", "ScaleY", "Spacing", "Angle", "BorderStyle", "Outline",
    "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "MarginT", "MarginB", "Encoding", "RelativeTo"];
const ST_FORMATS: &[&[&str]] = &[ST_STD, ST_SSA, ST_STD, ST_PLUS, &["Name"], &["Fontname", "Strikeout", "Name"], &["RelativeTo", "Encoding", "MarginB", "MarginT", "MarginV", "MarginR", "MarginL", "Alignment", "Shadow", "Outline", "Name"],
    &["Angle", "Spacing", "ScaleY", "ScaleX", "StrikeOut", "Underline", "Italic", "Bold", "BackColour", "OutlineColour", "SecondaryColour", "PrimaryColour", "Fontsize", "Name", "BorderStyle"]];

fn st_value(f: usize, variant: usize) -> V {
    match ST[f] {
        "Name" => s(["A", "Sign é 2", "Style: B"][variant]),
        "Fontname" => s(["Times New Roman", "@MS Gothic", "*"][variant]),
        "PrimaryColour" | "SecondaryColour" | "OutlineColour" | "BackColour" => s(&format!("&H{:08X}", [f as u32, 0xFF00_0000 + f as u32, u32::MAX - f as u32][variant])),
        "Bold" | "Italic" | "Underline" | "StrikeOut" => B([true, false, true][variant]),
        "ScaleX" | "ScaleY" | "Spacing" | "Angle" | "Outline" | "Shadow" => F([f as f32 + 0.5, -0.25 * f as f32, 1e7 + f as f32][variant]),
        "RelativeTo" => s(["video", "2", "Window"][variant]),
        _ => N([f as u32 + 1, 0, u32::MAX - f as u32][variant]),
    }
}

fn set_style(b: StyleBuilder, f: usize, v: &V) -> StyleBuilder {
    match (ST[f], v) {
        ("Name", S(t)) => b.name(t),
        ("Fontname", S(t)) => b.font(t),
        ("PrimaryColour", S(t)) => b.color(t),
        ("SecondaryColour", S(t)) => b.secondary_color(t),
        ("OutlineColour", S(t)) => b.outline_color(t),
        ("BackColour", S(t)) => b.back_color(t),
        ("RelativeTo", S(t)) => b.relative_to(t),
        ("Bold", B(x)) => b.bold(*x),
        ("Italic", B(x)) => b.italic(*x),
        ("Underline", B(x)) => b.underline(*x),
        ("StrikeOut", B(x)) => b.strikeout(*x),
        ("ScaleX", F(x)) => b.scale_x(*x),
        ("ScaleY", F(x)) => b.scale_y(*x),
        ("Spacing", F(x)) => b.spacing(*x),
        ("Angle", F(x)) => b.angle(*x),
        ("Outline", F(x)) => b.outline(*x),
        ("Shadow", F(x)) => b.shadow(*x),
        ("Fontsize", N(x)) => b.size(*x),
        ("BorderStyle", N(x)) => b.border_style(*x),
        ("Alignment", N(x)) => b.align(*x),
        ("MarginL", N(x)) => b.margin_left(*x),
        ("MarginR", N(x)) => b.margin_right(*x),
        ("MarginV", N(x)) => b.margin_vertical(*x),
        ("MarginT", N(x)) => b.margin_top(*x),
        ("MarginB", N(x)) => b.margin_bottom(*x),
        ("Encoding", N(x)) => b.encoding(*x),
        x => unreachable!("{x:?}"),
    }
}

fn st_field<'a>(e: &'a Style, name: &str) -> Option<&'a str> {
    Some(match name {
        "Name" => e.name,
        "Fontname" => e.fontname,
        "Fontsize" => e.fontsize,
        "PrimaryColour" => e.primary_colour,
        "SecondaryColour" => e.secondary_colour,
        "OutlineColour" | "TertiaryColour" => e.outline_colour,
        "BackColour" => e.back_colour,
        "Bold" => e.bold,
        "Italic" => e.italic,
        "Underline" => e.underline,
        "StrikeOut" | "Strikeout" => e.strikeout,
        "ScaleX" => e.scale_x,
        "ScaleY" => e.scale_y,
        "Spacing" => e.spacing,
        "Angle" => e.angle,
        "BorderStyle" => e.border_style,
        "Outline" => e.outline,
        "Shadow" => e.shadow,
        "Alignment" => e.alignment,
        "MarginL" => e.margin_l,
        "MarginR" => e.margin_r,
        "MarginV" => e.margin_v,
        "MarginT" => e.margin_t?,
        "MarginB" => e.margin_b?,
        "Encoding" => e.encoding,
        "RelativeTo" => e.relative_to?,
        _ => return None,
    })
}

fn with_styles<T>(text: &str, f: impl FnOnce(&[Style]) -> T) -> Result<T, String> {
    let script = Script::parse(text).map_err(|e| e.to_string())?;
    let all: Vec<Style> = script.sections().iter().filter_map(|x| if let Section::Styles(e) = x { Some(e.clone()) } else { None }).flatten().collect();
    Ok(f(&all))
}

fn build_style(full: bool, fields: &[(usize, V)], how: usize) -> Result<String, String> {
    let mut b = if full { StyleBuilder::default_style() } else { StyleBuilder::new() };
    for (f, v) in fields {
        b = set_style(b, *f, v);
    }
    guard(|| match how {
        0 => b.build(),
        1 => b.build_with_version(ScriptVersion::SsaV4),
        2 => b.build_with_version(ScriptVersion::AssV4),
        3 => b.build_with_version(ScriptVersion::AssV4Plus),
        h => b.build_with_format(ST_FORMATS[h]),
    })
    .map_err(|e| format!("panics: {e}"))?
    .map_err(|e| format!("refused: {e}"))
}

fn style(full: bool, fields: &[(usize, V)], how: usize) -> Result<(), String> {
    let cols = ST_FORMATS[how];
    let ctx = || format!("style of {:?} with {cols:?}", fields.iter().map(|(f, v)| (ST[*f], v)).collect::<Vec<_>>());
    let val = |c: &str| {
        let c = match c {
            "TertiaryColour" => "OutlineColour",
            "Strikeout" => "StrikeOut",
            c => c,
        };
        let f = ST.iter().position(|e| *e == c)?;
        Some(fields.iter().rfind(|(g, _)| *g == f).map_or(ST_DEFAULT[f].to_string(), |(_, v)| v.text()))
    };
    let ok = cols.iter().enumerate().all(|(i, c)| val(c).is_none_or(|v| fits(c, &v, false) == Some(true) && !(i == 0 && v.starts_with('*'))));
    let line = match build_style(full, fields, how) {
        Ok(l) if ok => l,
        Ok(l) => return Err(format!("{}: makes {l:?}, which cannot hold the values", ctx())),
        Err(e) if e.starts_with("refused") && !ok => return Ok(()),
        Err(e) => return Err(format!("{}: {e}", ctx())),
    };
    let format = if cols == ST_STD && fields.len() % 2 == 0 { String::new() } else { format!("Format: {}\n", cols.join(",")) };
    let text = format!("[V4+ Styles]\n{format}{line}\nStyle: {}\n", vec!["q"; cols.len()].join(","));
    with_styles(&text, |e| {
        if e.len() != 2 || e[0].parent.is_some() {
            return Err(format!("{}: {line:?} reads as {} styles, parent {:?}", ctx(), e.len() as i64 - 1, e.first().and_then(|e| e.parent)));
        }
        for c in cols {
            let Some(want) = val(c) else { continue };
            let got = st_field(&e[0], c);
            if got != Some(&want) {
                return Err(format!("{}: {c} of {line:?} reads {got:?}, set to {want:?}", ctx()));
            }
        }
        Ok(())
    })?
}

// ---- documents

const HEADS: &[&str] = &[
    "",
    "[Script Info]\nTitle: x\n",
    "[Script Info]\nTitle: x\n\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n",
    "[V4+ Styles]\nStyle: Old,Arial,20,&Hffffff,&Hff0000,&H0,&H0,0,0,0,0,100,100,0,0,1,2,0,2,10,10,10,1\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\nComment: 0,0:00:00.00,0:00:00.00,Old,,0,0,0,,old",
    "[Events]\r\nDialogue: 0,0:00:00.00,0:00:00.00,Old,,0,0,0,,old\r\n\r\n[Fonts]\r\n",
];

fn all_fields(text: &str) -> Result<Vec<Vec<String>>, String> {
    let mut v: Vec<Vec<String>> = with_events(text, |e| e.iter().map(|e| std::iter::once(e.event_type.as_str()).chain(STD.iter().map(|c| ev_field(e, c).unwrap_or("?"))).map(|s| s.to_string()).collect()).collect())?;
    v.extend(with_styles(text, |e| e.iter().map(|e| std::iter::once("Style").chain(ST_STD.iter().map(|c| st_field(e, c).unwrap_or("?"))).map(|s| s.to_string()).collect()).collect::<Vec<_>>())?);
    v.sort();
    Ok(v)
}

/// add the i-th thing to a document; its fields as they must read
fn add(doc: &mut EditorDocument, i: usize) -> Result<Vec<String>, String> {
    if i < 4 {
        let fields: Vec<(usize, V)> = (0..EV.len()).filter(|f| (i == 1) || f % 4 == i).map(|f| (f, ev_value(f, i % 3))).collect();
        let line = build_event(1 + i % 2, &fields, 0)?;
        doc.add_event_line(&line).map_err(|e| e.to_string())?;
        let mut w = vec![["Dialogue", "Comment"][i % 2].to_string()];
        for c in STD {
            let f = EV.iter().position(|e| e == c).unwrap();
            w.push(fields.iter().find(|(g, _)| *g == f).map_or(EV_DEFAULT[f].to_string(), |(_, v)| v.text()));
        }
        return Ok(w);
    }
    let fields: Vec<(usize, V)> = (0..ST.len()).filter(|f| *f == 0 || f % 3 == i % 3).map(|f| (f, st_value(f, i % 3))).collect();
    if i % 2 == 0 {
        doc.add_style_line(&build_style(false, &fields, 0)?).map_err(|e| e.to_string())?;
    } else {
        let mut b = StyleBuilder::new();
        for (f, v) in &fields[1..] {
            b = set_style(b, *f, v);
        }
        doc.styles().create(&fields[0].1.text(), b).map_err(|e| e.to_string())?;
    }
    let mut w = vec!["Style".to_string()];
    for c in ST_STD {
        let f = ST.iter().position(|e| e == c).unwrap();
        w.push(fields.iter().find(|(g, _)| *g == f).map_or(ST_DEFAULT[f].to_string(), |(_, v)| v.text()));
    }
    Ok(w)
}

fn edit(cols: &[&str], kind: usize, before: usize, fields: &[(usize, V)]) -> Result<(), String> {
    let old: Vec<(usize, V)> = (0..EV.len()).map(|f| (f, ev_value(f, before))).collect();
    let val = |fs: &[(usize, V)], c: &str| {
        let f = EV.iter().position(|e| *e == c || (*e == "Name" && c == "Actor")).unwrap();
        fs.iter().rfind(|(g, _)| *g == f).map(|(_, v)| v.text())
    };
    let line = format!("{}: {}", ["Dialogue", "Comment"][kind], cols.iter().map(|c| val(&old, c).unwrap()).collect::<Vec<_>>().join(","));
    let other = format!("Dialogue: {}", vec!["q"; cols.len()].join(","));
    let text = format!("[Events]\nFormat: {}\n{other}\n{line}\n{other}\n", cols.join(", "));
    let mut doc = EditorDocument::from_content(&text).map_err(|e| e.to_string())?;
    let ctx = || format!("setting {:?} of {line:?} with {cols:?}", fields.iter().map(|(f, v)| (EV[*f], v)).collect::<Vec<_>>());
    let got = guard(|| {
        doc.edit_event_with_builder(1, |mut b| {
            for (f, v) in fields {
                b = set_event(b, *f, v);
            }
            b
        })
    })
    .map_err(|e| format!("{}: panics: {e}", ctx()))?;
    let ok = cols.iter().enumerate().all(|(i, c)| val(fields, c).is_none_or(|v| fits(c, &v, *c == "Text" && i + 1 == cols.len()) == Some(true)));
    let now = doc.text();
    if !ok {
        return if got.is_err() && now == text { Ok(()) } else { Err(format!("{}: {got:?} and leaves {now:?}", ctx())) };
    }
    let new = got.map_err(|e| format!("{}: {e}", ctx()))?;
    if now != text.replacen(&line, &new, 1) {
        return Err(format!("{}: says {new:?}, leaves {now:?}", ctx()));
    }
    with_events(&now, |e| {
        if e.len() != 3 {
            return Err(format!("{}: {} events in {now:?}", ctx(), e.len()));
        }
        for c in cols {
            let want = val(fields, c).or(val(&old, c));
            if ev_field(&e[1], c).map(|s| s.to_string()) != want {
                return Err(format!("{}: {c} reads {:?} in {now:?}, expected {want:?}", ctx(), ev_field(&e[1], c)));
            }
        }
        if e[1].event_type.as_str() != ["Dialogue", "Comment"][kind] {
            return Err(format!("{}: another type in {now:?}", ctx()));
        }
        Ok(())
    })?
}

const STRINGS: &[&str] = &["", "a", "a,b", ",", "a\nb", "\r", "a\r\n[Events]", "*x", "é日", "(a)", "f(1,2)", "a:b", "{\\k1}", "Style: Q", "!x", "; c", "[V4+ Styles]", "Format: x", "a b"];

fn choose(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for i in from..to {
            for f in out[i].last().map_or(0, |l| l + 1)..n {
                let mut v = out[i].clone();
                v.push(f);
                out.push(v);
            }
        }
        from = to;
    }
    out
}

pub fn e10(r: &Run) {
    r.rule("events: every subset of the twelve fields with every value variant, type and format (stage event-fields); every choice of up to the stated number of text fields with every string of the list (commas, line breaks, asterisks, markup, other lines' prefixes), any type and format (event-strings). Styles: every subset of up to the stated number of the 26 fields and its complement (style-fields), every choice of text fields with every string (style-strings). Each line built is read back by the parser behind a matching Format line and before another line. Documents: every sequence of up to the stated number of additions of built events and styles to five documents (documents). Editing: every format, event and pair of fields edited through a builder (edits)");
    r.assume("values do not start or end with whitespace (the parser trims fields); how an effect with commas inside parentheses reads is left open; the default of a field is the one the tests pin");
    let texts: Vec<usize> = vec![0, 1, 2, 3, 4, 11];
    r.stage("event-fields", 1 << EV.len(), |i| {
        let on: Vec<usize> = (0..EV.len()).filter(|f| i >> f & 1 == 1).collect();
        let mut n = 0;
        for variant in 0..3 {
            let fields: Vec<(usize, V)> = on.iter().map(|f| (*f, ev_value(*f, variant))).collect();
            r.state(&format!("{fields:?}"));
            for kind in 0..3 {
                for how in 0..EV_FORMATS.len() {
                    event(kind, &fields, how)?;
                    n += 1;
                }
            }
        }
        r.steps(n);
        r.traces(n);
        Ok(())
    });
    let sets: Vec<Vec<usize>> = choose(texts.len(), r.pick(3, 4));
    r.stage("event-strings", sets.len() as u64, |i| {
        let on = &sets[i as usize];
        let mut n = 0;
        for c in 0..(STRINGS.len() as u64).pow(on.len() as u32) {
            let fields: Vec<(usize, V)> = on.iter().zip(mixed(&vec![STRINGS.len(); on.len()], c)).map(|(f, v)| (texts[*f], s(STRINGS[v]))).collect();
            r.state(&format!("{fields:?}"));
            for kind in 0..3 {
                for how in 0..EV_FORMATS.len() {
                    event(kind, &fields, how)?;
                    n += 1;
                }
            }
        }
        r.steps(n);
        r.traces(n);
        Ok(())
    });
    let sets: Vec<Vec<usize>> = choose(ST.len(), r.pick(4, 6));
    r.stage("style-fields", sets.len() as u64, |i| {
        let mut n = 0;
        for on in [sets[i as usize].clone(), (0..ST.len()).filter(|f| !sets[i as usize].contains(f)).collect()] {
            for variant in 0..3 {
                let fields: Vec<(usize, V)> = on.iter().map(|f| (*f, st_value(*f, variant))).collect();
                r.state(&format!("{fields:?}"));
                for how in 0..ST_FORMATS.len() {
                    style(n % 2 == 0, &fields, how)?;
                    n += 1;
                }
            }
        }
        r.steps(n);
        r.traces(n);
        Ok(())
    });
    let st_texts = [0usize, 1, 3, 6, 25];
    let sets: Vec<Vec<usize>> = choose(st_texts.len(), r.pick(3, 4));
    r.stage("style-strings", sets.len() as u64, |i| {
        let on = &sets[i as usize];
        let mut n = 0;
        for c in 0..(STRINGS.len() as u64).pow(on.len() as u32) {
            let fields: Vec<(usize, V)> = on.iter().zip(mixed(&vec![STRINGS.len(); on.len()], c)).map(|(f, v)| (st_texts[*f], s(STRINGS[v]))).collect();
            r.state(&format!("{fields:?}"));
            for how in 0..ST_FORMATS.len() {
                style(false, &fields, how)?;
                n += 1;
            }
        }
        r.steps(n);
        r.traces(n);
        Ok(())
    });
    let max = r.pick(4, 5);
    r.stage("documents", HEADS.len() as u64 * seq_count(8, max), |i| {
        let head = HEADS[(i % HEADS.len() as u64) as usize];
        let seq = seq_at(8, i / HEADS.len() as u64);
        let mut doc = EditorDocument::from_content(head).map_err(|e| e.to_string())?;
        let mut want = all_fields(head)?;
        let mut named = vec![];
        for a in &seq {
            // creating a style twice is refused, see E07
            if *a >= 4 && a % 2 == 1 && named.contains(&(a % 3)) {
                return Ok(());
            }
            if *a >= 4 {
                named.push(a % 3);
            }
            let before = doc.text();
            let w = guard(|| add(&mut doc, *a)).map_err(|e| format!("adding {a} to {before:?} panics: {e}"))?.map_err(|e| format!("adding {a} to {before:?}: {e}"))?;
            want.push(w);
            want.sort();
            let got = all_fields(&doc.text())?;
            r.state(&doc.text());
            if got != want {
                return Err(format!("adding {a} to {before:?} gives {:?}: reads {got:?}, expected {want:?}", doc.text()));
            }
        }
        r.steps(seq.len() as u64);
        r.traces(1);
        Ok(())
    });
    let formats: Vec<&[&str]> = vec![STD, PLUS, &["Text"], &["Start", "End", "Text"], &["Effect", "Actor", "End", "Layer", "Text"]];
    r.stage("edits", (formats.len() * 2 * 3) as u64, |i| {
        let m = mixed(&[formats.len(), 2, 3], i);
        let mut n = 0;
        for set in choose(EV.len(), r.pick(2, 4)) {
            for c in 0..3u64.pow(set.len() as u32) {
                let fields: Vec<(usize, V)> = set.iter().zip(mixed(&vec![3; set.len()], c)).map(|(f, v)| (*f, ev_value(*f, v))).collect();
                edit(formats[m[0]], m[1], m[2], &fields)?;
                n += 1;
            }
        }
        for f in &texts {
            for t in STRINGS {
                if *f == 11 && t.contains('(') {
                    continue;
                }
                edit(formats[m[0]], m[1], m[2], &[(*f, s(t))])?;
                n += 1;
            }
        }
        r.steps(n);
        r.traces(n);
        Ok(())
    });
}
