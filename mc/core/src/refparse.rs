//! A deliberately boring line-by-line reference parser for ASS documents,
//! written from the format description, not from the implementation.

pub const STYLE_FORMAT: [&str; 23] = [
    "Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour",
    "Bold", "Italic", "Underline", "StrikeOut", "ScaleX", "ScaleY", "Spacing", "Angle", "BorderStyle",
    "Outline", "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "Encoding",
];
pub const EVENT_FORMAT: [&str; 10] =
    ["Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text"];
pub const STYLE_COLUMNS: [&str; 26] = [
    "Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour",
    "Bold", "Italic", "Underline", "StrikeOut", "ScaleX", "ScaleY", "Spacing", "Angle", "BorderStyle",
    "Outline", "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "Encoding", "MarginT", "MarginB",
    "RelativeTo",
];
pub const EVENT_COLUMNS: [&str; 12] = [
    "Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text", "MarginT", "MarginB",
];

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct RStyle {
    pub line: usize,
    pub parent: Option<String>,
    /// values in STYLE_COLUMNS order; the last three are None without such a column
    pub cols: Vec<Option<String>>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct REvent {
    pub line: usize,
    pub kind: &'static str,
    pub cols: Vec<Option<String>>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct RMedia {
    pub line: usize,
    pub name: String,
    pub data: Vec<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum RSec {
    Info(Vec<(String, String)>),
    Styles(Vec<RStyle>),
    Events(Vec<REvent>),
    Fonts(Vec<RMedia>),
    Graphics(Vec<RMedia>),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct RDoc {
    pub secs: Vec<RSec>,
    /// lines (1-based) that must be reported as problems
    pub problems: Vec<usize>,
    pub script_type: Option<String>,
    /// Format line in force at the end of the last such section
    pub styles_format: Option<Vec<String>>,
    pub events_format: Option<Vec<String>>,
    /// some entry of a kind was read under another format than the one in force at the end
    pub mixed_formats: bool,
}

pub fn is_media(s: &Option<RSec>) -> bool {
    matches!(s, Some(RSec::Fonts(_) | RSec::Graphics(_)))
}

fn columns(fmt: &[String], parts: &[&str], names: &[&str], optional: &[&str]) -> Vec<Option<String>> {
    names
        .iter()
        .map(|n| {
            // SSA spells two columns differently
            let alias = match *n { "Name" if names.len() == 12 => "Actor", "OutlineColour" => "TertiaryColour", _ => n };
            let idx = fmt.iter().position(|f| f.eq_ignore_ascii_case(n)).or_else(|| fmt.iter().position(|f| f.eq_ignore_ascii_case(alias)));
            match idx {
                None if optional.contains(n) => None,
                None => Some(String::new()),
                Some(i) => Some(parts.get(i).map_or("", |s| s.trim()).to_string()),
            }
        })
        .collect()
}

pub fn style_line(data: &str, fmt: &[String], line: usize) -> Option<RStyle> {
    let mut data = data.trim();
    let mut parent = None;
    if data.starts_with('*') {
        if let Some((p, rest)) = data.split_once(',') {
            parent = Some(p.trim_start_matches('*').trim().to_string());
            data = rest;
        }
    }
    let parts: Vec<&str> = data.split(',').collect();
    if parts.len() < fmt.len() {
        return None;
    }
    Some(RStyle { line, parent, cols: columns(fmt, &parts, &STYLE_COLUMNS, &["MarginT", "MarginB", "RelativeTo"]) })
}

pub const KINDS: [&str; 6] = ["Dialogue", "Comment", "Picture", "Sound", "Movie", "Command"];

pub fn event_line(kind: &'static str, data: &str, fmt: &[String], line: usize) -> Option<REvent> {
    let has_text = fmt.iter().any(|f| f.eq_ignore_ascii_case("Text"));
    let parts: Vec<&str> = if has_text { data.trim().splitn(fmt.len(), ',').collect() } else { data.trim().split(',').collect() };
    if parts.len() < fmt.len() {
        return None;
    }
    Some(REvent { line, kind, cols: columns(fmt, &parts, &EVENT_COLUMNS, &["MarginT", "MarginB"]) })
}

pub fn split_format(data: &str) -> Vec<String> {
    data.split(',').map(|s| s.trim().to_string()).collect()
}

pub fn defaults(f: &[&str]) -> Vec<String> {
    f.iter().map(|s| s.to_string()).collect()
}

/// Reference parse of a whole document.
pub fn parse(src: &str) -> RDoc {
    let src = src.strip_prefix('\u{feff}').unwrap_or(src);
    let mut d = RDoc::default();
    let mut cur: Option<RSec> = None; // None: outside any known section
    let mut fmt: Option<Vec<String>> = None;
    let mut open_entry = false; // inside the data lines of an embedded file
    let mut skipping_unknown = true;
    let mut reported_junk = false;
    let flush = |cur: &mut Option<RSec>, fmt: &mut Option<Vec<String>>, d: &mut RDoc| {
        match cur {
            Some(RSec::Styles(s)) => {
                d.styles_format = fmt.take().or_else(|| (!s.is_empty()).then(|| defaults(&STYLE_FORMAT)));
            }
            Some(RSec::Events(_)) => d.events_format = fmt.take(),
            _ => {}
        }
        if let Some(s) = cur.take() {
            d.secs.push(s);
        }
        *fmt = None;
    };
    let (mut used_s, mut used_e): (Vec<Vec<String>>, Vec<Vec<String>>) = (vec![], vec![]);
    for (n, raw) in src.split('\n').enumerate() {
        let line = n + 1;
        let t = raw.trim();
        // encoded data may start with '[': there, and in skipped text, only a complete header counts
        if t.starts_with('[') && (t.contains(']') || !(is_media(&cur) || cur.is_none())) {
            flush(&mut cur, &mut fmt, &mut d);
            open_entry = false;
            skipping_unknown = true;
            reported_junk = true;
            if let Some(end) = t.find(']') {
                match t[1..end].trim() {
                    "Script Info" => cur = Some(RSec::Info(vec![])),
                    "V4+ Styles" | "V4 Styles" | "V4++ Styles" => cur = Some(RSec::Styles(vec![])),
                    "Events" => cur = Some(RSec::Events(vec![])),
                    "Fonts" => cur = Some(RSec::Fonts(vec![])),
                    "Graphics" => cur = Some(RSec::Graphics(vec![])),
                    _ => d.problems.push(line), // unknown section
                }
            } else {
                d.problems.push(line); // unclosed header
            }
            continue;
        }
        let comment = t.starts_with(';') || t.starts_with('#');
        match &mut cur {
            None => {
                // text before the first header is reported once
                if skipping_unknown && !reported_junk && !t.is_empty() && !t.starts_with(';') && !t.starts_with("!:") {
                    d.problems.push(line);
                    reported_junk = true;
                }
            }
            _ if t.is_empty() => open_entry = false,
            Some(RSec::Info(v)) => {
                if comment {
                } else if let Some((k, val)) = t.split_once(':') {
                    let (k, val) = (k.trim(), val.trim());
                    if k == "ScriptType" && ["v4.00", "v4.00+", "v4.00++", "v4.00+ extended"].contains(&val) {
                        d.script_type = Some(val.to_string());
                    }
                    v.push((k.to_string(), val.to_string()));
                } else {
                    d.problems.push(line);
                }
            }
            Some(RSec::Styles(v)) => {
                if comment {
                } else if let Some(f) = t.strip_prefix("Format:") {
                    fmt = Some(split_format(f));
                } else if let Some(data) = t.strip_prefix("Style:") {
                    let f = fmt.clone().unwrap_or_else(|| defaults(&STYLE_FORMAT));
                    let n_cols = {
                        let data = data.trim();
                        let data = if data.starts_with('*') { data.split_once(',').map_or(data, |x| x.1) } else { data };
                        data.split(',').count()
                    };
                    if n_cols != f.len() {
                        d.problems.push(line);
                    }
                    if let Some(s) = style_line(data, &f, line) {
                        v.push(s);
                        used_s.push(f);
                    }
                }
            }
            Some(RSec::Events(v)) => {
                if comment {
                } else if let Some(f) = t.strip_prefix("Format:") {
                    fmt = Some(split_format(f));
                } else if let Some((kind, data)) =
                    KINDS.iter().find_map(|k| t.strip_prefix(k).and_then(|r| r.strip_prefix(':')).map(|r| (*k, r)))
                {
                    let f = fmt.clone().unwrap_or_else(|| defaults(&EVENT_FORMAT));
                    match event_line(kind, data, &f, line) {
                        Some(e) => {
                            v.push(e);
                            used_e.push(f);
                        }
                        None => d.problems.push(line),
                    }
                }
            }
            Some(RSec::Fonts(v)) => media(v, "fontname", t, raw, line, &mut open_entry),
            Some(RSec::Graphics(v)) => media(v, "filename", t, raw, line, &mut open_entry),
        }
    }
    flush(&mut cur, &mut fmt, &mut d);
    let fs = d.styles_format.clone().unwrap_or_else(|| defaults(&STYLE_FORMAT));
    let fe = d.events_format.clone().unwrap_or_else(|| defaults(&EVENT_FORMAT));
    d.mixed_formats = used_s.iter().any(|f| *f != fs) || used_e.iter().any(|f| *f != fe);
    d
}

fn media(v: &mut Vec<RMedia>, key: &str, t: &str, raw: &str, line: usize, open: &mut bool) {
    if let Some((k, name)) = t.split_once(':') {
        if k.trim() == key {
            v.push(RMedia { line, name: name.trim().to_string(), data: vec![] });
            *open = true;
            return;
        }
    }
    if *open {
        if t == "#" || t.starts_with("# ") {
            *open = false; // a comment line ends the data
        } else if !((t.starts_with(';') || t.starts_with('!')) && (t.len() == 1 || t.contains(' '))) {
            v.last_mut().unwrap().data.push(raw.to_string());
        }
    }
}
