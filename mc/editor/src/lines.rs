//! A document as a list of lines; the reference every structured command is
//! compared with. Event lines are built from their fields, so the reference
//! never has to find anything in the text.
use ass_core::utils::parse_ass_time;

pub const COLS: &[&str] = &["Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text"];
pub const COLS2: &[&str] = &["Start", "Style", "End", "Text"];

#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Ev {
    pub indent: &'static str,
    pub kind: String,
    pub sep: &'static str,
    /// (space before, value, space behind)
    pub fields: Vec<(String, String, String)>,
    pub cols: &'static [&'static str],
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Line {
    pub raw: String,
    pub ev: Option<Ev>,
    pub nl: &'static str,
}

#[derive(Clone, Debug, PartialEq, Hash, Default)]
pub struct Doc {
    pub lines: Vec<Line>,
}

impl Ev {
    pub fn body(&self) -> String {
        let f: Vec<String> = self.fields.iter().map(|f| format!("{}{}{}", f.0, f.1, f.2)).collect();
        format!("{}{}{}", self.kind, self.sep, f.join(","))
    }
    pub fn at(&self, col: &str) -> Option<usize> {
        self.cols.iter().position(|c| *c == col)
    }
    pub fn get(&self, col: &str) -> Option<&str> {
        self.at(col).map(|i| self.fields[i].1.as_str())
    }
    pub fn set(&mut self, col: &str, v: &str) -> bool {
        match self.at(col) {
            Some(i) => {
                let (a, _, b) = &self.fields[i];
                self.fields[i] = spaced(&format!("{a}{v}{b}"));
                true
            }
            None => false,
        }
    }
    pub fn time(&self, col: &str) -> Option<u32> {
        parse_ass_time(self.get(col)?).ok()
    }
}

impl Line {
    pub fn raw(s: &str) -> Line {
        Line { raw: s.to_string(), ev: None, nl: "\n" }
    }
    pub fn text(&self) -> String {
        match &self.ev {
            Some(e) => format!("{}{}{}", e.indent, e.body(), self.nl),
            None => format!("{}{}", self.raw, self.nl),
        }
    }
}

impl Doc {
    pub fn text(&self) -> String {
        self.lines.iter().map(Line::text).collect()
    }
    pub fn push_raw(&mut self, s: &str) {
        self.lines.push(Line::raw(s));
    }
    /// lines of the events, in order
    pub fn events(&self) -> Vec<usize> {
        (0..self.lines.len()).filter(|&i| self.lines[i].ev.is_some()).collect()
    }
    pub fn ev(&self, i: usize) -> Option<&Ev> {
        self.events().get(i).map(|&l| self.lines[l].ev.as_ref().unwrap())
    }
    pub fn ev_mut(&mut self, i: usize) -> Option<&mut Ev> {
        let l = *self.events().get(i)?;
        self.lines[l].ev.as_mut()
    }
    pub fn breaks(&mut self, nl: &'static str, last: &'static str) {
        let n = self.lines.len();
        for (i, l) in self.lines.iter_mut().enumerate() {
            l.nl = if i + 1 == n { last } else { nl };
        }
    }
}

/// A field as it is read: the spaces around it do not count.
fn spaced(f: &str) -> (String, String, String) {
    let t = f.trim();
    if t.is_empty() {
        return (String::new(), String::new(), f.to_string());
    }
    let lead = f.len() - f.trim_start().len();
    (f[..lead].to_string(), t.to_string(), f[lead + t.len()..].to_string())
}

pub fn ev(indent: &'static str, kind: &str, sep: &'static str, cols: &'static [&'static str], fields: &[&str]) -> Ev {
    let fields = fields.iter().map(|f| spaced(f)).collect();
    Ev { indent, kind: kind.to_string(), sep, fields, cols }
}

pub fn line(e: Ev) -> Line {
    Line { raw: String::new(), ev: Some(e), nl: "\n" }
}

/// The items documents are made of; an item may open another section.
pub const ITEMS: usize = 12;
pub fn push_item(d: &mut Doc, item: usize, in_events: &mut bool) -> bool {
    let e = match item {
        0 => ev("", "Dialogue", ": ", COLS, &["0", "0:00:01.00", "0:00:03.00", "Default", "", "0", "0", "0", "", "Hello, world"]),
        1 => ev("", "Comment", ": ", COLS, &["0", "0:00:01.00", "0:00:03.00", "Default2", "A", "0", "0", "0", "Fade(1,2)", "Dialogue: x"]),
        2 => ev("", "Dialogue", ":", COLS, &["1", " 0:00:02.00 ", "0:00:04.50", " Default ", "", "0", "7", "0", " fx ", "é{\\an8}[x]"]),
        3 => ev("  ", "Dialogue", ": ", COLS, &["0", "0:00:01.00", "0:00:03.00", "Default", "Default", "0", "0", "0", "a(b", "Default, ,Default,"]),
        4 => ev("", "Dialogue", ": ", COLS, &["0", "bad", "0:00:03.00", "D", "", "0", "0", "0", "", ""]),
        5 => ev("", "Picture", ": ", COLS, &["0", "0:00:01.00", "0:00:03.00", "Default", "", "0", "0", "0", "", "p.bmp"]),
        6 => ev("", "Dialogue", ": ", COLS, &["0", "0:00:03.00", "0:00:01.00", "", "", "0", "0", "0", "x,y", "t"]),
        7 => {
            d.push_raw("");
            return true;
        }
        8 => {
            d.push_raw("; Dialogue: 0,0:00:01.00,0:00:03.00,Default,,0,0,0,,Hello, world");
            return true;
        }
        9 => {
            d.push_raw("[Other]");
            d.push_raw("Dialogue: 0,0:00:01.00,0:00:03.00,Default,,0,0,0,,Hello, world");
            *in_events = false;
            return true;
        }
        10 => {
            if *in_events {
                return false;
            }
            d.push_raw("[Events]");
            d.push_raw("Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text");
            *in_events = true;
            return true;
        }
        _ => {
            // another events section in another format, only at the end
            d.push_raw("[Events]");
            d.push_raw("Format: Start, Style, End, Text");
            d.lines.push(line(ev("", "Dialogue", ": ", COLS2, &["0:00:01.00", "Default", "0:00:09.00", "a,b"])));
            *in_events = false;
            return true;
        }
    };
    if item == 6 {
        // an effect with a comma outside parentheses is two fields
        let mut e = e;
        e.fields[8].1 = "x".into();
        e.fields[9].1 = "y,t".into();
        d.lines.push(line(e));
    } else {
        d.lines.push(line(e));
    }
    *in_events
}

pub const HEAD: &[&str] = &["[Script Info]", "Title: Dialogue: 0,0:00:01.00", "", "[V4+ Styles]", "Format: Name, Fontname", "Style: Default,Arial", "", "[Events]",
    "Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text"];

/// Document number `i` over the items, or `None` if it is not well formed
pub fn doc_at(i: u64) -> Option<Doc> {
    let items = mc_common::seq_at(ITEMS, i);
    let mut d = Doc::default();
    for h in HEAD {
        d.push_raw(h);
    }
    let mut inside = true;
    let n = items.len();
    for (k, it) in items.into_iter().enumerate() {
        if it == 11 && k + 1 != n {
            return None;
        }
        if !push_item(&mut d, it, &mut inside) {
            return None;
        }
    }
    Some(d)
}
