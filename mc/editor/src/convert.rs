//! E11: SubRip and WebVTT.
use ass_core::analysis::events::TextAnalysis;
use ass_core::parser::ast::{EventType, Section};
use ass_core::parser::Script;
use ass_core::utils::{format_ass_time, parse_ass_time};
use ass_editor::core::EditorDocument;
use ass_editor::formats::{srt::SrtFormat, webvtt::WebVttFormat, FormatExporter, FormatImporter, FormatOptions as Plain};
use ass_editor::utils::{ConversionOptions, FormatConverter, FormatOptions, SubtitleFormat};
use mc_common::*;

/// start, end and visible lines of a cue
type Cue = (u32, u32, Vec<String>);

fn lines_of(visible: &str) -> Vec<String> {
    visible.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()
}

/// The dialogue events of a script as cues
fn cues_of(text: &str) -> Result<Vec<Cue>, String> {
    let script = Script::parse(text).map_err(|e| e.to_string())?;
    let mut all = Vec::new();
    for s in script.sections() {
        let Section::Events(events) = s else { continue };
        for e in events.iter().filter(|e| e.event_type == EventType::Dialogue) {
            let time = |t: &str| parse_ass_time(t).map_err(|x| format!("{x} in {text:?}"));
            let visible = TextAnalysis::analyze(e.text).map_err(|e| e.to_string())?;
            all.push((time(e.start)?, time(e.end)?, lines_of(visible.plain_text())));
        }
    }
    Ok(all)
}

/// Importing by the format classes (0) and by the converter (1); `None` if refused
fn import(vtt: bool, way: u8, content: &str) -> Result<Option<String>, String> {
    guard(|| match (way, vtt) {
        (0, false) => SrtFormat::new().import_from_string(content, &Plain::default()).ok().map(|d| d.0.text()),
        (0, true) => WebVttFormat::new().import_from_string(content, &Plain::default()).ok().map(|d| d.0.text()),
        (1, v) => FormatConverter::import(content, Some(if v { SubtitleFormat::WebVTT } else { SubtitleFormat::SRT })).ok(),
        _ => FormatConverter::import(content, None).ok(),
    })
    .map_err(|e| format!("importing {content:?} panics: {e}"))
}

fn export(vtt: bool, way: u8, doc: &EditorDocument) -> Result<String, String> {
    let mut o = ConversionOptions::default();
    let f = if vtt { SubtitleFormat::WebVTT } else { SubtitleFormat::SRT };
    guard(|| match (way, vtt) {
        (0, false) => SrtFormat::new().export_to_string(doc, &Plain::default()).map(|r| r.0),
        (0, true) => WebVttFormat::new().export_to_string(doc, &Plain::default()).map(|r| r.0),
        (1, _) => FormatConverter::export(doc, f, &o),
        (2, _) => {
            o.strip_formatting = true;
            FormatConverter::export(doc, f, &o)
        }
        _ => {
            o.format_options = if vtt { FormatOptions::WebVTT { include_style_block: true, include_notes: true, use_cue_settings: true } } else { FormatOptions::SRT { include_numbers: true, millisecond_precision: true } };
            FormatConverter::export(doc, f, &o)
        }
    })
    .map_err(|e| format!("exporting {:?} panics: {e}", doc.text()))?
    .map_err(|e| e.to_string())
}

/// A block of a file: its lines, what it means, and whether its times are unreadable
struct Block {
    text: &'static str,
    cue: Option<(u32, u32, &'static [&'static str])>,
    bad: bool,
}

const fn cue(text: &'static str, from: u32, to: u32, lines: &'static [&'static str]) -> Block {
    Block { text, cue: Some((from, to, lines)), bad: false }
}

const fn junk(text: &'static str, bad: bool) -> Block {
    Block { text, cue: None, bad }
}

fn srt_blocks() -> Vec<Block> {
    vec![
        cue("1\n00:00:01,000 --> 00:00:02,500\nHello", 100, 250, &["Hello"]),
        cue("2\n00:00:01,009 --> 00:00:01,019\n<i>It</i>\nsecond line", 100, 101, &["It", "second line"]),
        cue("0003\n00:00:09,999 --> 00:01:00,000\n42\n7", 999, 6000, &["42", "7"]),
        cue("4\n10:00:00,000 --> 100:59:59,999\na, b,c", 3_600_000, 36_359_999, &["a, b,c"]),
        cue("5\n0:00:01,000 --> 1:02:03,990\n\u{e9} \u{2603}", 100, 372_399, &["\u{e9} \u{2603}"]),
        cue("6\n00:00:05,000 --> 00:00:06,000 X1:40 X2:600 Y1:20 Y2:50\nplaced", 500, 600, &["placed"]),
        cue("7\n00:00:05,000 --> 00:00:05,000\nstill\na --> b", 500, 500, &["still", "a --> b"]),
        cue("8\n00:00:07,120-->00:00:08,340\n<font color=\"#FF0000\">r</font> <b>b</b><u>u</u> <font face=\"X\">f</font>", 712, 834, &["r bu f"]),
        cue("9\n00:00:08,000 --> 00:00:07,000\n  wide  ", 800, 700, &["wide"]),
        junk("42", false),
        junk("some words\nin two lines", false),
        junk("3\n00:00:xx,000 --> 00:00:02,000\nbad", true),
        junk("4\n00:00:01,000 -->\nbad", true),
        junk("5\n00:00:01,000 --> 00:99:01,000\nbad", true),
    ]
}

fn vtt_blocks() -> Vec<Block> {
    vec![
        cue("00:00:01.000 --> 00:00:02.500\nHello", 100, 250, &["Hello"]),
        cue("name of it\n00:01.009 --> 59:00.019\n<i>It</i>\nsecond line", 100, 354_001, &["It", "second line"]),
        cue("1\n100:00:00.000 --> 100:00:01.999 align:start position:10%\nNOTE is text\nWEBVTT too", 36_000_000, 36_000_199, &["NOTE is text", "WEBVTT too"]),
        cue("NOTES\n00:00:03.000 --> 00:00:04.000\n42", 300, 400, &["42"]),
        cue("2\n00:00:05.120 --> 00:00:06.340 line:0 position:0.5 align:end\n<v Bob>Hi <c.yellow>y</c> <b>b</b>", 512, 634, &["Hi y b"]),
        cue("00:00:07.000-->00:00:08.000\n<00:00:07.500>x <lang en>l</lang>, \u{2603}", 700, 800, &["x l, \u{2603}"]),
        cue("00:08.000 --> 00:07.000\t\n  wide  ", 800, 700, &["wide"]),
        cue("00:09.000 --> 00:10.000 line:-1,end\n<v.loud Mary>one</v>\n<v Ann>two</v>", 900, 1000, &["one", "two"]),
        junk("NOTE a comment", false),
        junk("NOTE\nlong comment\nof lines", false),
        junk("STYLE\n::cue {\n color: red\n}", false),
        junk("words", false),
        junk("00:00:xx.000 --> 00:00:02.000\nbad", true),
        junk("00:01.000 -->\nbad", true),
        junk("00:01.000 --> 61:99.000\nbad", true),
    ]
}

fn import_case(run: &Run, vtt: bool, picks: &[&Block], flavour: u64) -> Result<(), String> {
    let gap = ["\n\n", "\r\n\r\n", "\n \n\n", "\n\n"][flavour as usize];
    let mut content = String::new();
    if flavour == 3 {
        content.push('\u{feff}');
    }
    if vtt {
        content.push_str(["WEBVTT", "WEBVTT - title", "WEBVTT\nKind: captions", "WEBVTT"][flavour as usize]);
        content.push_str(gap);
    }
    content.push_str(&picks.iter().map(|b| b.text).collect::<Vec<_>>().join(gap));
    content.push_str(["\n", "", "\n\n\n", "\n"][flavour as usize]);
    if flavour == 1 {
        content = content.replace("\r\n", "\n").replace('\n', "\r\n");
    }
    let want: Vec<Cue> = picks.iter().filter_map(|b| b.cue.map(|c| (c.0, c.1, c.2.iter().map(|l| l.to_string()).collect()))).collect();
    for way in 0..2 {
        run.steps(1);
        match import(vtt, way, &content)? {
            Some(text) => {
                let got = cues_of(&text)?;
                if got != want {
                    return Err(format!("way {way} reads {got:?} instead of {want:?} in {content:?}"));
                }
            }
            // a file with unreadable times may be refused
            None if picks.iter().any(|b| b.bad) => {}
            None => return Err(format!("way {way} refuses {content:?}")),
        }
    }
    Ok(())
}

fn millis(cs: u32, dot: char) -> String {
    format!("{:02}:{:02}:{:02}{dot}{:03}", cs / 360_000, cs / 6000 % 60, cs / 100 % 60, cs % 100 * 10)
}

/// The cues of an exported file, read by the book
fn read(vtt: bool, out: &str) -> Result<Vec<Cue>, String> {
    let mut lines = out.lines().peekable();
    let bad = |what: &str| Err(format!("{what} in {out:?}"));
    if vtt && lines.next() != Some("WEBVTT") {
        return bad("no header");
    }
    let mut cues = Vec::new();
    while let Some(line) = lines.next() {
        if line.trim().is_empty() {
            continue;
        }
        if vtt && line == "STYLE" {
            while lines.next().is_some_and(|l| !l.trim().is_empty()) {}
            continue;
        }
        let mut times = line;
        if !line.contains(" --> ") {
            if line != (cues.len() + 1).to_string() {
                return bad(&format!("{line:?} is no number of cue {}", cues.len() + 1));
            }
            times = lines.next().unwrap_or("");
        } else if !vtt {
            return bad("a cue without a number");
        }
        let dot = if vtt { '.' } else { ',' };
        let Some((from, to)) = times.split_once(" --> ") else { return bad("no times") };
        let to = if vtt { to.split(' ').next().unwrap() } else { to };
        let time = |s: &str| -> Option<u32> {
            let (clock, ms) = s.split_once(dot)?;
            let p: Vec<u32> = clock.split(':').filter_map(|p| p.parse().ok()).collect();
            let cs = p[0] * 360_000 + p[1] * 6000 + p[2] * 100 + ms.parse::<u32>().ok()? / 10;
            (millis(cs, dot) == s).then_some(cs)
        };
        let (Some(from), Some(to)) = (time(from), time(to)) else { return bad(&format!("times {times:?}")) };
        let mut text = Vec::new();
        while let Some(l) = lines.next_if(|l| !l.trim().is_empty()) {
            let mut bare = String::new();
            let mut inside = false;
            for c in l.chars() {
                match c {
                    '<' => inside = true,
                    '>' if inside => inside = false,
                    _ if inside => {}
                    _ => bare.push(c),
                }
            }
            text.push(bare.trim().to_string());
        }
        text.retain(|l| !l.is_empty());
        cues.push((from, to, text));
    }
    Ok(cues)
}

const HEAD: &str = "[Script Info]\nTitle: x\n\n[V4+ Styles]\nFormat: Name, Fontname\nStyle: Default,Arial\n\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n";

fn event(kind: &str, from: u32, to: u32, text: &str) -> String {
    format!("{kind}: 0,{},{},Default,,0,0,9,,{text}\n", format_ass_time(from), format_ass_time(to))
}

fn export_case(run: &Run, source: &str) -> Result<(), String> {
    let doc = EditorDocument::from_content(source).map_err(|e| e.to_string())?;
    let want = cues_of(source)?;
    for vtt in [false, true] {
        for way in 0..4 {
            run.steps(3);
            let out = export(vtt, way, &doc)?;
            let got = read(vtt, &out)?;
            if got != want {
                return Err(format!("way {way} writes {got:?} instead of {want:?} of {source:?}: {out:?}"));
            }
            // an event that shows nothing is no cue to an importer
            let shown: Vec<&Cue> = want.iter().filter(|c| !c.2.is_empty()).collect();
            if shown.len() < want.len() {
                continue;
            }
            for back in 0..3 {
                if back == 2 && want.is_empty() {
                    continue;
                }
                let text = import(vtt, back, &out)?.ok_or_else(|| format!("way {back} refuses {out:?}"))?;
                let again = cues_of(&text)?;
                if again.iter().ne(shown.iter().copied()) {
                    return Err(format!("{source:?} comes back by ways {way} and {back} as {again:?} instead of {shown:?}"));
                }
            }
        }
    }
    Ok(())
}

pub fn e11(r: &Run) {
    r.rule("every file of up to the stated number of blocks (cues with all time and text forms, comments, junk, unreadable times) with each kind of line end, gap and byte order mark, through both importers; every document of events with texts of an alphabet through all exporters, read back by an own reader and by the importers; files of any lines for panics");
    r.assume("which cue a text with braces or angle brackets of its own makes is not judged");
    for (vtt, name) in [(false, "SubRip files"), (true, "WebVTT files")] {
        let blocks = if vtt { vtt_blocks() } else { srt_blocks() };
        r.stage(name, seq_count(blocks.len(), r.pick(3, 4)) * 4, |i| {
            let picks = seq_at(blocks.len(), i / 4);
            r.state(&(vtt, &picks));
            import_case(r, vtt, &picks.iter().map(|&k| &blocks[k]).collect::<Vec<_>>(), i % 4)
        });
    }
    // every millisecond, second and minute in turn, small and large hours
    let minutes: Vec<u32> = if r.thorough() { (0..60).collect() } else { vec![0, 59] };
    r.stage("imported times", 2 * 6 * minutes.len() as u64, |i| {
        let (vtt, hours, m) = (i % 2 == 1, [0u32, 1, 9, 10, 100, 11_929][i as usize / 2 % 6], minutes[i as usize / 12]);
        let dot = if vtt { '.' } else { ',' };
        let mut content = String::from(if vtt { "WEBVTT\n\n" } else { "" });
        let mut want: Vec<Cue> = Vec::new();
        for ms in 0..1000u32 {
            let s = (ms + m) % 60;
            content.push_str(&format!("{}\n{hours:02}:{m:02}:{s:02}{dot}{ms:03} --> {hours:02}:{s:02}:{m:02}{dot}{:03}\nx\n\n", ms + 1, 999 - ms));
            want.push((hours * 360_000 + m * 6000 + s * 100 + ms / 10, hours * 360_000 + s * 6000 + m * 100 + (999 - ms) / 10, vec!["x".into()]));
        }
        r.state(&i);
        for way in 0..3 {
            r.steps(1);
            let text = import(vtt, way, &content)?.ok_or("refused")?;
            let got = cues_of(&text)?;
            if got != want {
                let k = got.iter().zip(&want).position(|(g, w)| g != w);
                return Err(format!("way {way}, {} cues, hours {hours} minutes {m}: {:?}", got.len(), k.map(|k| (&got[k], &want[k]))));
            }
        }
        Ok(())
    });
    r.stage("exported times", 6 * minutes.len() as u64, |i| {
        let (hours, m) = ([0u32, 1, 9, 10, 100, 11_929][i as usize % 6], minutes[i as usize / 6]);
        let mut source = HEAD.to_string();
        for cs in 0..100 {
            let s = (cs + m) % 60;
            source.push_str(&event("Dialogue", hours * 360_000 + m * 6000 + s * 100 + cs, hours * 360_000 + s * 6000 + m * 100 + 99 - cs, "x"));
        }
        r.state(&(7, i));
        export_case(r, &source)
    });
    let pieces = ["Hi", "{\\b1}", "{\\b0}", "{\\i1\\c&H0000FF&}", "\\N", "\\n", "\\h", "{\\p1}m 0 0 l 5 5{\\p0}", "\u{e9}, x", "{comment}", "{\\fnArial}", "{\\c}", "{\\pos(1,2)\\an8}", "42", "NOTE x", "1\\N00:00:01", "{\\p2}m 1 1", "{\\i0}", " ", "{\\b1\\p0}", "{\\u1}", "{\\s1}", "\\x"];
    let few: Vec<&str> = [0, 1, 3, 4, 6, 7, 13, 19].iter().map(|&k| pieces[k]).collect();
    for (name, pieces, depth) in [("exported texts", &pieces[..], r.pick(2, 3)), ("longer texts", &few[..], r.pick(3, 4))] {
        r.stage(name, seq_count(pieces.len(), depth), |i| {
            let text = string_at(pieces, i);
            r.state(&text);
            export_case(r, &format!("{HEAD}{}{}{}", event("Dialogue", 100, 250, &text), event("Comment", 1, 2, &text), event("Dialogue", 99, 360_000, "end")))
        });
    }
    let items = [event("Dialogue", 100, 250, "one"), event("Dialogue", 100, 250, "one"), event("Comment", 100, 250, "no"), event("Dialogue", 0, 0, "{\\i1}two\\Nlines{\\i0}"), "\n; note\n".into(), "[Other]\nDialogue: x\n".into(), "[Events]\nFormat: Start, End, Text\nDialogue: 0:00:03.00,0:00:04.00,three, four\n".into(), event("Dialogue", 300, 200, "")];
    r.stage("exported documents", seq_count(items.len(), r.pick(3, 5)), |i| {
        let picks = seq_at(items.len(), i);
        // what follows another section's header or format belongs there
        if picks.iter().position(|&k| k >= 5 && k < 7).is_some_and(|p| picks[p + 1..].iter().any(|&k| k < 6 || k == 7)) {
            return Ok(());
        }
        r.state(&picks);
        export_case(r, &(HEAD.to_string() + &picks.iter().map(|&k| items[k].as_str()).collect::<String>()))
    });
    let lines = ["", "1", "00:00:01,000 --> 00:00:02,000", "00:01.000 --> 00:02.000 line:0 position:0 align:end", "-->", "00:00:01,000 --> ", "WEBVTT", "NOTE", "<v Bob>x", "{\\p1", "99999999999:00:00,0 --> 4294967295:59:59.999", "1193046:59:59.999 --> 00:00:00.9999999999 line:inf position:-9e30", "\u{e9}:\u{e9}:\u{e9},\u{e9} --> :,"];
    r.stage("any lines", seq_count(lines.len(), r.pick(4, 5)), |i| {
        let content = seq_at(lines.len(), i).into_iter().map(|k| lines[k]).collect::<Vec<_>>().join("\n");
        r.state(&content);
        for (vtt, way) in [(false, 0), (true, 0), (false, 1), (true, 1), (false, 2)] {
            r.steps(1);
            import(vtt, way, &content)?;
        }
        Ok(())
    });
}
