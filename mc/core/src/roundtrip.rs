//! C03: serialise, parse, compare.
use crate::parse::{lines_doc, observe, CHARS};
use crate::refparse::{self, RDoc, RSec};
use ass_core::parser::Script;
use mc_common::*;

const RT: [&str; 30] = [
    "[Events]",
    "Dialogue: 0,0:00:00.00,0:00:01.00,Default,,0,0,0,,a, b",
    "[V4+ Styles]",
    "Style: D,Arial,20,&H1,&H2,&H3,&H4,0,0,0,0,100,100,0,0,1,2,2,2,10,10,10,1",
    "[Script Info]",
    "Title: x: y",
    "[Fonts]",
    "fontname: f.ttf",
    "!DATA1",
    "[Graphics]",
    "filename: g.bmp",
    "",
    "Format: Start, End, Text",
    "Comment: 5,6,,x,{\\b1}y,0,1,2,e,  ",
    "Format: Text, Layer",
    "Style: **P , Q,A,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22",
    "Format: fontname, NAME, Foo, MarginT",
    "Style: *P,A1,B2,c,d,e",
    "Format: LAYER, Actor, Bar, text, marginb, MARGINT",
    "Movie:1,2,3,4,5,6,7,8,9,10",
    "Format: TertiaryColour, Name, RelativeTo, Strikeout, marginb",
    "Style: a,b,c,d,e",
    "PlayResX:",
    ": v",
    "; note",
    "junk",
    "  data two  \r",
    "[Unknown]",
    "[x\u{e9}",
    "Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginT, MarginB, Effect, Foo",
];

fn doc(seq: &[usize]) -> String {
    seq.iter().map(|&i| RT[i]).collect::<Vec<_>>().join("\n")
}

fn strip(d: &RDoc) -> (Vec<RSec>, Option<String>) {
    let mut secs = d.secs.clone();
    for s in &mut secs {
        match s {
            RSec::Info(_) => {}
            RSec::Styles(v) => v.iter_mut().for_each(|x| x.line = 0),
            RSec::Events(v) => v.iter_mut().for_each(|x| x.line = 0),
            RSec::Fonts(v) | RSec::Graphics(v) => v.iter_mut().for_each(|x| x.line = 0),
        }
    }
    (secs, d.script_type.clone())
}

fn round(src: &str, known: bool) -> Result<(Vec<RSec>, Option<String>), String> {
    let ctx = |e: String| format!("source {src:?}\n{e}");
    let a = Script::parse(src).map_err(|e| ctx(e.to_string()))?;
    let da = observe(&a);
    if !known && refparse::parse(src).mixed_formats {
        return Ok(strip(&da)); // listed finding: one Format line per section kind is kept
    }
    let text = guard(|| a.to_ass_string()).map_err(|e| ctx(format!("panic: {e}")))?;
    let b = Script::parse(&text).map_err(|e| ctx(e.to_string()))?;
    let db = observe(&b);
    if strip(&da) != strip(&db) {
        return Err(ctx(format!("written as {text:?}\n before {:?}\n after  {:?}", strip(&da), strip(&db))));
    }
    let again = b.to_ass_string();
    if again != text {
        return Err(ctx(format!("written as {text:?}\nthen as {again:?}")));
    }
    Ok(strip(&da))
}

fn check(run: &Run, src: &str) -> Result<(), String> {
    let d = round(src, false)?;
    run.state(&d);
    run.steps(3);
    Ok(())
}

pub fn c03(run: &Run) {
    run.rule("every document of a bounded number of lines over a 30-line alphabet of sections, formats and entries, and every string over a 17-symbol alphabet: parse, write, parse, compare, write, compare; a state is a distinct list of sections");
    run.assume("entries of one kind are read under one Format line per document (see known_findings.txt)");
    run.finding("mixed-formats-sections", || round("[Events]\nDialogue: 0,0:00:00.00,0:00:01.00,Default,,0,0,0,,a\n\n[Events]\nFormat: Start, End, Text\nDialogue: 1,2,b\n", true).map(|_| ()));
    run.finding("mixed-formats-styles", || round("[V4+ Styles]\nFormat: Name, Bold\nStyle: a,1\n\n[V4+ Styles]\nFormat: Fontname, Name\nStyle: c,d\n", true).map(|_| ()));
    let d = run.pick(4, 5);
    run.sample(doc(&seq_at(RT.len(), seq_count(RT.len(), d) / 7)));
    run.stage("lines", seq_count(RT.len(), d), |i| check(run, &doc(&seq_at(RT.len(), i))));
    // two sections, each filled from the lines that mean something there
    let bodies: [(&str, &[usize]); 6] = [
        ("[Events]", &[1, 12, 13, 14, 18, 19, 24, 29]), ("[V4+ Styles]", &[3, 15, 16, 17, 20, 21, 25]), ("[V4 Styles]", &[3, 15, 16, 17, 20, 21, 24]),
        ("[Script Info]", &[5, 22, 23, 24, 25]), ("[Fonts]", &[7, 8, 26, 28, 11]), ("[Graphics]", &[10, 8, 26, 28, 11]),
    ];
    let depth = run.pick(4, 5);
    for (k, (head, body)) in bodies.iter().enumerate() {
        let n = seq_count(body.len(), depth);
        let mut tails = vec!["".to_string()];
        for (h2, b2) in &bodies {
            for &l in b2.iter() {
                tails.push(format!("{h2}\n{}", RT[l]));
            }
        }
        run.stage(&format!("section{k}"), n * tails.len() as u64, |i| {
            let (s, t) = (i / tails.len() as u64, (i % tails.len() as u64) as usize);
            let mid: Vec<&str> = seq_at(body.len(), s).into_iter().map(|x| RT[body[x]]).collect();
            check(run, &format!("{head}\n{}\n{}", mid.join("\n"), tails[t]))
        });
    }
    let n = run.pick(5, 6);
    run.stage("chars", seq_count(CHARS.len(), n), |i| check(run, &string_at(&CHARS, i)));
    let _ = lines_doc;
}
