//! C12: the extension registry and the built-in handlers.
use ass_core::plugin::{sections, tags, ExtensionRegistry, SectionProcessor, SectionResult, TagHandler, TagResult};
use mc_common::*;
use std::collections::BTreeMap;

struct T(&'static str, u8);
impl TagHandler for T {
    fn name(&self) -> &'static str { self.0 }
    fn process(&self, args: &str) -> TagResult {
        match self.1 {
            0 => TagResult::Processed,
            1 => TagResult::Ignored,
            n => TagResult::Failed(format!("{}/{n}/{args}", self.0)),
        }
    }
}
struct S(&'static str, u8);
impl SectionProcessor for S {
    fn name(&self) -> &'static str { self.0 }
    fn process(&self, header: &str, lines: &[&str]) -> SectionResult {
        match self.1 {
            0 => SectionResult::Processed,
            1 => SectionResult::Ignored,
            n => SectionResult::Failed(format!("{}/{n}/{header}/{lines:?}", self.0)),
        }
    }
}

#[derive(Default)]
struct Model {
    tags: BTreeMap<&'static str, u8>,
    secs: BTreeMap<&'static str, u8>,
}

const NAMES: [&str; 3] = ["a", "A", "Events"];

fn compare(r: &ExtensionRegistry, m: &Model) -> Result<(), String> {
    if r.extension_count() != m.tags.len() + m.secs.len() { return Err(format!("extension_count {}", r.extension_count())) }
    let sorted = |mut v: Vec<&str>| { v.sort(); v.into_iter().map(str::to_string).collect::<Vec<_>>() };
    if !sorted(r.tag_handler_names()).iter().eq(m.tags.keys()) { return Err(format!("tag names {:?}", r.tag_handler_names())) }
    if !sorted(r.section_processor_names()).iter().eq(m.secs.keys()) { return Err(format!("section names {:?}", r.section_processor_names())) }
    for n in NAMES.into_iter().chain(["b", "", "a ", "events"]) {
        if r.has_tag_handler(n) != m.tags.contains_key(n) || r.has_section_processor(n) != m.secs.contains_key(n) { return Err(format!("has {n:?}")) }
        for args in ["", "1", "(a,b)"] {
            let w = m.tags.get_key_value(n).map(|(n, v)| T(n, *v).process(args));
            if r.process_tag(n, args) != w { return Err(format!("process_tag({n:?}, {args:?}) is {:?}, expected {w:?}", r.process_tag(n, args))) }
        }
        for (h, l) in [("", &[][..]), ("h", &["x", "y"][..])] {
            let w = m.secs.get_key_value(n).map(|(n, v)| S(n, *v).process(h, l));
            if r.process_section(n, h, l) != w { return Err(format!("process_section({n:?})")) }
        }
    }
    Ok(())
}

fn history(run: &Run, ops: &[usize]) -> Result<(), String> {
    let mut r = ExtensionRegistry::new();
    let mut m = Model::default();
    let mut log = vec![];
    for &op in ops {
        let (name, v) = (NAMES[op % 3], (op / 3 % 2) as u8 + (op % 3) as u8);
        let ok = match op {
            0..=5 => {
                log.push(format!("register_tag_handler({name}, {v})"));
                let free = !m.tags.contains_key(name);
                if free { m.tags.insert(name, v); }
                r.register_tag_handler(Box::new(T(name, v))).is_ok() == free
            }
            6..=11 => {
                log.push(format!("register_section_processor({name}, {v})"));
                let free = !m.secs.contains_key(name);
                if free { m.secs.insert(name, v); }
                r.register_section_processor(Box::new(S(name, v))).is_ok() == free
            }
            12..=14 => {
                log.push(format!("remove_tag_handler({name})"));
                r.remove_tag_handler(name).map(|h| (h.name(), h.process("x"))) == m.tags.remove(name).map(|v| (name, T(name, v).process("x")))
            }
            15..=17 => {
                log.push(format!("remove_section_processor({name})"));
                r.remove_section_processor(name).map(|h| (h.name(), h.process("x", &[]))) == m.secs.remove(name).map(|v| (name, S(name, v).process("x", &[])))
            }
            _ => {
                log.push("clear".into());
                r.clear();
                m = Model::default();
                true
            }
        };
        if !ok { return Err(format!("{log:?}: the last step does not return what it should")) }
        run.steps(1);
    }
    compare(&r, &m).map_err(|e| format!("{log:?}: {e}"))?;
    run.state(&(&m.tags, &m.secs));
    run.traces(1);
    Ok(())
}

fn all_handlers() -> Vec<Box<dyn TagHandler>> {
    [
        tags::create_formatting_handlers(),
        tags::create_special_handlers(),
        tags::create_font_handlers(),
        tags::create_advanced_handlers(),
        tags::create_alignment_handlers(),
        tags::create_karaoke_handlers(),
        tags::create_position_handlers(),
        tags::create_color_handlers(),
        tags::create_transform_handlers(),
        tags::create_animation_handlers(),
        tags::create_clipping_handlers(),
        tags::create_misc_handlers(),
    ]
    .into_iter()
    .flatten()
    .collect()
}

fn number(s: &str) -> bool {
    let d = s.strip_prefix(['+', '-']).unwrap_or(s);
    let (a, b) = d.split_once('.').unwrap_or((d, "0"));
    !a.is_empty() && !b.is_empty() && (a.to_string() + b).bytes().all(|c| c.is_ascii_digit())
}

/// Whether a built-in tag accepts its arguments; None = left open.
fn accepts(name: &str, raw: &str) -> Option<bool> {
    let a = raw.trim();
    let uint = |s: &str, max: u64| !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) && s.parse::<u64>().is_ok_and(|v| v <= max);
    let list = |s: &str| s.split(',').map(|x| x.trim().to_string()).collect::<Vec<_>>();
    let inner = a.len().checked_sub(1).filter(|_| a.starts_with('(') && a.ends_with(')')).map(|e| &a[1..e]);
    let hex = |digits: usize| a.strip_prefix("&H").and_then(|r| r.strip_suffix('&')).is_some_and(|d| d.len() == digits && d.bytes().all(|c| c.is_ascii_hexdigit()));
    let plus = a.contains('+');
    Some(match name {
        "b" if plus => return None,
        "b" => ["", "0", "1", "100", "200", "300", "400", "500", "600", "700", "800", "900"].contains(&a) || (a.starts_with('0') && uint(a, 900) && a.parse::<u32>().is_ok_and(|v| v >= 100 && v % 100 == 0)),
        "i" | "u" | "s" => ["", "0", "1"].contains(&a),
        "a" => ["1", "2", "3", "5", "6", "7", "9", "10", "11"].contains(&a),
        "an" => a.len() == 1 && ("1"..="9").contains(&a),
        "q" => a.len() == 1 && ("0"..="3").contains(&a),
        "n" | "N" | "h" => a.is_empty(),
        "fn" => !a.is_empty(),
        "fs" if plus => return None,
        "fs" => a.parse::<f32>().is_ok_and(|v| v > 0.0),
        "bord" | "shad" if plus => return None,
        "bord" | "shad" => a.parse::<f32>().is_ok_and(|v| v >= 0.0),
        "be" => a == "0" || a == "1",
        "fe" | "k" | "kf" | "ko" | "kt" if plus => return None,
        "fe" | "k" | "kf" | "ko" | "kt" => uint(a, u32::MAX as u64),
        "fax" | "fay" | "fr" | "frx" | "fry" | "frz" | "fsp" | "fscx" | "fscy" => number(a),
        "r" => true,
        "org" => inner.is_some_and(|c| list(c).len() == 2 && list(c).iter().all(|x| number(x))),
        "pos" => list(a).len() == 2 && list(a).iter().all(|x| number(x)),
        "move" => [4, 6].contains(&list(a).len()) && list(a).iter().all(|x| number(x)),
        "t" => inner.is_some_and(|c| !c.trim().is_empty()),
        "fad" | "fade" if plus => return None,
        "fad" => inner.is_some_and(|c| list(c).len() == 2 && list(c).iter().all(|x| uint(x, u32::MAX as u64))),
        "fade" => match inner.map(list) {
            // a time of -0 is left open
            Some(l) if l.len() == 7 && l.iter().any(|x| x.starts_with('-')) => return if l.iter().any(|x| x.trim_start_matches('-').bytes().any(|c| c != b'0')) { None } else { None },
            Some(l) => l.len() == 7 && l[..3].iter().all(|x| uint(x, 255)) && l[3..].iter().all(|x| uint(x, i32::MAX as u64)),
            None => false,
        },
        "clip" => inner.is_some_and(|c| {
            let c = c.trim();
            if list(c).len() == 4 { list(c).iter().all(|x| number(x)) } else { c.contains(['m', 'n', 'l', 'b', 's', 'p', 'c']) }
        }),
        "alpha" | "1a" | "2a" | "3a" | "4a" => hex(2),
        "c" | "1c" | "2c" | "3c" | "4c" => hex(6),
        _ => return None,
    })
}

pub fn c12(run: &Run) {
    run.rule("every history of registry operations up to 4 (thorough 5) over three names of each kind; every built-in handler on every argument string over a token alphabet");
    run.stage("histories", seq_count(19, run.pick(5, 6)), |i| history(run, &seq_at(19, i)));
    run.stage("built-ins register", 1, |_| {
        let names: Vec<&str> = all_handlers().iter().map(|h| h.name()).collect();
        let mut r = ExtensionRegistry::new();
        for h in all_handlers() {
            let n = h.name();
            r.register_tag_handler(h).map_err(|e| format!("{n}: {e}"))?;
        }
        for s in sections::create_aegisub_processors() {
            let n = s.name();
            r.register_section_processor(s).map_err(|e| format!("{n}: {e}"))?;
        }
        let want = ["b", "i", "u", "s", "n", "N", "h", "fn", "fs", "fe", "bord", "shad", "be", "a", "an", "q", "k", "kf", "ko", "kt", "pos", "move", "c", "1c", "2c", "3c", "4c", "alpha", "1a", "2a", "3a", "4a", "frx", "fry", "frz", "fscx", "fscy", "fsp", "fax", "fay", "t", "fad", "fade", "clip", "r", "fr", "org"];
        for w in want {
            if !names.contains(&w) || !r.has_tag_handler(w) { return Err(format!("no built-in handler for {w}")) }
        }
        if r.extension_count() != names.len() + 2 { return Err("extension_count".into()) }
        Ok(())
    });
    const A: [&str; 20] = ["0", "1", "5", "00", "-", "+", " ", ".", "(", ")", ",", "&H", "FF", "&", "m", "é", "1,2", "3,4,5", "255", "4294967296"];
    run.stage("arguments", seq_count(20, run.pick(4, 6)), |i| {
        let args = string_at(&A, i);
        let mut seen = 0u64;
        for (k, h) in all_handlers().iter().enumerate() {
            let (res, valid) = guard(|| (h.process(&args), h.validate(&args))).map_err(|p| format!("{} {args:?}: panic {p}", h.name()))?;
            let ok = res == TagResult::Processed;
            seen = seen * 2 + ok as u64;
            if ok != valid { return Err(format!("\\{} with {args:?}: process gives {res:?}, validate {valid}", h.name())) }
            if let Some(w) = accepts(h.name(), &args) {
                if ok != w { return Err(format!("\\{} with {args:?}: {res:?}, expected acceptance {w}", h.name())) }
            }
            run.steps((k > 0) as u64);
        }
        run.state(&seen);
        Ok(())
    });
    const H: [&str; 5] = ["Aegisub Project", "aegisub project", "Aegisub Extradata", "Events", ""];
    const L: [&str; 7] = ["k=v", "k: v", "bare", "", " ", "!x", "é"];
    run.stage("sections", seq_count(7, 4) * 5 * 2, |i| {
        let ps = sections::create_aegisub_processors();
        let p = &ps[(i % 2) as usize];
        let h = H[(i / 2 % 5) as usize];
        let lines: Vec<&str> = seq_at(7, i / 10).iter().map(|&k| L[k]).collect();
        let got = guard(|| p.process(h, &lines))?;
        let bad = p.name() == "Aegisub Project" && lines.iter().any(|l| !l.trim().is_empty() && !l.starts_with('!') && !l.contains(['=', ':']));
        let ok = if !h.eq_ignore_ascii_case(p.name()) { got == SectionResult::Ignored } else if bad { matches!(got, SectionResult::Failed(_)) } else { got == SectionResult::Processed };
        if !ok { return Err(format!("{} on {h:?} {lines:?}: {got:?}", p.name())) }
        Ok(())
    });
    run.stage("long lines", 4, |i| {
        let p = &sections::create_aegisub_processors()[1];
        let line = "x".repeat([9_999, 10_000, 10_001, 20_000][i as usize]);
        let got = p.process("Aegisub Extradata", &["a", &line]);
        if (got == SectionResult::Processed) != (line.len() <= 10_000) { return Err(format!("extradata line of {}: {got:?}", line.len())) }
        Ok(())
    });
}
