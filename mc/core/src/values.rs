//! C07: timestamps, colours, numbers, embedded data.
use ass_core::parser::ast::{Event, Section};
use ass_core::parser::Script;
use ass_core::utils::{decode_uu_data, format_ass_time, parse_ass_time, parse_bgr_color, parse_numeric, validate_ass_name};
use mc_common::*;

fn canonical(cs: u32) -> String {
    let (h, r) = (cs / 360_000, cs % 360_000);
    let d = [r / 60_000, r / 6_000 % 10, r % 6_000 / 1_000, r % 1_000 / 100, r % 100 / 10, r % 10].map(|x| (b'0' + x as u8) as char);
    format!("{h}:{}{}:{}{}.{}{}", d[0], d[1], d[2], d[3], d[4], d[5])
}

/// The value a timestamp denotes; the fraction counts centiseconds whatever its length.
pub fn time_value(s: &str) -> Option<u32> {
    let v: Vec<&str> = s.split(':').collect();
    let [h, m, rest] = v[..] else { return None };
    let (sec, cs) = match rest.split_once('.') {
        None => (rest, "0"),
        Some((a, b)) => (a, b.split('.').next().unwrap()),
    };
    let num = |t: &str| {
        if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) { return None }
        t.bytes().try_fold(0u128, |a, b| a.checked_mul(10)?.checked_add((b - b'0') as u128))
    };
    let (h, m, sec, cs) = (num(h)?, num(m)?, num(sec)?, num(cs)?);
    if m >= 60 || sec >= 60 { return None }
    u32::try_from(h * 360_000 + m * 6_000 + sec * 100 + cs).ok()
}

fn check_time(s: &str) -> Result<(), String> {
    let want = time_value(s);
    let got = guard(|| parse_ass_time(s).ok()).map_err(|p| format!("parse_ass_time({s:?}) panics: {p}"))?;
    // whether an explicit plus sign is acceptable is left open; its value is not
    let plus = s.contains('+') && (got.is_none() || got == time_value(&s.replace('+', "")));
    if got != want && !plus {
        return Err(format!("parse_ass_time({s:?}) = {got:?}, expected {want:?}"));
    }
    Ok(())
}

pub fn color_value(s: &str) -> Option<[u8; 4]> {
    let t = s.trim();
    let d = if let Some(r) = t.strip_prefix("&H").or(t.strip_prefix("&h")) {
        r.strip_suffix('&').unwrap_or(r)
    } else {
        t.strip_prefix("0x").unwrap_or(t)
    };
    if !d.bytes().all(|b| b.is_ascii_hexdigit()) || (d.len() != 6 && d.len() != 8) { return None }
    let b: Vec<u8> = (0..d.len()).step_by(2).map(|i| u8::from_str_radix(&d[i..i + 2], 16).unwrap()).collect();
    Some(match b[..] {
        [b, g, r] => [r, g, b, 0],
        [a, b, g, r] => [r, g, b, a],
        _ => unreachable!(),
    })
}

fn check_color(s: &str) -> Result<(), String> {
    let want = color_value(s);
    let got = guard(|| parse_bgr_color(s).ok()).map_err(|p| format!("parse_bgr_color({s:?}) panics: {p}"))?;
    if got != want { return Err(format!("parse_bgr_color({s:?}) = {got:?}, expected {want:?}")) }
    Ok(())
}

/// uuencode: lines of at most `per` bytes; `zero` writes the value zero.
fn encode(data: &[u8], per: usize, zero: char, full_groups: bool) -> Vec<String> {
    let ch = |v: u8| if v == 0 { zero } else { (v + 32) as char };
    data.chunks(per).map(|l| {
        let mut s = String::from(ch(l.len() as u8));
        for g in l.chunks(3) {
            let b = [g[0], *g.get(1).unwrap_or(&0), *g.get(2).unwrap_or(&0)];
            let q = [b[0] >> 2, (b[0] & 3) << 4 | b[1] >> 4, (b[1] & 15) << 2 | b[2] >> 6, b[2] & 63];
            let n = if full_groups { 4 } else { g.len() + 1 };
            s.extend(q[..n].iter().map(|&v| ch(v)));
        }
        s
    }).collect()
}

fn check_uu(run: &Run, data: &[u8], per: usize) -> Result<(), String> {
    for zero in [' ', '`'] {
        for full in [true, false] {
            let lines = encode(data, per, zero, full);
            for tail in [None, Some("`"), Some("end"), Some(" ")] {
                let mut l: Vec<String> = lines.clone();
                if let Some(t) = tail {
                    // nothing behind the terminator belongs to the data
                    if t != " " { l.push(t.into()); l.push("#0V%T".into()) } else { l.push(String::new()); }
                }
                if per % 2 == 1 { for x in &mut l { x.push('\r') } }
                let got = decode_uu_data(l.iter().map(|s| s.as_str()));
                if got.as_deref().ok() != Some(data) {
                    return Err(format!("{l:?} decodes to {got:?}, expected {data:?}"));
                }
                run.steps(1);
            }
            if zero == '`' {
                let body: String = lines.iter().map(|l| format!("{l}\n")).collect();
                let src = format!("[Script Info]\n\n[Fonts]\nfontname: a.ttf\n{body}fontname: b.ttf\n#0V%T\n[Graphics]\nfilename: a.png\n{body}");
                let s = Script::parse(&src).map_err(|e| e.to_string())?;
                let mut got = vec![];
                for sec in s.sections() {
                    match sec {
                        Section::Fonts(f) => got.extend(f.iter().map(|f| f.decode_data().ok())),
                        Section::Graphics(f) => got.extend(f.iter().map(|f| f.decode_data().ok())),
                        _ => {}
                    }
                }
                if got != [Some(data.to_vec()), Some(b"Cat".to_vec()), Some(data.to_vec())] {
                    return Err(format!("{src:?} holds {got:?}, expected {data:?}"));
                }
            }
        }
    }
    run.traces(1);
    Ok(())
}

pub fn c07(run: &Run) {
    run.rule("every centisecond count in the bound, every colour value, every byte string in the bound, and all timestamp, colour and number texts over small alphabets up to the bound");
    const B: u64 = 1 << 14;
    // quick: 0..2^26 (186 hours, every carry) and the last 2^22 counts; thorough: all 2^32
    let blocks = run.pick((1 << 26) / B + (1 << 22) / B, (1 << 32) / B);
    let quick = !run.thorough();
    run.stage("counts", blocks, |i| {
        let first = if quick && i >= (1 << 26) / B { (1u64 << 32) - (1 << 22) + (i - (1 << 26) / B) * B } else { i * B };
        for cs in first..first + B {
            let cs = cs as u32;
            let s = format_ass_time(cs);
            if s != canonical(cs) || parse_ass_time(&s).ok() != Some(cs) {
                return Err(format!("{cs} formats to {s:?} (expected {:?}), which parses to {:?}", canonical(cs), parse_ass_time(&s)));
            }
        }
        run.traces(B);
        Ok(())
    });
    const T: [&str; 12] = ["0", ":", ".", "5", "9", "1", "+", "-", " ", "é", "x", "6"];
    run.stage("time-texts", seq_count(T.len(), run.pick(6, 7)), |i| check_time(&string_at(&T, i)));
    const P: [&str; 20] = [
        "", "0", "00", "5", "05", "59", "60", "99", "100", "4294967295", "4294967296", "11930", "11931", "27", "52", "95", "96", "+1", "-1", "000000000001",
    ];
    let r = [20, 20, 20, 20, 3, 3];
    run.stage("time-fields", product(&r), |i| {
        let d = mixed(&r, i);
        check_time(&format!("{}:{}{}{}{}{}", P[d[0]], P[d[1]], [":", ".", "::"][d[4]], P[d[2]], [".", ":", ""][d[5]], P[d[3]]))
    });
    const E: [&str; 9] = ["0:00:00.00", "0:00:00.01", "0:00:01.00", "1:00:00.00", "11930:27:52.95", "11930:27:52.96", "x", "", "0:00:00.100"];
    run.stage("durations", 81, |i| {
        let (a, b) = (E[i as usize / 9], E[i as usize % 9]);
        let ev = Event { start: a, end: b, ..Event::default() };
        let want = (time_value(a), time_value(b), time_value(a).zip(time_value(b)).map(|(x, y)| y.saturating_sub(x)));
        let got = (ev.start_time_cs().ok(), ev.end_time_cs().ok(), ev.duration_cs().ok());
        if got != want { return Err(format!("event {a:?}..{b:?}: {got:?}, expected {want:?}")) }
        Ok(())
    });
    // colours: every value of three channels, in every notation
    run.stage("colors", 1 << 12, |i| {
        for low in 0..1u32 << 12 {
            let v = (i as u32) << 12 | low;
            let want = Ok([v as u8, (v >> 8) as u8, (v >> 16) as u8, 0]);
            let s = match low % 5 { 0 => format!("&H{v:06X}&"), 1 => format!("&h{v:06x}"), 2 => format!("0x{v:06X}"), 3 => format!("{v:06x}"), _ => format!(" &H{v:06X} ") };
            let got = parse_bgr_color(&s).map_err(|_| ());
            if got != want { return Err(format!("parse_bgr_color({s:?}) = {got:?}, expected {want:?}")) }
        }
        run.traces(1 << 12);
        Ok(())
    });
    run.stage("colors-alpha", 6 * 256 * 256, |i| {
        let d = mixed(&[6, 256, 256], i);
        let (a, b) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][d[0]];
        let mut c = [0x5Au8, 0xC3, 0x0F, 0xF0];
        c[a] = d[1] as u8;
        c[b] = d[2] as u8;
        let s = format!("&H{:02X}{:02X}{:02X}{:02X}", c[3], c[2], c[1], c[0]);
        for s in [s.clone(), format!("{s}&"), s.to_lowercase().replace("&h", "0x"), s[2..].to_string()] {
            let got = parse_bgr_color(&s).map_err(|_| ());
            if got != Ok(c) { return Err(format!("parse_bgr_color({s:?}) = {got:?}, expected {c:?}")) }
        }
        Ok(())
    });
    const C: [&str; 14] = ["F", "&H", "&", "0", "&h", "0x", "a", "+", "-", "G", " ", "é", "1F2e3D", "0X"];
    run.stage("color-texts", seq_count(C.len(), run.pick(5, 6)), |i| check_color(&string_at(&C, i)));
    const CH: [&str; 8] = ["F", "0", "+", "g", "&", "H", "x", " "];
    run.stage("color-digits", seq_count(CH.len(), run.pick(7, 8)), |i| {
        let s = string_at(&CH, i);
        check_color(&s)?;
        check_color(&format!("&H{s}"))?;
        check_color(&format!("&H{s}&"))
    });
    // numbers
    const N: [&str; 9] = ["0", "1", "9", "-", ".", "+", " ", "e", "é"];
    run.stage("numbers", seq_count(N.len(), run.pick(6, 7)), |i| {
        let s = string_at(&N, i);
        let t = s.trim();
        let bad = |k: &str, g: String| Err(format!("parse_numeric::<{k}>({s:?}) = {g}"));
        macro_rules! ty { ($($t:ty),*) => { $(
            let (g, w) = (parse_numeric::<$t>(&s).ok(), t.parse::<$t>().ok());
            if g != w && !(g.is_some_and(|x| x != x) && w.is_some_and(|x| x != x)) { return bad(stringify!($t), format!("{g:?}, expected {w:?}")) }
        )* } }
        #[allow(clippy::eq_op)]
        { ty!(i32, u8, u16, u32, f32, f64); }
        Ok(())
    });
    const A: [&str; 10] = ["a", ",", ":", "{", "}", "\t", "\n", "\0", "é", "\u{85}"];
    run.stage("names", seq_count(A.len(), 5), |i| {
        let s = string_at(&A, i);
        let want = !s.is_empty() && !s.chars().any(|c| ",:{}\n\0\u{85}".contains(c));
        if validate_ass_name(&s) != want { return Err(format!("validate_ass_name({s:?}), expected {want}")) }
        Ok(())
    });
    // embedded data
    run.stage("bytes-2", 1 + 256 + 65536, |i| {
        let v: Vec<u8> = if i == 0 { vec![] } else if i <= 256 { vec![(i - 1) as u8] } else { vec![((i - 257) >> 8) as u8, (i - 257) as u8] };
        check_uu(run, &v, 45)
    });
    const BY: [u8; 12] = [0, 1, 3, 0x0F, 0x1F, 0x20, 0x3F, 0x40, 0x7F, 0x80, 0xC0, 0xFF];
    run.stage("bytes-n", seq_count(BY.len(), run.pick(4, 5)), |i| {
        let v: Vec<u8> = seq_at(BY.len(), i).iter().map(|&k| BY[k]).collect();
        for per in [1, 2, 3, 4, 45] { check_uu(run, &v, per)? }
        Ok(())
    });
    let lens = run.pick(140, 300);
    run.stage("lines", lens * 45, |i| {
        let (len, per) = ((i / 45) as usize, (i % 45) as usize + 1);
        for pat in 0..4usize {
            let v: Vec<u8> = (0..len).map(|k| match pat { 0 => 0, 1 => 0xFF, 2 => (k * 7 + len) as u8, _ => if k % 3 == 0 { 0x80 } else { 0 } }).collect();
            check_uu(run, &v, per)?;
        }
        Ok(())
    });
    const U: [&str; 11] = ["#", "0V%T", "`", " ", "é", "M", "end", "!", "\r", "~", "z"];
    run.stage("garbage-data", seq_count(U.len(), run.pick(5, 6)), |i| {
        let s = string_at(&U, i);
        for cut in s.char_indices().map(|(p, _)| p).chain([s.len()]) {
            let l = [&s[..cut], &s[cut..], "#0V%T"];
            if let Err(p) = guard(|| decode_uu_data(l.iter().copied()).map(|v| run.state(&v))) { return Err(format!("decoding {l:?} panics: {p}")) }
        }
        Ok(())
    });
    run.assume("a timestamp with an explicit plus sign may be accepted or rejected");
    run.assume("encoded lines keep their trailing characters; a line cut short by trimming decodes to what is left of it (pinned by the repository's tests)");
}
