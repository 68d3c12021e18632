//! C11: style inheritance and resolution scaling.
use crate::values;
use ass_core::analysis::styles::{ConflictType, ResolvedStyle, StyleAnalyzer};
use ass_core::analysis::ScriptAnalysis;
use ass_core::parser::ast::{Span, Style};
use ass_core::parser::Script;
use mc_common::*;
use std::collections::{BTreeMap, BTreeSet};

/// Columns of a style line, in the order used by this harness.
const COLS: [&str; 23] = [
    "Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "Bold", "Italic", "Underline", "StrikeOut", "ScaleX",
    "ScaleY", "Spacing", "Angle", "BorderStyle", "Outline", "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "Encoding",
];
const FULL: [&str; 22] = ["Arial", "20", "&H00FFFFFF", "&H000000FF", "&H00000000", "&H00000000", "0", "0", "0", "0", "100", "100", "0", "0", "1", "2", "1", "2", "10", "10", "10", "1"];

#[derive(Clone, Debug)]
struct Def {
    name: String,
    parent: Option<String>,
    v: [String; 22],
    /// MarginT and MarginB columns
    tb: Option<[String; 2]>,
}

impl Def {
    fn new(name: &str, parent: Option<&str>) -> Self {
        Def { name: name.into(), parent: parent.map(str::to_string), v: FULL.map(str::to_string), tb: None }
    }
    fn style(&self) -> Style<'_> {
        let v = &self.v;
        Style {
            name: &self.name,
            parent: None,
            fontname: &v[0], fontsize: &v[1],
            primary_colour: &v[2], secondary_colour: &v[3], outline_colour: &v[4], back_colour: &v[5],
            bold: &v[6], italic: &v[7], underline: &v[8], strikeout: &v[9],
            scale_x: &v[10], scale_y: &v[11], spacing: &v[12], angle: &v[13], border_style: &v[14],
            outline: &v[15], shadow: &v[16], alignment: &v[17], margin_l: &v[18], margin_r: &v[19], margin_v: &v[20],
            margin_t: self.tb.as_ref().map(|t| t[0].as_str()),
            margin_b: self.tb.as_ref().map(|t| t[1].as_str()),
            encoding: &v[21],
            relative_to: None,
            span: Span::new(0, 0, 0, 0),
        }
    }
    /// This style with everything it leaves to its parent filled in.
    fn over(&self, parent: &Def) -> Def {
        let mut d = parent.clone();
        d.name = self.name.clone();
        for (i, x) in self.v.iter().enumerate() {
            let left = x.is_empty()
                || match i {
                    1 | 12 | 13 | 15 | 16 => x == "0",
                    10 | 11 => x == "100",
                    6..=9 => x != "0" && x != "1",
                    _ => false,
                };
            if !left && i != 20 { d.v[i] = x.clone() }
        }
        match (&self.tb, &mut d.tb) {
            (Some([t, b]), own) => {
                let [pt, pb] = own.clone().unwrap_or([parent.v[20].clone(), parent.v[20].clone()]);
                *own = Some([if t.is_empty() { pt } else { t.clone() }, if b.is_empty() { pb } else { b.clone() }]);
            }
            (None, own) if !self.v[20].is_empty() && self.v[20] != "0" => {
                d.v[20] = self.v[20].clone();
                *own = None;
            }
            _ => {}
        }
        d
    }
}

struct Case<'a> {
    defs: &'a [Def],
    res: Option<[u32; 4]>, // layout x, y, play x, y
    cut: usize,            // second section after `cut` styles
}

fn source(c: &Case) -> String {
    let mut s = String::from("[Script Info]\nTitle: x\n");
    if let Some([a, b, x, y]) = c.res { s += &format!("LayoutResX: {a}\nLayoutResY: {b}\nPlayResX: {x}\nPlayResY: {y}\n") }
    let tb = c.defs.iter().any(|d| d.tb.is_some());
    let head = format!("[V4+ Styles]\nFormat: {}{}\n", COLS.join(", "), if tb { ", MarginT, MarginB" } else { "" });
    for (i, d) in c.defs.iter().enumerate() {
        if i == 0 || (c.cut > 0 && c.cut == i) { s += &head }
        let parent = d.parent.as_ref().map_or(String::new(), |p| format!("*{p},"));
        s += &format!("Style: {parent}{},{}", d.name, d.v.join(","));
        if let Some(t) = &d.tb { s += &format!(",{},{}", t[0], t[1]) }
        s.push('\n');
    }
    s
}

fn check(run: &Run, c: &Case) -> Result<(), String> {
    let src = source(c);
    let ctx = |m: String| format!("script {src:?}: {m}");
    // what counts: the last definition of a name
    let last: BTreeMap<&str, &Def> = c.defs.iter().map(|d| (d.name.as_str(), d)).collect();
    let parent = |d: &Def| d.parent.as_ref().and_then(|p| last.get(p.as_str())).copied();
    let cyclic = last.values().any(|d| {
        let mut p = parent(d);
        for _ in 0..last.len() { p = p.and_then(&parent) }
        p.is_some()
    });
    fn flat(d: &Def, parent: &dyn Fn(&Def) -> Option<Def>) -> Option<Def> {
        let base = parent(d).and_then(|p| flat(&p, parent));
        let f = base.map_or(d.clone(), |b| d.over(&b));
        ResolvedStyle::from_style(&f.style()).is_ok().then_some(f)
    }
    let scale = c.res.filter(|r| !r.contains(&0) && (r[0], r[1]) != (r[2], r[3])).map(|r| (r[2] as f32 / r[0] as f32, r[3] as f32 / r[1] as f32));
    let mut want: BTreeMap<&str, Def> = BTreeMap::new();
    for d in last.values() {
        let f = if cyclic { flat(d, &|_| None) } else { flat(d, &|d| parent(d).cloned()) };
        if let Some(f) = f { want.insert(&d.name, f); }
    }
    let script = Script::parse(&src).map_err(|e| ctx(e.to_string()))?;
    let an = guard(|| StyleAnalyzer::new(&script)).map_err(|p| ctx(format!("panic {p}")))?;
    if an.resolved_styles().keys().ne(want.keys()) { return Err(ctx(format!("resolves {:?}, expected {:?}", an.resolved_styles().keys(), want.keys()))) }
    for (n, f) in &want {
        let st = f.style();
        let mut w = ResolvedStyle::from_style(&st).unwrap();
        if let Some((x, y)) = scale { w.apply_resolution_scaling(x, y) }
        let g = an.resolve_style(n).ok_or_else(|| ctx(format!("resolve_style({n})")))?;
        if *g != w { return Err(ctx(format!("{n} resolves to {g:?}, expected {w:?}"))) }
        if g.complexity_score() > 100 { return Err(ctx("complexity over 100".into())) }
    }
    let all = guard(|| ScriptAnalysis::analyze(&script).map(|a| a.resolved_styles().to_vec())).map_err(|p| ctx(format!("panic {p}")))?.map_err(|e| ctx(e.to_string()))?;
    if all.iter().ne(an.resolved_styles().values()) { return Err(ctx("ScriptAnalysis resolves differently".into())) }
    // conflicts name exactly the problems there are
    let kinds = |k| an.conflicts().iter().filter(move |x| x.conflict_type == k).collect::<Vec<_>>();
    let missing: BTreeSet<&str> = last.values().filter(|d| d.parent.is_some() && parent(d).is_none()).map(|d| d.name.as_str()).collect();
    let got: BTreeSet<&str> = kinds(ConflictType::MissingReference).iter().flat_map(|x| x.styles.clone()).collect();
    if got != missing { return Err(ctx(format!("missing parents reported for {got:?}, expected {missing:?}"))) }
    if kinds(ConflictType::CircularInheritance).is_empty() == cyclic { return Err(ctx(format!("cyclic is {cyclic}, conflicts {:?}", an.conflicts()))) }
    let dup: BTreeSet<&str> = last.keys().copied().filter(|n| c.defs.iter().filter(|d| d.name == *n).count() > 1).collect();
    let got: BTreeSet<&str> = kinds(ConflictType::DuplicateName).iter().flat_map(|x| x.styles.clone()).collect();
    if got != dup { return Err(ctx(format!("duplicates reported {got:?}, expected {dup:?}"))) }
    for d in last.values().filter(|d| !missing.contains(d.name.as_str())) {
        let g = an.inheritance_info().get(d.name.as_str()).ok_or_else(|| ctx(format!("no inheritance info for {}", d.name)))?;
        if g.parents != d.parent.iter().map(|s| s.as_str()).collect::<Vec<_>>() { return Err(ctx(format!("parents of {} are {:?}", d.name, g.parents))) }
    }
    run.state(&format!("{:?}", an.resolved_styles()));
    run.traces(1);
    run.steps(c.defs.len() as u64);
    Ok(())
}

fn f32v(s: &str) -> Option<f32> {
    s.parse().ok()
}

/// from_style and scaling read back through the accessors.
fn values_of(d: &Def, scale: (f32, f32)) -> Result<(), String> {
    let st = d.style();
    let ctx = |m: String| format!("style {:?} {:?}: {m}", d.v, d.tb);
    let v = &d.v;
    let color = |s: &str| if s.trim().is_empty() { Some([255; 4]) } else { values::color_value(s) };
    let flag = |s: &str| match s { "0" => Some(false), "1" => Some(true), _ => None };
    let want = (|| {
        let size = f32v(&v[1]).filter(|x| *x > 0.0 && *x <= 1000.0)?;
        let colors = [color(&v[2])?, color(&v[3])?, color(&v[4])?];
        color(&v[5])?;
        let flags = [flag(&v[6])?, flag(&v[7])?, flag(&v[8])?, flag(&v[9])?];
        for k in [10, 11] { f32v(&v[k]).filter(|x| (0.0..=1000.0).contains(x))?; }
        let f = [f32v(&v[12])?, f32v(&v[13])?, f32v(&v[15])?, f32v(&v[16])?];
        for k in [14, 17, 21] { v[k].parse::<u8>().ok()?; }
        let (t, b) = d.tb.as_ref().map_or((&v[20], &v[20]), |t| (&t[0], &t[1]));
        let m = [v[18].parse::<u16>().ok()?, v[19].parse::<u16>().ok()?, t.parse::<u16>().ok()?, b.parse::<u16>().ok()?];
        Some((size, colors, flags, f, m))
    })();
    let got = guard(|| ResolvedStyle::from_style(&st).ok()).map_err(|p| ctx(format!("panic {p}")))?;
    let (Some(mut g), Some((size, colors, flags, f, m))) = (got.clone(), want) else {
        return if got.is_none() == want.is_none() { Ok(()) } else { Err(ctx(format!("resolves: {}, expected {}", got.is_some(), want.is_some()))) };
    };
    let font = if v[0].is_empty() { "Arial" } else { &v[0] };
    let all = |g: &ResolvedStyle| (g.font_size(), [g.primary_color(), g.secondary_color(), g.outline_color()], [g.is_bold(), g.is_italic(), g.is_underline(), g.is_strike_out()], [g.spacing(), g.angle(), g.outline(), g.shadow()], [g.margin_l(), g.margin_r(), g.margin_t(), g.margin_b()]);
    if g.font_name() != font || g.name != d.name || all(&g) != (size, colors, flags, f, m) { return Err(ctx(format!("resolved to {g:?}"))) }
    g.apply_resolution_scaling(scale.0, scale.1);
    let avg = (scale.0 + scale.1) / 2.0;
    let near = |a: f32, b: f32| (a - b).abs() <= 1e-4 * b.abs().max(1e-3);
    let a = all(&g);
    if !near(a.0, size * avg) || !near(a.3[0], f[0] * scale.0) || a.3[1] != f[1] || !near(a.3[2], f[2] * avg) || !near(a.3[3], f[3] * avg) || a.1 != colors || a.2 != flags {
        return Err(ctx(format!("scaled by {scale:?} to {g:?}")));
    }
    for (k, s) in [scale.0, scale.0, scale.1, scale.1].into_iter().enumerate() {
        let w = (m[k] as f32 * s).clamp(0.0, 65535.0);
        if (a.4[k] as f32 - w).abs() > 1.0 + w * 1e-6 { return Err(ctx(format!("margin {k} scaled by {s} is {}, expected {w}", a.4[k]))) }
    }
    Ok(())
}

pub fn c11(run: &Run) {
    run.rule("every parent graph on up to 4 styles in every order, cut and resolution setting; every duplicate-name list; every own/left pattern per field; every field value");
    const NAMES: [&str; 4] = ["a", "b", "c", "d"];
    const RES: [Option<[u32; 4]>; 5] = [None, Some([640, 480, 1280, 960]), Some([1920, 1080, 640, 540]), Some([640, 480, 640, 480]), Some([0, 480, 640, 480])];
    // style k's own values; pattern 0: everything, 1: every third field left to the parent, 2: nearly all left
    let own = |k: usize, pattern: usize| {
        let mut d = Def::new(NAMES[k], None);
        let n = k as u32 + 2;
        let set = [format!("Font{k}"), format!("{}", 20 + k), format!("&H0000000{n}"), format!("&H000000{n}0"), format!("&H00000{n}00"), format!("&H0000{n}000"),
            (n % 2).to_string(), (n / 2 % 2).to_string(), (n % 2).to_string(), "1".into(), format!("{}", 90 + k), format!("{}", 110 + k), format!("{n}.5"), format!("{n}"), format!("{n}"),
            format!("{n}.25"), format!("{n}.75"), format!("{n}"), format!("{}", 10 * n), format!("{}", 20 * n), format!("{}", 30 * n), format!("{}", n + 100)];
        for (i, s) in set.into_iter().enumerate() {
            d.v[i] = match pattern {
                0 => s,
                1 if (i + k) % 3 == 0 => String::new(),
                2 if (i + k) % 5 != 0 => match i { 1 | 12 | 13 | 15 | 16 | 20 => "0".into(), 10 | 11 => "100".into(), _ => String::new() },
                _ => s,
            };
        }
        d
    };
    for n in 1..=4usize {
        let perms = permutations(n);
        let radices = [vec![n + 2; n], vec![perms.len(), RES.len(), 2, 3]].concat();
        let name: &'static str = ["", "graphs 1", "graphs 2", "graphs 3", "graphs 4"][n];
        run.stage(name, product(&radices), |i| {
            let v = mixed(&radices, i);
            let defs: Vec<Def> = (0..n)
                .map(|k| {
                    // a style without a parent in the script has to be complete
                    let p = v[k];
                    let mut d = own(k, if p == 0 || p == n + 1 { 0 } else { v[n + 3] });
                    d.parent = if p == 0 { None } else { Some(if p == n + 1 { "zz".into() } else { NAMES[p - 1].into() }) };
                    d
                })
                .collect();
            let defs: Vec<Def> = perms[v[n]].iter().map(|&k| defs[k].clone()).collect();
            check(run, &Case { defs: &defs, res: RES[v[n + 1]], cut: if v[n + 2] == 1 { n / 2 } else { 0 } })
        });
    }
    // duplicate names: 2 names, parents none/a/b, lists of up to 4
    run.stage("duplicates", seq_count(6, run.pick(4, 5)) * 2, |i| {
        let defs: Vec<Def> = seq_at(6, i / 2)
            .iter()
            .enumerate()
            .map(|(at, &k)| {
                let mut d = own(at % 4, 0);
                d.name = NAMES[k % 2].into();
                d.parent = [None, Some("a".into()), Some("b".into())][k / 2].clone();
                d.v[1] = format!("{}", 11 + at);
                d
            })
            .collect();
        check(run, &Case { defs: &defs, res: RES[(i % 2) as usize], cut: 0 })
    });
    // chain a <- b <- c where one or two fields take every kind of value
    const VALS: [&str; 8] = ["", "0", "1", "100", "-1", "7.5", "&H00112233", "x"];
    let pairs: Vec<(usize, usize)> = (0..22).flat_map(|a| (a..22).map(move |b| (a, b))).filter(|p| run.pick(p.0 == p.1, true)).collect();
    run.stage("fields", (pairs.len() * 8 * 8 * 8 * 2) as u64, |i| {
        let v = mixed(&[pairs.len(), 8, 8, 8, 2], i);
        let (f, g) = pairs[v[0]];
        let mut d = [own(0, 0), own(1, 0), own(2, 0)];
        d[1].parent = Some("a".into());
        d[2].parent = Some("b".into());
        for k in 0..3 { d[k].v[f] = VALS[v[k + 1]].into(); d[k].v[g] = VALS[v[k + 1]].into(); }
        if v[4] == 1 { d.reverse() }
        check(run, &Case { defs: &d, res: RES[1], cut: 0 })
    });
    // top and bottom margins: columns present, values own or left, over a parent with its own
    const M: [&str; 4] = ["", "0", "9", "x"];
    run.stage("margins", 4u64.pow(7), |i| {
        let v = mixed(&[4; 7], i);
        let mut d = [own(0, 0), own(1, 0)];
        d[1].parent = Some("a".into());
        d[0].tb = Some([M[v[0]].into(), M[v[1]].into()]);
        d[1].tb = Some([M[v[2]].into(), M[v[3]].into()]);
        d[0].v[20] = M[v[4]].into();
        d[1].v[20] = M[v[5]].into();
        check(run, &Case { defs: &d, res: RES[v[6] % 2], cut: 0 })
    });
    run.stage("margins without columns", 4u64.pow(5), |i| {
        // direct calls: parent with MarginT/MarginB, child without
        let v = mixed(&[4; 5], i);
        let (mut a, mut b) = (own(0, 0), own(1, 0));
        if v[0] < 3 { a.tb = Some([M[v[1]].into(), M[v[2]].into()]) }
        a.v[20] = M[v[3]].into();
        b.v[20] = M[v[4]].into();
        let (sa, sb) = (a.style(), b.style());
        let Ok(p) = ResolvedStyle::from_style(&sa) else { return Ok(()) };
        let got = guard(|| ResolvedStyle::from_style_with_parent(&sb, &p).ok())?;
        let f = b.over(&a);
        let want = ResolvedStyle::from_style(&f.style()).ok().map(|w| format!("{w:?}"));
        if got.map(|g| format!("{g:?}")) != want { return Err(format!("{:?} over {:?}/{:?}", b.v[20], a.v[20], a.tb)) }
        Ok(())
    });
    // every field value through from_style and scaling
    const FV: [&str; 22] = ["", " ", "0", "1", "-1", "2", "100", "255", "256", "999.5", "1000", "1001", "65535", "65536", "-0.5", "1e2", "inf", "NaN", "&H00FF00&", "&HFF112233", "é", "+5"];
    const SC: [(f32, f32); 6] = [(1.0, 1.0), (2.0, 2.0), (0.5, 0.25), (3.0, 1.0), (0.001, 1000.0), (100.0, 100.0)];
    run.stage("values", (24 * 22 * 6) as u64, |i| {
        let v = mixed(&[24, 22, 6], i);
        let mut d = own(1, 0);
        if v[0] >= 22 { let mut t = ["7".to_string(), "8".into()]; t[v[0] - 22] = FV[v[1]].into(); d.tb = Some(t) } else { d.v[v[0]] = FV[v[1]].into() }
        // infinite and not-a-number lengths are accepted by the parser; nothing is claimed of them
        if matches!(FV[v[1]], "inf" | "NaN") { return guard(|| drop(ResolvedStyle::from_style(&d.style()))) }
        run.steps(1);
        values_of(&d, SC[v[2]])
    });
}
