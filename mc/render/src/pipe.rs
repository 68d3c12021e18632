//! The layers the software pipeline builds for one script and time.
use ass_core::parser::{Event, Script, Section};
use ass_renderer::pipeline::{IntermediateLayer, SoftwarePipeline, TextEffect};
use ass_renderer::renderer::RenderContext;
use ass_renderer::Pipeline;
use mc_common::guard;
use std::cell::RefCell;

thread_local! {
    static PIPELINE: RefCell<Option<(SoftwarePipeline, RenderContext)>> = const { RefCell::new(None) };
}

/// The screen, twice the script's resolution
pub const WIDTH: u32 = 128;
pub const HEIGHT: u32 = 96;

const STYLE: &str = "Format: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n";
const EVENT: &str = "\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n";

pub fn stamp(cs: u32) -> String {
    format!("{}:{:02}:{:02}.{:02}", cs / 360000, cs / 6000 % 60, cs / 100 % 60, cs % 100)
}

pub fn script(style: &str, start: u32, end: u32, text: &str) -> String {
    format!(
        "[Script Info]\nPlayResX: {}\nPlayResY: {}\n\n[V4+ Styles]\n{STYLE}Style: Default,DejaVu Sans,{style}\n{EVENT}Dialogue: 0,{},{},Default,,0,0,0,,{text}\n",
        WIDTH / 2,
        HEIGHT / 2,
        stamp(start),
        stamp(end)
    )
}

/// The layers of every event, whether the time is in its span or not
pub fn layers(source: &str, time: u32) -> Result<Vec<IntermediateLayer>, String> {
    let run = || -> Result<Vec<IntermediateLayer>, String> {
        let script = Script::parse(source).map_err(|e| format!("the script does not parse: {e}"))?;
        let events: Vec<&Event<'_>> = script.sections().iter().filter_map(|s| if let Section::Events(e) = s { Some(e.iter()) } else { None }).flatten().collect();
        PIPELINE.with(|p| {
            let mut p = p.borrow_mut();
            let (pipeline, context) = p.get_or_insert_with(|| (SoftwarePipeline::with_dimensions(WIDTH as f32, HEIGHT as f32), RenderContext::new(WIDTH, HEIGHT)));
            pipeline.prepare_script(&script, None).map_err(|e| e.to_string())?;
            pipeline.process_events(&events, time, context).map_err(|e| e.to_string())
        })
    };
    guard(run).map_err(|e| format!("building the layers of {source:?} at {time} panics: {e}"))?
}

/// What is animated of one piece of text, as numbers
#[derive(Clone, Debug, PartialEq)]
pub struct Look {
    pub text: String,
    pub x: f64,
    pub y: f64,
    pub v: [f64; LOOKS],
    pub karaoke: Option<(f64, u8, [u8; 4])>,
    /// what it is turned about, if it is turned
    pub around: Option<(f32, f32)>,
    /// everything of the text that has no number above
    pub rest: String,
}

pub const FS: usize = 0;
pub const SCALE_X: usize = 1;
pub const SCALE_Y: usize = 2;
pub const SPACING: usize = 3;
/// red, green, blue and alpha of the fill, the outline and the shadow
pub const FILL: usize = 4;
pub const LINE: usize = 8;
pub const SHADE: usize = 12;
pub const BORDER_X: usize = 16;
pub const BORDER_Y: usize = 17;
pub const SHADOW_X: usize = 18;
pub const SHADOW_Y: usize = 19;
pub const BLUR: usize = 20;
pub const EDGE_BLUR: usize = 21;
pub const TURN_X: usize = 22;
pub const TURN_Y: usize = 23;
pub const TURN_Z: usize = 24;
pub const SHEAR_X: usize = 25;
pub const SHEAR_Y: usize = 26;
pub const LOOKS: usize = 27;

fn colour(v: &mut [f64; LOOKS], at: usize, c: &[u8; 4]) {
    (0..4).for_each(|i| v[at + i] = f64::from(c[i]));
}

pub fn looks(layers: &[IntermediateLayer]) -> Vec<Look> {
    let mut all = Vec::new();
    for layer in layers {
        let IntermediateLayer::Text(t) = layer else { continue };
        let mut v = [0.0; LOOKS];
        v[SCALE_X] = 100.0;
        v[SCALE_Y] = 100.0;
        v[SPACING] = f64::from(t.spacing);
        colour(&mut v, FILL, &t.color);
        let (mut karaoke, mut around) = (None, None);
        let mut rest = t.font_family.clone();
        for e in &t.effects {
            match e {
                TextEffect::Shadow { color, x_offset, y_offset } => {
                    colour(&mut v, SHADE, color);
                    v[SHADOW_X] = f64::from(*x_offset);
                    v[SHADOW_Y] = f64::from(*y_offset);
                }
                TextEffect::Outline { color, width_x, width_y } => {
                    colour(&mut v, LINE, color);
                    v[BORDER_X] = f64::from(*width_x);
                    v[BORDER_Y] = f64::from(*width_y);
                }
                TextEffect::Blur { radius } => v[BLUR] = f64::from(*radius),
                TextEffect::EdgeBlur { radius } => v[EDGE_BLUR] = f64::from(*radius),
                TextEffect::Rotation { x, y, z, origin } => {
                    v[TURN_X] = f64::from(*x);
                    v[TURN_Y] = f64::from(*y);
                    v[TURN_Z] = f64::from(*z);
                    around = *origin;
                }
                TextEffect::Shear { x, y } => {
                    v[SHEAR_X] = f64::from(*x);
                    v[SHEAR_Y] = f64::from(*y);
                }
                TextEffect::Scale { x, y } => {
                    v[SCALE_X] = f64::from(*x);
                    v[SCALE_Y] = f64::from(*y);
                }
                TextEffect::Karaoke { progress, style, secondary } => karaoke = Some((f64::from(*progress), *style, *secondary)),
                other => rest.push_str(&format!(" {other:?}")),
            }
        }
        v[FS] = f64::from(t.font_size) * 100.0 / v[SCALE_Y];
        all.push(Look { text: t.text.clone(), x: f64::from(t.x), y: f64::from(t.y), v, karaoke, around, rest });
    }
    all
}
