mod bytes;
mod delta;
mod lint;
mod mutate;
mod parse;
mod refparse;
mod registry;
mod roundtrip;
mod streaming;
mod styles;
mod text;
mod timing;
mod tokens;
mod values;

fn main() {
    mc_common::main_with(&[
        ("C01", parse::c01),
        ("C02", parse::c02),
        ("C03", roundtrip::c03),
        ("C04", delta::c04),
        ("C05", mutate::c05),
        ("C06", tokens::c06),
        ("C07", values::c07),
        ("C08", text::c08),
        ("C09", timing::c09),
        ("C10", lint::c10),
        ("C11", styles::c11),
        ("C12", registry::c12),
        ("C13", streaming::c13),
        ("C14", bytes::c14),
    ])
}
