mod build;
mod convert;
mod events;
mod history;
mod incr;
mod light;
mod lines;
mod notify;
mod conc;
mod plug;
mod sched;
mod pos;
mod search;
mod query;
mod sessions;
mod store;
mod styles;
mod tags;
mod text;

fn main() {
    mc_common::main_with(&[
        ("E01", text::e01),
        ("E02", history::e02),
        ("E03", incr::e03),
        ("E04", pos::e04),
        ("E05", events::e05),
        ("E06", tags::e06),
        ("E07", styles::e07),
        ("E08", store::e08),
        ("E09", query::e09),
        ("E10", build::e10),
        ("E11", convert::e11),
        ("E12", search::e12),
        ("E13", sessions::e13),
        ("E14", notify::e14),
        ("E15", plug::e15),
        ("E16", conc::e16),
        ("E17", notify::e17),
        ("E18", light::e18),
    ])
}
