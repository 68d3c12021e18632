mod anim;
mod clips;
mod coverage;
mod frames;
mod pipe;
mod place;
mod select;
mod soft;
mod turn;
mod small;
mod stacking;
mod tags;

/// mixed radix digits of a case number
fn mx(n: &[u64], i: u64) -> Vec<u64> {
    mc_common::mixed(&n.iter().map(|&v| v as usize).collect::<Vec<_>>(), i).into_iter().map(|v| v as u64).collect()
}


fn main() {
    mc_common::main_with(&[("R01", select::r01), ("R02", frames::r02), ("R03", anim::r03), ("R04", stacking::r04), ("R05", coverage::r05), ("R06", tags::r06), ("R07", small::r07), ("R08", small::r08), ("R09", clips::r09), ("R10", tags::r10), ("R11", place::r11), ("R12", soft::r12), ("R13", turn::r13)])
}
