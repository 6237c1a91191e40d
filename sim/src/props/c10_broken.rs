//! C10 for a tree whose macros reject templates they should accept.

use crate::props::Prop;
use crate::sim::Res;
use crate::viol;

pub static PROP: Prop = Prop {
    id: if cfg!(feature = "stable-compiler") { "C15" } else { "C10" },
    run,
    quick: 1,
    thorough_factor: 1,
    cross_process: false,
    rule: "the templates do not compile although everything else which uses genco does, so there is nothing to run",
};

fn run() -> Res {
    viol!("does_not_compile", "templates are rejected: {}", option_env!("SIM_BUILD_ERROR").unwrap_or_default());
}
