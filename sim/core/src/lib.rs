//! The simulator: everything but the choice of curves. Code that is generic in the curve is compiled once
//! per cycle in the leaf crates, side by side.
pub mod byz;
pub mod ctx;
pub mod driver;
#[macro_use]
pub mod prog;
pub mod plan;
pub mod props;
pub mod refm;
pub mod rng;
pub mod rt;

use ctx::Viol;
use plan::Plan;
use serde_json::Value;

pub type Leaf = fn(&str, &Plan, u64) -> Result<Value, Viol>;
static mut LEAVES: Vec<Leaf> = vec![];
pub fn install(v: Vec<Leaf>) { unsafe { LEAVES = v } }
/// Runs a property's code on the plan's curve.
pub fn leaf(prop: &str, plan: &Plan, x: u64) -> Result<Value, Viol> { unsafe { LEAVES[(plan.curve % LEAVES.len() as u64) as usize](prop, plan, x) } }

#[macro_export]
macro_rules! leaf {
    ($c:ty, $i:ty) => {
        use simcore::{ctx::Viol, plan::Plan, props::*};
        pub fn run(prop: &str, plan: &Plan, x: u64) -> Result<serde_json::Value, Viol> {
            let r = match prop {
                "C01" => c01::run::<$c, $i>(plan),
                "C02" => c02::run::<$c, $i>(plan),
                "C03" => c03::run::<$c, $i>(plan),
                "C04" => c04::run::<$c, $i>(plan),
                "C05" => c05::run::<$c, $i>(plan),
                "C07" => c07::run::<$c, $i>(plan),
                "C08" => return c08::process::<$c, $i>(plan, x),
                "C09" => c09::run::<$c, $i>(plan),
                "C10" => return c10::process::<$c, $i>(plan, x),
                "C11" => c11::run::<$c>(plan, c11::endo),
                "C12" => return c12::process::<$c, $i>(plan, x),
                "C13" => c13::run::<$c, $i>(plan),
                "C15" => c15::run::<$c, $i>(plan),
                "C14" => return c14::process::<$c, $i>(plan, x),
                _ => unreachable!(),
            };
            r.map(|_| serde_json::Value::Null)
        }
    };
}
