pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub fn all() -> Vec<crate::driver::Scenario> {
    vec![c01::scenario(), c02::scenario(), c03::scenario(), c04::scenario(), c05::scenario(), c06::scenario(), c07::scenario(), c08::scenario(), c09::scenario(), c10::scenario(), c11::scenario(), c12::scenario(), c13::scenario(), c14::scenario(), c15::scenario()]
}
