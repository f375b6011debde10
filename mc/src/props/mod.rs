use crate::engine::Space;

pub mod big;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c10;
pub mod c11;
pub mod c13;
pub mod c17;
pub mod c22;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c28;
pub mod chars;
pub mod format;
mod parts;
pub mod texts;

pub struct Prop {
    pub id: &'static str,
    pub spaces: fn(bool) -> Vec<Space>,
    pub oracle: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn all() -> Vec<Prop> {
    vec![c01::prop(), c02::prop(), c03::prop(), c04::prop(), c05::prop(), c06::prop(), c07::c07(), c07::c08(), c07::c09(), c10::prop(), c11::prop(), c11::c12(), c13::c13(), c13::c14(), c13::c15(), c13::c16(), c17::c17(), c17::c18(), c17::c19(), c17::c20(), c17::c21(), c22::c22(), c10::c23(), c22::c24(), c25::prop(), c26::prop(), c27::prop(), c28::prop()]
}
pub fn get(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
