//! The properties.

use crate::runner::Prop;

mod cli;
mod dev;
mod e01;
mod e02;
mod e03;
mod s01;
mod s02;
mod s03;
mod s04;
mod v01;
mod v02;
mod x01;
mod x02;

pub static PROPS: &[&Prop] = &[
    &s01::PROP,
    &s02::PROP,
    &s03::PROP,
    &s04::PROP,
    &e01::PROP,
    &e02::PROP,
    &e03::PROP,
    &v01::PROP,
    &v02::PROP,
    &x01::PROP,
    &x02::PROP,
    &cli::C01,
    &cli::C02,
    &cli::C03,
];

pub fn find(id: &str) -> Option<&'static Prop> {
    if id == "DEV" {
        return Some(&dev::PROP);
    }
    PROPS.iter().copied().find(|p| p.id == id)
}
