use crate::core::Property;

pub mod config;
pub mod divergence;
pub mod fidelity;
pub mod hostile;
pub mod init;
pub mod memory;
pub mod messages;
pub mod modes;
pub mod omm;
pub mod pure;
pub mod reuse;
pub mod time;
pub mod tle;
pub mod total;

pub static ALL: &[&Property] = &[
    &fidelity::C01,
    &fidelity::C02,
    &fidelity::C03,
    &divergence::C04,
    &init::C05,
    &reuse::C06,
    &modes::C07,
    &tle::C08,
    &tle::C09,
    &hostile::C10,
    &tle::C11,
    &omm::C12,
    &omm::C13,
    &time::C14,
    &time::C15,
    &total::C16,
    &pure::C17,
    &config::C18,
    &memory::C19,
    &messages::C20,
];
