//! An independent model of the DNS and DNSSEC, written from the RFCs. Nothing here calls the crate under test except
//! `conv`, which translates between the two representations through public fields.

pub mod name;
pub mod rr;
pub mod wire;
pub mod crypto;
pub mod gen;
pub mod conv;
pub mod json;
pub mod zone;
pub mod message;
pub mod resolver;
pub mod net;
