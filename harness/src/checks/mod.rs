use crate::engine::Check;

pub mod bad;
pub mod class;
pub mod coders;
pub mod edit;
pub mod frames;
pub mod fuzz;
pub mod io;
pub mod jump;
pub mod limits;
pub mod pool;
pub mod strings;
pub mod types;

pub fn all() -> &'static [&'static Check] {
    ALL
}

static ALL: &[&Check] = &[
    &class::C01,
    &class::C02,
    &class::C03,
    &class::C04,
    &jump::C05,
    &class::C06,
    &pool::C07,
    &class::C08,
    &strings::C09,
    &strings::C10,
    &types::C11,
    &types::C12,
    &class::C13,
    &class::C14,
    &fuzz::C15,
    &limits::C16,
    &io::C17,
    &bad::C18,
    &strings::C19,
    &frames::C20,
    &frames::C21,
    &coders::C22,
    &coders::C23,
    &edit::C24,
];

use coffer::clazz::Class;
use coffer::ReadWrite;

/// Reads one class from the front; returns it with the number of bytes consumed.
pub fn read(b: &[u8]) -> Result<(Class, usize), coffer::Error> {
    let mut r = b;
    let c = <Class as ReadWrite>::read_from(&mut r)?;
    Ok((c, b.len() - r.len()))
}
pub fn write(c: &Class) -> Result<Vec<u8>, coffer::Error> {
    let mut v = vec![];
    c.write_to(&mut v)?;
    Ok(v)
}
