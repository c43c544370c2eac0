#[macro_use]
pub mod sx;
pub mod util;
pub mod names;
pub mod image;
pub mod ports;
pub mod amounts;
pub mod volumes;
pub mod numbers;
pub mod valid;
pub mod keywords;
pub mod formats;
pub mod convert;
pub mod docs;
pub mod refuse;
pub mod text;
pub mod eq;
pub mod made;

pub const TABLES: &[&[(&str, fn(&[usize]))]] = &[names::TABLE, image::TABLE, ports::TABLE, amounts::TABLE, volumes::TABLE, numbers::TABLE, valid::TABLE, keywords::TABLE, formats::TABLE, convert::TABLE, docs::TABLE, refuse::TABLE, text::TABLE, eq::TABLE, made::TABLE];
