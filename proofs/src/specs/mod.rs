//! The contracts.
/// declares contracts and their table
#[macro_export]
macro_rules! specs {
    ($(#[$m:meta])* $(fn $name:ident() $body:block)*) => {
        $(pub fn $name() $body)*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
pub mod api;
pub mod codecs;
pub mod commands;
pub mod ends;
pub mod enums;
pub mod events;
pub mod files;
pub mod lists;
pub mod objects;
pub mod osb;
pub mod sections;
pub mod shape;
pub mod timing;
pub mod versions;
pub mod zoo;
pub fn all() -> Vec<(&'static str, fn())> { [api::TABLE, codecs::TABLE, commands::TABLE, ends::TABLE, enums::TABLE, events::TABLE, files::TABLE, objects::TABLE, osb::TABLE, sections::TABLE, shape::TABLE, timing::TABLE, lists::TABLE, versions::TABLE, zoo::TABLE].concat() }
