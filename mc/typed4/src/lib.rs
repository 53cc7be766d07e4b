// Patterns written out whole.
#![recursion_limit = "1024"]
mod table;
pub use table::TABLE;
