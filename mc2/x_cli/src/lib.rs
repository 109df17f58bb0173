//! the parts of the library that the command line interface needs, on the rest of the library
#![feature(split_as_slice, iterator_try_collect, try_blocks, once_cell_try, type_alias_impl_trait, write_all_vectored, trait_alias)]
pub use linkspace_common::*;
#[path = "/repo/crates/common/src/cli/mod.rs"]
pub mod cli;
#[path = "/repo/crates/common/src/predicate_aliases.rs"]
pub mod predicate_aliases;
