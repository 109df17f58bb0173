//! the commands that read and write packets, on the library
#![feature(once_cell_try, iterator_try_collect, write_all_vectored, can_vector, lazy_cell, control_flow_enum, type_alias_impl_trait)]
#![allow(unused_imports)]
pub use linkspace_common::{
    cli::{
        clap,
        clap::Parser,
        keys,
        opts::{CommonOpts, LinkspaceOpts},
        reader::{DataReadOpts, PktReadOpts},
        tracing, WriteDestSpec,
    },
    prelude::*,
};
#[path = "/repo/cli/linkspace/src/collect.rs"]
pub mod collect;
#[path = "/repo/cli/linkspace/src/datapoint.rs"]
pub mod datapoint;
#[path = "/repo/cli/linkspace/src/filter.rs"]
pub mod filter;
#[path = "/repo/cli/linkspace/src/get_links.rs"]
pub mod get_links;
#[path = "/repo/cli/linkspace/src/point.rs"]
pub mod point;
#[path = "/repo/cli/linkspace/src/rewrite.rs"]
pub mod rewrite;
#[path = "/repo/cli/linkspace/src/save.rs"]
pub mod save;
#[path = "/repo/cli/linkspace/src/watch.rs"]
pub mod watch;
#[path = "/repo/cli/linkspace/src/multi_watch.rs"]
pub mod multi_watch;
#[path = "/repo/cli/linkspace/src/pktf.rs"]
pub mod pktf;
