//! Checks of the primary. They are compiled inside the crate, whose parts are private to it.
#![allow(missing_docs, missing_debug_implementations, unreachable_pub, clippy::all)]

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c07;
pub mod c05;
pub mod c06;
pub mod c09;
pub mod dag;
pub mod db;
pub mod handler;
