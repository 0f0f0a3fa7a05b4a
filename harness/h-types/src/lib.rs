//! Checks of the consensus types.
pub mod c04;
pub mod c08;
pub mod e01;
pub mod e02;
pub mod e03;
pub mod g01;
