//! Stand-in for reth-metrics: the derive, and metrics re-exported.
pub use metrics;
pub use reth_metrics_derive::Metrics;
