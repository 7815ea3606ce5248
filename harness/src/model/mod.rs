//! Independent executable models: nothing here calls parquet2 or the thrift crate.
pub mod enc;
pub mod pq;
pub mod thrift;
