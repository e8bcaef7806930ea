//! A simulated Postgres server: SQL, transactions and locks, wire protocol, network.
pub mod exec;
pub mod net;
pub mod sql;
pub mod val;
pub mod wire;
