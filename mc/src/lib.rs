pub mod dev;
pub mod quic;
pub mod exec;
pub mod net;
pub mod protos;
pub mod report;
pub mod session;
pub mod scen;
pub mod foresee;
