//! Common machinery of the sparseglm runtime monitors: workload generation, an
//! independent reference model, drivers of the code under test and reporting.
#![allow(non_snake_case)]
#![allow(clippy::needless_range_loop, clippy::too_many_arguments)]
pub mod dfx;
pub mod est;
pub mod fit;
pub mod gen;
pub mod refm;
pub mod rep;
pub mod rng;
pub mod mon;
pub mod optim;
