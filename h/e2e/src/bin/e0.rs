#![allow(warnings)]
include!("../../../target/e2e/g0.rs");
