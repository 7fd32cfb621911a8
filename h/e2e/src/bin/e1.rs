#![allow(warnings)]
include!("../../../target/e2e/g1.rs");
