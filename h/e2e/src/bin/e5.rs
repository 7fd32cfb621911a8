#![allow(warnings)]
include!("../../../target/e2e/g5.rs");
