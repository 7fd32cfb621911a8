#![allow(warnings)]
include!("../../../target/e2e/g6.rs");
