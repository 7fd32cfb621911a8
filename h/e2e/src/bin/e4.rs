#![allow(warnings)]
include!("../../../target/e2e/g4.rs");
