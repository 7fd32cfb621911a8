#![allow(warnings)]
include!("../../../target/e2e/g3.rs");
