#![allow(warnings)]
include!("../../../target/e2e/g7.rs");
