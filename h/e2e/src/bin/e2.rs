#![allow(warnings)]
include!("../../../target/e2e/g2.rs");
