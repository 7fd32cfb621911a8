#![allow(warnings)]
include!("../../../target/mac/bad.rs");
