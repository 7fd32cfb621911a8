#![allow(warnings)]
include!("../../../target/mac/good.rs");
