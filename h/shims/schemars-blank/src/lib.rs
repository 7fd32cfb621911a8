//! Generated command lines ask that types have JSON schemas; nothing here needs one.
pub trait JsonSchema {}
impl<T: ?Sized> JsonSchema for T {}
