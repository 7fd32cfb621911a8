//! A stand-in for `env_logger` (not available offline): logs nothing.
pub fn init() {}
pub fn try_init() -> Result<(), std::fmt::Error> {
    Ok(())
}
