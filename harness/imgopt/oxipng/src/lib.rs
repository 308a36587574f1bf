//! A stand-in for oxipng, which is not among the crates at hand: what the optimizer makes of an
//! image is up to the harness.
pub struct Options {
    pub level: u8,
}
impl Options {
    pub fn from_preset(level: u8) -> Options {
        Options { level }
    }
    pub fn max_compression() -> Options {
        Options { level: 6 }
    }
}
impl Default for Options {
    fn default() -> Options {
        Options { level: 2 }
    }
}
#[derive(Debug, Clone)]
pub struct PngError(pub String);
impl std::fmt::Display for PngError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for PngError {}
pub type PngResult<T> = Result<T, PngError>;
pub static mut OPTIMIZER: Option<fn(&[u8], &Options) -> PngResult<Vec<u8>>> = None;
pub fn optimize_from_memory(data: &[u8], opts: &Options) -> PngResult<Vec<u8>> {
    unsafe { OPTIMIZER.unwrap()(data, opts) }
}
