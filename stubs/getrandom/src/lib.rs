//! getrandom with every byte it hands out recorded in the harness' randomness log.
use core::num::NonZeroU32;
#[derive(Copy, Clone, PartialEq, Eq)]
pub struct Error(NonZeroU32);
impl Error {
    pub const UNSUPPORTED: Error = Error(NonZeroU32::new(1 << 31).unwrap());
    pub const ERRNO_NOT_POSITIVE: Error = Error(NonZeroU32::new((1 << 31) + 1).unwrap());
    pub const UNEXPECTED: Error = Error(NonZeroU32::new((1 << 31) + 2).unwrap());
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> { None }
    pub const fn code(self) -> NonZeroU32 { self.0 }
}
impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("getrandom error") } }
impl core::fmt::Display for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("getrandom error") } }
impl From<NonZeroU32> for Error { fn from(c: NonZeroU32) -> Self { Error(c) } }
impl std::error::Error for Error {}
impl From<Error> for std::io::Error { fn from(e: Error) -> Self { std::io::Error::new(std::io::ErrorKind::Other, e) } }
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    sy::entropy(dest);
    Ok(())
}
pub fn getrandom_uninit(dest: &mut [core::mem::MaybeUninit<u8>]) -> Result<&mut [u8], Error> {
    let d = unsafe { core::slice::from_raw_parts_mut(dest.as_mut_ptr() as *mut u8, dest.len()) };
    sy::entropy(d);
    Ok(d)
}
