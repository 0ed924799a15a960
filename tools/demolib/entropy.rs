//! Stand-in for the `getrandom` crate. Every draw is answered by the source the simulator installed on this
//! thread; a draw without a source is a harness error and fails.
use std::cell::RefCell;
use std::fmt;
use std::num::NonZeroU32;

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub struct Error(NonZeroU32);

impl Error {
    pub const UNSUPPORTED: Error = Error(NonZeroU32::new((1 << 31) + 0).unwrap());
    pub const UNEXPECTED: Error = Error(NonZeroU32::new((1 << 31) + 2).unwrap());
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
    pub fn raw_os_error(self) -> Option<i32> {
        i32::try_from(self.0.get()).ok()
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "simulated getrandom failure {}", self.0)
    }
}

impl std::error::Error for Error {}

impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Error {
        Error(c)
    }
}

impl From<Error> for std::io::Error {
    fn from(e: Error) -> std::io::Error {
        match e.raw_os_error() {
            Some(c) => std::io::Error::from_raw_os_error(c),
            None => std::io::Error::new(std::io::ErrorKind::Other, e),
        }
    }
}

/// Fills the buffer, or returns an errno.
pub type Source = Box<dyn FnMut(&mut [u8]) -> Result<(), u32>>;

thread_local! {
    static SOURCE: RefCell<Option<Source>> = const { RefCell::new(None) };
}

pub fn sim_install(s: Option<Source>) -> Option<Source> {
    SOURCE.with(|c| std::mem::replace(&mut *c.borrow_mut(), s))
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    SOURCE.with(|c| match c.borrow_mut().as_mut() {
        Some(f) => f(dest).map_err(|e| Error(NonZeroU32::new(e.max(1)).unwrap())),
        None => Err(Error::UNEXPECTED),
    })
}
