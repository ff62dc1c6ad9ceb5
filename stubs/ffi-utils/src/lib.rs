//! Stand-in for ffi-utils: raw pointer conversions, result codes, thread-local last error.
use failure::format_err;
use std::cell::RefCell;
use std::ffi::{CStr, CString};

pub type Result<T> = std::result::Result<T, failure::Error>;

#[repr(C)]
#[allow(non_camel_case_types)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SNIPS_RESULT {
    SNIPS_RESULT_OK = 0,
    SNIPS_RESULT_KO = 1,
}

thread_local! {
    pub static LAST_ERROR: RefCell<Option<String>> = RefCell::new(None);
}

#[repr(C)]
#[derive(Debug)]
pub struct CStringArray {
    pub data: *const *const libc::c_char,
    pub size: libc::c_int,
}

pub trait RawPointerConverter<T>: Sized {
    fn into_raw_pointer(self) -> *const T;
    unsafe fn from_raw_pointer(input: *const T) -> Result<Self>;
    unsafe fn drop_raw_pointer(input: *const T) -> Result<()> {
        Self::from_raw_pointer(input).map(|_| ())
    }
}

impl<T> RawPointerConverter<T> for T {
    fn into_raw_pointer(self) -> *const T {
        Box::into_raw(Box::new(self)) as *const T
    }
    unsafe fn from_raw_pointer(input: *const T) -> Result<T> {
        if input.is_null() {
            return Err(format_err!("could not take raw pointer, unexpected null pointer"));
        }
        Ok(*Box::from_raw(input as *mut T))
    }
}

impl RawPointerConverter<libc::c_char> for CString {
    fn into_raw_pointer(self) -> *const libc::c_char {
        self.into_raw() as *const libc::c_char
    }
    unsafe fn from_raw_pointer(input: *const libc::c_char) -> Result<Self> {
        if input.is_null() {
            return Err(format_err!("could not take raw pointer, unexpected null pointer"));
        }
        Ok(CString::from_raw(input as *mut libc::c_char))
    }
}

pub trait RawBorrow<T> {
    unsafe fn raw_borrow<'a>(input: *const T) -> Result<&'a Self>;
}

impl<T> RawBorrow<T> for T {
    unsafe fn raw_borrow<'a>(input: *const T) -> Result<&'a Self> {
        input.as_ref().ok_or_else(|| format_err!("could not borrow, unexpected null pointer"))
    }
}

impl RawBorrow<libc::c_char> for CStr {
    unsafe fn raw_borrow<'a>(input: *const libc::c_char) -> Result<&'a Self> {
        if input.is_null() {
            return Err(format_err!("could not borrow, unexpected null pointer"));
        }
        Ok(CStr::from_ptr(input))
    }
}

pub fn convert_to_c_string_result(s: &str) -> Result<CString> {
    Ok(CString::new(s)?)
}

pub fn point_to_string(pointer: *mut *const libc::c_char, string: String) -> Result<()> {
    unsafe { *pointer = CString::new(string)?.into_raw_pointer() };
    Ok(())
}

pub fn rust_string_from(p: *const libc::c_char) -> Result<String> {
    Ok(unsafe { CStr::raw_borrow(p) }?.to_str()?.to_string())
}

#[macro_export]
macro_rules! create_rust_string_from {
    ($e:expr) => {
        $crate::rust_string_from($e)?
    };
}

pub fn message(e: &failure::Error) -> String {
    let mut m = e.to_string();
    for cause in e.iter_causes() {
        m.push_str("\nCaused by: ");
        m.push_str(&cause.to_string());
    }
    m
}

#[macro_export]
macro_rules! wrap {
    ($e:expr) => {
        match $e {
            Ok(_) => $crate::SNIPS_RESULT::SNIPS_RESULT_OK,
            Err(e) => {
                let msg = $crate::message(&e);
                $crate::LAST_ERROR.with(|p| *p.borrow_mut() = Some(msg));
                $crate::SNIPS_RESULT::SNIPS_RESULT_KO
            }
        }
    };
}

pub fn last_error(error: *mut *const libc::c_char) -> Result<()> {
    let msg = LAST_ERROR.with(|p| p.borrow().clone()).unwrap_or_else(|| "No error message".to_string());
    point_to_string(error, msg.replace('\0', "\\0"))
}

#[macro_export]
macro_rules! generate_error_handling {
    ($name:ident) => {
        #[no_mangle]
        pub extern "C" fn $name(error: *mut *const libc::c_char) -> $crate::SNIPS_RESULT {
            wrap!($crate::last_error(error))
        }
    };
}
