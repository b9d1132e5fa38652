#![allow(non_camel_case_types)]
//! Stand-in: the only thing the code under test calls is malloc_stats_print.
pub unsafe fn malloc_stats_print(_write_cb: Option<unsafe extern "C" fn(*mut core::ffi::c_void, *const core::ffi::c_char)>, _cbopaque: *mut core::ffi::c_void, _opts: *const core::ffi::c_char) {}
