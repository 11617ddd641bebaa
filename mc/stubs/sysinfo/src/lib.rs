//! Offline stand-in.
pub struct System;
impl System { pub fn new_all() -> Self { System } pub fn long_os_version() -> Option<String> { None } pub fn physical_core_count(&self) -> Option<usize> { Some(1) } }
