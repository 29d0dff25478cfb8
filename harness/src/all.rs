//! Harnesses, reference models and the interface to the executor; shared by the symbolic module
//! (`harness`) and the native replay binary (`replay`).
#![allow(dead_code)]

/// Defines harness entry points and a table of them.
macro_rules! harnesses {
    ($($name:ident $body:block)*) => {
        $(#[no_mangle] pub extern "C" fn $name() $body)*
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}

pub mod build;
pub mod file;
pub mod meta;
pub mod spec;
pub mod stub;
pub mod sym;
pub mod run;
pub mod tables;

macro_rules! modules {
    ($($m:ident)*) => {
        $(pub mod $m;)*
        pub const TABLES: &[&[(&str, extern "C" fn())]] = &[$($m::TABLE,)* stub::TABLE];
    };
}

modules! { h_any h_api h_hist h_seq h_asf h_cfb h_ebml h_exe h_fall h_id3 h_meta h_mp4 h_pdf h_rm h_sig h_sql h_txt h_wild h_xml h_zip }
