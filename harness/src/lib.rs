#![allow(improper_ctypes_definitions)]
extern crate alloc;
pub mod rt;
#[cfg(feature = "native")]
pub mod native;
pub mod zoo;
#[macro_use]
pub mod bx;
pub mod jx;
pub mod rx;
pub mod tx;
macro_rules! modules { ($($m:ident $f:literal;)*) => { $(#[cfg(feature = $f)] pub mod $m;)* }; }
modules! {
    b01 "b01"; b02 "b02"; b03 "b03"; b04 "b04"; b05 "b05"; b06 "b06"; j01 "j01"; j02 "j02"; j03 "j03"; j04 "j04"; j05 "j05"; j06 "j06"; j07 "j07"; j08 "j08"; j09 "j09"; j10 "j10"; r01 "r01"; r02 "r02"; r03 "r03"; r04 "r04"; r05 "r05"; r06 "r06"; r07 "r07"; r08 "r08"; r09 "r09"; t01 "t01"; t02 "t02"; t03 "t03"; t04 "t04"; t05 "t05"; t06 "t06"; t07 "t07"; x01 "x01"; x02 "x02"; x03 "x03"; x04 "x04"; x06 "x06"; x07 "x07";
}
