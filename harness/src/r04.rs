//! R04: parsing any text ends, with a value or an error.
use crate::bx::Same;
use crate::rt::*;
use crate::rx::*;
use crate::{ck, harness};
use nanoserde::*;
struct Tot;
impl VisD for Tot {
    fn go<T: DeRon + Same + ModelR>(&self, t: String) {
        total::<T>(t)
    }
}
fn total<T: DeRon>(t: String) {
    fmt_stub(true);
    let base = live();
    peak_reset();
    let r = T::deserialize_ron(&t);
    ck!(peak() - base <= 8192 + 256 * t.len() as u64);
    observe(r.is_ok() as u64);
    match r {
        Ok(v) => {
            cover(1);
            drop(v)
        }
        Err(e) => {
            cover(2);
            ck!(e.line <= t.len() && e.col <= t.len());
        }
    }
}
harness! {
    r04 = || texts(&Tot, case() / 100, (case() % 100) as usize);
    // floats: the value is opaque, the tokenizer is not
    r04f = || {
        let n = (case() % 100) as usize;
        let h = any_string(n);
        match case() / 100 {
            0 => total::<f64>(h),
            1 => total::<f32>(h),
            2 => total::<Vec<f64>>(format!("[{h}]")),
            _ => total::<Option<f32>>(format!("-{h}")),
        }
    };
    // long documents around arbitrary bytes
    r04l = || {
        let h = any_string(3);
        let k = 4000;
        let mut t = String::new();
        match case() {
            0 => { for _ in 0..k { t.push_str("//\n") } t.push_str(&h); total::<u8>(t) }
            1 => { for _ in 0..k { t.push_str("/**/") } t.push_str(&h); total::<u8>(t) }
            2 => { for _ in 0..k { t.push('\'') } t.push_str(&h); total::<u8>(t) }
            3 => { t.push('('); for _ in 0..k { t.push_str("x:1,") } t.push_str(&h); total::<crate::zoo::S2>(t) }
            4 => { t.push('['); for _ in 0..k { t.push_str("1,") } t.push_str(&h); total::<Vec<u8>>(t) }
            5 => { t.push('"'); for _ in 0..k { t.push_str("\\u0041") } t.push_str(&h); total::<String>(t) }
            6 => { for _ in 0..40 { t.push('1') } t.push_str(&h); total::<u64>(t) }
            _ => { for _ in 0..k { t.push(' ') } t.push_str(&h); total::<u8>(t) }
        }
    };
}
