//! R06: white space and comments between tokens change nothing.
use crate::bx::*;
use crate::j08::{long, weave};
use crate::rt::*;
use crate::zoo::*;
use crate::{ck, harness};
use nanoserde::*;
use std::collections::*;

fn same<T: DeRon + Same>(doc: &str, n: usize, twice: bool) {
    let toks: Vec<&str> = doc.split(' ').collect();
    let (plain, t) = weave(&toks, n, twice);
    fmt_stub(true);
    match (T::deserialize_ron(&plain), T::deserialize_ron(&t)) {
        (Ok(a), Ok(b)) => {
            cover(1);
            ck!(a.same(&b))
        }
        _ => ck!(false),
    }
}
fn far<T: DeRon + Same>(doc: &str, at: usize, l: usize) {
    let toks: Vec<&str> = doc.split(' ').collect();
    let plain = toks.concat();
    let mut t = String::with_capacity(4 * l + 64);
    for i in 0..=toks.len() {
        if i == at {
            long(&mut t, l)
        }
        if i < toks.len() {
            t.push_str(toks[i])
        }
    }
    fmt_stub(true);
    match (T::deserialize_ron(&plain), T::deserialize_ron(&t)) {
        (Ok(a), Ok(b)) => {
            cover(1);
            ck!(a.same(&b))
        }
        _ => ck!(false),
    }
}
harness! {
    // long comments: case = document and place, length
    r06l = || { let l = LADDER[(case() % 100) as usize]; match case() / 100 {
        0 => far::<u8>("41", 0, l),
        1 => far::<S2>("( x : 1 , y : true )", 1, l),
        2 => far::<S2>("( x : 1 , y : true )", 3, l),
        3 => far::<Option<E>>("C ( x : 1 , y : 2 )", 1, l),
        _ => far::<Vec<u8>>("[ 1 , 23 ]", 2, l),
    }};
    r06 = || {
        let n = (case() % 10) as usize;
        let w = case() / 10 % 2 == 1;
        match case() / 100 {
            0 => same::<u8>("41", n, w),
            1 => same::<i16>("-41", n, w),
            2 => same::<String>("\"a//b/*\"", n, w),
            3 => same::<Vec<u8>>("[ 1 , 23 ]", n, w),
            4 => same::<S2>("( x : 1 , y : true )", n, w),
            5 => same::<Nest>("( e : A , o : ( x : 2 , y : true ) , v : [ ] )", n, w),
            6 => same::<E>("B ( 1 , 2 )", n, w),
            7 => same::<E>("C ( x : 1 , y : 2 )", n, w),
            8 => same::<BTreeMap<String, bool>>("{ \"a\" : true , \"b\" : false }", n, w),
            9 => same::<(u8, bool)>("( 1 , true )", n, w),
            10 => same::<OptAll>("( a : None , c : 9 , )", n, w),
            11 => same::<Vec<Vec<bool>>>("[ [ ] , [ true ] ]", n, w),
            12 => same::<Vec<Option<U3>>>("[ None , Two ]", n, w),
            13 => same::<T2>("( 1 , false )", n, w),
            14 => same::<[bool; 2]>("( true , false )", n, w),
            15 => same::<std::time::Duration>("{ \"secs\" : 7 , \"nanos\" : 10 }", n, w),
            16 => same::<f64>("4.5e1", n, w),
            17 => same::<()>("( )", n, w),
            18 => same::<BTreeMap<u8, (u8, bool)>>("{ 1 : ( 2 , true ) }", n, w),
            _ => same::<U3>("Three", n, w),
        }
    };
}
