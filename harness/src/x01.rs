//! X01: everything built while reading is dropped exactly once and freed.
use crate::bx::edited;
use crate::rt::*;
use crate::{ck, harness};
use core::str::Chars;
use nanoserde::*;
use std::collections::*;

/// A value that owns memory and knows whether it was dropped.
pub struct Own {
    id: usize,
    v: Box<u8>,
}
static mut MADE: usize = 0;
static mut GONE: [bool; 64] = [false; 64];
impl Own {
    fn new(v: u8) -> Own {
        unsafe {
            let id = MADE;
            MADE += 1;
            ck!(id < 64);
            Own { id, v: Box::new(v) }
        }
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        unsafe {
            ck!(self.id < MADE);
            ck!(!GONE[self.id]);
            GONE[self.id] = true;
        }
    }
}
impl PartialEq for Own {
    fn eq(&self, o: &Own) -> bool {
        self.v == o.v
    }
}
impl Eq for Own {}
impl PartialOrd for Own {
    fn partial_cmp(&self, o: &Own) -> Option<core::cmp::Ordering> {
        Some(self.v.cmp(&o.v))
    }
}
impl Ord for Own {
    fn cmp(&self, o: &Own) -> core::cmp::Ordering {
        self.v.cmp(&o.v)
    }
}
// a flag then a number: elements can fail after reading something
impl DeBin for Own {
    fn de_bin(o: &mut usize, d: &[u8]) -> Result<Own, DeBinErr> {
        let k = crate::zoo::U3::de_bin(o, d)?;
        Ok(Own::new(k as u8))
    }
}
impl DeJson for Own {
    fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<Own, DeJsonErr> {
        Ok(Own::new(u8::de_json(s, i)?))
    }
}
impl DeRon for Own {
    fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<Own, DeRonErr> {
        Ok(Own::new(u8::de_ron(s, i)?))
    }
}

#[derive(DeBin, DeJson, DeRon)]
pub struct Holder {
    pub a: [Own; 2],
    pub b: Own,
    pub c: Option<Own>,
}
#[derive(DeBin, DeJson, DeRon)]
pub struct Tup(pub Own, pub [Own; 2]);
#[derive(DeBin, DeJson, DeRon)]
pub enum En {
    A(Own, Own),
    B { x: [Own; 2], y: Box<Own> },
    C,
}

fn whole<T>(base: u64, r: Result<T, ()>) {
    observe(r.is_ok() as u64);
    match r {
        Ok(v) => {
            cover(1);
            drop(v)
        }
        Err(()) => cover(2),
    }
    unsafe {
        for k in 0..MADE {
            ck!(GONE[k])
        }
    }
    ck!(live() == base);
}
fn bin<T: DeBin>(n: usize) {
    let d = byte_vec(n);
    fmt_stub(true);
    let base = live();
    alloc_cap(1 << 16);
    let r = T::deserialize_bin(&d).map_err(drop);
    whole(base, r);
    drop(d);
}
fn seq<T: DeBin>(n: usize, len: usize) {
    let mut d = byte_vec(n);
    for (k, b) in d.iter_mut().take(8).enumerate() {
        *b = if k == 0 { len as u8 } else { 0 }
    }
    fmt_stub(true);
    let base = live();
    let r = T::deserialize_bin(&d).map_err(drop);
    whole(base, r);
    drop(d);
}
fn json<T: DeJson>(t: String) {
    fmt_stub(true);
    let base = live();
    let r = T::deserialize_json(&t).map_err(drop);
    whole(base, r);
    drop(t);
}
fn ron<T: DeRon>(t: String) {
    fmt_stub(true);
    let base = live();
    let r = T::deserialize_ron(&t).map_err(drop);
    whole(base, r);
    drop(t);
}
const AJ: &str = ", : [ ] { } # \"x\" null \"";
const AR: &str = ", : [ ] ( ) # x None \"";
fn ej<T: DeJson>(doc: &str) {
    json::<T>(edited(doc, AJ))
}
fn er<T: DeRon>(doc: &str) {
    ron::<T>(edited(doc, AR))
}
fn hole(a: &str, n: usize, b: &str) -> String {
    let h = any_string(n);
    let mut t = String::with_capacity(64);
    t.push_str(a);
    t.push_str(&h);
    t.push_str(b);
    t
}

harness! {
    // every input of n bytes (elements are two bytes, valid below 3)
    x01b = || { let n = (case() % 100) as usize; match case() / 100 {
        0 => bin::<[Own; 0]>(n),
        1 => bin::<[Own; 1]>(n),
        2 => bin::<[Own; 2]>(n),
        3 => bin::<[Own; 3]>(n),
        4 => bin::<[Own; 4]>(n),
        5 => bin::<[[Own; 2]; 2]>(n),
        6 => bin::<(Own, [Own; 2])>(n),
        7 => bin::<(Own, Own, Own)>(n),
        8 => bin::<(Own, Own, Own, Own)>(n),
        9 => bin::<Holder>(n),
        10 => bin::<Tup>(n),
        11 => bin::<En>(n),
        12 => bin::<Option<[Own; 2]>>(n),
        13 => bin::<Box<[Own; 2]>>(n),
        14 => seq::<Vec<Own>>(n, 3),
        15 => seq::<LinkedList<Own>>(n, 3),
        16 => seq::<BTreeSet<Own>>(n, 3),
        17 => seq::<BTreeMap<u8, [Own; 2]>>(n, 2),
        18 => seq::<BTreeMap<Own, Own>>(n, 2),
        _ => seq::<Vec<[Own; 2]>>(n, 2),
    }};
    // documents with one edit
    x01j = || match case() {
        0 => ej::<[Own; 3]>("[ # , # , # ]"),
        1 => ej::<[Own; 2]>("[ # , # ]"),
        2 => ej::<[[Own; 2]; 2]>("[ [ # , # ] , [ # , # ] ]"),
        3 => ej::<(Own, [Own; 2])>("[ # , [ # , # ] ]"),
        4 => ej::<(Own, Own, Own, Own)>("[ # , # , # , # ]"),
        5 => ej::<(Own, Own, Own)>("[ # , # , # ]"),
        6 => ej::<Vec<[Own; 2]>>("[ [ # , # ] , [ # , # ] ]"),
        7 => ej::<Holder>("{ \"a\" : [ # , # ] , \"b\" : # , \"c\" : # }"),
        8 => ej::<Holder>("{ \"b\" : # , \"a\" : [ # , # ] , \"b\" : # , \"a\" : [ # , # ] }"),
        9 => ej::<Tup>("[ # , [ # , # ] ]"),
        10 => ej::<En>("{ \"A\" : [ # , # ] }"),
        11 => ej::<En>("{ \"B\" : { \"x\" : [ # , # ] , \"y\" : # } }"),
        12 => ej::<Box<Option<[Own; 2]>>>("[ # , # ]"),
        13 => ej::<LinkedList<Own>>("[ # , # , # ]"),
        14 => ej::<BTreeSet<Own>>("[ # , # , # ]"),
        15 => ej::<BTreeMap<String, [Own; 2]>>("{ \"x\" : [ # , # ] , \"x\" : [ # , # ] }"),
        16 => ej::<[Own; 0]>("[ ]"),
        17 => ej::<[Own; 1]>("[ # ]"),
        _ => ej::<HashMap<String, Own>>("{ \"x\" : # , \"x\" : # , \"y\" : # }"),
    };
    x01r = || match case() {
        0 => er::<[Own; 3]>("( # , # , # )"),
        1 => er::<[Own; 2]>("( # , # )"),
        2 => er::<[[Own; 2]; 2]>("( ( # , # ) , ( # , # ) )"),
        3 => er::<(Own, [Own; 2])>("( # , ( # , # ) )"),
        4 => er::<(Own, Own, Own, Own)>("( # , # , # , # )"),
        5 => er::<(Own, Own, Own)>("( # , # , # )"),
        6 => er::<Vec<[Own; 2]>>("[ ( # , # ) , ( # , # ) ]"),
        7 => er::<Holder>("( a : ( # , # ) , b : # , c : # )"),
        8 => er::<Holder>("( b : # , a : ( # , # ) , b : # , a : ( # , # ) )"),
        9 => er::<Tup>("( # , ( # , # ) )"),
        10 => er::<En>("A ( # , # )"),
        11 => er::<En>("B ( x : ( # , # ) , y : # )"),
        12 => er::<Box<Option<[Own; 2]>>>("( # , # )"),
        13 => er::<LinkedList<Own>>("[ # , # , # ]"),
        14 => er::<BTreeSet<Own>>("[ # , # , # ]"),
        15 => er::<BTreeMap<Own, [Own; 2]>>("{ # : ( # , # ) , # : ( # , # ) }"),
        16 => er::<[Own; 0]>("( )"),
        17 => er::<[Own; 1]>("( # )"),
        _ => er::<HashMap<String, Own>>("{ \"x\" : # , \"x\" : # , \"y\" : # }"),
    };
    // arbitrary text in the middle
    x01t = || { let n = (case() % 100) as usize; match case() / 100 {
        0 => json::<[Own; 3]>(hole("[1,2", n, "")),
        1 => json::<[Own; 2]>(hole("[1", n, "2]")),
        2 => json::<[[Own; 1]; 2]>(hole("[[1]", n, "[2]]")),
        3 => json::<Holder>(hole("{\"a\":[1,2]", n, "\"b\":3}")),
        4 => json::<(Own, Own, Own)>(hole("[1,2", n, "]")),
        5 => json::<En>(hole("{\"A\":[1", n, "2]}")),
        6 => ron::<[Own; 3]>(hole("(1,2", n, "")),
        7 => ron::<[Own; 2]>(hole("(1", n, "2)")),
        8 => ron::<[[Own; 1]; 2]>(hole("((1)", n, "(2))")),
        9 => ron::<Holder>(hole("(a:(1,2)", n, "b:3)")),
        10 => ron::<(Own, Own, Own)>(hole("(1,2", n, ")")),
        _ => ron::<En>(hole("A(1", n, "2)")),
    }};
}
