//! J10: an enum value is one named variant with the payload of that variant.
use crate::bx::*;
use crate::jx::*;
use crate::rt::*;
use crate::zoo::*;
use crate::{ck, harness};
use nanoserde::*;

fn d() -> String {
    any_digit()
}
fn any_digit() -> String {
    let c = u8::any();
    assume(c >= b'0' && c <= b'9');
    (c as char).to_string()
}
fn name(names: &[&str]) -> String {
    name_at(names, pick(names.len() as u8 + 1) as usize)
}
fn name_at(names: &[&str], k: usize) -> String {
    if k < names.len() {
        names[k].to_string()
    } else {
        let s = any_ascii(1);
        let c = s.as_bytes()[0];
        assume(c >= 0x20 && c != b'"' && c != b'\\');
        s
    }
}
fn payload() -> String {
    match pick(24) {
        20 => ["{\"x\":", &d(), ",\"y\":null}"].concat(),
        21 => "[{}]".to_string(),
        22 => ["[null,true,", &d(), "]"].concat(),
        23 => ["{\"a\":1,\"c\":{},\"g\":", &d(), ",\"f\":false}"].concat(),
        0 => "[]".to_string(),
        1 => ["[", &d(), "]"].concat(),
        2 => ["[", &d(), ",", &d(), "]"].concat(),
        3 => ["[", &d(), ",", &d(), ",", &d(), "]"].concat(),
        4 => "[true]".to_string(),
        5 => "[true,false]".to_string(),
        6 => "{}".to_string(),
        7 => ["{\"x\":", &d(), "}"].concat(),
        8 => ["{\"x\":", &d(), ",\"y\":", &d(), "}"].concat(),
        9 => ["{\"y\":", &d(), ",\"x\":", &d(), "}"].concat(),
        10 => ["{\"y\":null,\"x\":", &d(), "}"].concat(),
        11 => "{\"q\":true}".to_string(),
        12 => "{\"r\":false,\"q\":true,\"p\":null}".to_string(),
        13 => ["{\"q q\":", &d(), ",\"y\":true}"].concat(),
        14 => ["{\"q q\":", &d(), ",\"x\":1,\"y\":true}"].concat(),
        15 => ["{\"x\":", &d(), ",\"y\":true}"].concat(),
        16 => d(),
        17 => "null".to_string(),
        18 => "\"A\"".to_string(),
        _ => "true".to_string(),
    }
}
fn doc(names: &[&str]) -> String {
    match pick(7) {
        0 => ["\"", &name(names), "\""].concat(),
        1 => d(),
        2 => "null".to_string(),
        3 => "{}".to_string(),
        4 => ["[\"", &name(names), "\"]"].concat(),
        5 => ["{\"", &name_at(names, split(pick(names.len() as u8 + 1)) as usize), "\":", &payload(), ",\"", &name(names), "\":", &payload(), "}"].concat(),
        _ => ["{\"", &name(names), "\":", &payload(), "}"].concat(),
    }
}
fn decide<T: DeJson + Same + Model>(t: String) {
    fmt_stub(true);
    let w = Rd::strict(&t).and_then(|v| T::conv(&v));
    match (T::deserialize_json(&t), w) {
        (Ok(v), Some(w)) => {
            cover(1);
            ck!(v.same(&w))
        }
        (Err(_), None) => cover(2),
        (Ok(_), None) => ck!(false),
        (Err(_), Some(_)) => ck!(false),
    }
}
const NE: [&str; 6] = ["A", "B", "C", "D", "F", "AA"];
const NR: [&str; 9] = ["A", "alpha", "B", "b-2", "C", "", "D", "delta", "E"];
const NW: [&str; 14] = ["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V", "V00"];
const NU: [&str; 5] = ["One", "Two", "Three", "one", "Thre"];
const NT: [&str; 3] = ["Leaf", "Node", "leaf"];
const AL: &str = ", : [ ] { } # \"x\" \"A\" \"B\" \"Leaf\" null true \"";
/// An enum document with one edit: accepted only as what it says, and always
/// when it is standard JSON.
fn ed<T: DeJson + Same + Model>(doc: &str) {
    fmt_stub(true);
    let t = edited(doc, AL);
    match (T::deserialize_json(&t), Rd::lax(&t).and_then(|v| T::conv(&v))) {
        (Ok(v), Some(w)) => {
            cover(1);
            ck!(v.same(&w))
        }
        (Ok(_), None) => ck!(false),
        (Err(_), _) => {
            cover(2);
            ck!(Rd::strict(&t).and_then(|v| T::conv(&v)).is_none())
        }
    }
}
harness! {
    j10m = || match case() {
        0 => ed::<E>("\"A\""),
        1 => ed::<E>("{ \"B\" : [ # , # ] }"),
        2 => ed::<E>("{ \"C\" : { \"x\" : # , \"y\" : # } }"),
        3 => ed::<E>("{ \"D\" : [ true ] }"),
        4 => ed::<E>("{ \"F\" : { \"q\" : true , \"p\" : # } }"),
        5 => ed::<Vec<E>>("[ \"A\" , { \"D\" : [ false ] } , \"A\" ]"),
        6 => ed::<ER>("{ \"C\" : { \"q q\" : # , \"y\" : true } }"),
        7 => ed::<ER>("{ \"b-2\" : [ # ] }"),
        11 => ed::<ER>("{ \"delta\" : { \"x\" : # , \"y\" : null } }"),
        12 => ed::<WE>("{ \"V1\" : [ # , true , { } , [ # , false ] , # , true ] }"),
        13 => ed::<WE>("{ \"V2\" : { \"c\" : { } , \"a\" : # , \"f\" : true , \"g\" : # } }"),
        14 => ed::<WE>("{ \"V7\" : [ { \"V4\" : [ null , true , # ] } , # ] }"),
        15 => ed::<Vec<WE>>("[ \"V10\" , { \"V8\" : [ { } ] } , \"V3\" ]"),
        8 => ed::<Tree>("{ \"Node\" : { \"l\" : { \"Leaf\" : [ # ] } , \"r\" : { \"Leaf\" : [ # ] } } }"),
        9 => ed::<Vec<U3>>("[ \"One\" , \"Three\" ]"),
        _ => ed::<Option<E>>("{ \"C\" : { \"x\" : # } }"),
    };
    j10 = || match case() {
        0 => decide::<E>(doc(&NE)),
        1 => decide::<ER>(doc(&NR)),
        2 => decide::<U3>(doc(&NU)),
        3 => decide::<Tree>(doc(&NT)),
        4 => decide::<Vec<E>>(["[", &doc(&NE), ",\"A\"]"].concat()),
        5 => decide::<Nest>(["{\"v\":[3],\"e\":", &doc(&NE), ",\"o\":null}"].concat()),
        6 => decide::<Option<U3>>(doc(&NU)),
        9 => decide::<WE>(doc(&NW)),
        7 => decide::<(ER, bool)>(["[", &doc(&NR), ",true]"].concat()),
        _ => {
            let p = match pick(4) {
                0 => "{\"Leaf\":[4]}".to_string(),
                1 => ["{\"Leaf\":", &payload(), "}"].concat(),
                2 => ["{\"Node\":{\"r\":{\"Leaf\":", &payload(), "},\"l\":{\"Leaf\":[1]}}}"].concat(),
                _ => "\"Leaf\"".to_string(),
            };
            decide::<Tree>(["{\"Node\":{\"l\":", &p, ",\"r\":{\"Leaf\":[", &d(), "]}}}"].concat())
        }
    };
}
