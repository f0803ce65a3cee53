//! R08: a RON enum value is one named variant with the payload of that variant.
use crate::bx::*;
use crate::rt::*;
use crate::rx::*;
use crate::zoo::*;
use crate::{ck, harness};
use nanoserde::*;

fn d() -> String {
    let c = u8::any();
    assume(c >= b'0' && c <= b'9');
    (c as char).to_string()
}
fn name(names: &[&str]) -> String {
    let k = pick(names.len() as u8 + 1) as usize;
    if k < names.len() {
        names[k].to_string()
    } else {
        let c = u8::any();
        assume(c >= b'a' && c <= b'z' || c >= b'A' && c <= b'Z' || c == b'_');
        (c as char).to_string()
    }
}
fn payload() -> String {
    match pick(23) {
        19 => "(())".to_string(),
        20 => ["(None,true,", &d(), ")"].concat(),
        21 => ["(a:1,c:(),g:", &d(), ",f:false)"].concat(),
        0 => "()".to_string(),
        1 => ["(", &d(), ")"].concat(),
        2 => ["(", &d(), ",", &d(), ")"].concat(),
        3 => ["(", &d(), ",", &d(), ",", &d(), ")"].concat(),
        4 => "(true)".to_string(),
        5 => "(true,false)".to_string(),
        6 => "".to_string(),
        7 => ["(x:", &d(), ")"].concat(),
        8 => ["(x:", &d(), ",y:", &d(), ",)"].concat(),
        9 => ["(y:", &d(), ",x:", &d(), ")"].concat(),
        10 => ["(y:None,x:", &d(), ")"].concat(),
        11 => "(q:true)".to_string(),
        12 => "(r:false,q:true,p:None)".to_string(),
        13 => ["(type:", &d(), ",z:true)"].concat(),
        14 => ["(type:", &d(), ",x:1)"].concat(),
        15 => ["(x:", &d(), ",q:true)"].concat(),
        16 => ["[", &d(), "]"].concat(),
        17 => ["((", &d(), "))"].concat(),
        18 => ["{\"x\":", &d(), "}"].concat(),
        _ => ["(x:", &d(), ",", &d(), ")"].concat(),
    }
}
fn doc(names: &[&str]) -> String {
    match pick(6) {
        0 => d(),
        1 => "()".to_string(),
        2 => ["\"", &name(names), "\""].concat(),
        3 => ["(", &name(names), ")"].concat(),
        4 => "true".to_string(),
        _ => [name(names), payload()].concat(),
    }
}
/// `A` with something behind it at the very end is read as A.
fn decide<T: DeRon + Same + ModelR>(t: String) {
    crate::r07::decide::<T>(&t)
}
fn exact<T: DeRon + Same + ModelR>(t: String) {
    crate::r05::exact::<T>(&t)
}
const NE: [&str; 6] = ["A", "B", "C", "D", "F", "AA"];
const NN: [&str; 4] = ["A", "B", "C", "BB"];
const NW: [&str; 14] = ["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V", "V00"];
const NU: [&str; 5] = ["One", "Two", "Three", "one", "Thre"];
const NT: [&str; 3] = ["Leaf", "Node", "leaf"];
const AL: &str = ", : [ ] ( ) # x A B Leaf None true \"";
fn ed<T: DeRon + Same + ModelR>(doc: &str) {
    decide::<T>(edited(doc, AL))
}
harness! {
    r08m = || match case() {
        0 => ed::<E>("A"),
        1 => ed::<E>("B ( # , # )"),
        2 => ed::<E>("C ( x : # , y : # )"),
        3 => ed::<E>("D ( true )"),
        4 => ed::<E>("F ( q : true , p : # )"),
        5 => ed::<Vec<E>>("[ A , D ( false ) , A ]"),
        6 => ed::<EN>("B ( type : # , y : # )"),
        7 => ed::<EN>("C ( # )"),
        10 => ed::<WE>("V1 ( # , true , ( ) , ( # , false ) , # , true )"),
        11 => ed::<WE>("V2 ( c : ( ) , a : # , f : true , g : # )"),
        12 => ed::<WE>("V7 ( V4 ( None , true , # ) , # )"),
        13 => ed::<Vec<WE>>("[ V10 , V8 ( ( ) ) , V3 ]"),
        8 => ed::<Tree>("Node ( l : Leaf ( # ) , r : Leaf ( # ) )"),
        9 => ed::<Vec<U3>>("[ One , Three ]"),
        _ => ed::<Option<E>>("C ( x : # )"),
    };
    r08 = || match case() {
        0 => decide::<E>(doc(&NE)),
        1 => decide::<EN>(doc(&NN)),
        2 => decide::<U3>(doc(&NU)),
        3 => decide::<Tree>(doc(&NT)),
        4 => exact::<Vec<E>>(["[", &doc(&NE), ",A]"].concat()),
        5 => exact::<Nest>(["(v:[3],e:", &doc(&NE), ",o:None)"].concat()),
        6 => decide::<Option<U3>>(doc(&NU)),
        11 => decide::<WE>(doc(&NW)),
        7 => exact::<(EN, bool)>(["(", &doc(&NN), ",true)"].concat()),
        10 => exact::<Vec<WE>>(["[", &doc(&NW), "]"].concat()),
        8 => exact::<std::collections::BTreeMap<u8, E>>(["{1:", &doc(&NE), ",}"].concat()),
        _ => {
            let p = match pick(4) {
                0 => "Leaf(4)".to_string(),
                1 => ["Leaf", &payload()].concat(),
                2 => ["Node(r:Leaf", &payload(), ",l:Leaf(1))"].concat(),
                _ => "Leaf".to_string(),
            };
            decide::<Tree>(["Node(l:", &p, ",r:Leaf(", &d(), "))"].concat())
        }
    };
}
