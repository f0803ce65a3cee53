//! J09: the parser agrees with an independent reading of the text.
use crate::bx::Same;
use crate::jx::*;
use crate::rt::*;
use crate::{ck, harness};
use crate::zoo::*;
use nanoserde::*;
use std::collections::*;
use std::time::Duration;
struct Sandwich;
impl VisD for Sandwich {
    fn go<T: DeJson + Same + Model>(&self, t: String, exact: bool) {
        fmt_stub(true);
        let r = T::deserialize_json(&t);
        observe(r.is_ok() as u64);
        match r {
            Ok(v) => {
                cover(1);
                if let Some(w) = Rd::strict(&t).and_then(|x| T::conv(&x)) {
                    ck!(w.same(&v))
                }
                if exact {
                    match Rd::lax(&t).and_then(|x| T::conv(&x)) {
                        Some(w) => ck!(w.same(&v)),
                        None => ck!(false),
                    }
                }
            }
            Err(_) => {
                cover(2);
                ck!(Rd::strict(&t).and_then(|x| T::conv(&x)).is_none());
            }
        }
    }
}
const AL: &str = ", : [ ] { } # \"x\" \"y\" \"A\" null true 1.5 \"";
fn ed<T: DeJson + Same + Model>(doc: &str) {
    Sandwich.go::<T>(crate::bx::edited(doc, AL), true)
}
harness! {
    j09m = || match case() {
        0 => ed::<Vec<u8>>("[ # , # , # ]"),
        1 => ed::<(u8, bool)>("[ # , true ]"),
        2 => ed::<[u8; 2]>("[ # , # ]"),
        3 => ed::<(u8, u8, bool)>("[ # , # , true ]"),
        4 => ed::<BTreeMap<String, u8>>("{ \"a\" : # , \"b\" : # }"),
        5 => ed::<S2>("{ \"x\" : # , \"y\" : true }"),
        6 => ed::<Vec<Vec<u8>>>("[ [ # ] , [ ] , [ # , # ] ]"),
        7 => ed::<Nest>("{ \"e\" : { \"B\" : [ # , # ] } , \"o\" : { \"x\" : # , \"y\" : false } , \"v\" : [ # ] }"),
        8 => ed::<Duration>("{ \"secs\" : # , \"nanos\" : # }"),
        9 => ed::<T2>("[ # , true ]"),
        10 => ed::<T1>("[ # ]"),
        11 => ed::<Unit>("{ }"),
        12 => ed::<Empty>("{ }"),
        13 => ed::<OptAll>("{ \"a\" : # , \"b\" : null , \"c\" : # }"),
        14 => ed::<Attr>("{ \"type\" : # , \"z\" : null , \"s\" : \"t\" , \"w\" : # , \"o\" : null }"),
        15 => ed::<LinkedList<bool>>("[ true , false ]"),
        16 => ed::<BTreeSet<u8>>("[ # , # ]"),
        17 => ed::<Option<Vec<u8>>>("[ # , # ]"),
        18 => ed::<Vec<Option<Box<u8>>>>("[ null , # , null ]"),
        19 => ed::<(u8, u8, u8, bool)>("[ # , # , # , true ]"),
        20 => ed::<Vec<String>>("[ \"x\" , \"\\u00e9\" ]"),
        21 => ed::<[[u8; 1]; 2]>("[ [ # ] , [ # ] ]"),
        22 => ed::<Nulls>("{ \"a\" : # , \"b\" : false , \"c\" : null }"),
        23 => ed::<FProx>("{ \"z\" : # , \"p\" : { \"b\" : # , \"a\" : # } , \"y\" : # }"),
        24 => ed::<()>("null"),
        25 => ed::<i8>("- #"),
        26 => ed::<Transp>("#"),
        27 => ed::<HashMap<String, bool>>("{ \"a\" : true , \"b\" : true }"),
        30 => ed::<WS>("{ \"g\" : # , \"a\" : # , \"b\" : true , \"u\" : { } , \"d\" : # , \"e\" : null , \"f\" : { \"b\" : # , \"a\" : # } }"),
        31 => ed::<WJ>("[ # , true , { } , [ # , true ] , null , [ ] , # ]"),
        32 => ed::<WE>("{ \"V2\" : { \"a\" : # , \"b\" : null , \"c\" : { } , \"g\" : # , \"f\" : true } }"),
        33 => ed::<(Unit, (), u8, Empty)>("[ { } , null , # , { } ]"),
        35 => ed::<NR>("{ \"k-k.x+y\" : # , \"ñandú\" : true , \"2x\" : # , \"true\" : # , \"r\" : # , \"a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a\" : # , \"a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars\" : # , \"a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b\" : # , \"é\" : # }"),
        36 => ed::<ENR>("{ \"a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b\" : { \"ü\" : # , \"a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars\" : true } }"),
        37 => ed::<EJ>("{ \"\\t\" : { \"\\\"n\\\\\" : # } }"),
        38 => ed::<DF>("{ \"h\" : null , \"d\" : \"x\" , \"a\" : { \"x\" : # , \"y\" : true } , \"f\" : [ # ] , \"j2\" : \"Two\" }"),
        39 => ed::<Vec<EZ>>("[ { \"B\" : { } } , { \"D\" : { \"x\" : # } } , \"F\" ]"),
        40 => ed::<GE<Num>>("{ \"R\" : { \"u\" : [ \"X\" , \"Y\" ] , \"t\" : \"Z\" } }"),
        34 => ed::<ER>("{ \"delta\" : { \"x\" : # , \"y\" : null } }"),
        28 => ed::<Dflt>("{ \"a\" : # , \"b\" : true , \"s\" : \"\" }"),
        _ => ed::<Vec<(u8, Option<bool>)>>("[ [ # , null ] , [ # , true ] ]"),
    };
    j09 = || texts(&Sandwich, case() / 100, (case() % 100) as usize);
}
