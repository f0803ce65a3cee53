//! R07: the parser agrees with an independent reading of the text.
use crate::bx::Same;
use crate::rt::*;
use crate::rx::*;
use crate::zoo::*;
use crate::{ck, harness};
use nanoserde::*;
use std::collections::*;
use std::time::Duration;
struct Sandwich;
impl VisD for Sandwich {
    fn go<T: DeRon + Same + ModelR>(&self, t: String) {
        decide::<T>(&t)
    }
}
pub fn decide<T: DeRon + Same + ModelR>(t: &str) {
    fmt_stub(true);
    let r = T::deserialize_ron(t);
    observe(r.is_ok() as u64);
    match r {
        Ok(v) => {
            cover(1);
            if let Some(w) = strict::<T>(t) {
                ck!(w.same(&v))
            }
            match lax::<T>(t) {
                Some(w) => ck!(w.same(&v)),
                None => ck!(false),
            }
        }
        Err(_) => {
            cover(2);
            ck!(strict::<T>(t).is_none());
        }
    }
}
const AL: &str = ", : [ ] { } ( ) # x y A None true \"x\" 1.5 \"";
fn ed<T: DeRon + Same + ModelR>(doc: &str) {
    decide::<T>(&crate::bx::edited(doc, AL))
}
harness! {
    r07 = || texts(&Sandwich, case() / 100, (case() % 100) as usize);
    r07m = || match case() {
        0 => ed::<Vec<u8>>("[ # , # , # , ]"),
        1 => ed::<(u8, bool)>("( # , true )"),
        2 => ed::<[u8; 2]>("( # , # )"),
        3 => ed::<(u8, u8, bool)>("( # , # , true )"),
        4 => ed::<BTreeMap<String, u8>>("{ \"a\" : # , \"b\" : # , }"),
        5 => ed::<S2>("( x : # , y : true , )"),
        6 => ed::<Vec<Vec<u8>>>("[ [ # ] , [ ] , [ # , # ] ]"),
        7 => ed::<Nest>("( e : B ( # , # ) , o : ( x : # , y : false ) , v : [ # ] )"),
        8 => ed::<Duration>("{ \"secs\" : # , \"nanos\" : # }"),
        9 => ed::<T2>("( # , true )"),
        10 => ed::<T1>("( # )"),
        11 => ed::<Unit>("( )"),
        12 => ed::<Empty>("( )"),
        13 => ed::<OptAll>("( a : # , b : None , c : # )"),
        14 => ed::<Attr>("( type : # , z : None , s : \"t\" , w : # , o : None )"),
        15 => ed::<LinkedList<bool>>("[ true , false ]"),
        16 => ed::<BTreeSet<u8>>("[ # , # ]"),
        17 => ed::<Option<Vec<u8>>>("[ # , # ]"),
        18 => ed::<Vec<Option<Box<u8>>>>("[ None , # , None ]"),
        19 => ed::<(u8, u8, u8, bool)>("( # , # , # , true )"),
        20 => ed::<Vec<String>>("[ \"x\" , \"\\u00e9\" ]"),
        21 => ed::<[[u8; 1]; 2]>("( ( # ) , ( # ) )"),
        22 => ed::<EN>("B ( type : # , y : # , z : true )"),
        23 => ed::<Prox>("( b : # , a : # )"),
        24 => ed::<()>("( )"),
        25 => ed::<i8>("- #"),
        26 => ed::<TupLast>("( # , true )"),
        27 => ed::<HashMap<String, bool>>("{ \"a\" : true , \"b\" : true }"),
        28 => ed::<Dflt>("( a : # , b : true , s : \"\" )"),
        39 => ed::<NR>("( r#k-k.x+y : # , ñandú : true , r#2x : # , r#true : # , r : # , a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a : # , a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars : # , a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b : # , é : # )"),
        40 => ed::<ENR>("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b ( ü : # , a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars : true )"),
        41 => ed::<DF>("( h : None , d : \"x\" , a : ( x : # , y : true ) , f : [ # ] , j2 : Two )"),
        42 => ed::<Vec<EZ>>("[ B ( ) , D ( x : # ) , F ]"),
        43 => ed::<GE<Num>>("R ( u : [ X , Y ] , t : Z )"),
        34 => ed::<WS>("( g : # , a : # , b : true , u : ( ) , d : # , e : None , f : ( b : # , a : # ) )"),
        35 => ed::<WJ>("( # , true , ( ) , ( # , true ) , None , [ ] , # )"),
        36 => ed::<WT>("( # , true , ( ) , None , ( # , true ) )"),
        37 => ed::<WE>("V2 ( a : # , b : None , c : ( ) , g : # , f : true )"),
        38 => ed::<(Unit, (), u8, Empty)>("( ( ) , ( ) , # , ( ) )"),
        29 => ed::<Vec<(u8, Option<bool>)>>("[ ( # , None ) , ( # , true ) ]"),
        30 => ed::<SkipB>("( a : # , b : # )"),
        31 => ed::<TupSkip>("( # , # )"),
        32 => ed::<BTreeMap<u8, (u8, bool)>>("{ # : ( # , true ) , # : ( # , false ) }"),
        _ => ed::<BTreeMap<(u8, bool), Vec<E>>>("{ ( # , true ) : [ A , D ( true ) ] }"),
    };
}
