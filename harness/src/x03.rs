//! X03: durations and times are exact or rejected in every format.
use crate::bx::*;
use crate::j03::literal;
use crate::rt::*;
use crate::{ck, harness};
use nanoserde::*;
use std::time::{Duration, SystemTime};

trait Span: DeJson + DeRon + PartialEq {
    fn make(secs: u64, nanos: u32) -> Option<Self>;
}
impl Span for Duration {
    fn make(secs: u64, nanos: u32) -> Option<Self> {
        if nanos < 1_000_000_000 {
            Some(Duration::new(secs, nanos))
        } else if nanos == 1_000_000_000 && secs < u64::MAX {
            Some(Duration::new(secs + 1, 0))
        } else {
            None
        }
    }
}
impl Span for SystemTime {
    fn make(secs: u64, nanos: u32) -> Option<Self> {
        let d = Duration::make(secs, nanos)?;
        if d.as_secs() > i64::MAX as u64 {
            return None;
        }
        Some(SystemTime::UNIX_EPOCH + d)
    }
}
/// Up to three members, each "secs", "nanos" or something else, with k digits
/// for the seconds and l for the nanoseconds.
fn members<D: Span>(ron: bool, k: usize, l: usize) {
    let count = pick(4);
    let (mut secs, mut nanos, mut bad) = (None, None, false);
    let mut t = String::with_capacity(128);
    t.push('{');
    for i in 0..count {
        if i > 0 {
            t.push(',')
        }
        let name = pick(3);
        let (neg, d) = match name {
            0 if k == 21 => {
                // near the limit: only the first and the last digits are free
                let (neg, d) = literal(20);
                for i in 1..16 {
                    assume(d[i] == b"18446744073709551615"[i]);
                }
                (neg, d)
            }
            0 | 1 => literal(if name == 0 { k } else { l }),
            _ => (false, vec![b'1']),
        };
        match name {
            0 => t.push_str("\"secs\""),
            1 => t.push_str("\"nanos\""),
            _ => {
                let o = any_ascii(if pick(2) == 0 { 4 } else { 5 });
                for c in o.bytes() {
                    assume(c >= b' ' && c != b'"' && c != b'\\' && c != 0x7f);
                }
                assume(o != "secs" && o != "nanos");
                t.push('"');
                t.push_str(&o);
                t.push('"');
            }
        }
        t.push(':');
        // a negative zero is not claimed
        assume(!neg || d[0] != b'0');
        if neg {
            t.push('-')
        }
        t.push_str(unsafe { core::str::from_utf8_unchecked(&d) });
        match name {
            0 => {
                bad = bad || secs.is_some() || neg || !at_most(&d, "18446744073709551615");
                secs = Some(magnitude(&d));
            }
            1 => {
                bad = bad || nanos.is_some() || neg || !at_most(&d, "1000000000");
                nanos = Some(magnitude(&d) as u32);
            }
            _ => bad = true,
        }
    }
    t.push('}');
    fmt_stub(true);
    let r = if ron { D::deserialize_ron(&t).ok() } else { D::deserialize_json(&t).ok() };
    let want = match secs {
        Some(s) if !bad => D::make(s, nanos.unwrap_or(0)),
        _ => None,
    };
    match (r, want) {
        (Some(a), Some(b)) => {
            cover(1);
            ck!(a == b)
        }
        (None, None) => cover(2),
        _ => ck!(false),
    }
}
/// Any time at or after the epoch, and any before it, through all formats.
fn through(t: SystemTime, want: SystemTime, none: bool) {
    let b = SerBin::serialize_bin(&t);
    ck!((b[0] == 0) == none && b.len() == if none { 1 } else { 13 });
    ck!(SystemTime::deserialize_bin(&b).ok() == Some(want));
    let j = SerJson::serialize_json(&t);
    ck!((j == "null") == none);
    ck!(SystemTime::deserialize_json(&j).ok() == Some(want));
    let r = SerRon::serialize_ron(&t);
    ck!((r == "None") == none);
    ck!(SystemTime::deserialize_ron(&r).ok() == Some(want));
    cover(1);
}
/// The same duration however it travelled.
fn agree(d: Duration) {
    let b = Duration::deserialize_bin(&SerBin::serialize_bin(&d)).ok();
    let j = Duration::deserialize_json(&SerJson::serialize_json(&d)).ok();
    let r = Duration::deserialize_ron(&SerRon::serialize_ron(&d)).ok();
    ck!(b == Some(d) && j == Some(d) && r == Some(d));
    let v = vec![(d, Some(d))];
    ck!(Vec::<(Duration, Option<Duration>)>::deserialize_json(&SerJson::serialize_json(&v)).ok().as_ref() == Some(&v));
    ck!(Vec::<(Duration, Option<Duration>)>::deserialize_ron(&SerRon::serialize_ron(&v)).ok().as_ref() == Some(&v));
    cover(1);
}
fn digits(n: usize, max: &str) -> u64 {
    let (_, d) = literal(n);
    assume(at_most(&d, max));
    magnitude(&d)
}
harness! {
    // format * 10000 + type * 1000 + digits of secs * 10 + digits of nanos (0 for 10)
    x03 = || {
        let (ron, k, l) = (case() / 10000 == 1, (case() / 10 % 100) as usize, match case() % 10 { 0 => 10, n => n as usize });
        match case() / 1000 % 10 {
            0 => members::<Duration>(ron, k, l),
            _ => members::<SystemTime>(ron, k, l),
        }
    };
    x03t = || match case() {
        0 => { let d = Duration::new(u64::any() >> 1, 7); through(SystemTime::UNIX_EPOCH + d, SystemTime::UNIX_EPOCH + d, false) }
        1 => { let n = u32::any(); assume(n < 1_000_000_000); let d = Duration::new(3, n); through(SystemTime::UNIX_EPOCH + d, SystemTime::UNIX_EPOCH + d, false) }
        2 => { let d = Duration::new(u64::any() >> 1, 999_999_999); assume(d.as_secs() > 0); through(SystemTime::UNIX_EPOCH - d, SystemTime::UNIX_EPOCH, true) }
        3 => { let n = u32::any(); assume(n < 1_000_000_000 && n > 0); through(SystemTime::UNIX_EPOCH - Duration::new(0, n), SystemTime::UNIX_EPOCH, true) }
        4 => through(SystemTime::UNIX_EPOCH, SystemTime::UNIX_EPOCH, false),
        5 => agree(Duration::new(u64::any(), 0)),
        6 => agree(Duration::new(u64::any(), 999_999_999)),
        7 => { let n = u32::any(); assume(n < 1_000_000_000); agree(Duration::new(9, n)) }
        8 => agree(Duration::new(digits(3, "999"), digits(3, "999") as u32)),
        9 => {
            // what stands for no time is the epoch
            ck!(SystemTime::deserialize_json("null").ok() == Some(SystemTime::UNIX_EPOCH));
            ck!(SystemTime::deserialize_ron("None").ok() == Some(SystemTime::UNIX_EPOCH));
            ck!(SystemTime::deserialize_bin(&[0]).ok() == Some(SystemTime::UNIX_EPOCH));
            cover(1)
        }
        _ => agree(Duration::MAX),
    };
}
