//! C12: holidays added to and removed from a calendar.
//@ engine=symx
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{calendar::Calendar, date::Date, holidays::weekendsonly::WeekendsOnly};

const OPS: usize = 3;

/// A day of five weeks of 2009 (overrides do not depend on where the days are)
fn day() -> i32 {
    40000 + nd::choice(35) as i32
}

/// What `OPS` arbitrary operations make of the day `x`: None when it is left as it was
fn ops(c: &mut Calendar, x: i32, resets: bool) -> Option<bool> {
    let mut r = None;
    let mut i = 0;
    while i < OPS {
        let op = nd::choice(3);
        let s = day();
        let d = Date::from_serial(s);
        if op == 0 {
            c.add_holiday(d);
            if s == x {
                r = Some(true);
            }
        } else if op == 1 || !resets {
            c.remove_holiday(d);
            if s == x {
                r = Some(false);
            }
        } else {
            c.reset_added_and_removed_holidays();
            r = None;
        }
        i += 1;
    }
    r
}

harnesses! {
    c12_overrides(2) {
        let mut c = WeekendsOnly::new();
        let x = day();
        let d = Date::from_serial(x);
        let weekend = x % 7 < 2;
        let o = ops(&mut c, x, true);
        let e = match o { Some(h) => h, None => weekend };
        prop!(c.is_holiday(&d) == e, "a date is as last added or removed, and as the market rules say otherwise");
        witness!(o == Some(true) && !weekend, "added");
        witness!(o == Some(false) && weekend, "removed");
        witness!(o == None && weekend, "untouched");
    }
    c12_sets(2) {
        let mut c = WeekendsOnly::new();
        let x = day();
        let d = Date::from_serial(x);
        let weekend = x % 7 < 2;
        let o = ops(&mut c, x, false);
        prop!(c.added_holidays().contains(&d) == (o == Some(true) && !weekend), "the added holidays are the business days last added");
        prop!(c.removed_holidays().contains(&d) == (o == Some(false) && weekend), "the removed holidays are the holidays last removed");
        c.reset_added_and_removed_holidays();
        prop!(c.added_holidays().is_empty() && c.removed_holidays().is_empty(), "reset forgets both");
        prop!(c.is_holiday(&d) == weekend, "reset goes back to the market rules");
        witness!(o == Some(true), "added");
    }
    c12_weekend(2) {
        let mut c = WeekendsOnly::new();
        let x = day();
        let d = Date::from_serial(x);
        let _ = ops(&mut c, x, true);
        prop!(c.is_weekend(d.weekday()) == (x % 7 < 2), "overrides do not change what the weekend is");
        witness!(x % 7 == 1, "Sunday");
    }
    c12_clone(2) {
        let mut c = WeekendsOnly::new();
        let x = day();
        let d = Date::from_serial(x);
        let k = c.clone();
        if nd::bool() { c.add_holiday(d) } else { c.remove_holiday(d) }
        prop!(k.is_holiday(&d) == (x % 7 < 2), "changing a calendar leaves its copies alone");
        witness!(c.is_holiday(&d) && !k.is_holiday(&d), "they differ");
    }
}
