//! C16: the calendar of Japan.
use super::c14::*;
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{date::Date, holidays::japan::Japan};

/// Day of an equinox that fell on day `at` (in millionths) at the start of 2000
fn equinox(at: i32, y: i32) -> i32 {
    let leaps = (y - 2000) / 4 + (y - 2000) / 100 - (y - 2000) / 400;
    (at + 242194 * (y - 2000) - 1000000 * leaps) / 1000000
}

fn japan(x: &Day) -> bool {
    let ve = equinox(20691150, x.y);
    let ae = equinox(23090000, x.y);
    let y = x.y;
    let olympics = y == 2020 || y == 2021;
    let mut h = x.weekend();
    h |= x.m == 1 && x.d <= 3;
    h |= if y >= 2000 { x.nth(2, MON, 1) } else { x.sunday_to_monday(15, 1) };
    h |= x.sunday_to_monday(11, 2);
    h |= y >= 2020 && x.sunday_to_monday(23, 2);
    h |= y >= 1989 && y <= 2018 && x.sunday_to_monday(23, 12);
    h |= x.sunday_to_monday(ve, 3);
    h |= x.sunday_to_monday(29, 4);
    h |= x.m == 5 && x.d >= 3 && x.d <= 5;
    h |= x.on(6, 5) && (x.w == MON || x.w == TUE || x.w == WED);
    // Marine Day
    h |= y >= 2003 && !olympics && x.nth(3, MON, 7);
    h |= y >= 1996 && y < 2003 && x.sunday_to_monday(20, 7);
    h |= x.once(23, 7, 2020) || x.once(22, 7, 2021);
    // Mountain Day
    h |= y >= 2016 && !olympics && x.sunday_to_monday(11, 8);
    h |= x.once(10, 8, 2020) || x.once(9, 8, 2021);
    // Respect for the Aged Day
    h |= if y >= 2003 { x.nth(3, MON, 9) } else { x.sunday_to_monday(15, 9) };
    // a day between it and the equinox
    h |= y >= 2003 && x.m == 9 && x.w == TUE && x.d >= 16 && x.d <= 22 && x.d + 1 == ae;
    h |= x.sunday_to_monday(ae, 9);
    // Health and Sports Day
    h |= if y < 2000 { x.sunday_to_monday(10, 10) } else { !olympics && x.nth(2, MON, 10) };
    h |= x.once(24, 7, 2020) || x.once(23, 7, 2021);
    h |= x.sunday_to_monday(3, 11);
    h |= x.sunday_to_monday(23, 11);
    h |= x.on(31, 12);
    h | x.once(10, 4, 1959) || x.once(24, 2, 1989) || x.once(12, 11, 1990) || x.once(9, 6, 1993) || x.once(30, 4, 2019)
        || x.once(1, 5, 2019) || x.once(2, 5, 2019) || x.once(22, 10, 2019)
}

harnesses! {
    #[kani::stub(std::hash::RandomState::new, crate::gen::hash_state)]
    c16_japan(2) {
        let (d, h) = agrees(&Japan::new(), japan);
        witness!(h && d.m == 9 && d.d == 24 && d.w == MON, "equinox on a Sunday");
        witness!(h && d.m == 11 && d.d == 12, "enthronement");
        witness!(h && d.m == 9 && d.w == TUE && d.d == 22, "between two holidays");
    }
}
