//@ engine=symx
//! C18: day counters on actual days.
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{
    date::Date,
    daycounter::DayCounter,
    daycounters::{actual360::Actual360, actual366::Actual366, one::One, simple::Simple},
};

fn serial() -> (Date, i32) {
    let s = nd::int(MIN_SERIAL, MAX_SERIAL);
    (Date::from_serial(s), s)
}

fn ends(d: &Date) -> (i32, i32, i32, bool) {
    let (y, m, k) = (d.year(), d.month() as i32, d.day_of_month() as i32);
    (y, m, k, k == month_len(y, m) as i32)
}

/// The days of [a, b) in each calendar year over the length of that year, whole years counting one
fn by_years(a: i32, ya: i32, b: i32, yb: i32) -> f64 {
    let len = |y: i32| if leap(y) { 366.0 } else { 365.0 };
    let mut f = (yb - ya - 1) as f64;
    f += (serial_of(ya + 1, 1, 1) - a) as f64 / len(ya);
    f += (b - serial_of(yb, 1, 1)) as f64 / len(yb);
    f
}

harnesses! {
    c18_actual360(2) {
        let ((a, s), (b, t), (r, _), (q, _)) = (serial(), serial(), serial(), serial());
        let inc = nd::bool();
        let c = if inc { Actual360::with_last_day(true) } else if nd::bool() { Actual360::default() } else { Actual360::new() };
        let n = if inc { t - s + 1 } else { t - s };
        prop!(c.day_count(&a, &b) == n, "Actual/360 counts the days, the last one if asked to");
        prop!(c.year_fraction(&a, &b, &r, &q) == n as f64 / 360.0, "the fraction is the days over 360, whatever the reference period");
        let d = DayCounter::Actual360(c);
        prop!(d.day_count(&a, &b) == n && d.year_fraction(&a, &b, &r, &q) == n as f64 / 360.0, "the day counter counts as its convention");
        prop!(DayCounter::actual360().day_count(&a, &b) == t - s, "the day counter leaves out the last day by default");
        witness!(inc && n < 0, "backwards, with the last day");
    }
    c18_actual366(2) {
        let ((a, s), (b, t), (r, _), (q, _)) = (serial(), serial(), serial(), serial());
        let inc = nd::bool();
        let c = if inc { Actual366::with_last_day(true) } else if nd::bool() { Actual366::default() } else { Actual366::new() };
        let n = if inc { t - s + 1 } else { t - s };
        prop!(c.day_count(&a, &b) == n, "Actual/366 counts the days, the last one if asked to");
        prop!(c.year_fraction(&a, &b, &r, &q) == n as f64 / 366.0, "the fraction is the days over 366, whatever the reference period");
        let d = DayCounter::Actual366(c);
        prop!(d.day_count(&a, &b) == n && d.year_fraction(&a, &b, &r, &q) == n as f64 / 366.0, "the day counter counts as its convention");
        witness!(inc && n < 0, "backwards, with the last day");
    }
    c18_one(2) {
        let ((a, s), (b, t), (r, _), (q, _)) = (serial(), serial(), serial(), serial());
        let c = One::new();
        let n = if t >= s { 1 } else { -1 };
        prop!(c.day_count(&a, &b) == n, "one/one counts one forward and minus one backward");
        prop!(c.year_fraction(&a, &b, &r, &q) == n as f64, "the fraction is the count");
        let d = DayCounter::One(c);
        prop!(d.day_count(&a, &b) == n && d.year_fraction(&a, &b, &r, &q) == n as f64, "the day counter counts as its convention");
        witness!(s == t, "one day");
        witness!(s > t, "backwards");
    }
    c18_simple(2) {
        let (a, b) = (date(), date());
        let ((y1, m1, d1, e1), (y2, m2, d2, e2)) = (ends(&a), ends(&b));
        let (r, q) = (serial().0, serial().0);
        let whole = d1 == d2 || d1 > d2 && e2 || d1 < d2 && e1;
        let f = Simple::new().year_fraction(&a, &b, &r, &q);
        if whole {
            prop!(f == (y2 - y1) as f64 + (m2 - m1) as f64 / 12.0, "a whole number of months is that many twelfths");
        } else {
            let n = DayCounter::isma().day_count(&a, &b);
            prop!(f == n as f64 / 360.0, "anything else is the bond basis");
        }
        prop!(DayCounter::simple().year_fraction(&a, &b, &r, &q) == f, "the day counter counts as its convention");
        witness!(whole && d1 > d2, "to a month end");
        witness!(whole && d1 < d2 && m2 < m1, "from a month end");
        witness!(!whole, "other");
    }
    c18_isda(2) {
        let (a, b) = (date(), date());
        let (s, t) = (a.serial_number(), b.serial_number());
        let (y1, y2) = (a.year(), b.year());
        nd::assume(y1 < 2199);
        nd::assume(s < t);
        let (r, q) = (serial().0, serial().0);
        let f = DayCounter::actual_actual_isda().year_fraction(&a, &b, &r, &q);
        prop!(f == by_years(s, y1, t, y2), "the days in every year count over the length of the year");
        witness!(y1 == y2, "in one year");
        witness!(leap(y1) && !leap(y2) && y2 > y1 + 3, "over years");
    }
    c18_isda_back(2) {
        let (a, b) = (date(), date());
        let (r, q) = (serial().0, serial().0);
        let (y1, y2) = (a.year(), b.year());
        nd::assume(y1 < 2199 && y2 < 2199);
        let c = DayCounter::actual_actual_isda();
        let f = c.year_fraction(&b, &a, &r, &q);
        if a == b {
            prop!(f == 0.0, "no time between a day and itself");
        } else if a < b {
            prop!(f == -c.year_fraction(&a, &b, &r, &q), "backwards is the negative");
        }
        witness!(a < b, "backwards");
    }
    c18_counts(2) {
        let ((a, s), (b, t)) = (serial(), serial());
        prop!(DayCounter::actual_actual_isda().day_count(&a, &b) == t - s, "Actual/Actual ISDA counts the days");
        prop!(DayCounter::actual_actual_afb().day_count(&a, &b) == t - s, "Actual/Actual AFB counts the days");
        prop!(DayCounter::actual_actual_old_isma().day_count(&a, &b) == t - s, "Actual/Actual ISMA counts the days");
        witness!(t < s, "backwards");
    }
}
