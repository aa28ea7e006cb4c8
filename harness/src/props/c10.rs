//! C10: advancing a date by a period on a calendar.
//@ engine=symx
use super::c09::{calendar, near, next, prev};
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{
    businessdayconvention::BusinessDayConvention::{self, *},
    calendar::Calendar,
    date::Date,
    holidays::{nilholiday::NilHoliday, weekendsonly::WeekendsOnly},
    period::Period,
    timeunit::TimeUnit,
};

const K: usize = 3;
const LO: i32 = MIN_SERIAL + 12;
const HI: i32 = MAX_SERIAL - 12;

pub fn convention() -> BusinessDayConvention {
    match nd::choice(7) {
        0 => Following,
        1 => ModifiedFollowing,
        2 => HalfMonthModifiedFollowing,
        3 => Preceding,
        4 => ModifiedPreceding,
        5 => Unadjusted,
        _ => Nearest,
    }
}

fn setup(lo: i32, hi: i32) -> (Calendar, [i32; K], Date) {
    let (c, h) = calendar::<K>(lo, hi);
    let d = Date::from_serial(nd::int(lo, hi));
    (c, h, d)
}

fn some() -> BusinessDayConvention {
    match nd::choice(3) { 0 => Following, 1 => Preceding, _ => Unadjusted }
}

fn on(c: &Calendar, h: &[i32; K], s: i32, n: i32) -> i32 {
    let r = c.advance_by_days(Date::from_serial(s), n, TimeUnit::Days, some(), nd::bool()).serial_number();
    let mut e = s;
    let mut i = 0;
    while i < 3 {
        if i < n {
            e = next(h, e + 1);
        }
        i += 1;
    }
    prop!(r == e, "n business days on is the n-th business day after the date");
    e - s
}

fn back(c: &Calendar, h: &[i32; K], s: i32, n: i32) -> i32 {
    let r = c.advance_by_days(Date::from_serial(s), -n, TimeUnit::Days, some(), nd::bool()).serial_number();
    let mut e = s;
    let mut i = 0;
    while i < 3 {
        if i < n {
            e = prev(h, e - 1);
        }
        i += 1;
    }
    prop!(r == e, "n business days back is the n-th business day before the date");
    e - s
}

fn moved(n: i32, unit: TimeUnit) -> i32 {
    let d = Date::from_serial(nd::int(LO + 800, HI - 800));
    let p = Period::new(n, unit);
    // Date + Period is the subject of C02
    let t = (d + p).serial_number();
    let (c, h) = near::<2>(t - 4, 9);
    let v = some();
    let r = c.advance_by_period(d, p, v, false).serial_number();
    prop!(r == match v { Following => next(&h, t), Preceding => prev(&h, t), _ => t }, "without the end-of-month rule the date is moved, then adjusted");
    r - t
}

fn moved_eom(n: i32, unit: TimeUnit) -> (bool, i32) {
    let d = Date::from_serial(nd::int(LO + 800, HI - 800));
    let p = Period::new(n, unit);
    let t = d + p;
    let mut c = NilHoliday::new();
    let (i, j) = (nd::choice(3) as i32, nd::choice(3) as i32);
    c.add_holiday(d + i);
    c.add_holiday(t + j);
    let v = if nd::bool() { Following } else { Unadjusted };
    let r = c.advance_by_period(d, p, v, true);
    let eom = c.is_end_of_month(&d);
    let e = if eom { c.end_of_month(&t) } else { c.adjust(t, v) };
    prop!(r == e, "with the end-of-month rule a month-end date goes to the last business day of the month");
    (eom, r - t)
}

/// n business days on or back from a day of a week, over weekends and a holiday
fn far(n: i32) -> i32 {
    // 40,003 is a Wednesday, and 7 days are one week
    let s = 40000 + nd::each(nd::int(0, 6));
    let x = nd::int(s - 50, s + 50);
    let mut c = WeekendsOnly::new();
    c.add_holiday(Date::from_serial(x));
    let r = c.advance_by_days(Date::from_serial(s), n, TimeUnit::Days, Preceding, false).serial_number();
    // where it would be without the holiday
    let step = n.signum();
    let mut e = s;
    let mut k = 0;
    while k < n.abs() {
        e += step;
        if e % 7 > 1 {
            k += 1;
        }
    }
    let mut one = e + step;
    while one % 7 < 2 {
        one += step;
    }
    let counts = x % 7 > 1 && (n > 0 && x > s && x <= e || n < 0 && x < s && x >= e);
    prop!(r == if counts { one } else { e }, "n business days on or back, weekends and holidays left out");
    r - s
}

harnesses! {
    //@ nomerge=.
    c10_far_on(2) {
        let k = far([6, 11, 25][nd::each(nd::int(0, 2)) as usize]);
        witness!(k == 36, "five weeks and a holiday");
    }
    //@ nomerge=.
    c10_far_back(2) {
        let k = far(-[6, 11, 25][nd::each(nd::int(0, 2)) as usize]);
        witness!(k == -36, "five weeks and a holiday");
    }
    c10_days_on(2) {
        let base = nd::int(MIN_SERIAL, MAX_SERIAL - 24);
        let (c, h) = near::<3>(base, 10);
        let k = on(&c, &h, base, nd::int(1, 3));
        witness!(k == 6, "three holidays skipped");
    }
    c10_days_back(2) {
        let base = nd::int(MIN_SERIAL, MAX_SERIAL - 24);
        let (c, h) = near::<3>(base, 10);
        let k = back(&c, &h, base + 10, nd::int(1, 3));
        witness!(k == -6, "three holidays skipped");
    }
    c10_zero(2) {
        let (c, h, d) = setup(LO, HI);
        let unit = match nd::choice(4) { 0 => TimeUnit::Days, 1 => TimeUnit::Weeks, 2 => TimeUnit::Months, _ => TimeUnit::Years };
        let v = some();
        let r = c.advance_by_days(d, 0, unit, v, nd::bool()).serial_number();
        let s = d.serial_number();
        prop!(r == match v { Following => next(&h, s), Preceding => prev(&h, s), _ => s }, "advancing by nothing adjusts the date");
        witness!(r == s + 3, "adjusted");
    }
    c10_weeks(2) {
        let (c, h, d) = setup(LO + 700, HI - 700);
        let n = nd::int(-100, 100);
        let v = some();
        let r = c.advance_by_period(d, Period::new(n, TimeUnit::Weeks), v, nd::bool()).serial_number();
        let s = d.serial_number() + 7 * n;
        prop!(r == match v { Following => next(&h, s), Preceding => prev(&h, s), _ => s }, "n weeks on, then adjusted");
        witness!(r == s + 3 && n < -50, "adjusted");
    }
    c10_month_on(2) {
        let k = moved(1, TimeUnit::Months);
        witness!(k == 2, "adjusted");
    }
    c10_months_back(2) {
        let k = moved(-18, TimeUnit::Months);
        witness!(k == 2, "adjusted");
    }
    c10_year_on(2) {
        let k = moved(1, TimeUnit::Years);
        witness!(k == 2, "adjusted");
    }
    //@ tier=thorough
    c10_months_on(2) {
        let k = moved(5, TimeUnit::Months);
        witness!(k == 2, "adjusted");
    }
    c10_eom_month_on(2) {
        let (eom, k) = moved_eom(1, TimeUnit::Months);
        witness!(eom && k < 0, "rule applied");
    }
    c10_eom_year_back(2) {
        let (eom, k) = moved_eom(-1, TimeUnit::Years);
        witness!(eom && k < 0, "rule applied");
    }
    //@ tier=thorough
    c10_eom_months_back(2) {
        let (eom, k) = moved_eom(-18, TimeUnit::Months);
        witness!(eom && k < 0, "rule applied");
    }
    c10_default(2) {
        let (c, h, d) = setup(LO, HI);
        let n = nd::int(-2, 2);
        let e = c.advance_by_days(d, n, TimeUnit::Days, Following, false);
        prop!(c.advance_by_days_with_following(d, n, TimeUnit::Days, false) == e, "advance_by_days_with_following is Following");
        prop!(c.advance_by_period_with_following(d, Period::new(n, TimeUnit::Days), false) == e, "advance_by_period_with_following is Following");
        prop!(c.advance_by_period(d, Period::new(n, TimeUnit::Days), Following, false) == e, "advance_by_period agrees with advance_by_days");
        witness!(e > d, "later");
    }
}
