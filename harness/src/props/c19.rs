//@ engine=symx
//! C19: Actual/Actual by reference periods (ISMA without a schedule) and AFB.
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{date::Date, daycounter::DayCounter, period::Period, timeunit::TimeUnit::*};

fn at(s: i32) -> Date {
    Date::from_serial(s)
}
fn isma(a: &Date, b: &Date, r: &Date, q: &Date) -> f64 {
    DayCounter::actual_actual_old_isma().year_fraction(a, b, r, q)
}
/// Months of a reference period of n days
fn months(n: i32) -> i32 {
    (12.0 * n as f64 / 365.0).round() as i32
}
/// The days in a reference period of m months
fn length(m: i32) -> i32 {
    match m {
        1 => 30,
        3 => 91,
        6 => 182,
        _ => 365,
    }
}
fn by_fields(y0: i32, y1: i32) -> (Date, i32) {
    let d = date_in(y0, y1);
    (d, d.serial_number())
}
fn serial() -> Date {
    at(nd::int(MIN_SERIAL, MAX_SERIAL))
}
fn long_first(m: i32, mid: bool) -> bool {
    let (start, r) = if mid {
        let (y, m) = (nd::int(2000, 2001), nd::int(1, 12));
        let d = Date::new(15, m.into(), y);
        (d, d.serial_number())
    } else {
        by_fields(2000, 2001)
    };
    let n = length(m);
    let (b, c) = (nd::int(1, 366), nd::int(-365, 366));
    nd::assume(c <= n && c > -b);
    let prev = start - Period::new(m, Months);
    let before = r - prev.serial_number();
    nd::assume(b <= before);
    let (end, from, to) = (at(r + n), at(r - b), at(r + c));
    let f = isma(&from, &to, &start, &end);
    if c > 0 {
        prop!(f == isma(&from, &start, &prev, &start) + isma(&start, &to, &start, &end), "a long first period is split at the start of the reference period");
    } else {
        prop!(f == isma(&from, &to, &prev, &start), "a period before the reference period counts in the one before it");
    }
    c > 0 && b > 20
}
fn long_last(m: i32, k: i32) -> bool {
    let (end, r) = by_fields(1996, 2004);
    let n = length(m);
    let (b, c) = (nd::int(1, 366), nd::int(1, 1500));
    nd::assume(b <= n);
    let (start, from, to) = (at(r - n), at(r - b), at(r + c));
    let s = end + Period::new(m * k, Months);
    let e = end + Period::new(m * (k + 1), Months);
    nd::assume(s <= to && to < e);
    let mut f = m as f64 / 12.0 * b as f64 / n as f64;
    let mut i = 0;
    while i < k {
        f += m as f64 / 12.0;
        i += 1;
    }
    prop!(isma(&from, &to, &start, &end) == f + isma(&s, &to, &s, &e), "a long last period is split at the quasi coupon dates");
    b == n
}
/// The anniversary k years before
fn before(y: i32, m: i32, d: i32, k: i32) -> (i32, i32, i32) {
    (y - k, m, if k > 0 && m == 2 && d >= 28 { month_len(y - k, 2) as i32 } else { d })
}
fn le(a: (i32, i32, i32), b: (i32, i32, i32)) -> bool {
    a.0 < b.0 || a.0 == b.0 && (a.1 < b.1 || a.1 == b.1 && a.2 <= b.2)
}
fn afb(k: i32) -> bool {
    // the rule repeats every four years
    let (y, m, d) = ymd(1999, 2004);
    let (x, n, c) = ymd(1996, 2004);
    let (b, a) = (Date::new(d, m.into(), y), Date::new(c, n.into(), x));
    let d = d as i32;
    let from = (x, n, c as i32);
    let e = before(y, m, d, k);
    nd::assume(le(from, e) && !le(from, before(y, m, d, k + 1)));
    nd::assume(k > 0 || a != b);
    let (r, q) = (serial(), serial());
    // a 29th of February in [a, anniversary)
    let l = |y: i32| leap(y) && le(from, (y, 2, 29)) && !le(e, (y, 2, 29));
    let den = if l(e.0) || l(x) { 366.0 } else { 365.0 };
    let days = serial_of(e.0, m, e.2 as u32) - serial_of(x, n, c);
    prop!(DayCounter::actual_actual_afb().year_fraction(&a, &b, &r, &q) == k as f64 + days as f64 / den, "whole years counted back from the end, and the days left over 366 with a leap day, else 365");
    m == 2 && d == 29
}

harnesses! {
    c19_within(2) {
        let r = nd::int(2, MAX_SERIAL - 3000);
        let n = nd::int(16, 2400);
        let (b, c) = (nd::int(0, 2400), nd::int(0, 2400));
        nd::assume(b < c && c <= n);
        let (start, end, from, to) = (at(r), at(r + n), at(r + b), at(r + c));
        nd::assume(start != Date::default());
        let m = months(n);
        nd::assume(m != 0);
        let f = isma(&from, &to, &start, &end);
        prop!(f == m as f64 / 12.0 * (c - b) as f64 / n as f64, "within the reference period, its months over twelve times the days over its days");
        witness!(b == 0 && c == n, "the whole period");
        witness!(n > 400 && b > 0, "a long period");
    }
    c19_default(2) {
        let r = nd::int(3, MAX_SERIAL - 3000);
        let n = nd::int(16, 2400);
        nd::assume(months(n) != 0);
        let (from, to) = (at(r), at(r + n));
        let none = Date::default();
        let f = isma(&from, &to, &none, &none);
        prop!(f == isma(&from, &to, &from, &to), "without a reference period it is the period itself");
        prop!(isma(&to, &from, &none, &none) == -f, "backwards is the negative");
        prop!(isma(&from, &from, &none, &none) == 0.0, "no time between a day and itself");
        witness!(n == 30, "a month");
    }
    c19_short(2) {
        let (y, m, d) = ymd(1901, 2197);
        let n = nd::int(1, 15);
        let from = Date::new(d, m.into(), y);
        let r = from.serial_number();
        let to = at(r + n);
        let year = from + Period::new(1, Years);
        let f = isma(&from, &to, &from, &to);
        prop!(f == 1.0 * n as f64 / (year.serial_number() - r) as f64, "a period of less than half a month counts in the year from its start");
        witness!(n == 15, "fifteen days");
    }
    c19_back(2) {
        let (end, r) = by_fields(1996, 2004);
        let n = length(1);
        let (b, c) = (nd::int(1, 31), nd::int(-31, 20));
        nd::assume(-b < c && b <= n);
        let (start, from, to) = (at(r - n), at(r - b), at(r + c));
        prop!(isma(&to, &from, &start, &end) == -isma(&from, &to, &start, &end), "backwards is the negative");
        witness!(c < 0, "within");
        witness!(c > 0, "long last");
    }
    //@ tier=thorough timeout=900
    c19_long_first_1(2) { witness!(long_first(1, false), "from the period before"); }
    //@ tier=thorough timeout=900
    c19_long_first_3(2) { witness!(long_first(3, false), "from the period before"); }
    //@ tier=thorough timeout=900
    c19_long_first_6(2) { witness!(long_first(6, false), "from the period before"); }
    //@ tier=thorough timeout=1500
    c19_long_first_12(2) { witness!(long_first(12, false), "from the period before"); }
    c19_long_first_mid_3(2) { witness!(long_first(3, true), "from the period before"); }
    c19_long_first_mid_6(2) { witness!(long_first(6, true), "from the period before"); }
    c19_long_last_1(2) { witness!(long_last(1, 0), "from the start of the reference period"); }
    c19_long_last_1_two(2) { witness!(long_last(1, 2), "from the start of the reference period"); }
    c19_long_last_3(2) { witness!(long_last(3, 0), "from the start of the reference period"); }
    c19_long_last_3_one(2) { witness!(long_last(3, 1), "from the start of the reference period"); }
    c19_long_last_6(2) { witness!(long_last(6, 0), "from the start of the reference period"); }
    c19_long_last_6_one(2) { witness!(long_last(6, 1), "from the start of the reference period"); }
    c19_long_last_12(2) { witness!(long_last(12, 0), "from the start of the reference period"); }
    c19_afb_0(2) { witness!(afb(0), "ends on a leap day"); }
    c19_afb_1(2) { witness!(afb(1), "ends on a leap day"); }
    //@ tier=thorough timeout=900
    c19_afb_2(2) { witness!(afb(2), "ends on a leap day"); }
    c19_afb_back(2) {
        let (a, b) = (date_in(1999, 2000), date_in(1999, 2000));
        let (r, q) = (serial(), serial());
        let c = DayCounter::actual_actual_afb();
        if a == b {
            prop!(c.year_fraction(&b, &a, &r, &q) == 0.0, "no time between a day and itself");
        } else if a < b {
            prop!(c.year_fraction(&b, &a, &r, &q) == -c.year_fraction(&a, &b, &r, &q), "backwards is the negative");
        }
        witness!(a < b, "backwards");
    }
}
