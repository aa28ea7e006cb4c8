//@ engine=symx
//! C31: the Actual/Actual ISMA day count along a schedule.
use super::c26::{ask, at, Ask, in_month, month, yes, NONE};
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{
    date::Date,
    dategenerationrule::DateGenerationRule::*,
    daycounter::DayCounter,
    daycounters::actualactual::{ActualActual, ISMA},
    period::Period,
    schedule::Schedule,
    timeunit::TimeUnit::*,
};

/// The year fraction over part, of `days` days from a date, of a regular or quasi coupon period of `len` days
fn part(from: Date, days: i32, len: i32) -> f64 {
    if yes(len < 16) {
        // too short to tell how many there are: part of the year
        return days as f64 / (from + Period::new(1, Years) - from) as f64;
    }
    let months = (12.0 * (len as f64 / 365.0)).round() as i32;
    let per_year = (12.0 / months as f64).round() as i32;
    days as f64 / (len * per_year) as f64
}

/// The coupon dates with those of the regular periods that the stubs are part of
fn quasi(s: &Schedule) -> Vec<Date> {
    let (d, t) = (s.dates(), s.tenor());
    let n = d.len();
    let mut q = d.clone();
    if !yes(s.is_regular(1)) {
        q[0] = d[1] - t;
        if yes(q[0] > d[0]) {
            let p = q[0] - t;
            q.insert(0, p);
        }
    }
    if !yes(s.is_regular(n - 1)) {
        q.pop();
        let p = d[n - 2] + t;
        q.push(p);
        if yes(p < d[n - 1]) {
            q.push(p + t);
        }
    }
    q
}

fn fraction(q: &[Date], a: Date, b: Date) -> f64 {
    let mut sum = 0.0;
    for i in 0..q.len() - 1 {
        if yes(a < q[i + 1] && b > q[i]) {
            let from = if yes(a > q[i]) { a } else { q[i] };
            let to = if yes(b < q[i + 1]) { b } else { q[i + 1] };
            sum += part(from, to - from, q[i + 1] - q[i]);
        }
    }
    sum
}

/// The first, a middle or the last day of a month
fn some_day(k: i32) -> Date {
    let day = match nd::each(nd::int(0, 2)) {
        0 => 1,
        1 => 17,
        _ => month_len(2000 + k.div_euclid(12), k.rem_euclid(12) + 1) as i32,
    };
    Date::new(day as u32, (k.rem_euclid(12) + 1).into(), 2000 + k.div_euclid(12))
}

/// Any day from the first to the last of the dates, with the regular periods
fn within(q: &[Date]) -> Date {
    at(nd::int(q[0].serial_number(), q[q.len() - 1].serial_number()))
}

fn isma(s: &Schedule) -> ISMA {
    ActualActual::actual_actual_isma(s.clone())
}

fn check(s: &Schedule) -> (f64, f64, Date, Date) {
    let q = quasi(s);
    let (a, b) = (within(&q), within(&q));
    nd::assume(a < b);
    (isma(s).year_fraction(&a, &b, &NONE(), &NONE()), fraction(&q, a, b), a, b)
}

/// A schedule with stubs at both ends, the first of about k months, and the fraction between two dates
fn both(m: i32, k: i32) -> (f64, f64, Date, Date, Ask, Schedule) {
    let mut x = ask(some_day(m), some_day(m + 9), Period::new(3, Months));
    x.first = if k == 2 { Date::new(17, ((m + k).rem_euclid(12) + 1).into(), 2000 + (m + k).div_euclid(12)) } else { some_day(m + k) };
    x.last = x.first + Period::new(3, Months);
    let s = x.build(if k == 2 { Backward } else { Forward });
    let (r, w, a, b) = check(&s);
    (r, w, a, b, x, s)
}

/// One, three and six months
fn step() -> i32 {
    [1, 3, 6][nd::each(nd::int(0, 2)) as usize]
}

harnesses! {
    c31_forward(8) {
        let (m, t) = (month(0, 1), step());
        let s = ask(some_day(m), some_day(m + 2 * t + nd::each(nd::int(0, 1))), Period::new(t, Months)).build(Forward);
        let (r, w, _, b) = check(&s);
        prop!(nd::same(r, w), "the fractions of the periods and of the regular period that a last stub is part of add up");
        witness!(s.size() == 4 && b > *s.end_date(), "past the stub");
    }
    c31_lengths(8) {
        // periods of any length
        let m = 1;
        let (k, w) = (nd::each(nd::int(0, 6)), nd::each(nd::int(0, 1)));
        let t = [Period::new(1, Weeks), Period::new(2, Months), Period::new(5, Months), Period::new(7, Months), Period::new(8, Months), Period::new(1, Years), Period::new(2, Years)][k as usize];
        let from = if w == 1 { Date::new(17, (m + 1).into(), 2000) } else { Date::new(29, (m + 1).into(), 2000) };
        let s = ask(from, from + t + t, t).build(Forward);
        let q = s.dates();
        let (mut a, mut b) = (within(&q), within(&q));
        nd::assume(a < b);
        if k == 0 {
            a = at(nd::each(a.serial_number()));
            b = at(nd::each(b.serial_number()));
        }
        let (r, w) = (isma(&s).year_fraction(&a, &b, &NONE(), &NONE()), fraction(&q, a, b));
        prop!(nd::same(r, w), "the length of a period tells how many there are a year");
        witness!(k == 3 && a == from && b == from + t, "seven months");
        witness!(k == 0 && a > from && b < from + t, "in a week");
    }
    c31_backward(8) {
        let (m, t) = (month(0, 1), step());
        let s = ask(some_day(m), some_day(m + 2 * t + nd::each(nd::int(0, 1))), Period::new(t, Months)).build(Backward);
        let (r, w, a, _) = check(&s);
        prop!(nd::same(r, w), "the fractions of the periods and of the regular period that a first stub is part of add up");
        witness!(s.size() == 4 && a < *s.start_date(), "before the stub");
    }
    c31_long_first(8) {
        let m = month(0, 1);
        let first = some_day(m + 4);
        let mut x = ask(some_day(m), first + Period::new(3, Months), Period::new(3, Months));
        x.first = first;
        let s = x.build(Forward);
        let (r, w, a, b) = check(&s);
        prop!(nd::same(r, w), "a long first period is part of two regular periods");
        witness!(s.size() == 3 && a < *s.start_date() && b > x.first, "from before the start");
    }
    c31_long_last(8) {
        let m = month(0, 1);
        let from = some_day(m);
        let mut x = ask(from, some_day(m + 7), Period::new(3, Months));
        x.last = from + Period::new(3, Months);
        let s = x.build(Backward);
        let (r, w, a, b) = check(&s);
        prop!(nd::same(r, w), "a long last period is part of two regular periods");
        witness!(s.size() == 3 && a < x.last && b > *s.end_date(), "past the end");
    }
    c31_both(8) {
        let (r, w, a, b, x, s) = both(1, nd::each(nd::int(0, 1)) + 2);
        prop!(nd::same(r, w), "stubs at both ends are parts of regular periods");
        witness!(s.size() == 4 && a < x.first && b > x.last, "across");
    }
    //@ tier=thorough timeout=2000 bounds="stubs at both ends, all the starts and lengths"
    c31_both_all(8) {
        let (r, w, a, b, x, s) = both(month(0, 3), nd::each(nd::int(2, 4)));
        prop!(nd::same(r, w), "stubs at both ends are parts of regular periods");
        witness!(s.size() == 4 && a < x.first && b > x.last, "across");
    }
    c31_back(8) {
        let m = month(0, 1);
        let s = ask(some_day(m), some_day(m + 5), Period::new(3, Months)).build(Forward);
        let d = s.dates();
        let (a, b) = (within(&d), within(&d));
        nd::assume(a <= b);
        let c = isma(&s);
        let f = c.year_fraction(&a, &b, &NONE(), &NONE());
        prop!(nd::same(c.year_fraction(&b, &a, &NONE(), &NONE()), -f), "backwards is the negative");
        prop!(c.day_count(&a, &b) == b.serial_number() - a.serial_number(), "the days are counted");
        prop!(nd::same(DayCounter::actual_actual_isma(s).year_fraction(&a, &b, &a, &b), f), "the reference period does not count");
        witness!(a < b, "in order");
    }
    //@ rejects
    c31_rejected(8) {
        let m = 1;
        let s = ask(some_day(m), some_day(m + 5), Period::new(3, Months)).build(Forward);
        let q = quasi(&s);
        let (a, b) = (in_month(month(0, 3)), in_month(month(6, 8)));
        nd::assume(a < b && (a < q[0] || b > q[q.len() - 1]));
        witness!(a >= q[0], "past the end");
        rejects!(isma(&s).year_fraction(&a, &b, &NONE(), &NONE()), "dates outside the schedule are refused");
    }
}
