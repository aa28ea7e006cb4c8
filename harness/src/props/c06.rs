//! C06: order, equality and hashing of periods.
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{period::Period, timeunit::TimeUnit};
use std::cmp::Ordering;
use std::hash::Hash;

pub const MAXLEN: i32 = 20_000;

pub fn unit() -> TimeUnit {
    match nd::choice(4) {
        0 => TimeUnit::Days,
        1 => TimeUnit::Weeks,
        2 => TimeUnit::Months,
        _ => TimeUnit::Years,
    }
}

/// An arbitrary period in days, weeks, months or years
pub fn period(max: i32) -> Period {
    Period::new(nd::int(-max, max), unit())
}

/// Length in days (first) or months (second) of a period
pub fn size(p: &Period) -> (bool, i32) {
    match p.unit {
        TimeUnit::Days => (true, p.length),
        TimeUnit::Weeks => (true, 7 * p.length),
        TimeUnit::Months => (false, p.length),
        _ => (false, 12 * p.length),
    }
}

/// Smallest and largest number of days a period can stand for
fn days(p: &Period) -> (i32, i32) {
    let (a, b) = match p.unit {
        TimeUnit::Days => (p.length, p.length),
        TimeUnit::Weeks => (7 * p.length, 7 * p.length),
        TimeUnit::Months => (28 * p.length, 31 * p.length),
        _ => (365 * p.length, 366 * p.length),
    };
    if a <= b { (a, b) } else { (b, a) }
}

/// The order, where it can be decided
fn expected(p: &Period, q: &Period) -> Option<Ordering> {
    let (dp, sp) = size(p);
    let (dq, sq) = size(q);
    if p.length == 0 || q.length == 0 || dp == dq {
        return Some(sp.cmp(&sq));
    }
    let (pl, ph) = days(p);
    let (ql, qh) = days(q);
    if ph < ql {
        Some(Ordering::Less)
    } else if pl > qh {
        Some(Ordering::Greater)
    } else {
        None
    }
}

/// Order and equality of a period in unit `u` and any other period
fn order(u: TimeUnit) {
    let p = Period::new(nd::int(-MAXLEN, MAXLEN), u);
    let q = period(MAXLEN);
    let x = expected(&p, &q);
    witness!(x == Some(Ordering::Less) && p.unit != q.unit && p.length > 0, "less in different units");
    witness!(x == Some(Ordering::Equal) && p.unit != q.unit && p.length > 0, "equal in different units");
    match x {
        Some(o) => {
            prop!(p.partial_cmp(&q) == Some(o), "periods are ordered by the time they stand for");
            prop!((p < q) == (o == Ordering::Less), "< agrees with the order of periods");
            prop!((p > q) == (o == Ordering::Greater), "> agrees with the order of periods");
            prop!((p == q) == (o == Ordering::Equal), "== agrees with the order of periods");
            prop!((p != q) == (o != Ordering::Equal), "!= is the negation of ==");
            prop!((p <= q) == (o != Ordering::Greater), "<= agrees with the order of periods");
        }
        None => {
            prop!(!(p < q && q < p), "two periods cannot each be shorter than the other");
            prop!(p != q, "periods that stand for different times are not equal");
        }
    }
}

harnesses! {
    //@ bounds="|length| <= 20,000"
    c06_order_days(2) { order(TimeUnit::Days) }
    //@ bounds="|length| <= 20,000"
    c06_order_weeks(2) { order(TimeUnit::Weeks) }
    //@ bounds="|length| <= 20,000"
    c06_order_months(2) { order(TimeUnit::Months) }
    //@ bounds="|length| <= 20,000"
    c06_order_years(2) { order(TimeUnit::Years) }
    c06_hash(33) {
        let p = period(MAXLEN);
        let q = period(MAXLEN);
        let (dp, sp) = size(&p);
        let (dq, sq) = size(&q);
        nd::assume((dp == dq && sp == sq) || (sp == 0 && sq == 0));
        witness!(p.unit != q.unit && p.length != 0, "equal in different units");
        let mut h1 = Bytes::default();
        let mut h2 = Bytes::default();
        p.hash(&mut h1);
        q.hash(&mut h2);
        prop!(h1.same(&h2), "equal periods hash equally");
    }
    c06_days_min_max(2) {
        let p = period(MAXLEN);
        nd::assume(p.length >= 0);
        witness!(p.unit == TimeUnit::Months && p.length == 2, "two months");
        let (lo, hi) = p.days_min_max();
        let (a, b) = days(&p);
        prop!(lo == a && hi == b, "least and greatest number of days of a period");
    }
    // the bounds contain what adding the period to a date really does
    c06_days_min_max_contains(14) {
        let (y, m, d) = ymd(1900, 2188);
        let n = nd::int(0, 120);
        let months = nd::bool();
        let k = if months { n } else { n / 12 };
        let p = Period::new(k, if months { TimeUnit::Months } else { TimeUnit::Years });
        let total = y * 12 + (m - 1) + if months { k } else { 12 * k };
        let (y2, m2) = (total / 12, total % 12 + 1);
        nd::assume(y2 <= 2199);
        let l2 = month_len(y2, m2);
        let d2 = if d > l2 { l2 } else { d };
        let len = serial_of(y2, m2, d2) - serial_of(y, m, d);
        witness!(months && k == 1 && len == 28, "a February");
        let (lo, hi) = p.days_min_max();
        prop!(len <= hi, "a period is never longer than its greatest number of days");
        prop!(len >= lo, "a period is never shorter than its least number of days");
    }
}
