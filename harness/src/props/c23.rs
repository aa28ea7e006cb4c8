//@ engine=symx
//! C23: interest-rate algebra.
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{date::Date, daycounter::DayCounter, frequency::Frequency};
use rust_quantlib::rates::{
    compounding::Compounding::{self, *},
    interestrate::InterestRate,
};

const FREQ: [(Frequency, i32); 10] = [
    (Frequency::Annual, 1),
    (Frequency::Semiannual, 2),
    (Frequency::EveryFourthMonth, 3),
    (Frequency::Quarterly, 4),
    (Frequency::Bimonthly, 6),
    (Frequency::Monthly, 12),
    (Frequency::EveryFourthWeek, 13),
    (Frequency::Biweekly, 26),
    (Frequency::Weekly, 52),
    (Frequency::Daily, 365),
];

fn number() -> f64 {
    let v = nd::f64();
    nd::assume(v.is_finite());
    v
}

pub fn kind() -> Compounding {
    match nd::each(nd::int(0, 4)) {
        0 => Simple,
        1 => Compounded,
        2 => Continuous,
        3 => SimpleThenCompounded,
        _ => CompoundedThenSimple,
    }
}

pub fn freq() -> (Frequency, f64) {
    let (f, n) = FREQ[nd::each(nd::int(0, 9)) as usize];
    (f, n as f64)
}

fn dc() -> DayCounter {
    if nd::each(nd::int(0, 1)) == 0 { DayCounter::actual360() } else { DayCounter::Actual366(rust_quantlib::datetime::daycounters::actual366::Actual366::new()) }
}

pub fn dc_of(k: i32) -> DayCounter {
    if k == 0 { DayCounter::actual360() } else { DayCounter::Actual366(rust_quantlib::datetime::daycounters::actual366::Actual366::new()) }
}

fn day() -> (Date, i32) {
    let s = nd::int(MIN_SERIAL, MAX_SERIAL);
    (Date::from_serial(s), s)
}

/// The growth of one unit over t at rate r, compounded n times a year if it is
fn growth(c: &Compounding, n: f64, r: f64, t: f64) -> f64 {
    let whole = |t: f64| (1.0 + r / n).powf(n * t);
    match c {
        Simple => 1.0 + r * t,
        Compounded => whole(t),
        Continuous => (r * t).exp(),
        SimpleThenCompounded => if t <= 1.0 / n { 1.0 + r * t } else { whole(t) },
        CompoundedThenSimple => if t <= 1.0 / n { whole(t) } else { 1.0 + r * t },
    }
}

/// The rate at which one unit grows to g over t
fn implied(c: &Compounding, n: f64, g: f64, t: f64) -> f64 {
    if g == 1.0 {
        return 0.0;
    }
    let whole = || (g.powf(1.0 / (n * t)) - 1.0) * n;
    let simple = (g - 1.0) / t;
    match c {
        Simple => simple,
        Compounded => whole(),
        Continuous => g.ln() / t,
        SimpleThenCompounded => if t <= 1.0 / n { simple } else { whole() },
        CompoundedThenSimple => if t <= 1.0 / n { whole() } else { simple },
    }
}

fn compounds(c: &Compounding) -> bool {
    *c != Simple && *c != Continuous
}

/// What a rate says about itself
pub fn is(r: &InterestRate, d: &DayCounter, c: &Compounding, f: Frequency) -> bool {
    r.daycounter == *d && r.compounding == *c && r.frequency() == if compounds(c) { f } else { Frequency::NoFrequency }
}

harnesses! {
    c23_factors(2) {
        let (c, (f, n), r, t) = (kind(), freq(), number(), number());
        nd::assume(t >= 0.0);
        let i = InterestRate::new(r, dc_of(0), c.clone(), f);
        prop!(is(&i, &dc_of(0), &c, f), "a rate keeps its conventions");
        prop!(nd::same(i.rate, r), "a rate keeps its value");
        prop!(nd::same(i.compound_factor(t), growth(&c, n, r, t)), "the compound factor is the growth under the compounding rule");
        prop!(nd::same(i.discount_factor(t), 1.0 / growth(&c, n, r, t)), "the discount factor is the inverse of the compound factor");
        witness!(c == SimpleThenCompounded && n == 4.0 && t > 0.5 && r < 0.0, "beyond the first period");
        witness!(c == CompoundedThenSimple && n == 4.0 && t < 0.2 && t > 0.0, "in the first period");
    }
    c23_between_dates(2) {
        let ((a, s), (b, e)) = (day(), day());
        nd::assume(s <= e);
        let (c, (f, n), r) = (kind(), (Frequency::Quarterly, 4.0), number());
        let k = nd::each(nd::int(0, 1));
        let i = InterestRate::new(r, dc_of(k), c.clone(), f);
        let t = (e - s) as f64 / if k == 0 { 360.0 } else { 366.0 };
        prop!(nd::same(i.compound_factor_between_dates(&a, &b, &a, &b), growth(&c, n, r, t)), "between dates the compound factor is that of the year fraction");
        prop!(nd::same(i.discount_factor_between_dates(&a, &b, &a, &b), 1.0 / growth(&c, n, r, t)), "between dates the discount factor is that of the year fraction");
        witness!(s == e && c == Compounded, "the same date");
        witness!(e - s == 1000 && c == SimpleThenCompounded, "beyond the first period");
    }
    c23_implied(2) {
        let (c, (f, n), r, g, t) = (kind(), freq(), number(), number(), number());
        nd::assume(g > 0.0 && (t > 0.0 || t == 0.0 && g == 1.0));
        let k = nd::each(nd::int(0, 1));
        let i = InterestRate::new(r, dc_of(k), Simple, Frequency::Annual);
        let m = i.implied_rate(g, &dc_of(1 - k), &c, f, t);
        prop!(nd::same(m.rate, implied(&c, n, g, t)), "the implied rate inverts the compounding rule");
        prop!(is(&m, &dc_of(1 - k), &c, f), "the implied rate has the conventions asked for");
        witness!(c == SimpleThenCompounded && n == 4.0 && t > 0.5 && g < 1.0, "beyond the first period");
        witness!(g == 1.0 && t == 0.0, "no growth");
    }
    c23_implied_between(2) {
        let ((a, s), (b, e)) = (day(), day());
        nd::assume(s < e);
        let (c, (f, n), r, g) = (kind(), (Frequency::Semiannual, 2.0), number(), number());
        nd::assume(g > 0.0);
        let k = nd::each(nd::int(0, 1));
        let i = InterestRate::new(r, dc_of(k), Simple, Frequency::Annual);
        let t = (e - s) as f64 / if k == 0 { 366.0 } else { 360.0 };
        let m = i.implied_rate_between_dates(g, &dc_of(1 - k), &c, f, &a, &b, &a, &b);
        prop!(nd::same(m.rate, implied(&c, n, g, t)), "between dates the implied rate is over the year fraction of the day counter asked for");
        prop!(is(&m, &dc_of(1 - k), &c, f), "the implied rate has the conventions asked for");
        witness!(e - s == 1000 && c == SimpleThenCompounded, "beyond the first period");
    }
    c23_equivalent(2) {
        let (c, d, r, t) = (kind(), kind(), number(), number());
        let ((f, n), (h, m)) = ((Frequency::Quarterly, 4.0), (Frequency::Monthly, 12.0));
        let g = growth(&c, n, r, t);
        nd::assume(t > 0.0 && g > 0.0);
        let i = InterestRate::new(r, dc_of(0), c.clone(), f);
        let e = i.equivalent_rate(&d, h, t);
        prop!(nd::same(e.rate, implied(&d, m, g, t)), "the equivalent rate is implied by the compound factor");
        prop!(is(&e, &dc_of(0), &d, h), "the equivalent rate has the conventions asked for and keeps the day counter");
        witness!(c == Compounded && d == Continuous, "compounded to continuous");
    }
    c23_equivalent_between(2) {
        let ((a, s), (b, e)) = (day(), day());
        nd::assume(s < e);
        let (c, d, r) = (kind(), kind(), number());
        let ((f, n), (h, m)) = ((Frequency::Quarterly, 4.0), (Frequency::Monthly, 12.0));
        let k = nd::each(nd::int(0, 1));
        let (t, u) = ((e - s) as f64 / if k == 0 { 360.0 } else { 366.0 }, (e - s) as f64 / if k == 0 { 366.0 } else { 360.0 });
        let g = growth(&c, n, r, t);
        nd::assume(g > 0.0);
        let i = InterestRate::new(r, dc_of(k), c.clone(), f);
        let q = i.equivalent_rate_between_dates(&dc_of(1 - k), &d, h, &a, &b, &a, &b);
        prop!(nd::same(q.rate, implied(&d, m, g, u)), "between dates each rate uses the year fraction of its own day counter");
        prop!(is(&q, &dc_of(1 - k), &d, h), "the equivalent rate has the conventions asked for");
        witness!(e - s == 1000 && c == SimpleThenCompounded, "beyond the first period");
    }
    //@ rejects
    c23_frequency_rejected(2) {
        let c = kind();
        nd::assume(compounds(&c));
        let f = if nd::bool() { Frequency::Once } else { Frequency::NoFrequency };
        witness!(c == Compounded, "compounded");
        rejects!(InterestRate::new(number(), dc_of(0), c, f), "compounding needs a frequency");
    }
    //@ rejects
    c23_time_rejected(2) {
        let (c, (f, n), r, t) = (kind(), freq(), number(), number());
        nd::assume(t < 0.0);
        let i = InterestRate::new(r, dc_of(0), c.clone(), f);
        witness!(c == Compounded, "compounded");
        rejects!(if nd::bool() { i.compound_factor(t) } else { i.discount_factor(t) }, "a negative time is refused");
    }
    //@ rejects
    c23_dates_rejected(2) {
        let ((a, s), (b, e)) = (day(), day());
        nd::assume(s > e);
        let i = InterestRate::new(number(), dc_of(0), Continuous, Frequency::Annual);
        witness!(s == e + 1, "one day");
        let k = nd::each(nd::int(0, 3));
        rejects!(match k {
            0 => i.compound_factor_between_dates(&a, &b, &a, &b),
            1 => i.discount_factor_between_dates(&a, &b, &a, &b),
            2 => i.equivalent_rate_between_dates(&dc_of(0), &Simple, Frequency::Annual, &a, &b, &a, &b).rate,
            _ => i.implied_rate_between_dates(1.5, &dc_of(0), &Simple, Frequency::Annual, &a, &b, &a, &b).rate,
        }, "dates in the wrong order are refused");
    }
    //@ rejects
    c23_implied_rejected(2) {
        let (c, (f, n), g, t) = (kind(), freq(), number(), number());
        nd::assume(g <= 0.0 || t < 0.0 || t == 0.0 && g != 1.0);
        let i = InterestRate::new(number(), dc_of(0), Simple, Frequency::Annual);
        witness!(g == 2.0 && t == 0.0, "growth in no time");
        witness!(g == 0.0, "no capital left");
        rejects!(i.implied_rate(g, &dc_of(0), &c, f, t), "an impossible growth is refused");
    }
}
