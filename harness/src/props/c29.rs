//@ engine=symx
//! C29: the coupons of a fixed-rate leg.
use super::c26::{ask, conventions, in_month, month, yes, Ask, NONE};
use crate::gen::*;
use crate::nd;
use rust_quantlib::cashflows::{cashflow::CashFlow, coupon::Coupon, fixedratecoupon::FixedRateCoupon, fixedrateleg::FixedRateLeg};
use rust_quantlib::datetime::{
    businessdayconvention::BusinessDayConvention::*,
    calendar::Calendar,
    date::Date,
    dategenerationrule::DateGenerationRule::*,
    daycounter::DayCounter,
    daycounters::actual366::Actual366,
    frequency::Frequency,
    holidays::{nilholiday::NilHoliday, weekendsonly::WeekendsOnly},
    period::Period,
    schedule::Schedule,
    timeunit::TimeUnit::*,
};
use rust_quantlib::rates::{
    compounding::Compounding::{self, *},
    interestrate::InterestRate,
};

pub fn number() -> f64 {
    let v = nd::f64();
    nd::assume(v.is_finite());
    v
}

pub fn act360() -> DayCounter {
    DayCounter::actual360()
}

fn act366() -> DayCounter {
    DayCounter::Actual366(Actual366::new())
}

/// 0 for Actual/360, 1 for Actual/366
fn which(dc: &DayCounter) -> i32 {
    match dc {
        DayCounter::Actual360(_) => 0,
        DayCounter::Actual366(_) => 1,
        _ => 2,
    }
}

/// A schedule on a calendar without holidays
pub fn schedule(lo: i32, hi: i32) -> Schedule {
    let m = month(0, 1);
    ask(in_month(m), in_month(m + nd::each(nd::int(lo, hi))), Period::new(3, Months)).build(if nd::each(nd::int(0, 1)) == 1 { Backward } else { Forward })
}

fn simple(rate: f64, dc: DayCounter) -> InterestRate {
    InterestRate::new(rate, dc, Simple, Frequency::Annual)
}

/// A schedule of four dates in 2001
fn fixed() -> Schedule {
    ask(Date::new(15, 1.into(), 2001), Date::new(15, 10.into(), 2001), Period::new(3, Months)).build(Forward)
}

fn nth<T: Copy>(v: &[T], i: usize) -> T {
    if i < v.len() { v[i] } else { v[v.len() - 1] }
}

/// Some numbers, one at least
fn numbers() -> Vec<f64> {
    let n = nd::each(nd::int(1, 4)) as usize;
    (0..n).map(|_| number()).collect()
}

harnesses! {
    c29_periods(8) {
        let s = schedule(3, 7);
        let d = s.dates();
        let n = d.len();
        let eom = false;
        let leg = FixedRateLeg::new(s.clone(), vec![100.0], vec![simple(0.05, act360())]).build();
        prop!(leg.len() == n - 1, "a leg has a coupon for every period of the schedule");
        for i in 1..n {
            let x: &FixedRateCoupon = &leg[i - 1];
            prop!(x.accrual_start_date() == d[i - 1] && x.accrual_end_date() == d[i], "a coupon accrues over its period");
            prop!(x.date() == d[i], "it is paid at the end");
            prop!(x.ex_coupon_date() == NONE(), "and does not trade ex-coupon");
            let (mut a, mut b) = (d[i - 1], d[i]);
            if !yes(s.is_regular(i)) {
                if i == 1 {
                    a = s.calendar().advance_by_period(d[1], Period::new(-3, Months), Unadjusted, eom);
                } else {
                    b = s.calendar().advance_by_period(d[i - 1], Period::new(3, Months), Unadjusted, eom);
                }
            }
            prop!(x.reference_period_start() == a && x.reference_period_end() == b, "its reference period is its own, or the regular one it is a part of at either end");
        }
        witness!(n == 4 && !s.is_regular(1), "a stub at the start");
        witness!(n == 4 && !s.is_regular(3), "a stub at the end");
    }
    c29_terms(8) {
        // the last nominal and rate go on
        let (s, v, r) = (fixed(), numbers(), numbers());
        let rates = r.iter().map(|x| InterestRate::new(*x, act360(), Compounded, Frequency::Quarterly)).collect();
        let mut b = FixedRateLeg::new(s, v.clone(), rates);
        let k = nd::each(nd::int(0, 3));
        if k & 1 > 0 {
            b = b.with_first_period_daycounter(act366());
        }
        if k & 2 > 0 {
            b = b.with_last_period_daycounter(act366());
        }
        let leg = b.build();
        prop!(leg.len() == 3, "three periods");
        for i in 0..3 {
            prop!(nd::same(leg[i].nominal(), nth(&v, i)), "a coupon has the nominal of its place, or the last one");
            prop!(nd::same(leg[i].rate(), nth(&r, i)), "a coupon has the rate of its place, or the last one");
            let x = &leg[i].rate;
            prop!(x.compounding == Compounded && x.frequency() == Frequency::Quarterly, "and its conventions");
            let w = (i == 0 && k & 1 > 0 || i == 2 && k & 2 > 0) as i32;
            prop!(which(leg[i].day_counter()) == w, "the first and the last period may have their own day counter");
        }
        witness!(v.len() == 2 && r.len() == 4 && k == 3, "fewer nominals");
    }
    c29_setters(8) {
        // what is set replaces what was
        let (v, r) = (numbers(), numbers());
        let (f, k) = (number(), nd::each(nd::int(0, 5)));
        let mut b = FixedRateLeg::new(fixed(), vec![1.0, 2.0, 3.0], vec![simple(1.0, act366()), simple(2.0, act366()), simple(3.0, act366())]);
        let (mut e, mut q, mut w) = (vec![1.0, 2.0, 3.0], vec![1.0, 2.0, 3.0], 1);
        match k {
            0 => {
                b = b.with_notional(f);
                e = vec![f];
            }
            1 => {
                b = b.with_notionals(v.clone());
                e = v;
            }
            2 => {
                b = b.with_coupon_rate(f, act360(), Simple, Frequency::Annual);
                q = vec![f];
                w = 0;
            }
            3 => {
                b = b.with_coupon_rates(r.clone(), act360(), Simple, Frequency::Annual);
                q = r;
                w = 0;
            }
            4 => {
                b = b.with_interest_rate(simple(f, act360()));
                q = vec![f];
                w = 0;
            }
            _ => {
                b = b.with_interest_rates(r.iter().map(|x| simple(*x, act360())).collect());
                q = r;
                w = 0;
            }
        }
        let leg = b.build();
        for i in 0..3 {
            prop!(nd::same(leg[i].nominal(), nth(&e, i)), "nominals that are set replace those before");
            prop!(nd::same(leg[i].rate(), nth(&q, i)), "rates that are set replace those before");
            prop!(which(leg[i].day_counter()) == w, "with their day counter");
        }
        witness!(k == 3 && q.len() == 2, "two rates");
    }
    c29_payment(8) {
        // on a payment calendar, some business days later
        let m = 1;
        let mut a = ask(in_month(m), in_month(m + 2), Period::new(1, Months));
        nd::assume(a.from.day_of_month() < 29);
        let own = nd::each(nd::int(0, 1)) == 1;
        if !own {
            a.calendar = WeekendsOnly::new();
        }
        let s = a.build(Forward);
        let d = s.dates();
        nd::assume(d.len() == 3);
        let (lag, k, conv) = match nd::each(nd::int(0, 4)) {
            0 => (0, 0, Following),
            1 => (0, 1, Preceding),
            2 => (0, 1, ModifiedFollowing),
            3 => (2, 0, Following),
            _ => (1, 1, Preceding),
        };
        let mut b = FixedRateLeg::new(s, vec![100.0], vec![simple(0.05, act360())]);
        if own {
            b = b.with_payment_calendar(WeekendsOnly::new());
        }
        if lag > 0 {
            b = b.with_payment_lag(lag);
        }
        if k == 1 {
            b = b.with_payment_adjustment(conv);
        }
        let leg = b.build();
        let c = WeekendsOnly::new();
        for i in 1..3 {
            let x = &leg[i - 1];
            prop!(x.date() == c.advance_by_days(d[i], lag, Days, if k == 1 { conv } else { Following }, false), "a coupon is paid the lag after the end, on a business day");
            prop!(x.accrual_end_date() == d[i], "and accrues until the end");
        }
        witness!(lag == 2 && own, "two days later");
        witness!(lag == 0 && k == 1 && conv == Preceding && !own, "on the schedule's calendar");
    }
    c29_ex_coupon(8) {
        let m = month(0, 1);
        let a = ask(in_month(m), in_month(m + 2), Period::new(1, Months));
        nd::assume(a.from.day_of_month() < 29);
        let s = a.build(Forward);
        nd::assume(s.size() == 3);
        let p = match nd::each(nd::int(0, 2)) { 0 => Period::new(2, Days), 1 => Period::new(1, Weeks), _ => Period::new(1, Months) };
        let (conv, eom) = (conventions().0, p.unit == Months && nd::each(nd::int(0, 1)) == 1);
        let lag = if p.unit == Weeks { 3 } else { 0 };
        let leg = FixedRateLeg::new(s.clone(), vec![100.0], vec![simple(0.05, act360())])
            .with_payment_calendar(NilHoliday::new())
            .with_payment_lag(lag)
            .with_ex_coupon_period(p, WeekendsOnly::new(), conv, eom)
            .build();
        for i in 1..3 {
            prop!(leg[i - 1].date() == s.dates()[i] + lag, "it is paid the lag after the end");
        }
        let c = WeekendsOnly::new();
        for x in &leg {
            prop!(x.ex_coupon_date() == c.advance_by_period(x.date(), -p, conv, eom), "a coupon trades ex-coupon a period before it is paid, on a business day");
        }
        witness!(p.unit == Months && eom && conv == Preceding, "month ends");
    }
    //@ rejects
    c29_rejected(8) {
        let k = nd::each(nd::int(0, 1));
        let (v, r) = if k == 0 { (vec![], vec![simple(0.05, act360())]) } else { (vec![100.0], vec![]) };
        witness!(k == 0, "no nominals");
        rejects!(FixedRateLeg::new(fixed(), v, r).build(), "a leg needs a nominal and a rate");
    }
}
