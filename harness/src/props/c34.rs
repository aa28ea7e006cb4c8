//@ engine=symx
//! C34: curves, quotes and stocks: what the interfaces derive from what is implemented.
use super::c26::in_month;
use super::c23::{dc_of, is, kind};
use crate::nd;
use rust_quantlib::datetime::{
    date::Date,
    daycounter::DayCounter,
    frequency::Frequency,
    period::Period,
    timeunit::TimeUnit::*,
};
use rust_quantlib::instruments::{instrument::Instrument, stock::Stock};
use rust_quantlib::quotes::{quote::Quote, simplequote::SimpleQuote};
use rust_quantlib::rates::{compounding::Compounding, interestrate::InterestRate};
use rust_quantlib::termstructures::{
    termstructure::TermStructure, yieldtermstructure::YieldTermStructure, zeroyieldstructure::ZeroYieldStructure,
};
use std::sync::Arc;

/// A curve of any times and discount factors, whose forward rates tell what was asked
struct Curve {
    date: Date,
    time: f64,
    discount: [f64; 2],
    rate: f64,
}

impl TermStructure for Curve {
    fn time_from_references(&self, date: &Date) -> f64 {
        if *date == self.date {
            self.time
        } else {
            f64::NAN
        }
    }
    fn max_date(&self) -> Date {
        self.date
    }
    fn max_time(&self) -> f64 {
        self.time
    }
    fn reference_date(&self) -> Date {
        self.date
    }
    fn settlement_days(&self) -> u32 {
        0
    }
}

impl YieldTermStructure for Curve {
    fn discount_frome_time(&self, time: f64, extrapolate: bool) -> f64 {
        self.discount[extrapolate as usize] + time
    }
    fn zero_rate_from_date(&self, _: &Date, _: &DayCounter, _: Compounding, _: Frequency, _: bool) -> InterestRate {
        panic!("not asked for")
    }
    fn zero_rate_from_time(&self, _: f64, _: Compounding, _: Frequency, _: bool) -> InterestRate {
        panic!("not asked for")
    }
    fn forward_rate_from_dates(&self, d1: &Date, d2: &Date, dc: &DayCounter, c: Compounding, f: Frequency, extrapolate: bool) -> InterestRate {
        let ok = *d1 == self.date && extrapolate == (self.discount[0] > self.discount[1]);
        InterestRate::new(if ok { (*d2 - *d1) as f64 + self.rate } else { f64::NAN }, dc.clone(), c, f)
    }
    fn forward_rate_from_times(&self, _: f64, _: f64, _: Compounding, _: Frequency, _: bool) -> InterestRate {
        panic!("not asked for")
    }
    fn jump_dates(&self) -> Vec<Date> {
        vec![]
    }
    fn jump_times(&self) -> Vec<f64> {
        vec![]
    }
}

fn curve(date: Date) -> Curve {
    Curve { date, time: nd::f64(), discount: [nd::f64(), nd::f64()], rate: nd::f64() }
}

/// A curve of any zero yields
struct Zero {
    time: f64,
    rate: f64,
}

impl ZeroYieldStructure for Zero {
    fn zero_yield(&self, time: f64) -> f64 {
        if nd::known(time, self.time) {
            self.rate
        } else {
            f64::NAN
        }
    }
}

/// A quote with a value of its own
struct Own(f64);

impl Quote for Own {
    fn value(&self) -> f64 {
        self.0
    }
    fn is_valid(&self) -> bool {
        false
    }
}

harnesses! {
    //@ bounds="dates of a month, any times and discount factors"
    c34_discount(8) {
        let c = curve(in_month(1));
        let d = in_month(1);
        nd::assume(d == c.date);
        let e = nd::bool();
        let r = c.discount_from_date(&d, e);
        prop!(nd::same(r, c.discount[e as usize] + c.time), "the discount factor of a date is that of its time from the reference date");
        witness!(e, "beyond the end");
        witness!(!e, "within");
    }
    //@ bounds="dates of two months, periods of -3..3 months, weeks or days"
    c34_forward(8) {
        let c = curve(in_month(1));
        let p = Period::new(nd::each(nd::int(-3, 3)), [Days, Weeks, Months][nd::each(nd::int(0, 2)) as usize]);
        let (dc, k, f) = (dc_of(nd::each(nd::int(0, 1))), kind(), [Frequency::Annual, Frequency::Monthly][nd::each(nd::int(0, 1)) as usize]);
        let r = c.forward_rate_from_date_period(&c.date, &p, &dc, k.clone(), f, c.discount[0] > c.discount[1]);
        let end = c.date + p;
        prop!(nd::same(r.rate, (end - c.date) as f64 + c.rate), "the forward rate of a period is that from the date to the date the period later");
        prop!(is(&r, &dc, &k, f), "by the conventions asked for");
        witness!(p.length == -3, "backwards");
    }
    //@ bounds="any time and rate; exp uninterpreted"
    c34_zero(8) {
        let z = Zero { time: nd::f64(), rate: nd::f64() };
        let r = z.discount(z.time);
        if z.time == 0.0 {
            prop!(nd::same(r, 1.0), "the discount factor of no time is one");
        } else {
            prop!(nd::same(r, (-z.rate * z.time).exp()), "the zero yield is continuous and annual");
        }
        witness!(z.time == 0.0, "no time");
        witness!(z.time > 1.0 && z.rate < 0.0, "a negative yield");
    }
    //@ bounds="any value"
    c34_stock(8) {
        let v = nd::f64();
        let s = Stock::new(Arc::new(SimpleQuote::new(v)));
        let o = Stock::new(Arc::new(Own(v)));
        prop!(nd::same(s.npv(), v) && nd::same(o.npv(), v), "a stock is worth its quote");
        prop!(nd::same(s.calculate().npv, v), "in its results as well");
        prop!(nd::same(SimpleQuote::new(v).value(), v) && SimpleQuote::new(v).is_valid(), "a quote is worth its value");
        witness!(v < 0.0, "negative");
    }
}
