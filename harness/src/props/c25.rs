//@ engine=symx
//! C25: present value, duration and yield of cash flows.
use crate::gen::*;
use crate::nd;
use rust_quantlib::cashflows::{
    cashflow::{self, CashFlow, CashFlowLeg},
    fixedratecoupon::FixedRateCoupon,
    irrfinder::IrrFinder,
    simplecashflow::{Redemption, SimpleCashFlow},
};
use rust_quantlib::datetime::{date::Date, daycounter::DayCounter, frequency::Frequency};
use rust_quantlib::pricingengines::bond::bondfunctions;
use rust_quantlib::rates::{
    compounding::Compounding::{self, *},
    interestrate::InterestRate,
};
use std::rc::Rc;

fn number() -> f64 {
    let v = nd::f64();
    nd::assume(v.is_finite());
    v
}

/// A date other than the first, which stands for none
fn day() -> (Date, i32) {
    let s = nd::int(MIN_SERIAL + 1, MAX_SERIAL);
    (Date::from_serial(s), s)
}

fn kind() -> Compounding {
    match nd::each(nd::int(0, 4)) {
        0 => Simple,
        1 => Compounded,
        2 => Continuous,
        3 => SimpleThenCompounded,
        _ => CompoundedThenSimple,
    }
}

fn rate(c: &Compounding) -> InterestRate {
    InterestRate::new(number(), DayCounter::actual360(), c.clone(), Frequency::Semiannual)
}

/// A flow of a known reference period
struct Flow {
    amount: f64,
    date: Date,
    ex: Date,
}

impl CashFlow for Flow {
    fn accrual_start_date(&self) -> Date {
        Date::default()
    }
    fn accrual_end_date(&self) -> Date {
        Date::default()
    }
    fn accrued_amount(&self, _: Date) -> f64 {
        0.0
    }
    fn amount(&self) -> f64 {
        self.amount
    }
    fn date(&self) -> Date {
        self.date
    }
    fn ex_coupon_date(&self) -> Date {
        self.ex
    }
    fn reference_period_start(&self) -> Date {
        self.date
    }
    fn reference_period_end(&self) -> Date {
        self.date
    }
}

/// Flows in order of their dates, some of them past, and the last ex-coupon if asked to
struct Leg {
    v: CashFlowLeg,
    day: [i32; 3],
    amount: [f64; 3],
    live: [bool; 3],
    settle: (Date, i32),
    inc: bool,
    ex: bool,
}

fn leg(n: usize) -> Leg {
    let settle = day();
    let (inc, ex) = (nd::bool(), nd::each(nd::int(0, 1)) == 1);
    let mut l = Leg { v: Vec::new(), day: [0; 3], amount: [0.0; 3], live: [false; 3], settle, inc, ex };
    for i in 0..n {
        let (date, s) = day();
        if i > 0 {
            nd::assume(l.day[i - 1] <= s);
        }
        let amount = number();
        l.day[i] = s;
        l.amount[i] = amount;
        l.live[i] = nd::each((s > settle.1 || s == settle.1 && inc) as i32) == 1;
        l.v.push(Rc::new(Flow { amount, date, ex: if ex && i + 1 == n { settle.0 } else { Date::default() } }));
        if ex && i + 1 == n {
            // does not count
            l.amount[i] = 0.0;
        }
    }
    l
}

/// The discount times of the live flows: from the settlement date or the flow before
fn times(l: &Leg, n: usize) -> [f64; 3] {
    let mut t = [0.0; 3];
    let mut last = l.settle.1;
    for i in 0..n {
        if l.live[i] {
            t[i] = (l.day[i] - last) as f64 / 360.0;
            last = l.day[i];
        }
    }
    t
}

fn value(l: &Leg, n: usize, y: &InterestRate) -> f64 {
    let t = times(l, n);
    let (mut p, mut b) = (0.0, 1.0);
    for i in 0..n {
        if l.live[i] {
            b *= y.discount_factor(t[i]);
            p += l.amount[i] * b;
        }
    }
    p
}

/// A step of the discount time of a coupon
fn coupon(start: Date, end: Date, pay: Date, ex: Option<Date>, refs: Option<(Date, Date)>) -> FixedRateCoupon {
    FixedRateCoupon::new(pay, 100.0, 0.05, DayCounter::actual360(), start, end, refs.map(|r| r.0), refs.map(|r| r.1), ex)
}

fn sign(x: f64) -> i32 {
    if x > 0.0 { 1 } else if x < 0.0 { -1 } else { 0 }
}

/// Whether the signs of -npv and the live amounts change at all
fn changes(l: &Leg, n: usize, npv: f64) -> bool {
    let (mut last, mut c) = (-sign(npv), false);
    for i in 0..n {
        if l.live[i] && !(l.ex && i + 1 == n) {
            let s = sign(l.amount[i]);
            if s * last < 0 {
                c = true;
            }
            if s != 0 {
                last = s;
            }
        }
    }
    c
}

fn finder<'a>(l: &'a Leg, npv: f64, c: &Compounding) -> IrrFinder<'a, Rc<dyn CashFlow>> {
    IrrFinder::new(&l.v, npv, DayCounter::actual360(), c.clone(), Frequency::Semiannual, l.inc, l.settle.0, l.settle.0)
}

harnesses! {
    c25_npv(6) {
        let (n, c) = (nd::each(nd::int(0, 3)) as usize, kind());
        let (l, y) = (leg(n), rate(&c));
        prop!(nd::same(cashflow::npv(&l.v, &y, l.inc, l.settle.0, l.settle.0), value(&l, n, &y)), "the value is the sum of the live flows, each discounted step by step");
        witness!(n == 3 && c == Compounded && !l.live[0] && l.live[1] && l.day[1] < l.day[2], "a past flow");
        witness!(n == 3 && c == Simple && l.live[0] && l.day[0] == l.day[1], "two flows at once");
    }
    c25_npv_date(6) {
        let (c, n) = (Compounded, 2);
        let (l, y) = (leg(n), rate(&c));
        let none = Date::default();
        let at = cashflow::npv(&l.v, &y, l.inc, l.settle.0, l.settle.0);
        prop!(nd::same(cashflow::npv(&l.v, &y, l.inc, l.settle.0, none), at), "without a date the value is at the settlement date");
        let m = cashflow::modified_duration(&l.v, &y, l.inc, l.settle.0, l.settle.0);
        prop!(nd::same(cashflow::modified_duration(&l.v, &y, l.inc, l.settle.0, none), m), "without a date the duration is at the settlement date");
        let f = number();
        nd::assume(f != 0.0);
        let v = cashflow::npv(&l.v, &y, false, l.settle.0, l.settle.0);
        prop!(nd::same(bondfunctions::dirty_price(f, &l.v, &y, l.settle.0), v * 100.0 / f), "the dirty price is the value per hundred of the notional");
        witness!(l.live[0] && l.day[0] < l.day[1], "two flows");
    }
    c25_npv_ex(6) {
        // a coupon that may trade ex-coupon, and a redemption
        let ((a, p), (b, q), (r, s), (x, e)) = (day(), day(), day(), day());
        nd::assume(p <= s && s < q && e <= q);
        let y = rate(&Continuous);
        let k = coupon(a, b, b, Some(x), Some((a, b)));
        let amount = k.amount();
        let mut v: CashFlowLeg = Vec::new();
        v.push(Rc::new(k));
        let m = number();
        v.push(Rc::new(Redemption::new(m, b)));
        let t = if p == s { (q - s) as f64 / 360.0 } else { (q - p) as f64 / 360.0 - (s - p) as f64 / 360.0 };
        let d = y.discount_factor(t);
        let g = y.discount_factor(0.0);
        let first = if nd::each((e <= s) as i32) == 1 { 0.0 } else { amount };
        let w = 0.0 + first * d + m * (d * g);
        prop!(nd::same(cashflow::npv(&v, &y, false, r, r), w), "a coupon that trades ex-coupon does not count");
        witness!(p < s && e == s, "the ex-coupon date");
        witness!(p == s && e > s, "before the ex-coupon date");
    }
    c25_step(2) {
        // the discount time of a coupon, over the reference period
        let ((a, p), (b, q), (r, s), (u, z)) = (day(), day(), day(), day());
        nd::assume(p < q && s < z);
        let dc = DayCounter::actual360();
        let x = coupon(a, b, u, None, Some((a, b)));
        let t = x.get_stepwise_discount_time(&dc, r, r);
        let k = nd::each((s != p) as i32);
        let w = if k == 1 { (z - p) as f64 / 360.0 - (s - p) as f64 / 360.0 } else { (z - s) as f64 / 360.0 };
        prop!(nd::same(t, w), "the discount time of a coupon counts from its start");
        witness!(p < s && s < q && q < z, "in the coupon period");
    }
    c25_step_flow(2) {
        let ((a, p), (r, s), (u, z)) = (day(), day(), day());
        nd::assume(p < s && s <= z);
        let f = SimpleCashFlow::new(1.0, u);
        prop!(nd::same(f.get_stepwise_discount_time(&DayCounter::actual360(), a, r), (z - s) as f64 / 360.0), "the discount time of a flow that is no coupon counts from the flow before");
        witness!(s < z, "later");
    }
    c25_step_reference(2) {
        let (a, b, e) = (Date::from_serial(44941), Date::from_serial(45122), Date::from_serial(45130));
        let dc = DayCounter::actual_actual_old_isma();
        let n = nd::each(nd::int(0, 2));
        let (q, w) = [(a - 3, b), (a, b), (a, b + 4)][n as usize];
        let s = nd::int(44941, 45122);
        let r = Date::from_serial(s);
        let k = nd::each((s != 44941) as i32);
        let x = coupon(a, b, b, None, Some((q, w)));
        let full = dc.year_fraction(&a, &b, &q, &w);
        let t = if k == 1 { full - dc.year_fraction(&a, &r, &q, &w) } else { dc.year_fraction(&r, &b, &q, &w) };
        prop!(nd::same(x.get_stepwise_discount_time(&dc, r, r), t), "the discount time counts in the reference period");
        // a flow without periods: a year before it, or the last flow
        let f = SimpleCashFlow::new(1.0, e);
        let year = Date::from_serial(45130 - 365);
        prop!(nd::same(f.get_stepwise_discount_time(&dc, r, r), dc.year_fraction(&r, &e, &year, &e)), "the first flow counts in the year up to it");
        prop!(nd::same(f.get_stepwise_discount_time(&dc, r, b), dc.year_fraction(&b, &e, &b, &e)) || r == b, "a later flow counts in the period from the one before");
        witness!(n == 0 && s == 45000, "in the period");
    }
    c25_duration(6) {
        let (n, c) = (nd::each(nd::int(0, 2)) as usize, kind());
        let (l, y) = (leg(n), rate(&c));
        let h = times(&l, n);
        let (mut p, mut g, mut t) = (0.0, 0.0, 0.0);
        for i in 0..n {
            if l.live[i] {
                t += h[i];
                let d = y.discount_factor(t);
                p += l.amount[i] * d;
                let simple = match c {
                    Simple => true,
                    SimpleThenCompounded => t <= 0.5,
                    CompoundedThenSimple => t > 0.5,
                    _ => false,
                };
                if nd::each(simple as i32) == 1 {
                    g -= l.amount[i] * d * d * t;
                } else if c == Continuous {
                    g -= l.amount[i] * d * t;
                } else {
                    g -= l.amount[i] * t * d / (1.0 + y.rate / 2.0);
                }
            }
        }
        let m = cashflow::modified_duration(&l.v, &y, l.inc, l.settle.0, l.settle.0);
        if p == 0.0 {
            prop!(m == 0.0, "a leg without value has no duration");
        } else {
            prop!(nd::same(m, -g / p), "the modified duration is minus the derivative of the value over the value");
        }
        witness!(n == 2 && c == SimpleThenCompounded && l.live[0] && t > 0.6 && p > 0.0, "two flows");
        witness!(n == 2 && c == Compounded && !l.live[0] && l.live[1] && p > 0.0, "a past flow");
    }
    c25_finder(6) {
        let (n, c, npv) = (1, kind(), number());
        let l = leg(n);
        nd::assume(changes(&l, n, npv));
        let y = rate(&c);
        let f = finder(&l, npv, &c);
        prop!(nd::same(f.at(y.rate), npv - cashflow::npv(&l.v, &y, l.inc, l.settle.0, l.settle.0)), "the yield makes the value the price");
        prop!(nd::same(f.derivative(y.rate), cashflow::modified_duration(&l.v, &y, l.inc, l.settle.0, l.settle.0)), "the slope given to the solver is the duration");
        witness!(npv > 0.0 && l.live[0] && l.amount[0] > 0.0 && c == Compounded, "a price");
    }
    //@ rejects
    c25_sign_rejected(6) {
        let (n, npv) = (nd::each(nd::int(0, 3)) as usize, number());
        let l = leg(n);
        nd::assume(!changes(&l, n, npv));
        witness!(n == 3 && l.live[0] && npv < 0.0 && l.amount[2] == 0.0, "all of one sign");
        witness!(n == 2 && !l.live[0] && l.amount[0] > 0.0 && npv > 0.0, "a past flow of the other sign");
        rejects!(finder(&l, npv, &Compounded).npv, "flows that cannot have the price are refused");
    }
}
