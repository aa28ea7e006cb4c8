//@ engine=symx
//! C24: when a cash flow has occurred or trades ex-coupon, and what a coupon accrues.
use crate::gen::*;
use crate::nd;
use rust_quantlib::cashflows::{
    cashflow::{self, CashFlow, CashFlowLeg},
    coupon::{Coupon, CouponLeg},
    fixedratecoupon::FixedRateCoupon,
    simplecashflow::{AmortizingPayment, Redemption, SimpleCashFlow},
};
use rust_quantlib::datetime::{date::Date, daycounter::DayCounter, frequency::Frequency};
use rust_quantlib::rates::{
    compounding::Compounding::{self, *},
    interestrate::InterestRate,
};
use std::rc::Rc;

fn number() -> f64 {
    let v = nd::f64();
    nd::assume(v.is_finite());
    v
}

/// A date other than the first, which stands for none
fn day() -> (Date, i32) {
    let s = nd::int(MIN_SERIAL + 1, MAX_SERIAL);
    (Date::from_serial(s), s)
}

/// A date or none
fn maybe() -> (Date, i32) {
    let s = nd::int(MIN_SERIAL, MAX_SERIAL);
    (Date::from_serial(s), if s == MIN_SERIAL { 0 } else { s })
}

fn kind() -> Compounding {
    match nd::each(nd::int(0, 4)) {
        0 => Simple,
        1 => Compounded,
        2 => Continuous,
        3 => SimpleThenCompounded,
        _ => CompoundedThenSimple,
    }
}

fn flow(amount: f64, date: Date) -> SimpleCashFlow {
    SimpleCashFlow::new(amount, date)
}

/// A coupon: its dates are the accrual start and end, the payment and the ex-coupon date
struct Drawn {
    start: (Date, i32),
    end: (Date, i32),
    pay: (Date, i32),
    ex: (Date, i32),
    nominal: f64,
    rate: InterestRate,
}

fn drawn(c: Compounding) -> Drawn {
    let (start, end, pay, ex) = (day(), day(), day(), maybe());
    nd::assume(start.1 < end.1 && ex.1 <= end.1);
    let rate = InterestRate::new(number(), DayCounter::actual360(), c, Frequency::Semiannual);
    Drawn { start, end, pay, ex, nominal: number(), rate }
}

impl Drawn {
    fn coupon(&self) -> FixedRateCoupon {
        FixedRateCoupon::with_interest_rate(
            self.pay.0, self.nominal, self.rate.clone(), self.start.0, self.end.0, Some(self.start.0), Some(self.end.0),
            if self.ex.1 == 0 { None } else { Some(self.ex.0) },
        )
    }
    /// The interest from one serial number to another
    fn interest(&self, a: i32, b: i32) -> f64 {
        self.nominal * (self.rate.compound_factor((b - a) as f64 / 360.0) - 1.0)
    }
    /// The accrual period at a day: from, to, and whether it is negative
    fn accrual(&self, s: i32) -> Option<(i32, i32, bool)> {
        let out = s <= self.start.1 || s > self.pay.1;
        let ex = self.ex.1 != 0 && self.ex.1 <= s;
        let after = s >= self.end.1;
        let k = if out { 0 } else if ex { if after { 1 } else { 2 } } else if after { 3 } else { 4 };
        match nd::each(k) {
            0 => None,
            1 => Some((s, s, true)),
            2 => Some((s, self.end.1, true)),
            3 => Some((self.start.1, self.end.1, false)),
            _ => Some((self.start.1, s, false)),
        }
    }
}

fn leg(n: usize) -> ([i32; 4], Vec<SimpleCashFlow>) {
    let mut s = [0; 4];
    let mut v = Vec::new();
    for i in 0..n {
        let (d, k) = day();
        s[i] = k;
        v.push(flow(i as f64, d));
    }
    (s, v)
}

harnesses! {
    c24_occurred(2) {
        let ((d, s), (r, q)) = (day(), maybe());
        let inc = nd::bool();
        let over = s < q || s == q && !inc;
        prop!(flow(1.0, d).has_occurred(&r, inc) == over, "a cash flow has occurred before the date, and on it unless that counts");
        prop!(Redemption::new(1.0, d).has_occurred(&r, inc) == over, "a redemption has occurred likewise");
        prop!(AmortizingPayment::new(1.0, d).has_occurred(&r, inc) == over, "a payment has occurred likewise");
        witness!(s == q && inc, "on the date");
        witness!(q == 0, "no date");
    }
    c24_simple(2) {
        let ((d, _), (r, _), a) = (day(), day(), number());
        let k = nd::each(nd::int(0, 2));
        let f: Rc<dyn CashFlow> = match k {
            0 => Rc::new(flow(a, d)),
            1 => Rc::new(Redemption::new(a, d)),
            _ => Rc::new(AmortizingPayment::new(a, d)),
        };
        let none = Date::default();
        prop!(f.date() == d, "a simple cash flow is paid at its date");
        prop!(nd::same(f.amount(), a), "a simple cash flow pays its amount");
        prop!(f.accrued_amount(r) == 0.0 && !f.trading_ex_coupon(r) && f.ex_coupon_date() == none, "a simple cash flow accrues nothing and has no ex-coupon date");
        prop!(f.accrual_start_date() == none && f.accrual_end_date() == none && f.reference_period_start() == none && f.reference_period_end() == none, "a simple cash flow has no periods");
        witness!(k == 1 && r > d, "a redemption");
    }
    c24_ex_coupon(2) {
        let (c, (r, q)) = (drawn(Simple), day());
        let x = c.coupon();
        prop!(x.trading_ex_coupon(r) == (c.ex.1 != 0 && c.ex.1 <= q), "a coupon trades ex-coupon from its ex-coupon date on");
        prop!(x.ex_coupon_date() == c.ex.0, "a coupon keeps its ex-coupon date");
        witness!(c.ex.1 == q, "the ex-coupon date");
        witness!(c.ex.1 == 0, "no ex-coupon date");
    }
    c24_shared(2) {
        let (c, (r, q)) = (drawn(Simple), day());
        let inc = nd::bool();
        let x = c.coupon();
        let s: Rc<dyn CashFlow> = Rc::new(x.clone());
        let same = |a: &dyn CashFlow, b: &dyn CashFlow| a.date() == b.date() && a.ex_coupon_date() == b.ex_coupon_date()
            && a.accrual_start_date() == b.accrual_start_date() && a.accrual_end_date() == b.accrual_end_date()
            && a.reference_period_start() == b.reference_period_start() && a.reference_period_end() == b.reference_period_end();
        prop!(same(&s, &x), "a shared cash flow has the dates of the cash flow");
        prop!(CashFlow::trading_ex_coupon(&s, r) == x.trading_ex_coupon(r), "a shared cash flow trades ex-coupon when the cash flow does");
        prop!(CashFlow::has_occurred(&s, &r, inc) == x.has_occurred(&r, inc), "a shared cash flow has occurred when the cash flow has");
        prop!(nd::same(CashFlow::amount(&s), x.amount()), "a shared cash flow has the amount of the cash flow");
        prop!(nd::same(CashFlow::accrued_amount(&s, r), x.accrued_amount(r)), "a shared cash flow accrues what the cash flow does");
        let u: Rc<dyn Coupon> = Rc::new(x.clone());
        prop!(Coupon::accrued_days(&u, r) == x.accrued_days(r), "a shared coupon accrues the days of the coupon");
        prop!(nd::same(Coupon::accrued_period(&u, r), x.accrued_period(r)), "a shared coupon accrues the period of the coupon");
        prop!(nd::same(Coupon::rate(&u), c.rate.rate), "a shared coupon has the rate of the coupon");
        prop!(nd::same(Coupon::nominal(&u), c.nominal), "a shared coupon has the nominal of the coupon");
        witness!(c.ex.1 != 0 && c.ex.1 <= q && q < c.end.1 && c.end.1 < c.pay.1, "ex-coupon");
    }
    c24_amount(2) {
        let (k, (r, q)) = (kind(), day());
        let c = drawn(k.clone());
        let x = c.coupon();
        prop!(nd::same(x.amount(), c.interest(c.start.1, c.end.1)), "a coupon pays the interest on its nominal over the accrual period");
        let a = match c.accrual(q) {
            None => 0.0,
            Some((a, b, true)) => -c.interest(a, b),
            Some((a, b, false)) => c.interest(a, b),
        };
        prop!(nd::same(x.accrued_amount(r), a), "a coupon accrues the interest from the start, and ex-coupon minus that to the end");
        prop!(x.accrual_days() == c.end.1 - c.start.1, "the accrual days are those of the accrual period");
        prop!(nd::same(x.accrual_period(), (c.end.1 - c.start.1) as f64 / 360.0), "the accrual period is the fraction of the day counter");
        witness!(k == Simple && c.ex.1 != 0 && c.ex.1 <= q && q < c.end.1, "ex-coupon");
        witness!(k == Compounded && q > c.end.1 && q < c.pay.1, "between the end and the payment");
    }
    c24_accrued(2) {
        let (c, (r, q)) = (drawn(Simple), day());
        let x = c.coupon();
        let days = if q <= c.start.1 || q > c.pay.1 { 0 } else if q < c.end.1 { q - c.start.1 } else { c.end.1 - c.start.1 };
        prop!(x.accrued_days(r) == days, "the accrued days are those from the start, at most to the end");
        let t = match c.accrual(q) {
            None => 0.0,
            Some((a, b, true)) => -((b - a) as f64 / 360.0),
            Some((a, b, false)) => (b - a) as f64 / 360.0,
        };
        prop!(nd::same(x.accrued_period(r), t), "the accrued period is that from the start, ex-coupon minus that to the end");
        prop!(nd::same(x.rate(), c.rate.rate), "a coupon has its rate");
        prop!(nd::same(x.nominal(), c.nominal), "a coupon has its nominal");
        prop!(*x.day_counter() == DayCounter::actual360(), "a coupon has its day counter");
        witness!(c.ex.1 != 0 && c.ex.1 <= q && q < c.end.1 && c.end.1 < c.pay.1, "ex-coupon");
        witness!(c.ex.1 == 0 && q > c.end.1 && q < c.pay.1, "between the end and the payment");
    }
    c24_reference(2) {
        // the reference period matters to the day counter
        let (a, b) = (Date::from_serial(44941), Date::from_serial(45122));
        let n = nd::each(nd::int(0, 2));
        let refs = [(a - 3, b), (a, b), (a, b + 4)][n as usize];
        let s = nd::int(44941 + 1, 45122);
        let (d, rate, nominal) = (Date::from_serial(s), number(), number());
        let dc = DayCounter::actual_actual_old_isma();
        let ex = nd::bool();
        let x = FixedRateCoupon::new(b, nominal, rate, dc.clone(), a, b, Some(refs.0), Some(refs.1), if ex { Some(a) } else { None });
        let i = InterestRate::new(rate, dc.clone(), Simple, Frequency::Annual);
        let (u, v) = if ex { (d, b) } else { (a, d) };
        let t = dc.year_fraction(&u, &v, &refs.0, &refs.1);
        let w = nominal * (i.compound_factor(t) - 1.0);
        prop!(nd::same(x.accrued_amount(d), if ex { -w } else { w }), "the accrued amount counts in the reference period");
        prop!(nd::same(x.accrued_period(d), if ex { -t } else { t }), "the accrued period counts in the reference period");
        let t = dc.year_fraction(&a, &b, &refs.0, &refs.1);
        prop!(nd::same(x.amount(), nominal * (i.compound_factor(t) - 1.0)), "the amount counts in the reference period");
        prop!(nd::same(x.accrual_period(), t), "the accrual period counts in the reference period");
        witness!(n == 0 && ex && s == 45000, "ex-coupon");
    }
    c24_next(6) {
        let n = nd::each(nd::int(0, 4)) as usize;
        let (s, v) = leg(n);
        let ((r, q), inc) = (day(), nd::bool());
        let mut first = None;
        for i in (0..n).rev() {
            if s[i] > q || s[i] == q && inc {
                first = Some(i);
            }
        }
        prop!(cashflow::next_cashflow(&v, inc, r) == first, "the next cash flow is the first that has not occurred");
        witness!(n == 4 && first == Some(2), "after two");
        witness!(n == 4 && first == None, "after all");
    }
    c24_leg_accrued(6) {
        // two coupons, the later starting where the earlier ends or both paid at once, and a redemption
        let (c, e, (r, q), inc) = (drawn(Simple), drawn(Simple), day(), nd::bool());
        nd::assume(c.end.1 <= e.start.1 && c.pay.1 <= e.pay.1 && e.ex.1 == 0);
        let last = day();
        nd::assume(last.1 >= e.pay.1);
        let (x, y) = (c.coupon(), e.coupon());
        let mut v: CashFlowLeg = Vec::new();
        v.push(Rc::new(x.clone()));
        v.push(Rc::new(y.clone()));
        v.push(Rc::new(Redemption::new(number(), last.0)));
        let open = |p: i32| p > q || p == q && inc;
        let k = nd::each(if open(c.pay.1) { if c.pay.1 == e.pay.1 { 0 } else { 1 } } else if open(e.pay.1) { 2 } else if open(last.1) { 3 } else { 4 });
        let a = match k {
            0 => 0.0 + x.accrued_amount(r) + y.accrued_amount(r),
            1 => 0.0 + x.accrued_amount(r),
            2 => 0.0 + y.accrued_amount(r),
            _ => 0.0,
        };
        nd::assume(a.is_finite());
        prop!(cashflow::accrued_amount(&v, inc, r) == a, "a leg accrues what the coupons paid at the next date do");
        let mut w: CouponLeg = Vec::new();
        w.push(Rc::new(x.clone()));
        w.push(Rc::new(y.clone()));
        let days = if k < 2 { x.accrued_days(r) } else if k == 2 { y.accrued_days(r) } else { 0 };
        let t = if k < 2 { x.accrued_period(r) } else if k == 2 { y.accrued_period(r) } else { 0.0 };
        prop!(cashflow::accrued_days(&w, inc, r) == days, "a leg accrues the days of its next coupon");
        prop!(nd::same(cashflow::accrued_period(&w, inc, r), t), "a leg accrues the period of its next coupon");
        witness!(c.pay.1 == e.pay.1 && q > e.start.1 && q < e.end.1, "two coupons at once");
        witness!(q > c.pay.1 && q > e.start.1 && q < e.end.1, "the second coupon");
    }
    c24_maturity(6) {
        let (c, e, last) = (drawn(Simple), drawn(Simple), day());
        let k = nd::each(nd::int(0, 2));
        let mut v: CashFlowLeg = Vec::new();
        if k > 0 {
            v.push(Rc::new(c.coupon()));
        }
        if k > 1 {
            v.push(Rc::new(e.coupon()));
        }
        v.push(Rc::new(Redemption::new(number(), last.0)));
        let mut m = last.1;
        if k > 0 && c.end.1 > m {
            m = c.end.1;
        }
        if k > 1 && e.end.1 > m {
            m = e.end.1;
        }
        prop!(cashflow::maturity_date(&v) == Date::from_serial(m), "a leg matures at the latest accrual end of a coupon or date of another flow");
        witness!(k == 2 && m == c.end.1 && m > e.end.1, "the first coupon");
        witness!(k == 0, "a redemption alone");
    }
}
