//@ engine=symx
//! C30: bonds: flows, notionals, settlement and prices.
use super::c26::{ask, at, conventions, in_month, month, yes, Ask, NONE};
use super::c29::{act360, number, schedule};
use crate::gen::*;
use crate::nd;
use rust_quantlib::cashflows::{
    cashflow::{self, CashFlow, CashFlowLeg},
    coupon::Coupon,
    fixedrateleg::FixedRateLeg,
    simplecashflow::{Redemption, SimpleCashFlow},
};
use rust_quantlib::datetime::{
    businessdayconvention::BusinessDayConvention::{self, *},
    calendar::Calendar,
    date::Date,
    dategenerationrule::DateGenerationRule::*,
    daycounter::DayCounter,
    frequency::Frequency,
    holidays::{nilholiday::NilHoliday, weekendsonly::WeekendsOnly},
    period::Period,
    timeunit::TimeUnit::*,
};
use rust_quantlib::instruments::{bond::Bond, fixedratebond::FixedRateBond, zerocouponbond::ZeroCouponBond};
use rust_quantlib::rates::{
    compounding::Compounding::{self, *},
    interestrate::InterestRate,
};
use std::rc::Rc;

/// A date other than the first, which stands for none
fn day() -> (Date, i32) {
    let s = nd::int(MIN_SERIAL + 1, MAX_SERIAL);
    (at(s), s)
}

/// Any bond
struct B {
    calendar: Calendar,
    flows: CashFlowLeg,
    issue: Date,
    maturity: Date,
    schedule: Vec<Date>,
    notionals: Vec<f64>,
    days: i32,
}

impl Bond for B {
    fn calendar(&self) -> &Calendar {
        &self.calendar
    }
    fn cashflows(&self) -> &CashFlowLeg {
        &self.flows
    }
    fn issue_date(&self) -> Date {
        self.issue
    }
    fn maturity_date(&self) -> Date {
        self.maturity
    }
    fn notional_schedule(&self) -> &Vec<Date> {
        &self.schedule
    }
    fn notionals(&self) -> &Vec<f64> {
        &self.notionals
    }
    fn settlement_days(&self) -> i32 {
        self.days
    }
}

fn bond() -> B {
    B { calendar: NilHoliday::new(), flows: Vec::new(), issue: NONE(), maturity: at(60000), schedule: vec![NONE(), at(60000)], notionals: vec![100.0, 0.0], days: 0 }
}

/// A bond of a face amount redeemed at a date, with one coupon and the redemption
fn one_coupon(face: f64) -> (B, i32, i32) {
    let ((a, p), (b, q)) = (day(), day());
    nd::assume(p < q);
    let mut x = bond();
    let c = rust_quantlib::cashflows::fixedratecoupon::FixedRateCoupon::with_interest_rate(
        b, face, InterestRate::new(number(), act360(), Simple, Frequency::Annual), a, b, Some(a), Some(b), None,
    );
    x.flows.push(Rc::new(c));
    x.flows.push(Rc::new(Redemption::new(face, b)));
    x.schedule = vec![NONE(), b];
    x.notionals = vec![face, 0.0];
    x.maturity = b;
    (x, p, q)
}

harnesses! {
    c30_fixed_flows(8) {
        let s = schedule(3, 7);
        let (face, c1, c2) = (number(), number(), number());
        let two = nd::each(nd::int(0, 1)) == 1;
        let coupons = if two { vec![c1, c2] } else { vec![c1] };
        let redemption = if two { Some(number()) } else { None };
        let issue = if two { Some(day().0) } else { None };
        let b = FixedRateBond::new_with_options(2, face, s.clone(), coupons.clone(), act360(), None, redemption, issue, None, None, None, None, None, None);
        let rates = coupons.iter().map(|x| InterestRate::new(*x, act360(), Simple, Frequency::Annual)).collect();
        let leg = FixedRateLeg::new(s.clone(), vec![face], rates).build();
        let n = leg.len();
        prop!(b.cashflows().len() == n + 1, "a bond pays its coupons and the redemption");
        for i in 0..n {
            let (x, y) = (&b.cashflows()[i], &leg[i]);
            prop!(x.date() == y.date() && x.accrual_start_date() == y.accrual_start_date() && x.accrual_end_date() == y.accrual_end_date(), "first the coupons of the leg");
            prop!(nd::same(x.amount(), y.amount()), "with their amounts");
        }
        let (r, last) = (&b.cashflows()[n], leg[n - 1].date());
        prop!(r.date() == last, "the redemption is paid with the last coupon, after it");
        prop!(nd::same(r.amount(), redemption.unwrap_or(100.0) / 100.0 * (face - 0.0)), "and is per hundred of the face amount");
        prop!(b.redemptions.len() == 1 && b.redemptions[0].date() == last, "it is the only redemption");
        prop!(b.notionals.len() == 2 && nd::same(b.notionals[0], face), "the notional is the face amount");
        prop!(nd::same(b.notionals[1], 0.0) && b.notional_schedule == vec![NONE(), last], "until the redemption");
        prop!(b.maturity_date() == *s.end_date() && b.maturity_date == *s.end_date(), "a bond matures at the end of its schedule");
        prop!(b.issue_date() == issue.unwrap_or(NONE()) && b.settlement_days() == 2, "a bond keeps its issue date and settlement days");
        witness!(two && n == 3, "three coupons");
    }
    c30_fixed_options(8) {
        // payment calendar and convention, and ex-coupon terms, are those of the leg
        let m = month(0, 1);
        let a = ask(in_month(m), in_month(m + 2), Period::new(1, Months));
        nd::assume(a.from.day_of_month() < 29);
        let s = a.build(Forward);
        nd::assume(s.size() == 3);
        let k = nd::each(nd::int(0, 7));
        let rate = InterestRate::new(0.05, act360(), Simple, Frequency::Annual);
        let mut l = FixedRateLeg::new(s.clone(), vec![100.0], vec![rate]);
        let (mut conv, mut cal, mut ex, mut dc) = (None, None, None, None);
        if k & 1 > 0 {
            conv = Some(Preceding);
            l = l.with_payment_adjustment(Preceding);
        }
        if k & 2 > 0 {
            cal = Some(WeekendsOnly::new());
            l = l.with_payment_calendar(WeekendsOnly::new());
        }
        if k & 4 > 0 {
            ex = Some(Period::new(3, Days));
            dc = Some(DayCounter::actual_actual_old_isma());
            l = l.with_ex_coupon_period(Period::new(3, Days), NilHoliday::new(), Unadjusted, false).with_first_period_daycounter(DayCounter::actual_actual_old_isma());
        }
        let leg = l.build();
        let b = FixedRateBond::new_with_options(
            0, 100.0, s.clone(), vec![0.05], act360(), conv, None, None, cal,
            ex, ex.map(|_| NilHoliday::new()), ex.map(|_| Unadjusted), ex.map(|_| false), dc,
        );
        prop!(b.cashflows().len() == 3, "two coupons and the redemption");
        for i in 0..2 {
            let (x, y) = (&b.cashflows()[i], &leg[i]);
            prop!(x.date() == y.date() && x.ex_coupon_date() == y.ex_coupon_date(), "the payment and ex-coupon dates are those of the leg");
        }
        let r = &b.cashflows()[2];
        prop!(r.date() == leg[1].date() && r.ex_coupon_date() == NONE(), "the redemption is paid with the last coupon");
        prop!(b.maturity_date() == *s.end_date(), "a bond matures at the end of its schedule");
        prop!(b.calendar().is_holiday(&at(36540)) == (k & 2 > 0), "its calendar is the payment calendar, or that of the schedule");
        witness!(k == 7, "all options");
        witness!(k == 2 && leg[1].date() != *s.end_date(), "paid after the maturity");
    }
    c30_notional(8) {
        // redeemed in up to three steps
        let n = nd::each(nd::int(1, 3)) as usize;
        let mut b = bond();
        b.schedule = vec![NONE()];
        b.notionals = vec![number()];
        for i in 0..n {
            let d = day().0;
            nd::assume(i == 0 || b.schedule[i] < d);
            b.schedule.push(d);
            b.notionals.push(if i + 1 == n { 0.0 } else { number() });
        }
        let t = day().0;
        // the steps made by t
        let mut k = 0;
        while k < n && yes(b.schedule[k + 1] <= t) {
            k += 1;
        }
        prop!(nd::same(b.notional(t), b.notionals[k]), "the notional changes at the redemption dates");
        prop!(b.is_tradeable(t) == (b.notionals[k] != 0.0), "a bond trades while there is a notional");
        witness!(n == 3 && k == 2 && b.schedule[2] == t, "the second redemption");
    }
    c30_settlement(8) {
        let mut b = bond();
        b.days = nd::each(nd::int(0, 3));
        b.calendar = WeekendsOnly::new();
        let t = in_month(month(0, 1));
        let with = nd::each(nd::int(0, 1)) == 1;
        if with {
            b.issue = in_month(month(-1, 2));
        }
        let s = b.calendar.advance_by_days(t, b.days, Days, Following, false);
        let w = if with && yes(b.issue > s) { b.issue } else { s };
        prop!(b.settlement_date(t) == w, "a bond settles some business days after the trade, not before it is issued");
        witness!(with && w == b.issue && b.days == 2, "not issued");
        witness!(with && w > b.issue && b.days == 2, "issued");
    }
    c30_accrued(8) {
        let face = number();
        let (b, p, q) = one_coupon(face);
        let (t, s) = day();
        let live = nd::each((s < q && face != 0.0) as i32) == 1;
        let a = b.accrued_amount(t);
        if live {
            let r = cashflow::accrued_amount(&b.flows, false, t);
            prop!(nd::same(a, r * 100.0 / face), "the accrued amount is per hundred of the notional");
        } else {
            prop!(nd::same(a, 0.0), "a bond that has been redeemed accrues nothing");
        }
        witness!(live && p < s, "in the coupon period");
    }
    c30_prices(8) {
        let face = number();
        let (b, p, q) = one_coupon(face);
        let (t, s) = day();
        nd::assume(s < q && face != 0.0);
        let y = number();
        let ir = InterestRate::new(y, act360(), Continuous, Frequency::Annual);
        let dirty = cashflow::npv(&b.flows, &ir, false, t, t) * 100.0 / face;
        prop!(nd::same(b.dirty_price_from_yield(y, act360(), Continuous, Frequency::Annual, t), dirty), "the dirty price is the value per hundred of the notional");
        prop!(nd::same(b.clean_price_from_yield(y, act360(), Continuous, Frequency::Annual, t), dirty - b.accrued_amount(t)), "the clean price is without the accrued amount");
        witness!(p < s, "in the coupon period");
    }
    //@ rejects
    c30_rejected(8) {
        let face = number();
        let (b, _, q) = one_coupon(face);
        let (t, s) = day();
        let (k, y) = (nd::each(nd::int(0, 2)), number());
        nd::assume(s >= q || face == 0.0);
        witness!(k == 0 && s == q && face != 0.0, "at maturity");
        rejects!(match k {
            0 => b.dirty_price_from_yield(y, act360(), Continuous, Frequency::Annual, t),
            1 => b.clean_price_from_yield(y, act360(), Continuous, Frequency::Annual, t),
            _ => b.bond_yield(y, act360(), Continuous, Frequency::Annual, t),
        }, "a bond that has been redeemed has no price and no yield");
    }
    c30_zero(8) {
        let (face, t) = (number(), in_month(month(0, 2)));
        let (conv, k) = (conventions().0, nd::each(nd::int(0, 1)));
        let (r, issue) = (number(), in_month(-3));
        let b = if k == 1 { ZeroCouponBond::new_with_options(1, &WeekendsOnly::new(), face, t, Some(conv), Some(r), Some(issue)) } else { ZeroCouponBond::new(1, &WeekendsOnly::new(), face, t) };
        let pay = WeekendsOnly::new().adjust(t, if k == 1 { conv } else { Following });
        prop!(b.cashflows().len() == 1 && b.cashflows()[0].date() == pay, "a zero-coupon bond is redeemed at the adjusted maturity");
        prop!(nd::same(b.cashflows()[0].amount(), face * if k == 1 { r } else { 100.0 } / 100.0), "with the redemption per hundred of the face amount");
        prop!(b.redemptions.len() == 1 && b.redemptions[0].date() == pay, "it is the only redemption");
        prop!(b.maturity_date() == t, "it matures at the maturity");
        prop!(b.issue_date() == if k == 1 { issue } else { NONE() } && b.settlement_days() == 1, "it keeps its issue date and settlement days");
        prop!(b.notional_schedule() == &vec![NONE(), pay] && nd::same(b.notionals()[0], face), "the notional is the face amount");
        prop!(nd::same(b.notionals()[1], 0.0) && b.notionals().len() == 2, "until the redemption");
        witness!(k == 1 && conv == Preceding && pay < t, "paid before");
        witness!(k == 0 && pay > t, "paid after");
    }
    c30_zero_price(8) {
        let (face, (t, s), (m, e), y) = (100.0, day(), day(), number());
        let b = ZeroCouponBond::new_with_options(0, &NilHoliday::new(), face, m, Some(Unadjusted), None, None);
        prop!(nd::same(b.price_from_discount_yield(y, t), 100.0 - 100.0 * y * ((e - s) as f64) / 360.0), "the price at a discount yield is a hundred less the interest on the days left over 360");
        witness!(s < e, "before maturity");
    }
    c30_zero_period(8) {
        let ((t, s), days) = (day(), nd::int(0, 11000));
        nd::assume(s + days <= MAX_SERIAL);
        let (m, e) = (at(s + days), s + days);
        let b = ZeroCouponBond::new_with_options(0, &NilHoliday::new(), 100.0, m, Some(Unadjusted), None, None);
        let p = b.period(t);
        let n = p.length;
        prop!(p.unit == Months && 30 * n - 15 <= e - s && e - s < 30 * n + 15, "the period is the days in months of thirty, rounded");
        witness!(n == 12, "a year");
    }
}
