//@ engine=symx
//! C26: the dates of a schedule by the forward, backward and zero rules.
use crate::gen::*;
use crate::nd;
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::{
    businessdayconvention::BusinessDayConvention::{self, *},
    calendar::Calendar,
    date::Date,
    dategenerationrule::DateGenerationRule::{self, *},
    holidays::{nilholiday::NilHoliday, weekendsonly::WeekendsOnly},
    period::Period,
    schedule::Schedule,
    timeunit::TimeUnit::*,
};

pub const NONE: fn() -> Date = Date::default;

pub fn at(s: i32) -> Date {
    Date::from_serial(s)
}

pub fn context() -> PricingContext {
    PricingContext { eval_date: at(40000) }
}

/// Months and weeks of a tenor
pub fn tenor() -> Period {
    match nd::each(nd::int(0, 4)) {
        0 => Period::new(1, Months),
        1 => Period::new(3, Months),
        2 => Period::new(6, Months),
        3 => Period::new(1, Years),
        _ => Period::new(2, Weeks),
    }
}

/// Any day of a month, counted from January 2000
pub fn in_month(k: i32) -> Date {
    let (y, m) = (2000 + k.div_euclid(12), k.rem_euclid(12) + 1);
    let d = nd::int(1, month_len(y, m) as i32);
    Date::new(d as u32, m.into(), y)
}

/// A month of `lo..=hi` counted from January 2000
pub fn month(lo: i32, hi: i32) -> i32 {
    nd::each(nd::int(lo, hi))
}

/// A date of fifteen months, leap day and month ends included
fn some_date() -> Date {
    in_month(month(-3, 11))
}

/// A date up to two years and some after it
pub fn after(d: Date, n: i32) -> Date {
    at(d.serial_number() + nd::int(1, n))
}

pub fn before(d: Date, n: i32) -> Date {
    at(d.serial_number() - nd::int(1, n))
}

pub fn is(s: &Schedule, dates: &[Date], regular: &[bool]) -> bool {
    if s.size() != dates.len() || s.empty() || !s.has_is_regular() {
        return false;
    }
    let mut r = *s.start_date() == dates[0] && *s.end_date() == dates[dates.len() - 1];
    for i in 0..dates.len() {
        r = r && s[i] == dates[i];
        if i > 0 {
            r = r && s.is_regular(i) == regular[i - 1];
        }
    }
    r
}

/// `n` times the tenor
fn times(t: Period, n: i32) -> Period {
    Period::new(t.length * n, t.unit)
}

pub fn yes(b: bool) -> bool {
    nd::each(b as i32) == 1
}

/// Drops the periods at either end that have no days left
pub fn collapse(d: &mut Vec<Date>, g: &mut Vec<bool>) {
    let m = d.len();
    if m >= 2 && yes(d[m - 2] >= d[m - 1]) {
        if m >= 3 {
            g[m - 3] = yes(d[m - 2] == d[m - 1]);
        }
        d.remove(m - 2);
        g.pop();
    }
    if d.len() >= 3 && yes(d[1] <= d[0]) {
        g[1] = yes(d[1] == d[0]);
        d.remove(1);
        g.remove(0);
    }
}

/// What a schedule is asked for
pub struct Ask {
    pub from: Date,
    pub to: Date,
    pub tenor: Period,
    pub calendar: Calendar,
    pub conv: BusinessDayConvention,
    pub last_conv: BusinessDayConvention,
    pub eom: bool,
    pub first: Date,
    pub last: Date,
}

pub fn ask(from: Date, to: Date, tenor: Period) -> Ask {
    Ask { from, to, tenor, calendar: NilHoliday::new(), conv: Unadjusted, last_conv: Unadjusted, eom: false, first: NONE(), last: NONE() }
}

pub fn weekends(from: Date, to: Date, tenor: Period) -> Ask {
    let mut a = ask(from, to, tenor);
    a.calendar = WeekendsOnly::new();
    a
}

pub fn conventions() -> (BusinessDayConvention, BusinessDayConvention) {
    match nd::each(nd::int(0, 4)) {
        0 => (Following, Following),
        1 => (ModifiedFollowing, Unadjusted),
        2 => (Following, Preceding),
        3 => (Unadjusted, Following),
        _ => (Preceding, ModifiedFollowing),
    }
}

fn eom_adjusted() -> Ask {
    let m = 1;
    let mut a = weekends(in_month(m), in_month(m + nd::each(nd::int(1, 2))), Period::new(1, Months));
    (a.conv, a.last_conv) = conventions();
    a.eom = true;
    a
}

/// A request that is turned down if any one of these is wrong
fn wrong(k: i32) -> (Ask, DateGenerationRule) {
    let (from, to) = (in_month(0), in_month(9));
    let mut a = ask(from, to, Period::new(3, Months));
    let mut rule = if nd::each(nd::int(0, 1)) == 1 { Backward } else { Forward };
    let other = match nd::each(nd::int(0, 5)) {
        0 => Zero,
        1 => Twentieth,
        2 => TwentiethIMM,
        3 => OldCDS,
        4 => CDS,
        _ => CDS2015,
    };
    match k {
        0 => a.to = in_month(0),
        1 => a.to = NONE(),
        2 => a.tenor.length = -3,
        3 => a.first = before(from, 40000),
        4 => a.first = after(to, 40000),
        5 => a.last = before(from, 40000),
        6 => a.last = after(to, 40000),
        7 => {
            a.first = in_month(3);
            rule = other;
        }
        8 => {
            a.last = in_month(3);
            rule = other;
        }
        9 => {
            a.eom = true;
            nd::assume(other != Zero);
            rule = other;
        }
        10 => {
            a.from = NONE();
            rule = Forward;
        }
        _ => {
            // the evaluation date stands in for the effective date
            a.from = NONE();
            a.to = at(40000);
            rule = Backward;
        }
    }
    nd::assume(k != 0 || a.to <= a.from);
    nd::assume(k != 3 || a.first != NONE());
    nd::assume(k != 5 || a.last != NONE());
    (a, rule)
}

impl Ask {
    pub fn build(&self, rule: DateGenerationRule) -> Schedule {
        Schedule::new(context(), self.from, self.to, self.tenor, self.calendar.clone(), self.conv, self.last_conv, rule, self.eom, self.first, self.last)
    }
    /// `k` periods from a date, month ends kept under the end-of-month rule
    fn step(&self, d: Date, k: i32) -> Date {
        let t = d + times(self.tenor, k);
        if self.eom && yes(d.is_end_of_month()) { t.end_of_month() } else { t }
    }
    pub fn same(&self, a: Date, b: Date, c: BusinessDayConvention) -> bool {
        yes(self.calendar.adjust(a, c) == self.calendar.adjust(b, c))
    }
    /// The dates before adjustment by the forward rule, whether the periods are regular, and the seed of the periods
    fn forward(&self, n: i32) -> (Vec<Date>, Vec<bool>, Date) {
        let (mut d, mut g, mut seed) = (vec![self.from], vec![], self.from);
        if self.first != NONE() {
            d.push(self.first);
            g.push(yes(self.step(self.from, 1) == self.first));
            seed = self.first;
        }
        let exit = if self.last != NONE() { self.last } else { self.to };
        let mut k = 1;
        while k <= n && yes(self.step(seed, k) <= exit) {
            let t = self.step(seed, k);
            if !self.same(d[d.len() - 1], t, self.conv) {
                d.push(t);
                g.push(true);
            }
            k += 1;
        }
        nd::assume(k <= n);
        if self.last != NONE() && !self.same(d[d.len() - 1], self.last, self.conv) {
            d.push(self.last);
            g.push(false);
        }
        if !self.same(d[d.len() - 1], self.to, self.last_conv) {
            d.push(self.to);
            g.push(false);
        }
        (d, g, seed)
    }
    /// The same by the backward rule
    fn backward(&self, n: i32) -> (Vec<Date>, Vec<bool>, Date) {
        let (mut d, mut g, mut seed) = (vec![self.to], vec![], self.to);
        if self.last != NONE() {
            d.insert(0, self.last);
            g.insert(0, yes(self.step(self.to, -1) == self.last));
            seed = self.last;
        }
        let exit = if self.first != NONE() { self.first } else { self.from };
        let mut k = 1;
        while k <= n && yes(self.step(seed, -k) >= exit) {
            let t = self.step(seed, -k);
            if !self.same(d[0], t, self.conv) {
                d.insert(0, t);
                g.insert(0, true);
            }
            k += 1;
        }
        nd::assume(k <= n);
        if self.first != NONE() && !self.same(d[0], self.first, self.conv) {
            d.insert(0, self.first);
            g.insert(0, false);
        }
        if !self.same(d[0], self.from, self.conv) {
            d.insert(0, self.from);
            g.insert(0, false);
        }
        (d, g, seed)
    }
    /// The dates of the schedule, with periods that collapse at either end dropped
    pub fn model(&self, back: bool, n: i32) -> (Vec<Date>, Vec<bool>) {
        let (mut d, mut g, seed) = if back { self.backward(n) } else { self.forward(n) };
        let c = &self.calendar;
        let m = d.len();
        if self.eom && yes(c.is_end_of_month(&seed)) {
            for i in 1..m - 1 {
                d[i] = if self.conv == Unadjusted { d[i].end_of_month() } else { c.end_of_month(&d[i]) };
            }
            let (mut a, mut z) = (d[0], d[m - 1]);
            if self.last_conv != Unadjusted {
                a = c.end_of_month(&a);
                z = c.end_of_month(&z);
            } else if back {
                z = z.end_of_month();
            } else {
                a = a.end_of_month();
            }
            if !yes(a == z) {
                d[0] = a;
                d[m - 1] = z;
            }
        } else {
            for i in 0..m {
                d[i] = c.adjust(d[i], if i > 0 && i == m - 1 { self.last_conv } else { self.conv });
            }
        }
        collapse(&mut d, &mut g);
        (d, g)
    }
}

harnesses! {
    c26_forward(8) {
        let (from, t, n) = (some_date(), tenor(), nd::each(nd::int(0, 3)));
        let to = after(from, 1500);
        // n whole periods from the start, and perhaps a rest
        let mut d = vec![from];
        let mut g = vec![];
        for k in 1..n + 1 {
            d.push(from + times(t, k));
            g.push(true);
        }
        nd::assume(d[n as usize] <= to && to < from + times(t, n + 1));
        let stub = yes(d[n as usize] != to);
        if stub {
            d.push(to);
            g.push(false);
        }
        let s = ask(from, to, t).build(Forward);
        prop!(is(&s, &d, &g), "a forward schedule counts periods from the start and ends with the termination date");
        witness!(n == 3 && stub && t == Period::new(6, Months), "a stub");
    }
    c26_backward(8) {
        let (to, t, n) = (some_date(), tenor(), nd::each(nd::int(0, 3)));
        let from = before(to, 1500);
        let mut d = vec![to];
        let mut g = vec![];
        for k in 1..n + 1 {
            d.insert(0, to - times(t, k));
            g.insert(0, true);
        }
        nd::assume(d[0] >= from && from > to - times(t, n + 1));
        let stub = yes(d[0] != from);
        if stub {
            d.insert(0, from);
            g.insert(0, false);
        }
        let s = ask(from, to, t).build(Backward);
        prop!(is(&s, &d, &g), "a backward schedule counts periods back from the termination date and starts with the effective date");
        witness!(n == 3 && stub && t == Period::new(6, Months), "a stub");
    }
    c26_forward_first(8) {
        let m = month(0, 5);
        let mut a = ask(in_month(m), in_month(m + 9), Period::new(3, Months));
        a.first = in_month(m + nd::each(nd::int(0, 4)));
        nd::assume(a.first > a.from);
        let (d, g) = a.model(false, 4);
        prop!(is(&a.build(Forward), &d, &g), "a forward schedule with a first date counts periods from it");
        witness!(d.len() == 5 && !g[0] && g[1] && !g[3], "stubs at both ends");
        witness!(d.len() == 5 && g[0], "a regular first period");
    }
    c26_forward_last(8) {
        let m = month(0, 5);
        let mut a = ask(in_month(m), in_month(m + 9), Period::new(3, Months));
        a.last = in_month(m + nd::each(nd::int(5, 9)));
        nd::assume(a.last < a.to);
        let (d, g) = a.model(false, 4);
        prop!(is(&a.build(Forward), &d, &g), "a forward schedule with a next to last date ends with it and the termination date");
        witness!(d.len() == 5 && g[0] && !g[2] && !g[3], "two stubs");
    }
    c26_backward_last(8) {
        let m = month(0, 5);
        let mut a = ask(in_month(m), in_month(m + 9), Period::new(3, Months));
        a.last = in_month(m + nd::each(nd::int(5, 9)));
        nd::assume(a.last < a.to);
        let (d, g) = a.model(true, 4);
        prop!(is(&a.build(Backward), &d, &g), "a backward schedule with a next to last date counts periods from it");
        witness!(d.len() == 5 && !g[0] && g[1] && !g[3], "stubs at both ends");
        witness!(d.len() == 5 && g[3], "a regular last period");
    }
    c26_backward_first(8) {
        let m = month(0, 5);
        let mut a = ask(in_month(m), in_month(m + 9), Period::new(3, Months));
        a.first = in_month(m + nd::each(nd::int(0, 4)));
        nd::assume(a.first > a.from);
        let (d, g) = a.model(true, 4);
        prop!(is(&a.build(Backward), &d, &g), "a backward schedule with a first date starts with the effective date and it");
        witness!(d.len() == 5 && !g[0] && !g[1] && g[3], "two stubs");
    }
    c26_both(8) {
        let m = month(0, 2);
        let mut a = ask(in_month(m), in_month(m + 9), Period::new(3, Months));
        a.first = in_month(m + 2);
        a.last = in_month(m + nd::each(nd::int(6, 8)));
        let back = nd::each(nd::int(0, 1)) == 1;
        let (d, g) = a.model(back, 4);
        prop!(is(&a.build(if back { Backward } else { Forward }), &d, &g), "a schedule with both a first and a next to last date has stubs at both ends");
        witness!(back && !g[0] && d.len() == 5, "backward");
        witness!(!back && !g[0] && d.len() == 5, "forward");
    }
    c26_forward_eom(8) {
        let m = month(0, 11);
        let mut a = ask(in_month(m), in_month(m + nd::each(nd::int(0, 3))), Period::new(1, Months));
        nd::assume(a.from < a.to);
        a.eom = true;
        let (d, g) = a.model(false, 4);
        prop!(is(&a.build(Forward), &d, &g), "a forward schedule keeps to month ends under the end-of-month rule");
        witness!(d.len() == 4 && a.from == Date::new(30, 4.into(), 2000), "the end of April");
    }
    c26_backward_eom(8) {
        let m = month(0, 11);
        let mut a = ask(in_month(m), in_month(m + nd::each(nd::int(0, 3))), Period::new(1, Months));
        nd::assume(a.from < a.to);
        a.eom = true;
        let (d, g) = a.model(true, 4);
        prop!(is(&a.build(Backward), &d, &g), "a backward schedule keeps to month ends under the end-of-month rule");
        witness!(d.len() == 4 && a.to == Date::new(30, 4.into(), 2000), "the end of April");
    }
    c26_forward_adjusted(8) {
        let m = month(1, 2);
        let mut a = weekends(in_month(m), in_month(m + nd::each(nd::int(2, 3))), Period::new(2, Months));
        (a.conv, a.last_conv) = conventions();
        let (d, g) = a.model(false, 4);
        nd::assume(d.len() > 1);
        prop!(is(&a.build(Forward), &d, &g), "the dates of a forward schedule are adjusted, the last by its own convention");
        witness!(d.len() == 3 && a.conv == ModifiedFollowing && a.last_conv == Unadjusted && !g[1], "a stub");
    }
    c26_backward_adjusted(8) {
        let m = month(1, 2);
        let mut a = weekends(in_month(m), in_month(m + nd::each(nd::int(2, 3))), Period::new(2, Months));
        (a.conv, a.last_conv) = conventions();
        let (d, g) = a.model(true, 4);
        nd::assume(d.len() > 1);
        prop!(is(&a.build(Backward), &d, &g), "the dates of a backward schedule are adjusted, the last by its own convention");
        witness!(d.len() == 3 && a.conv == Following && a.last_conv == Preceding && !g[0], "a stub");
    }
    c26_first_adjusted(8) {
        // the first date of a backward schedule may be the date before it once adjusted
        let m = 1;
        let mut a = weekends(in_month(m), in_month(m + 3), Period::new(2, Months));
        (a.conv, a.last_conv) = conventions();
        a.first = in_month(m + 1);
        let (d, g) = a.model(true, 3);
        nd::assume(d.len() > 2);
        prop!(is(&a.build(Backward), &d, &g), "a first date is left out exactly if it is the date after it once adjusted");
        witness!(d.len() == 4 && a.conv == Following && a.last_conv == Preceding && !g[0] && !g[1], "two stubs");
        witness!(d.len() == 3 && a.conv == Following && a.last_conv == Preceding && a.first != d[1], "left out");
    }
    c26_last_adjusted(8) {
        // the next to last date of a forward schedule may be the date before it once adjusted
        let m = 1;
        let mut a = weekends(in_month(m), in_month(m + 3), Period::new(2, Months));
        (a.conv, a.last_conv) = conventions();
        a.last = in_month(m + 2);
        let (d, g) = a.model(false, 3);
        nd::assume(d.len() > 2);
        prop!(is(&a.build(Forward), &d, &g), "a next to last date is left out exactly if it is the date before it once adjusted");
        witness!(d.len() == 4 && a.conv == Following && a.last_conv == Preceding && !g[1] && !g[2], "two stubs");
        witness!(d.len() == 3 && a.conv == Following && a.last_conv == Preceding && a.last != d[1], "left out");
    }
    c26_forward_eom_adjusted(8) {
        let a = eom_adjusted();
        let (d, g) = a.model(false, 3);
        nd::assume(d.len() > 1);
        prop!(is(&a.build(Forward), &d, &g), "month ends of a forward schedule are the last business days of the month");
        witness!(d.len() == 3 && a.conv == Following, "three dates");
    }
    c26_backward_eom_adjusted(8) {
        let a = eom_adjusted();
        let (d, g) = a.model(true, 3);
        nd::assume(d.len() > 1);
        prop!(is(&a.build(Backward), &d, &g), "month ends of a backward schedule are the last business days of the month");
        witness!(d.len() == 3 && a.conv == Following, "three dates");
    }
    c26_short(8) {
        // periods of few days may collapse
        let from = in_month(0);
        let mut a = weekends(from, from + nd::each(nd::int(1, 4)), Period::new(nd::each(nd::int(1, 2)), Days));
        (a.conv, a.last_conv) = (Following, if nd::each(nd::int(0, 1)) == 1 { Following } else { Unadjusted });
        let back = nd::each(nd::int(0, 1)) == 1;
        let (d, g) = a.model(back, 5);
        nd::assume(d.len() > 1);
        prop!(is(&a.build(if back { Backward } else { Forward }), &d, &g), "periods that collapse on a business day are dropped");
        witness!(d.len() == 3 && a.tenor.length == 1, "two days left");
    }
    c26_zero(8) {
        // by rule or by a tenor of no length
        let (from, to) = (in_month(month(0, 1)), in_month(month(1, 2)));
        let by_rule = nd::each(nd::int(0, 1)) == 1;
        let mut a = weekends(from, to, if by_rule { tenor() } else { Period::new(0, Months) });
        (a.conv, a.last_conv) = conventions();
        nd::assume(a.from < a.to);
        let d = [a.calendar.adjust(a.from, a.conv), a.calendar.adjust(a.to, a.last_conv)];
        nd::assume(d[0] < d[1]);
        let s = a.build(if by_rule { Zero } else { Backward });
        prop!(is(&s, &d, &[true]), "a schedule by the zero rule has the effective and the termination date only");
        prop!(s.tenor() == Period::new(0, Years), "and the tenor is zero");
        witness!(by_rule && a.conv == Following, "by rule");
        witness!(!by_rule && a.last_conv == Preceding, "by tenor");
    }
    c26_getters(8) {
        let mut a = ask(in_month(0), in_month(3), if nd::each(nd::int(0, 1)) == 1 { Period::new(8, Weeks) } else { Period::new(3, Months) });
        a.conv = conventions().0;
        a.eom = nd::each(nd::int(0, 1)) == 1;
        let s = a.build(if nd::each(nd::int(0, 1)) == 1 { Backward } else { Forward });
        prop!(s.tenor() == a.tenor && s.business_day_convention() == a.conv, "a schedule keeps its tenor and convention");
        prop!(s.end_of_month() == (a.eom && a.tenor.unit != Weeks), "the end-of-month rule is for tenors of months only");
        witness!(a.eom && !s.end_of_month(), "weeks");
    }
    c26_no_effective(8) {
        // the evaluation date tells how far back to go
        let to = in_month(month(2, 5));
        let n = nd::int(1, 1000);
        let ctx = PricingContext { eval_date: at(to.serial_number() - n) };
        let mut last = to;
        let with_last = nd::each(nd::int(0, 1)) == 1;
        if with_last {
            last = in_month(month(-3, 2));
            nd::assume(last < to && last > ctx.eval_date);
        }
        let y = nd::each((last.serial_number() - ctx.eval_date.serial_number()) / 366 + 1);
        let s = Schedule::new(ctx, NONE(), to, Period::new(1, Years), NilHoliday::new(), Unadjusted, Unadjusted, Backward, false, NONE(), if with_last { last } else { NONE() });
        prop!(*s.start_date() == last - Period::new(y, Years), "it starts as many years before its last regular date as years of 366 days have begun since the evaluation date");
        prop!(*s.end_date() == to, "and ends with the termination date");
        prop!(s.size() == y as usize + 1 + with_last as usize, "with a date a year between");
        witness!(with_last && y == 1 && n > 300, "with a next to last date");
        witness!(y == 3, "three years");
    }
    //@ rejects
    c26_rejected(8) {
        let (a, rule) = wrong(nd::each(nd::int(0, 11)));
        witness!(a.first != NONE() && rule == CDS2015, "a first date by a CDS rule");
        witness!(a.eom && rule == Twentieth, "month ends by twentieths");
        witness!(a.tenor.length < 0, "a negative tenor");
        rejects!(a.build(rule), "a schedule of dates out of order or of rules that exclude each other is refused");
    }
}
