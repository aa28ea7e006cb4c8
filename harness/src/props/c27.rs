//@ engine=symx
//! C27: schedules on the twentieth, credit default swap schedules and on third Wednesdays.
use super::c26::{ask, at, collapse, context, conventions, in_month, is, month, weekends, yes, Ask, NONE};
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{
    businessdayconvention::BusinessDayConvention::{self, *},
    date::Date,
    dategenerationrule::DateGenerationRule::{self, *},
    imm::IMM,
    period::Period,
    schedule::Schedule,
    timeunit::TimeUnit::*,
    weekday::Weekday::Wednesday,
};
use rust_quantlib::instruments::creditdefaultswap::cds_maturity;

fn quarterly(rule: DateGenerationRule) -> bool {
    rule != Twentieth
}

/// The months until the first twentieth not before a day of the month `k`
fn up(d: Date, k: i32, quarter: bool) -> i32 {
    let k = if yes(d.day_of_month() > 20) { k + 1 } else { k };
    let past = (k.rem_euclid(12) + 1) % 3;
    if quarter && past != 0 { k + 3 - past } else { k }
}

/// The month of the last twentieth up to a day of the month `k`
fn down(d: Date, k: i32, quarter: bool) -> i32 {
    let k = if yes(d.day_of_month() < 20) { k - 1 } else { k };
    let past = (k.rem_euclid(12) + 1) % 3;
    if quarter { k - past } else { k }
}

fn twentieth(k: i32) -> Date {
    Date::new(20, (k.rem_euclid(12) + 1).into(), 2000 + k.div_euclid(12))
}

/// The dates from a day of month `k` to a day of month `n`, every `step` months
fn dates(a: &Ask, k: i32, n: i32, step: i32, rule: DateGenerationRule) -> (Vec<Date>, Vec<bool>) {
    let cds = rule == CDS || rule == CDS2015;
    let (mut d, mut g) = (vec![], vec![]);
    if cds {
        // the coupon period that has begun already, with its first business day
        let p = down(a.from, k, true);
        if yes(a.calendar.adjust(twentieth(p), a.conv) > a.from) {
            d.push(twentieth(p - 3));
            g.push(true);
        }
        d.push(twentieth(p));
    } else {
        d.push(a.from);
    }
    let mut q = up(a.from, k, quarterly(rule));
    if rule == OldCDS && yes(twentieth(q) - a.from < 30) {
        // no stub of less than thirty days; a whole period longer from the day after
        q += 3;
    }
    if yes(twentieth(q) != a.from) {
        d.push(twentieth(q));
        g.push(cds);
    }
    q += step;
    while yes(twentieth(q) <= a.to) {
        if !a.same(d[d.len() - 1], twentieth(q), a.conv) {
            d.push(twentieth(q));
            g.push(true);
        }
        q += step;
    }
    if !a.same(d[d.len() - 1], a.to, a.last_conv) {
        d.push(twentieth(up(a.to, n, quarterly(rule))));
        g.push(true);
    }
    let m = d.len();
    for i in 0..m {
        let last = i > 0 && i == m - 1;
        if !(rule == OldCDS && i == 0 || cds && last) {
            d[i] = a.calendar.adjust(d[i], if last { a.last_conv } else { a.conv });
        }
    }
    collapse(&mut d, &mut g);
    (d, g)
}

fn check(a: &Ask, k: i32, n: i32, step: i32, rule: DateGenerationRule) -> (Schedule, Vec<Date>, Vec<bool>) {
    let (d, g) = dates(a, k, n, step, rule);
    nd::assume(d.len() > 1);
    (a.build(rule), d, g)
}

fn third_wednesday(d: Date) -> Date {
    Date::nth_weekday(3, Wednesday, d.month(), d.year())
}

harnesses! {
    c27_twentieth(8) {
        let (k, n, step) = (month(-1, 1), nd::each(nd::int(1, 4)), nd::each(nd::int(1, 3)));
        let a = ask(in_month(k), in_month(k + n), Period::new(step, Months));
        let (s, d, g) = check(&a, k, k + n, step, Twentieth);
        prop!(is(&s, &d, &g), "all dates but the first are the twentieth of their month");
        witness!(d.len() == 4 && step == 1 && !g[0], "a stub");
        witness!(g[0], "from a twentieth");
    }
    c27_twentieth_imm(8) {
        let (k, n) = (month(-1, 1), nd::each(nd::int(3, 8)));
        let a = ask(in_month(k), in_month(k + n), Period::new(3, Months));
        let (s, d, g) = check(&a, k, k + n, 3, TwentiethIMM);
        prop!(is(&s, &d, &g), "all dates but the first are the twentieth of an IMM month");
        witness!(d.len() == 4 && !g[0], "a stub");
        witness!(g[0], "from a twentieth");
    }
    c27_old_cds(8) {
        let (k, n) = (month(-1, 1), nd::each(nd::int(5, 8)));
        let a = ask(in_month(k), in_month(k + n), Period::new(3, Months));
        let (s, d, g) = check(&a, k, k + n, 3, OldCDS);
        prop!(is(&s, &d, &g), "a stub of less than thirty days joins the next period");
        witness!(d.len() == 3 && d[1] - d[0] > 100, "a long stub");
        witness!(d.len() == 4, "a short stub");
    }
    c27_cds(8) {
        let (k, n) = (month(-1, 1), nd::each(nd::int(3, 6)));
        let a = ask(in_month(k), in_month(k + n), Period::new(3, Months));
        let rule = if nd::each(nd::int(0, 1)) == 1 { CDS } else { CDS2015 };
        let (s, d, g) = check(&a, k, k + n, 3, rule);
        prop!(is(&s, &d, &g), "a credit default swap accrues from the twentieth up to its start");
        witness!(d.len() == 4 && rule == CDS, "four dates");
    }
    c27_cds_adjusted(8) {
        let (k, n) = (month(52, 53), nd::each(nd::int(3, 4)));
        let mut a = weekends(in_month(k), in_month(k + n), Period::new(3, Months));
        (a.conv, a.last_conv) = conventions();
        let rule = if nd::each(nd::int(0, 1)) == 1 { CDS } else { CDS2015 };
        let (s, d, g) = check(&a, k, k + n, 3, rule);
        prop!(is(&s, &d, &g), "from the one before if it is not a business day, and the last date is not adjusted");
        witness!(a.from - d[0] > 80, "an accrual that began with the last coupon period");
        witness!(d.len() == 3 && a.conv == Following, "two periods");
    }
    c27_twentieth_adjusted(8) {
        let (k, n) = (month(1, 2), nd::each(nd::int(3, 4)));
        let mut a = weekends(in_month(k), in_month(k + n), Period::new(3, Months));
        (a.conv, a.last_conv) = conventions();
        let rule = if nd::each(nd::int(0, 1)) == 1 { TwentiethIMM } else { OldCDS };
        let (s, d, g) = check(&a, k, k + n, 3, rule);
        prop!(is(&s, &d, &g), "the twentieths are adjusted, but not the start of an old credit default swap");
        witness!(rule == OldCDS && a.conv == Following && d[0] != a.calendar.adjust(d[0], Following), "a start on a weekend");
        witness!(rule == TwentiethIMM && d.len() == 3, "two periods");
    }
    c27_wednesdays(8) {
        let (k, n, step) = (month(-1, 1), nd::each(nd::int(1, 4)), nd::each(nd::int(1, 3)));
        let (from, to) = (in_month(k), in_month(k + n));
        let all = nd::each(nd::int(0, 1)) == 1;
        let a = ask(from, to, Period::new(step, Months));
        let (mut d, mut g, mut i) = (vec![from], vec![], 1);
        while yes(from + Period::new(i * step, Months) <= to) {
            d.push(from + Period::new(i * step, Months));
            g.push(true);
            i += 1;
        }
        if yes(d[d.len() - 1] != to) {
            d.push(to);
            g.push(false);
        }
        for i in 0..d.len() {
            if all || i > 0 && i < d.len() - 1 {
                d[i] = third_wednesday(d[i]);
            }
        }
        collapse(&mut d, &mut g);
        nd::assume(d.len() > 1);
        let s = a.build(if all { ThirdWednesdayInclusive } else { ThirdWednesday });
        prop!(is(&s, &d, &g), "the dates are third Wednesdays of the months a forward schedule has, the ends only if included");
        witness!(all && d.len() == 4 && step == 1, "all of them");
        witness!(!all && d.len() == 4 && !g[2], "a stub");
    }
    c27_cds_maturity(8) {
        let (y, m) = (2015, month(0, 23) + 1);
        let trade = in_month(15 * 12 + m - 1);
        let rule = match nd::each(nd::int(0, 2)) { 0 => OldCDS, 1 => CDS, _ => CDS2015 };
        let n = match nd::each(nd::int(0, 2)) { 0 => 0, 1 => 2, _ => 5 };
        let tenor = if nd::each(nd::int(0, 1)) == 1 { Period::new(n, Years) } else { Period::new(3 * n, Months) };
        nd::assume(rule != OldCDS || n > 0);
        // the quarter that ends after the trade date, or half a year since 2015
        let mut p = m - (m % 3);
        if m % 3 == 0 && yes(trade.day_of_month() < 20) {
            p -= 3;
        }
        let half = rule == CDS2015 && p % 6 == 0; // in June or December
        let months = if tenor.unit == Years { 12 * n } else { 3 * n };
        let q = if half { p } else { p + 3 } + months;
        let r = cds_maturity(&trade, tenor, rule);
        if half && n == 0 {
            prop!(r == NONE(), "no contract has just run out");
        } else {
            prop!(r == Date::new(20, ((q - 1).rem_euclid(12) + 1).into(), y + (q - 1).div_euclid(12)), "the maturity is the twentieth of the quarter a tenor after the current one");
        }
        witness!(half && n == 0, "none");
        witness!(half && n == 2, "half a year");
        witness!(!half && rule == CDS2015 && n == 0, "the current one");
    }
    //@ rejects
    c27_maturity_rejected(8) {
        let k = nd::each(nd::int(0, 3));
        let trade = in_month(3);
        let (tenor, rule) = match k {
            0 => (Period::new(nd::each(nd::int(1, 5)), Months), CDS),
            1 => (Period::new(nd::each(nd::int(0, 9)), if nd::each(nd::int(0, 1)) == 1 { Days } else { Weeks }), CDS2015),
            2 => (Period::new(0, Months), OldCDS),
            _ => (Period::new(1, Years), match nd::each(nd::int(0, 3)) { 0 => Twentieth, 1 => TwentiethIMM, 2 => Backward, _ => Forward }),
        };
        nd::assume(k != 0 || tenor.length != 3);
        witness!(k == 2, "no months by the old rule");
        witness!(k == 3 && rule == TwentiethIMM, "another rule");
        rejects!(cds_maturity(&trade, tenor, rule), "tenors of no whole quarters and other rules are refused");
    }
}
