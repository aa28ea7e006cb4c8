//@ engine=symx
//! C28: truncated schedules, the dates around a date, and the schedule builder.
use super::c26::{ask, at, context, conventions, in_month, is, month, weekends, yes, Ask, NONE};
use crate::gen::*;
use crate::nd;
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::{
    businessdayconvention::BusinessDayConvention::*,
    date::Date,
    dategenerationrule::DateGenerationRule::*,
    period::Period,
    schedule::Schedule,
    schedulebuilder::ScheduleBuilder,
    timeunit::TimeUnit::*,
};

/// A schedule of quarters with perhaps a stub, its dates and whether they are regular
fn schedule() -> (Schedule, Vec<Date>, Vec<bool>) {
    let m = month(0, 1);
    let a = ask(in_month(m), in_month(m + nd::each(nd::int(3, 7))), Period::new(3, Months));
    let s = a.build(if nd::each(nd::int(0, 1)) == 1 { Backward } else { Forward });
    let d = s.dates();
    let g = (1..d.len()).map(|i| s.is_regular(i)).collect();
    (s, d, g)
}

/// How many of the dates are before `t`
fn before(d: &[Date], t: Date) -> usize {
    let mut n = 0;
    while n < d.len() && yes(d[n] < t) {
        n += 1;
    }
    n
}

/// A date around those of the schedule
fn query() -> Date {
    in_month(month(-1, 8))
}

harnesses! {
    c28_after(8) {
        let ((s, d, g), t) = (schedule(), query());
        nd::assume(t < d[d.len() - 1]);
        let k = before(&d, t);
        let (mut e, mut h) = (d[k..].to_vec(), g[k..].to_vec());
        if k > 0 && yes(d[k] != t) {
            e.insert(0, t);
            h.insert(0, false);
        }
        let r = s.after(&t);
        prop!(is(&r, &e, &h), "a schedule after a date has the dates from it on, itself the first, and an irregular period if it is none of them");
        prop!(is(&s, &d, &g), "the schedule itself stays as it is");
        prop!(r.tenor() == s.tenor() && r.business_day_convention() == s.business_day_convention(), "tenor and convention are kept");
        witness!(e.len() == 2 && d.len() == 4 && !h[0], "within the last period");
        witness!(k == 1 && e.len() == d.len() - 1, "a date of the schedule");
        witness!(k == 0, "before the start");
    }
    c28_until(8) {
        let ((s, d, g), t) = (schedule(), query());
        nd::assume(t > d[0]);
        // the dates up to t
        let k = before(&d, t);
        let (mut e, mut h) = (d[..k].to_vec(), g[..k - 1].to_vec());
        if k < d.len() {
            h.push(yes(d[k] == t) && g[k - 1]);
            e.push(t);
        }
        let r = s.until(&t);
        prop!(is(&r, &e, &h), "a schedule until a date has the dates up to it, itself the last, and an irregular period if it is none of them");
        prop!(is(&s, &d, &g), "the schedule itself stays as it is");
        prop!(r.tenor() == s.tenor() && r.business_day_convention() == s.business_day_convention(), "tenor and convention are kept");
        witness!(e.len() == 2 && d.len() == 4 && !h[0], "within the first period");
        witness!(k == 2 && e.len() == 3 && h[1], "a date of the schedule");
        witness!(k == d.len(), "after the end");
    }
    //@ rejects
    c28_truncation_rejected(8) {
        let ((s, d, _), t) = (schedule(), query());
        let after = nd::each(nd::int(0, 1)) == 1;
        nd::assume(if after { t >= d[d.len() - 1] } else { t <= d[0] });
        witness!(after && t == d[d.len() - 1], "the end");
        witness!(!after && t == d[0], "the start");
        rejects!(if after { s.after(&t) } else { s.until(&t) }, "nothing is left of a schedule");
    }
    c28_around(8) {
        let ((s, d, _), t) = (schedule(), query());
        let k = before(&d, t);
        prop!(s.next_date(&t) == if k < d.len() { d[k] } else { NONE() }, "the next date is the first not before the date, or none");
        prop!(s.previous_date(&t) == if k > 0 { d[k - 1] } else { NONE() }, "the previous date is the last before the date, or none");
        witness!(k == 2 && d.get(2) == Some(&t), "a date of the schedule");
        witness!(k == d.len(), "after the end");
    }
    c28_around_today(8) {
        // no date stands for the evaluation date
        let (m, t) = (0, in_month(month(-1, 5)));
        let a = ask(in_month(m), in_month(m + 3), Period::new(2, Months));
        let s = Schedule::new(PricingContext { eval_date: t }, a.from, a.to, a.tenor, a.calendar.clone(), a.conv, a.last_conv, Forward, false, NONE(), NONE());
        prop!(s.next_date(&NONE()) == s.next_date(&t) && s.previous_date(&NONE()) == s.previous_date(&t), "no date stands for the evaluation date");
        witness!(s.next_date(&t) == *s.end_date(), "in the last period");
    }
    //@ rejects
    c28_regular_rejected(8) {
        let (s, d, _) = schedule();
        let i = nd::each(nd::int(0, 5)) as usize;
        nd::assume(i == 0 || i >= d.len());
        witness!(i == d.len(), "one too many");
        rejects!(s.is_regular(i), "a schedule has as many periods as there are between its dates");
    }
    c28_builder(8) {
        // what is not asked for has a default
        let mut a = weekends(at(36554 + nd::each(nd::int(0, 3))), at(36650 + nd::each(nd::int(0, 1))), Period::new(1, Months));
        let k = nd::each(nd::int(0, 63));
        let (conv, last) = (Preceding, Unadjusted);
        let mut b = ScheduleBuilder::new(context(), a.from, a.to, a.tenor, a.calendar.clone());
        a.conv = Following;
        if k & 1 > 0 {
            b = b.with_convention(conv);
            a.conv = conv;
        }
        a.last_conv = a.conv;
        if k & 2 > 0 {
            b = b.with_termination_convention(last);
            a.last_conv = last;
        }
        let mut rule = Backward;
        if k & 4 > 0 {
            (b, rule) = match nd::each(nd::int(0, 2)) {
                0 => (b.with_rule(Zero), Zero),
                1 => (b.forwards(), Forward),
                _ => (b.backwards(), Backward),
            };
        }
        if k & 8 > 0 {
            a.eom = nd::each(nd::int(0, 1)) == 1;
            b = b.with_end_of_month(a.eom);
        }
        if k & 16 > 0 {
            a.first = at(a.from.serial_number() + 20);
            b = b.with_first_date(a.first);
        }
        if k & 32 > 0 {
            a.last = at(a.to.serial_number() - 20);
            b = b.with_next_to_last_date(a.last);
        }
        nd::assume(rule != Zero || k < 16);
        let s = a.build(rule);
        let d = s.dates();
        let g: Vec<bool> = (1..d.len()).map(|i| s.is_regular(i)).collect();
        let r = b.build();
        prop!(is(&r, &d, &g), "a schedule that is built has what was asked for");
        prop!(r.tenor() == s.tenor() && r.business_day_convention() == a.conv && r.end_of_month() == a.eom, "and keeps its terms");
        witness!(k == 63 && rule == Forward, "all at once");
        witness!(k == 0, "nothing");
    }
}
