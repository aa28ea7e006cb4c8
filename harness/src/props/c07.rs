//! C07: period algebra, normalisation and the link with frequencies.
use super::c06::{period, size, unit};
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{frequency::Frequency, frequency::Frequency::*, period::Period, timeunit::TimeUnit};

const MAXLEN: i32 = 20_000;

fn frequency() -> Frequency {
    match nd::choice(12) {
        0 => NoFrequency,
        1 => Once,
        2 => Annual,
        3 => Semiannual,
        4 => EveryFourthMonth,
        5 => Quarterly,
        6 => Bimonthly,
        7 => Monthly,
        8 => EveryFourthWeek,
        9 => Biweekly,
        10 => Weekly,
        _ => Daily,
    }
}

fn days_family(p: &Period) -> bool {
    p.unit == TimeUnit::Days || p.unit == TimeUnit::Weeks
}

harnesses! {
    c07_add_sub(2) {
        let p = period(MAXLEN);
        let q = period(MAXLEN);
        let minus = nd::bool();
        let (dp, sp) = size(&p);
        let (dq, sq) = size(&q);
        nd::assume(dp == dq || sp == 0 || sq == 0);
        witness!(!dp && p.unit != q.unit && minus && sp != 0, "years minus months");
        let mut r = p;
        if minus { r -= q } else { r += q }
        let (dr, sr) = size(&r);
        let total = if minus { sp - sq } else { sp + sq };
        prop!(sr == total, "p += q adds (p -= q subtracts) the lengths");
        prop!(sr == 0 || dr == if sp != 0 { dp } else { dq }, "p += q stays in the family of units");
    }
    //@ rejects
    c07_rejects_mixed(2) {
        let p = period(MAXLEN);
        let q = period(MAXLEN);
        let minus = nd::bool();
        let (dp, sp) = size(&p);
        let (dq, sq) = size(&q);
        nd::assume(dp != dq && sp != 0 && sq != 0);
        witness!(dp, "days plus months");
        let mut r = p;
        if minus { r -= q } else { r += q }
        rejects!(r, "days or weeks cannot be added to months or years");
    }
    c07_neg_mul(2) {
        let p = period(2000);
        let n = nd::int(-50, 50);
        witness!(n < 0 && p.length < 0, "both negative");
        let q = -p;
        prop!(q.length == -p.length && q.unit == p.unit, "-p has the opposite length");
        let r = p * n;
        prop!(r.length == p.length * n && r.unit == p.unit, "p * n multiplies the length");
    }
    c07_div(2) {
        // p = q * n in the unit of p or the finer one
        let u = unit();
        let n = nd::int(-60, 60);
        let len = nd::int(-600, 600);
        nd::assume(n != 0);
        let p = Period::new(len, u);
        let k = match u {
            TimeUnit::Years => 12,
            TimeUnit::Weeks => 7,
            _ => 1,
        };
        nd::assume((len * k) % n == 0);
        witness!(u == TimeUnit::Years && len % n != 0, "needs the finer unit");
        let q = p / n;
        let mut r = p;
        r /= n;
        prop!(q.length == r.length && q.unit == r.unit, "/ and /= agree");
        let (dp, sp) = size(&p);
        let (dq, sq) = size(&q);
        prop!(dp == dq && sq * n == sp, "(p / n) * n stands for the same time as p");
        prop!(len % n != 0 || q.unit == u, "p / n keeps the unit where it can");
    }
    //@ rejects
    c07_rejects_div(2) {
        let u = unit();
        let n = nd::int(-60, 60);
        let len = nd::int(-600, 600);
        let k = match u {
            TimeUnit::Years => 12,
            TimeUnit::Weeks => 7,
            _ => 1,
        };
        if n != 0 {
            nd::assume((len * k) % n != 0);
        }
        witness!(n == 0, "division by zero");
        witness!(n == 5 && u == TimeUnit::Years, "a year by five");
        rejects!(Period::new(len, u) / n, "p / n where p is not a multiple of n units");
    }
    c07_normalise(2) {
        let p = period(MAXLEN);
        witness!(p.unit == TimeUnit::Months && p.length == -24, "minus 24 months");
        let q = p.normalised();
        let mut r = p;
        r.normalise();
        prop!(q.length == r.length && q.unit == r.unit, "normalise and normalised agree");
        let (dp, sp) = size(&p);
        let (dq, sq) = size(&q);
        prop!(sq == sp && (dp == dq || sp == 0), "a normalised period stands for the same time");
        prop!(q.length != 0 || q.unit == TimeUnit::Days, "a zero period is normalised to days");
        prop!(q.unit != TimeUnit::Months || q.length % 12 != 0, "whole years are normalised to years");
        prop!(q.unit != TimeUnit::Days || q.length == 0 || q.length % 7 != 0, "whole weeks are normalised to weeks");
        let t = q.normalised();
        prop!(t.length == q.length && t.unit == q.unit, "normalising twice changes nothing more");
        prop!(q == p, "a normalised period equals the original");
    }
    c07_frequency_round_trip(2) {
        let f = frequency();
        witness!(f == EveryFourthWeek, "every fourth week");
        let p = Period::from(f);
        prop!(p.frequency() == f, "the period of a frequency has that frequency");
        let (d, s) = size(&p);
        let n: i32 = f.into();
        prop!(n <= 0 || f == Daily || (d && s * n == 364) || (!d && s * n == 12), "n periods of a frequency make a year");
        prop!(f != Daily || (d && s == 1), "daily");
        prop!(n > 0 || s == 0, "no frequency and once have no length");
        prop!(n <= 0 || Frequency::from(n) == f, "frequency round trip through its number");
        let r: f64 = f.into();
        prop!(r == n as f64, "frequency as a real number");
    }
    c07_frequency(2) {
        let u = unit();
        let len = nd::int(0, 100_000);
        let p = Period::new(len, u);
        witness!(len == 12 && u == TimeUnit::Months, "12 months");
        let f = p.frequency();
        let expected = match (u, len) {
            (TimeUnit::Years, 0) => Once,
            (_, 0) => NoFrequency,
            (TimeUnit::Days, 1) => Daily,
            (TimeUnit::Weeks, 1) => Weekly,
            (TimeUnit::Weeks, 2) => Biweekly,
            (TimeUnit::Weeks, 4) => EveryFourthWeek,
            (TimeUnit::Months, 1) => Monthly,
            (TimeUnit::Months, 2) => Bimonthly,
            (TimeUnit::Months, 3) => Quarterly,
            (TimeUnit::Months, 4) => EveryFourthMonth,
            (TimeUnit::Months, 6) => Semiannual,
            (TimeUnit::Months, 12) => Annual,
            (TimeUnit::Years, 1) => Annual,
            _ => OtherFrequency,
        };
        prop!(f == expected, "frequency of a period");
    }
    c07_conversions(2) {
        let p = period(MAXLEN);
        let (d, s) = size(&p);
        witness!(d && p.unit == TimeUnit::Weeks && p.length == -3, "minus three weeks");
        if d || s == 0 {
            prop!(p.days() == s as f64, "days of a period");
            prop!(p.unit != TimeUnit::Weeks || p.weeks() == p.length as f64, "weeks of a period in weeks");
        }
        if !d || s == 0 {
            prop!(p.months() == s as f64, "months of a period");
            prop!(p.unit != TimeUnit::Years || p.years() == p.length as f64, "years of a period in years");
        }
    }
    //@ rejects
    c07_rejects_conversions(2) {
        let p = period(MAXLEN);
        nd::assume(p.length != 0);
        witness!(p.unit == TimeUnit::Months, "months");
        let days = days_family(&p);
        let which = nd::bool();
        let x = if days {
            if which { p.months() } else { p.years() }
        } else {
            if which { p.days() } else { p.weeks() }
        };
        rejects!(x, "a period converts only within its family of units");
    }
}
