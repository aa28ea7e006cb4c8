//! C08: twentieth-of-the-month dates of credit-derivative schedules.
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{date::Date, dategenerationrule::DateGenerationRule, schedule::previous_twentieth};

fn previous(rule: DateGenerationRule, quarterly: bool) {
    let (y, m, d) = ymd(1900, 2199);
    let dt = Date::new(d, m.into(), y);
    let step = if quarterly { 3 } else { 1 };
    nd::assume(y > 1900 || m > 3 || (m == 3 && d >= 20) || (!quarterly && (m > 1 || d >= 20)));
    witness!(d == 19 && m == 3, "just before a twentieth");
    witness!(d == 20 && m == 12, "a twentieth");
    let r = previous_twentieth(&dt, rule);
    let (y2, m2, d2) = (r.year(), r.month() as i32, r.day_of_month());
    prop!(d2 == 20, "previous_twentieth is a twentieth");
    prop!(!quarterly || m2 % 3 == 0, "previous_twentieth is in a quarterly month for the IMM and CDS rules");
    prop!(r <= dt, "previous_twentieth is not later than the date");
    let k = y2 * 12 + (m2 - 1) + step;
    // the next candidate twentieth is later than the date: (year, month, 20) > (y, m, d)
    let k0 = y * 12 + (m - 1);
    prop!(k > k0 || (k == k0 && d < 20), "previous_twentieth is the latest one");
}

harnesses! {
    c08_previous_twentieth_imm(4) { previous(DateGenerationRule::TwentiethIMM, true) }
    c08_previous_twentieth_cds(4) { previous(DateGenerationRule::CDS, true) }
    c08_previous_twentieth_cds2015(4) { previous(DateGenerationRule::CDS2015, true) }
    c08_previous_twentieth_oldcds(4) { previous(DateGenerationRule::OldCDS, true) }
    c08_previous_twentieth_plain(4) { previous(DateGenerationRule::Twentieth, false) }
}
