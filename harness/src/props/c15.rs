//! C15: the calendars of the United States.
use super::c14::*;
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::holidays::unitedstates::UnitedStates;

fn washington(x: &Day) -> bool {
    if x.y >= 1971 { x.nth(3, MON, 2) } else { x.observed(22, 2) }
}
fn memorial(x: &Day) -> bool {
    if x.y >= 1971 { x.last31(MON, 5) } else { x.observed(30, 5) }
}
fn juneteenth(x: &Day) -> bool {
    x.y >= 2022 && x.observed(19, 6)
}
fn king(x: &Day, since: i32) -> bool {
    x.y >= since && x.nth(3, MON, 1)
}
fn columbus(x: &Day) -> bool {
    x.y >= 1971 && x.nth(2, MON, 10)
}
fn thanksgiving(x: &Day) -> bool {
    x.nth(4, THU, 11)
}
fn veterans(x: &Day, saturday_to_friday: bool) -> bool {
    if x.y > 1970 && x.y < 1978 {
        x.nth(4, MON, 10)
    } else if saturday_to_friday {
        x.observed(11, 11)
    } else {
        x.sunday_to_monday(11, 11)
    }
}
/// Those of every calendar: New Year, Memorial Day, Labor Day, Thanksgiving
fn common(x: &Day) -> bool {
    x.weekend() || x.sunday_to_monday(1, 1) || memorial(x) || x.nth(1, MON, 9) || thanksgiving(x)
}

fn settlement(x: &Day) -> bool {
    common(x) || (x.on(31, 12) && x.w == FRI) || king(x, 1983) || washington(x) || juneteenth(x) || x.observed(4, 7)
        || columbus(x) || veterans(x, true) || x.observed(25, 12)
}

fn libor(x: &Day) -> bool {
    // since 2015 Independence Day counts only where it falls
    settlement(x) && !(x.y >= 2015 && ((x.on(5, 7) && x.w == MON) || (x.on(3, 7) && x.w == FRI)))
}

fn nyse(x: &Day) -> bool {
    let election = x.nth(1, TUE, 11) && (x.y <= 1968 || (x.y <= 1980 && x.y % 4 == 0));
    let doy = month_start(x.y, x.m) as i32 + x.d;
    let closed = x.once(5, 12, 2018) || x.once(29, 10, 2012) || x.once(30, 10, 2012) || x.once(2, 1, 2007)
        || x.once(11, 6, 2004) || (x.y == 2001 && x.m == 9 && x.d >= 11 && x.d <= 14) || x.once(27, 4, 1994)
        || x.once(27, 9, 1985) || x.once(14, 7, 1977) || x.once(25, 1, 1973) || x.once(28, 12, 1972)
        || x.once(21, 7, 1969) || x.once(31, 3, 1969) || x.once(10, 2, 1969) || x.once(5, 7, 1968)
        || (x.y == 1968 && doy >= 163 && x.w == WED)
        || x.once(9, 4, 1968) || x.once(25, 11, 1963) || x.once(29, 5, 1961) || x.once(26, 12, 1958)
        || x.once(24, 12, 1954) || x.once(24, 12, 1956) || x.once(24, 12, 1965);
    common(x) || washington(x) || x.e == -3 || juneteenth(x) || x.observed(4, 7) || x.observed(25, 12) || king(x, 1998)
        || election || closed
}

fn bonds(x: &Day) -> bool {
    common(x) || king(x, 1983) || washington(x) || (x.e == -3 && x.y != 2015) || juneteenth(x) || x.observed(4, 7)
        || columbus(x) || veterans(x, false) || x.observed(25, 12)
        || x.once(5, 12, 2018) || x.once(30, 10, 2012) || x.once(11, 6, 2004)
}

fn nerc(x: &Day) -> bool {
    common(x) || x.sunday_to_monday(4, 7) || x.sunday_to_monday(25, 12)
}

fn fed(x: &Day) -> bool {
    common(x) || king(x, 1983) || washington(x) || juneteenth(x) || x.sunday_to_monday(4, 7) || columbus(x)
        || veterans(x, false) || x.sunday_to_monday(25, 12)
}

harnesses! {
    #[kani::stub(std::hash::RandomState::new, crate::gen::hash_state)]
    c15_settlement(2) {
        let (d, h) = agrees(&UnitedStates::settlement(), settlement);
        witness!(h && d.m == 11 && d.d == 10, "Veterans Day moved");
        witness!(h && d.m == 5 && d.d == 29 && d.w == FRI, "Memorial Day moved");
    }
    #[kani::stub(std::hash::RandomState::new, crate::gen::hash_state)]
    c15_libor(2) {
        let (d, h) = agrees(&UnitedStates::libor_impact(), libor);
        witness!(!h && d.m == 7 && d.d == 5 && d.w == MON, "Independence Day on a Sunday");
    }
    #[kani::stub(std::hash::RandomState::new, crate::gen::hash_state)]
    c15_nyse(2) {
        let (d, h) = agrees(&UnitedStates::nyse(), nyse);
        witness!(h && d.y == 1968 && d.w == WED, "paperwork crisis");
        witness!(h && d.y == 1980 && d.m == 11 && d.w == TUE, "election day");
    }
    #[kani::stub(std::hash::RandomState::new, crate::gen::hash_state)]
    c15_government_bond(2) {
        let (d, h) = agrees(&UnitedStates::government_bond(), bonds);
        witness!(!h && d.e == -3, "Good Friday of 2015");
    }
    #[kani::stub(std::hash::RandomState::new, crate::gen::hash_state)]
    c15_nerc(2) {
        let (d, h) = agrees(&UnitedStates::nerc(), nerc);
        witness!(h && d.m == 7, "Independence Day");
    }
    #[kani::stub(std::hash::RandomState::new, crate::gen::hash_state)]
    c15_federal_reserve(2) {
        let (d, h) = agrees(&UnitedStates::federal_reserve(), fed);
        witness!(h && d.m == 6 && d.d == 18, "Juneteenth moved");
    }
}
