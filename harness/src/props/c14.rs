//! C14: European, Brazilian and trivial calendars.
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{
    calendar::{self, Calendar},
    date::Date,
    holidays::{
        brazil::Brazil, italy::Italy, nilholiday::NilHoliday, switzerland::Switzerland, target::Target,
        unitedkingdom::UnitedKingdom, weekendsonly::WeekendsOnly,
    },
};

pub const SAT: i32 = 0;
pub const SUN: i32 = 1;
pub const MON: i32 = 2;
pub const TUE: i32 = 3;
pub const WED: i32 = 4;
pub const THU: i32 = 5;
pub const FRI: i32 = 6;

/// A day as the rules see it
pub struct Day {
    pub y: i32,
    pub m: i32,
    pub d: i32,
    /// day of the week, as above
    pub w: i32,
    /// days after Easter Monday (whose table is the subject of C13)
    pub e: i32,
}

impl Day {
    pub fn of(x: &Date) -> Self {
        let (y, m, d) = (x.year(), x.month() as i32, x.day_of_month() as i32);
        Day { y, m, d, w: x.serial_number() % 7, e: month_start(y, m) as i32 + d - calendar::easter_monday(y) as i32 }
    }
    pub fn weekend(&self) -> bool {
        self.w == SAT || self.w == SUN
    }
    pub fn on(&self, d: i32, m: i32) -> bool {
        self.m == m && self.d == d
    }
    pub fn once(&self, d: i32, m: i32, y: i32) -> bool {
        self.on(d, m) && self.y == y
    }
    /// on day `d`, or the Monday after when that is a Sunday
    pub fn sunday_to_monday(&self, d: i32, m: i32) -> bool {
        self.on(d, m) || (self.on(d + 1, m) && self.w == MON)
    }
    /// and the Friday before when it is a Saturday
    pub fn observed(&self, d: i32, m: i32) -> bool {
        self.sunday_to_monday(d, m) || (self.on(d - 1, m) && self.w == FRI)
    }
    /// the `n`-th weekday `w` of the month
    pub fn nth(&self, n: i32, w: i32, m: i32) -> bool {
        self.m == m && self.w == w && self.d > 7 * (n - 1) && self.d <= 7 * n
    }
    /// the last weekday `w` of a month of 31 days
    pub fn last31(&self, w: i32, m: i32) -> bool {
        self.m == m && self.w == w && self.d > 24
    }
}

/// Compares a calendar with a rule on every date
pub fn agrees(c: &Calendar, rule: fn(&Day) -> bool) -> (Day, bool) {
    let x = date();
    let d = Day::of(&x);
    let h = rule(&d);
    prop!(c.is_holiday(&x) == h, "a date is a holiday exactly by the rules of the market");
    prop!(c.is_weekend(x.weekday()) == d.weekend(), "Saturdays and Sundays are the weekend");
    (d, h)
}

fn target(x: &Day) -> bool {
    x.weekend() || x.on(1, 1) || x.on(25, 12)
        || (x.y >= 2000 && (x.e == -3 || x.e == 0 || x.on(1, 5) || x.on(26, 12)))
        || x.once(31, 12, 1998) || x.once(31, 12, 1999) || x.once(31, 12, 2001)
}

fn uk(x: &Day) -> bool {
    // substitutes of New Year's Day, Christmas and Boxing Day on the weekend
    let new_year = x.on(1, 1) || ((x.on(2, 1) || x.on(3, 1)) && x.w == MON);
    let xmas = x.on(25, 12) || x.on(26, 12) || ((x.on(27, 12) || x.on(28, 12)) && (x.w == MON || x.w == TUE));
    let may = if x.y == 1995 || x.y == 2020 { x.on(8, 5) } else { x.nth(1, MON, 5) };
    let spring = match x.y {
        2002 => x.on(3, 6) || x.on(4, 6),
        2012 => x.on(4, 6) || x.on(5, 6),
        2022 => x.on(2, 6) || x.on(3, 6),
        _ => x.last31(MON, 5),
    };
    x.weekend() || new_year || x.e == -3 || x.e == 0 || may || spring || x.last31(MON, 8) || xmas
        || x.once(31, 12, 1999) || x.once(29, 4, 2011) || x.once(19, 9, 2022) || x.once(8, 5, 2023)
}

fn italy_settlement(x: &Day) -> bool {
    x.weekend() || x.on(1, 1) || x.on(6, 1) || x.e == 0 || x.on(25, 4) || x.on(1, 5)
        || (x.on(2, 6) && x.y >= 2000) || x.on(15, 8) || x.on(1, 11) || x.on(8, 12) || x.on(25, 12) || x.on(26, 12)
        || x.once(31, 12, 1999)
}

fn italy_exchange(x: &Day) -> bool {
    x.weekend() || x.on(1, 1) || x.e == -3 || x.e == 0 || x.on(1, 5) || x.on(15, 8) || x.on(24, 12) || x.on(25, 12)
        || x.on(26, 12) || x.on(31, 12)
}

fn swiss(x: &Day) -> bool {
    x.weekend() || x.on(1, 1) || x.on(2, 1) || x.e == -3 || x.e == 0
        // Ascension is a Thursday, 39 days after Easter Sunday; Whit Monday 50 days after it
        || x.e == 38 || x.e == 49
        || x.on(1, 5) || x.on(1, 8) || x.on(25, 12) || x.on(26, 12)
}

fn brazil(x: &Day) -> bool {
    x.weekend() || x.on(1, 1) || x.on(21, 4) || x.on(1, 5) || x.on(7, 9) || x.on(12, 10) || x.on(2, 11) || x.on(15, 11)
        || x.on(25, 12)
        // Good Friday, Carnival, Corpus Christi
        || x.e == -3 || x.e == -49 || x.e == -48 || x.e == 59
}

fn bovespa(x: &Day) -> bool {
    brazil(x) || x.on(25, 1) || x.on(9, 7) || (x.on(20, 11) && x.y >= 2007) || x.on(24, 12)
        // the last business day of the year
        || x.on(31, 12) || ((x.on(29, 12) || x.on(30, 12)) && x.w == FRI)
}

fn weekend(x: &Day) -> bool {
    x.weekend()
}

harnesses! {
    #[kani::stub(std::hash::RandomState::new, crate::gen::hash_state)]
    c14_target(2) {
        let (d, h) = agrees(&Target::new(), target);
        witness!(h && d.e == -3, "Good Friday");
        witness!(!h && d.e == 0, "Easter Monday before 2000");
    }
    #[kani::stub(std::hash::RandomState::new, crate::gen::hash_state)]
    c14_uk(2) {
        let (d, h) = agrees(&UnitedKingdom::new(), uk);
        witness!(h && d.d == 28 && d.w == TUE, "Boxing Day moved");
    }
    #[kani::stub(std::hash::RandomState::new, crate::gen::hash_state)]
    c14_uk_exchange(2) {
        let (d, h) = agrees(&UnitedKingdom::exchange(), uk);
        witness!(h && d.d == 28 && d.w == TUE, "Boxing Day moved");
    }
    #[kani::stub(std::hash::RandomState::new, crate::gen::hash_state)]
    c14_uk_metals(2) {
        let (d, h) = agrees(&UnitedKingdom::metals(), uk);
        witness!(h && d.d == 28 && d.w == TUE, "Boxing Day moved");
    }
    #[kani::stub(std::hash::RandomState::new, crate::gen::hash_state)]
    c14_italy(2) {
        let (d, h) = agrees(&Italy::new(), italy_settlement);
        witness!(h && d.m == 6 && d.w == MON, "Republic Day");
    }
    #[kani::stub(std::hash::RandomState::new, crate::gen::hash_state)]
    c14_italy_exchange(2) {
        let (d, h) = agrees(&Italy::exchange(), italy_exchange);
        witness!(h && d.e == -3, "Good Friday");
    }
    #[kani::stub(std::hash::RandomState::new, crate::gen::hash_state)]
    c14_switzerland(2) {
        let (d, h) = agrees(&Switzerland::new(), swiss);
        witness!(h && d.e == 49, "Whit Monday");
    }
    #[kani::stub(std::hash::RandomState::new, crate::gen::hash_state)]
    c14_brazil(2) {
        let (d, h) = agrees(&Brazil::new(), brazil);
        witness!(h && d.e == 59, "Corpus Christi");
    }
    #[kani::stub(std::hash::RandomState::new, crate::gen::hash_state)]
    c14_brazil_exchange(2) {
        let (d, h) = agrees(&Brazil::exchange(), bovespa);
        witness!(h && d.m == 12 && d.d == 29 && d.w == FRI, "last business day of the year");
    }
    #[kani::stub(std::hash::RandomState::new, crate::gen::hash_state)]
    c14_weekends_only(2) {
        let (_, h) = agrees(&WeekendsOnly::new(), weekend);
        witness!(h, "a weekend");
    }
    #[kani::stub(std::hash::RandomState::new, crate::gen::hash_state)]
    c14_nil(2) {
        let x = date();
        prop!(!NilHoliday::new().is_holiday(&x), "NilHoliday has no holidays");
        prop!(!NilHoliday::new().is_weekend(x.weekday()), "and no weekend");
        witness!(x.serial_number() % 7 == SUN, "a Sunday");
    }
}
