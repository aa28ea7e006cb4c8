

prop("C33", "Arrays combine element by element and only with arrays of their size",
     "The sum, difference, product and quotient of two arrays, and of an array and a number, are those of the elements in the same places, and so are sign, absolute value, root, logarithm, exponential and power; the operands that are lent stay as they were. The dot product adds the products of the elements in order, the norm is the root of the dot product with itself. "
     "Arrays of different sizes are refused by a panic, and so is an element past the end. Arrays are equal exactly if their sizes and elements are; a swap exchanges all of them.",
     ["inputs"], "arrays of up to four elements, every double (NaN, infinities and signed zeros included, zeros up to their sign)",
     "Tests use one triple of small whole numbers per operation; no test has arrays of different sizes.",
     ["src/maths/array.rs"], [("Array", "src/maths/array.rs")],
     "Zero to four elements (functions, equality and rejection: three), any doubles; sqrt, exp, log and pow uninterpreted.", technique=SYMX)

prop("C34", "Curves and stocks derive discounts, forwards and values from their own data",
     "A curve's discount factor at a date is that at the date's time from the reference date, with extrapolation as asked for; its forward rate over a period is that between the date and the date a period later, by the day counter, compounding and frequency asked for. "
     "A curve of zero yields discounts continuously at the yield of the time, and no time at one. A stock is worth the value of its quote.",
     ["inputs"], "curves of any times, discount factors, yields and rates (every double), dates and periods in the bounds",
     "No test builds a curve; the one stock is worth 1.5.",
     ["src/termstructures/yieldtermstructure.rs", "src/termstructures/zeroyieldstructure.rs", "src/instruments/stock.rs", "src/instruments/instrument.rs", "src/quotes/simplequote.rs"],
     [("YieldTermStructure::discount_from_date, forward_rate_from_date_period", "src/termstructures/yieldtermstructure.rs"), ("ZeroYieldStructure::discount", "src/termstructures/zeroyieldstructure.rs"), ("Stock", "src/instruments/stock.rs")],
     "Dates of February 2000, periods of -3..3 days, weeks and months, every compounding rule; exp uninterpreted. Interpolated and bootstrapped curves are unfinished in the library and outside the claim.", technique=SYMX)

prop("C32", "Root finders return a root to the accuracy asked for or refuse",
     "Brent, Newton and finite-difference solvers return, for a function with a change of sign in the bracket (or in the one they find from the guess), a point within the accuracy of a change of sign, inside the bracket and the limits set; they refuse by a panic an accuracy that is not positive, a bracket without change of sign or outside the limits, a guess outside the bracket, and more evaluations than allowed.",
     ["inputs"], "any function, bracket, guess, step and accuracy",
     "Tests solve one quadratic with three solvers.",
     ["src/maths/solvers1d/solver1d.rs", "src/maths/solvers1d/brent.rs", "src/maths/solvers1d/newtonsafe.rs", "src/maths/solvers1d/finitedifferencenewtonsafe.rs"],
     [("Solver1D::solve, solve_bracketed", "src/maths/solvers1d/solver1d.rs")],
     "", na="Tried with symx and given up: each iteration divides and multiplies values of an arbitrary function, and whether a step is kept depends on exact comparisons of those results. With floating-point operations uninterpreted the solver finds spurious branches after two iterations; in z3's floating-point theory a single Newton step does not finish. The searches built on them are decided as far as they do not iterate (C25).")

prop("C35", "IMM codes name exactly the IMM dates they stand for",
     "The code of an IMM date is the letter of its month and the last digit of its year; a text is an IMM code exactly if it has this form; the date of a code is the first such date not before the reference date, and the two directions are inverse.",
     ["inputs"], "every IMM date, every text, every reference date",
     "Tests go through the codes of the main cycle for some reference dates.",
     [D + "imm.rs"], [("IMM::code, date, is_imm_code", D + "imm.rs")],
     "", na="The functions format, upper-case, slice and parse Rust strings; the formatting and Unicode machinery of the standard library explodes in Kani as well as in symx. The date side of IMM is C05.")

prop("C01", "Dates are exactly the proleptic Gregorian days 1900-01-01..2199-12-31",
     "A date can be built from day, month and year exactly when these name a Gregorian day from 1900-01-01 to 2199-12-31, and from a serial number exactly when it is between 2 and 109574; anything else is refused by a panic. "
     "Both constructions agree: the serial number is 2 plus the days since 1900-01-01, and year, month, day of month, day of year, weekday, end of month and leap year are those of the Gregorian calendar.",
     ["inputs"], "every (day, month, year) with u32 day, month 1..12 and i32 year, and every i32 serial number",
     "The tests look at about ten dates; the tables have 301 entries each and one wrong entry shifts every later date.",
     [D + "date.rs", D + "months.rs", D + "weekday.rs"],
     [("Date::new, Date::from_serial", D + "date.rs"), ("year, month and leap-year tables", D + "date.rs"), ("Month and Weekday conversions", D + "months.rs")],
     "All inputs are decided, with no further bound (loops are unrolled completely), against the real chrono and the chrono model.",
     observe=["Date accessors"])

prop("C02", "Adding a period keeps the day or clamps it to the end of the month",
     "Adding or subtracting n months or years moves the date by exactly that many calendar months and keeps the day of the month, or takes the last day of the target month if that day does not exist; n days or weeks move it by n or 7n days. "
     "All operator forms (by value, by reference, in place) agree. A result outside the supported date range, or an intraday unit, is refused by a panic.",
     ["inputs"], "every date and every period: months up to 120 in size (quick; 600 thorough), years up to 299, days and weeks over the whole range",
     "Tests use a handful of dates; leap-day, month-end and year-end combinations with either sign are the cases that go wrong.",
     [D + "date.rs", D + "period.rs"], [("Date::advance and the Add/Sub impls for Period", D + "date.rs")],
     "Every date of 1900..2199; months within +-120 for + and -, +-24 for the other operator forms; years within +-299; days and weeks over the whole range.")

prop("C03", "Dates form a line of days: order, equality, hash and day arithmetic agree",
     "Dates are ordered and equal exactly as the calendar days they name, equal dates hash equally, and the difference of two dates is the number of days between them. "
     "Adding or subtracting n days, by value, by reference or in place, gives the day n days later or earlier with consistent fields, can be undone, and is refused by a panic when it leaves the supported range.",
     ["inputs"], "all pairs of dates and all day counts",
     "Tests add 1 or 10 days to one date.",
     [D + "date.rs"], [("Add/Sub/AddAssign/SubAssign, Ord, Hash", D + "date.rs")],
     "All dates and all day counts between them; rejection for day counts within +-200000.")

prop("C04", "The n-th weekday of a month is the right day or is refused",
     "The n-th given weekday of a month (n from 1 to 5) is the day of that month which falls on that weekday and is the n-th such day; a fifth weekday that the month does not have, and any other n, is refused by a panic.",
     ["inputs"], "every month of 1900..2199, every weekday, every n",
     "No test calls it on more than a few months.",
     [D + "date.rs"], [("Date::nth_weekday", D + "date.rs")],
     "All inputs are decided.")

prop("C05", "IMM dates are third Wednesdays and the next one is the first after a date",
     "A date is an IMM date exactly if it is the third Wednesday of its month (of March, June, September or December in the main cycle). "
     "The next IMM date after a date is later than it, is an IMM date, and no IMM date lies between them; the null date stands for the evaluation date.",
     ["inputs"], "every date of 1900..2198, main cycle or not",
     "The existing test walks the dates of 2000 to 2040 only and checks order rather than that no date is skipped.",
     [D + "imm.rs", D + "date.rs"], [("IMM::is_imm_date, IMM::next_date", D + "imm.rs")],
     "All dates of 1900..2198; the null-date rule for evaluation dates of 1999..2030.")

prop("C06", "Period order, equality and hash follow the time a period stands for",
     "Two periods in units of the same family (days and weeks, or months and years), or of which one is zero, compare by the time they stand for, so 12M == 1Y and 7D == 1W; across families they are ordered whenever their possible day counts do not overlap. "
     "All comparison operators agree with each other, equality is exact and equal periods hash equally. The least and greatest number of days of a non-negative period bound what adding it to any date does.",
     ["inputs"], "every pair of periods in days, weeks, months and years with lengths up to 20,000 in size, and every date",
     "Tests compare a few pairs with small positive lengths; zero and negative lengths and hashing are not reached.",
     [D + "period.rs"], [("PartialOrd, PartialEq, Hash for Period, days_min_max", D + "period.rs")],
     "|length| <= 20,000; the day bounds for dates 1900..2188 and up to 120 months. The order of pairs whose day ranges overlap (30D and 1M) is outside the claim, except that they are never equal nor each less than the other.")

prop("C07", "Period arithmetic, normalisation and frequencies keep the time they stand for",
     "Adding, subtracting, negating, multiplying and dividing periods acts exactly on the time they stand for (in days or in months), and is refused by a panic when the families of units do not mix or the division is not exact. "
     "Normalising changes only the representation: whole years and whole weeks in the larger unit, zero as days, idempotent. A frequency's period has that frequency, a period has the frequency of its length, and conversions to days, weeks, months and years are exact within a family and refused across.",
     ["inputs"], "all pairs of periods with lengths up to 20,000 in size; multipliers up to 50, divisors up to 60; all frequencies",
     "Tests use a few literal periods.",
     [D + "period.rs", D + "frequency.rs"], [("AddAssign, SubAssign, DivAssign, Mul, Neg, normalise, frequency", D + "period.rs")],
     "|length| <= 20,000 (multiplication: |length| <= 2,000, |n| <= 50; division: |length| <= 600, |n| <= 60).")

prop("C08", "The previous twentieth is the latest (quarterly) twentieth up to a date",
     "For every date the previous twentieth is on the 20th of a month, not later than the date, and the latest such day; under the IMM and CDS rules it is moreover in March, June, September or December and the latest such day.",
     ["inputs"], "every date of 1900..2199 from the first such day on, and every rule",
     "No test calls it directly; the schedule tests reach it on a few trade dates.",
     [D + "schedule.rs"], [("previous_twentieth", D + "schedule.rs")],
     "All dates of the range.")

prop("C09", "Rolling a date to a business day picks the day the convention names",
     "Following and Preceding give the nearest business day not before and not after the date; their modified forms do so unless that leaves the month (for the half-month form, also unless it passes the 15th), and then go the other way; Nearest gives the nearest business day and the later of two; Unadjusted leaves the date. "
     "The end of the month on a calendar is the last business day up to the calendar month end, and a date is at the end of its month exactly if the next business day is in another month.",
     ["inputs"], "every date and every choice of four holidays anywhere in the range, all seven conventions",
     "Tests look at a few holidays of real calendars; holidays on both sides of a month end or of the 15th are needed.",
     [D + "calendar.rs"], [("Calendar::adjust, end_of_month, is_end_of_month", D + "calendar.rs")],
     "Dates of 1900-01-09..2199-12-23; a calendar with four arbitrary holidays.", technique=SYMX)

prop("C10", "Advancing on a calendar counts business days, or moves and then adjusts",
     "Advancing a date by n business days gives the n-th business day after it (before it for negative n), whatever the convention. Advancing by weeks, months or years moves the date by the period and adjusts it by the convention; under the end-of-month rule a date at the end of its month goes to the last business day of the target month instead. "
     "Advancing by nothing adjusts the date. The short forms use Following.",
     ["inputs"], "every date and every placement of up to three holidays around where it matters; n within three business days, 100 weeks, and representative months and years",
     "Tests use real calendars and a few dates.",
     [D + "calendar.rs"], [("Calendar::advance_by_days, advance_by_period", D + "calendar.rs")],
     "Days: |n| <= 3 and three holidays among the ten days passed, and n up to 25 either way from a day of any weekday over weekends and one holiday; weeks: |n| <= 100 with three arbitrary holidays; months and years: 1, -18, +-12 (also 5 in the thorough tier) with two holidays within four days of the target.", technique=SYMX)

prop("C11", "Business day counts and holiday lists name exactly the days of the range",
     "business_days_between counts the business days from one date to another, with either end included or not, and negatively when the dates are backwards. The lists of business days and of holidays contain exactly those of the range, in order, with or without weekends as asked, and a backwards range is refused by a panic.",
     ["inputs"], "every range of up to seven days, every placement of up to three holidays",
     "Tests compare counts for a few literal ranges of one calendar; ends that are holidays or backwards ranges are hardly reached.",
     [D + "calendar.rs"], [("business_days_between, business_day_list, holiday_list", D + "calendar.rs")],
     "Counts: ranges of up to seven days anywhere, in both directions, three holidays, and of up to five weeks with one holiday; lists: ranges of up to five days, business days of up to two weeks.", technique=SYMX)

prop("C12", "Added and removed holidays override the market rules until they are reset",
     "A date is a holiday if it was last added, a business day if it was last removed, and as the market rules say otherwise or after a reset. The sets of added and removed holidays hold only real changes, the weekend is not affected, and changing a calendar does not change its copies.",
     ["histories", "inputs"], "every sequence of three operations (add, remove, reset) on any days of five weeks, queried at any of these days",
     "Tests run two fixed sequences.",
     [D + "calendar.rs"], [("add_holiday, remove_holiday, reset_added_and_removed_holidays, is_holiday", D + "calendar.rs")],
     "Sequences of three operations on a weekends-only calendar, days of five weeks.", technique=SYMX)

prop("C13", "The Easter tables are the Gregorian and the Julian computus",
     "For every year from 1900 to 2199 the Easter Monday tables, Western and Orthodox, in both of their copies, give the day of the year after Easter Sunday as computed by the Gregorian and the Julian computus; other years are refused by a panic.",
     ["inputs"], "every year",
     "Tests look at the Good Fridays of a few years.",
     [D + "calendar.rs", D + "holiday.rs"], [("easter_monday, easter_monday_orthodox", D + "calendar.rs"), ("easter_monday, easter_monday_orthodox", D + "holiday.rs")],
     "All i32 years; the tables are decided entry by entry through the code's own lookup.", technique=SYMX)

prop("C14", "European, Brazilian and trivial calendars follow the rules of their markets",
     "A date is a holiday of TARGET, of the UK, Italian, Swiss and Brazilian calendars (settlement, exchange, metals) exactly if it is on a weekend or one of the documented holidays of that market, with the documented shifts and one-off closings. The weekends-only calendar has only Saturdays and Sundays, the null calendar nothing.",
     ["inputs"], "every date of 1900..2199 for each of the eleven calendars",
     "Tests compare the holiday lists of a few years of two calendars.",
     [D + "holidays/target.rs", D + "holidays/unitedkingdom.rs", D + "holidays/italy.rs", D + "holidays/switzerland.rs", D + "holidays/brazil.rs", D + "holidays/weekendsonly.rs", D + "holidays/nilholiday.rs"],
     [("is_business_day of each market", D + "holidays/")],
     "Every date of the range. The rules are written down independently in the harness from the documented holidays.")

prop("C15", "The US calendars follow the rules of their markets, weekend shifts included",
     "A date is a holiday of the US settlement, LIBOR-impact, NYSE, government bond, NERC and Federal Reserve calendars exactly if it is on a weekend or one of the documented holidays of that market, with the shifts to Monday or Friday that market uses, changes of rules over the years and one-off closings.",
     ["inputs"], "every date of 1900..2199 for each of the six calendars",
     "Tests compare the holiday lists of a few years; shifts that move a holiday into another month or year occur once in several years.",
     [D + "holidays/unitedstates.rs"], [("is_business_day of each market and the shared holiday predicates", D + "holidays/unitedstates.rs")],
     "Every date of the range. The rules are written down independently in the harness from the documented holidays.")

prop("C16", "The Japanese calendar follows its documented rules, equinoxes included",
     "A date is a Japanese holiday exactly if it is on a weekend, a documented holiday (moved to Monday from a Sunday, with the changes over the years, the bank holidays, and the one-off days), the computed day of an equinox, or a weekday between two holidays.",
     ["inputs"], "every date of 1900..2199",
     "No test looks at more than a few years.",
     [D + "holidays/japan.rs"], [("is_business_day", D + "holidays/japan.rs")],
     "Every date of the range.")

prop("C17", "The 30/360 and 30/365 day counts follow their conventions at every month end",
     "The 30/360 counts (US, ISMA or bond basis, European, Italian, ISDA or German, NASD) and 30/365 give 360 per year, 30 per month and the days, with the days at month ends and at the ends of February replaced as the convention says, the ISDA count leaving the termination date alone. Fractions are the count over 360 (365), whatever the reference period; the aliases are the conventions they name.",
     ["inputs"], "every pair of dates of the range, and every termination date",
     "Tests compare a handful of literal pairs; combinations of 28, 29, 30 and 31 over February matter.",
     [D + "daycounters/thirty360.rs", D + "daycounters/thirty365.rs", D + "daycounter.rs"], [("day_count, year_fraction of each convention", D + "daycounters/thirty360.rs")],
     "All pairs of dates.", technique=SYMX)

prop("C18", "The day counters on actual days count the days and divide as named",
     "Actual/360 and Actual/366 give the days between the dates, with the last day if asked to, over 360 and 366; 1/1 gives one forwards and minus one backwards; the simple counter gives whole months as twelfths and the bond basis otherwise; Actual/Actual ISDA counts the days of every calendar year over the length of that year, and backwards the negative. None depends on the reference period.",
     ["inputs"], "every pair of dates of the range, and every reference period",
     "Tests compare a few literal pairs; leap years at either end and the last-day flag are not combined.",
     [D + "daycounters/actual360.rs", D + "daycounters/actual366.rs", D + "daycounters/one.rs", D + "daycounters/simple.rs", D + "daycounters/actualactual.rs", D + "daycounter.rs"],
     [("day_count and year_fraction of each counter", D + "daycounters/")],
     "All pairs of dates (Actual/Actual ISDA up to 2198). Fractions bit for bit with the formula.", technique=SYMX)

prop("C19", "Actual/Actual ISMA and AFB follow their rules, on long periods too",
     "Actual/Actual ISMA without a schedule gives, within the reference period, the months of that period over twelve times the days over its days; a long first or last period is split at the quasi coupon dates before or after the reference period; a period below half a month counts in the year from its start; without a reference period it is the period itself. Actual/Actual AFB gives the whole years counted back from the end and the days left over 366 if they contain a leap day, else 365. Backwards is the negative.",
     ["inputs"], "every period within a reference period of 16 to 2400 days; long periods over a reference period of one, three, six and twelve months; AFB up to three years",
     "Tests replay the examples of the ISDA memorandum.",
     [D + "daycounters/actualactual.rs"], [("OldISMA::year_fraction, AFB::year_fraction", D + "daycounters/actualactual.rs")],
     "Within: all dates, 16..2400 days. Long first periods: reference periods starting on any 15th of 2000-2001 (any day in the thorough tier), reaching back one period; long last: reference periods ending 1996..2004, up to three periods beyond. AFB: dates of 1996..2004, up to one whole year (two in the thorough tier).", technique=SYMX)

M = "src/maths/"
C = "src/cashflows/"

prop("C20", "Bounds of sorted sequences are exact and closeness is symmetric in tolerance",
     "lower_bound (upper_bound) of a sorted sequence is the number of elements less than (not greater than) the value. Two numbers are close if they differ by at most 42 (or n) epsilons of both, close enough if of either; next to zero by the square of the tolerance. "
     "Nothing is close to a NaN, every number is close to itself, numbers of different sign are not close.",
     ["inputs"], "every sorted sequence of up to six integers or five numbers, every pair of floating-point numbers",
     "Tests search two literal sequences; closeness is used everywhere and tested on few pairs.",
     [M + "bounds.rs", M + "comparison.rs"], [("lower_bound, upper_bound", M + "bounds.rs"), ("close, close_enough", M + "comparison.rs")],
     "Sequences of up to six integers and up to five floating-point numbers; all pairs of doubles, exactly.", technique=SYMX)

prop("C21", "Rounding keeps to its mode at every number, precision and rounding digit",
     "Up rounds away from zero unless the number is whole at the precision, Down truncates, Closest goes up in size from the rounding digit on, Ceiling truncates positive numbers and rounds negative ones as Closest does, Floor the reverse, None leaves the number alone. Rounding is odd where the mode is.",
     ["inputs"], "every finite number that can be scaled, precisions from -3 to 9, rounding digits from 0 to 10",
     "Tests compare a table of literals, nearly all positive and of digit 5.",
     [M + "rounding.rs"], [("Rounding::round", M + "rounding.rs")],
     "All finite doubles; precision -3..9 (up, down), -1..5 (others), digits 0..10. Bit for bit but for the sign of zeros.", technique=SYMX)

prop("C22", "Interpolations pass through their nodes and follow their formulas between them",
     "Linear interpolation is on the chord of the segment that holds the number, its derivative the slope, its primitive the integral from the first node; beyond the nodes it follows the nearest segment if extrapolation is allowed and is refused by a panic if not. "
     "Lagrange interpolation has the value of the node at (or next to) a node, the barycentric mean between, and the derivative at the nodes.",
     ["inputs"], "every two to four nodes in increasing order with any finite values (two or three for Lagrange), every number",
     "Tests interpolate a few smooth functions on fixed grids; the last segment, nodes at zero and negative nodes are not reached.",
     [M + "interpolations/linearinterpolation.rs", M + "interpolations/lagrangeinterpolation.rs", M + "interpolations/interpolation.rs"],
     [("LinearInterpolation", M + "interpolations/linearinterpolation.rs"), ("LagrangeInterpolation", M + "interpolations/lagrangeinterpolation.rs"), ("locate, is_in_range, check_range", M + "interpolations/interpolation.rs")],
     "Up to four nodes (Lagrange three); values by the stated formulas bit for bit but for the sign of zeros, which nodes are exact decided for all doubles.", technique=SYMX)

prop("C23", "Interest rates compound, discount, imply and convert by their conventions",
     "The compound factor is the growth under the rule (simple, compounded, continuous, simple then compounded, compounded then simple) and frequency, the discount factor its inverse; between dates for the year fraction of the rate's day counter. The implied rate inverts the rule and has the conventions asked for; an equivalent rate is implied by the compound factor, each side with its own day counter. "
     "Missing frequencies, negative times, dates out of order and impossible growths are refused by a panic.",
     ["inputs"], "every rate, time and growth, all rules and ten frequencies; every pair of dates",
     "Tests replay a table of literal cases to a tolerance.",
     ["src/rates/interestrate.rs"], [("InterestRate", "src/rates/interestrate.rs")],
     "All finite doubles; exp, log and pow as uninterpreted functions. Formulas bit for bit but for the sign of zeros.", technique=SYMX)

prop("C24", "Cash flows occur, trade ex-coupon and accrue at the right dates, shared or not",
     "A cash flow has occurred at dates after its own, and on its own unless payments of that day count; a coupon trades ex-coupon from its ex-coupon date on. The accrued amount of a fixed-rate coupon is nothing before its start and after its payment, the interest since the start until the accrual end, and ex-coupon minus the interest left. "
     "A leg's next flow is the first that has not occurred, its accrual is that of all coupons paid then, its maturity the latest date. A shared pointer to a cash flow answers as the cash flow.",
     ["inputs"], "every date; legs of up to three flows in order with any dates and amounts",
     "Tests check a couple of bonds on a handful of dates.",
     [C + "cashflow.rs", C + "coupon.rs", C + "fixedratecoupon.rs", C + "simplecashflow.rs"],
     [("CashFlow, CashFlows", C + "cashflow.rs"), ("Coupon", C + "coupon.rs"), ("FixedRateCoupon", C + "fixedratecoupon.rs"), ("SimpleCashFlow, Redemption, AmortizingPayment", C + "simplecashflow.rs")],
     "All dates of the range but the first, which stands for none; legs of up to three flows (next: four); Actual/360 and, with reference periods, Actual/Actual ISMA.", technique=SYMX)

prop("C25", "Value, duration and yield of cash flows count every live flow once, in order",
     "The value of a leg at a yield is the sum of the flows that have not occurred at the settlement date and do not trade ex-coupon, each discounted stepwise from the flow before; the steps count in the coupon's reference period. Without a date the valuation date is the settlement date. "
     "The modified duration is minus the derivative of the value over the value. The yield search starts from a price that flows of that sign can have and looks for the rate whose value it is, with the duration as the slope.",
     ["inputs"], "legs of up to three flows in date order, any amounts, dates and yields, five compounding rules, payments of the day included or not",
     "Tests price one bond at a few yields.",
     [C + "cashflow.rs", C + "irrfinder.rs", "src/pricingengines/bond/bondfunctions.rs"],
     [("CashFlows::npv, modified_duration, get_stepwise_discount_time", C + "cashflow.rs"), ("IRRFinder", C + "irrfinder.rs"), ("BondFunctions", "src/pricingengines/bond/bondfunctions.rs")],
     "Up to three flows (duration: two), semiannual frequency; exp and pow as uninterpreted functions; formulas bit for bit but for the sign of zeros. Reference periods in 2023.", technique=SYMX)

prop("C26", "Schedules have the dates of their rule, stubs and end-of-month rule included",
     "A forward (backward) schedule counts whole tenors from the effective (back from the termination) date, or from the first (next-to-last) date if there is one, up to the other end; short periods at the ends are the irregular ones. Under the end-of-month rule a schedule from a month end keeps to month ends (business ones if adjusted). "
     "Dates are adjusted by the convention, the last by its own, and dates that collapse are dropped. The zero rule has the two ends only; without an effective date a backward schedule goes back to the evaluation date. Dates out of order and combinations of rules that exclude each other are refused by a panic.",
     ["inputs"], "effective and termination dates on any day of the months in the bounds, first and next-to-last dates on any day between, five tenors, five pairs of conventions",
     "Tests compare a dozen schedules; which days of the month meet a stub, a month end and a weekend is what matters.",
     [D + "schedule.rs"], [("Schedule::new", D + "schedule.rs")],
     "Dates of 1999-10..2001; up to three whole periods and a stub (five dates); adjusted schedules on the weekends-only calendar with up to four dates; the zero, forward and backward rules (the others: C27).", technique=SYMX)

prop("C27", "CDS, twentieth and third-Wednesday schedules and CDS maturities keep their rules",
     "Schedules by the Twentieth, TwentiethIMM, OldCDS, CDS and CDS2015 rules run from the effective date (CDS: from the start of the coupon period that has begun, one more back if that is adjusted past the effective date) over the twentieths of the tenor's months, to the first one not before the termination date; an old CDS joins a stub of less than thirty days with the next period. "
     "Third-Wednesday schedules move the inner (or all) dates of a forward schedule to the third Wednesdays. The CDS maturity is the twentieth a tenor after the current quarter (since 2015 half-year); other tenors and rules are refused by a panic.",
     ["inputs"], "effective and termination dates on any day of the months in the bounds, five pairs of conventions",
     "Tests check CDS schedules and maturities on some trade dates.",
     [D + "schedule.rs", "src/instruments/creditdefaultswap.rs"],
     [("Schedule::new, next_twentieth, previous_twentieth", D + "schedule.rs"), ("cds_maturity", "src/instruments/creditdefaultswap.rs")],
     "Effective dates of three months and terms of up to nine months, unadjusted; two months (2000 and 2004) and terms of four or five months on the weekends-only calendar. Maturities: trade dates of 2015-2016, tenors of zero to five quarters or years.", technique=SYMX)

prop("C28", "Schedules are searched, cut, built and asked for regularity consistently",
     "The next date of a schedule is its first date not before the one asked for, the previous date the last before it, or the null date if there is none; the null date asks for the evaluation date. A schedule cut after (until) a date keeps the dates from (up to) it, with the date itself as the first (last) one, and the period at the cut irregular if the date was none of the schedule; the tenor, the convention and the schedule itself stay as they are. "
     "Cuts that leave nothing and periods that do not exist are refused by a panic. A builder makes the schedule of what it was given, with defaults for the rest.",
     ["inputs"], "schedules on days of the months in the bounds with irregular ends; every query date around them",
     "Tests do not cut schedules at all and look up few dates.",
     [D + "schedule.rs"], [("Schedule::after, until, next_date, previous_date, is_regular", D + "schedule.rs"), ("ScheduleBuilder", D + "schedule.rs")],
     "Schedules of up to four dates on any day of the months in the bounds; queries in the months around them. Builder: all combinations of six options on eight pairs of dates.", technique=SYMX)

prop("C29", "A fixed-rate leg has one coupon per period with its terms, dates and payment",
     "The coupons of a leg run from each date of the schedule to the next and have the nominal and the rate of their place, or the last ones given once they run out; the first and last coupon may have their own day counter. They are paid the payment lag after the end of the period, adjusted on the payment calendar, and trade ex-coupon the ex-coupon period before that, adjusted in its own way. Irregular first and last coupons have the whole regular period that ends or starts with them as the reference period. "
     "What is set replaces what was there; a leg without a nominal or without a rate is refused by a panic.",
     ["inputs"], "schedules on days of the months in the bounds with irregular ends, any nominals and rates",
     "Tests see legs only through the prices of a few bonds.",
     [C + "fixedrateleg.rs", C + "fixedratecoupon.rs"], [("FixedRateLeg", C + "fixedrateleg.rs"), ("FixedRateCoupon", C + "fixedratecoupon.rs")],
     "Up to three coupons, one to four nominals and rates; five payment lags and conventions; null and weekends-only calendars.", technique=SYMX)

prop("C30", "Bonds pay coupons and redemption, settle, accrue and mature on their dates",
     "A fixed-rate bond pays the coupons of its leg and then, with the last, the redemption per hundred of the face amount; a zero-coupon bond pays the redemption at the adjusted maturity. The notional is the face amount until then and changes on the dates of the notional schedule; a bond trades while it has a notional and matures at the end of its schedule. It settles its settlement days after the trade, not before the issue. "
     "Accrued amount, dirty and clean price are those of the flows per hundred of the notional, the clean price without the accrued amount; a bond without a notional accrues nothing and has no price or yield (a panic). The price at a discount yield is simple interest over 360 days.",
     ["inputs"], "any face amount, rate and redemption; schedules and dates on days of the months in the bounds; notional schedules of up to three changes on any dates",
     "Tests price two bonds on fixed dates.",
     ["src/instruments/bond.rs", "src/instruments/fixedratebond.rs", "src/instruments/zerocouponbond.rs", "src/pricingengines/bond/bondfunctions.rs"],
     [("Bond", "src/instruments/bond.rs"), ("FixedRateBond", "src/instruments/fixedratebond.rs"), ("ZeroCouponBond", "src/instruments/zerocouponbond.rs"), ("dirty_price, accrued_amount", "src/pricingengines/bond/bondfunctions.rs")],
     "Up to three coupons, settlement days 0..3; prices for one coupon and redemption under continuous compounding, exp uninterpreted. The yield search is that of C25.", technique=SYMX)

prop("C31", "Actual/Actual ISMA with a schedule counts by its periods, whole or irregular",
     "The year fraction between two dates of a schedule adds up the parts of its periods, each as the days in it over the days of the period, times the length of the period in years. An irregular first or last period is part of the regular one that ends or starts at its inner date, and of the one beyond if it is longer. "
     "Backwards the fraction is the negative, a reference period does not count, and dates outside the schedule are refused by a panic.",
     ["inputs"], "schedules with short and long ends, all pairs of dates within",
     "Tests compare literal fractions; schedules with both ends irregular are not among them.",
     [D + "daycounters/actualactual.rs"], [("ISMA", D + "daycounters/actualactual.rs")],
     "Concrete schedules of two or three regular periods with short or long stubs at either or both ends, on days chosen by the solver; all pairs of dates within.", technique=SYMX)
