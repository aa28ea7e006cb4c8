//@ engine=symx
//! C21: rounding.
use crate::gen::*;
use crate::nd;
use rust_quantlib::maths::rounding::Rounding;

/// A number, a precision and a rounding digit: the magnitude scaled by the precision, its whole part
/// and the rest
fn draw(p: i32) -> (f64, f64, f64, f64) {
    let v = nd::f64();
    nd::assume(v.is_finite());
    let mult = 10_f64.powf(p as f64);
    let s = v.abs() * mult;
    nd::assume(s.is_finite());
    (v, mult, s - s.fract(), s.fract())
}

/// The scaled magnitude `whole`, one more if `up`, scaled back with the sign of `v`
fn back(v: f64, mult: f64, whole: f64, up: bool) -> f64 {
    let w = if up { whole + 1.0 } else { whole };
    if v < 0.0 {
        -(w / mult)
    } else {
        w / mult
    }
}

fn digit() -> i32 {
    nd::each(nd::int(0, 10))
}

harnesses! {
    c21_none(2) {
        let v = nd::f64();
        prop!(Rounding::none().round(v).to_bits() == v.to_bits(), "no rounding leaves the number alone");
        witness!(v < 0.0, "negative");
    }
    c21_up(2) {
        let p = nd::each(nd::int(-3, 9));
        let ((v, mult, whole, rest), d) = (draw(p), nd::i32());
        prop!(nd::same(Rounding::up(p, d).round(v), back(v, mult, whole, rest != 0.0)), "rounding up goes away from zero unless the number is whole");
        witness!(p == 2 && rest != 0.0, "not whole");
    }
    c21_down(2) {
        let p = nd::each(nd::int(-3, 9));
        let ((v, mult, whole, rest), d) = (draw(p), nd::i32());
        prop!(nd::same(Rounding::down(p, d).round(v), back(v, mult, whole, false)), "rounding down truncates");
        witness!(p == 2 && rest != 0.0, "not whole");
    }
    c21_closest(2) {
        let (p, d) = (nd::each(nd::int(-1, 5)), digit());
        let (v, mult, whole, rest) = draw(p);
        prop!(nd::same(Rounding::closest(p, d).round(v), back(v, mult, whole, rest >= d as f64 / 10.0)), "the closest rounding goes up from the rounding digit");
        witness!(p == 2 && v < 0.0 && d == 5, "negative");
    }
    c21_ceiling(2) {
        let (p, d) = (nd::each(nd::int(-1, 5)), digit());
        let (v, mult, whole, rest) = draw(p);
        prop!(nd::same(Rounding::ceiling(p, d).round(v), back(v, mult, whole, v < 0.0 && rest >= d as f64 / 10.0)), "the ceiling truncates positive numbers and rounds negative ones");
        witness!(p == 2 && v < 0.0 && d == 5, "negative");
    }
    c21_floor(2) {
        let (p, d) = (nd::each(nd::int(-1, 5)), digit());
        let (v, mult, whole, rest) = draw(p);
        prop!(nd::same(Rounding::floor(p, d).round(v), back(v, mult, whole, v >= 0.0 && rest >= d as f64 / 10.0)), "the floor truncates negative numbers and rounds positive ones");
        witness!(p == 2 && v < 0.0 && d == 5, "negative");
    }
    c21_shape(2) {
        let p = nd::each(nd::int(0, 4));
        let (v, mult, whole, rest) = draw(p);
        let d = nd::each(nd::int(1, 9));
        let r = if nd::bool() { Rounding::closest(p, d) } else if nd::bool() { Rounding::up(p, d) } else { Rounding::down(p, d) };
        nd::assume(v != 0.0);
        prop!(nd::same(r.round(-v), -r.round(v)), "rounding is odd");
        witness!(p == 2 && v < 0.0 && d == 5, "negative");
    }
}
