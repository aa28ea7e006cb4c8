//@ engine=symx
//! C20: searching sorted sequences, and closeness of floating-point numbers.
use crate::gen::*;
use crate::nd;
use rust_quantlib::maths::{
    bounds::{lower_bound, upper_bound},
    comparison::{close, close_enough, close_n},
};

const TOL: f64 = 42.0 * f64::EPSILON;

/// The rule documented for closeness: within the tolerance of both (`all`) or of either number; next
/// to zero, within the square of the tolerance
fn near(x: f64, y: f64, tol: f64, all: bool) -> bool {
    if x == y {
        return true;
    }
    let d = (x - y).abs();
    if x == 0.0 || y == 0.0 {
        return d < tol * tol;
    }
    if all {
        d <= tol * x.abs() && d <= tol * y.abs()
    } else {
        d <= tol * x.abs() || d <= tol * y.abs()
    }
}

fn sorted_ints() -> ([i32; 6], usize) {
    let mut a = [0; 6];
    for i in 0..6 {
        a[i] = nd::i32();
        if i > 0 {
            nd::assume(a[i - 1] <= a[i]);
        }
    }
    (a, nd::each(nd::int(0, 6)) as usize)
}

fn sorted_floats() -> ([f64; 5], usize) {
    let mut a = [0.0; 5];
    for i in 0..5 {
        a[i] = nd::f64();
        nd::assume(!a[i].is_nan());
        if i > 0 {
            nd::assume(a[i - 1] <= a[i]);
        }
    }
    (a, nd::each(nd::int(0, 5)) as usize)
}

harnesses! {
    c20_lower_bound(8) {
        let ((a, n), v) = (sorted_ints(), nd::i32());
        let r = lower_bound(&a[..n], v);
        prop!(r <= n, "the lower bound is an index or the length");
        for i in 0..n {
            prop!((i < r) == (a[i] < v), "exactly the elements before the lower bound are less than the value");
        }
        witness!(n == 6 && r == 3 && a[3] == v, "a value of the sequence");
        witness!(n == 6 && r == 6, "a value after the sequence");
        witness!(n == 0, "an empty sequence");
    }
    c20_upper_bound(8) {
        let ((a, n), v) = (sorted_ints(), nd::i32());
        let r = upper_bound(&a[..n], v);
        prop!(r <= n, "the upper bound is an index or the length");
        for i in 0..n {
            prop!((i < r) == (a[i] <= v), "exactly the elements before the upper bound are not greater than the value");
        }
        prop!(lower_bound(&a[..n], v) <= r, "the lower bound is not after the upper one");
        witness!(n == 6 && r == 3 && a[2] == v && a[1] == v, "a repeated value of the sequence");
        witness!(n == 6 && r == 6, "a value not before the last");
    }
    c20_float_bounds(8) {
        let ((a, n), v) = (sorted_floats(), nd::f64());
        nd::assume(!v.is_nan());
        let (l, u) = (lower_bound(&a[..n], v), upper_bound(&a[..n], v));
        prop!(l <= u && u <= n, "the bounds are indices in order");
        for i in 0..n {
            prop!((i < l) == (a[i] < v), "exactly the elements before the lower bound are less than the value");
            prop!((i < u) == (a[i] <= v), "exactly the elements before the upper bound are not greater than the value");
        }
        witness!(n == 5 && l == 1 && u == 3, "a value that occurs twice");
    }
    c20_close(2) {
        let (x, y) = (nd::f64(), nd::f64());
        let c = close(x, y);
        prop!(c == near(x, y, TOL, true), "close numbers are within 42 epsilons of both");
        prop!(c == close_n(x, y, 42), "the default tolerance is 42 epsilons");
        let n = nd::usize();
        nd::assume(n <= 1 << 40);
        prop!(close_n(x, y, n) == near(x, y, n as f64 * f64::EPSILON, true), "the tolerance is n epsilons");
        witness!(c && x != y, "close but different");
        witness!(!c, "not close");
    }
    c20_close_enough(2) {
        let (x, y) = (nd::f64(), nd::f64());
        let c = close_enough(x, y);
        prop!(c == near(x, y, TOL, false), "numbers are close enough within 42 epsilons of either");
        prop!(!close(x, y) || c, "close numbers are close enough");
        witness!(c && x != y, "close but different");
        witness!(!c, "not close");
    }
    //@ ptimeout=60
    c20_close_relation(2) {
        let (x, y) = (nd::f64(), nd::f64());
        if x.is_nan() || y.is_nan() {
            prop!(!close(x, y) && !close_enough(x, y), "nothing is close to a NaN");
        } else {
            prop!(close(x, x) && close_enough(x, x), "a number is close to itself");
            prop!(!(x > 0.0 && y < 0.0 && x.is_finite()) || !close(x, y), "numbers of different sign are not close");
            prop!(!(x.is_infinite() && y.is_finite()) || !close(x, y) , "nothing finite is close to an infinity");
        }
        witness!(x.is_nan(), "not a number");
        witness!(x > 0.0 && y < 0.0, "different signs");
    }
}
