//@ engine=symx
//! C22: interpolation.
use crate::gen::*;
use crate::nd;
use rust_quantlib::maths::comparison::{close, close_enough};
use rust_quantlib::maths::interpolations::{
    interpolation::Interpolation, lagrangeinterpolation::LagrangeInterpolation, linearinterpolation::LinearInterpolation,
};

const N: usize = 4;

fn number() -> f64 {
    let v = nd::f64();
    nd::assume(v.is_finite());
    v
}

/// Nodes in increasing order with their values
fn nodes() -> ([f64; N], [f64; N], usize) {
    let (mut x, mut y) = ([0.0; N], [0.0; N]);
    for i in 0..N {
        x[i] = number();
        y[i] = number();
        if i > 0 {
            nd::assume(x[i - 1] < x[i]);
        }
    }
    (x, y, nd::each(nd::int(2, N as i32)) as usize)
}

/// The segment of x: the last node not after x that starts one, the first segment before all nodes
fn segment(x: &[f64], v: f64) -> usize {
    let mut k = 0;
    for i in 1..x.len() - 1 {
        if x[i] <= v {
            k = i;
        }
    }
    k
}

fn slope(x: &[f64], y: &[f64], i: usize) -> f64 {
    (y[i + 1] - y[i]) / (x[i + 1] - x[i])
}

/// Integral over the segments before i
fn upto(x: &[f64], y: &[f64], i: usize) -> f64 {
    let mut p = 0.0;
    for k in 0..i {
        let dx = x[k + 1] - x[k];
        p += dx * (y[k] + 0.5 * dx * slope(x, y, k));
    }
    p
}

fn inside(x: &[f64], v: f64) -> bool {
    let (a, b) = (x[0], x[x.len() - 1]);
    a <= v && v <= b || close(v, a) || close(v, b)
}

/// Sorted small whole nodes, every choice on its own, with any values
fn whole_nodes(n: usize) -> ([f64; 3], [f64; 3]) {
    let (mut x, mut y) = ([0.0; 3], [0.0; 3]);
    let mut last = -2;
    for i in 0..n {
        let k = nd::each(nd::int(last, 3));
        x[i] = k as f64;
        y[i] = number();
        nd::assume(k < 3 || i + 1 == n);
        last = if k < 3 { k + 1 } else { 3 };
    }
    (x, y)
}

/// Scaled products of distances to the other nodes, inverted
fn weight(x: &[f64], i: usize) -> f64 {
    let c = 4.0 / (x[x.len() - 1] - x[0]);
    let mut w = 1.0;
    for j in 0..x.len() {
        if j != i {
            w *= c * (x[i] - x[j]);
        }
    }
    1.0 / w
}

fn barycentric(x: &[f64], y: &[f64], v: f64) -> f64 {
    let (mut n, mut d) = (0.0, 0.0);
    for i in 0..x.len() {
        let a = weight(x, i) / (v - x[i]);
        n += a * y[i];
        d += a;
    }
    n / d
}

harnesses! {
    c22_linear_locate(6) {
        let (x, y, n) = nodes();
        let (x, y) = (&x[..n], &y[..n]);
        let f = LinearInterpolation::new(x, y);
        let v = number();
        let i = f.locate(v);
        prop!(i == segment(x, v), "a number is located in the segment that holds it, or the nearest one");
        prop!(f.xmin() == x[0] && f.xmax() == x[n - 1], "the range is that of the nodes");
        prop!(f.is_in_range(v) == inside(x, v), "a number is in range between the ends or close to them");
        witness!(n == 4 && i == 1 && v > x[1], "inside a segment");
        witness!(n == 4 && v == x[3], "the last node");
    }
    c22_linear_value(6) {
        let (x, y, n) = nodes();
        let (x, y) = (&x[..n], &y[..n]);
        let f = LinearInterpolation::new(x, y);
        let v = number();
        nd::assume(x[0] <= v && v <= x[n - 1]);
        let i = nd::each(segment(x, v) as i32) as usize;
        prop!(nd::same(f.value(v), y[i] + (v - x[i]) * slope(x, y, i)), "the value is on the chord of the segment");
        prop!(nd::same(f.derivative(v), slope(x, y, i)), "the derivative is the slope of the chord");
        prop!(f.second_derivative(v) == 0.0, "the second derivative is zero");
        witness!(n == 4 && i == 2 && v > x[2] && v < x[3], "inside a segment");
        witness!(n == 4 && v == x[3], "the last node");
    }
    c22_linear_primitive(6) {
        let (x, y, n) = nodes();
        let (x, y) = (&x[..n], &y[..n]);
        let f = LinearInterpolation::new(x, y);
        let v = number();
        nd::assume(x[0] <= v && v <= x[n - 1]);
        let i = nd::each(segment(x, v) as i32) as usize;
        let dx = v - x[i];
        prop!(nd::same(f.primitive(v), upto(x, y, i) + dx * (y[i] + 0.5 * dx * slope(x, y, i))), "the primitive is the integral of the chords from the first node");
        witness!(n == 4 && i == 2 && v > x[2] && v < x[3], "inside a segment");
    }
    c22_linear_nodes(6) {
        let (x, y, n) = nodes();
        let (x, y) = (&x[..n], &y[..n]);
        let i = nd::each(nd::int(0, n as i32 - 2)) as usize;
        nd::assume(slope(x, y, i).is_finite());
        let f = LinearInterpolation::new(x, y);
        prop!(f.value(x[i]) == y[i], "the interpolation passes through the nodes");
        witness!(n == 4 && i == 2, "an inner node");
    }
    c22_linear_extrapolation(6) {
        let (x, y, n) = nodes();
        let (x, y) = (&x[..n], &y[..n]);
        let f = LinearInterpolation::new(x, y);
        let v = number();
        let i = nd::each(segment(x, v) as i32) as usize;
        let dx = v - x[i];
        prop!(nd::same(f.value_with_extrapolation(v, true), y[i] + dx * slope(x, y, i)), "extrapolation follows the chord of the nearest segment");
        prop!(nd::same(f.derivative_with_extrapolation(v, true), slope(x, y, i)), "the derivative is that of the nearest segment");
        prop!(nd::same(f.primitive_with_extrapolation(v, true), upto(x, y, i) + dx * (y[i] + 0.5 * dx * slope(x, y, i))), "the primitive continues beyond the nodes");
        if inside(x, v) {
            prop!(nd::same(f.value_with_extrapolation(v, false), y[i] + dx * slope(x, y, i)), "numbers in range need no extrapolation");
        }
        witness!(n == 4 && v < x[0], "before the first node");
        witness!(n == 4 && v > x[3], "after the last node");
    }
    //@ rejects
    c22_linear_range(6) {
        let (x, y, n) = nodes();
        let (x, y) = (&x[..n], &y[..n]);
        let f = LinearInterpolation::new(x, y);
        let v = number();
        nd::assume(!inside(x, v));
        witness!(n == 4 && v < x[0], "before the first node");
        witness!(n == 4 && v > x[3], "after the last node");
        let k = nd::each(nd::int(0, 3));
        rejects!(if k == 0 { f.value(v) } else if k == 1 { f.derivative(v) } else if k == 2 { f.primitive(v) } else { f.second_derivative(v) }, "a number out of range is refused");
    }
    c22_lagrange_nodes(6) {
        let n = nd::each(nd::int(2, 3)) as usize;
        let (x, y) = whole_nodes(n);
        let (x, y) = (&x[..n], &y[..n]);
        let f = LagrangeInterpolation::new(x, y);
        for i in 0..n {
            prop!(nd::same(f.value(x[i]), y[i]), "the interpolation passes through the nodes");
        }
        witness!(n == 3 && x[0] == -1.0 && x[1] == 0.0 && x[2] == 2.0, "zero among the nodes");
    }
    c22_lagrange_value(6) {
        let n = nd::each(nd::int(2, 3)) as usize;
        let (x, y) = whole_nodes(n);
        let (x, y) = (&x[..n], &y[..n]);
        let f = LagrangeInterpolation::new(x, y);
        let v = number();
        // next to a node: its value
        let e = 10.0 * f64::EPSILON * v.abs();
        let mut k = n;
        for i in (0..n).rev() {
            if x[i] >= v - e {
                k = i;
            }
        }
        let k = nd::each(k as i32) as usize;
        if k < n && x[k] - v < e {
            prop!(nd::same(f.value_with_extrapolation(v, true), y[k]), "next to a node the value is that of the node");
            return;
        }
        nd::assume(k == n || x[k] - v > e);
        prop!(f.is_in_range(v) == inside(x, v), "a number is in range between the ends or close to them");
        prop!(nd::same(f.value_with_extrapolation(v, true), barycentric(x, y, v)), "between the nodes the value is the barycentric mean");
        prop!(f.locate(v) == segment(x, v), "a number is located in the segment that holds it, or the nearest one");
        witness!(n == 3 && x[0] < v && v < x[1], "between nodes");
        witness!(n == 3 && v > x[2], "after the last node");
    }
    c22_lagrange_derivative(6) {
        let n = nd::each(nd::int(2, 3)) as usize;
        let (x, y) = whole_nodes(n);
        let (x, y) = (&x[..n], &y[..n]);
        let f = LagrangeInterpolation::new(x, y);
        let i = nd::each(nd::int(0, n as i32 - 1)) as usize;
        let mut p = 0.0;
        for j in 0..n {
            if j != i {
                p += weight(x, j) / (x[i] - x[j]) * (y[j] - y[i]);
            }
        }
        prop!(nd::same(f.derivative(x[i]), p / weight(x, i)), "the derivative at a node is the weighted sum of the chords");
        witness!(n == 3 && x[0] == -1.0 && x[1] == 0.0 && x[2] == 2.0, "zero among the nodes");
    }
}
