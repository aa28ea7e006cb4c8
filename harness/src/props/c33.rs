//@ engine=symx
//! C33: arrays.
use crate::nd;
use rust_quantlib::maths::array::Array;

fn numbers(n: usize) -> Vec<f64> {
    (0..n).map(|_| nd::f64()).collect()
}

fn size(max: i32) -> usize {
    nd::each(nd::int(0, max)) as usize
}

/// Whether the array is that of the function of the index
fn is(a: &Array, n: usize, f: impl Fn(usize) -> f64) -> bool {
    let mut r = a.size() == n && a.data.len() == n && a.empty() == (n == 0);
    for i in 0..n.min(a.data.len()) {
        r &= nd::same(a[i], f(i));
    }
    r
}

fn two(op: i32, x: Array, y: Array) -> Array {
    match op {
        0 => x + y,
        1 => x - y,
        2 => x * y,
        _ => x / y,
    }
}

fn one(op: i32, x: f64, y: f64) -> f64 {
    match op {
        0 => x + y,
        1 => x - y,
        2 => x * y,
        _ => x / y,
    }
}

harnesses! {
    //@ bounds="zero to four elements, any doubles"
    c33_elementwise(8) {
        let n = size(4);
        let (x, y) = (numbers(n), numbers(n));
        let op = nd::each(nd::int(0, 3));
        let r = two(op, Array::new(x.clone()), Array::new(y.clone()));
        prop!(is(&r, n, |i| one(op, x[i], y[i])), "sum, difference, product and quotient of arrays go by element");
        witness!(n == 4 && op == 3, "a quotient of four");
    }
    //@ bounds="zero to four elements, any doubles"
    c33_scalar(8) {
        let (n, s) = (size(4), nd::f64());
        let x = numbers(n);
        let op = nd::each(nd::int(0, 4));
        let a = Array::new(x.clone());
        let r = match op {
            0 => a + s,
            1 => a - s,
            2 => a * s,
            3 => a / s,
            _ => -a,
        };
        prop!(is(&r, n, |i| if op == 4 { -x[i] } else { one(op, x[i], s) }), "a number acts on every element, and so does the sign");
        witness!(n == 4 && op == 3 && s == 0.0, "by zero");
    }
    //@ bounds="zero to three elements, any doubles; exp, log, pow and sqrt uninterpreted"
    c33_functions(8) {
        let (n, s) = (size(3), nd::f64());
        let x = numbers(n);
        let op = nd::each(nd::int(0, 4));
        let a = Array::new(x.clone());
        let r = match op {
            0 => a.abs(),
            1 => a.sqrt(),
            2 => a.log(),
            3 => a.exp(),
            _ => a.pow(s),
        };
        prop!(is(&r, n, |i| match op { 0 => x[i].abs(), 1 => x[i].sqrt(), 2 => x[i].ln(), 3 => x[i].exp(), _ => x[i].powf(s) }), "functions go by element");
        prop!(is(&a, n, |i| x[i]), "the array stays as it was");
        witness!(n == 3 && op == 4, "a power");
    }
    //@ bounds="zero to four elements, any doubles"
    c33_dot(8) {
        let n = size(4);
        let (x, y) = (numbers(n), numbers(n));
        let (a, b) = (Array::new(x.clone()), Array::new(y.clone()));
        let mut s = 0.0;
        let mut q = 0.0;
        for i in 0..n {
            s += x[i] * y[i];
            q += x[i] * x[i];
        }
        prop!(nd::same(a.dot_product(&b), s), "the product of two arrays adds up those of their elements");
        prop!(nd::same(a.norm2(), q.sqrt()), "the norm is the root of the product with itself");
        witness!(n == 4, "four");
    }
    //@ bounds="zero to three elements each, any doubles"
    c33_places(8) {
        let (n, m) = (size(3), size(3));
        let (x, y) = (numbers(n), numbers(m));
        let (mut a, mut b) = (Array::new(x.clone()), Array::new(y.clone()));
        let mut same = n == m;
        for i in 0..n.min(m) {
            same &= x[i] == y[i];
        }
        prop!((a == b) == same, "arrays are equal if they have the same elements in the same places");
        a.swap(&mut b);
        prop!(is(&a, m, |i| y[i]) && is(&b, n, |i| x[i]), "a swap exchanges the elements and the sizes");
        if m > 0 {
            let (i, z) = (size(2).min(m - 1), nd::f64());
            a[i] = z;
            prop!(is(&a, m, |j| if i == j { z } else { y[j] }), "an element is set in its place only");
        }
        witness!(n == 1 && m == 3, "of different sizes");
        witness!(n == 3 && m == 3 && same, "equal");
    }
    //@ rejects
    //@ bounds="zero to three elements each, any doubles"
    c33_rejects(8) {
        let (n, m) = (size(3), size(3));
        let (a, b) = (Array::new(numbers(n)), Array::new(numbers(m)));
        let op = nd::each(nd::int(0, 5));
        nd::assume(if op < 5 { n != m } else { true });
        witness!(n == 0 && m == 3 && op == 4, "the product with an empty array");
        rejects!(match op { 4 => a.dot_product(&b), 5 => a[n + m], _ => two(op, a, b).size() as f64 }, "arrays of different sizes do not go together, and there are no elements past the end");
    }
}
