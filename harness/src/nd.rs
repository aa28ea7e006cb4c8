//! Symbolic inputs.  Under Kani every draw is a fresh symbolic variable; natively the draws are read
//! back, in order, from the bytes of a counterexample, so that the same harness body replays it
//! against the real code.

#[cfg(kani)]
mod imp {
    pub fn i32() -> i32 {
        kani::any()
    }
    pub fn u32() -> u32 {
        kani::any()
    }
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u16() -> u16 {
        kani::any()
    }
    pub fn usize() -> usize {
        kani::any()
    }
    pub fn u64() -> u64 {
        kani::any()
    }
    pub fn bool() -> bool {
        kani::any()
    }
    pub fn f64() -> f64 {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(symx)]
mod imp {
    extern "C" {
        fn sx_u8() -> u8;
        fn sx_u16() -> u16;
        fn sx_u32() -> u32;
        fn sx_u64() -> u64;
        fn sx_bool() -> bool;
        fn sx_f64() -> f64;
        fn sx_assume(c: bool);
        fn sx_each(x: u32) -> u32;
        fn sx_prop(c: bool, what: *const u8, len: usize);
        fn sx_same(a: f64, b: f64) -> bool;
        fn sx_known(a: f64, b: f64) -> bool;
        fn sx_cover(c: bool, what: *const u8, len: usize);
    }
    pub fn i32() -> i32 {
        unsafe { sx_u32() as i32 }
    }
    pub fn u32() -> u32 {
        unsafe { sx_u32() }
    }
    pub fn u8() -> u8 {
        unsafe { sx_u8() }
    }
    pub fn u16() -> u16 {
        unsafe { sx_u16() }
    }
    pub fn usize() -> usize {
        unsafe { sx_u64() as usize }
    }
    pub fn u64() -> u64 {
        unsafe { sx_u64() }
    }
    pub fn bool() -> bool {
        unsafe { sx_bool() }
    }
    pub fn f64() -> f64 {
        unsafe { sx_f64() }
    }
    pub fn assume(c: bool) {
        unsafe { sx_assume(c) }
    }
    /// x, with every value of it taken up on its own
    pub fn each(x: i32) -> i32 {
        unsafe { sx_each(x as u32) as i32 }
    }
    /// The same number, or both not a number
    pub fn same(a: f64, b: f64) -> bool {
        unsafe { sx_same(a, b) }
    }
    /// Whether the two are known to be the same without a query; false says nothing
    pub fn known(a: f64, b: f64) -> bool {
        unsafe { sx_known(a, b) }
    }
    pub fn prop(c: bool, what: &'static str) {
        unsafe { sx_prop(c, what.as_ptr(), what.len()) }
    }
    pub fn cover(c: bool, what: &'static str) {
        unsafe { sx_cover(c, what.as_ptr(), what.len()) }
    }
}

#[cfg(not(any(kani, symx)))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    thread_local! {
        static INPUT: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new());
    }

    /// Ways in which a native run of a harness body ends early.
    pub enum Stop {
        Violated(String),
        Assume,
        Input(String),
    }

    pub fn load(v: Vec<Vec<u8>>) {
        INPUT.with(|i| *i.borrow_mut() = v.into());
    }

    pub fn left() -> usize {
        INPUT.with(|i| i.borrow().len())
    }

    fn take<const N: usize>() -> [u8; N] {
        let v = INPUT.with(|i| i.borrow_mut().pop_front());
        match v {
            Some(v) if v.len() == N => v.try_into().unwrap(),
            Some(v) => std::panic::panic_any(Stop::Input(format!("draw of {} bytes, expected {}", v.len(), N))),
            None => std::panic::panic_any(Stop::Input("out of draws".into())),
        }
    }
    pub fn i32() -> i32 {
        i32::from_le_bytes(take())
    }
    pub fn u32() -> u32 {
        u32::from_le_bytes(take())
    }
    pub fn u8() -> u8 {
        take::<1>()[0]
    }
    pub fn u16() -> u16 {
        u16::from_le_bytes(take())
    }
    pub fn usize() -> usize {
        usize::from_le_bytes(take())
    }
    pub fn u64() -> u64 {
        u64::from_le_bytes(take())
    }
    pub fn bool() -> bool {
        take::<1>()[0] != 0
    }
    pub fn f64() -> f64 {
        f64::from_le_bytes(take())
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Stop::Assume)
        }
    }
    pub fn each(x: i32) -> i32 {
        x
    }
    pub fn same(a: f64, b: f64) -> bool {
        a == b || a.is_nan() && b.is_nan()
    }
    pub fn known(a: f64, b: f64) -> bool {
        same(a, b)
    }
    pub fn violated(what: &str) -> ! {
        std::panic::panic_any(Stop::Violated(what.to_string()))
    }
}

pub use imp::*;

/// An integer in `lo ..= hi`
pub fn int(lo: i32, hi: i32) -> i32 {
    let x = i32();
    assume(x >= lo && x <= hi);
    x
}

/// A choice in `0 .. n`
pub fn choice(n: u8) -> u8 {
    let x = u8();
    assume(x < n);
    x
}

/// A finite float in `lo ..= hi`
pub fn real(lo: f64, hi: f64) -> f64 {
    let x = f64();
    assume(x >= lo && x <= hi);
    x
}

/// The assertion of a property.
#[macro_export]
macro_rules! prop {
    ($c:expr, $what:literal) => {
        #[cfg(kani)]
        kani::assert($c, concat!("PROP: ", $what));
        #[cfg(symx)]
        $crate::nd::prop($c, $what);
        #[cfg(not(any(kani, symx)))]
        {
            if !$c {
                $crate::nd::violated($what);
            }
        }
    };
}

/// Reachability witness: the solver must find an input that gets here with the condition true.
#[macro_export]
macro_rules! witness {
    ($c:expr, $what:literal) => {
        #[cfg(kani)]
        kani::cover!($c, $what);
        #[cfg(symx)]
        $crate::nd::cover($c, $what);
        #[cfg(not(any(kani, symx)))]
        {
            let _ = $c;
        }
    };
}

/// A call that the library must refuse (by panicking); returning from it violates the property.
#[macro_export]
macro_rules! rejects {
    ($e:expr, $what:literal) => {
        {
            let _ = $e;
            $crate::prop!(false, $what);
        }
    };
}

/// Declares harnesses: `name: unwind, [stubs]? => body`
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* $name:ident ( $unwind:literal ) $body:block )*) => {
        $(
            pub fn $name() $body
        )*
        #[cfg(kani)]
        pub mod proofs {
            $(
                $(#[$m])*
                #[kani::proof]
                #[kani::unwind($unwind)]
                fn $name() { super::$name() }
            )*
        }
        #[cfg(symx)]
        pub mod proofs {
            $(
                #[no_mangle]
                pub extern "C" fn $name() { super::$name() }
            )*
        }
        #[cfg(not(any(kani, symx)))]
        pub const LIST: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
