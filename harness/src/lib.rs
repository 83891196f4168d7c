//! Entry points over scarlet's public API for the symbolic executor.  Every
//! function reads plain numbers, calls the library, and writes plain numbers.
#![allow(clippy::all)]

pub const NI: usize = 64;
pub const NO: usize = 128;
pub const NF: usize = 32;

/// h!(name, input type => output type, |i, o, f| { body })
/// emits `name` (executed symbolically) and, for the native library, `n_name`.
#[macro_export]
macro_rules! h {
    ($n:ident, $ti:ty => $to:ty, |$i:ident, $o:ident, $f:ident| $b:block) => {
        #[no_mangle]
        #[inline(never)]
        #[allow(unused_variables)]
        pub fn $n($i: &[$ti; $crate::NI], $o: &mut [$to; $crate::NO], $f: &mut [u64; $crate::NF]) $b

        #[cfg(feature = "native")]
        const _: () = {
            #[export_name = concat!("n_", stringify!($n))]
            extern "C" fn w(i: &[$ti; $crate::NI], o: &mut [$to; $crate::NO], f: &mut [u64; $crate::NF]) -> i32 {
                $crate::guard(|| $n(i, o, f))
            }
        };
    };
}

#[cfg(feature = "native")]
pub fn guard<F: FnOnce()>(f: F) -> i32 {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| std::panic::set_hook(Box::new(|_| {})));
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(()) => 0,
        Err(_) => 1,
    }
}

pub mod util;
pub mod scalars;
pub mod intervals;
pub mod vectors;
pub mod transforms;
pub mod boxes;
pub mod spheres;
pub mod prims;
pub mod cams;
pub mod ivtr;
