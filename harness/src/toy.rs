//! Small prime-order curves, so that whole value spaces can be enumerated and TLC can do the arithmetic.
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::CurveConfig;
use ark_ff::fields::{Fp64, MontBackend, MontConfig};
use ark_ff::{Field, MontFp};

macro_rules! field {
    ($cfg:ident, $name:ident, $m:literal, $g:literal) => {
        #[derive(MontConfig)]
        #[modulus = $m]
        #[generator = $g]
        pub struct $cfg;
        pub type $name = Fp64<MontBackend<$cfg, 1>>;
    };
}
macro_rules! curve {
    ($name:ident, $aff:ident, $base:ty, $scalar:ty, $a:literal, $b:literal, $x:literal, $y:literal) => {
        #[derive(Clone, Copy, Default, PartialEq, Eq)]
        pub struct $name;
        impl CurveConfig for $name {
            type BaseField = $base;
            type ScalarField = $scalar;
            const COFACTOR: &'static [u64] = &[1];
            const COFACTOR_INV: $scalar = <$scalar as Field>::ONE;
        }
        impl SWCurveConfig for $name {
            const COEFF_A: $base = MontFp!($a);
            const COEFF_B: $base = MontFp!($b);
            const GENERATOR: Affine<Self> = Affine::new_unchecked(MontFp!($x), MontFp!($y));
        }
        pub type $aff = Affine<$name>;
    };
}
field!(C7, F7, "7", "3");
field!(C11, F11, "11", "2");
field!(C13, F13, "13", "2");
field!(C19, F19, "19", "2");
field!(C31, F31, "31", "3");
field!(C43, F43, "43", "3");
field!(C199, F199, "199", "3");
field!(C211, F211, "211", "2");
field!(C46183, F46183, "46183", "3");
field!(C46027, F46027, "46027", "2");
field!(C46171, F46171, "46171", "3");
field!(C46093, F46093, "46093", "2");
// very small curves
curve!(E7, A7, F7, F13, "0", "3", "1", "2");
curve!(E13, A13, F13, F19, "0", "2", "1", "4");
curve!(E11, A11, F11, F13, "1", "6", "2", "7");
// two-cycles
curve!(E31, A31, F31, F43, "0", "3", "1", "2");
curve!(E43, A43, F43, F31, "0", "7", "2", "12");
curve!(E199, A199, F199, F211, "0", "3", "1", "2");
curve!(E211, A211, F211, F199, "0", "2", "4", "53");
curve!(EA, AffA, F46183, F46027, "0", "3", "1", "2");
curve!(EB, AffB, F46027, F46183, "0", "2", "2", "17997");
// a curve with a non-zero linear coefficient
curve!(EL, AffL, F46171, F46093, "3", "11", "2", "5");
