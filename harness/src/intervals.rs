use crate::h;
use crate::util::*;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{AlmostEqual, GFloat, Scalar, SignedScalar};
use std::cmp::Ordering;

fn ord(o: Option<Ordering>) -> u64 {
    match o {
        None => 3,
        Some(Ordering::Less) => 0,
        Some(Ordering::Equal) => 1,
        Some(Ordering::Greater) => 2,
    }
}

macro_rules! iv_bin {
    ($t:ty, $n:ident, |$a:ident, $b:ident| $e:expr) => {
        // i: a.inf a.sup b.inf b.sup
        h!($n, $t => $t, |i, o, f| {
            let $a = iv(i, 0);
            let $b = iv(i, 2);
            wi(o, 0, $e);
        });
    };
}
macro_rules! iv_scal {
    ($t:ty, $n:ident, |$a:ident, $s:ident| $e:expr) => {
        // i: a.inf a.sup s
        h!($n, $t => $t, |i, o, f| {
            let $a = iv(i, 0);
            let $s = i[2];
            wi(o, 0, $e);
        });
    };
}
macro_rules! iv_un {
    ($t:ty, $n:ident, |$a:ident| $e:expr) => {
        h!($n, $t => $t, |i, o, f| {
            let $a = iv(i, 0);
            wi(o, 0, $e);
        });
    };
}

macro_rules! intervals {
    ($t:ty, $($n:ident),*) => { intervals!(@ $t, $($n),*); };
    (@ $t:ty, $add:ident, $sub:ident, $mul:ident, $div:ident, $adda:ident, $suba:ident, $mula:ident, $diva:ident,
       $adds:ident, $subs:ident, $muls:ident, $divs:ident, $mulsa:ident, $divsa:ident,
       $neg:ident, $square:ident, $squares:ident, $sqrt:ident, $gsqrt:ident,
       $union:ident, $isect:ident, $max:ident, $min:ident, $abs:ident, $ext:ident, $nu:ident, $nd:ident,
       $q1:ident, $q2:ident, $alm:ident, $approx:ident, $consts:ident, $cls:ident,
       $sin:ident, $cos:ident, $tan:ident, $asin:ident, $acos:ident, $atan:ident, $atan2:ident, $from:ident, $recip:ident) => {
        iv_bin!($t, $add, |a, b| a + b);
        iv_bin!($t, $sub, |a, b| a - b);
        iv_bin!($t, $mul, |a, b| a * b);
        iv_bin!($t, $div, |a, b| a / b);
        iv_bin!($t, $adda, |a, b| { let mut x = a; x += b; x });
        iv_bin!($t, $suba, |a, b| { let mut x = a; x -= b; x });
        iv_bin!($t, $mula, |a, b| { let mut x = a; x *= b; x });
        iv_bin!($t, $diva, |a, b| { let mut x = a; x /= b; x });
        iv_scal!($t, $adds, |a, s| a + s);
        iv_scal!($t, $subs, |a, s| a - s);
        iv_scal!($t, $muls, |a, s| a * s);
        iv_scal!($t, $divs, |a, s| a / s);
        iv_scal!($t, $mulsa, |a, s| { let mut x = a; x *= s; x });
        iv_scal!($t, $divsa, |a, s| { let mut x = a; x /= s; x });
        iv_un!($t, $neg, |a| -a);
        iv_un!($t, $square, |a| a.square());
        iv_un!($t, $squares, |a| Scalar::square(a));
        iv_un!($t, $sqrt, |a| a.sqrt());
        iv_un!($t, $gsqrt, |a| GFloat::sqrt(a));
        iv_bin!($t, $union, |a, b| a.union(b));
        iv_bin!($t, $isect, |a, b| a.intersect(b));
        iv_bin!($t, $max, |a, b| Scalar::max(a, b));
        iv_bin!($t, $min, |a, b| Scalar::min(a, b));
        iv_un!($t, $abs, |a| SignedScalar::abs(a));
        iv_un!($t, $ext, |a| a.extend_by_ulp());
        iv_un!($t, $nu, |a| GFloat::next_up(a));
        iv_un!($t, $nd, |a| GFloat::next_down(a));
        // queries on one interval and a number: i: a.inf a.sup s t
        h!($q1, $t => $t, |i, o, f| {
            let a = iv(i, 0);
            let s = i[2];
            f[0] = a.contains(s) as u64;
            f[1] = a.in_range(s, i[3]) as u64;
            f[2] = a.is_exact() as u64;
            f[3] = a.is_positive() as u64;
            f[4] = a.is_negative() as u64;
            f[5] = a.is_nonpositive() as u64;
            f[6] = a.is_nonnegative() as u64;
            f[7] = (a == s) as u64;
            f[8] = ord(a.partial_cmp(&s));
            f[10] = SignedScalar::is_positive(a) as u64;
            f[11] = SignedScalar::is_negative(a) as u64;
            f[12] = SignedScalar::is_nonpositive(a) as u64;
            f[13] = SignedScalar::is_nonnegative(a) as u64;
        });
        // queries on two intervals
        h!($q2, $t => $t, |i, o, f| {
            let a = iv(i, 0);
            let b = iv(i, 2);
            f[0] = (a == b) as u64;
            f[1] = ord(a.partial_cmp(&b));
            f[2] = a.is_same(b) as u64;
            f[4] = (a < b) as u64;
            f[5] = (a <= b) as u64;
            f[6] = (a > b) as u64;
            f[7] = (a >= b) as u64;
        });
        // almost equality: i: a.inf a.sup b.inf b.sup s
        h!($alm, $t => $t, |i, o, f| {
            let a = iv(i, 0);
            let b = iv(i, 2);
            f[0] = AlmostEqual::<Interval<$t>>::almost_eq(a, b) as u64;
            f[1] = AlmostEqual::almost_eq(i[0], i[2]) as u64;
            f[2] = AlmostEqual::almost_eq(i[1], i[3]) as u64;
            f[3] = AlmostEqual::<$t>::almost_eq(a, i[4]) as u64;
            f[4] = AlmostEqual::almost_eq(i[0], i[4]) as u64;
            f[5] = AlmostEqual::almost_eq(i[1], i[4]) as u64;
        });
        h!($approx, $t => $t, |i, o, f| {
            let a = iv(i, 0);
            o[0] = a.approx();
            o[1] = <$t>::from(a);
        });
        h!($consts, $t => $t, |i, o, f| {
            wi(o, 0, <Interval<$t> as Scalar>::zero());
            wi(o, 2, <Interval<$t> as Scalar>::one());
            wi(o, 4, <Interval<$t> as Scalar>::two());
            wi(o, 6, <Interval<$t> as Scalar>::lowest());
            wi(o, 8, <Interval<$t> as Scalar>::highest());
            wi(o, 10, <Interval<$t> as GFloat>::infinity());
            wi(o, 12, <Interval<$t> as GFloat>::neg_infinity());
            wi(o, 14, <Interval<$t> as GFloat>::neg_zero());
            wi(o, 16, <Interval<$t> as GFloat>::half());
            wi(o, 18, <Interval<$t> as GFloat>::pi());
            wi(o, 20, <Interval<$t> as GFloat>::tau());
            wi(o, 22, <Interval<$t> as GFloat>::frac_pi_2());
            wi(o, 24, <Interval<$t> as GFloat>::frac_pi_4());
            wi(o, 26, <Interval<$t> as GFloat>::abs_epsilon());
            wi(o, 28, <Interval<$t> as GFloat>::rel_epsilon());
            wi(o, 30, <Interval<$t> as GFloat>::min_positive_value());
            wi(o, 32, <Interval<$t> as GFloat>::nan());
        });
        h!($cls, $t => $t, |i, o, f| {
            let a = ivraw(i, 0);
            f[0] = GFloat::is_nan(a) as u64;
            f[1] = GFloat::is_finite(a) as u64;
            f[2] = GFloat::is_infinite(a) as u64;
        });
        iv_un!($t, $sin, |a| GFloat::sin(a));
        iv_un!($t, $cos, |a| GFloat::cos(a));
        h!($tan, $t => $t, |i, o, f| {
            let a = iv(i, 0);
            let (s, c) = (GFloat::sin(a), GFloat::cos(a));
            let (t, u) = GFloat::sin_cos(a);
            wi(o, 0, GFloat::tan(a));
            wi(o, 2, s / c);
            wi(o, 4, s);
            wi(o, 6, c);
            wi(o, 8, t);
            wi(o, 10, u);
        });
        iv_un!($t, $asin, |a| GFloat::asin(a));
        iv_un!($t, $acos, |a| GFloat::acos(a));
        iv_un!($t, $atan, |a| GFloat::atan(a));
        iv_bin!($t, $atan2, |a, b| GFloat::atan2(a, b));
        iv_un!($t, $recip, |a| GFloat::recip(a));
        h!($from, $t => $t, |i, o, f| {
            wi(o, 0, Interval::from(i[0]));
            wi(o, 2, Interval::from((i[1], i[2])));
        });
    };
}

intervals!(f32, iv_add_f32, iv_sub_f32, iv_mul_f32, iv_div_f32, iv_adda_f32, iv_suba_f32, iv_mula_f32, iv_diva_f32,
    iv_adds_f32, iv_subs_f32, iv_muls_f32, iv_divs_f32, iv_mulsa_f32, iv_divsa_f32,
    iv_neg_f32, iv_square_f32, iv_squares_f32, iv_sqrt_f32, iv_gsqrt_f32,
    iv_union_f32, iv_isect_f32, iv_max_f32, iv_min_f32, iv_abs_f32, iv_ext_f32, iv_nu_f32, iv_nd_f32,
    iv_q1_f32, iv_q2_f32, iv_alm_f32, iv_approx_f32, iv_consts_f32, iv_cls_f32,
    iv_sin_f32, iv_cos_f32, iv_tan_f32, iv_asin_f32, iv_acos_f32, iv_atan_f32, iv_atan2_f32, iv_from_f32, iv_recip_f32);
intervals!(f64, iv_add_f64, iv_sub_f64, iv_mul_f64, iv_div_f64, iv_adda_f64, iv_suba_f64, iv_mula_f64, iv_diva_f64,
    iv_adds_f64, iv_subs_f64, iv_muls_f64, iv_divs_f64, iv_mulsa_f64, iv_divsa_f64,
    iv_neg_f64, iv_square_f64, iv_squares_f64, iv_sqrt_f64, iv_gsqrt_f64,
    iv_union_f64, iv_isect_f64, iv_max_f64, iv_min_f64, iv_abs_f64, iv_ext_f64, iv_nu_f64, iv_nd_f64,
    iv_q1_f64, iv_q2_f64, iv_alm_f64, iv_approx_f64, iv_consts_f64, iv_cls_f64,
    iv_sin_f64, iv_cos_f64, iv_tan_f64, iv_asin_f64, iv_acos_f64, iv_atan_f64, iv_atan2_f64, iv_from_f64, iv_recip_f64);
