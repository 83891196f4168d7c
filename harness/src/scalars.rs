use crate::h;
use scarlet::math::scalar::{AlmostEqual, GFloat, Scalar, SignedScalar};

macro_rules! scalar_common {
    ($t:ty, $cmp:ident, $consts:ident, $alm:ident) => {
        // i: a, b, c
        h!($cmp, $t => $t, |i, o, f| {
            let (a, b, c) = (i[0], i[1], i[2]);
            o[0] = Scalar::min(a, b);
            o[1] = Scalar::max(a, b);
            let (m, n) = Scalar::min_max(a, b);
            o[2] = m;
            o[3] = n;
            o[4] = Scalar::clamp(a, b, c);
            f[0] = Scalar::in_range(a, b, c) as u64;
            f[1] = Scalar::is_zero(a) as u64;
            f[2] = Scalar::is_one(a) as u64;
        });
        h!($consts, $t => $t, |i, o, f| {
            o[0] = <$t as Scalar>::zero();
            o[1] = <$t as Scalar>::one();
            o[2] = <$t as Scalar>::two();
            o[3] = <$t as Scalar>::lowest();
            o[4] = <$t as Scalar>::highest();
        });
        h!($alm, $t => $t, |i, o, f| {
            f[0] = AlmostEqual::almost_eq(i[0], i[1]) as u64;
            f[1] = AlmostEqual::almost_eq(i[1], i[0]) as u64;
        });
    };
}
macro_rules! scalar_signed {
    ($t:ty, $sg:ident) => {
        h!($sg, $t => $t, |i, o, f| {
            let a = i[0];
            o[0] = SignedScalar::signum(a);
            o[1] = SignedScalar::abs(a);
            f[0] = SignedScalar::is_positive(a) as u64;
            f[1] = SignedScalar::is_negative(a) as u64;
            f[2] = SignedScalar::is_nonpositive(a) as u64;
            f[3] = SignedScalar::is_nonnegative(a) as u64;
        });
    };
}
macro_rules! scalar_square {
    ($t:ty, $sq:ident) => {
        h!($sq, $t => $t, |i, o, f| {
            o[0] = Scalar::square(i[0]);
        });
    };
}
scalar_common!(u8, sc_cmp_u8, sc_const_u8, sc_alm_u8);
scalar_common!(u16, sc_cmp_u16, sc_const_u16, sc_alm_u16);
scalar_common!(u32, sc_cmp_u32, sc_const_u32, sc_alm_u32);
scalar_common!(u64, sc_cmp_u64, sc_const_u64, sc_alm_u64);
scalar_common!(i8, sc_cmp_i8, sc_const_i8, sc_alm_i8);
scalar_common!(i16, sc_cmp_i16, sc_const_i16, sc_alm_i16);
scalar_common!(i32, sc_cmp_i32, sc_const_i32, sc_alm_i32);
scalar_common!(i64, sc_cmp_i64, sc_const_i64, sc_alm_i64);
scalar_common!(f32, sc_cmp_f32, sc_const_f32, sc_alm_f32);
scalar_common!(f64, sc_cmp_f64, sc_const_f64, sc_alm_f64);
scalar_signed!(i8, sc_sgn_i8);
scalar_signed!(i16, sc_sgn_i16);
scalar_signed!(i32, sc_sgn_i32);
scalar_signed!(i64, sc_sgn_i64);
scalar_signed!(f32, sc_sgn_f32);
scalar_signed!(f64, sc_sgn_f64);
scalar_square!(u8, sc_sq_u8);
scalar_square!(i16, sc_sq_i16);
scalar_square!(f32, sc_sq_f32);
scalar_square!(f64, sc_sq_f64);

macro_rules! gfloat {
    ($t:ty, $next:ident, $nextinv:ident, $cls:ident, $consts:ident, $cast:ident, $fi:ident, $ff32:ident, $ff64:ident, $recip:ident) => {
        h!($next, $t => $t, |i, o, f| {
            o[0] = GFloat::next_up(i[0]);
            o[1] = GFloat::next_down(i[0]);
        });
        h!($nextinv, $t => $t, |i, o, f| {
            o[0] = GFloat::next_down(GFloat::next_up(i[0]));
            o[1] = GFloat::next_up(GFloat::next_down(i[0]));
        });
        h!($cls, $t => $t, |i, o, f| {
            f[0] = GFloat::is_nan(i[0]) as u64;
            f[1] = GFloat::is_finite(i[0]) as u64;
            f[2] = GFloat::is_infinite(i[0]) as u64;
        });
        h!($consts, $t => $t, |i, o, f| {
            o[0] = <$t as GFloat>::nan();
            o[1] = <$t as GFloat>::infinity();
            o[2] = <$t as GFloat>::neg_infinity();
            o[3] = <$t as GFloat>::neg_zero();
            o[4] = <$t as GFloat>::min_positive_value();
            o[5] = <$t as GFloat>::half();
            o[6] = <$t as GFloat>::pi();
            o[7] = <$t as GFloat>::tau();
            o[8] = <$t as GFloat>::frac_pi_2();
            o[9] = <$t as GFloat>::frac_pi_4();
            o[10] = <$t as GFloat>::abs_epsilon();
            o[11] = <$t as GFloat>::rel_epsilon();
            o[12] = <$t as GFloat>::pi_lower();
            o[13] = <$t as GFloat>::pi_upper();
            o[14] = <$t as GFloat>::tau_lower();
            o[15] = <$t as GFloat>::tau_upper();
            o[16] = <$t as GFloat>::frac_pi_2_lower();
            o[17] = <$t as GFloat>::frac_pi_2_upper();
            o[18] = <$t as GFloat>::frac_pi_4_lower();
            o[19] = <$t as GFloat>::frac_pi_4_upper();
        });
        h!($cast, $t => f64, |i, o, f| {
            f[0] = GFloat::to_i64(i[0]) as u64;
            f[1] = GFloat::to_f32(i[0]).to_bits() as u64;
            o[0] = GFloat::to_f64(i[0]);
        });
        h!($fi, i64 => $t, |i, o, f| {
            o[0] = <$t as GFloat>::from_i64(i[0]);
        });
        h!($ff32, f32 => $t, |i, o, f| {
            o[0] = <$t as GFloat>::from_f32(i[0]);
        });
        h!($ff64, f64 => $t, |i, o, f| {
            o[0] = <$t as GFloat>::from_f64(i[0]);
        });
        h!($recip, $t => $t, |i, o, f| {
            o[0] = GFloat::recip(i[0]);
        });
    };
}
gfloat!(f32, gf_next_f32, gf_nextinv_f32, gf_cls_f32, gf_const_f32, gf_cast_f32, gf_fi_f32, gf_ff32_f32, gf_ff64_f32, gf_recip_f32);
gfloat!(f64, gf_next_f64, gf_nextinv_f64, gf_cls_f64, gf_const_f64, gf_cast_f64, gf_fi_f64, gf_ff32_f64, gf_ff64_f64, gf_recip_f64);
