use crate::h;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{AlmostEqual, GFloat, Scalar, SignedScalar};
use scarlet::math::vector::{GenericVector, InnerProduct, Norm, Normal, Normal3, Point, Point2, Point3, Vector, Vector2, Vector3, Vector4};

/// i: a (N), b (N), s
macro_rules! vec_ops {
    ($n:expr, $t:ty, $ty:ident, $make:expr, $arith:ident, $div:ident, $cmp:ident) => {
        h!($arith, $t => $t, |i, o, f| {
            const N: usize = $n;
            let mk = $make;
            let a: $ty<$t> = mk(i, 0);
            let b: $ty<$t> = mk(i, N);
            let s = i[2 * N];
            let mut c = a;
            c += b;
            let sum = a + b;
            let prod = a * b;
            let scaled = a * s;
            let neg = -a;
            let mn = a.min(b);
            let mx = a.max(b);
            let arr = <$ty<$t>>::from([s; N]);
            let def = <$ty<$t>>::default();
            let mut set = a;
            let cl = b.clone();
            for k in 0..N {
                o[k] = sum[k];
                o[4 + k] = c[k];
                o[8 + k] = prod[k];
                o[12 + k] = scaled[k];
                o[16 + k] = neg[k];
                o[20 + k] = mn[k];
                o[24 + k] = mx[k];
                o[28 + k] = arr.vec[k];
                o[32 + k] = def.vec[k];
                set[k] = cl[N - 1 - k];
            }
            for k in 0..N {
                o[36 + k] = set.vec[k];
            }
            o[40] = a.dot(b);
            o[41] = a.square_norm();
            o[42] = InnerProduct::dot(a, a);
            o[43] = Norm::square_norm(b);
            // a panic is not a value
            f[0] = 1;
        });
        h!($div, $t => $t, |i, o, f| {
            const N: usize = $n;
            let mk = $make;
            let a: $ty<$t> = mk(i, 0);
            let b: $ty<$t> = mk(i, N);
            let s = i[2 * N];
            let q = a / b;
            let r = a / s;
            for k in 0..N {
                o[k] = q[k];
                o[4 + k] = r[k];
            }
        });
        h!($cmp, $t => $t, |i, o, f| {
            const N: usize = $n;
            let mk = $make;
            let a: $ty<$t> = mk(i, 0);
            let b: $ty<$t> = mk(i, N);
            f[0] = (a == b) as u64;
            f[1] = (a != b) as u64;
            f[2] = a.almost_eq(b) as u64;
            for k in 0..N {
                f[4 + k] = a[k].almost_eq(b[k]) as u64;
            }
        });
    };
}
fn mk4<T: Scalar, U>(i: &[T; crate::NI], k: usize) -> GenericVector<T, 4, U> {
    GenericVector::<T, 4, U>::new(i[k], i[k + 1], i[k + 2], i[k + 3])
}
fn mk3<T: Scalar, U>(i: &[T; crate::NI], k: usize) -> GenericVector<T, 3, U> {
    GenericVector::<T, 3, U>::new(i[k], i[k + 1], i[k + 2])
}
fn mk2<T: Scalar, U>(i: &[T; crate::NI], k: usize) -> GenericVector<T, 2, U> {
    GenericVector::<T, 2, U>::new(i[k], i[k + 1])
}
vec_ops!(4, f32, Vector4, mk4, ve_v4_f32, ve_v4d_f32, ve_v4c_f32);
vec_ops!(3, f32, Vector3, mk3, ve_v3_f32, ve_v3d_f32, ve_v3c_f32);
vec_ops!(2, f32, Vector2, mk2, ve_v2_f32, ve_v2d_f32, ve_v2c_f32);
vec_ops!(3, f32, Point3, mk3, ve_p3_f32, ve_p3d_f32, ve_p3c_f32);
vec_ops!(2, f32, Point2, mk2, ve_p2_f32, ve_p2d_f32, ve_p2c_f32);
vec_ops!(3, f32, Normal3, mk3, ve_n3_f32, ve_n3d_f32, ve_n3c_f32);
vec_ops!(4, f64, Vector4, mk4, ve_v4_f64, ve_v4d_f64, ve_v4c_f64);
vec_ops!(3, f64, Vector3, mk3, ve_v3_f64, ve_v3d_f64, ve_v3c_f64);
vec_ops!(2, f64, Vector2, mk2, ve_v2_f64, ve_v2d_f64, ve_v2c_f64);
vec_ops!(3, f64, Point3, mk3, ve_p3_f64, ve_p3d_f64, ve_p3c_f64);
vec_ops!(3, f64, Normal3, mk3, ve_n3_f64, ve_n3d_f64, ve_n3c_f64);
vec_ops!(3, i16, Vector3, mk3, ve_v3_i16, ve_v3d_i16, ve_v3c_i16);
vec_ops!(2, i16, Point2, mk2, ve_p2_i16, ve_p2d_i16, ve_p2c_i16);

/// subtraction, accessors, distances and the point/vector/normal interplay
macro_rules! vec_mix {
    ($t:ty, $mix:ident, $acc:ident) => {
        h!($mix, $t => $t, |i, o, f| {
            let a: Vector3<$t> = mk3(i, 0);
            let b: Vector3<$t> = mk3(i, 3);
            let (pa, pb): (Point3<$t>, Point3<$t>) = (Point3::from(a), mk3(i, 3));
            let mut c = a;
            c -= b;
            let outs: [[$t; 3]; 13] = [
                (a - b).vec,
                c.vec,
                (pa - pb).vec,
                (a + pb).vec,
                (pa + b).vec,
                (pa - b).vec,
                (a.cross(b)).vec,
                Normal3::from(a).vec,
                pa.vec,
                Vector3::from(pb).vec,
                Vector3::from(Normal3::from(b)).vec,
                Normal3::from(a).cross(Normal3::from(b)).vec,
                [a.dot(Normal3::from(b)), a.square_distance(b), pa.dot(pb)],
            ];
            for k in 0..13 {
                for j in 0..3 {
                    o[3 * k + j] = outs[k][j];
                }
            }
            f[0] = 1;
        });
        h!($acc, $t => $t, |i, o, f| {
            let v4: Vector4<$t> = mk4(i, 0);
            let v3: Vector3<$t> = mk3(i, 0);
            let v2: Vector2<$t> = mk2(i, 0);
            o[0] = v4.x();
            o[1] = v4.y();
            o[2] = v4.z();
            o[3] = v4.w();
            o[4] = v3.x();
            o[5] = v3.y();
            o[6] = v3.z();
            o[7] = v2.x();
            o[8] = v2.y();
            let mut m = Vector4::<$t>::default();
            *m.x_mut() = i[4];
            *m.y_mut() = i[5];
            *m.z_mut() = i[6];
            *m.w_mut() = i[7];
            for k in 0..4 {
                o[9 + k] = m.vec[k];
            }
            let mut m = v3;
            *m.x_mut() = i[4];
            o[13] = m.vec[0];
            o[14] = m.vec[1];
            o[15] = m.vec[2];
            let mut m = v3;
            *m.y_mut() = i[5];
            *m.z_mut() = i[6];
            o[16] = m.vec[0];
            o[17] = m.vec[1];
            o[18] = m.vec[2];
        });
    };
}
vec_mix!(f32, ve_mix_f32, ve_acc_f32);
vec_mix!(f64, ve_mix_f64, ve_acc_f64);
vec_mix!(i16, ve_mix_i16, ve_acc_i16);

macro_rules! vec_norm {
    ($t:ty, $n4:ident, $n3:ident, $n2:ident) => {
        h!($n4, $t => $t, |i, o, f| {
            let a: Vector4<$t> = mk4(i, 0);
            o[0] = a.norm();
            let u = a.normalize();
            for k in 0..4 {
                o[1 + k] = u[k];
            }
            o[5] = a.distance(mk4(i, 4));
        });
        h!($n3, $t => $t, |i, o, f| {
            let a: Vector3<$t> = mk3(i, 0);
            o[0] = a.norm();
            let u = a.normalize();
            let un = Normal3::from(a).normalize();
            for k in 0..3 {
                o[1 + k] = u[k];
                o[4 + k] = un[k];
            }
            o[7] = a.distance(mk3(i, 3));
        });
        h!($n2, $t => $t, |i, o, f| {
            let a: Vector2<$t> = mk2(i, 0);
            o[0] = a.norm();
            let u = a.normalize();
            for k in 0..2 {
                o[1 + k] = u[k];
            }
            o[3] = a.distance(mk2(i, 2));
        });
    };
}
vec_norm!(f32, ve_norm4_f32, ve_norm3_f32, ve_norm2_f32);
vec_norm!(f64, ve_norm4_f64, ve_norm3_f64, ve_norm2_f64);
