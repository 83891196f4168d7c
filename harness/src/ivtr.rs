//! Interval coordinates through transforms and rays.
use crate::h;
use crate::util::*;
use crate::{NI, NO};
use scarlet::geometry::ray::Ray;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::GFloat;
use scarlet::math::transform::{Matrix4x4, Transform};
use scarlet::math::vector::{Normal3, Point3, Vector3};

fn ivs<T: GFloat>(i: &[T; NI], k: usize) -> (Interval<T>, Interval<T>, Interval<T>) {
    (iv(i, k), iv(i, k + 2), iv(i, k + 4))
}
fn w3<T: GFloat>(o: &mut [T; NO], k: usize, a: Interval<T>, b: Interval<T>, c: Interval<T>) {
    wi(o, k, a);
    wi(o, k + 2, b);
    wi(o, k + 4, c);
}
/// a matrix with one free row
fn row<T: GFloat>(i: &[T; NI], r: usize) -> Matrix4x4<T> {
    let (z, u) = (T::zero(), T::one());
    let mut m = Matrix4x4::from([[z, z, z, z], [z, z, z, z], [z, z, z, z], [z, z, z, u]]);
    m.data[r] = [i[0], i[1], i[2], i[3]];
    m
}
/// a matrix with one free column
fn col<T: GFloat>(i: &[T; NI], r: usize) -> Matrix4x4<T> {
    let (z, u) = (T::zero(), T::one());
    let mut m = Matrix4x4::from([[z, z, z, z], [z, z, z, z], [z, z, z, z], [z, z, z, u]]);
    m.data[0][r] = i[0];
    m.data[1][r] = i[1];
    m.data[2][r] = i[2];
    m
}
macro_rules! full {
    ($t:ty, $v:ident, $p:ident, $n:ident, $r:ident, $e:ident) => {
        h!($v, $t => $t, |i, o, f| {
            let t = Transform::new(aff(i, 0), aff(i, 12));
            let (a, b, c) = ivs(i, 24);
            let v: Vector3<Interval<$t>> = t.map(Vector3::new(a, b, c));
            w3(o, 0, v.x(), v.y(), v.z());
            let v: Vector3<Interval<$t>> = t.map_inverse(Vector3::new(a, b, c));
            w3(o, 6, v.x(), v.y(), v.z());
        });
        h!($p, $t => $t, |i, o, f| {
            let t = Transform::new(aff(i, 0), aff(i, 12));
            let (a, b, c) = ivs(i, 24);
            let v: Point3<Interval<$t>> = t.map(Point3::new(a, b, c));
            w3(o, 0, v.x(), v.y(), v.z());
            let v: Point3<Interval<$t>> = t.map_inverse(Point3::new(a, b, c));
            w3(o, 6, v.x(), v.y(), v.z());
        });
        h!($n, $t => $t, |i, o, f| {
            let t = Transform::new(aff(i, 0), aff(i, 12));
            let (a, b, c) = ivs(i, 24);
            let v: Normal3<Interval<$t>> = t.map(Normal3::new(a, b, c));
            w3(o, 0, v.x(), v.y(), v.z());
            let v: Normal3<Interval<$t>> = t.map_inverse(Normal3::new(a, b, c));
            w3(o, 6, v.x(), v.y(), v.z());
        });
        h!($r, $t => $t, |i, o, f| {
            let t = Transform::new(aff(i, 0), aff(i, 12));
            let (a, b, c) = ivs(i, 24);
            let (d, e, g) = ivs(i, 30);
            let q: Ray<Interval<$t>> = t.map(Ray::new(Point3::new(a, b, c), Vector3::new(d, e, g), iv(i, 36)));
            w3(o, 0, q.origin.x(), q.origin.y(), q.origin.z());
            w3(o, 6, q.direction.x(), q.direction.y(), q.direction.z());
            wi(o, 12, q.tmax);
        });
        h!($e, $t => $t, |i, o, f| {
            let (a, b, c) = ivs(i, 0);
            let (d, e, g) = ivs(i, 6);
            let q = Ray::new(Point3::new(a, b, c), Vector3::new(d, e, g), iv(i, 12)).eval(iv(i, 12));
            w3(o, 0, q.x(), q.y(), q.z());
        });
    };
}
full!(f32, ivt_vec_f32, ivt_pt_f32, ivt_nor_f32, ivt_ray_f32, ivt_eval_f32);
full!(f64, ivt_vec_f64, ivt_pt_f64, ivt_nor_f64, ivt_ray_f64, ivt_eval_f64);

macro_rules! rows {
    ($t:ty, $r:expr, $v:ident, $p:ident, $n:ident) => {
        h!($v, $t => $t, |i, o, f| {
            let t = Transform::new(row(i, $r), row(i, $r));
            let (a, b, c) = ivs(i, 4);
            let v: Vector3<Interval<$t>> = t.map(Vector3::new(a, b, c));
            w3(o, 0, v.x(), v.y(), v.z());
        });
        h!($p, $t => $t, |i, o, f| {
            let t = Transform::new(row(i, $r), row(i, $r));
            let (a, b, c) = ivs(i, 4);
            let v: Point3<Interval<$t>> = t.map(Point3::new(a, b, c));
            w3(o, 0, v.x(), v.y(), v.z());
        });
        h!($n, $t => $t, |i, o, f| {
            let t = Transform::new(col(i, $r), col(i, $r));
            let (a, b, c) = ivs(i, 4);
            let v: Normal3<Interval<$t>> = t.map(Normal3::new(a, b, c));
            w3(o, 0, v.x(), v.y(), v.z());
        });
    };
}
rows!(f32, 0, ivr_vec0_f32, ivr_pt0_f32, ivr_nor0_f32);
rows!(f32, 1, ivr_vec1_f32, ivr_pt1_f32, ivr_nor1_f32);
rows!(f32, 2, ivr_vec2_f32, ivr_pt2_f32, ivr_nor2_f32);

macro_rules! scaled {
    ($t:ty, $k:expr, $m:ident, $d:ident) => {
        // one free component
        h!($m, $t => $t, |i, o, f| {
            let mut v = Vector3::<Interval<$t>>::default();
            v[$k] = iv(i, 0);
            let v = v * i[2];
            wi(o, 0, v[$k]);
        });
        h!($d, $t => $t, |i, o, f| {
            let mut v = Point3::<Interval<$t>>::default();
            v[$k] = iv(i, 0);
            let v = v / i[2];
            wi(o, 0, v[$k]);
        });
    };
}
scaled!(f32, 0, ivs_mul0_f32, ivs_div0_f32);
scaled!(f32, 1, ivs_mul1_f32, ivs_div1_f32);
scaled!(f32, 2, ivs_mul2_f32, ivs_div2_f32);
scaled!(f64, 0, ivs_mul0_f64, ivs_div0_f64);
scaled!(f64, 1, ivs_mul1_f64, ivs_div1_f64);
scaled!(f64, 2, ivs_mul2_f64, ivs_div2_f64);

macro_rules! conv {
    ($t:ty, $c:ident) => {
        h!($c, $t => $t, |i, o, f| {
            let (a, b, c) = ivs(i, 0);
            let v: Normal3<$t> = Normal3::new(a, b, c).into();
            o[0] = v.x();
            o[1] = v.y();
            o[2] = v.z();
            let w: Vector3<Interval<$t>> = Vector3::new(i[6], i[7], i[8]).into();
            w3(o, 3, w.x(), w.y(), w.z());
        });
    };
}
conv!(f32, ivs_conv_f32);
conv!(f64, ivs_conv_f64);
