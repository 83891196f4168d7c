use crate::{NI, NO};
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::IntersectionResult;
use scarlet::geometry::ray::{Ray, Rayf};
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{GFloat, Scalar};
use scarlet::math::transform::{Matrix4x4, Transform};
use scarlet::math::vector::{GenericVector, Normal3, Point2, Point3, Vector3};

pub fn v3<T: Scalar>(i: &[T; NI], k: usize) -> Vector3<T> {
    Vector3::new(i[k], i[k + 1], i[k + 2])
}
pub fn p3<T: Scalar>(i: &[T; NI], k: usize) -> Point3<T> {
    Point3::new(i[k], i[k + 1], i[k + 2])
}
pub fn n3<T: Scalar>(i: &[T; NI], k: usize) -> Normal3<T> {
    Normal3::new(i[k], i[k + 1], i[k + 2])
}
pub fn p2<T: Scalar>(i: &[T; NI], k: usize) -> Point2<T> {
    Point2::new(i[k], i[k + 1])
}
pub fn ray<T: Scalar>(i: &[T; NI], k: usize) -> Ray<T> {
    Ray::new(p3(i, k), v3(i, k + 3), i[k + 6])
}
/// a ray without end
pub fn ray_inf(i: &[f32; NI], k: usize) -> Ray<f32> {
    Ray::new(p3(i, k), v3(i, k + 3), f32::INFINITY)
}
pub fn mat<T: Scalar>(i: &[T; NI], k: usize) -> Matrix4x4<T> {
    Matrix4x4::from([
        [i[k], i[k + 1], i[k + 2], i[k + 3]],
        [i[k + 4], i[k + 5], i[k + 6], i[k + 7]],
        [i[k + 8], i[k + 9], i[k + 10], i[k + 11]],
        [i[k + 12], i[k + 13], i[k + 14], i[k + 15]],
    ])
}
/// affine matrix from 12 numbers
pub fn aff<T: Scalar>(i: &[T; NI], k: usize) -> Matrix4x4<T> {
    Matrix4x4::from([
        [i[k], i[k + 1], i[k + 2], i[k + 3]],
        [i[k + 4], i[k + 5], i[k + 6], i[k + 7]],
        [i[k + 8], i[k + 9], i[k + 10], i[k + 11]],
        [T::zero(), T::zero(), T::zero(), T::one()],
    ])
}
pub fn iv<T: GFloat>(i: &[T; NI], k: usize) -> Interval<T> {
    Interval::new(i[k], i[k + 1])
}
pub fn ivraw<T: GFloat>(i: &[T; NI], k: usize) -> Interval<T> {
    Interval { inf: i[k], sup: i[k + 1] }
}
pub fn bbox(i: &[f32; NI], k: usize) -> Bbox3 {
    Bbox3 { pmin: p3(i, k), pmax: p3(i, k + 3) }
}
pub fn wv<T: Scalar, U>(o: &mut [T; NO], k: usize, v: GenericVector<T, 3, U>) {
    o[k] = v.vec[0];
    o[k + 1] = v.vec[1];
    o[k + 2] = v.vec[2];
}
pub fn wv2<T: Scalar, U>(o: &mut [T; NO], k: usize, v: GenericVector<T, 2, U>) {
    o[k] = v.vec[0];
    o[k + 1] = v.vec[1];
}
pub fn wm<T: Scalar>(o: &mut [T; NO], k: usize, m: Matrix4x4<T>) {
    o[k] = m.data[0][0];
    o[k + 1] = m.data[0][1];
    o[k + 2] = m.data[0][2];
    o[k + 3] = m.data[0][3];
    o[k + 4] = m.data[1][0];
    o[k + 5] = m.data[1][1];
    o[k + 6] = m.data[1][2];
    o[k + 7] = m.data[1][3];
    o[k + 8] = m.data[2][0];
    o[k + 9] = m.data[2][1];
    o[k + 10] = m.data[2][2];
    o[k + 11] = m.data[2][3];
    o[k + 12] = m.data[3][0];
    o[k + 13] = m.data[3][1];
    o[k + 14] = m.data[3][2];
    o[k + 15] = m.data[3][3];
}
/// both matrices of a transform
pub fn wt<T: GFloat>(o: &mut [T; NO], k: usize, t: Transform<T>) {
    wm(o, k, t.matrix());
    wm(o, k + 16, t.inverse_matrix());
}
pub fn wi<T: GFloat>(o: &mut [T; NO], k: usize, v: Interval<T>) {
    o[k] = v.inf;
    o[k + 1] = v.sup;
}
pub fn wb(o: &mut [f32; NO], k: usize, b: Bbox3) {
    wv(o, k, b.pmin);
    wv(o, k + 3, b.pmax);
}
pub fn wr(o: &mut [f32; NO], k: usize, r: Rayf) {
    wv(o, k, r.origin);
    wv(o, k + 3, r.direction);
    o[k + 6] = r.tmax;
}
/// t, p(3), n(3), uv(2), dpdu(3), dpdv(3)
pub fn wh(o: &mut [f32; NO], k: usize, r: &IntersectionResult) {
    let s = &r.surface_interaction;
    o[k] = r.t_ray;
    wv(o, k + 1, s.p);
    wv(o, k + 4, s.n);
    wv2(o, k + 7, s.uv);
    wv(o, k + 9, s.dpdu);
    wv(o, k + 12, s.dpdv);
}
