use crate::h;
use crate::util::*;
use scarlet::geometry::ray::Ray;
use scarlet::math::scalar::AlmostEqual;
use scarlet::math::transform::{Invertible, Matrix4x4, Transform, TransformMap};
use scarlet::math::vector::{Normal3, Point3, Vector3};

macro_rules! matrices {
    ($t:ty, $mul:ident, $ops:ident, $cmp:ident, $alm:ident) => {
        h!($mul, $t => $t, |i, o, f| {
            wm(o, 0, mat(i, 0) * mat(i, 16));
            wm(o, 16, mat(i, 0) * Matrix4x4::identity());
            wm(o, 32, Matrix4x4::<$t>::zero());
            wm(o, 48, Matrix4x4::<$t>::new());
            wm(o, 64, Matrix4x4::<$t>::default());
        });
        h!($ops, $t => $t, |i, o, f| {
            let a = mat(i, 0);
            wm(o, 0, a.transpose());
            wm(o, 16, a * i[16]);
            let mut m = a;
            for r in 0..4 {
                let (row, col, rv, cv) = (a.row(r), a.col(r), a.row_vec(r), a.col_vec(r));
                for k in 0..4 {
                    o[32 + 4 * r + k] = row[k];
                    o[48 + 4 * r + k] = col[k];
                    o[64 + 4 * r + k] = rv[k];
                    o[80 + 4 * r + k] = cv[k];
                    o[96 + 4 * r + k] = a[(r, k)];
                    m[(r, k)] = a[k][r];
                }
            }
            m[1][2] = i[16];
            wm(o, 112, m);
        });
        h!($cmp, $t => $t, |i, o, f| {
            let (a, b) = (mat(i, 0), mat(i, 16));
            f[0] = (a == b) as u64;
        });
        h!($alm, $t => $t, |i, o, f| {
            let (a, b) = (mat(i, 0), mat(i, 16));
            f[1] = a.almost_eq(b) as u64;
            let mut all = true;
            for r in 0..4 {
                for k in 0..4 {
                    all = all & a[(r, k)].almost_eq(b[(r, k)]);
                }
            }
            f[2] = all as u64;
        });
    };
}
matrices!(f32, mx_mul_f32, mx_ops_f32, mx_cmp_f32, mx_alm_f32);
matrices!(f64, mx_mul_f64, mx_ops_f64, mx_cmp_f64, mx_alm_f64);

macro_rules! transforms {
    ($t:ty, $inv:ident, $compose:ident, $basic:ident, $tra:ident, $sca:ident, $rx:ident, $ry:ident, $rz:ident,
     $rot:ident, $look:ident, $persp:ident, $vec:ident, $pt:ident, $nor:ident, $ray:ident) => {
        h!($inv, $t => $t, |i, o, f| { wm(o, 0, mat(i, 0).inverse()); });
        h!($compose, $t => $t, |i, o, f| {
            wt(o, 0, Transform::new(mat(i, 0), mat(i, 16)) * Transform::new(mat(i, 32), mat(i, 48)));
        });
        h!($basic, $t => $t, |i, o, f| {
            let t = Transform::new(mat(i, 0), mat(i, 16));
            wt(o, 0, t.inverse());
            wt(o, 32, Transform::<$t>::identity());
            wt(o, 64, t);
        });
        h!($tra, $t => $t, |i, o, f| { wt(o, 0, Transform::translate(v3(i, 0))); });
        h!($sca, $t => $t, |i, o, f| { wt(o, 0, Transform::scale(v3(i, 0))); });
        h!($rx, $t => $t, |i, o, f| { wt(o, 0, Transform::rotate_x(i[0])); });
        h!($ry, $t => $t, |i, o, f| { wt(o, 0, Transform::rotate_y(i[0])); });
        h!($rz, $t => $t, |i, o, f| { wt(o, 0, Transform::rotate_z(i[0])); });
        h!($rot, $t => $t, |i, o, f| { wt(o, 0, Transform::rotate(v3(i, 0), i[3])); });
        h!($look, $t => $t, |i, o, f| { wt(o, 0, Transform::look_at(p3(i, 0), p3(i, 3), v3(i, 6))); });
        h!($persp, $t => $t, |i, o, f| { wt(o, 0, Transform::perspective(i[0], i[1], i[2])); });
        // m, minv, v
        h!($vec, $t => $t, |i, o, f| {
            let t = Transform::new(mat(i, 0), mat(i, 16));
            let a: Vector3<$t> = t.map(v3(i, 32));
            let c: Vector3<$t> = TransformMap::map(&t, v3(i, 32));
            wv(o, 0, a);
            wv(o, 6, c);
        });
        h!($pt, $t => $t, |i, o, f| {
            let t = Transform::new(mat(i, 0), mat(i, 16));
            let a: Point3<$t> = t.map(p3(i, 32));
            wv(o, 0, a);
        });
        h!($nor, $t => $t, |i, o, f| {
            let t = Transform::new(mat(i, 0), mat(i, 16));
            let a: Normal3<$t> = t.map(n3(i, 32));
            let b: Normal3<$t> = t.map_inverse(n3(i, 32));
            wv(o, 0, a);
            wv(o, 3, b);
        });
        h!($ray, $t => $t, |i, o, f| {
            let t = Transform::new(mat(i, 0), mat(i, 16));
            let r: Ray<$t> = t.map(ray(i, 32));
            wv(o, 0, r.origin);
            wv(o, 3, r.direction);
            o[6] = r.tmax;
        });
    };
}
transforms!(f32, tr_inv_f32, tr_compose_f32, tr_basic_f32, tr_translate_f32, tr_scale_f32, tr_rotx_f32, tr_roty_f32,
            tr_rotz_f32, tr_rotate_f32, tr_look_f32, tr_persp_f32, tr_vec_f32, tr_pt_f32, tr_nor_f32, tr_ray_f32);
transforms!(f64, tr_inv_f64, tr_compose_f64, tr_basic_f64, tr_translate_f64, tr_scale_f64, tr_rotx_f64, tr_roty_f64,
            tr_rotz_f64, tr_rotate_f64, tr_look_f64, tr_persp_f64, tr_vec_f64, tr_pt_f64, tr_nor_f64, tr_ray_f64);

macro_rules! inverses {
    ($t:ty, $vec:ident, $pt:ident, $ray:ident, $eval:ident, $cmp:ident, $alm:ident) => {
        h!($vec, $t => $t, |i, o, f| {
            let t = Transform::new(mat(i, 0), mat(i, 16));
            let a: Vector3<$t> = t.map_inverse(v3(i, 32));
            wv(o, 0, a);
        });
        h!($pt, $t => $t, |i, o, f| {
            let t = Transform::new(mat(i, 0), mat(i, 16));
            let a: Point3<$t> = t.map_inverse(p3(i, 32));
            wv(o, 0, a);
        });
        h!($ray, $t => $t, |i, o, f| {
            let t = Transform::new(mat(i, 0), mat(i, 16));
            let r: Ray<$t> = t.map_inverse(ray(i, 32));
            wv(o, 0, r.origin);
            wv(o, 3, r.direction);
            o[6] = r.tmax;
        });
        h!($eval, $t => $t, |i, o, f| {
            let r = ray(i, 0);
            wv(o, 0, r.eval(i[7]));
            wv(o, 3, r.origin);
            wv(o, 6, r.direction);
            o[9] = r.tmax;
        });
        h!($cmp, $t => $t, |i, o, f| {
            let (a, b) = (Transform::new(mat(i, 0), mat(i, 16)), Transform::new(mat(i, 32), mat(i, 48)));
            f[0] = (a == b) as u64;
        });
        h!($alm, $t => $t, |i, o, f| {
            let (a, b) = (Transform::new(mat(i, 0), mat(i, 16)), Transform::new(mat(i, 32), mat(i, 48)));
            f[1] = a.almost_eq(b) as u64;
            f[2] = a.matrix().almost_eq(b.matrix()) as u64;
            f[3] = a.inverse_matrix().almost_eq(b.inverse_matrix()) as u64;
        });
    };
}
inverses!(f32, tr_veci_f32, tr_pti_f32, tr_rayi_f32, ray_eval_f32, tr_cmp_f32, tr_alm_f32);
inverses!(f64, tr_veci_f64, tr_pti_f64, tr_rayi_f64, ray_eval_f64, tr_cmp_f64, tr_alm_f64);

// laws on affine transforms: a (12), b (12), p, v, n, ray (7), s
macro_rules! laws {
    ($t:ty, $round:ident, $comp:ident, $ray:ident) => {
        h!($round, $t => $t, |i, o, f| {
            let m = aff(i, 0);
            let t = Transform::new(m, m.inverse());
            let p: Point3<$t> = p3(i, 24);
            let v: Vector3<$t> = v3(i, 27);
            let n: Normal3<$t> = n3(i, 30);
            wv(o, 0, t.map_inverse(t.map(p)));
            wv(o, 3, t.map(t.map_inverse(p)));
            wv(o, 6, t.map_inverse(t.map(v)));
            wv(o, 9, t.map(t.map_inverse(v)));
            wv(o, 12, t.map_inverse(t.map(n)));
            wv(o, 15, t.map(t.map_inverse(n)));
            let (tn, tv): (Normal3<$t>, Vector3<$t>) = (t.map(n), t.map(v));
            o[18] = tn.dot(tv);
            let (tn, tv): (Normal3<$t>, Vector3<$t>) = (t.map_inverse(n), t.map_inverse(v));
            o[19] = tn.dot(tv);
            wv(o, 20, t.inverse().map(p));
            wv(o, 23, t.map_inverse(p));
        });
        h!($comp, $t => $t, |i, o, f| {
            let (a, b) = (aff(i, 0), aff(i, 12));
            let (s, t) = (Transform::new(a, a.inverse()), Transform::new(b, b.inverse()));
            let st = s * t;
            let p: Point3<$t> = p3(i, 24);
            let v: Vector3<$t> = v3(i, 27);
            wv(o, 0, st.map(p));
            wv(o, 3, s.map(t.map(p)));
            wv(o, 6, st.map(v));
            wv(o, 9, s.map(t.map(v)));
            wv(o, 12, Transform::<$t>::identity().map(p));
            wv(o, 15, Transform::<$t>::identity().map(v));
        });
        h!($ray, $t => $t, |i, o, f| {
            let m = aff(i, 0);
            let t = Transform::new(m, aff(i, 12));
            let r = ray(i, 33);
            let q: Ray<$t> = t.map(r);
            wv(o, 0, q.eval(i[40]));
            wv(o, 3, t.map(r.eval(i[40])));
            o[6] = q.tmax;
            let q: Ray<$t> = t.map_inverse(r);
            wv(o, 7, q.eval(i[40]));
            wv(o, 10, t.map_inverse(r.eval(i[40])));
            o[13] = q.tmax;
        });
    };
}
laws!(f32, tr_round_f32, tr_comp_f32, tr_raylaw_f32);
laws!(f64, tr_round_f64, tr_comp_f64, tr_raylaw_f64);
