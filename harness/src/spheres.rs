use crate::h;
use crate::util::*;
use scarlet::geometry::ray::Rayf;
use scarlet::math::vector::{Point3f, Vector3f};
use crate::NI;
use scarlet::geometry::primitive::{Bounded3, IntersectsRay};
use scarlet::geometry::sphere::Sphere;

pub fn sphere(i: &[f32; NI], k: usize) -> Sphere {
    Sphere::new(i[k], i[k + 1], i[k + 2], i[k + 3])
}
// sphere (4), ray (7)
h!(sp_hit_f32, f32 => f32, |i, o, f| {
    let s = sphere(i, 0);
    match s.intersect(ray(i, 4)) {
        Some(h) => {
            f[0] = 1;
            wh(o, 0, &h);
            o[15] = s.theta_min;
            o[16] = s.theta_max;
        }
        None => f[0] = 0,
    }
});
// a whole sphere and a ray along the z axis: radius, origin, direction, tmax
h!(sp_axis_f32, f32 => f32, |i, o, f| {
    let s = Sphere::new(i[0], -i[0], i[0], std::f32::consts::PI);
    let r = Rayf::new(Point3f::new(i[1], i[2], i[3]), Vector3f::new(0.0, 0.0, i[4]), i[5]);
    match s.intersect(r) {
        Some(h) => {
            f[0] = 1;
            wh(o, 0, &h);
        }
        None => f[0] = 0,
    }
});
// rays without end
h!(sp_hitu_f32, f32 => f32, |i, o, f| {
    match sphere(i, 0).intersect(ray_inf(i, 4)) {
        Some(h) => {
            f[0] = 1;
            wh(o, 0, &h);
        }
        None => f[0] = 0,
    }
});
h!(sp_anyu_f32, f32 => f32, |i, o, f| {
    f[0] = sphere(i, 0).do_intersect(ray_inf(i, 4)) as u64;
});
h!(sp_any_f32, f32 => f32, |i, o, f| {
    let s = sphere(i, 0);
    f[0] = s.do_intersect(ray(i, 4)) as u64;
});
h!(sp_both_f32, f32 => f32, |i, o, f| {
    let s = sphere(i, 0);
    let r = ray(i, 4);
    f[0] = s.do_intersect(r) as u64;
    f[1] = s.intersect(r).is_some() as u64;
});
h!(sp_new_f32, f32 => f32, |i, o, f| {
    let s = sphere(i, 0);
    o[0] = s.radius;
    o[1] = s.z_min;
    o[2] = s.z_max;
    o[3] = s.theta_min;
    o[4] = s.theta_max;
    o[5] = s.phi_max;
    o[6] = s.area();
    wb(o, 7, s.bbox());
});
