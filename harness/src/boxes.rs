use crate::h;
use crate::util::*;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::{Bounded3, IntersectsRay};
use scarlet::math::transform::Transform;

// corners p1, p2, point q
h!(bb_new_f32, f32 => f32, |i, o, f| {
    let b = Bbox3::new(p3(i, 0), p3(i, 3));
    wb(o, 0, b);
    f[0] = b.inside(p3(i, 0)) as u64;
    f[1] = b.inside(p3(i, 3)) as u64;
});
// two boxes, raw
h!(bb_pair_f32, f32 => f32, |i, o, f| {
    let (a, b) = (bbox(i, 0), bbox(i, 6));
    wb(o, 0, a.union(&b));
    wb(o, 6, a.intersect(&b));
    wb(o, 12, a + b);
    let mut c = a;
    c += b;
    wb(o, 18, c);
    f[0] = a.overlaps(&b) as u64;
    f[1] = b.overlaps(&a) as u64;
});
h!(bb_point_f32, f32 => f32, |i, o, f| {
    let (a, b) = (bbox(i, 0), bbox(i, 6));
    let q = p3(i, 12);
    f[0] = a.inside(q) as u64;
    f[1] = b.inside(q) as u64;
    f[2] = a.union(&b).inside(q) as u64;
    f[3] = a.intersect(&b).inside(q) as u64;
});
h!(bb_default_f32, f32 => f32, |i, o, f| {
    let d = Bbox3::default();
    let a = bbox(i, 0);
    wb(o, 0, d.union(&a));
    wb(o, 6, a + d);
    f[0] = d.inside(p3(i, 6)) as u64;
});
h!(bb_shape_f32, f32 => f32, |i, o, f| {
    let a = bbox(i, 0);
    wv(o, 0, a.diagonal());
    wv(o, 3, a.center());
    let ((lo, hi), ax) = a.max_extent();
    o[6] = lo;
    o[7] = hi;
    f[0] = ax as u64;
    let c = a.bbox();
    wb(o, 8, c);
    o[14] = a.xmin();
    o[15] = a.ymin();
    o[16] = a.zmin();
    o[17] = a.xmax();
    o[18] = a.ymax();
    o[19] = a.zmax();
});
// affine matrix (12), other matrix (12), box (6)
h!(bb_mapf_f32, f32 => f32, |i, o, f| {
    let t = Transform::new(aff(i, 0), aff(i, 12));
    wb(o, 0, t.map(bbox(i, 24)));
});
h!(bb_mapi_f32, f32 => f32, |i, o, f| {
    let t = Transform::new(aff(i, 0), aff(i, 12));
    wb(o, 0, t.map_inverse(bbox(i, 24)));
});
// box (6), ray (7)
h!(bb_ray_f32, f32 => f32, |i, o, f| {
    if let Some((a, b)) = bbox(i, 0).intersect_ray(ray(i, 6)) {
        f[0] = 1;
        o[0] = a;
        o[1] = b;
    } else {
        f[0] = 0;
        o[0] = 0.0;
        o[1] = 0.0;
    }
});
// rays without end
h!(bb_rayu_f32, f32 => f32, |i, o, f| {
    let (b, r) = (bbox(i, 0), ray_inf(i, 6));
    f[1] = b.do_intersect(r) as u64;
    if let Some((s, t)) = b.intersect_ray(r) {
        f[0] = 1;
        o[0] = s;
        o[1] = t;
    } else {
        f[0] = 0;
        o[0] = 0.0;
        o[1] = 0.0;
    }
});
h!(bb_hit_f32, f32 => f32, |i, o, f| {
    let (b, r) = (bbox(i, 0), ray(i, 6));
    if let Some(h) = IntersectsRay::intersect(&b, r) {
        f[0] = 1;
        wh(o, 0, &h);
    } else {
        f[0] = 0;
    }
});
h!(bb_hitu_f32, f32 => f32, |i, o, f| {
    let (b, r) = (bbox(i, 0), ray_inf(i, 6));
    if let Some(h) = IntersectsRay::intersect(&b, r) {
        f[0] = 1;
        wh(o, 0, &h);
    } else {
        f[0] = 0;
    }
});
h!(bb_any_f32, f32 => f32, |i, o, f| {
    let (b, r) = (bbox(i, 0), ray(i, 6));
    f[0] = b.do_intersect(r) as u64;
    f[1] = b.intersect_ray(r).is_some() as u64;
});
h!(bb_any2_f32, f32 => f32, |i, o, f| {
    let (b, r) = (bbox(i, 0), ray(i, 6));
    f[0] = b.do_intersect(r) as u64;
    f[1] = IntersectsRay::intersect(&b, r).is_some() as u64;
});
