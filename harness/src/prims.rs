use crate::h;
use crate::util::*;
use crate::NI;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::{
    Bounded3, IntersectionResult, IntersectsRay, Primitive, PrimitiveList, SurfaceInteraction, TransformedPrimitive,
};
use scarlet::geometry::ray::Rayf;
use scarlet::math::transform::Transform;
use scarlet::math::vector::{Normal3, Point2, Point3, Vector3};

/// An arbitrary primitive as seen by one ray: it is met at `t`, if at all, and reports it within tmax only.
#[derive(Clone, Copy)]
pub struct Mock {
    has: bool,
    t: f32,
    id: f32,
    b: Bbox3,
}
impl Bounded3 for Mock {
    fn bbox(&self) -> Bbox3 {
        self.b
    }
}
impl IntersectsRay for Mock {
    fn do_intersect(&self, ray: Rayf) -> bool {
        self.has && self.t <= ray.tmax
    }
    fn intersect(&self, ray: Rayf) -> Option<IntersectionResult> {
        if !self.do_intersect(ray) {
            return None;
        }
        Some(IntersectionResult {
            surface_interaction: SurfaceInteraction {
                p: Point3::new(self.id, ray.origin.x(), ray.direction.x()),
                n: Normal3::new(ray.origin.y(), ray.origin.z(), self.id),
                uv: Point2::new(self.id, ray.direction.y()),
                dpdu: Vector3::new(ray.direction.z(), self.id, ray.origin.x()),
                dpdv: Vector3::new(self.t, ray.origin.y(), self.id),
            },
            t_ray: self.t,
        })
    }
}
impl Primitive for Mock {}
fn mock(i: &[f32; NI], k: usize, id: f32) -> Mock {
    Mock { has: i[k] > 0.0, t: i[k + 1], id, b: bbox(i, k + 2) }
}
fn list(i: &[f32; NI], n: usize) -> PrimitiveList {
    let mut l = PrimitiveList::new();
    let mut k = 0;
    while k < n {
        l.add_primitive(mock(i, 8 * k, k as f32));
        k += 1;
    }
    l
}
macro_rules! lists {
    ($hit:ident, $any:ident, $bb:ident, $n:expr) => {
        h!($hit, f32 => f32, |i, o, f| {
            let l = list(i, $n);
            let r = ray(i, 8 * $n);
            match l.intersect(r) {
                Some(x) => {
                    f[0] = 1;
                    wh(o, 0, &x);
                }
                None => f[0] = 0,
            }
        });
        h!($any, f32 => f32, |i, o, f| {
            f[0] = list(i, $n).do_intersect(ray(i, 8 * $n)) as u64;
        });
        h!($bb, f32 => f32, |i, o, f| {
            wb(o, 0, list(i, $n).bbox());
        });
    };
}
lists!(pl_hit0_f32, pl_any0_f32, pl_bbox0_f32, 0);
lists!(pl_hit1_f32, pl_any1_f32, pl_bbox1_f32, 1);
lists!(pl_hit2_f32, pl_any2_f32, pl_bbox2_f32, 2);
lists!(pl_hit3_f32, pl_any3_f32, pl_bbox3_f32, 3);
lists!(pl_hit4_f32, pl_any4_f32, pl_bbox4_f32, 4);
lists!(pl_hit5_f32, pl_any5_f32, pl_bbox5_f32, 5);
lists!(pl_hit6_f32, pl_any6_f32, pl_bbox6_f32, 6);
lists!(pl_hit7_f32, pl_any7_f32, pl_bbox7_f32, 7);

/// An arbitrary primitive: the hit parameter is a linear function of the ray it is given, the rest is arbitrary.
#[derive(Clone, Copy)]
pub struct Mock2 {
    k: [f32; 7],
    s: SurfaceInteraction,
    b: Bbox3,
}
impl Mock2 {
    fn t(&self, r: Rayf) -> f32 {
        self.k[0] * r.origin.x()
            + self.k[1] * r.origin.y()
            + self.k[2] * r.origin.z()
            + self.k[3] * r.direction.x()
            + self.k[4] * r.direction.y()
            + self.k[5] * r.direction.z()
            + self.k[6] * r.tmax
    }
}
impl Bounded3 for Mock2 {
    fn bbox(&self) -> Bbox3 {
        self.b
    }
}
impl IntersectsRay for Mock2 {
    fn do_intersect(&self, ray: Rayf) -> bool {
        self.t(ray) > 0.0
    }
    fn intersect(&self, ray: Rayf) -> Option<IntersectionResult> {
        let t_ray = self.t(ray);
        if t_ray > 0.0 {
            Some(IntersectionResult { surface_interaction: self.s, t_ray })
        } else {
            None
        }
    }
}
impl Primitive for Mock2 {}
fn tp(i: &[f32; NI]) -> TransformedPrimitive<Mock2> {
    let m = Mock2 {
        k: [i[24], i[25], i[26], i[27], i[28], i[29], i[30]],
        s: SurfaceInteraction { p: p3(i, 31), n: n3(i, 34), uv: p2(i, 37), dpdu: v3(i, 39), dpdv: v3(i, 42) },
        b: bbox(i, 45),
    };
    TransformedPrimitive::new(m, Transform::new(aff(i, 0), aff(i, 12)))
}
// matrix (12), inverse (12), mock (7 + 14 + 6), ray (7)
h!(tp_hit_f32, f32 => f32, |i, o, f| {
    match tp(i).intersect(ray(i, 51)) {
        Some(x) => {
            f[0] = 1;
            wh(o, 0, &x);
        }
        None => f[0] = 0,
    }
});
h!(tp_any_f32, f32 => f32, |i, o, f| {
    f[0] = tp(i).do_intersect(ray(i, 51)) as u64;
});
h!(tp_bbox_f32, f32 => f32, |i, o, f| {
    wb(o, 0, tp(i).bbox());
});
