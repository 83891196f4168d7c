use crate::h;
use crate::util::*;
use scarlet::cameras::camera::{concentric_sample_disk, uniform_sample_disk, Camera, CameraSample};
use scarlet::cameras::thin_lens::ThinLensCamera;
use scarlet::math::transform::Transform;

h!(disk_uniform_f32, f32 => f32, |i, o, f| {
    wv2(o, 0, uniform_sample_disk(p2(i, 0)));
});
h!(disk_concentric_f32, f32 => f32, |i, o, f| {
    wv2(o, 0, concentric_sample_disk(p2(i, 0)));
});
// view (12), its inverse (12), focal distance, fov, focal length, lens radius, aspect ratio, film (2), lens (2)
h!(cam_ray_f32, f32 => f32, |i, o, f| {
    let t = Transform::new(aff(i, 0), aff(i, 12));
    let c = ThinLensCamera::new(t, i[24], i[25], i[26], i[27], i[28]);
    wr(o, 0, c.generate_ray(CameraSample::new(p2(i, 29), p2(i, 31))));
    wv2(o, 7, concentric_sample_disk(p2(i, 31)));
});
