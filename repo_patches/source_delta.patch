From f328237f4b7c87ca4cdda92aa9f9e3ee88ecd2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 01/24] fix: gather albedo and normals when a post processor
 needs them, not otherwise

---
 src/renderer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/renderer/mod.rs b/src/renderer/mod.rs
index 6f8cf82..5652233 100644
--- a/src/renderer/mod.rs
+++ b/src/renderer/mod.rs
@@ -218,7 +218,7 @@ impl Renderer {
         let pixel_count = image_width * image_height;
         let samples_per_pixel = self.scene.render_config.samples_per_pixel;
         let needs_albedo_and_normal_colors =
-            !self.scene.render_config.needs_albedo_and_normal_colors();
+            self.scene.render_config.needs_albedo_and_normal_colors();
 
         let pixel_colors: Arc<Mutex<Vec<Vec3>>> =
             Arc::new(Mutex::new(vec![ZERO_VECTOR; pixel_count]));
-- 
2.43.0


From 5fdec7f09e6dc1425352b4e1f2645a64c8227cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 02/24] fix: images one pixel wide or high divided by zero and
 came out black

---
 src/renderer/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/renderer/mod.rs b/src/renderer/mod.rs
index 5652233..85280f7 100644
--- a/src/renderer/mod.rs
+++ b/src/renderer/mod.rs
@@ -260,8 +260,10 @@ impl Renderer {
 
                         let yi = ((image_height - 1) - y) * image_width;
                         for x in 0..image_width {
-                            let u = (x as f64 + random_normal_float()) / (image_width - 1) as f64;
-                            let v = (y as f64 + random_normal_float()) / (image_height - 1) as f64;
+                            let u = (x as f64 + random_normal_float())
+                                / (image_width - 1).max(1) as f64;
+                            let v = (y as f64 + random_normal_float())
+                                / (image_height - 1).max(1) as f64;
                             let ray = camera.get_ray(Uv::new(u as f32, v as f32));
                             let ray_color_res = self.ray_color(&ray, 0, 0.);
 
-- 
2.43.0


From b7cab857b99654c5bd1f9e4886ce9d7d57ac90cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 03/24] fix: report a failed thread pool as an error instead of
 panicking

---
 src/renderer/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/renderer/mod.rs b/src/renderer/mod.rs
index 85280f7..435b624 100644
--- a/src/renderer/mod.rs
+++ b/src/renderer/mod.rs
@@ -229,9 +229,7 @@ impl Renderer {
 
         let camera = Arc::new(Camera::new(image_width, image_height, &self.scene.camera));
 
-        let pool = rayon::ThreadPoolBuilder::new()
-            .build()
-            .expect("Failed to create thread pool");
+        let pool = rayon::ThreadPoolBuilder::new().build()?;
 
         for sample in 1..=samples_per_pixel {
             if abort.try_recv().is_ok() {
-- 
2.43.0


From f640fcd5601ed2a05dfaac856a4a89b9def729e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 04/24] fix: triangle lights were sampled over a parallelogram,
 so rays missed them

---
 src/hittable/triangle.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hittable/triangle.rs b/src/hittable/triangle.rs
index c8a6334..53950ad 100644
--- a/src/hittable/triangle.rs
+++ b/src/hittable/triangle.rs
@@ -112,7 +112,14 @@ impl Hittable for Triangle {
     }
 
     fn random_direction(&self, origin: Vec3) -> Vec3 {
-        let p = self.v0 + self.v0v1 * random_normal_float() + self.v0v2 * random_normal_float();
+        let mut a = random_normal_float();
+        let mut b = random_normal_float();
+        if a + b > 1. {
+            // Fold back the half of the parallelogram that is outside the triangle
+            a = 1. - a;
+            b = 1. - b;
+        }
+        let p = self.v0 + self.v0v1 * a + self.v0v2 * b;
         p - origin
     }
 
-- 
2.43.0


From 2c391cc3f3478eb9b1ac84035a561ed9fc294faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 05/24] fix: attenuate light by the distance travelled, not by
 the ray parameter

---
 src/renderer/shader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/renderer/shader.rs b/src/renderer/shader.rs
index a1f3dc5..5cb9055 100644
--- a/src/renderer/shader.rs
+++ b/src/renderer/shader.rs
@@ -71,7 +71,7 @@ impl Shader for PathTracingShader {
             return AttenuatedColor::default();
         }
 
-        let total_ray_length = rec.ray_length + accumulated_ray_length;
+        let total_ray_length = rec.ray_length * ray.direction.length() + accumulated_ray_length;
         let ray_scatter = rec.material.scatter(ray, rec, &renderer.lights);
 
         match ray_scatter {
-- 
2.43.0


From 1e424f7bb57146107614053bf7eb5557f914c2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 06/24] fix: sphere bi-tangent was scaled by the radius,
 distorting normal maps

---
 src/hittable/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hittable/sphere.rs b/src/hittable/sphere.rs
index aed43b8..6f6108d 100644
--- a/src/hittable/sphere.rs
+++ b/src/hittable/sphere.rs
@@ -87,7 +87,7 @@ impl Hittable for Sphere {
         let uv = calculate_sphere_uv(normal);
 
         let tangent = UNIT_Y.cross(n).unit();
-        let bi_tangent = n.cross(tangent);
+        let bi_tangent = normal.cross(tangent);
 
         let front_face = r.direction.dot(normal) < 0.;
         if !front_face {
-- 
2.43.0


From bdca04dc42177c63435078fe9f0e99f139b7933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 07/24] fix: models with more than 255 materials got the wrong
 ones

---
 src/loader/obj.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/loader/obj.rs b/src/loader/obj.rs
index 59b4ef5..e817011 100644
--- a/src/loader/obj.rs
+++ b/src/loader/obj.rs
@@ -54,7 +54,7 @@ impl Loader for Obj {
         let materials =
             materials.map_err(|_| format!("failed to load MTL file for {}", &filepath))?;
 
-        let mut mat_map = HashMap::from([(-1, default_material.clone())]);
+        let mut mat_map = HashMap::from([(-1i64, default_material.clone())]);
         for (i, m) in materials.iter().enumerate() {
             let albedo_texture = match &m.diffuse_texture {
                 None => match m.diffuse {
@@ -72,7 +72,7 @@ impl Loader for Obj {
                     Some(texture::load_normal_texture(&bump_texture_path)?)
                 }
             };
-            mat_map.insert(i as i8, Lambertian::new(albedo_texture, normal_texture));
+            mat_map.insert(i as i64, Lambertian::new(albedo_texture, normal_texture));
         }
 
         let mut triangles = Vec::new();
@@ -112,7 +112,7 @@ impl Loader for Obj {
 
                 let material_id = match mesh.material_id {
                     None => -1,
-                    Some(id) => id as i8,
+                    Some(id) => id as i64,
                 };
                 let material = match mat_map.get(&material_id) {
                     None => default_material.to_owned(),
-- 
2.43.0


From 5299bb4763d67a95f5b6a8f77025b2a851a5c48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 08/24] fix: a broken material library went unnoticed when
 another one could be loaded

---
 src/loader/obj.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/loader/obj.rs b/src/loader/obj.rs
index e817011..76ab0eb 100644
--- a/src/loader/obj.rs
+++ b/src/loader/obj.rs
@@ -2,8 +2,12 @@
 //! all triangles. It also read materials from the referred .mat file.
 //! Support for colored and textured lambertian materials.
 //! Applies supplied default material if none in model
+use std::cell::Cell;
 use std::collections::HashMap;
 use std::error::Error;
+use std::fs::File;
+use std::io::BufReader;
+use std::path::Path;
 
 use simple_error::SimpleError;
 use tobj::LoadOptions;
@@ -48,11 +52,25 @@ impl Loader for Obj {
         };
 
         let filepath = format!("{}{}", self.path, self.filename);
-        let (models, materials) = tobj::load_obj(&filepath, &load_options).map_err(|_| {
-            SimpleError::new(format!("failed to load obj model from {}", &filepath))
-        })?;
-        let materials =
-            materials.map_err(|_| format!("failed to load MTL file for {}", &filepath))?;
+        let obj_error =
+            || SimpleError::new(format!("failed to load obj model from {}", &filepath));
+        let file = File::open(&filepath).map_err(|_| obj_error())?;
+        let directory = Path::new(&filepath).parent().unwrap_or(Path::new(""));
+        // An error in one material library is not reported if another one has been loaded
+        let material_error = Cell::new(false);
+        let (models, materials) =
+            tobj::load_obj_buf(&mut BufReader::new(file), &load_options, |mtl_path| {
+                let result = tobj::load_mtl(directory.join(mtl_path));
+                if result.is_err() {
+                    material_error.set(true);
+                }
+                result
+            })
+            .map_err(|_| obj_error())?;
+        let materials = match materials {
+            Ok(materials) if !material_error.get() => materials,
+            _ => return Err(format!("failed to load MTL file for {}", &filepath).into()),
+        };
 
         let mut mat_map = HashMap::from([(-1i64, default_material.clone())]);
         for (i, m) in materials.iter().enumerate() {
-- 
2.43.0


From 328300235479ff73337861c1c8fb0f7501f64c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 09/24] fix: fog with a bvh as boundary was missed by rays
 starting inside of it

---
 src/geo/mod.rs      | 7 ++++++-
 src/hittable/bvh.rs | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index 7118d87..12084df 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -157,7 +157,12 @@ impl Aabb {
 
     /// Checks if the given ray hits the aabb
     pub fn hit(&self, r: &Ray) -> bool {
-        let mut t_min = 0.;
+        self.hit_from(r, 0.)
+    }
+
+    /// Checks if the given ray hits the aabb at the given ray length or further away
+    pub(crate) fn hit_from(&self, r: &Ray, ray_length: f64) -> bool {
+        let mut t_min = ray_length;
         let mut t_max = f64::INFINITY;
 
         if r.direction_inverted.x.is_sign_negative() {
diff --git a/src/hittable/bvh.rs b/src/hittable/bvh.rs
index 5f72095..4ca1a1b 100644
--- a/src/hittable/bvh.rs
+++ b/src/hittable/bvh.rs
@@ -164,7 +164,8 @@ fn sort_hittables_by_center(list: &mut [Hittables], center: f64, axis: u8) -> us
 
 impl Hittable for Bvh {
     fn hit(&self, r: &Ray, ray_length: &Interval) -> Option<RayHit> {
-        if !self.b_box.hit(r) {
+        // The interval starts behind the ray origin when looking for the boundary of a medium
+        if !self.b_box.hit_from(r, ray_length.min.min(0.)) {
             return None;
         }
 
-- 
2.43.0


From 448285a4a431449d6b4378fce24e653a643e7153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 10/24] fix: fps was infinite when no time had passed

---
 src/renderer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/renderer/mod.rs b/src/renderer/mod.rs
index 435b624..77e8f70 100644
--- a/src/renderer/mod.rs
+++ b/src/renderer/mod.rs
@@ -367,7 +367,8 @@ fn add_row_data(yi: usize, colors: &mut [Vec3], row_colors: &[Vec3]) {
 fn calculate_fps(render_start_time: SystemTime, now: SystemTime, samples_done: u32) -> f64 {
     let time_since_start = now
         .duration_since(render_start_time)
-        .unwrap_or(Duration::from_millis(1));
+        .unwrap_or(Duration::from_millis(1))
+        .max(Duration::from_nanos(1));
 
     samples_done as f64 / time_since_start.as_secs_f64()
 }
-- 
2.43.0


From 5317bdf9ca43763a92ec91ee70b1d360acc2dd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 11/24] fix: points inside of a sphere light got no light from
 it

---
 src/hittable/sphere.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/hittable/sphere.rs b/src/hittable/sphere.rs
index 6f6108d..9cd1cf8 100644
--- a/src/hittable/sphere.rs
+++ b/src/hittable/sphere.rs
@@ -4,7 +4,7 @@ use crate::geo::Aabb;
 use crate::geo::Onb;
 use crate::geo::Ray;
 use crate::geo::Uv;
-use crate::geo::vec3::{UNIT_Y, Vec3};
+use crate::geo::vec3::{random_unit_vector, UNIT_Y, Vec3};
 use crate::hittable::{Hittable, Hittables};
 use crate::hittable::Hittables::SphereType;
 use crate::material::{Material, Materials, RayHit};
@@ -45,9 +45,13 @@ impl Hittable for Sphere {
         match hit {
             None => 0.,
             Some(_) => {
-                let cos_theta_max = (1.
-                    - self.radius * self.radius / (self.center - origin).length_squared())
-                .sqrt();
+                let distance_squared = (self.center - origin).length_squared();
+                if distance_squared <= self.radius * self.radius {
+                    // Seen from the inside the sphere is in every direction
+                    return 1. / (4. * PI);
+                }
+                let cos_theta_max =
+                    (1. - self.radius * self.radius / distance_squared).sqrt();
                 let solid_angle = 2. * PI * (1. - cos_theta_max);
 
                 1. / solid_angle
@@ -57,6 +61,9 @@ impl Hittable for Sphere {
 
     fn random_direction(&self, origin: Vec3) -> Vec3 {
         let direction = self.center - origin;
+        if direction.length_squared() <= self.radius * self.radius {
+            return random_unit_vector();
+        }
         let uvw = Onb::new(direction);
         uvw.local(random_to_sphere(self.radius, direction.length_squared()))
     }
-- 
2.43.0


From 274c1c9662d4941d637a1ca5f289fe1a27e5f306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 12/24] fix: report a failed denoising as an error instead of
 panicking

---
 src/post/oidn.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/post/oidn.rs b/src/post/oidn.rs
index 8dea516..9731d38 100644
--- a/src/post/oidn.rs
+++ b/src/post/oidn.rs
@@ -38,7 +38,12 @@ impl PostProcessor for OidnPostProcessor {
             .hdr(false)
             .clean_aux(true)
             .filter(&pixel_rgb, &mut output)
-            .expect("Failed to apply Oidn post processing");
+            .map_err(|e| {
+                simple_error::SimpleError::new(format!(
+                    "Failed to apply Oidn post processing: {:?}",
+                    e
+                ))
+            })?;
 
         if let Err(e) = device.get_error() {
             return Err(Box::new(simple_error::SimpleError::new(e.1)));
-- 
2.43.0


From 485f417e5442074f7af39cdf42dd8366868b70e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 13/24] fix: normals were gamma corrected for the denoiser,
 turning negative ones into NaN

---
 src/post/oidn.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/post/oidn.rs b/src/post/oidn.rs
index 9731d38..cb22c25 100644
--- a/src/post/oidn.rs
+++ b/src/post/oidn.rs
@@ -27,7 +27,8 @@ impl PostProcessor for OidnPostProcessor {
     ) -> Result<image::RgbImage, Box<dyn Error>> {
         let pixel_rgb = to_rgb_vec(pixel_colors, num_samples);
         let albedo_rgb = to_rgb_vec(albedo_colors, num_samples);
-        let normal_rgb = to_rgb_vec(normal_colors, num_samples);
+        // Normals have negative components and are not colors, so no gamma correction
+        let normal_rgb = to_mean_vec(normal_colors, num_samples);
         let mut output = vec![0.0f32; pixel_rgb.len()];
 
         let device = oidn::Device::new();
@@ -141,3 +142,17 @@ fn to_rgb_vec(vec: &[Vec3], num_samples: u32) -> Vec<f32> {
         })
         .collect()
 }
+
+#[cfg(feature = "oidn-postprocessor")]
+fn to_mean_vec(vec: &[Vec3], num_samples: u32) -> Vec<f32> {
+    let scale = 1. / num_samples as f64;
+    vec.iter()
+        .flat_map(|v| {
+            vec![
+                (v.x * scale) as f32,
+                (v.y * scale) as f32,
+                (v.z * scale) as f32,
+            ]
+        })
+        .collect()
+}
-- 
2.43.0


From 8d6ec26fc22cd0001792743cc6dc38189fed9c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:04 +0000
Subject: [PATCH 14/24] fix: a far jump of the clock overflowed the estimated
 time left

---
 src/renderer/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/renderer/mod.rs b/src/renderer/mod.rs
index 77e8f70..94e615d 100644
--- a/src/renderer/mod.rs
+++ b/src/renderer/mod.rs
@@ -384,9 +384,11 @@ fn calculate_estimated_time_left(
         .unwrap_or(Duration::from_millis(1));
     let samples_left = total_samples - samples_done;
 
-    time_since_start
-        .div_f32(samples_done as f32)
-        .mul_f32(samples_left as f32)
+    // After a far jump of the clock the estimate can be too large for a duration
+    Duration::try_from_secs_f64(
+        time_since_start.as_secs_f64() / samples_done as f64 * samples_left as f64,
+    )
+    .unwrap_or(Duration::MAX)
 }
 
 #[cfg(test)]
-- 
2.43.0


From e263947f486aba5ceae5125a27345db4aaf58af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 15/24] fix: give triangles without usable texture coordinates
 a tangent, normal maps made their normals NaN

---
 src/hittable/triangle.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hittable/triangle.rs b/src/hittable/triangle.rs
index 53950ad..e7bf67c 100644
--- a/src/hittable/triangle.rs
+++ b/src/hittable/triangle.rs
@@ -79,6 +79,14 @@ impl Triangle {
         let tangent = ((delta_pos_1 * delta_uv_2.v - delta_pos_2 * delta_uv_1.v) * r).unit();
         let bi_tangent = ((delta_pos_2 * delta_uv_1.u - delta_pos_1 * delta_uv_2.u) * r).unit();
 
+        // Without usable texture coordinates any basis around the normal will do
+        let (tangent, bi_tangent) = if (tangent + bi_tangent).length().is_nan() {
+            let onb = Onb::new(normal);
+            (onb.tangent, onb.bi_tangent)
+        } else {
+            (tangent, bi_tangent)
+        };
+
         Hittables::from(Triangle {
             v0,
             v0v1,
-- 
2.43.0


From 107e6926743f888d19e7a964d1580a17569af1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 16/24] fix: never pick a random direction without a length

---
 src/geo/vec3.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/geo/vec3.rs b/src/geo/vec3.rs
index e96816c..d44132b 100644
--- a/src/geo/vec3.rs
+++ b/src/geo/vec3.rs
@@ -393,7 +393,14 @@ pub fn random_in_unit_sphere() -> Vec3 {
 
 /// Creates a random Vec3 that has the length of 1
 pub fn random_unit_vector() -> Vec3 {
-    random_in_unit_sphere().unit()
+    loop {
+        let p = random_in_unit_sphere();
+
+        // A vector without length has no direction
+        if !p.near_zero() {
+            return p.unit();
+        }
+    }
 }
 
 /// Creates a random Vec3 that is shorter than 1 and that has a Z value of 0
-- 
2.43.0


From 22ffe1e7cb429ea8e7ac91611ca36be410d97d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:33 +0000
Subject: [PATCH 17/24] fix: give the poles of spheres a tangent, normal maps
 made their normals NaN

---
 src/hittable/sphere.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hittable/sphere.rs b/src/hittable/sphere.rs
index 9cd1cf8..67c320c 100644
--- a/src/hittable/sphere.rs
+++ b/src/hittable/sphere.rs
@@ -93,7 +93,11 @@ impl Hittable for Sphere {
         let mut normal = n.unit();
         let uv = calculate_sphere_uv(normal);
 
-        let tangent = UNIT_Y.cross(n).unit();
+        let mut tangent = UNIT_Y.cross(n).unit();
+        if tangent.length().is_nan() {
+            // At the poles all directions along the surface are the same
+            tangent = Vec3::new(1., 0., 0.);
+        }
         let bi_tangent = normal.cross(tangent);
 
         let front_face = r.direction.dot(normal) < 0.;
-- 
2.43.0


From a80c672e255979b3010b2be34feae0d9d756201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 18/24] fix: an interrupted read of a texture made loading fail

---
 src/material/texture.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/material/texture.rs b/src/material/texture.rs
index 7a875b8..dcaa018 100644
--- a/src/material/texture.rs
+++ b/src/material/texture.rs
@@ -1,8 +1,10 @@
 //! Contains textures to be used by materials
 use std::error::Error;
+use std::io::Cursor;
 use std::sync::Arc;
 
 use enum_dispatch::enum_dispatch;
+use image::ImageFormat;
 use image::ImageReader;
 use image::RgbImage;
 use simple_error::SimpleError;
@@ -49,9 +51,18 @@ pub enum BumpMap {
     Height(RgbImage),
 }
 
+/// Reads the whole file before decoding as the decoders give up on interrupted reads
+fn open_image(path: &str) -> std::io::Result<ImageReader<Cursor<Vec<u8>>>> {
+    let mut reader = ImageReader::new(Cursor::new(std::fs::read(path)?));
+    if let Ok(format) = ImageFormat::from_path(path) {
+        reader.set_format(format);
+    }
+    Ok(reader)
+}
+
 /// Load a bump map image texture and detect if it is a normal or height map
 fn load_bump_map(path: &str) -> Result<BumpMap, Box<dyn Error>> {
-    let mut reader = ImageReader::open(path).map_err(|err| {
+    let mut reader = open_image(path).map_err(|err| {
         SimpleError::new(format!("Failed to open bump texture {}: {}", path, err))
     })?;
     reader.no_limits();
@@ -135,7 +146,7 @@ impl ImageMap {
     #![allow(clippy::new_ret_no_self)]
     /// Creates a new image texture from a file path
     pub fn load(path: &str) -> Result<Textures, Box<dyn Error>> {
-        let mut reader = ImageReader::open(path).map_err(|err| {
+        let mut reader = open_image(path).map_err(|err| {
             SimpleError::new(format!("Failed to open image texture {}: {}", path, err))
         })?;
         reader.no_limits();
-- 
2.43.0


From 974a37c134af11cb28053635e69fa24ede25a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:04 +0000
Subject: [PATCH 19/24] fix: an incomplete colour in a material library made
 loading panic

---
 src/loader/obj.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/loader/obj.rs b/src/loader/obj.rs
index 76ab0eb..7424d77 100644
--- a/src/loader/obj.rs
+++ b/src/loader/obj.rs
@@ -10,7 +10,7 @@ use std::io::BufReader;
 use std::path::Path;
 
 use simple_error::SimpleError;
-use tobj::LoadOptions;
+use tobj::{LoadError, LoadOptions, MTLLoadResult};
 
 use crate::geo::transformation::Transformer;
 use crate::geo::Uv;
@@ -60,7 +60,7 @@ impl Loader for Obj {
         let material_error = Cell::new(false);
         let (models, materials) =
             tobj::load_obj_buf(&mut BufReader::new(file), &load_options, |mtl_path| {
-                let result = tobj::load_mtl(directory.join(mtl_path));
+                let result = load_materials(&directory.join(mtl_path));
                 if result.is_err() {
                     material_error.set(true);
                 }
@@ -154,6 +154,21 @@ impl Loader for Obj {
     }
 }
 
+/// Loads a material library
+///
+/// The parser panics on colors that lack a component, so they are refused here
+fn load_materials(path: &Path) -> MTLLoadResult {
+    let text = std::fs::read_to_string(path).map_err(|_| LoadError::OpenFileFailed)?;
+    let has_incomplete_color = text.lines().any(|line| {
+        let mut words = line.split_whitespace();
+        matches!(words.next(), Some("Ka" | "Kd" | "Ks" | "Ke")) && words.count() < 3
+    });
+    if has_incomplete_color {
+        return Err(LoadError::MaterialParseError);
+    }
+    tobj::load_mtl_buf(&mut text.as_bytes())
+}
+
 fn vec3_from_mesh_vec(positions: &[f32], offset: usize) -> Vec3 {
     Vec3::new(
         positions[offset] as f64,
-- 
2.43.0


From d90822cf654ede96bd98f01de760aac899eeb8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:52 +0000
Subject: [PATCH 20/24] fix: an image that claims more pixels than memory can
 hold aborted the process

---
 src/material/texture.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/material/texture.rs b/src/material/texture.rs
index dcaa018..a05cbc9 100644
--- a/src/material/texture.rs
+++ b/src/material/texture.rs
@@ -1,11 +1,12 @@
 //! Contains textures to be used by materials
 use std::error::Error;
+use std::hint::black_box;
 use std::io::Cursor;
 use std::sync::Arc;
 
 use enum_dispatch::enum_dispatch;
-use image::ImageFormat;
-use image::ImageReader;
+use image::error::{LimitError, LimitErrorKind};
+use image::{DynamicImage, ImageDecoder, ImageError, ImageFormat, ImageReader, ImageResult};
 use image::RgbImage;
 use simple_error::SimpleError;
 
@@ -60,6 +61,20 @@ fn open_image(path: &str) -> std::io::Result<ImageReader<Cursor<Vec<u8>>>> {
     Ok(reader)
 }
 
+/// Decodes an image without limits to its size, except that there must be memory for it.
+/// A damaged file may claim any size and failing to allocate aborts the process
+fn decode_image(reader: ImageReader<Cursor<Vec<u8>>>) -> ImageResult<DynamicImage> {
+    let decoder = reader.into_decoder()?;
+    let mut memory: Vec<u8> = Vec::new();
+    usize::try_from(decoder.total_bytes())
+        .ok()
+        .and_then(|size| memory.try_reserve_exact(size).ok())
+        .ok_or_else(|| LimitError::from_kind(LimitErrorKind::InsufficientMemory))
+        .map_err(ImageError::Limits)?;
+    drop(black_box(memory));
+    DynamicImage::from_decoder(decoder)
+}
+
 /// Load a bump map image texture and detect if it is a normal or height map
 fn load_bump_map(path: &str) -> Result<BumpMap, Box<dyn Error>> {
     let mut reader = open_image(path).map_err(|err| {
@@ -69,8 +84,7 @@ fn load_bump_map(path: &str) -> Result<BumpMap, Box<dyn Error>> {
     reader = reader.with_guessed_format().map_err(|err| {
         SimpleError::new(format!("Failed to load bump texture {}: {}", path, err))
     })?;
-    let image = reader
-        .decode()
+    let image = decode_image(reader)
         .map_err(|err| {
             SimpleError::new(format!("Failed to decode bump texture {}: {}", path, err))
         })?
@@ -153,8 +167,7 @@ impl ImageMap {
         reader = reader.with_guessed_format().map_err(|err| {
             SimpleError::new(format!("Failed to load image texture {}: {}", path, err))
         })?;
-        let image = reader
-            .decode()
+        let image = decode_image(reader)
             .map_err(|err| {
                 SimpleError::new(format!("Failed to decode image texture {}: {}", path, err))
             })?
-- 
2.43.0


From 5f395cdcd83d1b84b92dacbd8db446887f1283b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:51 +0000
Subject: [PATCH 21/24] fix: negative colours reached the denoiser as NaN

---
 src/util/rgb_color.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/rgb_color.rs b/src/util/rgb_color.rs
index 4995248..fd3a92f 100644
--- a/src/util/rgb_color.rs
+++ b/src/util/rgb_color.rs
@@ -20,11 +20,11 @@ pub fn to_rgb_color(col: Vec3, samples_per_pixel: u32) -> Rgb<u8> {
 /// to a float color. Applies gamma correction to the output color.
 pub fn to_float(col: Vec3, samples_per_pixel: u32) -> Vec3 {
     // Divide the color by the number of samples
-    // and gamma-correct for gamma=2.0
+    // and gamma-correct for gamma=2.0, negative values have no root
     let scale = 1.0 / samples_per_pixel as f64;
-    let r = (scale * col.x).sqrt();
-    let g = (scale * col.y).sqrt();
-    let b = (scale * col.z).sqrt();
+    let r = (scale * col.x).max(0.).sqrt();
+    let g = (scale * col.y).max(0.).sqrt();
+    let b = (scale * col.z).max(0.).sqrt();
 
     Vec3::new(
         COLOR_INTENSITY_INTERVAL.clamp(r),
-- 
2.43.0


From 4767f57b7ea80bd69621cb9a2a5a340c162ef417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 22/24] fix: small triangles were invisible

---
 src/hittable/triangle.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hittable/triangle.rs b/src/hittable/triangle.rs
index e7bf67c..4d813c6 100644
--- a/src/hittable/triangle.rs
+++ b/src/hittable/triangle.rs
@@ -135,8 +135,11 @@ impl Hittable for Triangle {
         let p_vec = r.direction.cross(self.v0v2);
         let det = self.v0v1.dot(p_vec);
 
-        // No hit if the ray is parallel to the plane
-        if det.abs() < ALMOST_ZERO {
+        // No hit if the ray is parallel to the plane, whatever the size of the triangle
+        let size = r.direction.length_squared()
+            * self.v0v1.length_squared()
+            * self.v0v2.length_squared();
+        if det * det <= ALMOST_ZERO * ALMOST_ZERO * size {
             return None;
         }
 
-- 
2.43.0


From 3a0b7a0ac7e9cee4a4464f42da022504ac0b10cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 23/24] fix: a long path overflowed the stack and aborted the
 process

---
 src/renderer/shader.rs | 85 +++++++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 31 deletions(-)

diff --git a/src/renderer/shader.rs b/src/renderer/shader.rs
index 5cb9055..ecfb938 100644
--- a/src/renderer/shader.rs
+++ b/src/renderer/shader.rs
@@ -3,10 +3,12 @@ use enum_dispatch::enum_dispatch;
 
 use crate::geo::Ray;
 use crate::geo::vec3::Vec3;
+use crate::hittable::Hittable;
 use crate::material::{AttenuatedColor, RayHit};
 use crate::material::Material;
 use crate::material::RayScatter::{ScatterBasic, ScatterEmission, ScatterPdf};
 use crate::renderer::Renderer;
+use crate::util::interval::RAY_INTERVAL;
 
 /// Calculates the color from a ray hitting a hittable object
 #[enum_dispatch]
@@ -67,42 +69,63 @@ impl Shader for PathTracingShader {
         depth: u32,
         accumulated_ray_length: f64,
     ) -> AttenuatedColor {
-        if depth >= self.max_depth {
-            return AttenuatedColor::default();
-        }
+        // A loop instead of a recursion, as a long path would overflow the stack
+        let mut ray = Ray::new(ray.origin, ray.direction);
+        let mut rec = rec.clone();
+        let mut depth = depth;
+        let mut total_ray_length = accumulated_ray_length;
+        let mut bounces = Vec::new();
+
+        let light = loop {
+            if depth >= self.max_depth {
+                break AttenuatedColor::default();
+            }
 
-        let total_ray_length = rec.ray_length * ray.direction.length() + accumulated_ray_length;
-        let ray_scatter = rec.material.scatter(ray, rec, &renderer.lights);
+            total_ray_length += rec.ray_length * ray.direction.length();
+            let ray_scatter = rec.material.scatter(&ray, &rec, &renderer.lights);
 
-        match ray_scatter {
-            ScatterEmission(s) => {
-                AttenuatedColor {
-                    color: s.color,
-                    attenuation_factor: s.attenuation_factor,
-                    accumulated_ray_length: total_ray_length,
+            ray = match ray_scatter {
+                ScatterEmission(s) => {
+                    break AttenuatedColor {
+                        color: s.color,
+                        attenuation_factor: s.attenuation_factor,
+                        accumulated_ray_length: total_ray_length,
+                    }
                 }
-            }
-            ScatterBasic(s) => {
-                let ray_color_res =
-                    renderer.ray_color(&s.ray, depth + 1, total_ray_length);
-
-                AttenuatedColor {
-                    color: s.color * ray_color_res.pixel_color.color,
-                    attenuation_factor: ray_color_res.pixel_color.attenuation_factor,
-                    accumulated_ray_length: ray_color_res.pixel_color.accumulated_ray_length,
+                ScatterBasic(s) => {
+                    bounces.push((s.color, false));
+                    s.ray
                 }
-            }
-            ScatterPdf(s) => {
-                let ray_color_res = renderer.ray_color(&s.ray, depth + 1, total_ray_length);
-                let scatter_color = s.color * s.probability * ray_color_res.pixel_color.color;
-
-                AttenuatedColor {
-                    color: filter_invalid_color_values(scatter_color),
-                    attenuation_factor: ray_color_res.pixel_color.attenuation_factor,
-                    accumulated_ray_length: ray_color_res.pixel_color.accumulated_ray_length,
+                ScatterPdf(s) => {
+                    bounces.push((s.color * s.probability, true));
+                    s.ray
                 }
-            }
-        }
+            };
+
+            depth += 1;
+            rec = match renderer.scene.world.hit(&ray, &RAY_INTERVAL) {
+                Some(rec) => rec,
+                None => {
+                    break AttenuatedColor {
+                        color: renderer.scene.background_color,
+                        ..AttenuatedColor::default()
+                    }
+                }
+            };
+        };
+
+        let color = bounces
+            .into_iter()
+            .rev()
+            .fold(light.color, |color, (bounce_color, is_weighted)| {
+                if is_weighted {
+                    filter_invalid_color_values(bounce_color * color)
+                } else {
+                    bounce_color * color
+                }
+            });
+
+        AttenuatedColor { color, ..light }
     }
 }
 
-- 
2.43.0


From 8538a6d4cb8b542160609073f1f980dc6ba16a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 24/24] fix: bloom panicked when the system refused it a thread

---
 src/renderer/mod.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/renderer/mod.rs b/src/renderer/mod.rs
index 94e615d..a884845 100644
--- a/src/renderer/mod.rs
+++ b/src/renderer/mod.rs
@@ -311,29 +311,37 @@ impl Renderer {
                             return Ok(());
                         }
 
+                        // Processed in this pool, as threads for another one can be refused
                         let mut intermediate_pixel_colors = pixel_colors.lock().unwrap().clone();
 
                         for ipp in intermediate_post_processors {
-                            let processed_pixel_colors = ipp.intermediate_post_process(
-                                &intermediate_pixel_colors,
-                                albedo_colors.lock().unwrap().deref(),
-                                normal_colors.lock().unwrap().deref(),
-                                image_width as u32,
-                                image_height as u32,
-                                sample,
-                            )?;
+                            let processed_pixel_colors = pool.install(|| {
+                                ipp.intermediate_post_process(
+                                    &intermediate_pixel_colors,
+                                    albedo_colors.lock().unwrap().deref(),
+                                    normal_colors.lock().unwrap().deref(),
+                                    image_width as u32,
+                                    image_height as u32,
+                                    sample,
+                                )
+                                .map_err(|err| err.to_string())
+                            })?;
 
                             intermediate_pixel_colors = processed_pixel_colors;
                         }
 
-                        Some(last_post_processor.post_process(
-                            &intermediate_pixel_colors,
-                            albedo_colors.lock().unwrap().deref(),
-                            normal_colors.lock().unwrap().deref(),
-                            image_width as u32,
-                            image_height as u32,
-                            sample,
-                        )?)
+                        Some(pool.install(|| {
+                            last_post_processor
+                                .post_process(
+                                    &intermediate_pixel_colors,
+                                    albedo_colors.lock().unwrap().deref(),
+                                    normal_colors.lock().unwrap().deref(),
+                                    image_width as u32,
+                                    image_height as u32,
+                                    sample,
+                                )
+                                .map_err(|err| err.to_string())
+                        })?)
                     } else {
                         None
                     }
-- 
2.43.0

