From 3321f3eb1d7042633c1d86fa95087df534073899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 01/14] fix: AABB::intersect with negative zero ray direction
 components

---
 src/geometry/AABB.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geometry/AABB.cpp b/src/geometry/AABB.cpp
index 8eddea5..1b9b070 100644
--- a/src/geometry/AABB.cpp
+++ b/src/geometry/AABB.cpp
@@ -100,7 +100,7 @@ bool AABB::intersect(const Ray* r, float* p1, float* p2) const
     float invx = 1.f/r->direction.x;
     float invy = 1.f/r->direction.y;
     float invz = 1.f/r->direction.z;
-    if(r->direction.x>=0)
+    if(invx>=0)
     {
         minxt = (bounds[0].x-r->origin.x)*invx;
         maxxt = (bounds[1].x-r->origin.x)*invx;
@@ -110,7 +110,7 @@ bool AABB::intersect(const Ray* r, float* p1, float* p2) const
         minxt = (bounds[1].x-r->origin.x)*invx;
         maxxt = (bounds[0].x-r->origin.x)*invx;
     }
-    if(r->direction.y>=0)
+    if(invy>=0)
     {
         minyt = (bounds[0].y-r->origin.y)*invy;
         maxyt = (bounds[1].y-r->origin.y)*invy;
@@ -128,7 +128,7 @@ bool AABB::intersect(const Ray* r, float* p1, float* p2) const
     if(maxyt<maxxt)
         maxxt = maxyt;
 
-    if(r->direction.z>=0)
+    if(invz>=0)
     {
         minzt = (bounds[0].z-r->origin.z)*invz;
         maxzt = (bounds[1].z-r->origin.z)*invz;
-- 
2.43.0


From fcb1de9978641a389e205cc1d11130516a8515da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:29 +0000
Subject: [PATCH 02/14] fix: Array2D assignment leaked the old storage and
 corrupted self-assigned arrays

---
 src/utility/array2D.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/array2D.hpp b/src/utility/array2D.hpp
index 3425f69..beb90f4 100644
--- a/src/utility/array2D.hpp
+++ b/src/utility/array2D.hpp
@@ -204,6 +204,9 @@ public:
     ///Copy-assignment operator
     Array2D& operator=(const Array2D& other)
     {
+        if(this == &other)
+            return *this;
+        free(data);
         blocks_no_side = other.blocks_no_side;
         size_t array_len = blocks_no_side*blocks_no_side*BLOCK_SIDE*BLOCK_SIDE;
         array_len *= sizeof(T);
-- 
2.43.0


From 3ef0485883a25b29bbf6b93ca957dcb5601e06d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:48 +0000
Subject: [PATCH 03/14] fix: mesh sampling picked the wrong triangle and read
 before the density array

---
 src/primitives/mesh.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/primitives/mesh.cpp b/src/primitives/mesh.cpp
index 6f250c8..50f49d4 100644
--- a/src/primitives/mesh.cpp
+++ b/src/primitives/mesh.cpp
@@ -189,10 +189,11 @@ void Mesh::sample_point(float r0, float r1, const float* densities, Point3* p,
         return;
     }
     //last triangle of the array
-    if(extSample>densities[end-1])
+    if(end == 0 || extSample>=densities[end-1])
     {
-        sample01 = inverse_lerp(extSample-densities[end-1], 0,
-                                densities[end]-densities[end-1]);
+        const float previous = end>0?densities[end-1]:0.f;
+        sample01 = inverse_lerp(extSample-previous, 0.f,
+                                densities[end]-previous);
         tris[end].sample_point(sample01, r1, NULL, p, n);
         return;
     }
@@ -213,5 +214,5 @@ void Mesh::sample_point(float r0, float r1, const float* densities, Point3* p,
     //sample the triangle
     sample01 = inverse_lerp(extSample-densities[mid], 0,
                             densities[mid+1]-densities[mid]);
-    tris[mid].sample_point(sample01, r1, NULL, p, n);
+    tris[mid+1].sample_point(sample01, r1, NULL, p, n);
 }
-- 
2.43.0


From 56ff0ca869f89c4c1f8688e2d893a9a67e160bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:26 +0000
Subject: [PATCH 04/14] fix: triangle mask test used the wrong texture
 differential

---
 src/primitives/triangle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/triangle.cpp b/src/primitives/triangle.cpp
index 9416495..f25d693 100644
--- a/src/primitives/triangle.cpp
+++ b/src/primitives/triangle.cpp
@@ -101,7 +101,7 @@ bool Triangle::intersect(const Ray* r, float* distance, HitPoint* h,
     tmp.uv.x = w*a.t.x+u*b.t.x+v*c.t.x;
     tmp.uv.y = w*a.t.y+u*b.t.y+v*c.t.y;
     tmp.du = h->du;
-    tmp.dv = h->du;
+    tmp.dv = h->dv;
     tmp.differentials = h->differentials;
     if(!mask->is_masked(&tmp))
     {
-- 
2.43.0


From 14ccb2ea7ea2dfcff54ae92558d48fdf59e8ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:26 +0000
Subject: [PATCH 05/14] fix: box hit from inside reported the normal of the
 entry face

---
 src/primitives/box.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/primitives/box.cpp b/src/primitives/box.cpp
index 04e5efd..95a62e4 100644
--- a/src/primitives/box.cpp
+++ b/src/primitives/box.cpp
@@ -62,6 +62,7 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
     float mint;
     float maxt;
     char axis = 0; //used for normal identification
+    char exit_axis = 0; //axis of the exit face
 
     //x plane
     float invr = 1.0f/r->direction.x;
@@ -83,7 +84,11 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
         mint = near;
         axis = 1;
     }
-    maxt = far<maxt?far:maxt;
+    if(far<maxt)
+    {
+        maxt = far;
+        exit_axis = 1;
+    }
     if(mint>maxt)
         return false;
 
@@ -98,7 +103,11 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
         mint = near;
         axis = 2;
     }
-    maxt = far<maxt?far:maxt;
+    if(far<maxt)
+    {
+        maxt = far;
+        exit_axis = 2;
+    }
     if(mint>maxt)
         return false;
     float tmpdistance;
@@ -108,6 +117,7 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
     {
         inside = true;
         tmpdistance = maxt;
+        axis = exit_axis;
     }
     else
         return false;
-- 
2.43.0


From 64c4ce6bba1de324a161db1ac8a7dd3c09ca2e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:08 +0000
Subject: [PATCH 06/14] fix: sphere reported a second crossing farther than the
 allowed distance

---
 src/primitives/sphere.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/sphere.cpp b/src/primitives/sphere.cpp
index 6a60ac3..47990e4 100644
--- a/src/primitives/sphere.cpp
+++ b/src/primitives/sphere.cpp
@@ -116,7 +116,7 @@ bool Sphere::intersect(const Ray* r, float* distance, HitPoint* hit,
             hit->dpdu = tmp.dpdu;
             hit->dpdv = tmp.dpdv;
         }
-        else if(!std::isnan(sol2))
+        else if(!std::isnan(sol2) && sol2<=*distance)
         {
             //repeat the procedure with second hit, first was invalidated
             hitp = r->apply(sol2);
-- 
2.43.0


From 1157cc2476fde6e5af1b184ad1beb3bc1c56ff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:47 +0000
Subject: [PATCH 07/14] fix: BVH build divided by the zero extent of flat
 centroid bounds

---
 src/accelerators/bvh.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index b0c61dd..e7cab90 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -327,9 +327,9 @@ void Bvh::buildTree(Triangle* tris, int len)
     }
     //calculate reciprocal of the centroidaabb, used to map distance in [0-1]
     Vec3 centroidaabb_ext = (centroidaabb.bounds[1]-centroidaabb.bounds[0]);
-    centroidaabb_ext.x = 1.f/centroidaabb_ext.x;
-    centroidaabb_ext.y = 1.f/centroidaabb_ext.y;
-    centroidaabb_ext.z = 1.f/centroidaabb_ext.z;
+    centroidaabb_ext.x = centroidaabb_ext.x>0.f ? 1.f/centroidaabb_ext.x : 0.f;
+    centroidaabb_ext.y = centroidaabb_ext.y>0.f ? 1.f/centroidaabb_ext.y : 0.f;
+    centroidaabb_ext.z = centroidaabb_ext.z>0.f ? 1.f/centroidaabb_ext.z : 0.f;
     for(int i = 0; i<len; i++) //maps triangle centroids in [0-1] wrt whole AABB
     {
         Vec3 distance = (centroids[i]-centroidaabb.bounds[0])*centroidaabb_ext;
-- 
2.43.0


From 97d5ac8cd6c0669da15e98ca8acde98dbf0258cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:40 +0000
Subject: [PATCH 08/14] fix: orthographic auxiliary rays were offset by
 camera-space units instead of one pixel

---
 src/cameras/camera_orthographic.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/cameras/camera_orthographic.cpp b/src/cameras/camera_orthographic.cpp
index 219c1ba..b92ad81 100644
--- a/src/cameras/camera_orthographic.cpp
+++ b/src/cameras/camera_orthographic.cpp
@@ -58,12 +58,9 @@ CameraOrthographic::CameraOrthographic(const Point3* pos, const Point3* target,
     Matrix4 raster2screen(values);
     raster2world *= screen2camera;
     raster2world *= raster2screen;
-    Matrix4 raster2camera;
-    raster2camera.set_identity();
-    raster2camera *= screen2camera;
-    raster2camera *= raster2screen;
-    dx = raster2camera*Vec3(1, 0, 0);
-    dy = raster2camera*Vec3(0, -1, 0);
+    //one pixel, in raster space: create_ray() adds these to the sample
+    dx = Vec3(1, 0, 0);
+    dy = Vec3(0, 1, 0);
 }
 
 void CameraOrthographic::create_ray(const Sample* spl, Ray* ray, Ray* rx,
-- 
2.43.0


From 3a11527f441d6b4de33974d4784d3b4f96472817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:14 +0000
Subject: [PATCH 09/14] fix: samples skipped the last row and column of pixels
 covered by the filter

---
 src/cameras/image_film.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 821fb54..8483803 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -55,8 +55,8 @@ void ImageFilm::add_pixel(const Sample* sample, ColorXYZ color,
     float centre_y = sample->posy-0.5f;
     int update_x0 = (int)ceilf(centre_x-filter->range_x);
     int update_y0 = (int)ceilf(centre_y-filter->range_y);
-    int update_x1 = (int)floorf(centre_x+filter->range_x);
-    int update_y1 = (int)floorf(centre_y+filter->range_y);
+    int update_x1 = (int)floorf(centre_x+filter->range_x)+1;
+    int update_y1 = (int)floorf(centre_y+filter->range_y)+1;
     update_x0 = max(update_x0, 0);
     update_y0 = max(update_y0, 0);
     update_x1 = min(update_x1, width);
-- 
2.43.0


From 30037b012adf7dafebe4729ebe92e0d7c4dca767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:14 +0000
Subject: [PATCH 10/14] fix: pixels just past the end of a tile belong to the
 next tile and were written without deferring

---
 src/cameras/image_film.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 8483803..8e51b09 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -67,8 +67,8 @@ void ImageFilm::add_pixel(const Sample* sample, ColorXYZ color,
         for(int x = update_x0; x<update_x1; x++)
         {
             float weight = filter->weight(x-centre_x, y-centre_y);
-            if(x<secure_area->startx || x>secure_area->endx ||
-               y<secure_area->starty || y>secure_area->endy)
+            if(x<secure_area->startx || x>=secure_area->endx ||
+               y<secure_area->starty || y>=secure_area->endy)
             {
                 //critical section, other threads could interfere. deferred add
                 TodoPixel pixel_toadd;
-- 
2.43.0


From fb8dfed5836d03660cb69a09346f854286c8e16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:40 +0000
Subject: [PATCH 11/14] fix: Oren-Nayar lost the sign of the sines: azimuth
 differences were wrong across the x axis

---
 src/materials/oren_nayar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/materials/oren_nayar.cpp b/src/materials/oren_nayar.cpp
index 2e2d22c..bf70c5a 100644
--- a/src/materials/oren_nayar.cpp
+++ b/src/materials/oren_nayar.cpp
@@ -37,8 +37,8 @@ Spectrum OrenNayar::value(const Vec3* wout, const Vec3* wincident) const
         float cosphiin, cosphiout, sinphiin, sinphiout;
         cosphiin = clamp(wincident->x/sinthetain, -1.f, 1.f);
         cosphiout = clamp(wout->x/sinthetaout, -1.f, 1.f);
-        sinphiin = max(0.f, sqrtf(1.f-cosphiin*cosphiin));
-        sinphiout = max(0.f, sqrtf(1.f-cosphiout*cosphiout));
+        sinphiin = clamp(wincident->y/sinthetain, -1.f, 1.f);
+        sinphiout = clamp(wout->y/sinthetaout, -1.f, 1.f);
         maxcos = max(0.0f, cosphiin*cosphiout+sinphiin*sinphiout);
     }
     else
-- 
2.43.0


From ea34b66d354a15792564a65a147a3c9bb3ba61a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:08 +0000
Subject: [PATCH 12/14] fix: totally reflected light was not divided by the
 cosine like the rest

---
 src/materials/reflection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/reflection.cpp b/src/materials/reflection.cpp
index af453d4..d48ee7c 100644
--- a/src/materials/reflection.cpp
+++ b/src/materials/reflection.cpp
@@ -100,8 +100,8 @@ Spectrum DielectricReflection::sample_value(const Vec3* wo, Vec3* wi,
         float rperp = (etaicosi-etatcost)/(etaicosi+etatcost);
         float rpar = (etatcosi-etaicost)/(etatcosi+etaicost);
         eval = (rpar*rpar+rperp*rperp)/2.f;
-        eval /= fabsf(wo->z);
     }
+    eval /= fabsf(wo->z);
     return eval;
 }
 
-- 
2.43.0


From fad1db491c4deb7f2b8db90086eb7a0591c49102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:27 +0000
Subject: [PATCH 13/14] fix: each component of a multi material is coloured by
 its own texture, not by that of the sampled one

---
 src/materials/multi_bsdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/multi_bsdf.cpp b/src/materials/multi_bsdf.cpp
index dd73f5d..190067c 100644
--- a/src/materials/multi_bsdf.cpp
+++ b/src/materials/multi_bsdf.cpp
@@ -121,7 +121,7 @@ Spectrum MultiBSDF::sample_value(float r0, float r1, float r2, const Vec3* woW,
             if(bdfs[i]->matches(flags))//add contribution only if matches
             {
                 retval += bdfs[i]->value(&wo_shading, &wi_shading)*
-                          diffuse[chosen]->map(h);
+                          diffuse[i]->map(h);
                 *pdf += bdfs[i]->pdf(&wo_shading, &wi_shading);
             }
         }
-- 
2.43.0


From 7d73e7891457a3956b1232b200a6c56891a5ea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:14 +0000
Subject: [PATCH 14/14] fix: sampling a multi material without components read
 before the array

---
 src/materials/multi_bsdf.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/materials/multi_bsdf.cpp b/src/materials/multi_bsdf.cpp
index 190067c..245b352 100644
--- a/src/materials/multi_bsdf.cpp
+++ b/src/materials/multi_bsdf.cpp
@@ -67,18 +67,18 @@ Spectrum MultiBSDF::sample_value(float r0, float r1, float r2, const Vec3* woW,
         for(int i = 0; i<MultiBSDF::count; i++)
             if(!(MultiBSDF::bdfs[i]->is_specular()))
                 matching[matchcount++] = bdfs[i];
-        if(matchcount == 0)
-        {
-            //otherwise it will access invalid array positions
-            *pdf = 0.f;
-            return SPECTRUM_BLACK;
-        }
     }
     else
     {
         for(int i = 0; i<MultiBSDF::count; i++)
             matching[matchcount++] = bdfs[i];
     }
+    if(matchcount == 0)
+    {
+        //otherwise it will access invalid array positions
+        *pdf = 0.f;
+        return SPECTRUM_BLACK;
+    }
 
     int chosen = (int)(r0*matchcount);
     if(chosen == matchcount) //out of array
-- 
2.43.0

