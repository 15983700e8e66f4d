"""Properties, their contract harnesses, and the metadata properties.jsonl / MANIFEST.json are generated from (gen.py)."""
from check import H
GEO = ['geometry/AABB.cpp', 'geometry/point3.cpp', 'geometry/vec3.cpp', 'geometry/vec2.cpp', 'geometry/point2.cpp', 'geometry/ray.cpp', 'geometry/matrix4.cpp', 'utility/utility.cpp', 'utility/console.cpp']
UNITS = {
 'aabb': dict(harness='aabb.cpp', sources=GEO),
 'arr': dict(harness='arr.cpp', sources=GEO),
 'util': dict(harness='util.cpp', sources=GEO),
 'mat': dict(harness='mat.cpp', sources=GEO),
 'vec': dict(harness='vec.cpp', sources=GEO),
}
COL = GEO + ['utility/color.cpp', 'utility/spectrum.cpp']
UNITS.update({'col': dict(harness='col.cpp', sources=COL), 'cols': dict(harness='col.cpp', sources=COL, defs=['-DSPECTRAL=1'])})
PROPS = {}
def P(pid, title, statement, over, qtext, why, files, mech, harnesses, note='', assumptions=()):
    PROPS[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, harnesses=harnesses, note=note, assumptions=list(assumptions))
def R(unit, *names, **kw): return [H(n, unit, 'real', merge=kw.pop('merge', True) if i == 0 else True, **kw) for i, n in enumerate(names)]
def hs(unit, mode, names, **kw):
    kw.setdefault('merge', True)
    return [H(n, unit, mode, **kw) for n in names.split()]

P('G01', 'Axis-aligned boxes: exact union, membership and ray slabs',
  'Extending a box by a point or another box gives exactly the smallest box containing both, and membership is exactly the closed box; area, volume, centre and longest axis are those of the corners. '
  'A ray query reports a hit exactly when the line crosses the box, with the entry and exit distances, and leaves its outputs untouched on a miss. '
  'For every finite ray, including signed-zero direction components, a ray starting strictly inside hits, and one parallel to a slab and outside it misses.',
  ['inputs'], 'every pair of finite boxes, every finite point and ray, both ray-query overloads',
  'Unit tests try a handful of boxes and rays; the corner cases (negative zero, axis-parallel, overlapping slabs) are float coincidences no fixed table covers.',
  ['src/geometry/AABB.cpp', 'src/geometry/AABB.hpp', 'src/geometry/ray.hpp'],
  [('box union and membership', 'AABB::engulf, AABB::operator+, AABB::inside'), ('slab test', 'AABB::intersect (both overloads)')],
  hs('aabb', 'fp', 'aabb_union aabb_point aabb_inside') + hs('aabb', 'real', 'aabb_ray aabb_measure', hard_s=60) + hs('aabb', 'fpa', 'aabb_from_inside aabb_parallel'))
P('G02', 'Vectors, points and normals obey vector algebra',
  'Addition, subtraction, scaling, dot and cross products, lengths and distances of points, vectors and normals are those of 3-D (or 2-D) vector algebra, and operators leave their operands unchanged. '
  'Normalising a non-zero vector gives a unit vector of the same direction; mirror reflection preserves length and the angle to the normal; refraction obeys the law of sines with a unit result and reports total internal reflection exactly when it occurs.',
  ['inputs'], 'every vector, point, normal and refractive ratio over the reals',
  'Tests check a few literal vectors; the algebraic laws quantify over all vectors.',
  ['src/geometry/vec3.cpp', 'src/geometry/vec2.cpp', 'src/geometry/point3.cpp', 'src/geometry/point2.cpp'],
  [('vector operators', 'Vec3, Normal, Vec2, Point3 operators'), ('reflection and refraction', 'Vec3::reflect, Vec3::refract')],
  hs('vec', 'real', 'vec3_ops vec3_more normal_ops vec2_ops vec_reflect vec_refract point_ops', hard_s=60))
P('G03', 'Matrices: exact inverse, products and transforms',
  'A reported inverse multiplied by the matrix is the identity; a matrix is refused only when its determinant is (nearly) zero, and then the output is left untouched. '
  'Sums, products and transposes are those of linear algebra in every form, including when both operands are the same object. '
  'Translations, scales, rotations and view matrices are the stated rigid or affine maps, and points, directions, normals and rays transform consistently with them.',
  ['inputs'], 'every 4x4 matrix, point, vector, ray and angle over the reals',
  'Tests invert and multiply a few literal matrices; a wrong cofactor or index shows only for matrices with the right non-zero entries.',
  ['src/geometry/matrix4.cpp', 'src/geometry/matrix4.hpp'],
  [('inverse', 'Matrix4::inverse'), ('arithmetic', 'Matrix4 operators, sum, sub, mul'), ('transforms', 'Matrix4::operator*(Point3/Vec3/Ray), transform_normal, set_*')],
  hs('mat', 'real', 'mat_inverse mat_arith mat_self mat_build mat_rotate mat_apply mat_lookat', hard_s=100))
P('G04', 'Tiled 2-D array: cells are independent and copies are deep',
  'For every square array size and every pair of in-range coordinates, reading a cell returns the last value written to it, writing one cell never changes another, and no access leaves the allocation. '
  'Copying and assigning (including to itself) give an array with the same contents that shares nothing with its source.',
  ['inputs', 'histories'], 'every side up to 32768 (all roundings to a power of two), every coordinate pair, every value',
  'Tests fill a few sizes; the block index arithmetic must be injective for every coordinate pair of every size.',
  ['src/utility/array2D.hpp'], [('blocked addressing', 'Array2D::get, Array2D::set'), ('allocation rounding', 'Array2D constructors'), ('copying', 'Array2D copy constructor and assignment')],
  hs('arr', 'fpa', 'arr_getset arr_assign', merge=['!vside', '_Z']))
P('U01', 'Numeric helpers: clamping, interpolation, roots, byte order',
  'Clamping, minima and maxima return exactly the value the range dictates; interpolation meets its end points, stays between them and is undone by its inverse; byte swapping reverses the bytes and undoes itself. '
  'The quadratic solver reports roots exactly when real ones exist, every reported root solves the equation, both roots are found, and the outputs are untouched otherwise.',
  ['inputs'], 'every float, integer and coefficient triple (rounding steps up to 8) with a non-zero leading coefficient (roots and interpolation over the reals)',
  'Tests use a few literals; root cancellation and rounding ranges need all coefficient signs.',
  ['src/utility/utility.hpp'], [('range helpers', 'clamp, min, max, sign, nearest_uint'), ('solvers', 'equation1, equation2'), ('byte order', 'swap_endianness')],
  hs('util', 'fpa', 'util_range util_bits') + hs('util', 'real', 'util_real util_quad'))
P('U02', 'Colours and spectra: sample-wise algebra and conversions',
  'Colour and spectrum operators act sample by sample and leave operands unchanged; a spectrum is black exactly when all samples are zero and valid exactly when all are finite, in both the tristimulus and the sampled build. '
  'Byte and packed-pixel channels decode to [0,1] in the right order; conversion to tristimulus values is non-negative, monotone, bounded by the white point and undone by the inverse conversion for dark colours, and luminance is its Y component. '
  'Black-body emitters are non-negative and never completely dark.',
  ['inputs'], 'every colour, spectrum, byte triple and temperature between 800 and 20000 K (over the reals; validity over all IEEE values)',
  'Tests compare a few literal colours; a swapped channel or a wrong coefficient can hide behind symmetric test colours.',
  ['src/utility/color.cpp', 'src/utility/spectrum.cpp'], [('operators', 'Color and Spectrum operators'), ('conversions', 'ColorRGB::to_XYZ, ColorXYZ::to_sRGB, Spectrum::to_xyz, Spectrum constructors')],
  hs('col', 'real', 'spec_ops col_ops col_bytes col_cie spec_convert spec_blackbody') + hs('col', 'fpa', 'spec_valid') + hs('cols', 'real', 'spec_ops spec_convert', ctors=('spectrum',)) )
IMG = ['utility/imageio/%s.c' % x for x in 'imageio bmp tga ppm'.split()]
PRIM = COL + ['primitives/%s.cpp' % x for x in 'asset box hit_point mesh shape sphere triangle'.split()] + ['accelerators/bvh.cpp', 'textures/mask_boolean.cpp', 'textures/texture_image.cpp', 'textures/texture_library.cpp', 'textures/texture_uniform.cpp', 'textures/image_map.cpp', 'textures/texture.cpp', 'utility/file.cpp']
UNITS.update({'mesh': dict(harness='mesh.cpp', sources=PRIM, native_extra=IMG)})
SHAPES = GEO + ['primitives/%s.cpp' % x for x in 'box sphere triangle shape'.split()]
UNITS.update({'prim': dict(harness='prim.cpp', sources=SHAPES)})
P('G05', 'Rays meet spheres, triangles and boxes exactly where the shapes are',
  'A reported hit lies on the shape and on the ray, inside the allowed distance range, with the outward normal, surface derivatives and (for triangles) interpolated normals and texture coordinates that belong to that point; a miss leaves every output untouched. '
  'The nearest crossing in range that the transparency mask accepts is always found, and the mask is asked about exactly the hit that would be reported.',
  ['inputs'], 'every ray (box: non-zero direction components), every triangle with non-degenerate texture coordinates, every distance limit and every mask verdict, over the reals',
  'Tests shoot a few rays; masked first crossings, hits from inside and crossings near the distance limit need combinations no table samples.',
  ['src/primitives/sphere.cpp', 'src/primitives/triangle.cpp', 'src/primitives/box.cpp'],
  [('ray/shape queries', 'Sphere::intersect, Triangle::intersect, Box::intersect')],
  hs('prim', 'real', 'sphere_hit tri_hit box_hit'), note='equation2 is used through its contract (proved in U01); MaskBoolean::is_masked is an arbitrary verdict.')
P('G06', 'Shapes stay inside their bounds and are sampled on their surface',
  'The object-space and the world-space bounding box of a sphere, box or triangle contains every point of the shape under any affine transform. '
  'Sampling a sphere, box, triangle or mesh returns a point of its surface with the unit outward normal there, faces and triangles being chosen in proportion to their share of the total area, for any number of triangles and any random pair, and without reading outside the density table.',
  ['inputs', 'histories'], 'every affine transform, shape point, random pair, density table and mesh size',
  'Tests sample one mesh with a handful of numbers; wrong triangle choice needs particular cumulative areas.',
  ['src/primitives/mesh.cpp', 'src/primitives/sphere.cpp', 'src/primitives/triangle.cpp', 'src/primitives/box.cpp'],
  [('bounds', 'compute_AABB of every shape'), ('sampling', 'sample_point of every shape, Mesh::sample_point')],
  hs('prim', 'real', 'prim_bounds prim_sample') + hs('mesh', 'real', 'mesh_pick'), note='Loop of Mesh::sample_point proved by invariant and measure; Normal::normalize and Triangle::sample_point used through their contracts.')
ASSET = GEO + ['primitives/asset.cpp', 'primitives/hit_point.cpp', 'primitives/shape.cpp']
UNITS.update({'asset': dict(harness='asset.cpp', sources=ASSET)})
P('G07', 'Placed objects: hits reported in world space, mesh areas and bounds',
  'A placed object is hit exactly when its shape is hit by the same ray seen from object space; distance, face and texture coordinates are those of the shape, the point lies on the world ray, and normal and derivatives are unit vectors of the transformed surface, on the same side, and each face has the material its index names. '
  'Differentials taken from two neighbouring rays lead, along the surface derivatives, exactly to where those rays meet the tangent plane, and are given up only when the derivatives are parallel. '
  'For any number of triangles, the area of a mesh and its density table are the running sums of its triangles, and its object-space and world-space boxes contain every triangle and are tight.',
  ['inputs', 'histories'], 'every invertible affine transform, ray, hit, material table, pair of neighbouring rays, mesh size and triangle areas/boxes, over the reals',
  'Tests place a few objects with literal transforms; a wrong transpose or a missed triangle shows only for sheared transforms or particular sizes.',
  ['src/primitives/asset.cpp', 'src/primitives/hit_point.cpp', 'src/primitives/mesh.cpp'],
  [('placed objects', 'Asset::intersect, Asset::set_materials, Asset::get_material'), ('ray differentials', 'calculate_differentials'), ('meshes', 'Mesh::surface, Mesh::get_densities_array, Mesh::finalize, Mesh::compute_AABB')],
  hs('asset', 'real', 'asset_hit hit_diff') + hs('asset', 'fpa', 'asset_materials') + hs('mesh', 'real', 'mesh_area mesh_box mesh_world'), note='Shape::intersect, Triangle::surface, Triangle::compute_AABB and normalize are used through their contracts; the loops of Mesh are proved by invariants and measures; the inverse matrix is that of G03.')
BVH = GEO + ['accelerators/bvh.cpp', 'primitives/triangle.cpp', 'primitives/shape.cpp']
UNITS.update({'bvh': dict(harness='bvh.cpp', sources=BVH)})
P('G08', 'Mesh hierarchy: the nearest triangle is always found',
  'Tracing a ray through the hierarchy of a mesh reports a hit exactly when some triangle is hit, no triangle is hit nearer than the reported distance, and distance, triangle index and hit data belong to the same triangle; only nodes and triangles of the mesh are visited and a miss changes nothing. '
  'Building the hierarchy only reorders the triangles: each ends up in exactly one leaf, and every node box contains what lies below it.',
  ['inputs', 'histories'], 'every tree obeying the tree invariant, ray, distance limit and pattern of hits (traversal); every tree of at most 60 triangles sampled, flat and repeated ones included (construction, bounded)',
  'Tests trace a few rays through one model; a wrongly pruned or unvisited subtree needs a particular order of boxes and hits.',
  ['src/accelerators/bvh.cpp'], [('traversal', 'Bvh::intersect'), ('construction', 'Bvh::buildTree, Bvh::flatten')],
  hs('bvh', 'fpa', 'bvh_hit', cover_iters=4000), note='AABB::intersect (G01) and Triangle::intersect (G05) are used through their contracts; both loops of Bvh::intersect are proved by invariants over ghost height and coverage of every node; construction is a bounded check by running the real code.')
CAM = GEO + ['cameras/%s.cpp' % x for x in 'camera camera360 camera_orthographic camera_perspective'.split()]
UNITS.update({'cam': dict(harness='cam.cpp', sources=CAM)})
P('C01', 'Cameras: every pixel gets the ray of its place on the image',
  'The perspective, orthographic and panoramic cameras send through every raster position exactly the ray that the camera frame, the field of view and the image proportions dictate: the image centre looks along the view direction, pixels are square, x grows to the right and y downwards, and directions are unit vectors. '
  'The auxiliary rays are those of the neighbouring pixels in x and y, and both ray generators of a camera agree.',
  ['inputs'], 'every position, target, up vector, image size up to 65535, raster position and field of view up to 176 degrees, over the reals',
  'Tests use one or two square images; wrong proportions or offsets show only for other sizes.',
  ['src/cameras/camera.cpp', 'src/cameras/camera_perspective.cpp', 'src/cameras/camera_orthographic.cpp', 'src/cameras/camera360.cpp'], [('rays', 'Camera::create_ray and the create_ray / create_single_ray of each camera'), ('projection set-up', 'camera constructors')],
  hs('cam', 'real', 'cam_ortho cam_360 cam_persp'), note='Matrix4::set_lookAt_inverse (rigid frame, G03) and normalize (G02) are used through their contracts; tanf is an arbitrary positive value below 30.')
SAM = ['samplers/sampler.cpp', 'samplers/sampler_random.cpp', 'samplers/sampler_stratified.cpp', 'utility/wellrng.cpp']
UNITS.update({'sam': dict(harness='sam.cpp', sources=SAM), 'rng': dict(harness='rng.cpp', sources=['utility/wellrng.cpp'])})
P('S01', 'Samplers: every pixel of a tile once, samples in their cells',
  'Successive calls hand out the pixels of a tile row by row, each exactly once, and then report the end without touching the output. '
  'For any number of samples per pixel every sample lies in its pixel; a square number of stratified samples fills a grid with exactly one sample in each cell, jittered or centred. '
  'The generator follows the published WELL1024a recurrence from its seed for every state and its numbers are always in [0,1].',
  ['inputs', 'histories'], 'every tile up to 65536, pixel, number of samples up to 2^24, jitter and random number (positions over the reals); every generator state',
  'Tests draw a few samples of tiny tiles; a skipped pixel or cell needs particular sizes.',
  ['src/samplers/sampler.cpp', 'src/samplers/sampler_random.cpp', 'src/samplers/sampler_stratified.cpp', 'src/utility/wellrng.cpp'], [('samplers', 'SamplerStratified::get_samples, SamplerRandom::get_samples, Sampler::get_random_numbers'), ('generator', 'WELLrng::getNumber')],
  hs('sam', 'real', 'smp_strat smp_random smp_numbers') + hs('rng', 'fpa', 'rng_step') + hs('rng', 'fp', 'rng_range'), note='All loops by invariants and measures; products of grid sizes are given by their defining equations.')
FILM = COL + ['cameras/image_film.cpp', 'utility/file.cpp']
UNITS.update({'film': dict(harness='film.cpp', sources=FILM)})
P('F01', 'Film: every sample reaches exactly the pixels its filter covers',
  'Adding a sample changes exactly the pixels whose centres lie within the extent of the filter around it, each once, by the colour (negative components cut) times the filter weight and by that weight; pixels of other tiles are put aside and are added, completely and once, under the lock, so the image does not depend on tiles and threads. '
  'The saved image has the size of the film, and every pixel is the clamped sRGB value of its weighted mean colour, opaque, row by row, black where nothing was added.',
  ['inputs', 'histories'], 'every film up to 65535 pixels a side, tile, sample position, filter extent up to 64 pixels, weight function, colour and list of deferred pixels, over the reals',
  'Tests add one or two samples to a tiny film; wrong footprints show only at particular positions and tile borders.',
  ['src/cameras/image_film.cpp'], [('accumulation', 'ImageFilm::add_pixel'), ('tile borders', 'ImageFilm::add_pixel_deferred, ImageFilm::add_pixel_forced'), ('output', 'ImageFilm::save_image')],
  hs('film', 'real', 'film_add film_defer film_save'), note='One arbitrary pixel is followed through the operation; Array2D get/set (G04), std::stack and std::mutex members, the colour conversion (U02) and img_write are used through contracts. Data races between the direct writes of a tile owner and the deferred writes of other threads are not covered.')
FILT = ['samplers/filter_%s.cpp' % x for x in 'box tent gaussian mitchell lanczos'.split()]
UNITS.update({'filt': dict(harness='filt.cpp', sources=FILT)})
P('F02', 'Reconstruction filters: the documented shapes, symmetric and balanced',
  'Every reconstruction filter gives a pixel the weight its published formula dictates for the offset of the sample (box, tent, Gaussian lowered to zero at the border, Mitchell-Netravali, windowed sinc), within the extent it declares, symmetric in both directions. '
  'Tent and Mitchell weights along a line add up to the same total wherever the sample falls, whatever the parameters, and Gaussian, tent and sinc weigh most at the centre.',
  ['inputs'], 'every offset within the extent, falloff up to 8, B and C in [-2,2], tau in [0.1,16], over the reals',
  'Tests compare means over one axis; balance is an identity over all offsets and parameters.',
  ['src/samplers/filter_box.cpp', 'src/samplers/filter_tent.cpp', 'src/samplers/filter_gaussian.cpp', 'src/samplers/filter_mitchell.cpp', 'src/samplers/filter_lanczos.cpp'], [('weights', 'weight of every filter'), ('set-up', 'constructors')],
  hs('filt', 'real', 'flt_box flt_tent flt_gauss flt_mitchell flt_mitchell_unity flt_lanczos'), note='exp is an arbitrary increasing positive function with exp(0)=1 and sin any function with |sin x| <= x; the balance of Mitchell weights is a lemma over the proved contract of weight.')
SURF = COL + ['materials/%s.cpp' % x for x in 'bdf fresnel_conditions lambertian oren_nayar reflection refraction'.split()]
UNITS.update({'surf': dict(harness='surf.cpp', sources=SURF)})
P('M01', 'Fresnel, mirrors, glass and diffuse surfaces: the physical laws',
  'The reflectance of dielectrics and metals is that of the Fresnel equations for every pair of media and angle, between 0 and 1, and total beyond the critical angle; mirrors reflect exactly the mirrored direction and glass transmits exactly the direction of the law of sines, to the other side, weighted by these reflectances and by what they leave. '
  'Cosine sampling yields unit directions on the side of the viewer with the density that pdf() reports, smooth surfaces scatter equally in all directions, and rough ones follow the Oren-Nayar model, which does not change when light and viewer are exchanged.',
  ['inputs'], 'every pair of refraction indices in [0.5,4], metal indices up to 10, unit directions, roughness and random numbers, over the reals',
  'Tests compare a few directions with recorded numbers, wrong ones included.',
  ['src/materials/fresnel_conditions.cpp', 'src/materials/reflection.cpp', 'src/materials/refraction.cpp', 'src/materials/bdf.cpp', 'src/materials/oren_nayar.cpp', 'src/materials/lambertian.cpp'], [('reflectance', 'Dielectric::eval, Conductor::eval'), ('specular surfaces', 'ConductorReflection, DielectricReflection, Refraction :: sample_value'), ('diffuse surfaces', 'Bdf::sample_value, Bdf::pdf, Lambertian::value, OrenNayar::value')],
  hs('surf', 'real', 'mat_fresnel mat_mirror_glass', merge=['Spectrum', 'unit']) + hs('surf', 'real', 'mat_metal mat_mirror_metal mat_refract mat_metal_below') + hs('surf', 'real', 'mat_oren', ctors=('lambertian', 'oren_nayar'), merge=['_', 'vc', '!OrenNayar5value']) + hs('surf', 'real', 'mat_diffuse', ctors=('lambertian',)), note='The tristimulus build is verified (one refraction index for all wavelengths, as in that build).')
BSDF = COL + ['materials/%s.cpp' % x for x in 'bdf lambertian single_brdf multi_bsdf dual shading_space bump'.split()]
UNITS.update({'bsdf': dict(harness='bsdf.cpp', sources=BSDF), 'frame': dict(harness='frame.cpp', sources=GEO + ['materials/shading_space.cpp', 'materials/bump.cpp'])})
P('M02', 'Layered materials: components combined by side, kind and colour',
  'The light a material scatters between two directions is the sum of its components of that side of the surface (mirrors only when asked for), each asked in the shading space and coloured by its own texture; its density is the mean over the components that can be sampled. '
  'Sampling picks each eligible component with equal probability, returns its direction in the world, and reports the value and density of all components for that direction, or those of the mirror alone, or nothing when there is nothing to sample. '
  'A masked material answers exactly as the material seen at the hit.',
  ['inputs'], 'every number of components up to the limit, every behaviour of components and textures, pair of directions, normal, random numbers and mask, over the reals',
  'Tests mix two fixed components; a wrong side, texture or weight shows only for particular combinations.',
  ['src/materials/single_brdf.cpp', 'src/materials/multi_bsdf.cpp', 'src/materials/dual.cpp', 'src/materials/shading_space.cpp'], [('combination', 'MultiBSDF and SingleBRDF :: value, sample_value, pdf'), ('masked materials', 'DualBsdf'), ('limit', 'MultiBSDF::inherit_bdf')],
  hs('bsdf', 'real', 'mix_value mix_pdf mix_sample mix_sample3 mix_sample4 mix_sample5 mix_limit mix_single mix_dual') + hs('frame', 'real', 'mix_frame'), note='Components, textures and masks are arbitrary functions behind their interfaces. Sampling among four or five components is proved with no mirror or one in the last but one place.')
GLOSS = COL + ['materials/%s.cpp' % x for x in 'bdf microfacet microfacet_distributions fresnel_conditions'.split()]
UNITS.update({'gloss': dict(harness='gloss.cpp', sources=GLOSS)})
P('M03', 'Glossy surfaces: microfacet reflection and transmission',
  'For every distribution of microfacets and every reflectance, the light a glossy surface reflects is F D G over four times the two cosines, and the light it transmits follows the microfacet law of refraction with what the reflectance leaves; nothing is reflected to the other side or transmitted to the same side. '
  'A sampled direction is the mirrored, or refracted, direction at the sampled microfacet, and its density, like the one pdf() reports, is that of the half vector times the Jacobian of reflection or refraction. '
  'A sampled direction is reported with the light of value(), and carries none when it ends on the wrong side or beyond the critical angle.',
  ['inputs'], 'every distribution and reflectance, pair of unit directions, pair of indices in [1,3] and sampled microfacet, over the reals',
  'Tests compare a few directions of one distribution with recorded numbers.',
  ['src/materials/microfacet.cpp'], [('reflection', 'MicrofacetR :: value, sample_value, pdf'), ('transmission', 'MicrofacetT :: value, sample_value, pdf')],
  hs('gloss', 'real', 'gl_r_value gl_r_pdf gl_r_sample') + hs('gloss', 'real', 'gl_t_value gl_t_pdf gl_t_sample', ctors=('spectrum',), merge=['Spectrum', 'near', 'eqv', 'same', 'black', 'unit']), note='Distributions and reflectances are arbitrary functions behind their interfaces; the published distributions themselves are not under contract. Normalisation and refraction (G02) and the reflectance of dielectrics (M01) enter through their contracts.')
