#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Every sample of every pixel is accumulated exactly once, in its own place",
 "After k samples the reported image shows, for every pixel, the mean of exactly k samples, each taken at a random position inside that pixel's own footprint in the camera's view. This holds for every image size (one pixel wide or high included), every number of worker threads and every interleaving of them. With the same random outcomes every image is byte-for-byte the same whatever the thread count and schedule.",
 ["schedules", "inputs", "configurations"], "all interleavings of the row tasks and the reporting thread, all thread counts, image sizes and sample counts",
 "The tests compare one render per scene with a tolerance of 5 percent under whatever schedule the machine produced; a lost, doubled or misplaced row in one rare interleaving, or an image of unusual size, stays inside that or is never run.",
 ["src/renderer/mod.rs", "src/camera.rs", "src/util/rgb_color.rs", "src/post/nop.rs"],
 [("scope with one task per row, joined before the image is built", "src/renderer/mod.rs: Renderer::render"), ("row buffer added to the shared sums under a lock", "src/renderer/mod.rs: add_row_data")],
 [("sample sums", "per-pixel colour sums over samples", "src/renderer/mod.rs: Renderer::render")], ["RenderProgress.render_image"])

prop("C02", "One progress report per sample, in order, the last one complete",
 "A render that is neither aborted nor abandoned returns success and delivers exactly one report per sample, in order, the k-th of N with progress k/N, so that progress rises strictly and reaches 1 only in the last report; the last report always carries the final image, and every image has the requested size. Each report is delivered when its sample is complete: not before all of the sample has been traced, and before the next sample is traced. A scene without any light is refused with an error before anything is reported. This holds for any scene, shader, post processors, image strategy, clock behaviour and speed of the receiving side, and every time the same renderer is used again.",
 ["schedules", "histories", "configurations"], "all schedules of renderer, workers and receiver, all clock behaviours, all configurations and repetitions",
 "The tests look at one sequence of reports from one undisturbed run per configuration.",
 ["src/renderer/mod.rs", "src/lib.rs"],
 [("sample loop and send of a report", "src/renderer/mod.rs: Renderer::render"), ("light list check", "src/renderer/mod.rs: Renderer::new")],
 observe=["the report channel", "the returned result"])

prop("C03", "Images appear exactly as often as the chosen strategy says, under any clock",
 "Every report carries an image when an image per sample was asked for, and only the last one when only the final image was asked for. With an interval, a report carries an image exactly when more than the interval has passed on the clock since the previous reported image (the last report always does, the first may). A clock that is stepped, coarse, standing still or far from the present never suppresses the final image nor makes the render fail, and once the clock is past the time of the previous image by the interval the cadence goes on.",
 ["schedules", "fault_sequences"], "all clock readings, jumps and resolutions at any point of the render, all render speeds and intervals",
 "The tests use the real clock, where renders take milliseconds, intervals never elapse and the clock never steps.",
 ["src/renderer/mod.rs"],
 [("should_generate_image and the time of the last image", "src/renderer/mod.rs: RenderImageStrategy, Renderer::render")],
 [("last image time", "when the last reported image was made", "src/renderer/mod.rs: Renderer::render")], ["RenderProgress.render_image"])

prop("C04", "Reported speed and remaining time are sane under any clock",
 "Every report's frames per second is a finite positive number and its remaining time a valid duration that is zero in the last report, whatever the clock does, and computing them never panics. While the clock runs steadily, the speed equals samples done divided by the time since the render started and the remaining time equals that time divided by samples done times samples left.",
 ["schedules", "fault_sequences"], "all clock behaviours (steps backwards and forwards, coarse resolution, standstill, odd epochs) at any point, all render speeds",
 "Two unit tests evaluate the formulas on fixed well-behaved times; no test drives a render with a disturbed clock.",
 ["src/renderer/mod.rs"],
 [("calculate_fps, calculate_estimated_time_left", "src/renderer/mod.rs")], observe=["RenderProgress.fps", "RenderProgress.estimated_time_left"])

prop("C05", "An abort signal stops the render promptly and cleanly",
 "Once a signal is in the abort channel, whatever its value, the render returns success after at most the sample in progress: no further sample is traced, at most one more report appears, and no image is made from a signal that arrived while samples were being traced. Reports already delivered stay an ordered prefix of the normal ones, with correct images. A render is never stopped, delayed or failed by an abort channel that stays silent or whose sending side is dropped at any moment.",
 ["schedules", "fault_sequences"], "all moments at which the signal arrives or the sender disappears, all schedules",
 "One test sends the abort before the render starts; arrival during tracing, between the checks or after the last sample is never exercised.",
 ["src/renderer/mod.rs"],
 [("abort poll before each sample and before image generation", "src/renderer/mod.rs: Renderer::render")], observe=["the report channel", "the returned result", "random draws consumed after the signal"])

prop("C06", "A vanished receiver ends the render with an error, soon and without a panic",
 "If the receiving side of the reports is dropped at any moment before the last report, the render returns an error after at most the sample in progress and the one after it, without panicking or hanging and without leaving worker threads behind; if every report had already been delivered it returns success. Reports received before that are the correct ordered prefix.",
 ["schedules", "fault_sequences"], "all moments at which the receiver is dropped, all schedules",
 "No test drops the receiver during a render.",
 ["src/renderer/mod.rs"], [("error propagation of the send", "src/renderer/mod.rs: Renderer::render")], observe=["the returned result", "threads alive afterwards"])

prop("C07", "Renders running at the same time do not affect each other",
 "Any number of renders may run concurrently in one process, from different scenes or sharing one renderer, and each delivers to its own channel the reports and images it would deliver alone. Aborting one, dropping the receiver of one or one ending in an error changes nothing for the others.",
 ["schedules", "histories"], "all interleavings of two to four renders and of aborts and disconnections in some of them",
 "Tests run renders in parallel only by accident of the test runner and compare images with a tolerance of 5 percent.",
 ["src/renderer/mod.rs", "src/lib.rs"], [("per-call state, pool and channels", "src/renderer/mod.rs: Renderer::render")], observe=["each render's report channel and result"])

prop("C08", "Renders give back their threads and report thread-creation failures as errors",
 "When a render has returned, for whatever reason (finished, aborted, receiver gone, failed), its worker threads end. If the operating system refuses a thread at any time during the render, the render either returns an error or completes correctly; it never panics, hangs or leaks threads, and later renders in the same process work normally.",
 ["fault_sequences", "schedules"], "a refusal of any subset of thread creations, any ending of the render, all schedules",
 "Thread creation never fails in the tests and nothing counts threads.",
 ["src/renderer/mod.rs"], [("thread pool built per render and dropped at its end", "src/renderer/mod.rs: Renderer::render")], observe=["live threads", "the returned result"])

prop("C09", "The world built in parallel finds exactly what an exhaustive search finds",
 "For any collection of objects, empty, single, coincident and very uneven ones included, and any schedule of the parallel construction, asking the world for a hit gives the nearest hit over all objects within the asked range (same distance, point, normal, side, material and texture coordinate), or none when no object is hit. The world's lights are exactly the objects of a light-emitting material, each once, its bounding box encloses every object, and nested collections behave as if their objects were listed directly.",
 ["schedules", "inputs"], "all object collections and rays, all schedules of the parallel build, all thread counts",
 "The tests build a few small fixed worlds and check a handful of rays or compare images with tolerance.",
 ["src/hittable/bvh.rs", "src/geo/mod.rs", "src/hittable/sphere.rs", "src/hittable/quad.rs", "src/hittable/triangle.rs"],
 [("recursive parallel split", "src/hittable/bvh.rs: new_bvh"), ("box culling and nearest-hit merge", "src/hittable/bvh.rs: hit")], observe=["hit, lights and bounding box of the world"])

prop("C10", "Post processing is a fixed function of the samples, applied in order",
 "The configured post processors are applied in their given order to the mean of the samples of exactly the reported sample number, the last one producing the image, and their results never feed back into the accumulation of later samples. The bloom filter adds to each pixel the documented Gaussian blur of the colours at or above its threshold, limited by its maximum, and equals a sequential reference for every image size and number of samples, whatever the thread count and schedule; invalid parameters are refused with an error. Without the denoiser feature the denoiser changes nothing.",
 ["schedules", "inputs", "configurations"], "all schedules of the parallel filter, all images, sizes, parameters and chains of post processors",
 "One image per filter is compared with a tolerance of 5 percent under one schedule.",
 ["src/post/bloom.rs", "src/post/nop.rs", "src/post/oidn.rs", "src/post/mod.rs", "src/util/gaussian.rs", "src/renderer/mod.rs"],
 [("parallel separable blur over rows and columns", "src/post/bloom.rs"), ("chain of intermediate processors on a copy of the sums", "src/renderer/mod.rs: Renderer::render")], observe=["RenderProgress.render_image", "the post processors' results"])

prop("C11", "The denoiser gets this render's colour, albedo and normals; failures are errors",
 "When the denoiser is configured (feature enabled), each image it makes is computed from three aligned buffers of the right size: the gamma-corrected mean colour (of the image as the processors before it left it), the gamma-corrected mean first-hit albedo (background colour where nothing is hit) and the mean first-hit normal with its sign (zero where nothing is hit), all finite and over exactly the samples taken so far, for every schedule. Its output becomes the reported image. A failure of the denoiser, or its use before the last place in the chain, ends the render with an error, never a panic.",
 ["schedules", "fault_sequences", "configurations"], "all schedules, any failing denoiser call, all scenes, sizes and sample counts",
 "The only denoiser test needs the real library, which the build here leaves out; nothing looks at what the denoiser is given.",
 ["src/renderer/mod.rs", "src/post/oidn.rs", "src/renderer/shader.rs"],
 [("auxiliary buffers accumulated beside the colour", "src/renderer/mod.rs: Renderer::render"), ("conversion and call", "src/post/oidn.rs")], observe=["the arguments of the denoiser call", "RenderProgress.render_image", "the returned result"])

prop("C12", "Loading from disk gives the whole model or texture, or an error",
 "When a model, its material libraries or its textures cannot be opened or read completely (missing file, permission, I/O error at any read, undecodable content), loading returns an error: it never panics, aborts the process, hangs or silently yields a model with missing or default materials (a text file that ends early is taken for the shorter text it holds). Interrupted and short reads change nothing about the result. Every file opened is closed again, and after a failed attempt the same load succeeds once the fault is gone.",
 ["fault_sequences", "inputs"], "an error, interruption, short count or premature end at any read or open of any file of the model",
 "The tests cover four fixed broken inputs on a healthy disk.",
 ["src/loader/obj.rs", "src/material/texture.rs"],
 [("error mapping of model, material and texture loads", "src/loader/obj.rs: Obj::load"), ("image loading", "src/material/texture.rs: ImageMap::load, load_normal_texture")], observe=["the returned result or error", "open file descriptors"])

prop("C13", "A loaded model has the file's triangles, materials and textures, transformed",
 "A successfully loaded model contains exactly the triangles of the file's faces (polygons split into triangles), each at the position given by the requested transformation, with the texture coordinates and the material the file assigns to it, for any number of objects, materials and material libraries and any read sizes the disk delivers. Faces without a material get the supplied default material, or white. Colours come from the material's colour or from its texture at the face's coordinates, and bump textures bend the normals.",
 ["inputs", "fault_sequences"], "all model files over generated meshes, material counts, libraries, textures and transformations, under short and interrupted reads and any schedule of the parallel build",
 "Two models with a handful of materials are compared by picture.",
 ["src/loader/obj.rs", "src/hittable/triangle.rs", "src/geo/transformation.rs", "src/material/texture.rs"],
 [("mesh to triangles, material table", "src/loader/obj.rs: Obj::load")], observe=["hits on the loaded model"])

prop("C14", "Whatever the random outcomes, light values stay finite and the render ends",
 "For every scene and every sequence of random outcomes, extreme ones included, every colour a shader gives for a ray is finite, path-traced light is not negative and no brighter than the emitters and surfaces of the scene allow, bounces stop at the configured depth, and the render finishes without a panic with an image of ordinary pixel values. A single degenerate sample never poisons a pixel.",
 ["inputs", "schedules"], "all random sequences (including runs of smallest, largest and equal values), all scenes built from all objects and materials, also degenerate ones",
 "Tests draw a few million ordinary random numbers; the edge values of the generator and unusual object combinations practically never meet.",
 ["src/renderer/shader.rs", "src/material/mod.rs", "src/pdf.rs", "src/geo/vec3.rs", "src/hittable/constant_medium.rs"],
 [("filtering of invalid colours, depth limit", "src/renderer/shader.rs"), ("rejection sampling", "src/geo/vec3.rs")], observe=["shader results", "reported images"])

prop("C15", "Shading follows the documented light transport for any given random outcomes",
 "For the same random outcomes the colour found along a ray equals that of a straightforward reference path tracer: surfaces scatter by their material (matte weighted over cosine and light directions, mirror with fuzz, glass with refraction and Fresnel reflection, blends by their factor, bump maps and textures applied), emitters give their colour attenuated by the distance the light travelled, missing everything gives the background, and nothing comes back after the depth limit. The albedo, normal and simple shaders give the surface colour, the normal, and the surface colour shaded by the normal. This holds for every scene, depth, thread count and schedule.",
 ["inputs", "schedules"], "all scenes of spheres, quads, triangles, boxes, fog and nested groups with all materials, all rays, random outcomes fixed by the simulator",
 "Pictures of a dozen scenes are compared with a tolerance of 5 percent, which hides wrong weights, wrong sides and wrong attenuation.",
 ["src/renderer/shader.rs", "src/renderer/mod.rs", "src/material/mod.rs", "src/pdf.rs", "src/hittable/sphere.rs", "src/hittable/quad.rs", "src/hittable/triangle.rs"],
 [("recursive shading", "src/renderer/shader.rs"), ("scattering", "src/material/mod.rs"), ("mixture densities", "src/pdf.rs")], observe=["shader results", "reported images"])

prop("C16", "Fog scatters a ray inside it at the depth the random draw decides",
 "A ray that passes through fog is scattered inside it exactly when the drawn free path -ln(r)/density is shorter than the stretch of the ray inside the boundary and inside the asked range, at precisely that depth, measured in scene units whatever the length of the ray's direction; otherwise it passes unhindered. This holds from outside and from inside the fog, for any convex boundary, made of one or of many objects, and the scattered ray takes a random direction with the fog's colour.",
 ["inputs", "schedules"], "all random outcomes, rays, boundaries, densities and ranges",
 "One picture with fog is compared with a tolerance of 5 percent.",
 ["src/hittable/constant_medium.rs", "src/hittable/bvh.rs", "src/material/mod.rs"],
 [("free path sampling", "src/hittable/constant_medium.rs: hit"), ("Isotropic", "src/material/mod.rs")], observe=["hits on the fog", "scattered rays"])

prop("C17", "Camera rays cover exactly the view and the lens, focused at the focus point",
 "For every random outcome the ray for an image position starts on the lens (a disc of the configured diameter around the camera position, perpendicular to the view; the position itself when the aperture is zero) and passes through that position's point on the view rectangle that lies at the distance of the point looked at, with the configured vertical field of view, the image's aspect ratio and the given up direction. Over many outcomes the whole lens is used evenly.",
 ["inputs", "configurations"], "all camera configurations and image positions, all random outcomes for the lens",
 "The pictures of two cameras are compared with a tolerance of 5 percent.",
 ["src/camera.rs", "src/geo/vec3.rs"],
 [("view rectangle and lens offset", "src/camera.rs: Camera::new, get_ray"), ("rejection sampling of the disc", "src/geo/vec3.rs: random_in_unit_disc")], observe=["Camera::get_ray"])

prop("C18", "Directions sampled toward a light hit it, with the density reported for them",
 "From any point outside a sphere, quad or triangle light, every direction drawn toward it hits it, the draws spread over the whole visible light, and the density reported for a direction is positive exactly when that direction hits the light and equals the density with which the draws produce it. From inside a sphere light the same holds over all directions. For several lights each is chosen equally often and the density is the average of theirs, and the mixture used for matte surfaces is half of that and half of the cosine density.",
 ["inputs", "schedules"], "all lights, viewpoints and random outcomes",
 "Only the averaged brightness of pictures depends on it, within a tolerance of 5 percent.",
 ["src/pdf.rs", "src/hittable/sphere.rs", "src/hittable/quad.rs", "src/hittable/triangle.rs", "src/geo/mod.rs"],
 [("random_direction and pdf_value of the shapes", "src/hittable/*.rs"), ("ContainerPdf, mix_value, mix_generate", "src/pdf.rs")], observe=["drawn directions and densities"])

prop("C19", "Rendering and loading give back the memory they take",
 "A render holds no more memory the more samples it has done, whatever its size, shader, post processors and image strategy, apart from the reports the receiver has not taken yet. When a render has returned (finished, aborted, abandoned by its receiver, refused its threads or without a light) and its scene, renderer and reports are dropped, and when a load has succeeded or failed and its result is dropped, all memory it took is given back: doing the same again and again, one after the other or at the same time, never holds more and more.",
 ["histories", "schedules", "fault_sequences"], "all lengths and repetitions of renders and loads, all ends they can come to, all schedules and file faults",
 "A test process renders each scene once and exits; nothing looks at the memory it holds.",
 ["src/renderer/mod.rs", "src/lib.rs", "src/post/mod.rs", "src/post/bloom.rs", "src/loader/obj.rs", "src/material/texture.rs", "src/camera.rs", "src/hittable/bvh.rs"],
 [("buffers of a render and of a row", "src/renderer/mod.rs: Renderer::render"), ("loading of models, materials and textures", "src/loader/obj.rs, src/material/texture.rs")],
 [("bytes held", "allocated and not freed", "the global allocator")], ["the process's heap"])

prop("C20", "A worker that is held up holds up only what it is working on",
 "While one worker thread of a render stands still (taken off its processor, on a slow core, swapped out), the other workers of the render trace all the rest of that sample except the part the one is working on (some rows, less than its share of the image), the reports of all earlier samples have been delivered, and other renders in the same process go on to their end. Even when all workers but one stand still the last one does the rest. When the held up worker goes on, the render completes as if nothing had happened.",
 ["schedules", "fault_sequences"], "all moments at which any number of workers but not all of them stand still, all schedules, scenes and sizes, several renders at once",
 "No test makes a thread stand still; a render whose workers wait for each other still passes every test, only later.",
 ["src/renderer/mod.rs", "src/random.rs"],
 [("scope with one task per row, shared by all workers", "src/renderer/mod.rs: Renderer::render"), ("row buffer added to the shared sums under a lock held shortly", "src/renderer/mod.rs: add_row_data"), ("thread pool of its own per render", "src/renderer/mod.rs: Renderer::render")],
 observe=["what is traced, reported and returned while a worker stands still"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
