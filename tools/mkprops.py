#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for its text)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
I, C, H, G = "inputs", "configurations", "histories", "programs"
t = "tracer/"

p("C01", "Each ray interacts with exactly the nearest surface ahead of it",
  "In every tracing iteration, a surface is told to act on a ray if and only if that surface was tested against the ray, the ray meets it at a finite distance beyond the self-intersection tolerance, and no other surface tested against that ray is met at a smaller distance beyond that tolerance. A ray that meets no tested surface, or meets one only within the tolerance (the surface it has just left), is acted on by nobody for that reason, and the verdict for a ray never depends on the other rays of the bundle.",
  [I, C], "all assemblies, all ray bundles, every iteration of a trace",
  "The tests trace a handful of rays through two to four surfaces; the guarantee quantifies over every ordering of distances, misses and self-hits of every ray in a bundle.",
  [t+"tracer_engine.py", t+"surface.py"],
  [("per-ray minimum over the surfaces tested, misses as +inf, self-hits discarded", t+"tracer_engine.py:TracerEngine.intersect_ray"),
   ("selection handed to the surfaces", t+"tracer_engine.py:TracerEngine.ray_tracer")],
  ["Surface.register_incoming arguments and results", "Surface.select_rays arguments"])

p("C02", "The trace tree attributes every recorded ray to the ray that produced it",
  "After a trace, each level of the ray tree holds every ray generated in that iteration exactly once, with its position, direction, energy and other properties as its surface produced it, and the parent index stored with each ray is the position, in the previous level, of the ray that hit the surface to generate it. Following parent indices back from any ray of any level therefore reproduces that ray's path down to the source bundle, including through the tree's ray-history query; without a full tree, the last generated rays are still kept.",
  [I, C, H], "all traces: any number of surfaces, iterations, splitting optics, weak rays and partial ownership",
  "Tests check parents on two- or three-bounce traces with few rays; index bookkeeping goes wrong only for particular combinations of ownership, splitting and energy culling.",
  [t+"tracer_engine.py", t+"trace_tree.py", t+"ray_bundle.py"],
  [("parent re-indexing through the tested-rays mask", t+"tracer_engine.py:ray_tracer"), ("weak rays appended after the surviving ones", t+"tracer_engine.py:ray_tracer"),
   ("RayTree.append / ordered_parents / ray_history", t+"trace_tree.py")],
  ["RayTree levels", "RayTree.ray_history"])

p("C03", "Ray ownership and surface relevancy follow the ray they were decided for",
  "When an object, asked about rays that have just left one of its surfaces, claims some of them, then in the next iteration exactly those rays are tested only against that object's surfaces, and unclaimed rays are tested against all objects. When it declares some of its own surfaces irrelevant to a ray, exactly that ray skips exactly those surfaces in the next iteration and no others; source rays are tested against every surface, and the object is asked with the surviving rays and with the position of the generating surface within the object.",
  [I, C, H], "all assemblies with any mix of owning and non-owning objects, all iterations",
  "No test combines several objects, several surfaces per object, culled rays and mixed ownership; an index shifted by one surface or one ray goes unnoticed in symmetric setups.",
  [t+"tracer_engine.py", t+"object.py"],
  [("ray_ownership / surfs_relevancy arrays, rebuilt per iteration in bundle order", t+"tracer_engine.py:ray_tracer"), ("owned_rays mask", t+"tracer_engine.py:intersect_ray"), ("default own_rays / surfaces_for_next_iteration", t+"object.py")],
  ["AssembledObject.own_rays arguments", "rays each surface is tested against in the next iteration"])

p("C04", "Energy cut-off: weak rays are recorded but not propagated; traces stop rightly",
  "A generated ray continues to the next iteration if and only if its energy exceeds the minimum energy given to the trace; rays at or below it are still recorded in the tree but are never tested again. Tracing runs at most the requested number of iterations and ends early only when no ray survives, and the positions and directions returned are those of the rays surviving the last iteration that ran.",
  [I, C, H], "all bundles, energies and thresholds, all iteration counts",
  "Tests cover one threshold on small bundles; the guarantee is per ray and per iteration.",
  [t+"tracer_engine.py", t+"ray_bundle.py"],
  [("delete mask energy <= min_energy", t+"tracer_engine.py:ray_tracer"), ("break on empty bundle", t+"tracer_engine.py:ray_tracer"), ("delete_rays", t+"ray_bundle.py")],
  ["ray_tracer return value", "rays tested in the next iteration"])

p("C05", "Trace protocol: register, select, generate, release - in order, every iteration",
  "In each iteration a surface is given only the rays to be tested against it, is asked for outgoing rays only after it was told which of those rays hit it, is asked at most once, and is asked if and only if some ray hit it. Every surface of the assembly is released exactly once per iteration, after its outgoing rays were taken, whether or not it was hit or even tested.",
  [C, H], "all assemblies and traces, every iteration, including surfaces missed by all rays or tested by none",
  "Releasing is invisible to result-comparing tests unless stale data is consulted later; tests do not observe the order of calls.",
  [t+"tracer_engine.py", t+"surface.py", t+"geometry_manager.py"],
  [("per-surface loop in ray_tracer", t+"tracer_engine.py:ray_tracer"), ("Surface forwards each step to its geometry and optics", t+"surface.py")],
  ["calls received by surfaces and geometry managers"])

p("C06", "A surface keeps no memory: repeated use equals first use",
  "Using a surface's geometry for another bundle or another frame - after a completed iteration, one abandoned without release, an iteration in which nothing hit, or a whole previous trace - gives exactly the intersections, points and normals that a freshly built surface of the same shape would give. Releasing a surface is safe after any stage of the protocol, and an engine used for a second trace reports only that trace.",
  [H, I], "all sequences of iterations and traces over the same surfaces",
  "Tests build fresh objects in setUp; stale state shows only across particular sequences of hits, misses and releases.",
  [t+"geometry_manager.py", t+"flat_surface.py", t+"quadric.py", t+"sphere_surface.py", t+"paraboloid.py", t+"cylinder.py", t+"triangular_face.py", t+"surface.py", t+"tracer_engine.py"],
  [("working attributes overwritten by find_intersections and dropped by done", t+"geometry_manager.py"), ("fresh RayTree per trace", t+"tracer_engine.py")],
  ["second-run results of every geometry manager"])

p("C07", "Every surface is used in the frame composed from the root down to it",
  "After any sequence of constructing, adding and moving assemblies, objects, surfaces and boundaries (with moves made on, or followed by an update from, the root assembly), the frame a surface's geometry is evaluated in equals the product of the root's transform, each nested assembly's transform, the object's transform and the surface's own transform, in that order. Adding a child with a transform places it at that transform, adding without one places it at the identity, and moving one child leaves its siblings where they were.",
  [C, H], "all assembly trees and all operation sequences on them",
  "Tests try a few two-level trees with special transforms, where order of multiplication or a missed update can coincide with the right answer.",
  [t+"assembly.py", t+"object.py", t+"has_frame.py", t+"surface.py", t+"boundary_shape.py"],
  [("transform_children recursion", t+"assembly.py, "+t+"object.py"), ("transform_frame", t+"has_frame.py"), ("Surface.register_incoming passes the global frame", t+"surface.py")],
  ["frame argument of find_intersections", "boundary containment tests"])

p("C08", "Location, rotation and transform of anything placeable always agree",
  "After any sequence of setting location, rotation or the full transform, the three accessors of an object, surface or assembly describe one and the same rigid frame: the last value set for each part, with the other part unchanged. Badly shaped locations or rotations are rejected, and no two placeable things influence one another's frame because the same array was used to place both, nor does anything move because an array it was placed with is changed later.",
  [H, I], "all sequences of frame settings on any kind of placeable thing",
  "Tests set each attribute once; drift between the views appears only after particular orders of setting and aliasing.",
  [t+"has_frame.py", t+"assembly.py", t+"object.py"],
  [("_transform with _loc/_rot kept in sync", t+"has_frame.py")], ["get_location/get_rotation/get_transform"])

p("C09", "Untrimmed surfaces: intersections lie on the ray and on the surface",
  "For planes, spheres, infinite cylinders and paraboloids placed in any frame, the distance reported for a ray is the smallest positive one at which the ray meets the surface, and is +infinity when there is none (including rays parallel to a plane, rays whose surface lies behind them and rays that pass by). The intersection point reported for a selected ray is the ray's origin plus that distance along its direction, in global coordinates.",
  [I, C], "all rays, all rigid frames, all shape parameters",
  "Tests use rays along axes and frames that make sign, transposition or coefficient errors vanish.",
  [t+"flat_surface.py", t+"quadric.py", t+"sphere_surface.py", t+"cylinder.py", t+"paraboloid.py"],
  [("plane equation", t+"flat_surface.py:FlatGeometryManager"), ("quadratic coefficients and root choice", t+"quadric.py, get_ABC of subclasses")],
  ["find_intersections", "get_intersection_points_global"])

p("C10", "Trimmed surfaces accept a hit exactly when it lies within their aperture",
  "A rectangular, round or triangular plate, hemisphere, cut sphere, finite cylinder, round or hexagonal parabolic dish reports for a ray the nearest positive intersection whose point, in the surface's own frame, lies within the documented aperture (the far one if the near one is outside it), and +infinity when there is none. Bounding volumes (sphere, cylinder, half space) contain a point exactly when it is inside them in their own frame as placed, and the rectangle a bounding sphere gives for a plane encloses their intersection.",
  [I, C], "all rays, all rigid frames, all aperture dimensions",
  "Tests probe a few points well inside or outside apertures; each edge, root and frame combination is a separate case.",
  [t+"flat_surface.py", t+"triangular_face.py", t+"sphere_surface.py", t+"cylinder.py", t+"paraboloid.py", t+"boundary_shape.py"],
  [("aperture masks in find_intersections / _select_coords", "geometry managers"), ("in_bounds", t+"boundary_shape.py")],
  ["find_intersections of trimmed shapes", "in_bounds", "bounding_rect_for_plane"])

p("C11", "Normals are unit length, perpendicular to the surface, and face the ray",
  "For every geometry manager and every selected hit, the normal reported is a unit vector in global coordinates, parallel to the surface's true normal at the hit point, and on the side the ray comes from. Normals, hit points and the list of selected rays correspond one to one in order, and the surface's up direction is its frame's Z axis.",
  [I, C], "all shapes, frames, rays and selections, hits from either side",
  "Tests look at normals at symmetric points and mostly from one side.",
  [t+"flat_surface.py", t+"sphere_surface.py", t+"cylinder.py", t+"paraboloid.py", t+"quadric.py", t+"geometry_manager.py"],
  [("_normals of the quadrics; _backside of flats", "geometry managers")], ["get_normals", "up"])

p("C12", "Rays do not influence each other",
  "What a surface's geometry reports for one ray - distance, hit point, normal - is a function of that ray and the surface alone: it is the same whether the ray is traced alone, in a larger bundle, in another position of the bundle, or next to rays that miss. Optics and the engine's choice of surface treat each selected ray by its own data likewise, random scattering aside.",
  [I], "all bundles: any number of rays, any mixture of hits and misses in any order",
  "Cross-talk through a shared mask or a misordered index array appears only for particular mixtures of rays, which fixed test bundles avoid.",
  [t+"flat_surface.py", t+"quadric.py", t+"sphere_surface.py", t+"paraboloid.py", t+"cylinder.py", t+"triangular_face.py", t+"optics_callables.py", t+"tracer_engine.py"],
  [("index arrays kept aligned with the ray they belong to", "all geometry managers"), ("selector passed through optics", t+"optics_callables.py")],
  ["find_intersections", "select_rays", "optics calls"])

p("C13", "Reflection, refraction and Fresnel laws hold for every incidence",
  "Reflected directions obey the law of reflection for any unit normal, on either side; refracted directions obey Snell's law, stay in the plane of incidence, are unit vectors and continue to the far side of the surface, and exactly the rays beyond the critical angle are reported as totally reflected. Reflectance follows Fresnel's equations for unpolarised light, and the dispersion formula is the documented two-term Hartmann equation.",
  [I], "all directions, normals (either orientation), and pairs of refractive indices",
  "Tests check a few angles and one index pair; sign and ratio errors coincide at normal incidence or for particular indices.",
  [t+"optics.py"], [("reflections, refractions, fresnel, refr_idx_hartmann", t+"optics.py")], ["return values of the optics functions"])

p("C14", "Optics conserve energy and give each outgoing ray its rightful properties",
  "Every outgoing ray starts at its hit point and carries the parent index, the custom properties and (unless refracted) the refractive index of the ray that made it; specular and diffuse reflectors reflect the fraction of energy not absorbed, one-sided mirrors nothing from behind, and diffuse directions leave on the normal's side by the cosine law, each ray with random numbers of its own. At a refractive boundary reflected plus refracted energy equals the incoming energy for each ray, with Fresnel's share reflected, everything reflected in total internal reflection, and the refracted ray in the medium on the other side.",
  [I, C], "all bundles, selections, absorptivities and index pairs, any mixture of refracted and totally reflected rays, including empty selections",
  "Tests use uniform bundles in which a swapped mask or index is invisible.",
  [t+"optics_callables.py", t+"ray_bundle.py", t+"sources.py"],
  [("Reflective, AbsorberReflector, RefractiveHomogenous, LambertianReflector", t+"optics_callables.py")], ["outgoing bundles of optics callables"])

p("C15", "Receivers account for all absorbed energy, hit by hit",
  "A receiver reports, for all hits since it was built or last reset, in order, the energy absorbed from each hitting ray (its energy times the absorptivity) and the matching global hit point, with nothing lost, duplicated or mixed across iterations and traces. Asking does not change the record, resetting empties it, a receiver never hit reports empty arrays, and the outgoing rays are those of the wrapped optics with the unabsorbed energy. The receiver assembly's flux histogram counts exactly those energies by hit position in the receiver's own coordinates, over its full extent.",
  [H, I], "all sequences of iterations, traces, queries and resets, including iterations with no hits",
  "Tests query once after one trace.",
  [t+"optics_callables.py", t+"models/homogenized_local_receiver.py"],
  [("AbsorptionAccountant", t+"optics_callables.py"), ("histogram of hits in receiver coordinates", t+"models/homogenized_local_receiver.py")],
  ["get_all_hits", "histogram_hits"])

p("C16", "Tracing never modifies what the caller handed in",
  "Computing intersections, normals, optics, sources, rotations or aiming, combining or culling bundles, and running a whole trace, leave the caller's ray bundles, direction and position arrays, frames and index arrays exactly as they were. Values handed out earlier (hit points, recorded absorptions, earlier tree levels) are not altered by later steps.",
  [I, H], "all entry points and all argument arrays, all later steps",
  "Tests rarely look at an argument again after the call; aliasing damage shows only when an array is reused.",
  [t+"ray_bundle.py", t+"optics.py", t+"optics_callables.py", t+"flat_surface.py", t+"quadric.py", t+"spatial_geometry.py", t+"sources.py", t+"models/heliostat_field.py", t+"tracer_engine.py"],
  [("copies made by fancy indexing before in-place updates", "throughout")], ["contents of argument arrays after each call"])

p("C17", "Ray bundle operations keep every property aligned with its ray",
  "Inheriting with a selection, concatenating, adding and deleting rays yield bundles in which every standard and custom property of every ray is that of the ray it came from, in the documented order, with explicitly given properties replacing the inherited ones, and with set properties never dropped when all operands have them. Property getters and setters with a selector touch exactly the selected rays, and ray counts always equal the number of rays held.",
  [I, C], "all bundles, all sets of standard and custom properties, all selections including empty ones",
  "Tests exercise a few property sets; each operation must treat every property alike.",
  [t+"ray_bundle.py"], [("_create_property, inherit, __add__, delete_rays, concatenate_rays, empty_bund", t+"ray_bundle.py")], ["getters of result bundles"])

p("C18", "Light sources emit the rays they document",
  "Disk sources start every ray on the disk of the given centre and radius perpendicular to the given direction, direct it along a unit vector deviating from that direction by at most the given angle, sampled as documented, and share flux times disk area equally among the rays. Square sources start rays on a grid within the given square perpendicular to the direction, all of them along the direction, with as many directions as positions.",
  [I], "all directions (including along Z), centres, sizes, angles, ray counts and random draws",
  "Tests sample one or two configurations and random draws.",
  [t+"sources.py", t+"spatial_geometry.py"], [("solar_disk_bundle, square_bundle, pillbox_sunshape_directions", t+"sources.py")], ["returned bundles"])

p("C19", "Rotation and transform builders produce the documented proper rotations",
  "Rotation about a unit axis by an angle is the right-handed proper rotation by that angle about that axis, the elementary x, y, z rotations and translations are the corresponding homogeneous transforms, and the axis-angle-translation builder composes them with the rotation applied first. The frame built to point Z along a unit vector has that vector as its Z axis, its X axis horizontal, is a proper rotation for every vector including vertical ones, and treats each vector of a batch as if alone.",
  [I], "all axes, angles, translations and direction batches",
  "Tests try one angle about one axis; sign and order errors survive symmetric cases.",
  [t+"spatial_geometry.py"], [("general_axis_rotation, rotation_to_z, generate_transform, rotx/roty/rotz, translate", t+"spatial_geometry.py")], ["returned matrices"])

p("C20", "Meshes lie on the surface they represent",
  "Every point of the mesh produced for a plate, sphere, hemisphere, cylinder, dish or triangle lies on that surface and within its aperture (up to the documented resolution rounding at the rim), in its local frame, and the mesh spans the whole aperture at the documented density of points. A surface's mesh is that mesh moved by the surface's current global frame.",
  [I, C], "all dimensions, resolutions and frames",
  "There is hardly a test of meshes.",
  [t+"flat_surface.py", t+"sphere_surface.py", t+"cylinder.py", t+"paraboloid.py", t+"triangular_face.py", t+"surface.py"],
  [("mesh methods", "geometry managers"), ("Surface.mesh", t+"surface.py")], ["mesh return values"])

p("C21", "Heliostats reflect the sun to the target",
  "After aiming, every heliostat stays at its own position with its normal bisecting the directions to the sun and to the target at the aim height currently set, for any sun azimuth and elevation and however often the field is re-aimed; before aiming, all heliostats face down at their positions. The sun vector is the documented unit vector, and radial-stagger layouts place alternating rings at the documented radii and angles.",
  [I, H], "all fields, sun positions, aim heights and aiming sequences",
  "Tests aim one small field once or twice.",
  [t+"models/heliostat_field.py"], [("aim_to_sun, solar_vector, set_aim_height, radial_stagger", t+"models/heliostat_field.py")], ["frames of the heliostat surfaces"])

p("C22", "Ready-made models place, size and coat their parts as documented",
  "The homogenizer's walls stand on the four sides of its aperture facing inward; receiver assemblies put the receiver and its homogenizer at the documented position facing the main reflector with the documented dimensions and efficiencies; one-sided mirrors and receivers ignore themselves for rays just leaving them. Spherical lenses have the documented curvatures, spacing, closing cylinder and focal length with the two media on every face, and triangulated surfaces have one face per non-degenerate triangle exactly where its vertices are.",
  [I, C], "all dimensions and parameters of each model",
  "Tests build each model with one set of numbers.",
  [t+"models/homogenizer.py", t+"models/homogenized_local_receiver.py", t+"models/one_sided_mirror.py", t+"models/spherical_lens.py", t+"models/tau_minidish.py", t+"models/PETAL_dish.py", t+"models/triangulated_surface.py"],
  [("constructors of the models", "tracer/models")], ["frames, shapes and optics of the model's surfaces"])

p("C23", "The ray plot joins each ray to its true parent",
  "The line plot made from a trace draws, for every ray of every recorded level whose energy is not zero and that the optional ray filter keeps, a segment from its starting point to each of its children, or of the given escape length along its direction if it has none. Segments never join points of unrelated rays, for any pattern of dead, filtered, splitting and escaping rays.",
  [I, H], "all trace trees and ray filters",
  "The plotting code has no tests (it needs a GUI toolkit).",
  [t+"mayavi_ui/scene_view.py"], [("show_rays", t+"mayavi_ui/scene_view.py")], ["points and connections handed to the plotting pipeline"])

p("C24", "Object and surface listings agree in order and completeness",
  "For any assembly tree, the list of surfaces is the concatenation, object by object in the order of the object list, of each object's own surfaces, with every object of every nested assembly present exactly once, and things added later are included. Listing never changes the tree, and engine bookkeeping by surface position therefore always refers to the object that owns the surface.",
  [C, H], "all assembly trees, including empty ones and nested ones, after any additions",
  "Tests list one or two small trees.",
  [t+"assembly.py", t+"object.py"], [("get_objects, get_surfaces, get_assemblies, get_local_objects", t+"assembly.py")], ["listing methods"])

p("C25", "Floating-point results stay within rounding of the exact ones",
  "Accumulated rounding in intersections, normals and repeated transforms never lets a ray leak through a closed body or hit the same point twice.",
  [I], "all double-precision inputs", "Needs bounds on rounding along runtime-dependent sequences of operations.",
  [t+"quadric.py", t+"flat_surface.py", t+"tracer_engine.py"], [("tolerances 1e-6, 1e-10", t+"tracer_engine.py")])

p("C26", "Random sources reproduce the documented statistical distribution",
  "The empirical distribution of positions and directions from random sources converges to the documented pillbox or Lambertian density.",
  [I], "all random streams", "A statistical statement about the generator's stream.",
  [t+"sources.py", t+"optics_callables.py"], [("random.uniform draws", t+"sources.py")])

p("C27", "The 3D scene shows exactly the current surfaces and the current trace",
  "After any sequence of a TracerScene's methods, on assemblies that gain, lose and share surfaces, the scene holds exactly one mesh for each surface of the current assembly (as of the last set_assembly() or update_surfaces()), made from that surface's own mesh() at the resolution, colour and opacity the surface is annotated with, or else those given or the defaults; meshes of surfaces no longer there are removed, and show_assembly(update=...) and update_surfaces() redraw nothing else. There is at most one ray plot, made by the last trace: of the current source through the current assembly with the current iteration and energy limits, escape length and ray filter; none without a source or after clear_scene(). Rendering is left enabled.",
  [H], "all sequences of scene operations and all annotations of surfaces", "Needs a GUI toolkit; the repository has no tests of it.",
  [t+"mayavi_ui/scene_view.py"], [("TracerScene", t+"mayavi_ui/scene_view.py")], ["meshes and plots created and removed on the scene"])

p("C28", "The assembly tree lists every part once, in order, and renames only the part edited",
  "The assembly tree widget shows, under one top item, every subassembly, object and surface of the assembly set last, each once, nested and ordered as the assembly lists them, under its caption tag if it has one and otherwise under its default number, which becomes its tag. All of them are editable; editing an item changes the caption tag of exactly the part it stands for, whatever assemblies were shown before, and other tags are left alone.",
  [I, H], "all assemblies, tags and sequences of setting and editing", "Needs a GUI toolkit; its test is not run here and renames one item.",
  [t+"qt/assembly_tree.py"], [("AssemblyTree, AssemblyTreeItem", t+"qt/assembly_tree.py")], ["items, captions and tags"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
