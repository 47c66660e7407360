"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Every ray is intercepted by the nearest surface in front of it",
  "Tracing any bundle through any assembly of surfaces, each ray's next interaction is with the closest surface point strictly ahead of the ray's start (the point it starts from does not count), at exactly that point, whichever object, subassembly or list position the surface has. A ray that meets no surface leaves the system and has no descendants; no ray is lost, invented or stopped by a surface it does not meet.",
  ["inputs", "configurations"], "all assemblies of flat, round, rectangular, triangular, spherical, hemispherical, cut-spherical, parabolic and cylindrical surfaces in any nesting and order, all ray bundles, all iteration counts",
  "the tests trace eight hand-made scenes with 1-4 surfaces and 1-8 rays; the property quantifies over every scene, surface order and bundle",
  ["tracer/tracer_engine.py", "tracer/surface.py", "tracer/geometry_manager.py"],
  [("parametric positions of all surfaces are compared per ray and the smallest wins", "tracer/tracer_engine.py intersect_ray"), ("outgoing bundles of the hit surfaces are welded together", "tracer/tracer_engine.py ray_tracer")],
  ["TracerEngine.ray_tracer return value", "TracerEngine.tree"])

p("C02", "The recorded ray tree is a faithful genealogy of the trace",
  "After a trace the tree's first bundle is the source, each later bundle holds every ray generated in that step, and each ray's parent index designates the ray of the previous bundle on whose path it starts; rays still being followed come first and in the order in which they are returned, rays dropped for low energy come after them, keep their true parent and have no children. The history of any ray leads back through those parents to its source ray, and not recording the tree changes nothing in the returned result, only that the last bundle alone is kept.",
  ["inputs", "configurations", "histories"], "all scenes, bundles, energy thresholds, iteration limits and tree on/off",
  "the tests compare parent lists for six fixed small scenes; parent re-indexing depends on the interplay of surface order, culling, splitting and dropped rays over many steps",
  ["tracer/tracer_engine.py", "tracer/trace_tree.py", "tracer/ray_bundle.py"],
  [("parents re-indexed to the full bundle and weak rays moved to the back", "tracer/tracer_engine.py ray_tracer"), ("tree of bundles", "tracer/trace_tree.py RayTree")],
  ["TracerEngine.tree", "RayTree.ordered_parents", "RayTree.ray_history"])

p("C03", "Energy is conserved at every interaction and cut off as requested",
  "At every interaction the energy of the rays generated equals the incoming ray's energy minus what the surface absorbs: (1-absorptivity) of it for mirrors and diffusers, all of it split between the reflected and refracted ray at a refractive interface, none for a ray striking the back of a one-sided reflector. Rays are followed further exactly when their energy exceeds the requested minimum, so energy leaving, absorbed and dropped always adds up to the energy of the source.",
  ["inputs", "configurations"], "all scenes mixing reflective, absorptive, diffuse, one-sided and refractive surfaces, all energies and thresholds",
  "tests check the energies of one bounce on a single plate; conservation must hold over every chain of interactions, angle and threshold",
  ["tracer/tracer_engine.py", "tracer/optics_callables.py", "tracer/optics.py"],
  [("outgoing energy computed from the incoming one by each optics manager", "tracer/optics_callables.py"), ("energies at or below the minimum are dropped", "tracer/tracer_engine.py ray_tracer")],
  ["energies in TracerEngine.tree", "absorbed energies reported by receivers"])

p("C04", "Moving the whole system and its light rigidly only moves the result",
  "If an entire assembly and the source rays are rotated and translated by the same rigid motion, the trace is the same trace moved by that motion: the same rays hit, miss, reflect, refract or are absorbed, with the same energies and genealogy, and all points and directions transformed accordingly. This holds however the motion is applied (on the assembly, on its children, through location and rotation separately, or distributed over nested assemblies).",
  ["inputs", "configurations"], "all scenes, bundles, and rigid motions",
  "two tests rotate one dish and one mirror by 45 degrees; the property covers every surface type and every motion",
  ["tracer/assembly.py", "tracer/has_frame.py", "tracer/surface.py", "tracer/quadric.py", "tracer/flat_surface.py", "tracer/boundary_shape.py"],
  [("global-to-local conversion of rays in each geometry", "tracer/*surface*.py, paraboloid.py, cylinder.py"), ("recursive frame updates", "tracer/assembly.py transform_children")],
  ["TracerEngine.tree of the two traces"])

p("C05", "Rays are traced independently, repeatably and without side effects",
  "What happens to a ray does not depend on which other rays share its bundle, on their order or number: permuting, splitting, duplicating or merging bundles permutes, splits, duplicates or merges the results. Tracing never alters the source bundle or the assembly, so tracing again (same or new engine, with other traces in between) gives the same answer, and asking for fewer steps gives the corresponding earlier stage of the longer trace.",
  ["inputs", "histories"], "all scenes of deterministic optics, all bundles and their permutations and partitions, all sequences of traces",
  "tests trace each fixture once in one order; vectorised selection code is right for one ray and wrong for mixed bundles, which only many bundle compositions show",
  ["tracer/tracer_engine.py", "tracer/quadric.py", "tracer/sphere_surface.py", "tracer/cylinder.py", "tracer/paraboloid.py", "tracer/flat_surface.py", "tracer/surface.py"],
  [("vectorised per-ray selection", "_select_coords in the geometry managers"), ("per-iteration state dropped when done", "done() of surfaces and geometry managers")],
  ["TracerEngine.tree", "the source RayBundle before and after"])

p("C06", "A surface's place in the world is the product of its chain of frames",
  "Whatever the history of constructing, nesting, adding, moving and turning assemblies, objects and surfaces, once the top-level assembly has been (re)transformed every surface and bounding volume stands in the world at the product of the transforms of its containers from the outermost in, then its own; the location, rotation and transform reported for each part agree with each other and with what was last set. Changing one part never moves parts that are not inside it, and never alters the arrays the caller passed in.",
  ["histories", "inputs"], "all sequences of construct/add/set-location/set-rotation/set-transform operations over nested assemblies, with shared input arrays",
  "four tests exercise one two-level nesting; the guarantee is over operation histories and aliasing between parts",
  ["tracer/has_frame.py", "tracer/assembly.py", "tracer/object.py", "tracer/surface.py"],
  [("location/rotation/transform kept in sync", "tracer/has_frame.py"), ("recursive update of children", "tracer/assembly.py, tracer/object.py transform_children")],
  ["Surface.mesh, Surface.global_to_local, register_incoming", "get_location/get_rotation/get_transform", "Assembly.get_surfaces/get_objects order"],
  [dict(name="frames", meaning="relative transform and world transform of each part", where="tracer/has_frame.py")])

p("C07", "Unbounded surfaces report the first true intersection of each ray",
  "For an infinite plane, closed sphere, (elliptic) paraboloid and infinite cylinder in any position, the reported parameter is the smallest positive distance along the ray at which it meets the surface and the reported point lies both on the ray and on the surface; rays that never meet it ahead of their start are reported as missing (infinite), never as negative or undefined values.",
  ["inputs"], "all frames, shape parameters and rays (inside/outside, tangent side, parallel to axis, pointing away), bundles of any size",
  "tests use a handful of axis-aligned rays per surface; the root selection has many input-dependent branches",
  ["tracer/quadric.py", "tracer/flat_surface.py", "tracer/sphere_surface.py", "tracer/paraboloid.py", "tracer/cylinder.py"],
  [("quadratic root choice", "tracer/quadric.py find_intersections/_select_coords"), ("plane parameter", "tracer/flat_surface.py find_intersections")],
  ["Surface.register_incoming / GeometryManager.find_intersections", "get_intersection_points_global"])

p("C08", "Bounded surfaces are hit exactly within their aperture",
  "A rectangular or round plate, triangle, hemisphere, sphere cut by a bounding volume, finite cylinder, circular parabolic dish and hexagonal parabolic dish intercept a ray exactly when the ray meets the underlying surface ahead of its start at a point inside the aperture, and they report the first such point, also when an earlier crossing lies outside the aperture and regardless of what other rays in the bundle do.",
  ["inputs"], "all aperture sizes, frames, rays crossing the underlying surface zero, one or two times in and out of the aperture, mixed bundles",
  "tests shoot a few rays at each shape in one frame; the two-crossings selection is per ray and only mixed bundles exercise it",
  ["tracer/flat_surface.py", "tracer/triangular_face.py", "tracer/sphere_surface.py", "tracer/cylinder.py", "tracer/paraboloid.py", "tracer/boundary_shape.py"],
  [("aperture tests", "find_intersections / _select_coords of each geometry manager")],
  ["register_incoming / find_intersections", "get_intersection_points_global"])

p("C09", "Reported normals are unit, perpendicular to the surface and face the ray",
  "At every hit the normal has unit length, is perpendicular to the surface at the hit point, and points to the side the ray came from; it belongs to the ray it is reported for, for any selection of the bundle's rays in any frame.",
  ["inputs"], "all surface types, frames, rays from either side, ray selections",
  "tests check normals of symmetric ray fans on upright surfaces; per-ray sign flips and frame rotation vary with every input",
  ["tracer/quadric.py", "tracer/flat_surface.py", "tracer/sphere_surface.py", "tracer/paraboloid.py", "tracer/cylinder.py", "tracer/triangular_face.py"],
  [("gradient normals flipped against the ray", "_normals / get_normals of the geometry managers")],
  ["GeometryManager.get_normals after select_rays"])

p("C10", "Mirrors obey the law of reflection",
  "A specularly reflected ray leaves the hit point in the plane of incidence with the angle of reflection equal to the angle of incidence, on the side it came from, with unit direction, unchanged refractive index and its other properties inherited; reflecting twice off the same normal restores the direction. Consequently a parabolic dish sends every axis-parallel ray through its focus and a sphere returns every ray coming from its centre.",
  ["inputs"], "all directions and normals, all reflective optics, all surfaces and frames",
  "tests use four symmetric directions on one plane",
  ["tracer/optics.py", "tracer/optics_callables.py", "tracer/paraboloid.py"],
  [("vector reflection formula", "tracer/optics.py reflections"), ("reflective optics managers", "tracer/optics_callables.py")],
  ["optics.reflections", "outgoing bundles", "TracerEngine.tree"])

p("C11", "Refractive interfaces obey Snell, Fresnel and total internal reflection",
  "At a refractive interface a ray is refracted exactly when it is not totally reflected, into the Snell direction (unit length, in the plane of incidence, continuing to the other side) and the other medium's index, while the reflected ray keeps its index; the reflected share of energy is the unpolarised Fresnel reflectance, always between 0 and 1, equal to 1 under total reflection, and the rest is refracted. This holds for every ray of a mixed bundle, including exact normal, grazing and near-critical incidence, and the refracted path is reversible.",
  ["inputs"], "all index pairs, incidence angles, normal orientations, mixed bundles with per-ray indices",
  "tests cover one index pair at a few angles; critical and normal incidence are rounding-sensitive and per-ray selection depends on the mix",
  ["tracer/optics.py", "tracer/optics_callables.py"],
  [("vector Snell law and TIR test", "tracer/optics.py refractions"), ("Fresnel equations", "tracer/optics.py fresnel"), ("index toggling and splitting", "tracer/optics_callables.py RefractiveHomogenous")],
  ["optics.refractions, optics.fresnel", "outgoing bundles", "TracerEngine.tree"])

p("C12", "Diffuse reflection and sunshape directions follow their distributions",
  "Diffusely reflected rays leave on the incident side of the surface in unit directions distributed by the cosine law about the normal, independent of the incident direction; pillbox-sunshape directions are unit, deviate from +Z by at most the given angle and fill the cone so that equal-energy rays give the pillbox flux, uniformly in azimuth. Every ray gets its own independent direction.",
  ["inputs"], "all numbers of rays, cone angles, incident directions, surface orientations and random streams",
  "one test checks azimuth uniformity of one bundle; cone bounds and distribution must hold for every cone, normal and random stream",
  ["tracer/sources.py", "tracer/optics_callables.py", "tracer/spatial_geometry.py"],
  [("cosine-weighted cone sampling", "tracer/sources.py pillbox_sunshape_directions"), ("rotation of samples onto the normal", "tracer/optics_callables.py LambertianReflector")],
  ["sources.pillbox_sunshape_directions", "outgoing bundles of diffuse surfaces"])

p("C13", "Light sources emit the requested bundle",
  "A solar-disk source emits exactly the requested number of rays, starting uniformly within the disk of the given radius centred on and perpendicular to the given axis, with directions within the given angle of the axis, and with total energy flux x disk area shared equally when a flux is given. A square source emits parallel rays along the given direction starting on a regular square grid in the perpendicular plane about the centre, with consistent per-ray arrays.",
  ["inputs"], "all ray counts, centres, directions (including along +-Z), radii, cone angles, fluxes",
  "tests sample three directions and one radius; square sources are untested",
  ["tracer/sources.py", "tracer/spatial_geometry.py", "tracer/ray_bundle.py"],
  [("disk and cone sampling rotated to the axis", "tracer/sources.py")],
  ["the returned RayBundle"])

p("C14", "Ray bundles are consistent per-ray records under every operation",
  "A bundle behaves as a list of ray records: selecting, inheriting with overrides, deleting, adding and concatenating bundles, and setting properties for all or selected rays act on every per-ray property (built in or user defined) of exactly the designated rays, in order, without affecting other bundles or rays. User-defined properties follow their rays through whole traces.",
  ["histories", "inputs"], "all sequences of bundle operations, all sets of present properties, selectors (index lists, masks, slices) and sizes including empty",
  "six tests each perform one operation on a 4-ray bundle",
  ["tracer/ray_bundle.py", "tracer/optics_callables.py", "tracer/tracer_engine.py"],
  [("dynamic properties with getters and setters", "tracer/ray_bundle.py _create_property"), ("inherit / __add__ / concatenate_rays / delete_rays", "tracer/ray_bundle.py")],
  ["RayBundle getters", "bundles in TracerEngine.tree"])

p("C15", "Rotation and transform helpers produce the stated rigid motions",
  "Every rotation helper returns a proper rotation matrix: the axis-angle rotation fixes its axis and turns the perpendicular plane counterclockwise by the angle, the x/y/z helpers agree with it, angles add, and homogeneous transforms carry exactly the requested rotation and translation. The rotation to a direction has that direction as its third column and its first column in the original XY plane, and leaves the frame unchanged for +Z, for one or for many directions at once.",
  ["inputs"], "all unit axes and directions (including the +-Z singular ones), angles, translations and batches",
  "two tests check two directions",
  ["tracer/spatial_geometry.py"],
  [("Rodrigues formula; perpendicular construction", "tracer/spatial_geometry.py")],
  ["return values of the helpers"])

p("C16", "Meshes lie on the surface they represent and cover it at the resolution",
  "The mesh of a surface consists of points that lie, in world coordinates, on that surface within its aperture (to within a fraction of the mesh spacing), and it covers the surface: any point of the aperture has a mesh point within a small multiple of the spacing that the resolution asks for.",
  ["inputs", "configurations"], "all meshable surface types, sizes, resolutions and frames",
  "tests check one mesh per shape in local coordinates, and only in one direction (points on the shape)",
  ["tracer/surface.py", "tracer/flat_surface.py", "tracer/sphere_surface.py", "tracer/cylinder.py", "tracer/paraboloid.py", "tracer/triangular_face.py"],
  [("local mesh of each geometry moved to the world frame", "tracer/surface.py mesh and mesh() of the geometry managers")],
  ["Surface.mesh"])

p("C17", "Receivers account for every hit, and flux maps add up",
  "Over any sequence of traces and resets, a receiver reports exactly one entry per ray that struck it since the last reset, with the energy absorbed from that ray (incoming energy x absorptivity) and the world coordinates of the hit; converting those to the receiver's coordinates puts them on its aperture. The flux map of a concentrator has the requested bins over the receiver's extent and sums to the energy its receiver absorbed.",
  ["histories", "inputs"], "all sequences of traces, resets and movements of a system with specular or diffuse receivers of any absorptivity",
  "tests call a receiver twice directly and trace one dish once",
  ["tracer/optics_callables.py", "tracer/surface.py", "tracer/models/homogenized_local_receiver.py", "tracer/models/one_sided_mirror.py"],
  [("hit and energy logs appended per call", "tracer/optics_callables.py AbsorptionAccountant"), ("weighted 2D histogram", "tracer/models/homogenized_local_receiver.py histogram_hits")],
  ["get_all_hits", "global_to_local", "histogram_hits"],
  [dict(name="hit log", meaning="absorbed energies and points since reset", where="tracer/optics_callables.py AbsorptionAccountant")])

p("C18", "One-sided mirrors, receivers, homogenizers and dishes are built as specified",
  "A one-sided mirror reflects rays from its front and swallows rays from its back; a one-sided receiver registers only front hits. A homogenizer is a rectangular tube of inward mirrors from z=0 to its height with the given aperture and efficiency, and a concentrator dish carries its receiver at the stated distance facing the dish with that tube in front of it, so a ray entering the tube leaves through an end or is accounted for, with energy multiplied by the efficiencies of exactly the mirrors it struck; the standard dish's dimensions satisfy its rim-angle and concentration rules.",
  ["inputs", "configurations"], "all dimensions, efficiencies, positions and rays",
  "tests trace four rays through one homogenizer and five through one dish",
  ["tracer/models/one_sided_mirror.py", "tracer/models/homogenizer.py", "tracer/models/homogenized_local_receiver.py", "tracer/models/tau_minidish.py", "tracer/models/PETAL_dish.py"],
  [("model constructors", "tracer/models/*.py")],
  ["traces through the models", "get_all_hits", "get_external_dimensions, standard_minidish_measures"])

p("C19", "Heliostats send the sun to the tower",
  "After aiming a heliostat field at any sun position, a sun ray striking the centre of any heliostat from the sun is reflected exactly through the tower's target at the aim height, with the heliostat staying at its position; before aiming, heliostats face down and swallow light from above. The sun vector is unit with the stated angle from the vertical, and a radial-stagger layout places heliostats on the stated radii with the stated spacing, alternate rows shifted by half a spacing.",
  ["inputs", "histories"], "all fields, tower heights, sun positions, sequences of re-aiming and of changing the aim height, all stagger parameters",
  "one (failing) test aims one field at one sun position; one test checks radii of one layout",
  ["tracer/models/heliostat_field.py", "tracer/models/one_sided_mirror.py", "tracer/spatial_geometry.py"],
  [("bisector normal converted to azimuth and elevation rotations", "tracer/models/heliostat_field.py aim_to_sun"), ("stagger grid", "tracer/models/heliostat_field.py radial_stagger")],
  ["traces through the field", "solar_vector, radial_stagger"])

p("C20", "A spherical lens is a closed glass body that focuses at its focal length",
  "For any admissible diameter, thickness, radii and index, the lens has the stated thickness on axis, aperture diameter and surface curvatures, is closed (a ray cannot get in or out without crossing its surface, so the medium index along a ray always matches being inside or outside), reports the thick-lens focal length, and brings paraxial rays to the focus at that distance from its principal plane at the origin.",
  ["inputs", "configurations"], "all biconvex, biconcave, meniscus and plano-curved lenses and all rays",
  "tests build three lenses and trace single paraxial rays",
  ["tracer/models/spherical_lens.py", "tracer/sphere_surface.py", "tracer/cylinder.py", "tracer/boundary_shape.py"],
  [("placement of two cut spheres and a closing cylinder from the lensmaker equation", "tracer/models/spherical_lens.py")],
  ["traces through the lens", "focal_length"])

p("C21", "A triangulated surface is the union of its triangles",
  "For any vertex list and face list, including ones with degenerate faces, the object intercepts a ray exactly where the ray first meets one of the non-degenerate triangles spanned by the listed vertices, and reflects it by that triangle's plane; degenerate faces have no effect on the others.",
  ["inputs", "configurations"], "all vertex arrays, face lists (repeated vertices, collinear faces anywhere in the list), placements and rays",
  "two tests use two tetrahedra without degenerate faces",
  ["tracer/models/triangulated_surface.py", "tracer/triangular_face.py"],
  [("per-face frame from its edges", "tracer/models/triangulated_surface.py"), ("barycentric containment", "tracer/triangular_face.py")],
  ["traces through the object", "register_incoming of its surfaces"])

p("C22", "Bounding volumes contain exactly their points, wherever they are moved",
  "A bounding sphere, infinite cylinder or half-space placed anywhere, directly or through its container's transform, reports for each of any number of points whether it lies in the volume. The rectangle a bounding sphere reports for a plane is the tight bounding square of the circle in which the sphere cuts the plane.",
  ["inputs"], "all placements, sizes, transforms, planes and numbers of points",
  "tests check three points per shape (the cylinder code only accepts exactly three) in untransformed positions",
  ["tracer/boundary_shape.py", "tracer/has_frame.py", "tracer/sphere_surface.py"],
  [("local-coordinate membership tests", "tracer/boundary_shape.py in_bounds"), ("projection of the centre onto the plane", "tracer/boundary_shape.py bounding_rect_for_plane")],
  ["in_bounds, bounding_rect_for_plane"])

p("C23", "Culling promises of optical objects are honoured, exactly and only for one step",
  "When an object declares that rays leaving one of its surfaces can next meet only that object, those rays are tested against that object's surfaces alone; when it declares some of its surfaces irrelevant for a ray, that ray skips exactly those surfaces. The declarations apply to the declared rays for the next step only, and without declarations every ray is tested against every surface.",
  ["configurations", "inputs", "histories"], "all objects with arbitrary per-ray ownership and relevancy answers in any scene",
  "one test uses the one-sided mirror's all-irrelevant answer; ownership is never exercised",
  ["tracer/tracer_engine.py", "tracer/object.py", "tracer/models/one_sided_mirror.py"],
  [("per-ray ownership and per-surface relevancy matrices", "tracer/tracer_engine.py ray_tracer/intersect_ray"), ("defaults", "tracer/object.py own_rays/surfaces_for_next_iteration")],
  ["TracerEngine.tree for objects overriding own_rays / surfaces_for_next_iteration"])

p("C24", "The dispersion formula gives the Hartmann refractive index",
  "The refractive index computed for a wavelength is the Hartmann expression a + b/(c-L) + d/(e-L), elementwise for arrays of wavelengths.",
  ["inputs"], "all coefficients and wavelengths away from the poles",
  "it is not tested at all",
  ["tracer/optics.py"],
  [("formula", "tracer/optics.py refr_idx_hartmann")],
  ["optics.refr_idx_hartmann"])

p("C25", "The ray drawing shows exactly the traced paths",
  "The line segments drawn for a traced tree are exactly: one from each parent ray's start to the start of each of its children, and one of the given escape length along its direction for each energy-carrying ray that has no children; zero-energy rays get no tail, rays left out by a ray selector get no segments, and no segment joins rays that are not parent and child. A scene shows exactly these for its current source, assembly and trace limits each time it replots, and nothing without a source or after clearing.",
  ["inputs", "configurations", "histories"], "all traced trees, including zero-energy rays anywhere in a bundle, all ray selectors, all histories of a scene",
  "the module is never imported by the tests (needs MayaVi)",
  ["tracer/mayavi_ui/scene_view.py", "tracer/tracer_engine.py"],
  [("points and connection arrays built level by level", "tracer/mayavi_ui/scene_view.py show_rays"), ("retrace and redraw", "tracer/mayavi_ui/scene_view.py TracerScene.plot_ray_trace")],
  ["points and line connections handed to the plotting pipeline (replaced by a recorder)"])

p("C26", "The surfaces shown in a scene are those of its assembly",
  "Over any history of redrawing (all or some surfaces), updating after surfaces were added to or deleted from the assembly, replacing the assembly and clearing, the meshes on a scene are exactly one per shown surface, each the surface's own mesh as of when it was last drawn, in the colour, opacity and resolution asked for or those the surface itself is annotated with; redrawing or updating some surfaces leaves the others alone.",
  ["histories", "configurations"], "all histories of TracerScene operations over changing assemblies",
  "the module is never imported by the tests (needs MayaVi), and the guarantee is over histories",
  ["tracer/mayavi_ui/scene_view.py"],
  [("mesh bookkeeping by surface", "tracer/mayavi_ui/scene_view.py set_assembly, update_surfaces, show_assembly, clear_scene")],
  ["meshes drawn on and removed from the scene (replaced by a recorder)"])

p("C27", "The assembly tree widget mirrors its assembly, and edits reach the part edited",
  "The tree widget shows one item per subassembly, object and surface of its assembly, nested and ordered as the assembly is, captioned by the part's caption tag or else by its default numbering, which becomes its tag. Editing an item's caption sets the tag of exactly the part it stands for, tags survive redisplaying the assembly or showing another one in between, and the other tags are left alone.",
  ["histories", "configurations"], "all assemblies and all histories of display, renaming, tagging and adding parts",
  "the one test of the widget needs PyQt4 and renames a single item; the guarantee is over all structures and histories",
  ["tracer/qt/assembly_tree.py"],
  [("items hold their part and listen to changes", "tracer/qt/assembly_tree.py AssemblyTreeItem"), ("recursive population", "tracer/qt/assembly_tree.py AssemblyTree")],
  ["item tree of the widget (Qt replaced by stand-ins)", "AssemblyTree.get_tag"])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
