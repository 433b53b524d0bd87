"""Single source of the property list: writes /verif/properties.jsonl and, for the
properties that have a check module, /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V, G, T = "czone/volume/", "czone/generator/", "czone/transform/"

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=list(observe), technique=technique, note=note))

prop("C01", "Analytic surfaces classify every point on the right side",
 "A point is reported interior to a sphere exactly when its distance to the center is below radius plus tolerance, to a plane when its signed distance along the unit normal is below tolerance, and to a cylinder when its distance to the axis is below radius plus tolerance and its axial offset from the cylinder's middle is below half the length plus tolerance. The answer is one boolean per queried point, is independent of the length of the normal or axis vector supplied and of the numeric type or order of the points, and flipping a plane exchanges its sides. Parameters read back as given (with normals and axes normalised) and can be changed at any time.",
 ["inputs"], "all sphere/plane/cylinder parameters, tolerances and point arrays (any count including 0, integer or float)",
 "Tests sample a few fixed spheres, planes and cylinders with random points; they do not vary tolerance, scale, dtype or the exact boundary.",
 [V+"algebraic.py"], [("Sphere/Plane/Cylinder.checkIfInterior", V+"algebraic.py")],
 ["checkIfInterior", "params"], "property-based testing against an independent high-precision distance model",
 "Random exploration; points within 1e-7 (relative) of a decision boundary are excluded.")

prop("C02", "Plane distances and projections are exact for single points and arrays",
 "The signed distance from a point to a plane is the component of (point minus plane point) along the unit normal (positive outside), the distance is its absolute value, and neither depends on which point of the plane was used to define it. Projecting a point yields the point of the plane closest to it: it lies on the plane, differs from the original only along the normal by the signed distance, and projecting again changes nothing. A single point and the same point in an array give the same result, and arguments are not modified.",
 ["inputs"], "all planes and points, as single 3-vectors or Nx3 arrays",
 "No test checks projection of single points or distances for shifted, non-unit planes.",
 [V+"algebraic.py"], [("Plane.sdist_from_plane / dist_from_plane / project_point", V+"algebraic.py")],
 ["sdist_from_plane", "dist_from_plane", "project_point"], "property-based testing of algebraic laws and a reference formula", "")

prop("C03", "A volume is the intersection of its parts; a multi-volume is a union",
 "A point is inside a volume exactly when it is inside the convex hull of the volume's points (if it has any) and inside every analytic surface attached to it; it is inside a multi-volume exactly when it is inside at least one member, at any nesting depth. This keeps holding after points or surfaces are added, points are replaced, or members are added, in any order. Surfaces handed to a volume are copied: changing the caller's surface later does not change the volume.",
 ["inputs", "histories"], "all combinations of points and surfaces, all edit sequences, all query arrays",
 "Tests build volumes once and query them once; edit histories and mixtures of hulls and surfaces are not exercised.",
 [V+"volume.py"], [("Volume.checkIfInterior, addPoints, points setter, add_alg_object; MultiVolume.checkIfInterior", V+"volume.py")],
 ["checkIfInterior"], "model-based testing of edit histories against an independent half-space geometry model", "Query points within 1e-6 of a boundary are excluded.")

prop("C04", "Bounding regions enclose the whole interior",
 "Every point interior to a bounded volume lies (up to the surface tolerances) inside the convex hull of the bounding region the volume reports, for volumes defined by points, spheres, cylinders, bounded sets of planes or mixtures of these. The vertex set computed for a set of planes is exactly the set of vertices of their intersection, and infeasible and unbounded sets are reported as such instead of returning vertices. Turning the convex hull of points into planes gives planes whose common interior is that hull.",
 ["inputs"], "all bounded volumes and plane sets, anywhere in space and any orientation",
 "Tests cover a few axis-aligned boxes; a vertex lost or misplaced only shows as silently missing atoms.",
 [V+"volume.py", V+"algebraic.py"], [("Volume.get_bounding_box", V+"volume.py"), ("get_bounding_box, convex_hull_to_planes, Cylinder.get_bounding_box", V+"algebraic.py"), ("makeRectPrism", V+"volume.py")],
 ["get_bounding_box", "convex_hull_to_planes", "makeRectPrism"], "property-based testing against brute-force vertex enumeration and containment",
 "")

prop("C05", "Point transformations obey their definitions and compose",
 "Applied to points, a translation adds its shift; a matrix, rotation or inversion acts linearly about its origin (the coordinate origin by default); a reflection mirrors across its plane; a sequence applies its members in the order given, including nested sequences. Translations, rotations, inversions and reflections preserve all distances, reflections and inversions are their own inverse, and arguments are never modified. Applied to crystal bases, only the linear part acts: translations leave bases unchanged.",
 ["inputs", "programs"], "all transformation parameters, sequences and point arrays",
 "Tests check a few random rotations and translations one at a time.",
 [T+"transform.py"], [("applyTransformation, applyTransformation_bases", T+"transform.py")],
 ["applyTransformation", "applyTransformation_bases"], "property-based testing against an affine reference model", "")

prop("C06", "Regions move with their points under any transformation",
 "A transformed surface, volume or multi-volume contains the image of a point exactly when the original contained the point: for spheres, cylinders, planes, hulls, mixtures and nested unions under translations, rotations, reflections, inversions and sequences of these, and for planes and hulls under any invertible matrix. Repeated transformations accumulate, and radius, length and tolerance of surfaces are unaffected. Applying a transformation to a volume never alters the transformation.",
 ["inputs", "histories"], "all regions, transformation sequences and query points",
 "Tests check transformed parameters of isolated surfaces, not the membership of arbitrary points after sequences.",
 [T+"transform.py", V+"volume.py"], [("applyTransformation_alg", T+"transform.py"), ("Volume.transform, MultiVolume.transform", V+"volume.py")],
 ["transform", "checkIfInterior", "from_alg_object"], "metamorphic property-based testing (membership commutes with transformation)", "")

prop("C07", "Rotation builders return the documented proper rotations",
 "Every rotation builder returns a proper orthogonal 3x3 matrix: about an axis by an angle (right-handed), from one vector to another by the smallest angle (including parallel and opposite vectors and vectors of any length), aligning two ordered sets of vectors in the least-squares sense, and from zxz Euler angles, intrinsic about moving axes or extrinsic about fixed axes in the documented order. The axis-angle builder leaves its axis fixed and adds angles of the same axis. The angle reported between two vectors of any dimension and length is the true one, from 0 for parallel to pi for opposite vectors. Inputs are not modified.",
 ["inputs"], "all axes, angles, vector pairs and sets including degenerate directions",
 "Tests do not call these builders on (anti)parallel or near-degenerate vectors.",
 [T+"transform.py"], [("rot_v, rot_vtv, rot_align, rot_zxz", T+"transform.py"), ("vangle", "czone/util/misc.py")],
 ["rot_v", "rot_vtv", "rot_align", "rot_zxz", "vangle"], "property-based testing against elementary rotation formulas", "Alignment by least squares is only demanded exactly for rotated (well-conditioned) sets, and as optimality against perturbations otherwise.")

prop("C08", "Surface-to-surface alignment brings faces and points together",
 "The transformation returned for a moving plane and point and a target plane and point carries the moving plane onto the target plane with opposite normal, and brings the moving point as close to the target point as a motion keeping the planes in contact with that rotation allows (their projections on the target plane coincide). It is a rotation followed by a translation, and neither plane nor point supplied is modified.",
 ["inputs"], "all plane and point pairs in any relative position, including already aligned and opposite normals",
 "No test exercises the alignment.",
 [T+"transform.py"], [("s2s_alignment", T+"transform.py")], ["s2s_alignment"], "property-based testing of the alignment postconditions", "")

prop("C09", "Crystal generators supply every lattice site of the region, exactly once",
 "For any unit cell, orientation, origin and basis scale, the atoms a crystal generator supplies for a region include every site of the infinite crystal lying in the convex hull of the region, each exactly once with the right species, and every supplied atom is a site of that crystal. The crystal is the unit cell repeated along its lattice vectors as placed at the generator's origin, for orthogonal and non-orthogonal cells, any number of atoms per cell and fractional coordinates outside the unit cell. Supplying is repeatable and does not depend on previous calls.",
 ["inputs", "histories"], "all unit cells, transformations of generators, and regions",
 "Tests use orthogonal cells and compare counts for a few boxes.",
 [G+"generator.py", V+"voxel.py"], [("Generator.supply_atoms, structure setter, transform", G+"generator.py"), ("Voxel.get_extents, sbases", V+"voxel.py")],
 ["supply_atoms"], "differential property-based testing against an independent lattice enumeration", "")

prop("C10", "Populating a volume keeps exactly the generator sites inside it",
 "After population, a volume holds exactly those sites of its generator's infinite crystal that are inside the volume, each once, with matching species, for volumes bounded by points, surfaces or both, with any generator placement. Populating again gives the same atoms, and after any transformation or edit the next population reflects the current state. Empty space generators leave the volume empty.",
 ["inputs", "histories"], "all volumes, generators and edit/populate histories",
 "Tests populate a handful of boxes and spheres.",
 [V+"volume.py", G+"generator.py"], [("Volume.populate_atoms, add_generator", V+"volume.py")],
 ["populate_atoms", "atoms", "species", "ase_atoms"], "differential property-based testing against lattice enumeration plus an independent geometry model", "Sites within 1e-6 of the surface may go either way.")

prop("C11", "Moving a filled object moves its atoms with it",
 "Transforming a populated volume or multi-volume by a locked isometry and populating again yields exactly the transformed atoms with the same species. With an unlocked transformation the region moves while the crystal stays in place; with a basis-only transformation the crystal's basis is transformed but its origin stays. The same holds for sequences of transformations and for copies made with a list of transformations, whose originals are unaffected.",
 ["inputs", "histories"], "all objects, transformation sequences and lock settings",
 "Tests transform volumes without comparing generated atoms.",
 [V+"volume.py", G+"generator.py", T+"transform.py"], [("Volume.transform, MultiVolume.transform, from_volume", V+"volume.py"), ("Generator.transform", G+"generator.py"), ("MultiTransform.locked / basis_only", T+"transform.py")],
 ["transform", "populate_atoms"], "metamorphic property-based testing (populate commutes with isometry) and lattice reference model", "")

prop("C12", "Overlaps are resolved by priority, without loss or invention of atoms",
 "In a scene, an object's atom survives exactly when it is not inside any other object with an equal or smaller priority number; atoms of different objects are otherwise neither moved, changed nor duplicated. Multi-volumes resolve their members the same way, at every nesting level, and count in their scene as the union of their members with their own priority. The result does not depend on the order in which objects were added, and molecules never exclude other atoms.",
 ["inputs", "configurations"], "all collections of overlapping volumes, multi-volumes and molecules, with any integer priorities including ties and negatives",
 "Tests use fixed pairs or triples of objects; ties, nesting and order independence are sampled sparsely.",
 ["czone/scene/scene.py", V+"volume.py", "czone/molecule/molecule.py"], [("Scene.populate, Scene._get_priorities", "czone/scene/scene.py"), ("MultiVolume.populate_atoms, _get_priorities", V+"volume.py")],
 ["all_atoms", "all_species", "atoms", "species"], "differential property-based testing against a naive per-atom precedence model", "")

prop("C13", "Scene state stays consistent over any history of edits",
 "After any sequence of adding objects, changing priorities, bounds, members or positions and populating, the scene's atoms equal those of a fresh scene built from the current objects, and populating twice changes nothing. Positions, species, per-object atoms and the exported atoms collection always describe the same atoms in the same order, with the cell equal to the extents of the bounds. Objects keep their identity: the scene holds exactly the objects that were added, each once.",
 ["histories"], "all sequences of scene operations",
 "Tests build a scene and populate it once.",
 ["czone/scene/scene.py", V+"volume.py"], [("Scene.add_object, populate, all_atoms, species_from_object, ase_atoms", "czone/scene/scene.py")],
 ["objects", "all_atoms", "all_species", "species_from_object", "ase_atoms"], "stateful (operation-sequence) property-based testing against a rebuilt-from-scratch model", "")

prop("C14", "Exported files contain exactly the atoms on hand",
 "Writing a scene, volume or multi-volume to a file and reading it back gives the same atoms in the same order with the same species and positions within the format's precision, and for scenes the same cell, in every supported format, whether the format is named or inferred from the file name. The simulation format additionally carries the Debye-Waller factors supplied, or the documented default when none are. Exporting does not alter the object and overwrites previous content.",
 ["inputs", "configurations"], "all populated objects, file formats and options",
 "No test writes or reads any file.",
 ["czone/scene/scene.py", V+"volume.py"], [("Scene.to_file", "czone/scene/scene.py"), ("BaseVolume.to_file, ase_atoms", V+"volume.py")],
 ["to_file", "ase_atoms"], "round-trip property-based testing through written files", "Trusts ASE's readers; files live in a temporary directory.")

prop("C15", "Amorphous blocks have the right count, spacing and extent",
 "An amorphous block of given dimensions holds exactly round(volume x density) atoms, all within the block, with every pair at least the minimum distance apart when distances wrap periodically in x and y (and not in z), and spread over the whole block without bias to a side. A given seed always gives the same block, both block routines obey the same rules, and a generator of amorphous material supplies a block of its own density, spacing and species covering the requested region's bounding box, returning the previous result unchanged only when asked to reuse it.",
 ["inputs"], "all block dimensions, densities (below jamming), minimum distances, seeds and regions",
 "Tests check one or two block sizes; failures at boundaries depend on the ratio of block size to minimum distance.",
 [G+"amorphous_algorithms.py", G+"generator.py"], [("gen_p_substrate, gen_p_substrate_batched, get_voxels, get_p_dist", G+"amorphous_algorithms.py"), ("AmorphousGenerator.supply_atoms, transform", G+"generator.py")],
 ["gen_p_substrate", "gen_p_substrate_batched", "supply_atoms"], "property-based testing with a brute-force periodic distance oracle", "Densities are limited to 0.25 / min_dist^3 so that generation terminates.")

prop("C16", "Planes snapped to Miller indices are lattice planes nearest to the point",
 "Snapping a plane to a crystal near a point returns a plane normal to the reciprocal lattice vector of the given Miller indices, lying at an integer index of that family counted from the generator's origin: the nearest one to the point, the next one towards the origin, or the next one away from it, according to the mode. This holds for any lattice, orientation, origin and homogeneous strain, for positive, negative and zero indices. The rounding helper behind it takes numbers and arrays to the next integer away from zero and leaves integers as they are. The generator and the point are not modified.",
 ["inputs"], "all lattices, generator placements and homogeneous strains, Miller indices, points and modes",
 "Tests do not cover non-orthogonal lattices, shifted origins or strain.",
 [V+"algebraic.py"], [("snap_plane_near_point", V+"algebraic.py"), ("round_away", "czone/util/misc.py")],
 ["snap_plane_near_point", "round_away"], "property-based testing against reciprocal-lattice arithmetic", "Points within 1e-6 of a rounding tie are only required to give one of the two candidates.")

prop("C17", "Strain fields displace atoms exactly as specified",
 "A homogeneous strain maps each atom's coordinates relative to its origin (the generator's, or a fixed point) through the given matrix, in fractional crystal coordinates or in Cartesian coordinates according to its mode, with 3, 6 (Voigt) or 9 values meaning the corresponding full matrix; an inhomogeneous strain maps them through the user's function in the same coordinates. Atoms supplied with a strain field are one-to-one the strained images of those supplied without it, with species unchanged, following the generator as it is transformed. The identity strain changes nothing, and strain does not alter the generator's lattice or the caller's arrays.",
 ["inputs", "histories"], "all strain matrices, functions, modes, origins, lattices and generator placements",
 "Tests cover a few homogeneous strains on orthogonal cells.",
 [T+"strain.py", G+"generator.py"], [("HStrain.apply_strain, matrix setter; IStrain", T+"strain.py"), ("BaseStrain.scrape_params", T+"strain.py"), ("Generator.supply_atoms", G+"generator.py")],
 ["apply_strain", "supply_atoms"], "property-based testing against an affine/functional reference model", "")

prop("C18", "Chemical and custom modifications touch only what they say",
 "Chemical substitution changes only atoms whose species is a target, only to the paired substitute, decided independently per atom on the original species with the given probability (none at 0, all at 1), never changing positions, counts or order. A modification sequence applies its members in order, and a custom function is applied as given. Attached to a generator, modifications act on the supplied atoms before strain and leave the crystal itself unchanged.",
 ["inputs"], "all species arrays, target/substitute lists (including swaps and chains), fractions, seeds and sequences",
 "Tests do not cover modifications.",
 [T+"post.py", G+"generator.py"], [("ChemicalSubstitution, ArbitraryPostTransform, PostSequence", T+"post.py"), ("Generator.supply_atoms", G+"generator.py")],
 ["apply_function", "supply_atoms"], "property-based testing of per-atom validity plus a conservative binomial bound", "Fraction test uses a 7-sigma bound under fixed seeds.")

prop("C19", "Molecules keep atoms and species in step through any edits",
 "Through any sequence of transformations, position or species updates, origin changes and atom removals, a molecule holds the same atoms and species as a plain list edited the same way, in order. An origin tracking an atom always reports that atom's position, also after other atoms are removed; a free origin moves with transformations unless told otherwise. Molecules built from and exported to external atom collections round-trip.",
 ["histories", "inputs"], "all sequences of molecule operations",
 "Tests apply single operations to random molecules.",
 ["czone/molecule/molecule.py"], [("BaseMolecule.transform, set_origin, remove_atoms, update_positions, update_species", "czone/molecule/molecule.py")],
 ["atoms", "species", "origin", "ase_atoms"], "stateful (operation-sequence) property-based testing against a list model", "")

prop("C20", "Derived copies are equal to and independent of their source",
 "A volume, multi-volume, generator, surface or molecule derived from an existing one is equivalent to it (same region, crystal, atoms, priority, tolerance) apart from the transformations or replacements requested. Editing, transforming or populating the copy never changes the source, and the reverse, at any nesting depth. Generators and surfaces attached to volumes are likewise independent of the caller's objects.",
 ["histories", "inputs"], "all objects, derivations and subsequent edits on either side",
 "Tests compare freshly derived copies only; aliasing shows after later edits.",
 [V+"volume.py", V+"algebraic.py", G+"generator.py", "czone/molecule/molecule.py"], [("from_volume", V+"volume.py"), ("from_alg_object", V+"algebraic.py"), ("from_generator", G+"generator.py"), ("from_molecule", "czone/molecule/molecule.py")],
 ["from_volume", "from_generator", "from_alg_object", "from_molecule"], "stateful property-based testing with observational snapshots of both sides", "")

prop("C21", "Planar defects in fcc crystals keep perfect close packing",
 "An fcc volume (standard conventional cell, an atom at the crystal's origin) built with any mix of twin and stacking-fault defects, on any {111} plane, in any orientation and placement, keeps all atoms within the original volume, and every atom well inside keeps twelve nearest neighbours at the bulk distance and none closer. Defects sit on {111} planes of the original crystal at least the requested number of planes apart, exactly the requested number of them is made, and the atoms above the topmost defect are those of the original crystal. The source volume and generator are unchanged, and the ratio selects only twins at 0 and only faults at 1.",
 ["inputs", "schedules"], "all fcc crystals, placements, volumes, {111} planes, defect counts, separations, ratios and random draws",
 "Tests do not build defects; a wrong shift or reflection shows only in the combination of plane sign, defect order and placement.",
 ["czone/prefab/prefab.py", V+"algebraic.py", "czone/util/misc.py"], [("fccMixedTwinSF.build_object, fccTwin, fccStackingFault", "czone/prefab/prefab.py")],
 ["build_object", "populate_atoms"], "property-based testing with a coordination-number and layer-sequence oracle", "Random draws of the prefab are controlled through the global random seed.")

prop("C22", "Stacking faults in wurtzite crystals keep tetrahedral bonding",
 "A wurtzite volume (standard cell, one species in the z=0 plane, basal sites in either order) built with any number of basal stacking faults, in any orientation and placement, keeps all atoms within the original volume, and every atom well inside keeps four unlike neighbours at the bulk bond length and none closer. The atoms above the topmost fault are those of the original crystal, each fault changes the stacking below it, and exactly the requested number of faults is made at least the requested number of planes apart. The source volume and generator are unchanged.",
 ["inputs", "schedules"], "all wurtzite crystals, placements, volumes, fault counts, separations and random draws",
 "Tests do not build wurtzite faults.",
 ["czone/prefab/prefab.py"], [("wurtziteStackingFault.build_object", "czone/prefab/prefab.py")],
 ["build_object", "populate_atoms"], "property-based testing with a bonding oracle", "")

prop("C23", "Random split sampling respects its separation rules",
 "Asking for n split indices with minimum separation m in a list of length l returns exactly n integers in increasing order within [m, l-m), every two at least m apart, or raises an error when no such choice exists; it always terminates. The same seed gives the same result, and every admissible index can occur.",
 ["inputs"], "all n, m, l and seeds",
 "Tests sample some sizes; infeasible and exactly tight requests are not covered.",
 ["czone/util/misc.py"], [("get_N_splits, round_away", "czone/util/misc.py")],
 ["get_N_splits"], "property-based testing of a validity predicate with a feasibility oracle and exhaustive small cases", "")

prop("C24", "Neighbour grids, periodic distances and pair counts match brute force",
 "The neighbour list of every voxel of a grid is exactly the set of voxels adjacent to it (including itself, diagonals and periodic images along the periodic axes only). Squared-distance functions apply the minimum image along exactly the periodic axes. The radial distribution counts equal, bin by bin, a direct count over all ordered pairs, and the coordinates supplied are not modified.",
 ["inputs"], "all grid sizes, periodicity choices, point sets and cutoffs",
 "Tests compare a few larger grids; small, flat or partially periodic grids are not covered.",
 ["czone/util/measure.py"], [("get_voxel_grid, get_sdist_fun, calc_rdf", "czone/util/measure.py")],
 ["get_voxel_grid", "get_sdist_fun", "calc_rdf"], "differential property-based testing against brute force", "Pairs within 1e-9 of a bin edge may fall on either side.")

prop("C25", "Alpha-shape surfaces contain only exposed atoms and follow rigid motions",
 "Every atom reported on the surface can be touched by an empty sphere of the probe radius from outside (up to the random perturbation used), and every corner of a compact crystal cluster is reported. Atoms that only line voids closed to the probe are not reported. Reported indices are valid and unique, circumradii are those of the spheres through the four vertices, and the result does not change when the object is moved rigidly or its atoms are relabelled. A fixed seed gives a reproducible result and inputs are not modified.",
 ["inputs"], "all point clouds, clusters, probe radii, placements and seeds",
 "Tests do not cover surfaces.",
 ["czone/surface/alpha_shape.py"], [("tetrahedron_circumradii, alpha_shape_alg_3D, alpha_shape_alg_3D_with_sampling", "czone/surface/alpha_shape.py")],
 ["alpha_shape_alg_3D", "alpha_shape_alg_3D_with_sampling", "tetrahedron_circumradii"], "property-based testing with an empty-sphere oracle", "")

prop("C26", "Adsorbates are placed rigidly, at the bond length, on an allowed atom",
 "A placed adsorbate is a rigidly moved copy of the molecule given (same species, same internal distances and handedness); the bonding atom sits exactly the bond length from its surface atom, with the molecule's chosen direction along the line between them. The surface atom is on the surface and satisfies all filters at once, the molecule points away from the volume, and success is reported exactly when no adsorbate atom is inside the volume. A fixed seed reproduces the placement, the in-plane rotation angle turns the molecule about that line, and the molecule and volume given are unchanged.",
 ["inputs"], "all molecules, volumes, bonding atoms, lengths, directions, rotations, filters and seeds",
 "Tests do not cover adsorbates.",
 ["czone/surface/adsorbate.py"], [("add_adsorbate, find_approximate_normal, get_nearest_neighbors", "czone/surface/adsorbate.py")],
 ["add_adsorbate"], "property-based testing of placement postconditions", "")

prop("C27", "Single-crystal Wulff shapes have facets at distances set by surface energies",
 "A single-crystal Wulff construction is bounded by planes along all symmetry-equivalent directions of the given facets, at distances from the particle's origin proportional to their surface energies, and its volume corresponds to the requested number of atoms. The populated particle consists of the generator's crystal sites within these facets and shares the crystal's point symmetry. Equivalence is that of the crystal including its species; turning the generator turns the construction; a Winterbottom construction is the Wulff shape cut by the interface at its energy, with the interface facing -z; and after any parameter is changed the next construction is that of the new parameters. The convenience shapes are the shapes named.",
 ["inputs"], "all crystals given in a standard conventional cell, surface-energy sets, sizes and orientations of the generator",
 "Tests do not cover Wulff constructions.",
 ["czone/prefab/wulff.py"], [("WulffSingle.get_construction, Winterbottom.get_construction, planes_from_wulff", "czone/prefab/wulff.py")],
 ["get_construction", "cube", "octohedron", "cuboctohedron", "truncated_octohedron"], "property-based testing against symmetry-expanded half-space geometry", "")

prop("C28", "Crystals built from space groups or unit cells are the intended crystals",
 "A generator built from a unit cell has exactly the given atoms, fractional coordinates and lattice parameters; one built from a space group has the full symmetric orbit of the given sites, is invariant under the group's operations, and is the same whether the group is given by number or symbol. Origins and strain fields passed along are applied, and replacing the structure of a generator keeps its origin and adopts the new lattice.",
 ["inputs"], "all lattice parameters, sites, compatible space groups and options",
 "Tests build a few cubic crystals.",
 [G+"generator.py"], [("from_spacegroup, from_unit_cell, structure and origin setters", G+"generator.py")],
 ["from_spacegroup", "from_unit_cell", "structure", "origin"], "property-based testing against explicit symmetry-orbit enumeration", "")

prop("C29", "Objects and arrays handed to the library are left untouched",
 "No query, construction, transformation, population or measurement modifies the arrays, lists, dictionaries, surfaces, generators, transformations, volumes or molecules passed to it by the caller, and later in-place changes of arrays and lists the caller passed in to build a surface, volume, molecule, scene, transformation, voxel, homogeneous strain or generator do not change the object built. Only the object whose method is called, and its owned members, may change. By design, scenes and multi-volumes share their members, strain fields read origin and bases off the generator they serve, an amorphous generator remembers its last result, and a surface handed directly to a transformation is transformed in place.",
 ["inputs", "histories"], "all public operations and arguments, followed by in-place changes",
 "Tests never compare arguments before and after calls.",
 ["czone/volume/", "czone/generator/", "czone/transform/", "czone/molecule/", "czone/scene/", "czone/util/"], [("setters copying arrays; functions building new arrays", "czone/")],
 ["all public constructors and queries"], "property-based testing with argument snapshots and in-place poisoning", "")

prop("C30", "Invalid parameters are rejected and leave objects unchanged",
 "Documented-invalid parameters are refused with an exception: zero normals or axes of surfaces, non-positive radii, lengths, tolerances of surfaces, densities and minimum distances, wrong shapes, linearly dependent bases, degenerate point sets, matrices that are not rotations where rotations are required, non-integer priorities and separations, objects of the wrong kind, mismatched arrays, out-of-range indices and ratios, and unknown modes and conventions. (Scenes silently ignore objects of the wrong kind.) After a refused assignment the object still has its previous value and behaves as before, and valid parameters close to the limits are accepted and read back.",
 ["inputs", "histories"], "all public setters, constructors and adding methods with sequences of valid and invalid values",
 "Tests check a few invalid values, not that the object survives them.",
 ["czone/volume/", "czone/generator/", "czone/transform/", "czone/molecule/", "czone/prefab/"], [("validating setters", "czone/")],
 ["property setters"], "stateful property-based testing of rejection against a twin that only saw the valid values", "")

prop("C31", "Scene views show exactly the atoms of the scene within its bounds",
 "Viewing a scene draws every atom of the scene exactly once in each of the four panels, atoms of different species apart from each other, with axis limits equal to the scene's bounds; viewing bare positions draws all of them. The projection panels look along the axis they leave out, with the first named axis pointing right and the second up; the free panel is seen from the requested azimuth and elevation (-60 and 30 degrees by default). Viewing changes neither the scene nor the positions, and anything but a scene is refused by the scene views.",
 ["inputs"], "all populated scenes, bounds, position arrays and camera angles",
 "No test draws anything.",
 ["czone/viz/viz.py"], [("simple_scene_view, simple_scene_view_with_rotate, simple_view_with_rotate", "czone/viz/viz.py")],
 ["matplotlib figure"], "property-based testing: figures read back and compared with the scene", "Interactive widgets are not driven.")

prop("C32", "Grain boundaries join two crystals across a plane, zone axes along z",
 "A simple grain boundary built from a volume, a plane and a crystal holds, on the inner side of the plane, the crystal turned about the coordinate origin by the smallest rotation that brings the first zone axis along +z, and on the other side the crystal turned likewise for the second zone axis (the first by default), both cut to the volume and to nothing else. Zone axes are lattice directions of the crystal as placed. The volume, plane and generator given are unchanged, and changed parameters take effect at the next build.",
 ["inputs"], "all crystals, bounded volumes, planes and zone axes",
 "No test covers grain boundaries.",
 ["czone/prefab/prefab.py"], [("SimpleGrainBoundary.build_object", "czone/prefab/prefab.py")],
 ["build_object"], "property-based testing against a model of the two turned and cut crystals", "Phases r1, r2 and planes given as Miller indices are not implemented upstream and not covered.")

prop("C33", "Surface neighbourhoods and normals are those of the triangulation",
 "The adjacency matrix of a set of tetrahedra links exactly the pairs of points sharing a tetrahedron. The neighbours of a surface atom within N shells are exactly the other atoms reachable by at most N edges of the tetrahedra on the surface, or of all tetrahedra of the alpha shape when asked. The approximate surface normal is a unit vector, the same for the same seed, and leaves all neighbours on its inner side whenever they lie well within one half-space; the positions given are not modified.",
 ["inputs"], "all triangulations, targets, shell counts, neighbour sets and seeds",
 "No test covers these routines.",
 ["czone/surface/adsorbate.py"], [("sparse_matrix_from_tri, get_nearest_neighbors, find_approximate_normal", "czone/surface/adsorbate.py")],
 ["get_nearest_neighbors", "find_approximate_normal", "sparse_matrix_from_tri"], "property-based testing against breadth-first search and a separating half-space", "")

prop("C34", "Scenes respond to changes of their objects in the known way",
 "For every scene of volumes, nested multi-volumes and molecules: moving all objects by isometries moves every atom of the populated scene along; replacing a volume by its two parts on either side of a plane, wrapping an object in multi-volumes of its priority, relabelling priorities in the same order, or adding the objects in another order leaves the atoms unchanged; an empty volume of smallest priority number removes exactly the atoms inside it; a covered copy of an object of larger priority number adds no atoms; an object far from all others adds exactly its own atoms. Atoms within rounding of a boundary excepted.",
 ["inputs", "histories"], "all scenes and all changes of these kinds", "Tests populate no scenes; the relations concern pairs of scenes that no example fixes.",
 ["czone/scene/scene.py", "czone/volume/volume.py", "czone/molecule/molecule.py", "czone/generator/generator.py"], [("Scene.populate, _get_priorities", "czone/scene/scene.py"), ("MultiVolume.populate_atoms, checkIfInterior", "czone/volume/volume.py"), ("Volume.transform, from_volume", "czone/volume/volume.py")],
 ["Scene.populate", "Scene.all_atoms", "Scene.all_species"], "metamorphic property-based testing over generated scenes", "")
prop("C35", "Voxels keep consistent bases and cover boxes minimally",
 "For every voxel basis, scale (a number, or a row of one per basis vector) and origin, set at construction or in any order later: the scaled bases are the columns of the basis times their factors, the reciprocal basis is the inverse of the scaled basis, and the extents of a box are, along each scaled basis vector, the largest whole number of cells not above, and the smallest not below, all fractional coordinates of its points relative to the origin. The points given are not modified.",
 ["inputs", "histories"], "all bases, scales, origins, boxes and orders of assignment", "Tests use a few hand-picked voxels; covering must hold for skewed and scaled cells anywhere.",
 ["czone/volume/voxel.py"], [("Voxel.bases, scale, sbases, reciprocal_bases, get_extents", "czone/volume/voxel.py")],
 ["Voxel.sbases", "Voxel.reciprocal_bases", "Voxel.get_extents"], "property-based testing against direct linear algebra over histories of assignments", "")
prop("C36", "All kinds of filled objects work together in one scene",
 "In a scene mixing crystals, substituted crystals, amorphous blocks, Wulff particles, fcc particles with planar defects, grain boundaries, empty volumes, molecules and multi-volumes of these, after any history of populating, moving objects by isometries, changing priorities and adding objects or moved copies: each object holds, inside its own region, the atoms it has on its own, moved with it (amorphous parts: its species, its minimum distance, its density, the same atoms when a result is to be reused); and the scene and each multi-volume hold exactly those atoms of their members not inside another member of equal or smaller priority number, each with its species.",
 ["inputs", "histories"], "all mixtures and histories", "Tests cover the parts singly, and only a few; interactions appear only in mixtures and after several steps.",
 ["czone/scene/scene.py", "czone/volume/volume.py", "czone/generator/generator.py", "czone/prefab/prefab.py", "czone/prefab/wulff.py", "czone/molecule/molecule.py"],
 [("Scene.populate", "czone/scene/scene.py"), ("MultiVolume.populate_atoms, from_volume, transform", "czone/volume/volume.py"), ("AmorphousGenerator.supply_atoms, transform", "czone/generator/generator.py")],
 ["Scene.populate", "Scene.all_atoms", "Volume.atoms", "MultiVolume.atoms"], "stateful property-based testing against a precedence model with independently computed regions", "")

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
            checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
                evidence_file=f"evidence/{i}.json", technique=p["technique"], level="exploration",
                level_note=("Seeded random search with shrinking against an explicit oracle: a violation is a concrete replayable case; absence is not proved. " + p["note"]).strip()))
        else:
            na.append(dict(property=i, reason="check not built yet"))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="No hooks: every check drives the public API of the code in /repo directly.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks;", len(na), "unclaimed")
if __name__ == "__main__":
    main()
