#!/usr/bin/env python3
"""Single source of properties.jsonl and of the per-property part of MANIFEST.json.
Run from anywhere: python3 /verif/tools/properties.py   (rewrites both files)"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SYS = "src/physics_system.rs"
ENT = "src/entity.rs"
COL = "src/collision.rs"
ORI = "src/orientation.rs"
COLS = ["src/sphere_collider.rs", "src/plane_collider.rs", "src/null_collider.rs", "src/mesh_collider.rs", "src/aligned_box_collider.rs"]

prop("C01", "Handles name exactly one live object, forever",
     "A handle returned when an entity, collider or force generator is added refers to that object until it is removed, and to nothing afterwards, even when later additions reuse its storage. Every operation on a dead handle is refused (none / error / false) and changes nothing else in the system. Removing an object returns it or reports it exactly once.",
     ["histories", "inputs"], "every interleaving of add, get, update, link, remove and step calls over entities, all five collider kinds and force generators",
     "The tests remove one object once and look it up once; slot reuse, removal of linked colliders, removal of bodies others rest on, and double removal are never exercised.",
     [SYS], [("generational arenas", SYS + " PhysicsSystem fields"), ("add_/get_/update_/remove_ entry points", SYS)],
     ["PhysicsSystem::add_*, get_*, update_*, remove_*"],
     [("entities / colliders / unary_force_generators", "the three object stores", SYS)])

prop("C02", "Collider ownership is consistent in both directions",
     "At every moment a collider belongs to at most one entity, and it appears in that entity's collider set exactly when it reports that entity as its owner. Linking moves it, linking to nothing detaches it, removing the collider takes it out of its owner's set, and removing an entity removes exactly the colliders it owned. A refused link changes neither side.",
     ["histories"], "every history of link, unlink, relink, update and removal over several entities and colliders of all kinds",
     "link_collider is tested on one sphere and two entities; removing a linked collider, and mixed collider kinds, are never tested.",
     [SYS, ENT], [("two-sided bookkeeping in link_collider/remove_entity/remove_collider", SYS)],
     ["Entity::get_colliders", "Collider::get_entity"],
     [("InternalEntity.colliders", "set of owned colliders", ENT), ("Internal*Collider.entity", "owner back-reference", "src/*_collider.rs")])

prop("C03", "Total mass and centre of mass follow the attached colliders",
     "After any change to an entity or its colliders, its total mass is its own mass plus the masses of the colliders it owns (infinite as soon as one of them is infinite). When owned colliders have finite mass its position is their mass-weighted centre, otherwise it is the origin of its local space. Attaching, detaching, editing or removing colliders never moves or rotates the entity's local space itself.",
     ["histories", "inputs"], "all histories of attach/detach/update/remove with any poses, masses (zero, finite, infinite) and collider kinds",
     "Tests cover one or two spheres on an unrotated entity; rotated entities, zero/infinite masses, updates and removals of owned colliders are not covered.",
     [ENT, ORI, SYS], [("recalculate_mass", ENT), ("internal_origin_offset bookkeeping", ENT)],
     ["Entity::position", "Entity::get_last_total_mass", "Entity::get_last_orientation().local_origin_in_world()"],
     [("total_mass, orientation.internal_origin_offset", "cached mass and local origin", ENT)])

prop("C04", "Rotational inertia and energy equal the rigid-body formulas",
     "For entities of finite mass, the reported world-space moment of inertia is the sum over owned colliders of their own tensors (solid sphere 2/5·m·r², solid box m/12·(a²+b²), null collider as given, planes and meshes none) carried to the common centre of mass with the parallel-axis rule and rotated by the entity's rotation; own mass adds none. The reported energy is ½·m·v² + ½·ω·(I·ω). For an infinite-mass entity it is zero at rest and infinite in motion.",
     ["histories", "inputs"], "all compositions of colliders, poses and velocities reached by any history of edits",
     "No test compares an inertia tensor with anything; all tests use unit radii, for which r and r² coincide.",
     [ENT, ORI] + COLS, [("get_moment_of_inertia_tensor", "src/*_collider.rs"), ("prep_/finalize_moment_of_inertia", ORI), ("get_total_energy", ENT)],
     ["Entity::get_last_moment_of_inertia", "Entity::get_total_energy"])

prop("C05", "What is stored is read back; invalid values are refused whole",
     "Reading an entity or collider returns exactly the values last accepted for it (a plane's normal scaled to unit length, a box's corners sorted per axis, an entity's rotation as an equivalent rotation), and writing back what was read changes nothing beyond rounding. Values outside the documented domain (negative mass, sphere radius of 0.05 or less, near-zero plane normal, box thinner than 1e-6 along an axis, mesh without a face), and an update with a different kind of collider, are refused at creation and at update alike, leaving everything as it was.",
     ["inputs", "histories"], "all field values of entities and of the five collider kinds, through create, update, and read-back in any order",
     "Tests round-trip one field of one sphere and one already-unit plane normal; refusal paths and box/mesh/null round-trips are untested.",
     [SYS, ENT] + COLS, [("is_valid", "src/*_collider.rs"), ("new_from / update_from / make_pub", "src/*_collider.rs, src/entity.rs")],
     ["PhysicsSystem::get_entity/get_collider", "Result of add_*/update_*"])

prop("C06", "Local and world coordinates are related by one rigid motion",
     "For every orientation, converting a position or direction into local space and back (and the reverse) returns it; the world image of a local position x is position + R(offset + x) and of a local direction d is R(d), where R is the stored rotation; distances and handedness are preserved. The local-space origin in world coordinates is the image of zero.",
     ["inputs"], "all positions, rotations (any axis and angle, beyond a full turn) and local offsets in the documented range",
     "One test with one rotation axis and an offset along one axis; a sign or order error on other axes would pass.",
     [ORI], [("into_local / into_world / *_into_*", ORI)], ["Orientation's public conversions"])

prop("C07", "Orientations move and interpolate along the motion they are given",
     "Applying a linear and an angular movement translates the position by the linear part and turns the body by the angular vector about world axes, leaving the local offset alone; applying to a copy gives the same result and leaves the original alone. Interpolating between two orientations gives the first at 0, the second at 1, and in between the straight-line position with a rotation on the shortest turn between them.",
     ["inputs"], "all orientation pairs (turn between them below a half turn, also across the ±π representation boundary) and all movements",
     "affect/after_affected is tested for a single quarter turn about z and lerp is not tested at all.",
     [ORI], [("affect_with / after_affected / lerp", ORI)], ["Orientation::lerp", "Orientation::affect_with", "Orientation::after_affected"])

prop("C08", "Contact-free motion is semi-implicit Euler integration",
     "A step of dt without contacts changes an awake entity's velocity by (sum of forces / mass)·dt and its angular velocity by inverse inertia (zero about an axis without inertia, as of bodies with all mass on one line) times the sum of (application point − centre of mass) × force times dt, and then moves it by the new velocity and turns it by the new angular velocity for dt. Entities whose mass is zero or infinite keep their velocities; a step with |dt| below 1e-6 changes nothing at all.",
     ["inputs", "histories"], "all poses, velocities, mass distributions, sets of force generators and positive step sizes, over many steps",
     "Tests use gravity on one sphere with a loose end position, and constant spin about one axis; off-centre forces (torque) and several generators are never tested.",
     [SYS, ENT, "src/gravity_generator.rs", "src/force.rs"], [("integration loop at the top of step", SYS)],
     ["Entity position/rotation/velocity/angular_velocity before and after step"])

prop("C09", "Every registered force generator is asked once per body per step",
     "During a step each registered generator is asked exactly once for every entity of positive finite mass, with the step's dt and the entity's state as it stood when the step began up to that point, able to read the body and its colliders through the system it is given, and never for entities of zero or infinite mass. A removed generator is returned as it was and never asked again; adding one takes effect from the next step. The gravity generator accelerates every such entity by exactly its acceleration and exerts no torque.",
     ["histories"], "all histories of adding/removing generators and entities and stepping, including sleeping bodies and steps below the minimum dt",
     "One test adds and removes a generator without stepping.",
     [SYS, "src/unary_force_generator.rs", "src/gravity_generator.rs"], [("generator loop in step", SYS)],
     ["UnaryForceGenerator::make_force callbacks (a recording generator)"],
     [("unary_force_generators", "registered generators", SYS)])

prop("C10", "Moving spheres touch at the analytic time, point and normal",
     "Two spheres on different bodies (turning or not) that approach into overlap during a step are brought to exactly the moment they first touch (or handled at once if already overlapping) before responding, at any relative speed, slow or fast enough to cross in one step; as documented, a sphere carried round by its body's rotation is taken to move straight from where the step starts to where it would end. The recorded point lies on both surfaces and the recorded normal points from the first centre to the second centre at that moment. Spheres that stay clear of each other, or whose touching points separate, are never made to collide.",
     ["inputs"], "all radii, poses, centre offsets, spins, velocities (from slow creep to crossing many diameters in a step) and step sizes in the domain",
     "One head-on example along x; oblique hits, slow approach and fast crossing are not tested.",
     [COL, "src/range.rs", SYS], [("collide_sphere_with_sphere, Range::quadratic_zeros", COL)],
     ["CollisionRecord", "entity poses after a one-iteration step"])

prop("C11", "Spheres hit infinite planes at the analytic time and never pass them",
     "A sphere (also one swung round by its body's rotation, its centre then taken to move straight over the step, as documented) whose motion relative to a plane collider would carry its surface to the solid side during a step is stopped at exactly the moment of touching, whatever the speeds of sphere and plane; if it starts partly or wholly behind the plane while moving further in, it is handled at once. The recorded point is the sphere's deepest point and the normal is the plane's unit normal, pointing from first to second entity. Spheres that stay on the free side or move outwards are left alone.",
     ["inputs"], "all plane normals (any length when stored), offsets, velocities of both, spins, radii, step sizes, and either insertion order",
     "One example with the y plane; moving/rescaled planes, spin and embedded starts are not tested.",
     [COL, "src/range.rs", "src/plane_collider.rs", SYS], [("collide_sphere_with_plane, Range::linear_overlap", COL), ("approach filter in step", SYS)],
     ["CollisionRecord", "entity poses after a one-iteration step"])

prop("C12", "Spheres hit the faces, edges and corners of convex meshes exactly",
     "A sphere starting outside a convex mesh collider (or a single convex polygon) of a body that does not turn is stopped at the moment its surface first reaches a face, edge or corner, at a point of the mesh at distance one radius from its centre, with the normal along the line from its centre to that point (seen from first to second entity). A sphere swung round by its own body's rotation is taken to move straight over the step. If the two never come that close during the step, there is no collision.",
     ["inputs"], "all convex meshes up to a few dozen vertices, mesh poses and offsets, relative motions and radii, in either insertion order",
     "Three axis-aligned hits on one triangle; edge hits on long edges, oblique motion, rotated and moving meshes are not tested.",
     [COL, "src/mesh_collider.rs"], [("collide_sphere_with_mesh, _mid_line_segment, _polygon_surface", COL)],
     ["CollisionRecord", "entity poses after a one-iteration step"])

prop("C13", "Meshes hit infinite planes at their first-reaching vertices",
     "A mesh moving relative to a plane collider (turning as well, while one and the same vertex stays the lowest; vertices are taken to move straight over the step) is stopped at the moment its first vertex reaches the plane, with the plane's normal and a contact point on the plane within the set of vertices that reach it first, also when a whole edge or face arrives flat. A mesh already reaching behind the plane and moving in is handled at once; one staying clear or moving out is left alone.",
     ["inputs"], "all meshes, mesh poses and offsets, plane normals, velocities and step sizes, either insertion order",
     "Three examples with a two-vertex mesh along z; a flat face arriving parallel to the plane is not tested.",
     [COL], [("collide_mesh_with_plane", COL)], ["CollisionRecord", "entity poses after a one-iteration step"])

prop("C14", "Spheres hit axis-aligned box colliders exactly",
     "A sphere starting outside a box collider is stopped at the moment its surface first reaches the box (face, edge or corner), where the box is placed by its own position and corners in its entity's local space, turned and moved with the entity; the recorded point and normal are those of the nearest point of the box. When either body turns, the sphere is taken to move straight over the step as seen from the box. If they stay clear of each other there is no collision.",
     ["inputs"], "all box sizes, corner orders, offsets, entity poses, relative motions and radii, either insertion order",
     "The only box test actually calls the sphere-sphere routine.",
     [COL, "src/aligned_box_collider.rs"], [("collide_sphere_with_aligned_box", COL)], ["CollisionRecord", "entity poses after a one-iteration step"])

prop("C15", "The earliest contact in the whole world is handled first",
     "Among all contacts that any two entities' colliders would make during a step, the first one recorded is the earliest in time, whichever entities, colliders of a multi-collider entity, or insertion order it involves; all bodies are moved to that moment.",
     ["inputs", "configurations"], "worlds of several multi-collider bodies of spheres and planes without rotation, all pairs and orders",
     "Tests never have two different pairs competing in one step with a checked order.",
     [SYS], [("pairwise earliest-collision search in step", SYS)], ["PhysicsSystem::collision_records[0]", "entity poses"])

prop("C16", "Collisions conserve linear and angular momentum",
     "In a world of finite-mass bodies without force generators, each step leaves the total linear momentum unchanged, and each handled collision between bodies that have rotational inertia leaves the total angular momentum about any fixed point unchanged (a body with all its mass on one line takes up none about that line), whatever the shapes, spins, restitution and friction involved and however many collisions occur.",
     ["histories", "inputs"], "all worlds of spheres, compounds, boxes and meshes with positive finite masses, over many steps and collisions",
     "Tests check final velocities in a couple of two-body setups only.",
     [SYS, ENT], [("equal and opposite impulses in step, apply_impulse", SYS)], ["sum of m·v and of x×mv + Iω over entities"])

prop("C17", "Collisions respond with the product of the restitution coefficients",
     "In a frictionless collision the normal component of the relative velocity of the two contact points becomes −e times what it was, where e is the product of the two colliders' restitution coefficients; the relative velocity changes only through an impulse along the contact normal. Kinetic energy is unchanged when e is 1 and never grows when e is below 1.",
     ["inputs"], "all shapes, off-centre hits, spins, masses (finite or one infinite) and coefficients in [0,1]",
     "Tests cover e=0 and e=1 for central hits and one spinning dumbbell on a wall.",
     [SYS, ENT], [("calc_collision_impulse", SYS)], ["velocities before/after a one-iteration step", "CollisionRecord"])

prop("C18", "Friction opposes slip, within the Coulomb cone, never overshooting",
     "In a sphere collision the friction impulse is directed against the slip of the contact points, its size is the normal impulse times the product of the two colliders' static coefficients if the speed left along the normal is less than the product of their friction thresholds times the slip speed, of their dynamic coefficients otherwise, but never more than what brings the slip to zero; so slip is never reversed, kinetic energy never grows, and with zero coefficients there is no friction.",
     ["inputs"], "all masses, radii, spins, slip speeds, restitution and friction coefficients in [0,1], against spheres and planes of finite or infinite mass",
     "No test checks friction magnitude; those that have friction use unit masses.",
     [SYS], [("friction block in step", SYS)], ["velocities before/after a one-iteration step", "CollisionRecord::impulse_magnitude"])

prop("C19", "Infinite-mass bodies are immovable",
     "An entity of infinite mass (its own, or that of a collider) keeps its linear and angular velocity bit for bit through any forces and collisions, moves only with that velocity (not at all if at rest), and still stops everything finite that hits it. Two infinite-mass bodies running into each other do not disturb each other or anything else.",
     ["histories"], "all worlds mixing infinite-mass spheres, planes, boxes and meshes (static or moving) with finite bodies and forces",
     "Tests only look at a static plane hit by one ball.",
     [SYS, ENT], [("1/mass and zero inverse inertia for infinite mass", ENT), ("total_mass guard on forces", SYS)], ["entity velocity and pose before/after step"])

prop("C20", "Collision records describe the collisions of the last step",
     "After a step the records list exactly the collisions handled in it, at most the iteration limit, in non-decreasing time within the step; each names two different live entities, carries a unit normal pointing off the first one, a non-negative impulse and the product of their restitution coefficients. In a frictionless world the recorded impulses, applied along the recorded normals, account for every entity's change of velocity. A step below the minimum dt leaves the records as they were.",
     ["histories"], "all worlds with several collisions per step over many steps, any iteration limit",
     "No test reads collision_records.",
     [SYS, "src/collision_record.rs"], [("record construction in step", SYS)], ["PhysicsSystem::collision_records"],
     [("collision_records", "records of the last step", SYS)])

prop("C21", "All awake bodies advance by the same time, never past the step",
     "In one step every awake body is advanced by the same amount of time: the whole dt if fewer collisions than the iteration limit were handled, otherwise exactly up to the last handled collision; with a limit of zero nothing moves. A body taking part in no collision is displaced by its velocity times that time.",
     ["histories", "configurations"], "all worlds, iteration limits from 0 to 255, and numbers of simultaneous contacts",
     "No test sets the iteration limit or reaches it.",
     [SYS], [("time_left / earliest_collision_percent bookkeeping", SYS)], ["displacement of witness bodies", "collision_records"])

prop("C22", "Bodies fall asleep only after resting long enough, and then do",
     "An awake body falls asleep only when its energy has been at or below the sleep threshold at the end of every step for at least the sleep time, counted anew after each awakening; a body that stays at or below it for longer than that (by two steps) is asleep, unless it is in contact (directly or through others) with a body that is still active. A finite-mass body does not fall asleep in a step that leaves it resting against a body that stays awake. While it sleeps its pose does not change and its velocities read zero from the next step on. With a negative threshold nothing ever sleeps, and a step below the minimum dt puts nothing to sleep.",
     ["histories"], "all histories of resting, rolling, bouncing and edited bodies, thresholds and step sizes",
     "Two scripted scenes with one threshold.",
     [SYS, ENT], [("sleep block at the end of step", SYS)], ["Entity::was_asleep", "Entity::get_total_energy", "poses"],
     [("falling_asleep, falling_asleep_time, asleep", "sleep state", ENT)])

prop("C23", "Sleepers wake exactly when struck or edited, with their contact group",
     "A finite-mass sleeper is awake again after a step in which it took part in a collision, or after an entity update that changes its pose, velocity or mass, and every sleeper it was resting against (in contact with in the step in which they fell asleep), directly or through other finite-mass sleepers, wakes with it; so do the sleepers resting against a body that is removed or gains or loses a collider (which then is awake itself), or against an infinite-mass one that is so edited. Otherwise it stays asleep: neither unrelated activity, nor bodies sleeping beside it, nor waking of others that merely share an infinite-mass support, nor writing back unchanged values wakes it. Infinite-mass sleepers are not woken by being hit.",
     ["histories"], "all stacks and groups of resting bodies in any falling-asleep order, then hits, edits, removals",
     "One scene checks that two separate balls on one floor do not wake each other; chains and stacks, and removal of a body others rest on, are untested.",
     [SYS, ENT], [("wake_up and neighbor sets", ENT)], ["Entity::was_asleep after each call"],
     [("neighbors", "contact group of a sleeper", ENT)])

prop("C24", "Spheres never penetrate planes, boxes, meshes or each other over time",
     "In a world of single-sphere bodies with positive mass and static planes, boxes and convex meshes that starts without overlap, no step ends with a sphere overlapping another sphere or a solid by more than a small rounding tolerance, for any number of steps, speeds, masses, restitution, friction and gravity, also when the iteration limit is hit.",
     ["histories"], "long histories (hundreds of steps) of crowded worlds",
     "Tests simulate one ball and one plane for a fixed script.",
     [SYS, COL], [("continuous collision search + impulse response", SYS)], ["sphere centres after each step against the known solids"])

prop("C25", "No valid use panics, hangs or produces a non-finite state",
     "Any sequence of calls with values of the documented domain (finite, moderate size; any masses including zero and infinite; overlapping, coincident, resting or tiny bodies; removal at any moment; sleeping on) returns without panic, and after it every position, rotation, velocity, record and mass read back is free of NaN and of infinities other than an infinite mass (as long as no speed or spin has grown beyond 1e5).",
     ["histories", "inputs"], "all call histories over the public API",
     "Tests run a dozen scripted histories.",
     [SYS, ENT, COL], [("all public entry points", SYS)], ["panics", "all readable state after every call"])

prop("C26", "Only linked solid colliders of different entities interact",
     "Null colliders, colliders linked to no entity, colliders of one and the same entity, bodies without colliders, and plane-plane pairs never cause a collision or affect the motion of anything; a collider starts to act when it is linked (or its entity re-linked) and stops when it is unlinked or removed.",
     ["histories", "configurations"], "all arrangements of such colliders overlapping or crossing active bodies, with links changing between steps",
     "One test steps a lone null collider and a lone plane.",
     [SYS, COL], [("pair loop over entities' linked colliders", SYS), ("type dispatch in collide", COL)], ["trajectories compared with the same world without the inert objects"])

prop("C27", "Physics does not depend on place, axes, or order of insertion",
     "Moving a whole world by a translation, permuting or mirroring its axes, adding a common velocity to everything, or adding its entities in another order yields the correspondingly transformed outcome of a step (up to rounding), as long as no two contacts coincide in time.",
     ["inputs", "configurations"], "all small worlds of spheres, planes, boxes and meshes, all 48 axis symmetries, translations, boosts and insertion orders",
     "Tests each fix one placement, mostly along one axis, and one order.",
     [SYS, COL, ENT], [("vector formulation; ordered-pair dispatch with negated normals", COL)], ["final states of two runs"])

prop("C28", "Groups of bodies that never meet do not influence each other",
     "If two groups of bodies never come into contact and the iteration limit is not reached, each group moves, collides, falls asleep and wakes exactly as it would alone (up to rounding). Resting on the same immovable body, such as a floor, is not contact between the groups.",
     ["histories", "configurations"], "all pairs of groups (resting stacks, bouncing balls, bodies on planes), in any interleaved insertion order",
     "No test has two independent groups and compares them with separate runs.",
     [SYS], [("per-pair collision handling", SYS)], ["trajectories of combined and separate worlds"])

prop("C29", "Identical histories give bit-identical results",
     "Running the same sequence of calls twice on two fresh systems whose entities own at most one collider each gives bit-identical states, records and handles after every call.",
     ["histories"], "all call histories with at most one collider per entity",
     "Tests never compare two runs; hash-order effects differ from run to run.",
     [SYS], [("index-ordered iteration over arenas", SYS)], ["all readable state of two runs"])

prop("C30", "Meshes keep one copy of each vertex and edge, and refuse bad faces",
     "Adding faces to a mesh collects exactly one vertex per distinct point (closer than 1e-6 counts as the same), one edge per distinct pair of consecutive corners regardless of direction, and one face per call; the mesh becomes valid with its first face. A face with fewer than three corners, with a repeated or straight corner, with non-coplanar corners or with a corner that turns the other way is refused by a panic that leaves the mesh as it was.",
     ["inputs", "histories"], "all sequences of convex polygons sharing vertices and edges in any rotation and winding, plus bad faces",
     "One sequence of four triangles in one plane.",
     ["src/mesh_collider.rs"], [("add_face / add_points / add_edge", "src/mesh_collider.rs")], ["MeshCollider::face_count/edge_count/vertex_count/is_valid"])

prop("C31", "Without forces the world never gains kinetic energy",
     "In a world of single-sphere bodies, static planes and infinite-mass obstacles at rest, without force generators and with restitution and friction coefficients in [0,1], total kinetic energy never increases from step to step beyond rounding; it stays constant when all restitution is 1 and friction is 0.",
     ["histories"], "long histories with many collisions",
     "One dumbbell-and-wall test over a few steps.",
     [SYS], [("impulse computation and friction", SYS)], ["sum of Entity::get_total_energy"])

prop("C32", "Mesh corners hit the faces of other meshes exactly",
     "When two non-rotating convex meshes move at any velocities so that a corner of one reaches the interior of a face of the other before anything else touches, in either insertion order, they collide at that moment, at that point, with the face's normal oriented off the first entity, also when several corners arrive at once; if no corner of either mesh reaches a face of the other during the step, there is no collision. (Edges crossing edges are documented as not handled.)",
     ["inputs"], "all convex meshes, poses and approach directions with the moving corner hitting a face interior",
     "collide_mesh_with_mesh is never called by a test; only its point-polygon helper is.",
     [COL], [("collide_mesh_with_mesh, collide_point_with_polygon", COL)], ["CollisionRecord", "entity poses after a one-iteration step"])

prop("C33", "What is removed is freed, and every generator is dropped once",
     "However many rounds of additions, refused calls, links, edits, steps, contacts, sleep and removals a system goes through, the memory it holds after a round that removes all it added is what it was after earlier rounds (up to the slack of its containers), and dropping the system frees all it ever took. A force generator handed over is not dropped while it is registered, is handed back alive when removed, and is dropped exactly once in the end.",
     ["histories"], "all rounds of add, link, move, update, step and remove calls over every kind of object, repeated any number of times, beside objects that stay",
     "No test repeats additions and removals, looks at memory, or counts drops of a generator; the logs and neighbour sets kept inside are not visible in the public state.",
     [SYS, ENT], [("arenas, debug log, collision_records", SYS), ("neighbors / colliders sets", ENT)], ["bytes held by the thread (counting allocator)", "Drop of a registered generator", "PhysicsSystem::add_*, remove_*, step"],
     [("neighbors", "handles of bodies slept against, kept by each body", ENT), ("debug, collision_records", "logs of the last step", SYS)])

prop("C34", "Physics does not depend on the units chosen",
     "Giving the same scene in other units of length, mass or time (positions, sizes, masses, inertia, velocities, spins, forces, thresholds and time steps converted accordingly) yields the same outcome, converted: the same collisions between the same bodies at the same times, with the same poses, velocities, impulses, energies and sleepers, up to rounding, as long as no length, speed or time that matters is so small a number (about 1e-6) that the library takes it as zero.",
     ["inputs", "configurations"], "all small worlds of spheres, planes, boxes and meshes with gravity, limited forces, friction, spin and sleeping, in any units of length, mass and time",
     "Tests use numbers around 1 and one set of units; a factor that has the wrong dimension, or a fixed number in place of a relative one, agrees with them.",
     [SYS, COL, ENT], [("step: integration, iteration, friction and sleep rules", SYS), ("moments of inertia and energies", ENT)], ["states and records of two runs"])

LEVEL_NOTE = {}
TECH = {}
try:
    from meta import LEVEL_NOTE, TECH  # per-property notes
except Exception:
    pass

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    claimed = [p for p in P if p["id"] in TECH]
    checks = []
    for p in claimed:
        i = p["id"]
        checks.append({"property": i,
            "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH[i], "level": "exploration", "level_note": LEVEL_NOTE[i]})
    na = list(NA)
    for p in P:
        if p["id"] not in TECH and p["id"] not in [n["property"] for n in na]:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "hooks": {"guard": "none", "enable": "No hooks: every monitor observes the public API of the crate built from /repo's working tree.", "source_commits": []},
         "notes": "Runtime monitoring of the real library through its public API; see DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
main()
