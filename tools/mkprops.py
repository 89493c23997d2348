#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

J = "src/joint/joint.rs"; N = "src/node.rs"; C = "src/chain.rs"; R = "src/joint/range.rs"; M = "src/joint/mimic.rs"
IT = "src/iterator.rs"; F = "src/funcs.rs"; IK = "src/ik.rs"; U = "src/urdf.rs"; L = "src/link.rs"; V = "src/joint/velocity.rs"

prop("C01", "Checked position setting accepts exactly the legal values",
 "Setting one joint's position with the checked setter succeeds exactly when the joint is movable and the value lies within its limits (both ends included; any value if it has none), and the joint then reports exactly that value. A refused set returns the error that matches the reason (fixed joint, or out of limits with the joint's name, value and limits) and leaves that joint's position, velocity and cached poses as they were. Not-a-number is never accepted by a limited joint.",
 ["inputs"], "every joint type, limit, current position and requested value, including NaN and infinities for f32 and f64",
 "Tests try three or four round numbers; the claim is over every value, including the boundary values and NaN.",
 [J, R, N], [("Joint::set_joint_position", J), ("Range::is_valid", R), ("Node::set_joint_position", N)],
 [("position", "the value reported for the joint", J)], ["Joint::joint_position", "Node::joint_position", "Result of the setter"])

prop("C02", "Clamped position setting lands on the nearest legal value",
 "After a clamped set, a movable joint's position is the requested value if that is within its limits (or it has none), the lower limit if the request is below it and the upper limit if it is above it; a fixed joint is not touched. A limit range can only be built with minimum not above maximum, and for every number clamping returns a member of the range, which is the number itself exactly when the number is a member.",
 ["inputs"], "every joint, limit range and requested number; f32, f64 and real arithmetic",
 "Tests clamp three constants against one range.",
 [J, R, N, C], [("Range::clamp/new", R), ("Joint::set_joint_position_clamped", J), ("Node::set_joint_position_clamped", N)],
 [("position", "the value reported for the joint", J)], ["Joint::joint_position"])

prop("C03", "Mimic joints follow the joint they mimic",
 "After a successful checked set of a joint, every joint directly mimicking it stands at multiplier times that position plus offset, and no joint other than these and the joint itself has changed. A checked set on a joint that itself mimics another one succeeds and changes nothing. If a mimicking joint cannot take the value it has to take, the call returns an error.",
 ["inputs", "configurations"], "every number and arrangement of mimicking joints, every multiplier, offset, limits and value",
 "The two tests use one follower with one multiplier; the claim is over any number of followers, limits and values.",
 [N, M], [("Node::set_joint_position loop over mimic children", N), ("Mimic::mimic_position", M), ("Node::set_mimic_parent", N)],
 [("mimic_parent / mimic_children / mimic", "the mimic relation", N)], ["Node::joint_position"])

prop("C04", "Forward kinematics composes the local transforms",
 "After the transforms of a chain are updated, every node's world transform is its parent's world transform (identity for a root) followed by its origin and then its joint motion: a rotation about its axis by its position, a translation along its axis by its position, or nothing when fixed. The returned list holds exactly these transforms in the chain's order. A serial chain's end transform is the product of its nodes' local transforms in order, which is the last node's world transform when the chain starts at a root.",
 ["inputs", "configurations"], "every tree shape and size, joint type, axis, origin and position",
 "Tests evaluate a handful of fixed poses of two robots; the claim is over every tree and every configuration.",
 [C, J, N], [("Chain::update_transforms", C), ("Joint::local_transform", J), ("Node::parent_world_transform", N), ("SerialChain::end_transform", C)],
 [("world transform", "pose of the node in world coordinates", J)], ["Node::world_transform", "Chain::update_transforms result", "SerialChain::end_transform"])

prop("C05", "A changed joint never reports a pose from before the change",
 "Once a joint's position or origin has been changed, its own world transform reads as absent until transforms are next updated; once its position, origin or velocity has been changed, its own world velocity reads as absent until velocities are next updated. Reading never changes anything, and an update stores exactly the value that is then read. The same holds for the world transforms of a link's inertial, visual and collision elements when their origin is changed or they are cleared.",
 ["histories", "inputs"], "every sequence of setters, updates and reads on a joint or link element",
 "Tests only read after an update; a stale cache shows only in particular set/update/read orders.",
 [J, N, L], [("cache resets in the Joint setters", J), ("cache resets in set_origin of Inertial/Visual/Collision", L)],
 [("world_transform_cache, world_velocity_cache", "last computed pose and velocity", J)], ["Node::world_transform", "Node::world_velocity", "Inertial/Visual/Collision::world_transform"])

prop("C06", "A chain holds exactly the right nodes, parents first",
 "A chain built from a root contains that root and every one of its descendants exactly once, each node after its parent. A chain built from an end contains exactly the nodes on the path from the tree's root to that end, in that order; built from an end to a named root it contains exactly the part of that path from the named node on (the whole path when the named node is not on it). A chain built from a list keeps that list.",
 ["configurations"], "every tree of every size and shape and every choice of end and root node",
 "Tests build three or four fixed trees; the traversal must be right for all of them.",
 [C, IT, N], [("Descendants::next", IT), ("Ancestors::next", IT), ("Chain::from_root / from_end / from_end_to_root / from_nodes", C)],
 [("stack", "nodes still to be visited", IT)], ["Chain::iter"])

prop("C07", "Position vectors map one to one onto the movable joints in order",
 "The degree of freedom is the number of movable nodes, and the position vector has that length and lists them in chain order. Setting a vector of any other length is refused with a size-mismatch error and changes nothing; after a successful set every movable joint that mimics no other reports its own entry. The clamped and unchecked variants apply entry i to movable joint i alone, and looking a node up by name yields the first node in chain order that has the name, or nothing.",
 ["inputs", "configurations"], "every chain and every vector of every length",
 "Tests use two robots and vectors of matching length; order, length and aliasing errors need other chains.",
 [C], [("Chain::from_nodes", C), ("Chain::joint_positions", C), ("Chain::set_joint_positions(_clamped|_unchecked)", C), ("Chain::find / dof / iter_joints", C)],
 [("movable_nodes, dof", "the joints a position vector speaks about", C)], ["Chain::joint_positions", "Chain::dof", "Chain::find"])

prop("C08", "A cloned chain is an equal but independent copy",
 "Cloning a chain that starts at a root yields a chain with the same number of nodes in the same order, where each node has the same name, type, limits, origin, position, velocity and link as its original, and where parent and mimic relations between nodes of the chain are reproduced among the copies. Every copied node is new: no node is shared, and cloning changes nothing in the original chain.",
 ["configurations", "inputs"], "every tree, including branching ones and ones with mimic joints, in every state",
 "The only test clones one robot and compares symmetric positions.",
 [C, N], [("Chain::clone", C), ("Node::new / set_parent / set_mimic_parent", N)],
 [("nodes", "the nodes of the clone", C)], ["Chain::iter on the clone", "Chain::joint_positions on both"])

prop("C09", "Node velocities are the rigid-body velocities of forward kinematics",
 "After velocities are updated, each node's angular velocity is its parent's plus, for a rotational joint, joint velocity times the axis in world coordinates; its linear velocity is its parent's plus the parent's angular velocity crossed with the offset between the two nodes' world positions plus, for a linear joint, joint velocity times the axis in world coordinates. The root's parent counts as at rest at the world origin. The returned list holds these in chain order and no well-formed chain makes the update panic.",
 ["inputs", "configurations"], "every tree, joint type at every place including the root, every position and velocity",
 "No test calls the velocity update at all.",
 [C, V, J], [("Chain::update_velocities", C), ("Node::parent_world_velocity", N)],
 [("world velocity", "linear and angular velocity of the node", J)], ["Node::world_velocity", "Chain::update_velocities result"])

prop("C10", "The Jacobian is the geometric Jacobian of the end",
 "For a serial chain starting at a root the Jacobian has six rows and one column per movable joint in order: for a rotational joint the world axis crossed with the vector from the joint to the end, above the world axis; for a linear joint the world axis, above zero. All of it is evaluated at the current joint positions, whatever was cached before.",
 ["inputs", "configurations"], "every serial chain from a root, every mixture of joint types and positions",
 "Tests only see the Jacobian through converging solves of two all-rotational arms.",
 [F, C], [("jacobian", F)], [], ["jacobian result"])

prop("C11", "The center of mass is the mass-weighted mean of the link centers",
 "The center of mass of a chain is the sum over its nodes that carry a link of mass times the world position of the link's inertial origin, placed by that node's current world transform, divided by the sum of those masses; nodes without link contribute nothing. It reflects the current joint positions, whatever was cached before.",
 ["inputs", "configurations"], "every tree, assignment of links and masses, and joint positions with non-zero total mass",
 "One test, two nodes.",
 [F, L, C], [("center_of_mass", F)], [], ["center_of_mass result"])

prop("C12", "Link element poses follow the node that carries the link",
 "After link transforms are updated, the world transform of the inertial, and of every visual and collision element, of each link in the chain is the carrying node's world transform followed by the element's own origin. Nothing else about the links changes, and nodes without a link are left alone.",
 ["inputs", "configurations"], "every tree, any number of visuals and collisions per link, every joint position",
 "No test reads link transforms.",
 [C, L], [("Chain::update_link_transforms", C), ("set_world_transform of Inertial/Visual/Collision", L)],
 [("world_transform_cache of link elements", "pose of the element", L)], ["Inertial/Visual/Collision::world_transform"])

prop("C13", "A solver success means the target is reached within the limits",
 "When the inverse kinematics solver reports success, the arm's end pose, in the coordinates that are constrained, is closer to the target than the allowed distance in position and closer than the allowed angle in rotation. Every joint of the arm is then within its limits. No joint outside the arm has moved.",
 ["inputs", "configurations"], "every arm, target, tolerance, constraint set and starting configuration",
 "Tests solve three reachable targets on two arms without limits.",
 [IK, C], [("convergence test in solve_with_constraints_internal", IK), ("target_diff_to_len_rot_diff", IK), ("set_joint_positions_clamped", C)],
 [], ["Result of solve", "SerialChain::end_transform", "Chain::joint_positions"])

prop("C14", "A failed solve leaves the arm as it was",
 "Whenever the inverse kinematics solver returns an error, for whatever reason, every joint of the arm has the position it had before the call, and no joint outside the arm has moved. This includes joints that stood outside their limits and joints that mimic others.",
 ["inputs", "configurations"], "every arm, target, constraint set, starting configuration and cause of failure",
 "No test looks at the joints after a failed solve.",
 [IK, C], [("restore in solve_with_constraints", IK)], [], ["Chain::joint_positions after an Err"])

prop("C15", "Ignored joints are never moved by the solver",
 "A joint named as ignored, standing within its limits, has after a solve exactly the position it had before, whatever the outcome and whether or not the arm is redundant. Every other joint is moved by the multiplier times its own component of the computed step.",
 ["inputs", "configurations"], "every arm, set of ignored joints and constraints, redundant or exactly constrained, with or without null-space function",
 "One test ignores the last joint of a redundant arm.",
 [IK], [("ignored_joint_indices handling in solve_one_loop_with_constraints", IK)], [], ["Chain::joint_positions after solve"])

prop("C16", "The solver rejects impossible requests with an error, without panicking",
 "If the arm has fewer joints left than there are constrained coordinates, the solver returns the precondition error carrying both numbers; naming an ignored joint the arm does not have yields the invalid-joint-name error with that name. Neither these, nor zero permitted iterations, nor a request without any constrained coordinate, nor repeated or too many ignored names make the solver panic.",
 ["inputs", "configurations"], "every arm, constraint set, list of ignored names and iteration limit",
 "No test calls the solver with an impossible request.",
 [IK], [("checks at the start of solve_with_constraints_internal", IK)], [], ["Result of solve_with_constraints"])

prop("C17", "Pose differences and constraint selection keep coordinates apart",
 "The six coordinates of a pose difference are target position minus current position and the rotation vector from current to target rotation. Constraint selection keeps exactly the coordinates switched on, in order x, y, z of position then x, y, z of rotation, and the split back into position and rotation parts puts each value into its own coordinate and zero elsewhere. By default all six are on and no joint is ignored.",
 ["inputs"], "all pose pairs and all 64 constraint combinations",
 "Tests use two of the 64 combinations.",
 [IK], [("calc_pose_diff(_with_constraints)", IK), ("define_operational_space", IK), ("target_diff_to_len_rot_diff", IK), ("Constraints::default", IK)],
 [], ["error vector used by the solver", "position_diff/rotation_diff in the not-converged error"])

prop("C18", "URDF elements are converted faithfully",
 "A URDF joint becomes a joint of the same name, with its type (revolute and continuous rotational, prismatic linear, all others fixed), normalised axis, origin and limits (absent exactly when upper equals lower). Links keep name, mass, inertia, and the order, names, origins, geometry and material of all visuals and collisions; mimic keeps multiplier (one when missing) and offset (zero when missing).",
 ["inputs"], "every URDF element value of every kind",
 "Tests load one file and look at counts and two names.",
 [U], [("From impls for Joint, Link, Inertial, Visual, Collision, Geometry, Color, Material, Mimic", U), ("isometry_from, quaternion_from, translation_from, axis_from", U)],
 [], ["fields of the built Joint and Link"])

prop("C19", "URDF joints are connected as the URDF says",
 "In the chain built from a URDF robot whose joint and link names are unique, there is one node per joint plus a root node; a joint's parent is the joint whose child link is its own parent link, or the root node if there is none. Each joint's node carries its child link and the root node carries the base link. Mimic relations connect exactly the joints the URDF connects.",
 ["inputs", "configurations"], "every robot description with unique names whose links form a tree, every link and joint it mentions being declared, in every order of joints and links",
 "Tests load one robot.",
 [U], [("Chain::from(&urdf_rs::Robot)", U), ("Node::set_parent / set_mimic_parent", N)],
 [], ["Node::parent", "Node::link", "Node::mimic_parent"])

prop("C20", "Link and joint name maps agree with the URDF",
 "The link-to-joint map sends every link that is the child of a joint to that joint's name and every other link to the root joint's name, and has no other keys. The joint-to-link map sends every joint to its child link and, if some link is no joint's child, the root joint's name to such a link; it has no other keys.",
 ["inputs", "configurations"], "every list of uniquely named joints and links in any order",
 "One doc-test looks at three entries of one robot.",
 [U], [("link_to_joint_map", U), ("joint_to_link_map", U)], [], ["map contents"])

prop("C21", "Attaching and detaching keep parent and children in step",
 "After a node is attached to a parent, its parent is that node and it is the last of that node's children, whose other children are kept in order; after it is detached from it, it has no parent and is no longer among those children, the others kept in order. Neither touches any other node or any joint data; a node is a root exactly when it has no parent and an end exactly when it has no children.",
 ["histories", "configurations"], "every pair of nodes in every forest and every current relation",
 "Tests attach a few nodes and never detach one.",
 [N], [("Node::set_parent / remove_parent / is_root / is_end / parent", N)],
 [("parent, children", "tree structure", N)], ["Node::parent", "Node::children", "Node::is_root", "Node::is_end"])

prop("C22", "Built joints, nodes and links have exactly the given parts",
 "A joint or node made with the builder has the name, type, limits and origin last given to the builder (translation and rotation replace just that part of the origin) and otherwise stands at position and velocity zero, without limits, at the identity origin, fixed and unnamed, with nothing cached. A built link has the given name and inertial, and the visuals and collisions in the order they were added.",
 ["inputs", "histories"], "every sequence of builder calls with any values",
 "Doc examples only build and print.",
 [N, J, L], [("NodeBuilder", N), ("Joint::new", J), ("LinkBuilder", L)], [], ["fields of the built Joint, Node and Link"])

prop("C23", "A serial chain never has a branch inside",
 "Converting a non-empty chain into a serial chain succeeds exactly when every node but the last has exactly one child, and then keeps the chain unchanged. On a chain built from a root a success means that each node is the only child of the node before it.",
 ["configurations"], "every chain",
 "Doc-tests try a single node and a three-node branch.",
 [C], [("SerialChain::try_new", C)], [], ["Option returned by the conversion"])

prop("C24", "No operation on a well-formed chain panics or blocks on itself",
 "Called while no guard is held, none of the node, chain and kinematics operations locks a node it already holds or panics, for any well-formed tree: parents before children, caches of nodes outside the chain up to date, and followers of a joint having their mimic rule.",
 ["inputs", "configurations"], "every tree and every argument satisfying each operation's documented precondition",
 "Tests only exercise calls that happen to succeed.",
 [N, C, F], [("lock discipline in Node methods", N), ("expect/unwrap calls in Chain", C)], [], ["call returns"])

prop("C25", "The reference null-space function is the weighted offset",
 "The ready-made null-space function built from reference positions and weights of equal length returns, for every vector of that length, the vector whose i-th entry is weight i times the difference between position i and reference i.",
 ["inputs"], "all vectors of all lengths",
 "One test with two entries.",
 [IK], [("create_reference_positions_nullspace_function", IK)], [], ["function result"])

prop("C26", "Several threads may use one tree without deadlock or torn reads",
 "When several threads call node, chain and kinematics operations on one tree at once, each holding no guard of its own while it calls, no combination of calls deadlocks; an operation on a single node takes that node's lock once, so that what it reads stood there between two writes; and setting a joint holds that joint until its followers are set, so that after concurrent sets of one joint its followers stand where the last of them put them.",
 ["schedules", "inputs"], "every interleaving of calls from several threads, on every tree whose links of parents and children have no cycle",
 "The tests are single-threaded.",
 [N, C], [("one mutex per node", N), ("a joint and its followers are set under the joint's lock", N)], [], ["calls return", "values read by other threads"])

prop("C27", "The solver converges to reachable targets near the start",
 "For a target reachable close to the starting configuration and away from singularities and limits, the solver succeeds within its permitted iterations.",
 ["inputs", "configurations"], "all arms and nearby reachable targets",
 "Tests solve three targets.",
 [IK], [("Newton iteration with pseudo-inverse", IK)], [], ["Result of solve"])

prop("C28", "Floating-point forward kinematics stays close to the exact one",
 "World transforms computed in f32 or f64 differ from the exact real-number result by a rounding error bounded in the depth of the chain, and rotations stay unit quaternions within such a bound.",
 ["inputs", "configurations"], "all chains and positions of bounded size",
 "Tests compare a few poses with a fixed tolerance.",
 [C, J], [("nalgebra isometry arithmetic", C)], [], ["Node::world_transform"])

prop("C29", "Solver constraints survive serialisation",
 "With the serialisation feature on, constraints read back from their serialised form are equal to the original, and fields missing from the input default to constrained coordinates and no ignored joints.",
 ["inputs"], "all constraint values and partial inputs",
 "No test enables the feature's code.",
 [IK], [("serde derive on Constraints", IK)], [], ["deserialised Constraints"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
