CLAIMS = {
"C01": "Proof for all inputs of the contracts of Joint::set_joint_position, its readers and Range::is_valid, over the reals and bit-precisely in f32 and f64 (NaN included). Library functions are assumed as in kvc/lib.py.",
"C02": "Proof for all inputs of the contracts of the clamped setter, Range::new, Range::is_valid and Range::clamp, over the reals and bit-precisely in f32 and f64.",
"C03": "Proof for all inputs, over the reals, of the contract of Node::set_joint_position (loop over the followers with inferred invariants, any number of followers, frame over the whole heap) and of Node::set_mimic_parent.",
"C05": "Proof for all inputs of the contracts of every position, origin and velocity setter of joints and nodes (followers included), of the readers, and of the element setters of links. What an update stores is part of C04 and C09.",
"C04": "Proof for all inputs, over the reals, of Joint::local_transform, Chain::update_transforms (chains of any length, inferred and given invariants) and SerialChain::end_transform. Isometry products of nalgebra are given by the contract of an associative product with a unit.",
"C06": "Proof for all inputs of from_nodes, from_root, from_end and from_end_to_root with the two iterators, trees of any size. The descendants relation is defined by parent links.",
"C07": "Proof for all inputs of dof, joint_positions, the three setters of position vectors and find, chains of any length.",
"C08": "Proof for all inputs of Chain::clone, chains of any length and shape that start at a root and hold the parents of their nodes, with child and follower lists in order, of SerialChain::clone, and of the clones of joints, links and their parts. A mimic parent outside the chain is not reproduced.",
"C09": "Proof for all inputs, over the reals, of Chain::update_velocities, chains of any length.",
"C10": "Proof for all inputs, over the reals, of jacobian, serial chains of any length.",
"C11": "Proof for all inputs, over the reals, of center_of_mass, chains of any length.",
"C12": "Proof for all inputs of Chain::update_link_transforms, chains, visuals and collisions of any length.",
"C13": "Proof for all inputs, over the reals, of solve and solve_with_constraints with the step function, arms and numbers of tries of any size. svd, pseudo-inverse and LU of nalgebra may return anything of the right size.",
"C14": "Proof for all inputs, over the reals, of solve and solve_with_constraints with the step function: every error path restores every position.",
"C15": "Proof for all inputs, over the reals, of the step function (which columns are solved for, where the components of the step go) and of the whole solve, any number of ignored joints.",
"C16": "Proof for all inputs of solve and solve_with_constraints: which error arises when and what it carries, and that no panic is reachable. A lemma (induction) counts the ignored joints.",
"C17": "Proof for all inputs, over the reals, of calc_pose_diff, calc_pose_diff_with_constraints, target_diff_to_len_rot_diff, define_operational_space and Constraints::default. rotation_to and scaled_axis of nalgebra are trusted.",
"C18": "Proof for all inputs of the conversion functions in urdf.rs, vectors of any length. What urdf_rs parses and its derived defaults are assumed.",
"C19": "Proof for all inputs of Chain::from(&Robot) and Chain::from(Robot), robots of any size in any order, whose links form a tree; the conversions of joints, links and mimic rules are those of C18, the collecting of the chain that of C06.",
"C20": "Proof for all inputs of link_to_joint_map and joint_to_link_map, lists of any length, and a lemma that the property follows from their contracts. What the maps do when names repeat is left open.",
"C21": "Proof for all inputs of Node::set_parent, remove_parent, parent, is_root and is_end with frames over the whole heap, child lists of any length.",
"C22": "Proof for all inputs of Joint::new, Node::new, NodeBuilder, LinkBuilder and the constructors of link elements.",
"C23": "Proof for all inputs of try_new, new_unchecked, unwrap and from_root, trees of any size, with a lemma (induction) that joins them.",
"C24": "Proof for all inputs that no panic and no lock of a held node is reachable in the node, chain and kinematics operations, printing, and reading links and origins; preconditions as in the other properties. Of each proof's obligations only those about panics, locks and preconditions count here.",
"C25": "Proof for all inputs, over the reals, of the closure made by create_reference_positions_nullspace_function, vectors of any length.",
"C26": "Proof for all interleavings by lock invariants: every acquisition gives an arbitrary node that satisfies the invariant, every release re-establishes it, and what may be waited for while a node is held rules out circles of waiting threads; that the obligations imply this is argued on paper. The solver and the making of chains from robot descriptions are not included.",
}
TODO = "Not yet covered by a check."
NOT = {p: TODO for p in ["C%02d" % i for i in range(1, 30)]}
NOT.update({
"C27": "Convergence of the iterated pseudo-inverse step is an analytic fact about nalgebra's numerics, which no contract within reach expresses.",
"C28": "Error bounds of floating-point quaternion arithmetic inside nalgebra; the rotation functions are trusted here, so nothing about their rounding can be deduced.",
"C29": "The serialisation code is generated by serde's derive macros and runs in serde_json; there is no code of the repository to put under contract.",
})
