prop("C01", "Line search: bounded steps, sufficient decrease, guaranteed end",
     "The line search accepts a step only if it lowers half the squared residual by the prescribed share of the predicted decrease, or after its maximum number of iterations, so it always ends. As long as it refuses, the next relaxation is a number between a tenth and a half of the last one: the first minimizes the parabola and every further one the cubic through the known values, unless these minimizers lie outside that interval. No sequence of residuals, including vanishing ones and objectives that are exactly quadratic along the step, makes the relaxation NaN or leave the interval.",
     ["inputs", "histories"], "every initial and trial objective, every history of refused relaxations, every sufficient-decrease constant up to one quarter and every iteration limit",
     "The stable test follows one search of one system of equations.",
     [S + "line_search.cc", I + "line_search.h"],
     [("acceptance", I + "line_search.h LineSearch::suficient_descent_condition"),
      ("relaxation", S + "line_search.cc LineSearch::get_lambda, quadratic_backtracking, cubic_backtracking")])
prop("C02", "Cohesive traction of a grain boundary follows its law and never pushes apart",
     "For every opening and every damage history, the traction across a cohesive grain boundary lies on the exponential master curve while the effective opening exceeds its recorded maximum and on the straight secant to the origin below it, acting along the weighted opening. The effective opening weighs the tensile part of the normal opening and the tangential opening, is never negative and does not depend on the side it is measured from. A closed boundary carries no cohesive traction, and no state makes the traction push the faces apart.",
     ["inputs", "histories"], "every opening vector, unit normal, recorded maximum opening, damage in [0,1] and positive material constants, in two and three dimensions",
     "The stable tests do not evaluate the cohesive law at all; a table of sampled openings could not cover the regime switches at the recorded maximum and at closure.",
     [CL, CLH], [("traction on the master curve and the secant", CL + " CohesiveLaw::get_cohesive_traction"),
                 ("effective opening", CL + " CohesiveLaw::get_effective_opening_displacement")])
prop("C03", "Cohesive stiffness is the exact derivative of the cohesive traction",
     "Away from the points where the traction itself has a kink, the stiffness handed to the Newton iteration for a cohesive boundary equals the derivative of the cohesive traction with respect to the opening, both while loading on the master curve and while unloading on the secant, for every characteristic opening, damage and coupling.",
     ["inputs", "histories"], "every opening direction, increment direction, recorded maximum, damage and material constants, both regimes, two and three dimensions",
     "No existing test evaluates the stiffness; a wrong tangent only slows or breaks Newton convergence in some runs, and finite sampling cannot show equality of two functions.",
     [CL, CLH], [("loading and unloading stiffness", CL + " CohesiveLaw::get_jacobian"),
                 ("master curve and its slope", CL + " CohesiveLaw::get_master_relation")])
prop("C04", "Interface history: running maximum, bounded non-healing damage, exact rollback",
     "At every interface point the recorded maximum opening is the running maximum over committed openings, and the damage starts at zero, stays within zero and one, never decreases along committed steps, follows the selected evolution law, and stays zero when damage is switched off. The result of an update depends on the last committed state and its own arguments only, a commit keeps it, and a rollback restores the committed state exactly. An old effective opening counts the tensile normal and the tangential part of the opening only, and the second face of an interface never advances the state twice.",
     ["inputs", "histories"], "every committed state, every sequence of trial updates, commits and rollbacks, every opening and every non-negative set of evolution constants",
     "The only test of this state prints a few values of one fixed path and is not among the stable tests; damage bounds and rollback must hold for every update sequence.",
     [QH, QHH], [("committed copies and rollback", QHH + " InterfaceQuadraturePointHistory::store_current_values, reset_values"),
                 ("evolution laws", QH + " InterfaceQuadraturePointHistory::update_values"),
                 ("once per interface and update", QHH + " InterfaceData::update")])
prop("C05", "Contact acts on interpenetration only and its stiffness is consistent",
     "A grain boundary in contact returns a normal traction proportional to the interpenetration with the penalty factor, always compressive, and none when the faces are open, for any tangential slip. The contact stiffness equals the derivative of the contact traction for every opening other than exactly touching faces.",
     ["inputs"], "every opening vector, unit normal, penalty coefficient and characteristic opening, two and three dimensions",
     "No existing test evaluates the contact law.",
     [CL, CLH], [("contact traction and stiffness", CL + " ContactLaw::get_contact_traction, get_jacobian")])
prop("C06", "Slip resistances harden from committed values only and roll back exactly",
     "Slip resistances start at the scaled initial value; each update adds to the last committed value the hardening caused by the absolute slip increments of all systems, self and latent hardening included, so that slip never softens the crystal and repeated trial updates never accumulate. Perfect plasticity leaves them unchanged. A commit makes the current values the old ones, a rollback restores them, and reading before initialization is rejected.",
     ["inputs", "histories"], "any number of slip systems and quadrature points, every slip field, every sequence of trial updates, commits and rollbacks, every non-negative hardening modulus and parameter",
     "The history program of the test directory prints one path of one system and fails on this machine; independence of trial updates quantifies over all histories.",
     [QH, QHH], [("hardening from the committed values", QH + " QuadraturePointHistory::update_values"),
                 ("commit and rollback", QHH + " QuadraturePointHistory::store_current_values, reset_values")])
prop("C07", "Scalar microstress: odd, monotone, bounded by the slip resistance, dissipative",
     "For every regularization function the scalar microstress is odd in the slip increment, proportional to the slip resistance, zero for no increment, strictly within plus and minus the slip resistance, of the sign of the slip rate, and never falls with the slip rate, so that slip always dissipates. All regularizations have unit initial slope when the slip rate is measured in the regularization parameter. The rate-independent form returns the full slip resistance in the direction of the resolved stress.",
     ["inputs", "configurations"], "every old and new slip value, slip resistance, time step, regularization parameter and each of the five regularization functions",
     "No existing test evaluates these functions; boundedness and monotonicity are statements over all slip rates.",
     [CL, CLH], [("regularized sign", CL + " ScalarMicrostressLaw::get_regularization_factor"),
                 ("scalar microstress", CL + " ScalarMicrostressLaw::get_scalar_microstress")])
prop("C08", "Slip stiffness matrix equals viscous slope plus hardening coupling",
     "The matrix that couples the slip systems in the Newton iteration has one row and column per system; its entries equal the derivative of each regularized microstress with respect to each slip, that is the viscous slope on the diagonal and the hardening of the slip resistance in every entry. In the rate-independent form only the hardening part remains.",
     ["inputs", "configurations"], "any number of slip systems, every slip state and slip resistance, every regularization function, with and without the rate-independent form",
     "No existing test evaluates the matrix, and equality with a derivative cannot be sampled.",
     [CL, CLH], [("derivatives", CL + " ScalarMicrostressLaw::get_jacobian"),
                 ("regularized sign and its slope", CL + " ScalarMicrostressLaw::get_regularization_factor"),
                 ("hardening", CL + " ScalarMicrostressLaw::get_hardening_matrix_entry")])
prop("C09", "Vectorial microstress derives from the defect energy, with exact stiffness",
     "The vectorial microstress of a slip system is the gradient of the power-law defect energy of the edge and screw parts of the slip gradient, for every exponent from one upwards, with vanishing parts contributing nothing, scaled by the slip resistance and length scale unless dimensionless. Its stiffness equals its derivative wherever that derivative exists. For the quadratic energy both are linear and the stored power is never negative; use before initialization is rejected.",
     ["inputs", "configurations"], "every crystal, slip system, slip gradient, exponent from 1 to 6, length scale and slip resistance, two and three dimensions",
     "No existing test evaluates the law; the exponents below two misbehave only at vanishing parts of the gradient.",
     [CL, CLH], [("microstress and stiffness", CL + " VectorialMicrostressLaw::get_vectorial_microstress, get_jacobian"),
                 ("projection dyads", CL + " VectorialMicrostressLaw::init")])
prop("C10", "Grain-boundary interaction moduli, microtraction and energy are consistent",
     "For two different crystals the interaction moduli at a boundary point are the products of slip-direction alignment and slip-plane trace alignment, within each grain and across; asking for the moduli of a crystal with itself is rejected and no valid crystal pair is. The microtraction resists the slip mismatch through these moduli and its two stiffness matrices are its derivatives with respect to the slips on either side. The boundary energy is quadratic in the slip mismatch, never negative and the same seen from both sides.",
     ["inputs"], "any number of slip systems and quadrature points, every pair of crystals, every unit boundary normal and every slip field, two and three dimensions",
     "No existing test evaluates the boundary laws; the range checks trip only for particular orientations.",
     [CL, CLH], [("interaction moduli", CL + " MicrotractionLaw::get_grain_interaction_moduli"),
                 ("microtraction and derivatives", CL + " MicrotractionLaw::get_microtraction, get_intra_gateaux_derivative, get_inter_gateaux_derivative"),
                 ("boundary energy", CL + " MicrotractionLaw::get_free_energy_density")])
prop("C11", "Elastic stress follows cubic Hooke's law in the rotated crystal frame",
     "The stress of a strain is the cubic stiffness applied in the crystal frame: a strain given in the crystal frame and rotated into the specimen yields the rotated stress, for every orientation, in two and three dimensions and for the three-dimensional stiffness of two-dimensional problems, scaled by the characteristic stiffness. A rotated crystal is refused before initialization, and the single-crystal and polycrystal interfaces refuse each other's calls.",
     ["inputs", "configurations"], "every strain, every elastic constants, every crystal orientation and every number of crystals",
     "No existing test evaluates the stiffness; frame indifference quantifies over all rotations.",
     [CL, CLH], [("reference and rotated stiffness", CL + " HookeLaw::init"), ("stress", CL + " HookeLaw::get_stress_tensor")])
prop("C12", "Crystal data: only orthonormal rotated slip systems, malformed input rejected",
     "Reading the crystals of a triangulation either fails with an exception or leaves one orientation per crystal and one slip system per line of the input files. Files that are missing, have the wrong number of entries or lines, or list vanishing or non-orthogonal pairs are rejected in every build type; well-formed files are accepted. Every orientation is a rotation given by its Euler angles; slip directions and normals are the normalized vectors of the files rotated into the crystal, of unit length and orthogonal, completed by their cross product in three dimensions; the Schmid tensors are their dyads. All observers agree, and refuse to answer before the initialization.",
     ["inputs"], "files of any number of lines and any numeric content, any number of crystals, two and three dimensions",
     "The stable test of this class reads one fixed set of well-formed files.",
     [CD, CDH], [("reading and rejection", CD + " CrystalsData::read_and_store_data, orthogonality_check"),
                 ("rotations", CD + " CrystalsData::compute_rotation_matrices, compute_3d_rotation_matrices"),
                 ("slip systems", CD + " CrystalsData::compute_slip_systems"), ("observers", CDH + " CrystalsData")])
prop("C13", "Elastic strain, plastic strain and resolved shear stress are consistent",
     "The plastic strain is the sum over all slip systems of the slip times the symmetrized Schmid tensor of the crystal, the elastic strain is the scaled total strain less the plastic strain, and the resolved shear stress of a slip system is the stress contracted with the Schmid tensor of that system and crystal.",
     ["inputs"], "any number of slip systems and quadrature points, every crystal, strain, stress and slip field",
     "No existing test evaluates these quantities.",
     [CL, CLH], [("strains", CL + " Kinematics::ElasticStrain"), ("resolved stress", CL + " ResolvedShearStressLaw::get_resolved_shear_stress")])
prop("C14", "Degradation and stored cohesive energy are consistent with their derivatives",
     "The degradation of a boundary is one when intact, zero when fully damaged, stays in between, never grows with damage, and its reported slope is its derivative; without damage coupling it is identically one with zero slope. The stored cohesive energy is zero for a closed boundary, never negative, and the cohesive traction while loading is its derivative with respect to the opening.",
     ["inputs"], "every damage in [0,1], positive exponent and constants, every loading opening, with and without coupling",
     "No existing test evaluates the degradation or the energies; equality with a derivative cannot be sampled.",
     [CL, CLH], [("degradation and slope", CLH + " DegradationFunction"), ("stored energy", CL + " CohesiveLaw::get_free_energy_density")])
prop("C16", "Prescribed displacement follows the loading program, reversal by reversal",
     "The prescribed displacement of the sheared strip equals the strip height times the load of the program in the sheared component, the same for every crystal that can separate, and zero in every other component. A monotonic load grows linearly. A cyclic load ramps up to the mean load over the ramp duration, follows a sine between the minimum and the maximum load through the cycles and ramps down, without jumps between the phases and for every start time, duration, period, height and scaling. The phases last what the parameter file says, the steps divide each phase equally, and a step starts without extrapolation exactly where the load reverses or its phase changes.",
     ["inputs", "configurations"], "every monotonic or cyclic program a parameter file can describe, every instant, number of crystals, component and strip height",
     "No existing test evaluates a prescribed displacement; phase boundaries and reversals coincide only for special durations.",
     [S + "boundary_conditions.cc", S + "run_time_parameters.cc"],
     [("prescribed displacement", S + "boundary_conditions.cc DisplacementControl::vector_value"),
      ("program", S + "run_time_parameters.cc SimpleLoading::parse_parameters, get_next_time_step_size, skip_extrapolation")])
G = S + "gradient_crystal_plasticity/"
SOLVE = G + "solve.cc"
SOLVER_H = I + "gradient_crystal_plasticity.h"
prop("C15", "Accepted load steps fulfil the constraints and the tolerances",
     "When a load step ends without an exception, the solution it leaves behind takes every prescribed value, the internal variables were updated for exactly this solution, the residual last assembled is that of this solution and these internal variables, and its norm, for staggered solutions the norm of each block, is below its own tolerance. In the monolithic solution of rate-independent flow, slips without plastic flow keep their values of the last step. The step starts from the extrapolated and stored solution with the internal variables and slip resistances of the last step stored, uses the algorithm of the parameter file, records openings once and after convergence, hands over the accepted solution, leaves the last one alone and adds one row to the statistics.",
     ["inputs", "configurations", "histories"], "every residual and jacobian the assembly can produce, every number of Newton, line search, active set and staggered iterations, all three algorithms and both kinds of flow (staggered: rate-dependent flow)",
     "No existing test solves a load step; which iterate the internal variables and residuals belong to depends on how many times the line search and the active set intervene.",
     [SOLVE, SOLVER_H], [("monolithic algorithm", SOLVE + " monolithic_algorithm"),
                 ("staggered algorithms", SOLVE + " bouncing_algorithm, embracing_algorihtm"),
                 ("load step", SOLVE + " solve_nonlinear_system")])
prop("C17", "Newton updates move exactly the intended unknowns by the intended amount",
     "The update of a Newton iteration solves the linearized equations of its block, or of the macroscopic block reduced by the Schur complement of the microscopic one, except at constrained unknowns, where it takes the prescribed increment; the other block of the update vanishes. Adding the update with a relaxation factor moves only the block asked for, starting from the stored trial solution and restoring prescribed values. The line search compares objectives of the block it works on, always retries from the stored solution and leaves internal variables and residual of its last trial behind. Storing, restoring, extrapolating and shifting the solutions in time copy or combine exactly the vectors they name, and each block norm is that of its block.",
     ["inputs", "configurations", "histories"], "every vector, matrix and set of constraints, every relaxation, every sequence of line search trials, one and two blocks, every solver type, two and three dimensions",
     "No existing test solves a linear system; a swapped block or a lost prescribed value only degrades convergence in most runs.",
     [SOLVE, SOLVER_H, S + "fe_field.cc"],
     [("updates of the trial solution", SOLVE + " update_trial_solution, store_trial_solution, reset_trial_solution, extrapolate_initial_trial_solution"),
      ("linear systems", SOLVE + " solve_linearized_system, solve_decoupled_linearized_subsystem, solve_reduced_linearized_system"),
      ("line search", SOLVE + " line_search_algorithm"), ("time levels and norms", S + "fe_field.cc FEField::update_solution_vectors, get_sub_l2_norms")])
prop("C18", "Slips flow exactly when their microstress exceeds their yield stress",
     "In rate-independent flow an unprescribed slip belongs to the active set exactly if the absolute value of its trial microstress exceeds its slip resistance (the initial one for perfect plasticity); every other one is inactive, is put back to its value of the last step and gets no Newton update, while updates of the flowing slips are constrained as before. The sets stay as they are until they are asked for again. The slip resistance is that of the last step plus the hardening by the absolute slips since then, with self and latent hardening, so that repeated updates never accumulate.",
     ["inputs", "histories"], "every microstress, slip resistance, hardening modulus, number of slip systems, set of constraints and previous active set, two and three dimensions",
     "No existing test computes an active set; its errors show only where a slip changes between flow and rest.",
     [G + "active_set.cc", G + "setup.cc", SOLVER_H], [("active set", G + "active_set.cc active_set_algorithm, determine_active_set, determine_inactive_set, reset_inactive_set_values"),
                 ("slip resistances", G + "setup.cc reset_and_update_slip_resistances, store_slip_resistances")])

prop("C19", "The local residual is the weak form of momentum and microforce balance",
     "Every entry of the residual of a cell is the virtual work of what acts on it: in the cell the stress against the strain and the supply against the displacement of the test function; the vectorial microstress against the slip gradient and the scalar microstress less the resolved shear stress against the slip; at each face to another crystal the degraded cohesive and the undegraded contact traction on the opening of the trial solution and the degraded microtraction; at each face with a prescribed traction that traction at the end of the step. Each term is integrated with the weights and normals of its own cell or face, uses the fields of the cell at hand and of the neighbour across that face, and is scaled by its dimensionless number; nothing else enters.",
     ["inputs", "histories"], "every cell of every polycrystal: any number of faces, neighbours, quadrature points, degrees of freedom, slip systems; any trial and old solution, internal variables, supply, tractions and constitutive laws; with and without microtraction and decohesion; two and three dimensions",
     "No existing test assembles anything; a wrong or missing term still gives a residual that Newton's method drives to zero.",
     [G + "assembly.cc", G + "assembly_data.cc"], [("local residual", G + "assembly.cc assemble_local_residual"), ("scratch", G + "assembly_data.cc Residual::Scratch")])

prop("C20", "The local matrix is the linearization of the local residual",
     "Every entry of the matrix of a cell is the derivative of the corresponding entry of the residual, internal variables held fixed, with the sign convention of the solver: stiffness between displacements, the Schmid coupling between displacements and slips in both directions and among slips, the tangents of the scalar microstress for every pair of slip systems and of the vectorial microstress for the same one, and at each face to another crystal the degraded cohesive and undegraded contact tangent and the degraded microtraction tangent within the cell.",
     ["inputs", "histories"], "every cell of every polycrystal as in C19 and every pair of its degrees of freedom, two and three dimensions",
     "No existing test assembles a matrix; a wrong entry only slows down or stalls Newton's method for some loading.",
     [G + "assembly.cc", G + "assembly_data.cc"], [("local matrix", G + "assembly.cc assemble_local_jacobian"), ("scratch", G + "assembly_data.cc Jacobian::Scratch")])

