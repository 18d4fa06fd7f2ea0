prop('C08', 'Adaptation transfers data and cells exactly as the marks say',
     'When the mesh changes, each new cell gets the old value if it existed, the mean of the old children if they were coarsened, the prediction from the old parent if it was refined, for every field passed, and nothing else. '
     'A cell marked refine is replaced by all its children, siblings all marked coarsen are replaced by their parent, any other cell stays, never beyond the minimum and maximum levels; '
     'the fields move to the new mesh together, and an unchanged mesh is reported as such.',
     ['inputs', 'histories'], 'all cell sets, marks, field values and levels (abstract sets: membership of a generic cell is uninterpreted), dimensions 1 to 3, several fields and tuples of fields',
     'Tests run one adaptation on a few meshes; a missed level, a wrong set or a forgotten field shows only for particular meshes.',
     [S + 'algorithm/update.hpp'], [('data transfer', S + 'algorithm/update.hpp detail::update_fields, update_field_mr, update_field'), ('new cell list', S + 'algorithm/update.hpp update_field_mr, update_field')])

prop('C09', 'Boundary conditions fill the outer ghosts they own with the right formula',
     'A Dirichlet condition of order p puts the ghosts on the polynomial through the p inner cells and the value at the face, a Neumann condition imposes the outward slope, extrapolation continues the polynomial of the inner cells. '
     'A condition acts on exactly the boundary cells of its region (everywhere, chosen directions, a predicate on the face centre) in its direction, uses the value at the centre of that face, skips periodic directions, and conditions attached later win. '
     'Corner ghosts and layers beyond the condition are extrapolated afterwards, nearest first.',
     ['inputs', 'configurations'], 'all field values, boundary values, cell sets, levels; orders 1 to 4; dimensions 1 to 3; periodic and non-periodic directions',
     'Tests check constants on simple boxes; directions, corner ghosts, several conditions and higher orders are not sampled.',
     [S + 'bc.hpp', S + 'boundary.hpp', S + 'stencil.hpp'], [('formulas', S + 'bc.hpp DirichletImpl, NeumannImpl, PolynomialExtrapolation'), ('regions', S + 'bc.hpp Everywhere, OnDirection, CoordsRegion; boundary.hpp boundary'),
      ('application', S + 'bc.hpp apply_bc_impl, apply_extrapolation_bc_impl, update_bc; stencil.hpp convert_for_direction')])

prop('C20', 'Ghost update and adaptation run their phases in order on the right sets',
     'Updating ghosts projects from the finest level to the coarsest, applies boundary and periodic conditions on each level before it is used, then predicts from coarse to fine, on exactly the ghost cells of each set, for all fields given. '
     'An adaptation step computes details and criteria on all cells with the threshold of their level, enlarges, and grades the marks level by level downwards; '
     'it is repeated at most max minus min level times with reset marks, stops when the mesh does not change and leaves a uniform mesh alone.',
     ['inputs', 'histories'], 'all cell sets, fields, thresholds and level ranges instantiated (1 to 3 dimensions, several level ranges and ghost widths)',
     'The order of phases only matters for cells whose value depends on an earlier phase; tests on small meshes often give the same value either way.',
     [S + 'algorithm/update.hpp', S + 'mr/adapt.hpp', S + 'algorithm/graduation.hpp'], [('ghost update', S + 'algorithm/update.hpp update_ghost, update_ghost_mr, update_ghost_mro, update_overleaves_mr'), ('adaptation step', S + 'mr/adapt.hpp Adapt::operator(), Adapt::harten'), ('graduation of marks', S + 'algorithm/graduation.hpp graduation')])

prop('C10', 'Every interior and boundary face is visited once with the right cells',
     'Iterating over the interfaces of a mesh visits each face between two cells exactly once, between cells of equal level and across a level jump alike (there with the coarse cell on the coarse side and the stencil at the finer level), '
     'and each boundary face exactly once with the direction pointing outwards; cell indices, coordinates, lengths and storage indices of all stencil cells are the right ones for any stencil, direction and run length. '
     'The parallel and the interval-wise variants visit the same faces as the sequential one, with one iterator state per thread.',
     ['inputs', 'configurations'], 'all cell sets and coordinates (abstract sets), dimensions 1 to 3, several level ranges, stencils of 2 to 6 cells, sequential and OpenMP variants',
     'A face missed or visited twice only occurs at level jumps, odd positions or boundaries that a small test mesh does not contain.',
     [S + 'interface.hpp', S + 'stencil.hpp'], [('interfaces', S + 'interface.hpp for_each_interior_interface, for_each_interior_interface__same_level, …level_jump, for_each_boundary_interface'),
      ('stencils', S + 'stencil.hpp Stencil, DirectionVector, IteratorStencil, StencilAnalyzer, for_each_stencil')])

prop('C11', 'Flux-based schemes are conservative and apply the flux of each face once',
     'Applying a flux-based scheme adds to each cell the sum over its faces of outgoing flux times face measure over cell measure: what leaves one cell enters its neighbour, also across a level jump where the flux is evaluated at the finer level, '
     'and boundary fluxes are added only on request. This holds for constant, cell-dependent and nonlinear fluxes, conservative or with one value per side, every direction, scalar and vector fields; '
     'the OpenMP variant gives the same sums and the Jacobian coefficients are those of the same sums.',
     ['inputs', 'configurations'], 'all flux functions, field values, cell sets (abstract), cell sizes; dimensions 1 to 3; stencils 2 and 4; both flux containers; sequential and OpenMP code',
     'Conservation is lost only at level jumps, boundaries or for some component and direction; tests look at constants.',
     [S + 'schemes/fv/flux_based/', S + 'interface.hpp'], [('application', S + 'schemes/fv/flux_based/explicit_flux_based_scheme__lin_hom.hpp, …__lin_het.hpp, …__nonlin.hpp apply'),
      ('coefficients', S + 'schemes/fv/flux_based/flux_based_scheme__*.hpp for_each_interior_interface_and_coeffs, contribution, cell_coeff')])

prop('C12', 'Each finite-volume operator is the discretisation it is documented to be',
     'The normal flux of every built-in operator, in every direction and component, is the documented one: diffusion -K (u_R - u_L)/h with the coefficient of its direction, component or left cell, gradient and divergence the mean of both sides in their own component, '
     'upwind convection the value on the upwind side times the normal velocity, WENO5 the Jiang-Shu reconstruction on the upwind-biased stencil; identity, zero and star-stencil diffusion have their coefficients. '
     'The ghost equations used for implicit boundary conditions give 2g - u for Dirichlet and u + h g for Neumann in each direction, and operators keep their own copy of constant parameters.',
     ['inputs', 'configurations'], 'all values, coefficients, velocities of either sign, cell sizes; dimensions 1 to 3; scalar and vector fields',
     'Tests run a few of these operators on smooth data; a wrong component, direction, sign of velocity or stencil cell is not sampled.',
     [S + 'schemes/fv/operators/', S + 'schemes/fv/FV_scheme.hpp'], [('fluxes', S + 'schemes/fv/operators/diffusion.hpp, gradient.hpp, divergence.hpp, convection_lin.hpp, convection_nonlin.hpp, weno_impl.hpp'),
      ('cell coefficients', S + 'schemes/fv/operators/identity.hpp, zero_operator.hpp, diffusion_old.hpp'), ('ghost equations', S + 'schemes/fv/FV_scheme.hpp init_dirichlet_config, init_neumann_config; operators/diffusion.hpp')])

prop('C13', 'Combining schemes combines what they compute, and leaves the operands alone',
     'c*A, -A, A+B and A-B of finite-volume schemes (flux-based or cell-based, linear or nonlinear, merged or kept as a list of operators) compute exactly the same combination of what A and B compute, values and Jacobian coefficients alike, '
     'in every direction and component; the operands are copied and stay usable and unchanged. '
     'Applying a scheme adds its result to the output, s(u) starts from a zero field, applying in one direction uses only the fluxes of that direction, and a cell-based scheme uses the coefficient of each stencil cell once. The array type that carries fluxes computes componentwise.',
     ['inputs', 'configurations'], 'all flux functions, coefficients, scalars and field values (uninterpreted), dimensions 1 to 3, scalar and vector fields, with and without Jacobians',
     'Tests combine two or three concrete operators; which direction, which function of a pair or which operand is forgotten is not sampled.',
     [S + 'schemes/fv/'], [('algebra', S + 'schemes/fv/flux_based/algebraic_operators.hpp, cell_based/algebraic_operators.hpp, scheme_operators.hpp'),
      ('application', S + 'schemes/fv/explicit_FV_scheme.hpp, explicit_operator_sum.hpp, cell_based/explicit_cell_based_scheme.hpp, FV_scheme.hpp operator(), apply'), ('containers', S + 'schemes/fv/algebraic_array.hpp, utils.hpp mat_vec, eye, zeros')])

prop('C15', 'Set expressions enumerate exactly the cells they denote, each once',
     'Intersection, union and difference of cell sets, and of two or three nested, translated or empty operands, visit exactly the cells that belong to the combination, each once and as runs along x. '
     'Operands on different levels are compared on the finest of them; a coarser level asked for with on() first covers each operand with the coarse cells it meets, a finer one cuts the cells of the result. '
     'on(), enumerating again and apply_op do not change the set and operators receive the level asked for. contraction and expand of a block shrink and grow it by the given width on every side.',
     ['inputs', 'configurations'], 'one row with up to three runs and unknown bounds in every relative order, planes and boxes with every vertical order of up to three blocks, displacements, one or two levels apart; dimensions 1 to 3',
     'A cell lost or visited twice needs a particular order, parity or level difference of the bounds; tests have a handful of literal sets.',
     [S + 'subset/', S + 'list_of_intervals.hpp', S + 'algorithm.hpp'], [('algorithm', S + 'subset/subset_op_base.hpp apply, sub_apply, on, init; subset_node.hpp eval, update, decrement_dim, max, set_shift'),
      ('operators', S + 'subset/subset_op.hpp intersect_fn, union_fn, difference_fn'), ('operands', S + 'subset/node_op.hpp mesh_node, translate_op, contraction, expand; algorithm.hpp find_on_dim; list_of_intervals.hpp add_interval')])

prop('C16', 'Storage of cells: merged, sorted, searchable, numbered without gaps',
     'Adding intervals, points or cells in any order gives the union of them as sorted runs that do not touch. Arrays built from lists, boxes or set expressions contain exactly those cells; looking a cell up finds its run and a cell that is not there is not found. '
     'Numbering gives every cell of a level array, and of all levels of a cell array, its own storage index, contiguous from zero in the order of traversal; counts, minimum and maximum level, bounds, origin and scaling agree with the content. '
     'Iterators visit every run once, forwards and backwards and across empty levels, with the right row and level; equality compares levels and cells.',
     ['inputs', 'histories'], 'runs at unknown positions in every relative order (lists of three runs), rows in every insertion order, unknown row positions, one to three dimensions, up to five levels with gaps',
     'Tests insert a handful of literal intervals; a lost merge, a wrong offset or index needs a particular order of insertion, row pattern or empty level.',
     [S + 'list_of_intervals.hpp', S + 'level_cell_list.hpp', S + 'level_cell_array.hpp', S + 'cell_list.hpp', S + 'cell_array.hpp', S + 'algorithm.hpp'],
     [('lists', S + 'list_of_intervals.hpp add_interval, add_point; level_cell_list.hpp operator[], add_cell'), ('arrays', S + 'level_cell_array.hpp LevelCellArray(LevelCellList), init_from_box, update_index, get_index, get_cell, LevelCellArray_iterator; cell_array.hpp'), ('search', S + 'algorithm.hpp find, find_impl, my_binary_search')])

prop('C17', 'Traversals visit each level, interval and cell exactly once',
     'for_each_level, for_each_interval, for_each_meshinterval and for_each_cell, sequential or parallel, on a level array, a cell array, a mesh, a held mesh or a set expression call the function exactly once for each level, run or cell contained in it, '
     'and for nothing else, with its level, coordinates, length, origin and the storage index it has in the mesh; empty levels and empty arrays are skipped (levels on request included).',
     ['inputs', 'configurations'], 'arrays with several runs and rows at unknown positions on two levels with an empty one between, dimensions 1 to 3, all overloads',
     'A wrong storage index or a skipped row shows only for some overload, dimension or level pattern; tests use a few overloads on full boxes.',
     [S + 'algorithm.hpp', S + 'mesh_interval.hpp', S + 'mesh_holder.hpp'], [('traversals', S + 'algorithm.hpp for_each_level, for_each_interval, for_each_meshinterval, for_each_cell, parallel_for_each_cell'), ('iterators', S + 'level_cell_array.hpp LevelCellArray_iterator')])

prop('C19', 'A field gives access to the value of the right cell, on every access path',
     'Whatever the way a value of a field is reached -- by cell, by storage index, by level, interval (with any step) and transverse indices, for all components, one component or a range of them, mutable or const, interleaved or by component -- it is the value stored for exactly those cells, and writing changes these only. '
     'An interval that sticks out of the run it starts in is refused. Arithmetic expressions of fields are evaluated pointwise on exactly the cells of the mesh; copying and assigning fields copies mesh, values and boundary conditions, after which the two are independent. '
     'fill and make_field set every stored value, or the value of the function at each cell centre; iterators give each run of cells once in both directions; two fields are equal when their meshes are and no cell differs by more than 1e-15.',
     ['inputs', 'configurations'], 'rows at unknown positions on two levels, unknown values, dimensions 1 to 3, one to three components, both layouts',
     'Each access path, layout and dimension has its own code; tests touch few of them, with one level and unit steps.',
     [S + 'field.hpp', S + 'field_expression.hpp', S + 'mesh_holder.hpp'], [('access', S + 'field.hpp inner_field_types operator[], operator(), get_interval, resize'), ('expressions', S + 'field_expression.hpp, field.hpp operator=(field_expression)'), ('copies', S + 'field.hpp Field(const Field&), operator=, copy_bc_from, make_field, Field_iterator')])

prop('C21', 'Cell quadrature is exact to its degree; errors are volume-weighted',
     'The Gauss-Legendre rule asked for by polynomial degree (0 to 39) integrates every polynomial of that degree in each variable exactly over a cell of any position and size, in one to three dimensions, for scalar and vector functions; '
     'make_field with a quadrature stores the cell averages. L2_error is the root of the sum over the cells of the mesh of volume times squared difference to the exact solution at the centre, all components included, divided by the norm of the exact solution when relative; '
     'convergence_order and the error bounds follow their definitions.',
     ['inputs', 'configurations'], 'every rule of 1 to 20 points, all monomials up to its degree on a cell of unknown position and size; unknown values on cells of two levels with ghosts',
     'One wrong node or weight of one rule, or a wrong volume on one level, only shows for high degrees or non-uniform meshes; no test calls them.',
     [S + 'numeric/gauss_legendre.hpp', S + 'numeric/error.hpp', S + 'field.hpp'], [('rules', S + 'numeric/gauss_legendre.hpp quadrature, compute_quadrature_sum, init'), ('errors', S + 'numeric/error.hpp L2_error, convergence_order'), ('averages', S + 'field.hpp make_field(name, mesh, f, gl)')])

prop('C22', 'Values reconstructed on other levels are iterated predictions and averages',
     'The coefficients of a cell k levels finer are those of k successive predictions of the given order (tensor products in 2D and 3D), whatever was asked for before. portion sums them over the sub-cells asked for, for one component or all, on any interval. '
     'reconstruction gives on every cell of the domain the value of its leaf predicted to that level. transfer to another mesh copies the cells both have, averages finer cells over each coarser destination cell, and predicts coarser cells on finer destinations.',
     ['inputs', 'histories', 'configurations'], 'orders 1 to 3, one to three levels of difference, every sub-cell, unknown positions and values, dimensions 1 to 3, repeated calls with other arguments',
     'A wrong weight or a stale cached coefficient needs a certain level difference, parity or earlier call; tests only check constants or one level.',
     [S + 'reconstruction.hpp', S + 'numeric/prediction.hpp', S + 'utils.hpp'], [('coefficients', S + 'reconstruction.hpp prediction, prediction_map; numeric/prediction.hpp interp_coeffs'), ('portions', S + 'reconstruction.hpp portion, portion_impl'), ('fields', S + 'reconstruction.hpp reconstruction_op_, reconstruction, transfer')])

prop('C18', 'A mesh holds exactly the ghosts its leaves need, numbered consistently',
     'Given its leaves, a multiresolution mesh contains exactly: the leaves; all cells within the stencil width of a leaf on its level; for each of those not covered by finer leaves, and for each leaf two levels below, the cells its prediction needs; '
     'the periodic images of cells near a periodic boundary; and the children of every cell covered by finer leaves, which are then the projection cells. Union, subdomain and domain describe what the leaves cover. AMR and uniform meshes likewise follow their definitions. '
     'A cell has the same storage index in every sub-mesh and these number the reference mesh without gaps. Built from a box, a cell list or another mesh, all sub-meshes share its origin, scaling, level bounds and periodicity; swapping and scaling affect all of them.',
     ['inputs', 'configurations'], 'graduated and ungraduated patterns of up to three levels (holes, odd positions, jumps of two and three levels) at an unknown position, stencil widths 1 to 3, prediction orders 1 and 2, dimensions 1 to 3, periodic in any direction',
     'A ghost missing for one pattern of levels makes later reads touch other cells; tests build a few meshes and count cells.',
     [S + 'mesh.hpp', S + 'mr/mesh.hpp', S + 'amr/mesh.hpp', S + 'uniform_mesh.hpp'], [('base', S + 'mesh.hpp Mesh_base constructors, construct_subdomain, construct_union, renumbering, swap, set_origin_point, set_scaling_factor, nb_cells'), ('ghosts', S + 'mr/mesh.hpp update_sub_mesh_impl'), ('others', S + 'amr/mesh.hpp update_sub_mesh_impl, uniform_mesh.hpp')])

prop('C23', 'Graduation of a set of leaves is decided right and made minimally',
     'is_graduated says whether no leaf has, within the given star stencil of it on its level, a leaf two or more levels coarser. make_graduation replaces such coarse leaves by their children, again and again, until there is none: '
     'the covered region, the finest level, the origin and the scaling stay the same, no other leaf is split, and a graduated set is left alone.',
     ['inputs', 'configurations'], 'patterns of up to four levels, jumps of two and three levels on either side and in every direction, at an unknown position, stencil widths 1 and 2, dimensions 1 to 3',
     'A missed neighbour needs a certain jump, direction and parity; tests use one random mesh and only ask whether the result is graduated.',
     [S + 'graduation.hpp'], [('decision', S + 'graduation.hpp is_graduated'), ('construction', S + 'graduation.hpp make_graduation')])
