#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property statements)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))
F='fastvpinns/FE/'
bases=[F+'basis_2d_QN_Legendre.py',F+'basis_2d_QN_Legendre_Special.py',F+'basis_2d_QN_Chebyshev_2.py',F+'basis_2d_QN_Jacobi.py']
add('C01','Derivative tables are the exact derivatives of the value table',
 'For each supported test-function family (legendre, jacobi, legendre_special, chebyshev_2, jacobi_plain), each order and each set of reference points, the x, y, xx, xy and yy derivative tables a basis function object returns are the exact partial derivatives, row for row and point for point, of the value table the same object returns. Every table has one row per test function and one column per point.',
 ['inputs','configurations'],'every family, every order n >= 1 (n*n test functions), every row, every point (xi, eta)',
 'The unit tests compare finite-difference-free reference values for a few orders and points; the recurrences have branches that depend on the index of the polynomial, so a wrong branch beyond the sampled orders or a wrong row is not seen.',
 bases,[('value/gradx/grady/gradxx/gradxy/gradyy','fastvpinns/FE/basis_2d_QN_*.py'),('dtest_fcn / ddtest_fcn recurrences','fastvpinns/FE/basis_2d_QN_*.py')],observe=['basis.value','basis.gradx','basis.gradyy'])
add('C02','Test functions are the documented tensor-product family',
 'With n the polynomial order, a basis has n*n test functions and test function number i*n+j (counting i and j from 0) has the value phi_{i+1}(xi)*phi_{j+1}(eta), where phi_k is P_{k+1}-P_{k-1} for legendre, jacobi and legendre_special, T_{k+1}-T_{k-1} for chebyshev_2 and P_{k-1} for jacobi_plain (P Legendre, T Chebyshev polynomials). Consequently every test function of the first four families vanishes on the whole boundary of the reference square. The fe_type a user names selects exactly that family.',
 ['inputs','configurations'],'every fe_type, every order, every test function index, every point of the reference square',
 'Tests check shapes and a handful of numeric values at fixed orders; they cannot rule out a wrong numbering, a wrong family for some order, or a function that fails to vanish at the boundary for an untested index.',
 bases+[F+'fe2d_setup_main.py',F+'basis_function_2d.py'],[('test_fcnx/test_fcny and row-block assembly in value','fastvpinns/FE/basis_2d_QN_*.py'),('assign_basis_function','fastvpinns/FE/fe2d_setup_main.py')],observe=['basis.value'])
add('C03','Quadrature rules pair every node with its own weight on a tensor grid',
 'For every admissible quadrature order Q and both quadrature types the rule has Q*Q points, and the sum over the points of weight*f(xi)*g(eta) equals the product of the two one-dimensional rule sums for every f and g. The one-dimensional rule is the Q-point Gauss-Legendre rule for gauss-legendre, and for gauss-jacobi the Q-point Gauss-Lobatto-Legendre rule (nodes -1, 1 and the zeros of P\'_{Q-1}), so polynomials up to degree 2Q-1 and 2Q-3 respectively are integrated exactly in each direction.',
 ['inputs','configurations'],'every order Q >= 3 the setup accepts, both quadrature types, all functions f, g',
 'Tests integrate a few polynomials at a few orders; a rule whose points and weights are mispaired is still exact for symmetric integrands, and errors that appear only at some order are not sampled.',
 [F+'quadratureformulas_quad2d.py',F+'quadratureformulas.py',F+'fe2d_setup_main.py'],[('node and weight tensor product','fastvpinns/FE/quadratureformulas_quad2d.py'),('assign_quadrature_rules','fastvpinns/FE/fe2d_setup_main.py')],observe=['get_quad_values','get_num_quad_points'])
add('C04','Reference-to-physical maps, Jacobians and derivative transforms are consistent',
 'For every quadrilateral the bilinear map sends the four reference corners to the four cell vertices in order, and for every parallelogram the affine map does; the returned Jacobian is the absolute value of the determinant of that map\'s derivative at the given reference point. The first derivatives the transformation returns satisfy the chain rule with that map for every pair of reference gradients at every non-degenerate point, whatever the orientation of the cell, and the affine second derivatives (xx, xy, yy) do so too.',
 ['inputs'],'all vertex coordinates (either orientation, any size), all reference points, all reference derivative tables, both transformation types; for second derivatives the affine one (the bilinear one is listed as a known finding)',
 'Tests use a few unit or axis-aligned cells where off-diagonal and mixed terms vanish or coincide; the identities must hold for every cell shape.',
 [F+'quad_affine.py',F+'quad_bilinear.py',F+'fe_transformation_2d.py'],[('set_cell/get_original_from_ref/get_jacobian','fastvpinns/FE/quad_affine.py, quad_bilinear.py'),('get_orig_from_ref_derivative and second derivative','fastvpinns/FE/quad_affine.py, quad_bilinear.py')],observe=['get_jacobian','get_original_from_ref','get_orig_from_ref_derivative'])
add('C05','Assembled cell tables are test-function quantities times weight times Jacobian',
 'For every cell, order, family, quadrature rule and transformation, column q of the value, first- and second-derivative tables a finite element cell stores is the physical-space quantity at quadrature point q times quadrature weight q times the absolute Jacobian at point q, and the reference-gradient tables hold the unscaled reference derivatives. The stored quadrature coordinates are the images of the reference quadrature points in the same order, and the stored multipliers are exactly weight times Jacobian.',
 ['inputs','configurations'],'every cell geometry, every supported combination of family, quadrature type and transformation, every order, every test function and quadrature point',
 'Tests cover a few cells with constant Jacobian; on those a missing, doubled or mis-broadcast Jacobian factor or a permuted point order cannot be told apart from the right one.',
 [F+'FE2D_Cell.py',F+'fe2d_setup_main.py',F+'quad_affine.py',F+'quad_bilinear.py'],[('assign_basis_values_at_quadrature_points','fastvpinns/FE/FE2D_Cell.py'),('assign_quad_weights_and_jacobian','fastvpinns/FE/FE2D_Cell.py'),('assign_quadrature_coordinates','fastvpinns/FE/FE2D_Cell.py')],
 state=[dict(name='mult',meaning='weight times |J| per quadrature point',where='fastvpinns/FE/FE2D_Cell.py')],observe=['basis_at_quad','basis_gradx_at_quad','quad_actual_coordinates'])
add('C06','The load vector is the quadrature integral of source times test function',
 'For every cell and every source function the forcing value of test function i is the sum over the quadrature points of the cell\'s assembled value table entry (i, q) times the source evaluated at the physical quadrature point q, as a column with one row per test function. The vector-valued variant returns the same integral of the requested component of the source.',
 ['inputs'],'every source function, every mesh, every cell index in range, every component, all orders',
 'Tests use a few closed-form sources on a few meshes; sources that are constant or symmetric hide swapped coordinates, wrong cells and truncated sums.',
 [F+'fespace2d.py'],[('get_forcing_function_values','fastvpinns/FE/fespace2d.py'),('get_forcing_function_values_vector','fastvpinns/FE/fespace2d.py')],observe=['get_forcing_function_values','get_forcing_function_values_vector'])
add('C07','Space accessors return the right cell\'s data, isolated from callers',
 'Accessor calls with index i return the table assembled from the i-th cell passed in, for values, gradients, reference gradients, quadrature coordinates, weights and forcing; an index below 0 or at least the number of cells raises ValueError. A returned array is a private copy: whatever the caller writes into it, and whatever accessors are called in whatever order, later calls return the same data. The reported totals equal cells times quadrature points.',
 ['inputs','histories'],'every mesh, every integer index including negative ones, every sequence of accessor calls and caller writes',
 'Tests call each accessor once with a few indices; isolation and index correctness must hold for every index and after every sequence of calls.',
 [F+'fespace2d.py',F+'fespace.py'],[('set_finite_elements','fastvpinns/FE/fespace2d.py'),('range checks and .copy() in the accessors','fastvpinns/FE/fespace2d.py')],state=[dict(name='fe_cell',meaning='per-cell finite elements, fe_cell[i] built from cells[i]',where='fastvpinns/FE/fespace2d.py')],observe=['get_shape_function_val','get_quadrature_weights'])
add('C08','Dirichlet data pair every boundary point with its own boundary value',
 'The Dirichlet data of a finite element space contain every point of every boundary tag exactly once, in the order of the boundary dictionary, each paired with the value of that tag\'s boundary function at that point\'s (x, y). The component variant pairs the same points with the requested component, and the reported number of Dirichlet points is the number of pairs.',
 ['inputs'],'every number of tags, every number of points per tag, all boundary functions, every component',
 'Tests use one or four tags with constant boundary functions, for which mixing up points, tags or coordinates is invisible.',
 [F+'fespace2d.py','fastvpinns/data/datahandler2d.py'],[('generate_dirichlet_boundary_data','fastvpinns/FE/fespace2d.py'),('generate_dirichlet_boundary_data_vector','fastvpinns/FE/fespace2d.py')],observe=['generate_dirichlet_boundary_data'])
G='fastvpinns/Geometry/geometry_2d.py'
add('C09','The generated mesh tiles the rectangle; boundary points lie on their sides',
 'For every non-degenerate rectangle and all cell counts the generated mesh has n_cells_x*n_cells_y cells that are exactly the cells of the uniform grid, each stored once with its four corners in anticlockwise order starting at the lower left, and the mesh object lists the same cells. The boundary dictionary has the tags 1000 (bottom), 1001 (right), 1002 (top) and 1003 (left), each with a quarter (rounded down) of the requested points, all lying on that side of the rectangle.',
 ['inputs'],'all limits with x_min < x_max and y_min < y_max, all cell counts >= 1, all boundary point counts, every outcome of the random sampling',
 'Tests check counts and shapes for small square grids; position, orientation, index order for unequal cell counts and the placement of random boundary points are not settled.',
 [G],[('generate_quad_mesh_internal','fastvpinns/Geometry/geometry_2d.py')],observe=['generate_quad_mesh_internal','Geometry_2D.mesh'])
add('C10','An external mesh is read without losing, moving or mistagging anything',
 'For every quadrilateral .mesh file the returned cells are, in file order, the cells of the file with each cell\'s vertices (x and y) rearranged anticlockwise, none changed or dropped. Every returned boundary point of a tag lies on a boundary edge carrying that tag, with both sampling methods; with uniform sampling every edge contributes its 2^r+1 equally spaced points including both end points, without duplicates within a tag. Files with another extension and unknown sampling methods raise ValueError.',
 ['inputs','configurations'],'every mesh (any number of cells, edges, tags, any block order), every refinement level r >= 0, both sampling methods, every outcome of the random sampling',
 'Tests read one circle mesh with one tag and check shapes; multiple tags, other vertex orders and off-edge samples are never looked at.',
 [G],[('read_mesh','fastvpinns/Geometry/geometry_2d.py')],observe=['read_mesh'])
add('C11','Training tensors keep every cell, test function and quadrature point in place',
 'In the data handler\'s tensors entry (c, t, q) of the value and gradient stacks is the cell-c table entry (t, q), row c*Q+q of the input tensor is the physical quadrature point q of cell c, and entry (t, c) of the forcing matrix is the forcing of test function t on cell c, so all tensors agree on the numbering. Dirichlet inputs and values, sensor data, test points and parameter dictionaries are converted without reordering, with columns as column vectors. Every tensor has the requested dtype, and a dtype that is not a tensorflow dtype raises TypeError.',
 ['inputs','configurations'],'every finite element space (any number of cells, test functions, quadrature points), every dtype, every parameter dictionary',
 'Tests compare tensor shapes for two small meshes; any permutation of equal-sized axes keeps every shape.',
 ['fastvpinns/data/datahandler2d.py','fastvpinns/data/datahandler.py'],[('DataHandler2D.__init__ stack/concat/reshape','fastvpinns/data/datahandler2d.py'),('get_dirichlet_input/get_sensor_data/get_bilinear_params_dict_as_tensors','fastvpinns/data/datahandler2d.py')],observe=['shape_val_mat_list','x_pde_list','forcing_function_list'])
ph=['fastvpinns/physics/'+f for f in ('poisson2d.py','helmholtz2d.py','cd2d.py','poisson2d_inverse.py','cd2d_inverse.py','cd2d_inverse_domain.py')]
add('C12','Each loss is the mean squared weak-form residual of its equation, per cell',
 'For all inputs the loss of cell c is the mean over the test functions of the square of the discrete weak residual: eps*(Gx.ux+Gy.uy) [poisson], -eps*(Gx.ux+Gy.uy)+k^2*V.u [helmholtz, the code\'s documented sign of eps included], eps*(Gx.ux+Gy.uy)+b_x*V.ux+b_y*V.uy+c*V.u [convection-diffusion], minus the forcing, where V, Gx, Gy are the cell\'s assembled tables and u, ux, uy the network values at the cell\'s quadrature points. In the inverse variants the unknown coefficient is the trained parameter (poisson and convection-diffusion: the dictionary entry eps; domain variant: the predicted field at each quadrature point multiplying the gradient). Every loss accepts exactly the keyword arguments with which the matching model calls it.',
 ['inputs'],'all tensors, all numbers of cells, test functions and quadrature points, all coefficients',
 'Tests never call the loss functions with data for which a swapped axis, sign, coefficient or missing term shows; integration tests only check that training error falls below a loose bound.',
 ph,[('pde_loss_*','fastvpinns/physics/*.py'),('keyword call in train_step','fastvpinns/model/*.py')],observe=['pde_loss_* return value'])
ms=['fastvpinns/model/'+f for f in ('model.py','model_hard.py','model_inverse.py','model_inverse_domain.py')]
add('C13','A training step descends the documented total loss of the current network',
 'In each of the four models the losses a training step reports are: loss_pde, the sum over the cells of the supplied loss function applied to the assembled tables, the forcing, the parameters and the network\'s values and exact x and y derivatives at the quadrature points of the matching cell; loss_dirichlet, the mean squared difference between the network and the boundary values at the boundary points (0 with hard constraints); and, for inverse models, sensor_loss, likewise at the sensor points. The total is loss_pde + beta*loss_dirichlet (+ 10*sensor_loss), and the step applies the gradient of exactly this total with respect to every trainable variable, inverse parameters included, to that same variable.',
 ['inputs','histories'],'every network function, every data set, every beta, any number of cells and quadrature points, every step of a training history',
 'Integration tests train for thousands of steps and accept loose errors; a term computed outside the gradient tape, a wrong reshape or a dropped trainable variable still trains well enough on the sampled problems.',
 ms,[('train_step','fastvpinns/model/*.py')],observe=['train_step return value','trainable variables after a step'])
add('C14','The network, its hard constraint and its learning rate are the configured ones',
 'For every layer_dims the model is the composition of one dense layer per hidden size with the given activation followed by one dense output layer without activation, all in the requested dtype, applied to its input in order; with hard constraints the prediction is the constraint function applied to the input and to that network\'s output. The optimizer is Adam with the constant initial learning rate, or, when the scheduler is enabled, exponential decay with the configured steps, rate and staircase flag. A dtype that is not a tensorflow dtype raises TypeError.',
 ['inputs','configurations'],'every list of layer sizes, activation, dtype, learning-rate dictionary, constraint function and input, in each of the four models',
 'Tests build one or two architectures; the wiring must be right for every list of layers and every option.',
 ms,[('layer construction in __init__','fastvpinns/model/*.py'),('call','fastvpinns/model/*.py')],observe=['model(x)','model.optimizer.learning_rate'])
add('C15','Error metrics equal their definitions',
 'For all pairs of equally sized exact and approximate solution arrays, the l1, l2 and linf errors are the mean absolute, root-mean-square and maximum absolute difference over all entries, the relative versions divide by the same norm of the exact solution, and the combined function returns (l2, linf, l2 relative, linf relative, l1, l1 relative). The result does not depend on the shapes ((N,), (N,1), ...) in which the two arrays are supplied.',
 ['inputs'],'all array contents, lengths >= 1 and shapes; nonzero exact solution for the relative versions',
 'Tests use one pair of short arrays and compare to numbers; broadcasting errors between (N,) and (N,1) inputs and wrong norms for other data are not covered.',
 ['fastvpinns/utils/compute_utils.py'],[('compute_*_error','fastvpinns/utils/compute_utils.py')],observe=['compute_errors_combined'])
add('C16','Only supported discretisation options are accepted',
 'Building a finite element cell or space succeeds for the documented options and raises ValueError for every other cell type, fe_type, quadrature type and transformation type, for a polynomial order outside 2..999 and for a quadrature order outside 3..9999; a triangle mesh is rejected by the space. A geometry accepts only the mesh generation methods internal and external and the mesh type quadrilateral, otherwise ValueError.',
 ['inputs','configurations'],'every string option and every integer order',
 'Tests try one or two invalid values per option; silent acceptance of some other value cannot be excluded by samples.',
 [F+'fe2d_setup_main.py',F+'FE2D_Cell.py',F+'fespace2d.py',F+'quadratureformulas_quad2d.py',G],[('assign_basis_function/assign_quadrature_rules/assign_fe_transformation','fastvpinns/FE/fe2d_setup_main.py'),('Geometry_2D.__init__','fastvpinns/Geometry/geometry_2d.py')],observe=['ValueError'])
add('C17','Sensor data pair each sampled location with the solution there',
 'For analytical sensor data every one of the requested number of points lies in the bounding box of the mesh and is paired with the exact solution at exactly that point. For sensor data from a file every returned (point, value) pair is one row of the file (first three columns), and the requested number of rows is returned. The data handler hands both out as an (N, 2) and an (N, 1) tensor in the same order.',
 ['inputs','configurations'],'every solution function, every mesh, every number of points, every file, every outcome of the random sampling',
 'Tests check the shapes of one sample; pairing must hold for every random draw.',
 [F+'fespace2d.py','fastvpinns/data/datahandler2d.py'],[('get_sensor_data','fastvpinns/FE/fespace2d.py'),('get_sensor_data_external','fastvpinns/FE/fespace2d.py')],observe=['get_sensor_data','get_sensor_data_external'])
add('C18','Test points and solution files keep points and values aligned',
 'For a generated mesh the test points are the n_test_points_x by n_test_points_y uniform grid of the rectangle including its corners, each once, with x varying fastest; for an external mesh they are the (x, y) of the mesh points in file order. A solution file consists of the mesh part of the stored VTK file up to its point-data line followed, for every solution column in order, by a scalar block with that column\'s name and all its values in order; a mismatch between columns and names raises ValueError.',
 ['inputs'],'all limits and point counts, all meshes, all solution arrays and name lists',
 'Tests check the existence and shape of one output; order, naming and completeness must hold for every solution.',
 [G],[('get_test_points','fastvpinns/Geometry/geometry_2d.py'),('write_vtk','fastvpinns/Geometry/geometry_2d.py')],observe=['get_test_points','written file'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P), max(len(p['title']) for p in P))
