VN = 'abstract interpretation of the resolved AST into a merged value graph; obligations decided by normal form and identity testing of terms'
EFF = 'effect and call-order analysis over the resolved program'
NOTE = ('Decides the listed obligations for the functions and call contexts named in the evidence file, over real arithmetic; trusts the extractor (clang AST), '
        'the models of std/Kokkos/MPI/Exodus calls and the abstract interpreter. An obligation it cannot decide is reported UNDECIDED, not passed silently.')
U = 'src/'
PROPS = [
 dict(id='P01', title='Tensor algebra kernels equal their mathematical definitions',
  statement='Every closed-form operation on 3x3 tensors (products, transposed products, sums, scaling, symmetric and skew parts, norms, determinant, inverse, rotation into and out of a frame, polar decomposition, rotation logarithm, commutator series, cross product) returns its mathematical definition in the documented component order, for every input. It sets every component of its result on every branch and writes nothing else.',
  over=['inputs'], qtext='all tensor components for which the operation is defined',
  why='One unit test inverts one matrix; all other kernels and the rare branches (rotation by pi) are never reached.',
  files=['src/nimble_utils.h'], mech=[('tensor kernels', 'src/nimble_utils.h'), ('component order K_F_*/K_S_*', 'src/nimble_utils.h')],
  technique=VN, note=NOTE),
 dict(id='P02', title='Hexahedral element kernels equal the isoparametric definitions',
  statement='For the 8-node hexahedron the shape functions and their derivatives, the 2x2x2 quadrature rule, lumped mass, deformation gradient, internal nodal force, volume averages, tangent and characteristic length equal their isoparametric definitions for every nodal configuration, on the host entry points and on the Kokkos view entry points alike. Each kernel writes every component of its result and nothing else.',
  over=['inputs'], qtext='all nodal coordinates, displacements, stresses and densities',
  why='No unit test runs an element kernel.',
  files=['src/nimble_element.cc', 'src/nimble_element.h'], mech=[('HexElement kernels', 'src/nimble_element.cc'), ('Kokkos templates', 'src/nimble_element.h')],
  technique=VN, note=NOTE),
 dict(id='P03', title='Element blocks integrate every element with its own data',
  statement='For every block the host code initialises state and element data from the material, computes internal force (and the stress-only and lumped mass passes) and volume-averaged output by gathering, for each element, exactly the coordinates, displacements and old/new integration point data of that element, and by adding each result to exactly that element\'s nodes. Data labels, lengths and offsets of the element array agree between declaration, initialisation, material update and output. The critical time step is the smallest characteristic length, at the current coordinates, over the sound speed, and tangents are added at the global unknowns of the nodes.',
  over=['inputs'], qtext='all connectivities, nodal fields and integration point data',
  why='No unit test runs a block; a wrong offset shows only with several elements, points or state variables.',
  files=['src/nimble_block.cc', 'src/nimble_block.h', 'src/nimble_block_base.h', 'src/nimble_block_base.cc'], mech=[('Block', 'src/nimble_block.cc')],
  technique=VN, note=NOTE),
 dict(id='P04', title='Constitutive models return their defined stress and tangent',
  statement='The elastic and neo-Hookean materials return, at every integration point, exactly the stress (host arrays, host dispatch and Kokkos views) and the tangent their constitutive equations define for the deformation gradient and the parameters of the input deck. They read only the parameters they register, and write only the stress or tangent of the points they were asked for.',
  over=['inputs'], qtext='all deformation gradients with positive determinant and all parameter values',
  why='The unit tests construct a material on host and device but never compare a stress value.',
  files=['src/nimble_material.cc', 'src/nimble_material.h', 'src/nimble_material_factory.cc'], mech=[('ElasticMaterial, NeohookeanMaterial', 'src/nimble_material.cc')],
  technique=VN, note=NOTE),
 dict(id='P12', title='Labels, stored fields and requested output name the same component',
  statement='Component counts, component labels and the integration point prefix follow one convention, so each label names one stored component. Node and element fields are registered once, stored with their full length and found again by label or view; every requested output label is resolved, in the order requested, to exactly the requested nodal, integration point or derived components, and the array written under a label holds that component. Unknown labels are rejected.',
  over=['inputs'], qtext='all field kinds, dimensions, and the listed field sets and output requests, for all field values',
  why='No unit test requests output.',
  files=['src/nimble_model_data.cc', 'src/nimble_data_utils.cc'], mech=[('label functions', 'src/nimble_data_utils.cc'), ('ModelData field registry and output', 'src/nimble_model_data.cc')],
  technique=VN, note=NOTE),
 dict(id='P05', title='Explicit runs follow the central difference recurrence',
  statement='The explicit integrator advances displacement, velocity and acceleration by the central difference recurrence with constant step (final-initial)/steps, evaluates external, internal and contact force once per step on the new displacement with the old and new time, divides by the lumped mass of the node, applies the kinematic conditions with the times of the step after each velocity and displacement update, and commits material state once per step. Output is written at the initial time, at every requested interval and at the last step, with the fields of that time. A final time before the initial time is rejected on every rank.',
  over=['inputs', 'histories'], qtext='all initial fields, times, force, boundary condition and contact responses, for step counts up to 4 and output frequencies 0 to 3',
  why='No unit test runs a time step.',
  files=['src/integrators/explicit_time_integrator.cc'], mech=[('ExplicitTimeIntegrator::Integrate', 'src/integrators/explicit_time_integrator.cc')],
  technique=VN, note=NOTE),
 dict(id='P06', title='Boundary and initial conditions act on exactly their nodes and component',
  statement='Each condition of the input deck (initial velocity, prescribed velocity, prescribed displacement, traction; constant or expression) acts on exactly the nodes of its named set and exactly its coordinate direction, with the value of its expression at the reference position of the node and the time of the step; the later of two conditions on one component wins, and nothing else is changed. Constrained rows and columns of the residual and tangent are cleared and keep only the given diagonal. Malformed conditions are rejected and conditions on sets the mesh does not have do nothing.',
  over=['inputs'], qtext='all fields, coordinates, times and condition values, for the listed condition texts, node sets and dimensions',
  why='No unit test applies a boundary condition.',
  files=['src/nimble_boundary_condition_manager.h', 'src/nimble_boundary_condition_manager.cc', 'src/nimble_boundary_condition.cc'], mech=[('BoundaryConditionManager', 'src/nimble_boundary_condition_manager.h'), ('BoundaryCondition::Initialize', 'src/nimble_boundary_condition.cc')],
  technique=VN, note=NOTE),
 dict(id='P17', title='Expressions of the input deck mean what mathematics says',
  statement='An expression of x, y, z and t in the input deck (arithmetic, powers, comparisons, boolean operators, conditionals, the named functions and constants, nested and with any blanks) evaluates to its mathematical value for every position and time, with usual precedence and associativity, whichever operands the parser folds or specialises. A copied or assigned expression uses its own position and time. Text which is not an expression is rejected.',
  over=['inputs'], qtext='all values of x, y, z and t, for the enumerated expression texts: every operator with every mix of constant, variable and compound operands, every function, and nested samples',
  why='No unit test parses an expression.',
  files=['src/nimble_expression_parser.h', 'src/nimble_expression_parser.cc'], mech=[('ExpressionParsing', 'src/nimble_expression_parser.h')],
  technique=VN, note=NOTE),
 dict(id='P13', title='Device model data drives every block, element and output with its own data',
  statement='The model data of the executable registers every nodal field once, for all nodes, under its own identifier and label, and hands the integrator views of exactly the stored values. Internal force and lumped mass evaluate every element of every block from the reference coordinates, current displacement, old and new state, parameters and density of that element, add the results at exactly its nodes without data races, and reduce over ranks once; accepting a step copies new state to old and nothing else. Every requested output label of every block carries the nodal value, volume average, volume or integration point component it names.',
  over=['inputs', 'schedules'], qtext='all nodal fields, states, times and element and material responses, on a mesh of two unordered blocks sharing nodes, and all interleavings of the loop iterations',
  why='No unit test builds the model data; a wrong offset, stale buffer or unordered scatter shows only with several blocks or threads.',
  files=['src/nimble_kokkos_model_data.cc', 'src/nimble_kokkos_model_data.h', 'src/nimble_kokkos_block_material_interface.cc', 'src/nimble_data_manager.cc', 'src/nimble_model_data_base.cc'], mech=[('nimble_kokkos::ModelData', 'src/nimble_kokkos_model_data.cc'), ('BlockMaterialInterface::ComputeStress', 'src/nimble_kokkos_block_material_interface.cc'), ('DataManager::Initialize', 'src/nimble_data_manager.cc')],
  technique=VN, note=NOTE),
 dict(id='P10', title='The mesh of the run is the mesh of the file',
  statement='Reading an Exodus mesh (serial or one part of a decomposed one) yields exactly its nodes, coordinates, global ids, element blocks (including blocks without elements on this rank), connectivity, node sets and side sets with zero-based local indices, and every accessor of the mesh returns exactly that data. A failing library call or an unsupported or inconsistent file stops the run, and no call writes outside the memory it is given. The text mesh format is read into the same mesh.',
  over=['inputs', 'faults'], qtext='all mesh files with the given structure, ids, coordinates and connectivity arbitrary; a failure of each library call',
  why='No unit test reads a mesh; id maps, empty blocks, sets without distribution factors and library failures occur only with particular files.',
  files=['src/nimble_genesis_mesh.cc', 'src/nimble_genesis_mesh.h'], mech=[('GenesisMesh::ReadFile, ReadTextFile, Initialize and accessors', 'src/nimble_genesis_mesh.cc')],
  technique=VN + '; library calls checked against a model of the file', note=NOTE),
 dict(id='P11', title='Output databases hold the mesh and fields of the run',
  statement='The output database holds the mesh of the run (sizes, coordinates, one-based connectivity, ids and names of blocks and node sets), declares each output variable once under its label, and stores at each written step the time and every nodal and element array under the variable of its name on the entity it belongs to. A failing library call stops the run, and buffers are released exactly once by the matching operator.',
  over=['inputs', 'faults'], qtext='all meshes, fields and output times; a failure of each library call',
  why='No unit test writes a database; an exchanged variable index or offset shows only with several variables, blocks or sets.',
  files=['src/nimble_exodus_output.cc', 'src/nimble_exodus_output.h'], mech=[('ExodusOutput', 'src/nimble_exodus_output.cc')],
  technique=VN + '; library calls checked against a model of the database', note=NOTE),
 dict(id='P18', title='Deck lines, command line flags and file names mean what they say',
  statement='Each line of the input deck sets exactly the setting its key names to the value given, wherever comments, blank lines, blanks and tabs stand and however long a line is; settings not named keep their defaults, and unknown keys, disallowed values or a missing deck stop the run. Each command line flag turns on exactly the option it names, and flags, rank, size and input file reach the run. Mesh and output file names replace only the .g or .e extension of the file and carry size and zero-padded rank in parallel runs.',
  over=['inputs'], qtext='every key, its allowed and disallowed values, layouts of a line, flags, file names and ranks (enumerated)',
  why='No unit test reads a deck or the command line.',
  files=['src/nimble_parser.cc', 'src/nimble_parser.h', 'src/nimble_cli.cc', 'src/nimble.cc'], mech=[('Parser', 'src/nimble_parser.cc'), ('CommandLineConfiguration', 'src/nimble_cli.cc'), ('NimbleApplication::Run, InitializeSubsystems, MainLoop', 'src/nimble.cc')],
  technique=VN, note=NOTE),
 dict(id='P08', title='Quasistatic load steps end in equilibrium or report failure',
  statement='Each quasistatic load step applies the boundary conditions of its time, then repeats: solve the tangent system for the residual (minus the internal force at the unknowns, constrained entries cleared) and take the secant line search step or the full step, whichever leaves the smaller residual norm over all unknowns. It ends when the norm has fallen to the relative tolerance; a failed linear solve or a norm still above the tolerance after the allowed iterations ends the run with a nonzero status and without output of that step. Output is written at the initial time and at converged output steps, and parallel runs and a final time before the initial time are rejected.',
  over=['inputs', 'histories'], qtext='all displacement fields, internal forces, tangents and linear solutions (uninterpreted), node numberings, numbers of load steps, output intervals and iteration limits of the listed cases',
  why='No unit test runs the quasistatic integrator.',
  files=['src/integrators/quasistatic_time_integrator.cc'], mech=[('QuasistaticTimeIntegrator::Integrate, ComputeQuasistaticResidual', 'src/integrators/quasistatic_time_integrator.cc')],
  technique=VN, note=NOTE),
 dict(id='P09', title='The tangent matrix and its linear solve are exact',
  statement='The tangent matrix has one entry of its own for exactly the pairs of unknowns that share an element, and reading, setting and multiplying act on exactly those entries; an entry outside the structure stops the run. The linear solve is the conjugate gradient iteration preconditioned with the inverse diagonal: it stops when the preconditioned residual has fallen by the tolerance and reports failure when the iteration limit is reached. Inner products are summed over all ranks.',
  over=['inputs'], qtext='all matrix values, vectors and tolerances on the listed meshes, sparsity patterns and iteration limits',
  why='No unit test builds a sparse matrix or solves a system.',
  files=['src/nimble_linear_solver.cc', 'src/nimble_linear_solver.h', 'src/nimble_mesh_utils.cc'], mech=[('CRSMatrixContainer, MatrixContainer, CG_SolveSystem, PopulateDiagonalPreconditioner', 'src/nimble_linear_solver.cc'), ('DetermineTangentMatrixNonzeroStructure', 'src/nimble_mesh_utils.cc')],
  technique=VN, note=NOTE),
 dict(id='P22', title='A run starts and ends its subsystems in order and reports failure',
  statement='The process exits with the code of a rejected command line (without starting anything), zero after the help message, the status of the time integrator otherwise, and a nonzero status after any exception of the work. MPI, or the Tpetra scope instead, starts once and before Kokkos, the deck, the factories and the contact interface; Kokkos ends once after the work and before MPI. The mesh is read, the fields are made, the material factory of the application is given, the blocks and then the output are initialized, each once and in this order, before the integrator runs.',
  over=['inputs', 'crash points'], qtext='all command line outcomes, exceptions and integrator results; MPI and Tpetra runs, with and without contact, explicit and quasistatic',
  why='No unit test starts the application.',
  files=['src/nimble.cc', 'src/nimble_cli.cc', 'src/nimble_main.cc'], mech=[('NimbleApplication::Run, InitializeSubsystems, FinalizeSubsystems, MainLoop', 'src/nimble.cc'), ('CommandLineConfiguration::ParseAndGetErrorCode', 'src/nimble_cli.cc')],
  technique=EFF, note=NOTE),
 dict(id='P20', title='A material line of the deck makes exactly the material it describes',
  statement='A material line names a model and gives its parameters by name, in any order and with any blanks, tabs or quotes; the factory makes exactly the named model with exactly those values, on the host and, for the executable, as an equal copy on the device. Each block holds a material of its own, made from its own line for its own integration points, whatever was made before or is made after. A line with an unknown model or parameter, without one of the parameters, with a parameter without value or with a value which is no number stops the run.',
  over=['inputs', 'histories'], qtext='the listed lines and sequences of lines, any number of integration points, host and Kokkos factories and blocks',
  why='The unit tests build a few lines with one factory and never two materials.',
  files=['src/nimble_material_factory_base.cc', 'src/nimble_kokkos_material_factory.cc', 'src/nimble_parser_util.h', 'src/nimble_material.h'], mech=[('MaterialFactoryBase::ParseMaterialParametersString, tokenize_string, string_to_double', 'src/nimble_material_factory_base.cc'), ('MaterialFactory::create, allocate_material_on_host_and_device', 'src/nimble_kokkos_material_factory.cc'), ('MaterialParameters', 'src/nimble_material.h')],
  technique=VN, note=NOTE),
 dict(id='P15', title='Reductions over ranks sum every shared node exactly once per holder',
  statement='After a reduction every shared node has, on every rank holding it, the sum over exactly the ranks holding it, in every component, through arrays and accessors, with MPI or Tpetra, as often as it is repeated and in whatever order reductions complete; other nodes keep their value. The boundary nodes of a rank are exactly its shared nodes, each with the least rank holding it. All ranks make matching collective calls, and a field whose number of components is not supported (MPI: one to three; Tpetra: one or the dimension) is rejected.',
  over=['inputs', 'schedules', 'histories'], qtext='the listed distributions of nodes over one to five ranks and orders of completion, all field values, one to three components, repeated reductions',
  why='The unit tests run on one rank and never reduce anything.',
  files=['src/nimble.mpi.mpicontext.h', 'src/nimble.mpi.rank_clique_reducer.h', 'src/nimble.mpi.reduction.h', 'src/nimble.mpi.reduction.cc', 'src/nimble.mpi.reduction_utils.h', 'src/nimble.mpi.reduction_utils.cc', 'src/nimble_vector_communicator.h', 'src/nimble_tpetra_utils.h', 'src/nimble_tpetra_utils.cc'], mech=[('VectorCommunicator::Initialize, VectorReduction, GetPartitionBoundaryNodeLocalIds', 'src/nimble_vector_communicator.h'), ('ReductionInfo::PerformReduction', 'src/nimble.mpi.reduction.h'), ('GenerateReductionInfo', 'src/nimble.mpi.reduction.cc'), ('TpetraContainer::Initialize, VectorReduction', 'src/nimble_tpetra_utils.cc')],
  technique=VN, note=NOTE),
 dict(id='P14', title='Host model data drives every block and output with its own data',
  statement='The host model data stores every nodal field apart and starts it at zero, makes every block of the mesh once from its own deck line, and gives it its own elements, identifiers, labels and state arrays. Lumped mass and internal force hand every block exactly its connectivity, the current fields, the times and its own old and new state, sum the blocks and reduce once over ranks; the critical time step is the least of the blocks. Accepting a step makes the new state of every block the old one, each written step holds exactly the nodal, element and derived data its labels name at the given time, and initial and kinematic conditions act on the fields of the model with the times given.',
  over=['inputs', 'histories'], qtext='three blocks sharing nodes, one of them without elements, all field values, three output requests, three successive steps with stored and trial displacements',
  why='The unit tests never create blocks of the host model.',
  files=['src/nimble_model_data.cc', 'src/nimble_model_data.h', 'src/nimble_model_data_base.cc', 'src/nimble_model_data_base.h'], mech=[('ModelData::InitializeBlocks, ComputeLumpedMass, ComputeInternalForce, WriteExodusOutput', 'src/nimble_model_data.cc'), ('ModelData::UpdateStates', 'src/nimble_model_data.h'), ('ModelDataBase::ApplyKinematicConditions, SetReferenceCoordinates', 'src/nimble_model_data_base.cc')],
  technique=VN, note=NOTE),
 dict(id='P21', title='Contact surfaces are the skin of the blocks the contact command names',
  statement='The contact command names primary blocks, secondary blocks and a penalty in this order, with the old or the new keywords, and a command that lacks one of them is rejected. The contact faces are the faces of the named blocks that belong to one element over all ranks, found once each with their outward node order; every primary face gives four triangles around its centre and every secondary node gives one node entity on exactly one rank, with the identifiers, coordinates, node numbers and longest edges of the mesh. The contact submodel holds exactly the nodes of these faces, undeformed and without forces, on the host and on the device.',
  over=['inputs'], qtext='the listed commands; bars of hexahedra in every orientation cut into one to four partitions, all coordinates; one, two and three ranks with shared nodes and ranks without contact',
  why='The unit tests check projections onto given faces and never create contact surfaces.',
  files=['src/nimble_contact_manager.cc', 'src/nimble_contact_manager.h', 'src/nimble_contact_entity.h'], mech=[('ParseContactCommand, ContactManager::SkinBlocks, RemoveInternalSkinFaces, CreateContactEntities, CreateContactNodesAndFaces', 'src/nimble_contact_manager.cc'), ('ContactEntity constructors', 'src/nimble_contact_entity.h')],
  technique=VN, note=NOTE),
 dict(id='P23', title='Contact pushes a node and the face it pierces apart with opposite forces',
  statement='A node counts as in contact with a triangular face when its projection on the plane of the face lies in the triangle and it is behind the face by less than the length of the face; the projection gives the barycentric coordinates, the signed distance and the unit normal. The contact force is the penalty times the depth, pushes the node out along the normal, and acts with the opposite sign on the face, spread by the barycentric coordinates over two nodes and, in four equal parts, over the corners around the centre, so that the forces of a pair sum to zero. A contact step moves coordinates, centre and bounding box of every surface entity with the displacements, clears the former forces, enforces with the penalty of the deck (which must be positive), and hands the force of every node to the model once, summed over ranks.',
  over=['inputs', 'histories'], qtext='all positions, forces and penalties for the listed triangles and node numberings; surfaces of one and two ranks, all displacements',
  why='The unit tests project a few points onto one triangle and never compute a force.',
  files=['src/nimble_contact_manager.cc', 'src/nimble_contact_manager.h', 'src/nimble_contact_entity.cc', 'src/nimble_contact_entity.h', 'src/nimble_contact_interface.h'], mech=[('ContactManager::Projection, ClosestPointProjection, ApplyDisplacements, GetForces, ComputeContactForce', 'src/nimble_contact_manager.cc'), ('PenaltyContactEnforcement, KokkosPenaltyContactEnforcement, ContactInterface', 'src/nimble_contact_interface.h'), ('ContactEntity', 'src/nimble_contact_entity.h')],
  technique=VN, note=NOTE),
 dict(id='P24', title='Contact visualization shows the surfaces and contacts as they are',
  statement='When the deck asks for contact visualization, a database of its own is made for the contact surfaces: a block contact_faces with one triangle for every contact face of the rank and a block contact_nodes with a one-node element for every contact node, with their coordinates; element identifiers are those of the contact entities, a contact node keeps the Exodus identifier of its mesh node, and no node or element identifier occurs twice over all ranks. With every written output of the model a frame is added that holds its time, the number of faces of the rank in contact, and for every node of the surfaces the displacement from its first position and whether its entity is in contact. A rank without contact surfaces writes a valid database as well.',
  over=['inputs', 'histories'], qtext='all coordinates; the listed surfaces over one to three ranks, three frames with changing positions and contacts',
  why='The unit tests write no file.',
  files=['src/nimble_contact_manager.cc', 'src/nimble_contact_manager.h', 'src/nimble_genesis_mesh.cc', 'src/nimble_exodus_output.cc', 'src/integrators/explicit_time_integrator.cc'], mech=[('ContactManager::InitializeContactVisualization, ContactVisualizationWriteStep, WriteVisualizationData', 'src/nimble_contact_manager.cc'), ('GenesisMesh::Initialize', 'src/nimble_genesis_mesh.cc'), ('ExodusOutput::InitializeDatabase, WriteStep', 'src/nimble_exodus_output.cc')],
  technique=VN, note=NOTE),
]
NA = []
