#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","An equation means exactly what its text says",
 "For every set of equations written in the documented text form (signed sums of products of constants, fields and registered functions with powers, and a Laplacian raised to a power applied to a product), the rate of change used for the field named on the left-hand side equals the value of the right-hand side as written, for any choice of names, any order of factors, terms and equations, and any whitespace. A name that is a fragment of another name never changes the meaning. Text that refers to an unknown name is rejected, never silently dropped or reinterpreted. A name that starts with an operator of the text form (-, * or LAP) is refused when it is registered; every other name is accepted.",
 ["programs","inputs","configurations"],"All models of up to 3 fields, 3 constants, 2 functions and 3 equations of up to 4 terms of up to 4 factors, over adversarial name sets, on arbitrary 2D/3D grids and data.",
 "The tests parse about twenty hand-written strings with well separated names; the meaning depends on the whole combination of names, order and powers.",
 ["pf/model.go","pf/rhsBuilder.go","pf/util.go","pf/diffOp.go"],
 [("equation parser","pf/rhsBuilder.go Build/ConcreteTerm/isBilinear"),("derived products","pf/model.go UpdateDerivedFields"),("factor handling","pf/util.go GetNonLinearFieldExpressions/SplitOnMany/SortFactors")],
 ["Model.GetRHS/GetDenum after Model.Init","fields after one solver step"])

p("C02","Only terms linear in the own field are implicit; all others explicit",
 "A term is treated implicitly exactly when it is the equation's own field to the first power times constants and Laplacians, or comes from a term registered as implicit or from the linear part of a mixed term; every other term is treated explicitly, and the two parts together always give the whole right-hand side. A term registered as implicit whose value changes when a field changes is refused at initialisation, and one that does not depend on any field is accepted.",
 ["programs","inputs"],"All equations of C01's grammar plus registered implicit, explicit and mixed terms in every sign/Laplacian combination, and all registered-term bodies that do or do not read a field.",
 "Tests contain two acceptance examples and a few classification strings; a misclassified term changes only the stability or accuracy of particular equations.",
 ["pf/rhsBuilder.go","pf/model.go","pf/userDefinedTerm.go"],
 [("classification","pf/rhsBuilder.go Build, isBilinear"),("init-time validation","pf/model.go Init; pf/userDefinedTerm.go isImplicit")],
 ["Model.GetRHS, Model.GetDenum","panic at Model.Init"])

p("C03","Derived quantities are per-name and recomputed from the current fields",
 "Every named quantity of a model (field, constant, product of fields, registered function, registered derived field) refers to its own data and no other, however many are registered and in whatever order. Whenever a right-hand side is evaluated, at every step and every intermediate stage, all derived quantities have been recomputed exactly once from the field values of that same instant.",
 ["histories","programs","configurations"],"All registration orders of up to 3 fields, functions, derived fields and terms carrying derived fields, and all runs of up to several steps with every stepper.",
 "Tests register one derived field at a time and inspect a single evaluation; staleness and aliasing appear only with several quantities or after several steps or stages.",
 ["pf/model.go","pf/euler.go","pf/rk4.go","pf/implicitEuler.go","pf/sdd.go"],
 [("registration","pf/model.go registerDerivedFields, RegisterDerivedField, RegisterFunction"),("refresh","pf/model.go SyncDerivedFields and its calls in the steppers")],
 ["values read through the bricks map inside user terms and functions","fields after each step"])

p("C04","A semi-implicit Euler step advances all fields from the same instant",
 "One step of the default scheme replaces every Fourier mode of every field by (y + dt*N)/(1 - dt*A), where N and A, for all fields alike, are evaluated from the fields, the derived quantities and the time at the beginning of the step, and a modal filter, when set, multiplies each mode once after that update. The result does not depend on the order in which the fields were added. The Vandeven filter of order p that comes with the library is 1 minus the normalised integral of (t(1-t))^(p-1) from 0 to x (0 beyond x = 1).",
 ["inputs","programs","histories"],"All coupled models of up to 3 fields, all grids, time steps, field orders and numbers of steps.",
 "Tests step one field, or two uncoupled ones; a coupling error needs two fields that feed each other.",
 ["pf/euler.go","pf/model.go","pf/util.go"],
 [("step","pf/euler.go Step"),("filter","pf/util.go ApplyModalFilter; pf/vandeven.go")],["fields after each step"])

p("C05","A Runge-Kutta step is the documented four-stage scheme in space and time",
 "One step of the fourth-order scheme combines four evaluations of the explicit part with weights 1/6, 1/3, 1/3, 1/6, taken at the start, twice at half a step and once at the full step (in the fields and in the time alike), with the implicit part divided out at every stage over that stage's fraction of the step. All fields advance from the same instant.",
 ["inputs","programs","histories"],"All coupled models of up to 3 fields with implicit parts, sources depending on time, all grids, time steps and numbers of steps.",
 "Tests use one space-independent field; stage times, stage coupling and stage-wise refresh cannot be seen there.",
 ["pf/rk4.go","pf/model.go"],[("stages","pf/rk4.go Step, firstCorrection, correction, PrepareNextCorrection")],["fields after each step","the time argument passed to user terms and sources"])

p("C06","Simulated time is the number of completed steps times dt for every scheme",
 "After n steps every time-stepping scheme reports the time n*dt (plus the time it was started at), however the steps were grouped into calls and epochs, and everything evaluated during or after a step (time dependent sources, user terms, end-of-step notifications, dimer length) is given the time that belongs to it. Asking a solver for zero steps changes neither time nor fields.",
 ["histories","configurations"],"All groupings of steps into propagate/solve calls for the Euler, Runge-Kutta, fully implicit and shrinking-dimer schemes, including starts from a nonzero step.",
 "A test checks the clock of one scheme through one entry point; the combination scheme x entry point is not covered.",
 ["pf/euler.go","pf/rk4.go","pf/implicitEuler.go","pf/sdd.go","pf/solver.go","pf/sourceTerm.go"],
 [("clock","CurrentStep/GetTime of each stepper"),("solver loop","pf/solver.go Propagate")],["TimeStepper.GetTime","time arguments seen by sources, terms and notifications"])

p("C07","The solver runs steps, notifications, callbacks and monitors in the stated order",
 "Solving E epochs of S steps performs exactly E*S steps; after every single step each registered term is notified exactly once with the time after the step and the new real-space fields; after every epoch all callbacks run once in the order they were added with the epoch number offset by the configured start epoch, and then every monitor records exactly one value per epoch; the JSON export of the monitors holds exactly these recorded values. Nothing runs before its epoch's steps are complete, and repeated calls continue where the previous one stopped.",
 ["histories","configurations"],"All sequences of solve/propagate calls with any number of callbacks, monitors and registered terms, for every scheme.",
 "Tests count one callback or one monitor in one call sequence; order, offset and exactly-once over arbitrary call histories are not checked.",
 ["pf/solver.go","pf/monitor.go"],[("orchestration","pf/solver.go Solve, Propagate"),("monitor","pf/monitor.go PointMonitor.Add")],
 ["callback/monitor/notification invocations"])

p("C08","Sources and right-hand-side modifiers act on their own equation only, in order",
 "A point source adds its strength at the current time at its position (as the Fourier transform of a delta at that position) to the equation it was attached to and to no other; several sources add up. Right-hand-side modifiers registered for an equation are applied to that equation's complete explicit right-hand side (terms and sources) in the order they were registered, and never to another equation.",
 ["programs","configurations"],"All attachments of up to 3 sources and 3 modifiers to up to 3 equations, interleaved with equation registration, at all positions.",
 "Tests attach one source and one or two modifiers to one equation.",
 ["pf/model.go","pf/sourceTerm.go"],[("assembly","pf/model.go GetRHS, AddSource, RegisterRHSModifier"),("source","pf/sourceTerm.go Eval")],["Model.GetRHS","fields after a step"])

p("C09","The database returns exactly what each simulation stored, and nothing else",
 "Loading a stored time step of a simulation returns exactly the real parts of the fields that simulation saved for that step, in name order, whatever other simulations, time steps, comments, attributes or time series were written before, between or after, through the same or other handles, and after reopening the file; loading the last step returns the largest stored step. Attributes, text attributes, comments and time series are likewise kept per simulation. A handle whose domain size differs from the stored one is refused and leaves the stored data unchanged.",
 ["histories","configurations"],"All interleavings of save, comment, attribute, time-series, load and reopen operations by up to 3 simulations on one file.",
 "Tests write one or two simulations in one fixed order.",
 ["pf/database.go"],[("simulation id tagging","pf/database.go initialize, insertRealPart"),("queries","pf/database.go Load, LoadLast, domainSizeOk")],
 ["FieldDB.Load/LoadLast","tables of the SQLite file"],[("rows of fields/attributes/comments/timeseries","what was stored per simulation","SQLite file")])

p("C10","Stored field rows refer to the grid position they belong to",
 "In a database file every stored field value is attached, through the position identifier documented as node number, to the grid coordinates of the node it was computed at, for every 2D and 3D domain shape. The position table describes every node exactly once, numbered from zero, and is never duplicated or altered by later saves or simulations.",
 ["configurations","histories"],"All domain shapes up to 5 nodes per side in 2D and 3D and all save histories of up to 3 simulations.",
 "Tests list the positions of one cubic domain without joining them to the values.",
 ["pf/database.go","pfutil/indexPositionConversion.go"],[("position table","pf/database.go populatePositionsTable, positionTableIsPopulated")],["join of the fields and positions tables"])

p("C11","Command line database views show the stored data and only that",
 "The command line commands on a database (listing simulations and comments newest first, showing or replacing a comment, listing attributes, showing creation times, summarising, exporting time series and field data) show or write exactly the data stored for the requested simulation, step or name, with no value taken from another simulation and none lost or invented, for every database content. The only command that changes the database is replacing a comment, and it changes only that simulation's comment.",
 ["histories","inputs"],"All database contents reachable by C09's operations, every command and flag combination, comments and names of any length.",
 "The command line layer has no tests at all.",
 ["cmd/list.go","cmd/comment.go","cmd/attr.go","cmd/export.go","cmd/info.go","cmd/time.go","cmd/util.go"],
 [("queries and table layout","cmd/*.go")],["standard output and written CSV files of the built command"])

p("C12","Field files read back as written and the ParaView index matches them",
 "For a given prefix, fields written by the raw-binary, 8-bit and CSV writers are put in one distinct file per field and epoch (CSV: one per epoch), in node order, and reading them back gives the same real values (bit exact for raw binary, to six decimals for CSV, scaled minimum to 0 and maximum to 255 for 8-bit, where a field that varies by less than 1e-10 of its magnitude counts as uniform and becomes 0). The ParaView index lists, for every epoch and field, exactly the file the raw-binary writer produces, with the extents in the order in which the file is laid out.",
 ["inputs","configurations"],"All field values (including zeros, negatives, infinities, NaN, subnormals), names, prefixes, epochs and 2D/3D shapes.",
 "Tests round-trip one field and do not read the index back.",
 ["pf/fileIO.go","pf/xdmf.go","pf/model.go"],[("writers and readers","pf/fileIO.go"),("index","pf/xdmf.go CreateXDMF")],["files on disk","LoadFloat64, LoadCSV"])

p("C13","Node number and grid position are one consistent bijection everywhere",
 "For every 2D and 3D domain the node number and grid position conversions are inverse to each other and cover every node exactly once, the same numbering is used by grids, CSV files and the database, and wrapping brings any integer position to the equivalent position inside the domain. The product iterator visits every combination exactly once in lexicographic order and then ends.",
 ["inputs","configurations"],"All domain shapes up to 6 per side in 2D/3D, all nodes, all integer positions within several periods, all iterator bounds up to 4 dimensions.",
 "Tests check a handful of positions on cubic domains.",
 ["pfutil/indexPositionConversion.go","pfutil/grid.go","pfutil/iterators.go","pfutil/sliceOperations.go","pf/fileIO.go"],
 [("conversion","pfutil/indexPositionConversion.go"),("wrap","pfutil/sliceOperations.go Wrap"),("iterator","pfutil/iterators.go")],["return values","CSV and database coordinates"])

p("C14","Transforms, frequencies and grid numbering agree for every domain shape",
 "For every 2D and 3D domain, including those with unequal or odd sides, the forward transform sends the plane wave of any grid frequency to a single peak at the node whose reported frequency is that of the wave along the matching axes, the backward transform is its inverse up to the number of nodes, and the conjugate node of any node carries the negated frequency (modulo the sampling frequency). Reported frequencies lie in (-1/2, 1/2].",
 ["configurations","inputs"],"All domain shapes up to 6 per side in 2D and 3D, all nodes, all plane waves.",
 "Tests use cubic domains, where exchanged axes cannot be seen.",
 ["pfutil/fftWrap.go"],[("plan and layout","pfutil/fftWrap.go NewFFTW, FFT, IFFT"),("frequency","pfutil/fftWrap.go Freq, ConjugateNode")],["FFT, IFFT, Freq, ConjugateNode"])

p("C15","Half-space iterators visit each independent Fourier amplitude exactly once",
 "For every domain shape the unique-frequency iterator visits every pair of conjugate nodes exactly once through exactly one of its members (and each self-conjugate node exactly once), and the real-amplitude iterator visits exactly the self-conjugate nodes. Both end, and stay ended.",
 ["configurations"],"All 2D and 3D shapes up to 8 per side, even and odd.",
 "Tests check three fixed even shapes.",
 ["pf/util.go"],[("iterators","pf/util.go UniqueFreqIterator, RealAmplitudeIterator")],["sequence of nodes returned"])

p("C16","Symmetry-equivalent planes and starting points are complete and without repeats",
 "For every triple of integers the equivalent planes are exactly all permutations and sign changes, each listed once, and the reported counts (in 2D: those without third component) are the number of those planes. The octant explorer proposes every sign combination of the start point exactly once and then ends.",
 ["inputs"],"All integer triples with entries from -4 to 4; all start points up to 5 dimensions.",
 "Tests check a few triples, none of which has equal first and last entries only.",
 ["pfc/miller.go","pfc/initialGuessExplorer.go"],[("enumeration","pfc/miller.go EquivalentMiller, NumEquivalent"),("explorer","pfc/initialGuessExplorer.go")],["returned lists"])

p("C17","Geometry painted on a grid is exactly the stated set of nodes",
 "Assigning nodes to generating points gives every node a point at minimum periodic distance (the first such point on ties); drawing a shape with a transformation sets exactly the nodes whose transformed position is inside the shape and leaves all others untouched, an ellipsoid in a voxel domain is the set of voxels within its half-axes around the middle voxel, and appended transformations (translations, scalings, right-handed rotations about an axis) act in the order they were appended; blurring replaces every node by the kernel-weighted mean over its periodic neighbourhood, which for the box kernel is the box of the stated width centred on the node, so that constants and the total are preserved.",
 ["inputs","configurations"],"All small 2D/3D domains, generating point sets, boxes/balls with translations, quarter-turn rotations and scalings, kernel widths and fields.",
 "Tests draw one shape and blur one delta.",
 ["pfutil/voronoi.go","pfutil/shapes.go","pfutil/affine.go","pfutil/blur.go","elasticity/shapes.go"],
 [("nearest point","pfutil/voronoi.go"),("drawing","pfutil/shapes.go Draw; pfutil/affine.go"),("blur","pfutil/blur.go")],["grid data after the call"])

p("C18","Conserved dynamics keeps the mean; multiplier updates follow the change",
 "Over any number of steps with any scheme, terms under a Laplacian and the conservative noise leave the spatial mean of the field unchanged and the field real, while other terms change it by exactly their own mean. The volume-conserving multiplier starts from its given value, is left unchanged by the first notification, and afterwards decreases at every notification by the change of the field's total since the previous one divided by the time step times the indicator's total.",
 ["histories","inputs"],"All equations mixing conserved and unconserved terms on all grids, all step counts; all sequences of totals for the multiplier.",
 "Tests look at one term and one step; a drift or a wrong reference value accumulates only over histories.",
 ["pf/noise.go","pf/volumeConserving.go","pf/diffOp.go"],[("noise currents","pf/noise.go Construct"),("multiplier","pf/volumeConserving.go OnStepFinished"),("Laplacian","pf/diffOp.go")],["sum of the field after each step","Multiplier"])

p("C19","An interrupted save never leaves a torn record",
 "If the process dies, or a write to the file fails, at any moment while storing to a database, then after reopening the file every field of every time step, every attribute set and every time-series record is either completely present or completely absent, everything stored by calls that had returned is still present and unchanged, the position table is complete or empty, and the file accepts further simulations. A store call that could not be completed does not return normally.",
 ["crash_points","fault_sequences"],"Every crash point between successive writes to the file, for any sequence of store operations.",
 "Tests never interrupt a save.",
 ["pf/database.go"],[("one transaction per record","pf/database.go insertRealPart, populatePositionsTable, SetAttr, TimeSeries")],["contents of the reopened file after killing the writer"])

p("C20","Elastic tensors, rotations and strain energy obey the documented symmetries",
 "Every elastic tensor built from isotropic, cubic or 6x6 Voigt constants has the Voigt symmetries (index pairs and, for symmetric input, their exchange) with each constant at its documented place, rotating preserves energy density under simultaneous rotation of the strain, and rotating back restores the tensor. Displacements solve the mechanical equilibrium equation for the given force at every nonzero frequency and vanish at zero frequency; strains are the symmetrised gradients of the displacements; the body forces of a misfit strain and of a perturbation of the elastic constants are minus the divergence of the stress they stand for. The strain energy of an inclusion (CalculateStrainEnergy, and what 'gopf elast energy' prints) is the energy density of the equilibrium strain less the misfit, summed over the domain, per volume of the inclusion.",
 ["inputs"],"All index quadruples, all Voigt constants, quarter-turn rotations in any order about the three axes, all small force fields and displacements in one to three dimensions, slab and ellipsoidal inclusions.",
 "Tests check the isotropic tensor under some rotations only.",
 ["elasticity/rank4.go","elasticity/linearElasticity.go","elasticity/effectiveForce.go","elasticity/perturbation.go"],
 [("tensors","elasticity/rank4.go"),("equilibrium","elasticity/linearElasticity.go Displacements, Strain")],["tensor entries","Displacements, Strain, EnergyDensity"])

p("C21","The saddle-search stepper follows the dimer equations for all fields jointly",
 "At every step of the shrinking-dimer stepper the dimer's centre moves by the reflected average of the forces at its two ends, each field with its own force, the orientation stays a unit vector over all fields jointly, the fields stay real and keep their identity, the dimer length decays as documented and never below its minimum, and the time advances by one step. SaveOrientation writes the current orientation of every field at its positions, and the monitor and its CSV log report the values of the step just taken. Stepping without initialisation or time step, or requesting a filter, is refused.",
 ["histories","inputs","configurations"],"All models of up to 3 coupled fields, end states, weights, time constants and numbers of steps.",
 "Tests run one-field models and one two-field model whose second field relaxes by itself.",
 ["pf/sdd.go"],[("dimer step","pf/sdd.go Step, householder, householderDenum"),("length","pf/sdd.go DimerLength")],["fields, SaveOrientation output, DimerLength after each step"])

p("C22","Ready-made terms equal the operator they document on every grid",
 "Each ready-made term can be registered in a model and, evaluated there, equals its documented operator applied to the current fields, with its documented prefactor, on every 2D and 3D domain with equal or unequal, even or odd sides: gradient component (first derivatives have no Nyquist part), advection -v.grad f, divergence of a function times a gradient, weighted Laplacian, squared gradient, tensor Hessian K_ij d_i d_j, charge transport (with Current), pair correlation (implicit and explicit, with its energy), ideal mixture, spectral viscosity, negative-value penalty (also its default) and elastic misfit. White noise is real Gaussian noise of mean 0 and variance 2*Strength without correlation, and BoundTransform maps the real line onto (Min, Max) by the arctangent, with Backward as its inverse. The value is real in real space, depends only on the fields as they are when it is evaluated and not on earlier evaluations, and terms registered together in one model do not disturb each other or the user's own fields.",
 ["inputs","configurations"],"All terms and combinations of terms x all small 2D/3D shapes including unequal and odd sides x integer-valued and random fields x sequences of evaluations.",
 "Tests evaluate each term for one cubic or square domain and one function.",
 ["pf/advection.go","pf/gradientCalculator.go","pf/squareGradientTerm.go","pf/tensorialHessian.go","pf/chargeTransport.go","pf/pairCorrelationTerm.go","pf/spectralViscosity.go","pf/negative_value_penalty.go","pf/homoLinElast.go"],
 [("terms","pf/*.go Construct/PrepareModel")],["Model.GetRHS/GetDenum and fields after a step with the term registered"])

p("C23","The fully implicit step satisfies its update equation at the new state",
 "When its nonlinear solver converges, one step of the fully implicit scheme yields real fields that satisfy its update equation: the old fields propagated exactly by the linear part over dt plus the exact propagation of the explicit part interpolated linearly between its old and new values, for all fields jointly. With no explicit part the step is the exact exponential.",
 ["inputs","histories"],"All coupled models of up to 2 fields with contractive right-hand sides, all small grids and several steps.",
 "Tests check convergence towards a few analytic solutions with loose tolerances.",
 ["pf/implicitEuler.go"],[("residual","pf/implicitEuler.go updateEquation, nonlinearIntegral, Step")],["fields after each step"])

p("C24","Crystals: reciprocal lattice, mode expansion and the minimum of its energy",
 "For every non-singular 2D and 3D cell the reciprocal cell is dual to it (a_i.b_j = 2 pi delta_ij), the vector of Miller indices hkl is h b1 + k b2 + l b3, and CellChange and ChangeHKLVector give their first-order change for any change of the cell; the named lattices have the neighbours, distances and volume of the lattice they are named after. A mode's density is the sum of the cosines of all equivalent planes, the mean of products of modes over the cell is exact, and ModeSolver.Solve returns amplitudes with their own energy, a minimum at least as low as that of every starting point it was given and the best that its local searches reported, trying all sign combinations by default. The ideal mixing energy and its derivative, quadrature, pair correlation function (largest peak with its temperature factor), the blend of two correlation functions (with the derivative of its weight) and the elastic weights and peak widths are what they document; the reported elastic properties are those of the returned widths.",
 ["inputs","configurations"],"All integer cells with small entries and all changes of them, all sets of up to 3 modes with indices up to 2 in 2D and 3D, all exponents up to 4, random parameters, starting points and grids.",
 "Tests check diagonal cells and changes, five integrals and two minimisations.",
 ["pfc/lattice.go","pfc/mode_solver.go","pfc/ideal.go","pfc/initialGuessExplorer.go","pfc/quadrature.go","pfc/pairCorrelation.go","pfc/twoPhaseCorrFunc.go"],
 [("lattice","pfc/lattice.go Reciprocal, HKLVector, CellChange"),("modes","pfc/mode_solver.go ModeDensity, UnitcellIntegral, build, Solve, PeakWidths")],["Cell, ReciprocalCell, ModeSolver, explorers"])

p("C25","Grids as images: crystals drawn on them, turned grids and grain boundaries",
 "BuildCrystal on a 2D or 3D grid that holds a whole number of cubic cells (SC2D, SC3D, FCC, BCC with any basis) draws every atom of the lattice and basis and nothing else: each node within the cutoff of an atom, also across the periodic border, gets the kernel's value at its distance (nodes are rounded down), and all other nodes keep their value. Rotate2D by any angle gives every node the value that a node less than or equal to one spacing (along each axis, periodically) from its rotated place about the node (n0/2, n1/2) had before, source x' = x cos - y sin, y' = y cos + x sin, and is the identity for the angle zero; TiltGB(angle) is Rotate2D(angle/2) in the first half of the rows and Rotate2D(-angle/2) in the rest. Both refuse 3D grids. Copies are independent, conversion to and from complex data keeps the real values, and SaveCsv lists every node in order with its position and value.",
 ["inputs","histories"],"All cubic cells, bases and kernel widths whose atoms do not overlap, grids with unequal and odd sides, Pythagorean angles in all quadrants, sequences of operations.",
 "Tests count atoms by the integral of the field, turn one pixel of a square grid and tilt one square image.",
 ["pfc/periodicFieldInit.go","pfutil/grid.go"],
 [("crystal","pfc/periodicFieldInit.go BuildCrystal"),("turn","pfutil/grid.go Rotate2D"),("boundary","pfc/periodicFieldInit.go TiltGB"),("table","pfutil/grid.go SaveCsv")],["Grid.Data after each operation, the file written by SaveCsv"])

p("C26","Plots on the command line show the values of the table at their positions",
 "For every table of field values by position, with its rows in any order and written with or without blanks after the commas, gopf lineplot with exactly two of -x, -y, -z draws, for every field of the table or those listed with --data in that order, exactly one curve, named after the field, through the points (remaining coordinate, value) of the rows with these two coordinates, each once, and in the order along the line if the rows come in this order as they do in exported tables; with any other number of coordinates it refuses and writes nothing. gopf contour draws the named field (the first by default) of a plane table, if it is not the same everywhere, so that the cell at column x and height y has the colour that the colour bar gives its value, with x to the right and y upwards, whatever the sides of the plane and the order of the rows.",
 ["inputs"],"All tables on small grids with unequal sides, all orders of rows, all lines and fields.",
 "There are no tests of the command line program.",
 ["cmd/lineplot.go","cmd/contour.go"],
 [("line","cmd/lineplot.go lineData, includeRow, numSet"),("plane","cmd/contour.go readData, HeatMapData, fillImage")],["curves in the SVG written", "colours in the PNG written"])

p("C27","A model is what was put together, and what does not fit together is refused",
 "While a model is put together, every field, scalar, function, derived field and term that was added is found under its name and kind and nothing else is (AllFieldNames in the order of addition, fields first; AllVariableNames; IsFieldName, IsBrickName, IsImplicitTerm, IsExplicitTerm, IsMixedTerm, IsUserDefinedTerm; EqNumber; NumNodes), has the value it was given - derived fields that a term brings along are ignored if a field of that name exists already, a scalar added again has its last value - and copies of fields are independent. NewSolver followed by a step accepts exactly the models whose fields all have as many nodes as the domain and one well-formed equation each, over known names; it can be repeated, and Summarize then lists each equation with its numbers of explicit and implicit terms. Field data of another length than the field (also in the database and in CSV files, where nothing is written then), domains that are not 2D or 3D, terms whose velocity fields, currents, indicator or derived fields are missing or not as many as there are dimensions, malformed bounding boxes, 3D grids to be turned, unknown schemes and elastic properties, and exponents or correlation functions of the wrong number are refused; arguments that fit are accepted.",
 ["histories","configurations"],"All orders of adding up to 18 parts to a model and all combinations of small arguments of 20 requests.",
 "Tests build a few complete models and check six queries on them; hardly any refusal is tested.",
 ["pf/model.go","pf/solver.go","pf/rhsBuilder.go","pf/advection.go","pf/noise.go"],
 [("model","pf/model.go Add*, Register*, Is*, Init, Summarize"),("solver","pf/solver.go NewSolver")],["answers of Model's queries after every step, refusal (panic) or acceptance"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
