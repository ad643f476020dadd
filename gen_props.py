import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
PR="composipy/core/property.py"; MA="composipy/core/material.py"; ST="composipy/core/structure.py"; SR="composipy/core/strength.py"
p("C01","Concurrent laminate queries are always right",
 "When any number of threads query shared materials and laminates (ply stiffness, layup stiffness and transformation matrices, z positions, A, B, D, ABD, lamination parameters), every answer is the classical-lamination-theory value for that laminate, exactly as if the query had run alone. No interleaving may let a caller see a partly computed, empty or zeroed matrix, and none may leave the laminate answering wrongly afterwards.",
 ["schedules","histories","inputs"],"every interleaving of any queries by any number of threads on shared objects, for every angle-stack or lamination-parameter laminate",
 "Each test makes one laminate and reads it once from one thread; no test has two callers, so no partly filled lazily computed matrix is ever observed.",
 [PR,MA],[("lazily computed matrices are built and then published",PR+": LaminateProperty.Q_layup/T_layup/A/B/D"),("lazy ply stiffness",MA+": Q_0")],
 ["values returned by OrthotropicMaterial.Q_0/Invariants, IsotropicMaterial.Q_0, LaminateProperty.Q_layup/T_layup/z_position/A/B/D/ABD/xiA/xiD"],
 [("lazy caches","matrices remembered after the first query",PR+": _Q_layup, _T_layup, _A, _B, _D")])
p("C02","An aborted laminate query leaves no trace",
 "If a material, laminate or ply-strength query is aborted at any instant by an exception (keyboard interrupt, failed allocation, a numeric routine raising), that exception reaches the caller. Every later query on the same objects, including simply retrying the aborted one, returns the correct classical-lamination-theory value.",
 ["crash_points","fault_sequences","histories"],"every instant at which a query can be aborted, every sequence of aborted and completed queries, every laminate",
 "No test aborts a computation; the partly filled state an abort leaves behind is never queried again.",
 [PR,MA,SR],[("caches become visible only when complete",PR+": LaminateProperty.Q_layup/T_layup/A/B/D")],
 ["values returned by retried queries after an injected exception"],
 [("lazy caches","matrices remembered after the first query",PR+": _Q_layup, _T_layup, _A, _B, _D; "+MA+": Q_0")])
p("C03","Laminate answers do not depend on query history",
 "Whatever sequence of queries has already been made on a material or laminate, in whatever order and however often, each query returns the classical-lamination-theory value for the laminate as it was defined. That includes histories in which the caller modified in place arrays or lists that earlier queries had returned: a returned result belongs to the caller alone, also with several callers at once: it is never changed by other queries or by what another caller does with its own results, and changing it never changes another answer.",
 ["histories","inputs"],"every finite sequence of queries and in-place edits of previously returned results, on materials, stack laminates and lamination-parameter laminates, including laminates sharing materials, by one or several callers",
 "Tests read one property of a fresh laminate; a stale or aliased remembered matrix needs at least two operations in a particular order.",
 [PR,MA],[("lazy caches and the copies handed out",PR+": LaminateProperty properties; "+MA+": Q_0")],
 ["values returned by every query of the history, and earlier results re-read at the end"],
 [("lazy caches","matrices remembered after the first query",PR+"; "+MA)])
p("C04","Ply strains, stresses and margins match the present loads",
 "Every strain, stress and max-stress margin table describes the laminate under the loads the analysis object holds at that moment, ply by ply from bottom to top at each ply's bottom and top face, in laminate and material axes, with matching ply/position/angle labels, and the through-thickness stress resultants equal the applied forces and moments. This holds for any sequence of queries and load or laminate changes on the object, for several analyses sharing one laminate from several threads, and after queries aborted part-way.",
 ["histories","schedules","inputs","fault_sequences"],"every sequence and interleaving of load changes, laminate changes, aborted queries and table queries, for every stack laminate and load combination",
 "Two fixed laminates under one fixed load each are checked at a few rows, from a fresh object; no test changes a load, repeats a query, reads a margin or shares a laminate.",
 [SR,PR],[("tables recomputed from current loads and laminate",SR+": calculate_strain/calculate_stress/calculate_maxstressmargin"),("in-place shear conversion on private arrays",SR+": _epsilonk_123")],
 ["DataFrames returned by calculate_strain, calculate_stress, calculate_maxstressmargin; epsilon0()"])
p("C05","Buckling analysis returns the smallest critical load factors",
 "A buckling analysis that returns gives the smallest positive critical load factors of the plate in ascending order (as many as asked for, up to two fewer than the number of trial functions), each with a mode that satisfies the buckling equation for the plate's laminate, size, edge conditions and loads. This is so for every random start of the eigenvalue solver, every load level including loads above the critical one, every edge-condition notation the documentation allows, and whatever analyses ran before on the same plate or laminate.",
 ["histories","configurations","inputs"],"every solver start vector, every sequence of analyses, all combinations of documented edge conditions, laminates, aspect ratios, load directions and load magnitudes",
 "Tests check the first factor of four fixed plates to 10 %, all with a unit load far below the critical one and with uniform edges, with whatever start vector the OS supplied.",
 [ST,"composipy/pre_integrated_component/build_k.py","composipy/pre_integrated_component/functions.py","composipy/pre_integrated_component/_ii_F.py"],
 [("generalised eigenproblem",ST+": PlateStructure.buckling_analysis"),("stiffness assembly from tabulated integrals",ST+": calc_K_KG_D"),("edge conditions to basis functions",ST+": _compute_constraints")],
 ["eigenvalues and eigenvectors returned by PlateStructure.buckling_analysis"],
 None,"none: the solver's entropy is taken over by replacing numpy's generator factory in the harness")
p("C06","A failed analysis keeps the plate usable and its last result",
 "If a buckling analysis fails at any point (the solver does not converge, an allocation fails, an interrupt arrives, progress output cannot be written, the clock jumps) the failure reaches the caller and the plate still holds the results of its last completed analysis, or none if there was none. The next analysis on that plate or on any plate sharing its laminate is correct, and simultaneous analyses in several threads each return their own plate's correct result.",
 ["fault_sequences","crash_points","schedules","histories"],"every point of failure inside an analysis, every sequence of failed and completed analyses, every interleaving of analyses on shared plates and laminates",
 "No test makes the solver fail, interrupts an analysis, uses the progress output or runs two analyses on one object.",
 [ST,PR],[("results stored only after the solver returned",ST+": PlateStructure.buckling_analysis")],
 ["return value, exception and eigenvalue/eigenvector attributes of PlateStructure"],
 [("last results","eigenvalues and modes of the last completed analysis",ST+": eigenvalue, eigenvector"),("basis indices","basis functions in use",ST+": su_idx, sv_idx, sw_idx")])
p("C07","Equal inputs give equal results, whatever the environment",
 "Two executions of the same analysis or optimisation with equal inputs produce identical numbers, in any process: the result does not depend on operating-system entropy, the global random-number state, hash randomisation, the clock, the working directory, display, warning or number-formatting settings, or unrelated work done before. A seeded global random-number state is also left undisturbed by the library.",
 ["configurations","histories"],"every pair of environments (entropy, hash seed, global RNG state, clock, settings, preceding work) and every analysis or optimisation input",
 "Tests run once with PYTHONHASHSEED=0 and compare to 10 %; the one suite test left out as flaky is exactly a run whose outcome depended on OS entropy.",
 [ST,"composipy/optimize/utils.py","composipy/optimize/_maximize_buckling.py","composipy/optimize/_minimize_panel_weight.py"],
 [("deterministic solver start",ST+": PlateStructure.buckling_analysis")],
 ["bytes of the arrays returned by buckling_analysis, maximize_buckling_load, minimize_panel_weight and the laminate/strength queries"])
p("C08","Buckling maximisation survives solver failures and never overclaims",
 "Maximising the buckling load returns within its iteration limit even if the eigenvalue solver fails to converge at any of the trial designs, and treats such a trial as infeasible rather than failing or reusing another trial's value; any other failure or an interrupt reaches the caller. A result reported as successful lies within the lamination-parameter domain chosen, its objective is minus the true critical load factor of that design (never better than the truth) for the loads scaled to unit maximum, and without solver failures it is no worse than the quasi-isotropic starting design; concurrent optimisations do not affect each other.",
 ["fault_sequences","schedules","inputs"],"every set of trials at which the solver fails, every kind of failure, every interleaving of concurrent optimisations, every plate, load and domain option",
 "One fixed panel, no failing trial, the objective compared to 10 %; the error-handling branch is never executed.",
 ["composipy/optimize/_maximize_buckling.py","composipy/optimize/utils.py",ST],[("solver failure handled per trial","composipy/optimize/_maximize_buckling.py: critical_load"),("domain constraints","composipy/optimize/utils.py: penalty_g1, penalty_g2, natural_constraint_g")],
 ["result object of maximize_buckling_load: x, fun, success; exceptions"])
p("C09","Weight minimisation results carry the load despite solver failures",
 "Minimising panel weight returns within its iteration limit even if the eigenvalue solver fails to converge at any of the trial designs; any other failure or an interrupt reaches the caller. A result reported as successful carries the requested loads (true critical load factor at least one, to the solver tolerance) with lamination parameters inside the domain, and without solver failures it is no thicker than the quasi-isotropic panel that just carries the same loads; concurrent optimisations do not affect each other.",
 ["fault_sequences","schedules","inputs"],"every set of trials at which the solver fails, every kind of failure, every interleaving of concurrent optimisations, every panel and load combination",
 "The only test of this function is left out of the stable suite because it depends on OS entropy; it has one panel and no failing trial.",
 ["composipy/optimize/_minimize_panel_weight.py","composipy/optimize/utils.py",ST],[("load constraint and failure handling","composipy/optimize/_minimize_panel_weight.py: critical_load")],
 ["result object of minimize_panel_weight: x, success; exceptions"])
p("C10","Automatic ply names are unique and stable",
 "Unnamed orthotropic materials never share an automatically generated name with one another, and likewise unnamed isotropic materials, however many threads create them, in whatever interleaving, and whatever constructions failed or were aborted in between. A material's name never changes once it exists, and a name given by the user is kept as given.",
 ["schedules","crash_points","histories"],"every interleaving of constructions and name queries, including constructions rejected for bad input or aborted at any instant",
 "No test reads a material name or creates materials from more than one thread.",
 [MA],[("class-level counter",MA+": _ids, _id"),("lazily formatted name",MA+": name")],["material.name"],
 [("counter","source of automatic names",MA+": _ids")])
p("C11","Copies taken at any moment are faithful and independent",
 "A copy of a material, laminate, strength analysis or plate, made with copy, deepcopy or pickle at any moment (fresh, after any queries, after an aborted query, or while another thread is in the middle of a query on it), answers every later query exactly as the original does, its name included, and compares equal to the original as long as both are as they were. Work on a deep or pickled copy never changes the original's results, and the reverse.",
 ["schedules","crash_points","histories"],"every moment at which the copy is taken, including inside another thread's query and after an aborted one, and every later sequence of queries on copy and original",
 "No test copies or pickles anything; a half-built remembered matrix carried into a worker process would only show there.",
 [PR,MA,ST,SR],[("object state is plain data that is complete whenever it is visible",PR+": LaminateProperty")],
 ["query results of original and copy"])
p("C12","Objects are isolated from each other and from caller containers",
 "A material, laminate, strength analysis or plate is fixed by the arguments it was built with: later edits by the caller to the lists or dictionaries passed in (stacking, plies, lamination parameters, edge conditions) never change what it answers. No operation on one object, including editing the edge conditions it reports, ever changes the answers of another object or of objects created later.",
 ["histories"],"every sequence of constructions, queries and edits of containers that were passed in or handed out, over any number of objects sharing containers, laminates and defaults",
 "Tests build each object from containers nobody touches again; shared default or aliased containers need a second object and an edit.",
 [PR,ST,SR],[("arguments copied on construction",PR+": LaminateProperty.__init__; "+ST+": PlateStructure.__init__ (constraints default)")],
 ["answers of every live object after each step of the history"],
 [("edge conditions","container describing the plate's edges",ST+": constraints")])
p("C13","Library calls leave the process environment as found",
 "No query, analysis, plot or optimisation, whether it completes, fails or is aborted, changes process-wide settings that belong to the caller: numpy error handling and print options, pandas options, warning filters, global random-number state, matplotlib defaults, environment variables, working directory, signal handlers, standard streams, logging, garbage-collector and recursion settings, running threads or the figures the caller has open.",
 ["histories","fault_sequences"],"every sequence of completed, failed and aborted calls starting from every initial setting of that environment",
 "Tests never compare the environment before and after a call, and start from the default environment, in which setting a value to its default is invisible.",
 [SR,ST,"composipy/optimize/utils.py"],[("no global state is written (pandas display precision excepted: known finding)",SR+": pd.set_option")],
 ["the listed settings before and after every call"])
p("C14","The plotted surface is the requested mode of the last analysis",
 "Plotting a plate's mode draws, on the requested grid over the whole plate (as many points along each side as asked for, equal or not), the deflection of the requested mode of the plate's last completed analysis, running an analysis first if there is none; that is so too when the plate's edge conditions were edited since and an analysis with them failed. Plotting leaves results the plate already holds unchanged, also when the display or the solver fails; a later plot is correct, and so are plots by several threads at once. Every plot goes to a new figure, never into one that is already open.",
 ["histories","fault_sequences","inputs"],"every sequence of analyses with various numbers of modes, failed analyses, plots and failed displays, every grid and mode number",
 "Nothing in the test-suite plots.",
 [ST,"composipy/pre_integrated_component/functions.py","composipy/pre_integrated_component/_S.py"],[("surface from stored mode and basis",ST+": PlateStructure.plot_eigenvalue")],
 ["coordinates and deflections passed to the 3-D surface plot"],
 [("last results","eigenvalues and modes of the last completed analysis",ST+": eigenvalue, eigenvector, _mode_idx")])
p("C15","Regenerating the tabulated terms is all-or-nothing",
 "Regenerating the table of pre-integrated terms or of shape functions either leaves the previous table file untouched or replaces it with the complete new one: a full disk, a short or failing write, a crash or a power failure at any instant never leaves a truncated, empty or missing table, not even for an instant, also when several regenerations run at once. Running the generator again without faults produces the complete table.",
 ["crash_points","fault_sequences"],"every file operation of the generators at which a crash, power loss or disk error can strike, with and without an existing table, and every interleaving of the file operations of several regenerations",
 "The generators are not executed by any test; the package cannot even be imported with a truncated table.",
 ["composipy/pre_integrated_component/write_pre_integrated_terms.py","composipy/pre_integrated_component/write_shape_function.py"],
 [("table written aside, synced and renamed","write_pre_integrated_terms.py / write_shape_function.py: end of the main block")],
 ["content of _ii_F.py / _S.py in the working directory after the simulated crash"])
# not applicable
p("C20","Malformed numeric arguments are rejected at construction",
 "Materials and plates accept exactly the numeric arguments in their documented ranges (convertible to a real or whole number, within bounds) and reject everything else with a ValueError naming the argument.",
 ["inputs"],"every argument value of every constructor","Tests construct only valid objects.",
 ["composipy/utils/validators.py",MA,ST],[("validators","composipy/utils/validators.py: ComposipyValidator")],["exception or stored value"])
p("C21","Stacking-sequence notation expands to the stated layup",
 "For every stacking expression in the documented LaTeX-like notation (plus/minus, repeats, blocks, symmetry) the builder returns exactly the ply angles it denotes, in order, and rejects expressions outside the notation.",
 ["inputs"],"every expression of the notation","No test refers to the NASTRAN interface.",
 ["composipy/nastranapi/pcomp_generator.py"],[("parser","composipy/nastranapi/pcomp_generator.py: build_sequence")],["returned list"])
p("C22","PCOMP cards describe the layup and are readable by NASTRAN",
 "For every ply sequence, material, thickness and output request the card lists every ply once, in order, with its own material, thickness, angle and request, in well-formed free-field continuation lines.",
 ["inputs"],"every layup and option combination","No test refers to the NASTRAN interface.",
 ["composipy/nastranapi/pcomp_generator.py"],[("writer","composipy/nastranapi/pcomp_generator.py: build_pcomp")],["returned text"])
p("C23","Fully coupled stiffness matrices are symmetric and consistent",
 "The coupled stiffness and geometric stiffness matrices of a plate are symmetric, equal the energy integrals of the laminate's A, B and D over the chosen basis, and reduce to the bending-only problem for an uncoupled laminate.",
 ["inputs"],"every laminate, plate size and edge condition","No test calls the coupled assembly.",
 [ST,"composipy/pre_integrated_component/build_k.py"],[("assembly",ST+": calc_K_KG_ABD")],["returned K and KG"])
p("C24","Tabulated integrals and shape functions equal their definitions",
 "Every entry of the integral tables equals the exact integral of the corresponding product of shape functions and derivatives, and every tabulated shape function equals its definition, to working precision.",
 ["inputs"],"every table entry","Tests reach the low-order entries only through four eigenvalues compared to 10 %.",
 ["composipy/pre_integrated_component/_ii_F.py","composipy/pre_integrated_component/_S.py"],[("tables","_ii_F.py, _S.py")],["table lookups"])
p("C25","Equality means same definition",
 "Two materials or laminates compare equal exactly when they were defined with equal properties (stack or lamination parameters, thickness and plies), and comparing with a foreign object is handled uniformly.",
 ["inputs"],"every pair of objects","No test compares objects.",
 [MA,PR],[("comparisons",MA+": __eq__; "+PR+": __eq__")],["result of =="])
p("C16","Importing survives failures and leaves the process alone",
 "Importing any part of the package, in any order and with any warning settings, succeeds and changes no process-wide setting and prints nothing. If an import is aborted at any instant (a module file that cannot be read, a failed allocation, an interrupt), that failure reaches the caller, and importing the package again in the same process then succeeds and gives a fully working library.",
 ["crash_points","fault_sequences","histories"],"every order of importing the package's modules, every instant and file access at which an import can fail, every warning filter",
 "The tests import the package once, under default warnings, and never after a failed import.",
 ["composipy/__init__.py","composipy/optimize/__init__.py","composipy/nastranapi/__init__.py","composipy/pre_integrated_component/functions.py"],
 [("package initialisation","composipy/__init__.py"),("module-level tables","composipy/pre_integrated_component/_ii_F.py, _S.py")],
 ["outcome of import statements, process-wide settings, standard streams and later results"])
p("C17","The design map shows the optimisation it belongs to",
 "Asking for the design map together with a buckling maximisation returns the same optimum as without it, and the map shows the critical load of sampled designs over the lamination-parameter square, blank outside the chosen domain, in a new figure, with that domain's limits and the returned optimum marked. A solver, display or output failure or an interrupt while the map is made reaches the caller, and later optimisations and maps are right.",
 ["fault_sequences","histories","inputs"],"every optimisation with a map, every point at which the solver, the display, the output or an interrupt can strike, every sequence of optimisations with and without maps",
 "No test requests the map; a failure inside it or an effect of it on the optimum is never seen.",
 ["composipy/optimize/utils.py","composipy/optimize/_maximize_buckling.py"],[("map","composipy/optimize/utils.py: plot_optimization"),("request","composipy/optimize/_maximize_buckling.py: plot")],
 ["data passed to the contour and line drawing, returned optimum, exceptions"])
p("C18","An aborted construction leaves no trace",
 "If building a material, laminate, strength analysis or plate is aborted at any instant by an interrupt, a failed allocation or another asynchronous exception, that very exception reaches the caller. Building the object again, and every object existing before or built later by any thread, then works exactly as if the aborted attempt had not been made.",
 ["crash_points","fault_sequences","schedules"],"every instant of every construction, every sequence of aborted and completed constructions, by one or several threads",
 "Tests construct only valid objects and abort none.",
 ["composipy/utils/validators.py",MA,PR,ST,SR],[("constructors",MA+", "+PR+", "+ST+", "+SR+": __init__"),("validators","composipy/utils/validators.py: ComposipyValidator")],
 ["exception that reaches the caller; answers of all objects afterwards"])
p("C19","Worker processes forked at any moment work correctly",
 "A worker process forked at any moment, also while other threads are in the middle of constructions, queries or analyses, can use every object it inherits and build new ones: each of its answers is correct and none of its calls blocks. What a worker does never changes the answers of the process it came from.",
 ["schedules","crash_points","histories"],"every instant at which a process can fork, whatever its other threads are doing, and every sequence of calls in the worker",
 "No test forks; a half-finished query of a thread that does not exist in the worker is never observed.",
 [PR,MA,ST,SR],[("lazily computed matrices are built and then published",PR+", "+MA),("analysis results on the plate",ST+": buckling_analysis")],
 ["answers in the worker and, afterwards, in its parent"],
 [("lazy caches","matrices remembered after the first query",PR+"; "+MA)])
p("C26","Interrupt handlers may use the library at any instant",
 "Code that runs on the same thread in the middle of a library call (a signal handler, a finaliser, a debugger or progress callback) may construct, query and analyse anything, including the very object being worked on: its answers are right, it never blocks, and the interrupted call then completes with the right answer too. Every later call is right as well.",
 ["schedules","histories","inputs"],"every instant of every library call at which a handler can run, and every sequence of calls made by the handler",
 "No test re-enters the library from inside one of its own calls.",
 [PR,MA,ST,SR],[("lazily computed matrices are built and then published",PR+", "+MA),("analysis results on the plate",ST+": buckling_analysis")],
 ["answers of the handler's calls, of the interrupted call and of later calls"],
 [("lazy caches","matrices remembered after the first query",PR+"; "+MA)])
p("C27","Saved objects survive a restart",
 "A material, laminate, strength analysis or plate pickled at any moment (fresh, after queries, after aborted calls, or while another thread works on it) can be loaded after the process is gone by a new process with a different environment. There it keeps its name and its last analysis results and answers every query as it was defined, side by side with objects the new process builds itself, in any order.",
 ["crash_points","histories","schedules"],"every moment of saving, every history before it, and every sequence of calls and constructions in the new process",
 "No test saves an object; state that lives only in the old process is never missed.",
 [MA,PR,SR,ST],[("object state",MA+", "+PR+", "+SR+", "+ST+": instance attributes")],["answers of loaded objects in a process started afresh"])

p("C28","Dropped objects are released",
 "Once the caller lets go of a plate or strength analysis, then of the laminates, then of the materials, each is released (at the latest by a garbage collection): nothing of the package keeps it alive, whatever was asked of it before, by whichever thread, and also when calls failed, were aborted or interrupted, or objects were compared and copied. No call leaves an open file or a running thread behind.",
 ["histories","fault_sequences","schedules"],"every history of completed, failed and aborted calls on any objects, by one or several callers",
 "Tests end with their process and never look at what is still alive.",
 [MA,PR,SR,ST,"composipy/optimize/utils.py"],[("no registry or process-wide memo holds objects",MA+", "+PR+", "+SR+", "+ST+", composipy/optimize")],
 ["objects of the package, files and threads that are left after the last reference of the caller is gone"])

P.sort(key=lambda x:x['id'])
with open('properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        assert x['statement'].count('. ')<=2,x['id']
        f.write(json.dumps(x)+'\n')
print(len(P))
