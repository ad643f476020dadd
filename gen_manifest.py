import json
T='seeded deterministic simulation with fault injection; '
L={
'C01':('line-level thread interleavings of the real package under a baton scheduler, every answer against a CLT reference model',
 'Sampled: about 16 000 seeded interleavings per quick run, 2-4 callers, switch point at every source line of the package (incl. table lookups). Trusts dst/model.py (independent CLT) and that line granularity represents bytecode granularity.'),
'C02':('asynchronous exceptions at sampled source lines of queries, retries and later queries against the CLT reference model',
 'Sampled abort points (10 exception kinds at any executed line), about 8 000 runs. Trusts the CLT model; aborts strike between lines, not inside C code.'),
'C03':('seeded query/in-place-edit histories of one or two interleaved callers against the CLT reference model, earlier results re-read after every step',
 'Sampled histories, about 14 000. Trusts the CLT model.'),
'C04':('seeded histories, interleavings and aborts of load changes and table queries against a ply-by-ply reference model',
 'Sampled, about 5 000 runs. Trusts the CLT model; thread runs do not change loads of an object another thread is reading.'),
'C05':('seeded analysis histories with simulated entropy and clock, factors and modes against a dense Ritz reference (own shape functions and quadrature)',
 'Sampled plates, loads, edge conditions, 2-10 terms per side. Trusts the reference eigenproblem; comparisons within round-off floors derived from conditioning.'),
'C06':('solver, allocation, interrupt, output and clock faults inside analyses, and interleaved analyses, against the Ritz reference and a last-completed-analysis model',
 'Sampled fault points and schedules, about 3 000 runs. A failure after the solver returned may leave either the previous or the new results.'),
'C07':('the same seeded program executed under two simulated environments (entropy, hash seed, RNG state, clock, heap, display and numeric settings, prior work), results compared bitwise',
 'Sampled pairs of environments, about 900 per quick run, on one machine and one numeric library build.'),
'C08':('solver failures injected at chosen trials of the real SLSQP optimisation, interleaved optimisations, result against the Ritz reference',
 'Sampled, about 900 optimisations. Trusts the Ritz reference; tolerances 1e-4 on factors, 2e-4 on the domain.'),
'C09':('solver failures injected at chosen trials of the real SLSQP optimisation, interleaved optimisations, result against the Ritz reference',
 'Sampled, about 420 optimisations. Trusts the Ritz reference; tolerance 1e-3 on the carried load and thickness.'),
'C10':('line-level interleavings and aborted constructions, names compared over the whole history',
 'Sampled, about 16 000 runs, 1-4 callers.'),
'C11':('copies taken between and inside operations of other callers and after aborts, originals and copies against reference models',
 'Sampled, about 6 000 runs; copy, deepcopy, pickle 2 and 5.'),
'C12':('seeded histories of constructions, queries and container edits over several objects against reference models',
 'Sampled, about 5 000 histories.'),
'C13':('snapshot of process-wide settings around every call of seeded histories with injected faults',
 'Sampled, about 2 500 runs from randomised initial settings; covers the settings listed in dst/ambient.py. One known finding is reported, not failed.'),
'C14':('solver and display faults in seeded analysis/plot histories, plotted surface against the Ritz reference mode',
 'Sampled, about 2 500 runs. Surfaces whose factor drowns in round-off are not judged.'),
'C15':('real generator scripts on a simulated journalling disk: crashes, power loss, errors, short writes, interrupts at sampled file operations; several regenerations interleaved operation by operation',
 'Sampled fault points, about 1 800 runs; sympy is a stand-in (not installed), so table content is judged for completeness, not for mathematics. Power loss keeps any subset of unsynced writes and any prefix of unsynced metadata.'),
'C16':('imports of the package executed in pristine processes with faults at module reads, compilation and module lines, in random orders and settings, then a model-checked working library',
 'Sampled, about 2 000 runs. After a failed import the package itself is imported first: starting again in the middle of a half-imported package is a limitation of the Python import system.'),
'C17':('solver, display, output and interrupt faults inside optimisations with design maps; drawn data against the Ritz reference, optima with and without map compared',
 'Sampled, about 450 runs, 2-3 terms per side, 3-6 points per side. Trusts the Ritz reference.'),
'C18':('asynchronous exceptions at sampled lines and instructions of constructors, also with several callers, then all objects against the reference models',
 'Sampled, about 8 000 runs; kinds of exception that strike asynchronously (interrupt, exit, failed allocation, exhausted stack, foreign).'),
'C19':('forks at scheduler-chosen instants while other simulated callers are in the middle of calls; answers of child and parent against the reference models, blocking = deadlock of the child',
 'Sampled, about 4 000 runs.'),
'C26':('handlers run by the simulator at sampled lines and instructions inside library calls, re-entering the library on the same objects; every answer against the reference models',
 'Sampled, about 5 000 runs. The calls of a handler are not themselves interrupted.'),
'C28':('seeded histories with injected faults and several callers, then every reference dropped, outermost objects first; live objects of the package counted after a collection',
 'Sampled, about 1 200 runs.'),
'C27':('objects pickled at scheduler-chosen instants, process ended, loaded in a process started afresh with another hash seed; every answer against the reference models',
 'Sampled, about 4 000 runs; pickle protocols 2, 4 and 5.'),
}
NA={
'C20':'A pure function of one argument list: no schedule, clock, fault, crash or history enters, so simulation would only be input generation.',
'C21':'Parsing one string is a pure function of the string; nothing for a scheduler or fault injector to decide.',
'C22':'The card text is a pure function of the arguments; no I/O, state or schedule.',
'C23':'The coupled matrices are a pure function of the plate definition; no schedule, fault or history enters (the current code breaks it, see DESIGN.md).',
'C24':'A fixed table compared with integrals: no nondeterminism at all (sympy, which generates it, is not installed either).',
'C25':'Comparison of two immutable definitions is a pure function; no schedule, fault or history enters (the current code breaks it for lamination parameters, see DESIGN.md).',
}
m={'version':1,'setup_cmd':'./check setup',
'checks':[{'property':p,'quick_cmd':f'./check {p}','thorough_cmd':f'VERIF_TIER=thorough ./check {p}','evidence_file':f'evidence/{p}.json',
 'technique':T+t,'level':'exploration','level_note':n} for p,(t,n) in L.items()],
'not_applicable':[{'property':p,'reason':r} for p,r in NA.items()],
'notes':'No hooks in /repo: every seam (threads, clock, entropy, solver, output, display, files) is taken over by the harness before composipy is imported.'}
json.dump(m,open('MANIFEST.json','w'),indent=1)
