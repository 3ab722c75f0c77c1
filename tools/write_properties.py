import json,os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+"/"
L=[]
def P(id,title,st,over,q,why,files,mech,state=[],obs=[]):
    assert len(title)<=80,(id,len(title))
    L.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=["MDLIB/"+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m) for n,m in state],observe_at=obs,hook_needed=None)))
T="The eight tests run tiny ShearTemplate models without OpenMP and compare only the number of Newton iterations; "
P("C01","A restarted run continues exactly like the uninterrupted run",
"A run continued from any breakpoint it wrote produces, for every later step, the same results (grid fields, markers, topography, time, time-series) as the run that was not interrupted, up to round-off. This holds for every model option, for continuations of continuations, and when the run is extended by asking for more steps.",
["configurations","inputs","histories"],"every model set-up and combination of options, every breakpoint step, chains of restarts, longer or shorter requested runs",
T+"none of them writes or reads a breakpoint, and the state to be saved depends on which options are on.",
["InputOutput.c","Main_DOODZ.c"],[("breakpoint writing","InputOutput.c MakeBreakpointParticles"),("breakpoint loading","InputOutput.c LoadBreakpointParticles"),("restart branch of the initialisation","Main_DOODZ.c RunMDOODZ, istep/irestart"),("marker to grid interpolation at the start of a step","Main_DOODZ.c time loop")],
[("Breakpoint*.dat","markers, grid previous-step fields, topography, time, scaling and time series")],["Output*.gzip.h5 and Particles*.gzip.h5 of both runs"])
P("C02","After a process death the run can be continued from the newest breakpoint",
"At any moment after the first breakpoint was completed, a process death leaves at least one breakpoint on disk whose name tells its step, from which a restarted run completes and gives the same later results as an undisturbed run. A breakpoint is never removed before a newer one is complete, and repeated deaths and restarts do not change this.",
["crash_points","histories","configurations"],"process death before or in the middle of any file operation, chains of deaths and restarts, with and without deletion of old breakpoints",
T+"no test kills a run; the crash window lies between individual file operations.",
["InputOutput.c","Main_DOODZ.c"],[("write to a temporary name, check, rename","InputOutput.c MakeBreakpointParticles"),("deletion of the old breakpoint","InputOutput.c DeletePreviousBreakpoint; Main_DOODZ.c output section")],[],["the working directory after the death"])
P("C03","A breakpoint that could not be written is never taken for a complete one",
"Whatever file operation fails while a breakpoint is written (error, full disk, short or interrupted write, failed open, close, rename or removal), either the run goes on with results as without the fault, or it stops and reports failure. Every file left under the name of a breakpoint restarts the run correctly, and short or interrupted transfers alone change nothing.",
["fault_sequences","configurations"],"every file operation of every breakpoint write, each error kind, single faults and repeated ones",
T+"no test makes a system call fail.",
["InputOutput.c"],[("checked writes, flush, close and rename","InputOutput.c MakeBreakpointParticles")],[],["exit status, breakpoint files, results of a restart from each"])
P("C04","A missing, incomplete or unreadable restart file is refused",
"A run asked to start from a breakpoint or saved initial markers that are missing, empty, cut off or fail while being read stops with a failure status and does not compute on. If it completes, its results are those of the undamaged file; short and interrupted reads that deliver all data are harmless.",
["fault_sequences","inputs"],"every truncation length (other than one that leaves a shorter file of the same valid layout), every read of the file, each error kind",
T+"no test restarts, and none damages a file.",
["InputOutput.c"],[("checked reads and a final check of the file length","InputOutput.c LoadBreakpointParticles, LoadIniParticles")],[],["exit status, results"])
P("C05","Results do not depend on how threads are scheduled",
"With a given number of threads, a run gives the same results (up to round-off) under every interleaving of its threads. No two threads access the same memory in conflict without ordering.",
["schedules","configurations"],"every interleaving of the parallel regions at the granularity of memory accesses, 2 to 16 threads, every option that selects a parallel loop",
T+"the tests are built without OpenMP, so no interleaving exists at all.",
["ParticleRoutines.c","StokesAssemblyDecoupled.c","RheologyDensity.c","AdvectionRoutines.c","ThermalRoutines.c","FreeSurface.c","Main_DOODZ.c"],[("private, reduction, atomic and critical clauses","OpenMP pragmas of MDLIB"),("per-thread weights in marker to grid interpolation","ParticleRoutines.c P2Mastah")],[],["all output files"])
P("C06","Results do not depend on the number of threads",
"The same model run with any number of threads gives the same results up to round-off.",
["configurations","schedules"],"1 to 16 threads, more threads than rows or columns of the grid, every option",
T+"they use one thread.",
["ParticleRoutines.c","StokesAssemblyDecoupled.c","SparseTools.c","AdvectionRoutines.c"],[("division of rows, markers and matrix storage over threads","StokesAssemblyDecoupled.c DomainDecompositionDecoupled, AllocateTempMatArraysDecoupled"),("reductions","OpenMP pragmas of MDLIB")],[],["all output files"])
P("C07","What is written does not change what is computed",
"How often and how much a run writes (output interval, marker files, breakpoint deletion, debug files, verbosity, saving of initial markers) does not change the results of any step that both runs wrote.",
["configurations","histories"],"every combination of the output settings, every model option",
T+"they compare no field between two runs.",
["Main_DOODZ.c","HDF5Output.c","InputOutput.c"],[("output section of the time loop","Main_DOODZ.c"),("output is read-only on the model","HDF5Output.c WriteOutputHDF5, WriteOutputHDF5Particles")],[],["output files of common steps"])
P("C08","Result files are complete and right, or the run reports failure",
"A run that reports success has written every requested result file completely, with the results of an undisturbed run, whatever file operation failed on the way. After a failure or process death during a result file, a restart in the same directory completes and leaves every result file of the remaining steps complete and right.",
["fault_sequences","crash_points"],"every file operation of every result file, each error kind or a process death there",
T+"no test makes a write fail.",
["HDF5Output.c"],[("checked HDF5 calls, file created anew","HDF5Output.c CreateOutputHDF5, AddFieldToGroup")],[],["exit status, Output*.gzip.h5, Particles*.gzip.h5"])
P("C09","Results do not depend on memory content, clock or earlier runs",
"A run gives the same results whatever the fresh memory it is given contains, however the clock behaves, and whatever was run before in the same process. It does not read or write outside its memory or use memory it has freed.",
["configurations","inputs","fault_sequences"],"any content of uninitialised memory, slow, jumping or backward clocks, any sequence of runs in one process, every model option",
T+"they see one memory content, and a wrong value rarely changes an iteration count.",
["MemoryAllocFree.c","Main_DOODZ.c","HDF5Output.c","InputOutput.c"],[("initialising allocation","MemoryAllocFree.c DoodzCalloc, GridAlloc, PartAlloc"),("release at the end","Main_DOODZ.c"),("clock used for messages only","Main_DOODZ.c, Solvers.c")],[],["all output files, exit status"])
P("C10","The parameters used are those of the setup file, or the run stops",
"A run that completes has used exactly the parameters, phases and imported tables given by its files, whatever the order, blanks, comments and line ends in them, with the values and units written there. A setup file or table that is missing, cut off or cannot be read makes the run stop with a failure status; read errors never make it hang or go on with other values.",
["fault_sequences","inputs"],"every read of the setup file and the imported tables, each error kind, missing and truncated files",
T+"they read intact files only.",
["InputOutput.c"],[("parameter search and defaults","InputOutput.c ReadInputFile, ReadInt2, ReadDou2, ReadMatProps"),("phase diagrams and imported tables","InputOutput.c ReadPhaseDiagram; Main_DOODZ.c import")],[],["exit status, parameters and results in the output files"])
P("C11","Running out of memory stops the run and never corrupts the result",
"If a memory request fails at any point, the run stops with a failure status or a signal, or completes with the very result of the undisturbed run. Files it leaves under the name of a breakpoint are complete.",
["fault_sequences"],"every heap request of a run failing once or from then on",
T+"no request ever fails.",
["MemoryAllocFree.c"],[("checked allocation","MemoryAllocFree.c DoodzMalloc, DoodzCalloc, DoodzRealloc")],[],["exit status, output and breakpoint files"])
P("C12","Every marker stays valid, and moves with the flow",
"In every written step each active marker lies in the model box, has a valid phase, finite properties and fractions between 0 and 1, and markers present from the start keep their phase unless a phase change is modelled, which happens exactly at the temperatures the setup gives. Where a time step fits in one advection step, markers are moved by exactly the time step times the velocity attached to them.",
["inputs","configurations","histories","schedules"],"every model, option, number of threads, history of injected and removed markers and restarts",
T+"they look at no marker.",
["ParticleRoutines.c","ParticleReseeding.c","AdvectionRoutines.c","Main_DOODZ.c"],[("advection","AdvectionRoutines.c RogerGuntherII"),("removal and wrap-around of leaving markers","AdvectionRoutines.c isout, isoutPart"),("injection","ParticleReseeding.c")],[("phase -1","marker not in use")],["Particles*.gzip.h5"])
P("C13","A run always ends: all steps done and time consistent, or a reported failure",
"Every run ends, either with all requested steps written and a success status or with a reported failure. The written time grows at each step by the written time step, and time steps obey the constant, Courant and growth limits of the setup.",
["configurations","inputs","fault_sequences"],"every model with and without automatic reduction of the time step, jumping or backward clocks, any number of threads, harmless short transfers",
T+"they only run models whose non-linear iterations converge.",
["Main_DOODZ.c","AdvectionRoutines.c"],[("safe mode and stagnation","Main_DOODZ.c non-linear loop"),("time step selection","AdvectionRoutines.c DefineInitialTimestep, EvaluateCourantCriterion")],[],["exit status, Model/Params and time series of the output files"])
P("C14","Starting from saved initial markers gives the same run",
"A run started from initial markers saved by an earlier run of the same model gives the same results as that run, on any number of threads and memory content. Position and phase of the markers are those of the file, also if the setup would place them otherwise.",
["configurations","histories","inputs"],"every model and option, any thread count",
T+"none saves or loads initial markers.",
["InputOutput.c","Main_DOODZ.c"],[("saving and loading","InputOutput.c LoadIniParticles; Setup.c (saving and loading of initial markers)")],[],["IniParticles.dat, output files"])
P("C15","Written fields fit together: geometry, limits, means and box motion",
"In every written step grid coordinates fit the box and spacing, fields are finite outside air, viscosities are within the limits of the setup, the time series are the means of the written fields, and the box deforms as the boundary velocities prescribe.",
["inputs","configurations","schedules","histories"],"every model and option, any schedule, memory content, number of threads, with restarts",
T+"they look at no field.",
["HDF5Output.c","RheologyDensity.c","FreeSurface.c","Main_DOODZ.c"],[("viscosity limits","RheologyDensity.c ViscosityConcise"),("means","RheologyDensity.c LogTimeSeries"),("box deformation","AdvectionRoutines.c PureShearALE")],[],["Output*.gzip.h5"])
P("C16","Written velocities, strain rates, stresses and forces balance",
"In every written step of a mechanical model the written strain rates and divergence are those of the written velocities, viscous stresses are twice viscosity times strain rate, and boundary velocities are the imposed ones. When the iterations of the step have converged, forces balance in the interior and incompressible flow has no divergence.",
["inputs","configurations","schedules","histories"],"every mechanical model and option, any schedule, number of threads, memory content, with restarts",
T+"an iteration count does not tell whether the solution satisfies the equations.",
["StokesRoutines.c","StokesAssemblyDecoupled.c","Solvers.c","RheologyDensity.c","Main_DOODZ.c"],[("residuals","StokesRoutines.c EvaluateStokesResidualDecoupled"),("solver","Solvers.c, StokesRoutines.c"),("strain rates","RheologyDensity.c StrainRateComponents"),("update of velocities","StokesRoutines.c ExtractSolutions2")],[],["Output*.gzip.h5"])
P("C17","Written temperatures balance heat",
"In every step the written temperatures are those that heat conduction between the cells, radiogenic and adiabatic heat and viscous dissipation give from the temperatures of the step before, with the imposed boundary temperatures and bottom heat flux and with nothing gained or lost elsewhere, also across periodic sides and the free surface; without energy equation they do not change. The temperature of each marker changes by that of the grid around it.",
["inputs","configurations","schedules","histories"],"every thermal model and option without melting, any schedule, number of threads, memory content, with restarts",
T+"no test solves the energy equation.",
["ThermalRoutines.c","ThermalSolver.c","ParticleRoutines.c","Main_DOODZ.c","Setup.c"],[("energy equation","ThermalRoutines.c EnergyDirectSolve"),("markers and grid","ParticleRoutines.c P2Mastah, Interp_Grid2P_centroids2, UpdateParticleEnergy"),("boundary conditions","Setup.c SetBCs"),("order of a step","Main_DOODZ.c RunMDOODZ")],[],["Output*.gzip.h5","Particles*.gzip.h5"])
P("C18","Written compositions balance diffusion and reaction",
"From the second step on, written compositions in rock are those that diffusion between neighbouring cells and reaction kinetics give from the composition of the markers before the step, with the imposed compositions at sides and surface and the imposed bottom flux, and with nothing gained or lost elsewhere, also across periodic sides and the free surface. Without diffusion and reaction they stay as they were, with or without mechanics. The composition of each marker changes by that of the grid around it and stays between 0 and 1.",
["inputs","configurations","schedules","histories"],"every model with composition and option (without smoothing by diffuse_X), any schedule, number of threads, memory content, with restarts",
T+"none has a composition.",
["ChemicalRoutines.c","ParticleRoutines.c","Main_DOODZ.c","Setup.c"],[("diffusion","ChemicalRoutines.c ChemicalDirectSolve"),("reaction","RheologyDensity.c ViscosityConcise, ViscosityConciseAniso (X)"),("markers and grid","ParticleRoutines.c P2Mastah, Interp_Grid2P_centroids2"),("boundary conditions","Setup.c SetBCs")],[],["Output*.gzip.h5","Breakpoint*.dat"])
P("C19","The free surface moves with the rock and with erosion and sedimentation",
"Between two written steps with a free surface, the markers of the present and of the initial surface are carried by the flow of that step; the topography of each column is the weighted mean of its markers, raised, lowered or smoothed by exactly the requested erosion, sedimentation and incision, at zero mean where that is requested; the markers of the surface lie on it and those of the initial surface never above it. Cells with their centre above the topography are air and those below are rock, and vertices and velocity nodes follow the cells beside them. The written surface velocity is that of the uppermost rock. Wherever sediment raises the surface, markers of the sediment of that time, cold, unstrained and unstressed, fill the gap.",
["inputs","configurations","schedules","histories"],"every model with a free surface (extension, compression, shear, moving domains, periodic sides, all kinds of erosion), any schedule, number of threads, memory content, with restarts; Cartesian, steps advected in one sub-step",
T+"none has a free surface.",
["FreeSurface.c","AdvectionRoutines.c","ParticleRoutines.c","Main_DOODZ.c"],[("projection and remeshing","FreeSurface.c InterpTopoPart2Grid, RemeshMarkerChain, MarkerChainPolyFit, CorrectTopoIni"),("surface processes","FreeSurface.c DiffuseAlongTopography, KeepZeroMeanTopo, AddPartSed"),("motion","AdvectionRoutines.c RogerGuntherII; FreeSurface.c SurfaceVelocity"),("flags","FreeSurface.c CellFlagging"),("order of a step","Main_DOODZ.c RunMDOODZ")],[],["Output*.gzip.h5","Particles*.gzip.h5","Breakpoint*.dat"])
P("C20","Markers remember what the rock went through",
"From one written step to the next, every marker keeps its memory and adds what happened to the rock around it: accumulated strain grows by the strain rate of each mechanism times the time step; the deformation gradient is multiplied by that of the flow of the step; the director of anisotropic rock turns with the flow at unit length; stresses and pressure change by the change of the stress and pressure of the grid and stresses then turn with the vorticity when rotation is requested; grain size is that of the grid; the highest temperature and pressure never decrease and are reached; initial temperature, pressure and position never change. Air adds nothing, also next to the free surface.",
["inputs","configurations","schedules","histories"],"every model and option (without subgrid stress diffusion), any schedule, number of threads, memory content, with restarts",
T+"what markers remember is not read.",
["RheologyParticles.c","ParticleRoutines.c","Main_DOODZ.c"],[("strain","RheologyParticles.c AccumulatedStrainII"),("deformation gradient","RheologyParticles.c DeformationGradient"),("director and stress","RheologyParticles.c UpdateParticleStress"),("pressure and grain size","RheologyParticles.c UpdateParticlePressure, UpdateParticleGrainSize"),("extremes","RheologyParticles.c UpdateMaxPT"),("grid to markers","ParticleRoutines.c Interp_Grid2P, Interp_Grid2P_centroids2")],[],["Breakpoint*.dat","Output*.gzip.h5","Particles*.gzip.h5"])
NA=[("N01","The solution converges to analytical solutions as the grid is refined","For problems with known solutions the error of velocity and pressure decreases at the expected order as the grid is refined.","Main_DOODZ.c","Accuracy of discretisation for one fixed input: a pure numerical function, no schedule, fault, clock or history takes part; it is an analysis of the discretisation, not of executions."),
("N02","Results do not depend on the choice of characteristic units","The same dimensional model with other characteristic units gives the same dimensional results up to round-off.","InputOutput.c","A relation between pure inputs; no event a simulator controls affects it (the units only divide the input), so seeded schedules and faults add nothing to ordinary property-based input generation."),
("N03","Flow laws, densities and phase diagrams give the published material behaviour","For every phase, temperature, pressure and strain rate the evaluated viscosity and density are those of the selected flow law and density model.","FlowLaws.c","A pure function of its arguments and tables; no concurrency, time, I/O or multi-party behaviour (reading the tables is covered by C10)."),
("N04","The consistent tangent makes the non-linear iterations converge quadratically","With the consistent tangent the number of iterations for a given tolerance is that of Newton's method.","StokesAssemblyDecoupled.c","A speed-of-convergence property of one deterministic computation; the existing tests measure it directly and no simulated event can change it.")]
for id,t,s,f,why in NA:
    P(id,t,s,["inputs"],"all models",T+"other inputs are not tried.",[f],[("the computation itself",f)])
open(ROOT+'properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in L))
lv={c:"exploration" for c in ["C%02d"%i for i in range(1,21)]}
for c in ("C02","C03","C04","C08","C10","C11","C13"): lv[c]="fault_enumeration"
note="Seeded search, not exhaustive: holds on every simulated run of this execution. All of MDLIB, HDF5, SuiteSparse run as real code; the OpenMP runtime, libc file/heap/clock/rand entry points and process death are simulated. "
extra={"C01":"Oracle: the uninterrupted run. K1, K2, K5 are known findings.","C02":"Oracle: the undisturbed run; crash granularity is one file operation or part of a write; loss of the page cache is not simulated (a process death, not a power failure).","C03":"Oracle: the undisturbed run and restarts from every breakpoint left.","C04":"Oracle: the run from the undamaged file.","C05":"Oracle: the run with the default schedule and a happens-before race detector over every load and store of MDLIB.","C06":"Oracle: the run with one thread, with a tolerance scaled by the rounding sensitivity measured for each model.","C07":"Oracle: the run that writes everything at each step.","C08":"Oracle: the undisturbed run.","C09":"Oracle: the run with zeroed memory and a normal clock; guard zones and freed-block poisoning.","C10":"Oracle: the parameters written by the undisturbed run.","C11":"Oracle: the undisturbed run.","C12":"Oracle: reference model of one marker step, and invariants.","C13":"Oracle: reference model of the time line; bounded progress.","C14":"Oracle: the run that saved the markers.","C15":"Oracle: means and geometry recomputed from the written fields. K6 is a known finding.","C16":"Oracle: finite differences of the written fields; force balance only for converged steps, without the four corner cells of the box.","C17":"Oracle: reference model of one thermal step, evaluated from the markers and fields written before it; not for melting (its latent heat is not written) and for steps in which the surface passes within 5 % of a cell height of a cell centre.","C18":"Oracle: reference model of one step of diffusion and reaction, evaluated from the markers in the breakpoint written before it and the written pressure; generated models only.","C19":"Oracle: reference model of one step of the surface, evaluated from the surface markers and the flow in the files of two consecutive steps; steps with more than one advection sub-step, or with a marker in the middle of a tie, are left out.","C20":"Oracle: reference model of one update of the memory of markers, evaluated from the breakpoints and output files of two consecutive steps; not for markers created or replaced in the step, stress and pressure with subgrid_diffusion=2, strain and deformation gradient in steps with more than one advection sub-step."}
M=dict(version=1,setup_cmd="bash sim/build.sh build/sim",checks=[dict(property=c,quick_cmd="python3-vt check.py "+c,thorough_cmd="python3-vt check.py %s --tier thorough"%c,technique="deterministic simulation with fault injection (seeded search)",level=lv[c],level_note=note+extra[c]) for c in sorted(lv)],
not_applicable=[dict(property=n[0],reason=n[4]) for n in NA],notes="No hooks in /repo: the simulator replaces the OpenMP runtime and libc entry points when it links MDLIB's sources (all compiled from /repo at each run, cached by content). known_findings.json lists findings and fixes; DESIGN.md describes the method.")
json.dump(M,open(ROOT+'MANIFEST.json','w'),indent=1)
