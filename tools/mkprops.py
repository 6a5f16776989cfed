import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=hook)))
R="starwinds_magnetogram/"
RW=R+"reader_writer.py"; CV=R+"converter.py"; BC=R+"bin/convert_magnetogram.py"; CO=R+"coefficients.py"
p("C01","A written magnetogram file reads back as what was written",
 "When writing a magnetogram file reports success, reading that path afterwards returns exactly the coefficients that were passed in, for every requested degree, order and component, to the seven significant digits the format holds, with never-set entries reading as zero, until a later write to the same path succeeds. The SWMF header, when asked for, states the number of data lines and the highest degree that the body really has. This holds whatever was stored at the path before and however the operating system splits, shortens or restarts the individual reads and writes.",
 ["histories","fault_sequences","inputs"],
 "All sequences of writes, overwrites (shorter over longer and the reverse) and reads over several paths, all degree ranges, component counts and header options, under short reads, short writes and interrupted system calls.",
 "The only reader/writer tests write one five-line file once and never read it back or check a value; no test overwrites a file or meets a short write.",
 [RW],[("text serialisation and the write of all lines","reader_writer.write_magnetogram_file"),("line parser and component splitting","reader_writer.read_magnetogram_file"),("SWMF header","reader_writer.create_swmf_header"),("selection of degrees and orders","coefficients.Coefficients.as_arrays")],
 [dict(name="magnetogram file",meaning="text lines degree, order, real, imaginary, one block per component",where=RW)],["return value of the reader","bytes of the file"])
p("C02","A write that fails or is cut short never damages the file",
 "If writing a magnetogram file fails with an error, is interrupted, or the process or the machine dies at any instant during the write, the destination afterwards holds either its complete previous content (or is still absent) or the complete new content, never a mixture, a prefix or an empty file. A write that fails for lack of space or another I/O error reports the error to its caller. Once the fault is gone, the same write succeeds.",
 ["crash_points","fault_sequences","histories"],
 "Every system call of every write as a crash or error point (full disk, I/O error, failed close, failed sync, failed rename, torn write, power loss that drops data not yet synced), over new and existing destinations.",
 "No test injects an I/O error or a crash; a test run in which every system call succeeds cannot tell an atomic replacement from truncate-and-rewrite.",
 [RW],[("creation of the new content and its publication at the destination","reader_writer.write_magnetogram_file")],
 [dict(name="destination file",meaning="durable content of the path being written",where=RW)],["bytes of the destination after restart","error seen by the caller"])
p("C03","Reading a magnetogram file gives all of its content or an error",
 "A read of a magnetogram file that returns normally returns every coefficient of every component of one complete version of that file; if any part of the file cannot be read, the read raises an error instead of returning fewer or different coefficients. Reads and writes of one path from concurrent processes behave like an atomic register: a read returns the content of one single write (or the initial content), consistent with real-time order. Reading never changes the file or any other file.",
 ["schedules","fault_sequences","histories"],
 "All interleavings of concurrent readers and writers of the same path at system-call granularity; I/O errors, interrupted calls and short reads at every read; failing allocations and interrupts while lines are parsed; files with headers, comments, blank lines and any line order.",
 "Tests read one small file in one process with no fault; no test has a reader and a writer active at once.",
 [RW,CO],[("whole-file read and per-line acceptance","reader_writer.read_magnetogram_file"),("joining of component blocks","coefficients.hstack")],
 None,["return value or exception of the reader","directory content"])
p("C04","The converter command never alters its input or a bystander file",
 "Whatever its options and however the command ends (success, error, full disk, kill at any instant), converting a magnetogram never changes or removes the content of the input file, even when the output name denotes the same file by another spelling or link, and never changes or removes any pre-existing file other than the named output. When input and output denote the same file the command refuses with an error.",
 ["inputs","crash_points","fault_sequences"],
 "All ways of naming input and output (relative, absolute, dotted, through symbolic links, hard links and linked directories, defaulted), all modes and options, with a fault or kill at every system call.",
 "Tests call the command with two unrelated names, look only at the exit code, and inject nothing.",
 [BC,RW],[("comparison of input and output names","bin/convert_magnetogram._make_output_filename"),("creation of the output","reader_writer.write_magnetogram_file")],
 None,["content of every file of the simulated disk before and after"])
p("C05","The converter's success means a complete and correct output",
 "The converter command exits with status zero only if the output file then exists, is complete, and holds the correct conversion of the input's content (the requested direction, degree limit and header, every coefficient of the range); every failure to read, convert or write ends in a non-zero status with a message. With no fault present a valid command succeeds, and after a fault disappears re-running the command succeeds within one attempt.",
 ["fault_sequences","histories","configurations"],
 "All option combinations (both directions, no-conversion, no-header, degree limit below, at and above the input's degree, verbosity) over sequences of commands chained on each other's outputs, under I/O errors, short transfers and failed system calls at any point.",
 "The console tests check only exit code zero on six fixed fault-free command lines and never open the output.",
 [BC,R+"bin/generic_arguments.py",RW,CV],[("mode dispatch","bin/convert_magnetogram.main"),("ZDI to PFSS scaling","converter.convert_zdi_to_pfss"),("PFSS to ZDI scaling","converter.convert_pfss_to_zdi"),("output","reader_writer.write_magnetogram_file")],
 None,["exit status","standard error","bytes of the output file"])
p("C06","Automatically named outputs never overwrite an existing file",
 "When no output name is given, the converter derives one and either creates a new file there or fails with an error, so a file that already exists under that name is never overwritten. This also holds when several converters run at the same time in one directory: of the commands that derive the same name at most one succeeds, every other one reports an error, and the surviving file is the complete output of the one that reported success.",
 ["schedules","crash_points","histories"],
 "All interleavings, at system-call and statement granularity, of two or more converter commands whose derived names coincide or differ, with kills and I/O errors, over directories with and without earlier outputs.",
 "No test omits the output name or runs two commands at once; the window between the existence check and the creation is never exercised.",
 [BC,RW],[("derived name and existence check","bin/convert_magnetogram._make_output_filename"),("creation of the output","reader_writer.write_magnetogram_file")],
 None,["exit status of every command","content of the derived path"])
p("C07","Concurrent calls on shared objects give the sequential results",
 "When several threads of one program call the library's computations at the same time, sharing magnetograms, coefficient sets, geometries and arrays that none of them changes, every call returns what it would have returned had it run alone, no call fails because of another, and all of them finish. This also holds when one of the calls fails, for lack of memory say: the others are not disturbed.",
 ["schedules"],
 "All interleavings at statement granularity of two or more concurrent calls of any public computations (evaluation, conversion, rotation, energies, image transforms, stellar-wind and longitudinal-field routines, coefficient algebra) on shared and on separate arguments.",
 "Every test is single-threaded; hidden shared buffers, unguarded caches and temporarily modified arguments pass any sequential test.",
 [R+"image_converter.py",R+"zdi_magnetogram.py",R+"pfss_magnetogram.py",CV,R+"associated_legendre.py",R+"geometry.py",R+"parker_solution.py",R+"longitudinal_field.py",R+"rotate.py",CO],
 [("per-call temporaries only","all evaluation routines"),("memoised spherical harmonics","image_converter._cached_spherical_harmonic")],
 [dict(name="harmonics cache",meaning="process-wide memo of spherical harmonic values per degree, order and grid",where=R+"image_converter.py")],["return values of all calls"])
p("C08","A result depends only on the arguments, not on what happened before",
 "Every computation returns the same result for the same argument values, whatever calls succeeded or failed earlier in the process, whichever objects were created, changed or discarded since, and whatever the clock, the log level, the random generator's state and the contents of recycled memory are. No computation, successful or not, changes process-wide settings such as floating-point error handling, print options, the working directory or the log configuration. Computations that are not documented as random neither consume nor reset the program's random generators.",
 ["histories","configurations"],
 "All finite histories of calls, object creations, legitimate modifications and failures before the observed call, including histories long enough to fill and evict every cache, with clock jumps, dirty memory and arbitrary random-generator state.",
 "Each test observes a function once or a few times in a fresh state; a stale or wrongly keyed cache needs a particular earlier call with almost equal arguments.",
 [R+"image_converter.py",R+"zdi_magnetogram.py",R+"pfss_magnetogram.py",CV,R+"geometry.py",CO,R+"parker_solution.py",R+"fibonacci_sphere.py"],
 [("memoised spherical harmonics and its key","image_converter.spherical_harmonic"),("timing of calls for the log only","image_converter.TimeLogger"),("default values of unset entries","coefficients.isclose")],
 [dict(name="harmonics cache",meaning="process-wide memo",where=R+"image_converter.py")],["return value compared with the same call in a fresh process"])
p("C09","Computations do not modify their arguments or share results",
 "No computation changes the arrays, coefficient sets, geometries or magnetograms it is given, apart from a dictionary passed in expressly to receive results. What a computation returns belongs to the caller alone: writing into a returned array or object changes neither the arguments nor the result of any earlier or later call.",
 ["histories","inputs"],
 "All histories that mix public computations on shared arguments with callers overwriting the results they received.",
 "Tests build fresh arguments for every call and do not look at them afterwards, nor do they write into results.",
 [R+"parker_solution.py",R+"image_converter.py",CO,CV,R+"pfss_magnetogram.py",R+"zdi_magnetogram.py",R+"geometry.py",R+"rotate.py"],
 [("clamping of radii","parker_solution.ParkerSolution.speed"),("memoised arrays handed out","image_converter.spherical_harmonic"),("copying of containers","coefficients.copy")],
 None,["argument contents before and after","later results"])
p("C10","A failed or interrupted computation fails visibly and without trace",
 "When memory runs out or the user interrupts at any point inside a computation, the call either raises an error or returns the complete correct result; it never returns a partial or different one. The arguments are unchanged afterwards, and repeating the call, or making any other call, gives the same result as if the failed one had never happened.",
 ["fault_sequences","crash_points"],
 "A failed array allocation or an interrupt at every point inside every public computation, singly and in sequences, followed by repeated and different calls.",
 "No test injects a failure inside a computation.",
 [R+"image_converter.py",R+"zdi_magnetogram.py",R+"pfss_magnetogram.py",CV,R+"associated_legendre.py",R+"geometry.py",CO,R+"rotate.py",R+"parker_solution.py",R+"longitudinal_field.py"],
 [("timing context that must not swallow exceptions","image_converter.TimeLogger"),("cache filled only by completed calls","image_converter._cached_spherical_harmonic"),("results built in fresh objects","coefficients, converter, rotate")],
 None,["return value or exception","argument contents","result of the repeated call"])
p("C11","A coefficient set behaves as a keyed table under any history",
 "A set of spherical-harmonic coefficients behaves like a table from (degree, order) to a value with a default for missing entries: after any history of additions, overwrites, copies, sums, scalings, powers, truncations, stackings and splittings, lookups, membership, size, highest degree, lowest order, listings and array exports agree with that table and do not depend on the order in which entries were added. A rejected or failed change (duplicate entry, order out of range, wrong shape, no memory) leaves the set exactly as it was. Derived sets are independent of their sources.",
 ["histories","fault_sequences"],
 "All histories of operations over several coexisting coefficient sets of all value shapes, including rejected and failed operations.",
 "The tests apply one or two operations to sets of one to three entries and mostly check only that nothing is raised.",
 [CO],[("entry storage and bounds","coefficients.Coefficients.set, append"),("derivations","coefficients.copy, add, multiply, scale, truncated, hstack, hsplit, from_arrays"),("export","coefficients.Coefficients.as_arrays")],
 [dict(name="coefficients",meaning="mapping from (degree, order) to value",where=CO),dict(name="degree_max, order_min",meaning="bounds maintained by changes",where=CO)],["all public observers of the set"])
p("C12","Random magnetograms use each random draw exactly once",
 "A noise magnetogram takes two values from the random source per coefficient, for every degree of the requested range and every order from zero to the degree, uses each value in exactly one place as real or imaginary part with the documented degree scaling, and never reuses values from earlier or concurrent calls. If the source fails part-way the failure reaches the caller. With the same source state the same magnetogram (and the same randomised point set) results, and randomised sphere points always lie on the unit sphere with one point per equal-area latitude band.",
 ["schedules","fault_sequences","histories"],
 "All sequences and interleavings of generator calls sharing a random source, all degree ranges and scalings, all source values including extremes, and a failure at any draw.",
 "Noise is used once, unseeded, as test input and its values are never checked; randomised sphere points are never tested.",
 [CO,R+"fibonacci_sphere.py"],[("draws and scaling","coefficients.noise"),("random offset","fibonacci_sphere.fibonacci_sphere")],
 None,["values drawn from the source versus coefficients returned"])
p("C13","Plot commands deliver the complete picture or a visible failure",
 "The magnetogram and line-profile plot commands exit with status zero only if the output image exists and is complete, and the picture depends only on the input file and the options: it is the same whatever was plotted before in the process and whatever transient short or interrupted system calls occur. Any failure to read the input or write the image gives a non-zero status, and no run changes the input file. With no fault present a valid command succeeds, also right after a failed one.",
 ["histories","fault_sequences","configurations"],
 "All sequences of plot commands of all plot types in one process, with I/O errors, full disk, short transfers, failing calls and interrupts at any point.",
 "Console tests check only the exit code of fault-free runs and never look at the image; the line-profile command is not tested at all.",
 [R+"bin/plot_magnetogram.py",R+"bin/plot_lsd.py",R+"plot_zdi.py",R+"plots.py",R+"plot_lsd.py"],
 [("command bodies","bin/plot_magnetogram.main, bin/plot_lsd.main"),("figure creation and closing","plot_zdi, plots")],
 [dict(name="pyplot state",meaning="process-wide current figure and settings",where="matplotlib.pyplot, used by all plot modules")],["exit status","decoded pixels of the image","input file"])
p("C14","Drawing into given axes is independent of other figures",
 "A plot routine that is given axes draws only into the figure of those axes: the picture it produces is the same whichever other figures exist or are current, and no other figure, no global plot setting and no plotted data object is changed. A routine that makes a figure of its own produces the picture it would produce in a process without other figures, and leaves the existing ones, the settings and the data as they were. A plot call that fails leaves other figures as they were.",
 ["histories","fault_sequences"],
 "All sequences of plot calls over several open figures with any of them current, interleaved with failed or interrupted plot calls.",
 "Each plotting test opens one figure, draws once, saves and closes; interference needs at least two figures.",
 [R+"plots.py",R+"plot_zdi.py",R+"plot_pfss.py",R+"plot_lsd.py",R+"longitudinal_field.py"],
 [("drawing through axes methods","plots.plot_components, plots.plot_magnetic_field, plot_zdi.*, plot_pfss.plot_components, longitudinal_field.plot_longitudinal_field_curve")],
 [dict(name="pyplot state",meaning="process-wide current figure and settings",where="matplotlib.pyplot")],["rendered pixels of every open figure"])
p("C15","Objects handed to other processes or copied stay equivalent and independent",
 "Magnetograms, coefficient sets, geometries and wind solutions can be handed to another process (pickled, with any protocol) and copied (copy, deepcopy) at any moment of a program's history, also right after calls on them failed and while other threads are inside calls on them. What arrives equals the original and gives the same results, results of calls can be sent back likewise, later changes of a sent or deeply copied object and of its original do not reach the other, and handing on changes nothing. A process forked while other threads are inside the library gets its own calls answered correctly and never waits for threads it does not have.",
 ["schedules","histories","fault_sequences"],
 "All histories of calls, changes, failed calls and copies, all interleavings of threads that call, copy, pickle and fork, all pickle protocols.",
 "No test pickles, copies or forks; a lock or a closure kept in an object, state left out of a pickle, or a module lock held during a fork passes all of them.",
 [CO,R+"zdi_magnetogram.py",R+"geometry.py",R+"parker_solution.py",R+"image_converter.py"],[("object state","Coefficients, ZdiMagnetogram, ZdiGeometry, ParkerSolution instances"),("process-wide memo","image_converter._cached_spherical_harmonic")],
 [dict(name="object state",meaning="instance attributes, including anything cached in them",where="coefficients.Coefficients, zdi_magnetogram.ZdiMagnetogram, geometry.ZdiGeometry, parker_solution.ParkerSolution")],["objects and results in the receiving process, compared with solitary calls"])
p("C16","Starting up works in any order, leaves the process alone and survives failures",
 "Every module of the package can be imported on its own, in any order, by several threads at once and from any working directory, and an import that fails (disk error, too many open files, memory shortage, user interrupt) can simply be repeated. However a program got there, the modules it ends up with are those of a program that imported everything at once and undisturbed: the same names, constants, functions and defaults, and every computation gives the same results, whichever modules have been imported before or after it. Importing a module other than a command changes nothing else in the process (random generators, floating-point error handling, plot settings, figures, warning filters, log levels and handlers, signal handlers, search path), prints nothing, and writes and creates nothing; the commands may set up logging.",
 ["schedules","fault_sequences","histories"],
 "All orders of imports, all interleavings of threads that import and compute, every statement and every file call of an import as the point of a failure, repeated attempts, computations between imports.",
 "A test process imports every module once, in one order, on a healthy disk, and no test looks at the process afterwards.",
 [R+"__init__.py",R+"bin/plot_magnetogram.py",R+"plot_zdi.py",R+"converter.py",R+"zdi_magnetogram.py"],[("statements executed when a module is imported","top level of every module"),("import of other modules of the package","import statements of every module")],
 [dict(name="module state",meaning="names, constants, memo tables and defaults held by modules",where="top level of every module")],["names and values in the modules","results of computations","settings of the process, files, output"])
p("C17","Nothing is left behind and nothing accumulates",
 "However many computations, file operations, conversions and drawings a process performs, with whatever values and however many of them fail (errors of file calls, memory shortage, user interrupt), it can go on for ever: after each of them no file it opened stays open, no file other than the requested one is left on disk, no thread or process keeps running, no log handler is added, and figures the program has closed are released. Memory does not grow with the number of calls: what is remembered between calls is bounded.",
 ["histories","fault_sequences"],
 "All series of calls with ever new values, interrupts and memory errors at any statement and failing file calls in any of them.",
 "Tests make few calls and then end the process, which hides every descriptor, file, figure and memo that is never released.",
 [RW,R+"image_converter.py",R+"geometry.py",CO,R+"plots.py",R+"bin/convert_magnetogram.py"],[("release of the temporary file","reader_writer._replace_when_complete"),("bounded memo","image_converter._cached_spherical_harmonic")],
 [dict(name="process-wide memo",meaning="results remembered between calls",where="image_converter._cached_spherical_harmonic")],["open descriptors, threads and processes","directory contents","number of objects and entries in the process"])
na={}
def n(id,title,statement,text,why,files,mech,reason):
    p(id,title,statement,["inputs"],text,why,files,mech); na[id]=reason
PURE="A pure function of its input values: no schedule, clock, I/O, randomness, shared state or fault takes part, so simulated schedules and faults cannot influence its truth; deciding it would be plain input generation. (What schedules, faults and histories can do to these routines is decided by %s.)"
n("C20","ZDI and PFSS forms of a magnetogram describe the same surface field",
 "Converting radial coefficients from the ZDI to the PFSS convention leaves the radial surface field unchanged at every point, and converting back restores the coefficients.",
 "All coefficient sets and all surface points.","Tests compare fields for a few fixed magnetograms and grids.",
 [CV,R+"pfss_magnetogram.py",R+"zdi_magnetogram.py"],[("conversion factor","converter.forward_conversion_factor")],PURE%"C05, C07-C10")
n("C21","Rotation is a field rotation",
 "Rotating a magnetogram and evaluating it at rotated points gives the original field; rotations compose, invert and preserve the energy of every degree.",
 "All magnetograms, rotations and points.","Tests use a handful of rotations and magnetograms.",[R+"rotate.py"],[("Wigner D matrices","rotate.rotate_magnetogram")],PURE%"C07-C10")
n("C22","Folding negative orders keeps the field",
 "Mapping negative orders onto non-negative orders leaves the real field unchanged.",
 "All coefficient sets with any mixture of orders.","Tests use a few random sets.",[CV],[("fold","converter.map_to_positive_orders")],PURE%"C07-C10")
n("C23","The extrapolated PFSS field is a potential field with its boundary values",
 "Between star and source surface the extrapolated field is divergence- and curl-free, matches the given radial field at the star, is purely radial at the source surface, is zero inside the star and falls off as inverse square outside the source surface.",
 "All coefficient sets, radii and points.","Tests sample fixed cases.",[R+"pfss_magnetogram.py"],[("radial, polar and azimuth factors","pfss_magnetogram.evaluate_spherical")],PURE%"C07-C10")
n("C24","Analysis and synthesis of spherical harmonics are inverse",
 "Coefficients derived from a sampled field or image reproduce that field up to the truncation degree and grid resolution, and coefficients of a synthesised field are recovered.",
 "All band-limited fields and sufficiently fine grids.","Tests use a few grids and fields.",[CV,R+"image_converter.py"],[("projection integrals","converter.get_zdi_coeffs, image_converter.from_image")],PURE%"C07-C10")
n("C25","Magnetic energies are consistent",
 "Energies per component, degree and order are non-negative, add up to the surface integral of the squared field, and the reported fractions add up to one.",
 "All magnetograms.","Tests use fixed magnetograms.",[R+"zdi_magnetogram.py"],[("energy sums","zdi_magnetogram.ZdiMagnetogram.energy, energy_matrix")],PURE%"C07-C10")
n("C26","The Parker wind solves its equation",
 "The wind speed satisfies the Parker equation on the transonic branch at every radius, increases with radius, and mass flux is the same through every enclosing surface.",
 "All temperatures, masses, radii.","Tests sample a few parameters.",[R+"parker_solution.py"],[("Lambert W branch choice","parker_solution.AnalyticBase.find_parker_analytic")],PURE%"C07-C10")
n("C27","Surface geometry tiles the sphere",
 "Facet areas are positive and add up to the covered area, visible-area fractions lie between zero and one, and coordinate transformations are inverse rotations.",
 "All grids, points and directions.","Tests use default grids.",[R+"geometry.py",R+"coordinate_transforms.py"],[("areas and normals","geometry.ZdiGeometry")],PURE%"C07-C10")
n("C28","The longitudinal field follows the observer",
 "The disc-averaged line-of-sight field is linear in the magnetogram, periodic in observer azimuth and bounded by the maximum field strength.",
 "All magnetograms and observer directions.","Tests sample fixed cases.",[R+"longitudinal_field.py"],[("disc integration","longitudinal_field.get_longitudinal_field_curve")],PURE%"C07-C10")
json.dump(na,open('tools/na.json','w'),indent=1)
with open('properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x)+"\n")
