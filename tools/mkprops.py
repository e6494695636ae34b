import json, os, sys
DC="qctrlopencontrols/driven_controls/driven_control.py"
DP="qctrlopencontrols/driven_controls/predefined.py"
SQ="qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py"
SP="qctrlopencontrols/dynamic_decoupling_sequences/predefined.py"
UT="qctrlopencontrols/utils.py"; EX="qctrlopencontrols/exceptions.py"; CO="qctrlopencontrols/constants.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=list(state),mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
ALLF=[DC,DP,SQ,SP,UT,EX,CO]
p("C01","An export that returns normally has written the whole control, exactly",
 "On healthy storage export_to_file of any driven control, or of any decoupling sequence with a driven-control equivalent at the given maximum rates, returns normally; and whenever it returns normally the named file holds one complete Q-CTRL expanded document in the requested file type and coordinates: for every segment the detuning, duration and angle at full double precision, the amplitudes divided by the maximum Rabi rate (all zero when that rate is zero), the maximum Rabi rate, and in JSON the name if there is one; for a sequence these are the segments of that equivalent. This holds whatever the file contained before, whatever earlier exports did, for named and unnamed objects at any physical time scale, and however the storage behaves (short writes, interrupted calls, errors, a full disk).",
 ["inputs","histories","fault_sequences"],
 "for every control and sequence, every earlier content of the file, every history of earlier exports and every sequence of storage faults",
 "The tests export one named three-segment control to a healthy disk and only check that a file exists; content, reused paths, unnamed controls and faulty storage are never reached.",
 [DC,SQ],[("file writing and field normalisation",DC+": _export_to_qctrl_expanded_format, _qctrl_expanded_export_content"),("sequence export through conversion",SQ+": export_to_file, convert_dds_to_driven_control")],
 [dict(name="destination file",meaning="bytes the caller relies on after the call returned",where="file system")],
 ["return of export_to_file","destination file bytes"])
p("C02","A rejected export never touches storage",
 "export_to_file raises ArgumentsValueError for an unsupported file format, file type or coordinate system (only the exact documented names are supported), and for a sequence that has no driven-control equivalent: a non-positive maximum rate, a negative Rabi rotation, a pulse with both a Rabi and a (positive or negative) detuning rotation, offsets not strictly increasing, or pulses that would overlap each other or leave the sequence at the given rates. Such a call creates, truncates, modifies or removes no file: everything stored before it is still there byte for byte.",
 ["inputs","histories","fault_sequences"],
 "for every invalid argument or unconvertible sequence, whatever files exist, whatever calls preceded, on healthy or faulty storage",
 "No test makes an invalid export_to_file call, and none looks at what an export does to a file that already exists.",
 [DC,SQ],[("validation precedes any open",DC+": export_to_file"),("conversion precedes any open",SQ+": export_to_file, convert_dds_to_driven_control, _check_valid_operation")],
 [dict(name="directory tree",meaning="all files and their bytes",where="file system")],["exception raised","storage operations performed","directory tree before and after"])
p("C03","A failed export reports the failure, leaks nothing and can be retried",
 "If storage fails during export_to_file so that the file is not completely written, the call raises: the operating system's own error (OSError with that errno) reaches the caller, or KeyboardInterrupt when the call was interrupted by Ctrl-C. After any failed export every file the call opened is closed, the exported object is unchanged, no other file was changed or left behind, and as soon as storage works again one repetition of the same call succeeds and leaves the exact document.",
 ["fault_sequences","histories","inputs"],
 "for every fault or interrupt at any storage operation (open, each write, close) of any export, transient or persistent",
 "The tests never see a failing storage call.",
 [DC,SQ],[("context-managed file handles, no exception swallowing",DC+": _export_to_qctrl_expanded_format")],
 [dict(name="open descriptors",meaning="files opened by the call",where="process")],["exception raised","descriptor table","object arrays","file after the retry"])
p("C04","A crash during an export never blends documents or harms other files",
 "If the process dies at any storage operation of an export, the destination holds either exactly what it held before or a prefix (possibly empty) of exactly the document the completed export would have written, never a mixture with older content; all other files, including earlier completed exports, keep their bytes. After a restart, repeating the export produces the exact document.",
 ["crash_points","histories","inputs"],
 "for every crash point before, inside or after every storage operation, every earlier content of the destination",
 "No test kills the process, and none exports over an existing file.",
 [DC,SQ],[("truncate-then-append writing of one freshly opened file",DC+": _export_to_qctrl_expanded_format")],
 [dict(name="destination file",meaning="bytes surviving the crash",where="file system")],["files after the crash","files after the restarted export"])
p("C05","Concurrent callers get exactly what they would get alone",
 "Any number of threads may at the same time create controls and sequences with any constructor or predefined factory, read any property, convert, format, and export the same or different objects (to different files). In every interleaving each call finishes and returns, raises or writes exactly what it would have if it had run alone, and no shared object changes.",
 ["schedules","inputs"],
 "for every interleaving at bytecode granularity of every mix of concurrent calls on shared and private objects",
 "All tests are single-threaded, so no interleaving is ever exercised.",
 ALLF,[("stateless functions and read-only queries","all modules: no module-level mutable state is written")],
 [dict(name="shared objects",meaning="controls and sequences handed to several threads",where="caller")],["value, exception or file of each call","shared object arrays"])
p("C06","A call's result does not depend on the calls made before it",
 "The value, exception or file produced by a call depends only on its arguments and the object it is made on, never on which calls were made before in the process: not on earlier successful or rejected calls with equal or similar arguments, and not on what the caller did to earlier results. Objects and values returned by separate calls share no mutable state (arrays the caller passed in itself excepted): changing arrays or dictionaries obtained from one call in place affects neither another object nor the object it was obtained from (an object's own stored arrays excepted) nor any later call, and no call modifies the arrays or lists passed to it.",
 ["histories","inputs"],
 "for every history of calls, including repeated and nearly equal arguments, rejected calls and in-place changes to earlier results",
 "The tests make each call once or twice on fresh objects and never modify a result before calling again.",
 ALLF,[("results are built from fresh arrays","all factories and properties")],
 [dict(name="earlier results",meaning="objects, arrays and dictionaries already returned",where="caller")],["value of each call","earlier results","argument arrays"])
p("C07","A call aborted part-way leaves no trace",
 "If a call is aborted by an exception raised at any point inside it (Ctrl-C, a failed allocation), that exception reaches the caller unchanged, all objects, arrays and lists that existed before are exactly as they were, process-wide settings are as before, and every later call, including a repetition of the aborted one, gives exactly the result it would have given had the aborted call never been made. An aborted import of the package can likewise be repeated.",
 ["crash_points","fault_sequences","histories"],
 "for every statement at which any public call can be aborted, with any exception, followed by any further calls",
 "No test interrupts a call.",
 ALLF,[("no observable state is written before a result is complete","all modules"),("constructors assign only validated data",DC+": DrivenControl.__init__; "+SQ+": DynamicDecouplingSequence.__init__")],
 [dict(name="pre-existing objects",meaning="anything the caller held before the aborted call",where="caller")],["exception raised","pre-existing objects","later results"])
p("C08","Calls neither change nor depend on process-wide state",
 "No call, whether it succeeds, is rejected or is aborted, and no import of the package changes process-wide state: NumPy error handling and print options, random generator states, warning filters, working directory, environment, locale, signal handlers, umask, standard streams, the library's own constants. Conversely the numbers returned by any call, and the numbers in the documents it writes, do not depend on the random generator states, the clock, the working directory (for absolute paths), environment variables or NumPy print options.",
 ["configurations","histories","fault_sequences"],
 "for every call, outcome and every setting of the process-wide state, with state changes and clock jumps between calls",
 "The tests run in one fixed ambient configuration and never compare process-wide state before and after a call.",
 ALLF,[("pure computation on arguments","all modules")],
 [dict(name="ambient state",meaning="process-wide settings listed in the statement",where="process")],["ambient snapshot before and after each call","results under perturbed ambient state"])
p("C09","Queries always reflect the object's current data",
 "A control's segment arrays and name, and a sequence's duration, pulse arrays and name, are public attributes that the caller may change in place or reassign at any time. After any history of such changes and queries, every property, plot export, text form, conversion and file export gives exactly what a newly created object holding the current data gives.",
 ["histories","inputs"],
 "for every interleaving of in-place changes, reassignments and queries on one object",
 "The tests never change an object after creating it.",
 [DC,SQ,UT],[("derived quantities are computed on demand",DC+": properties; "+SQ+": export, __str__, convert_dds_to_driven_control")],
 [dict(name="stored arrays",meaning="the object's current data",where=DC+", "+SQ)],["every query after every change"])
p("C10","A storage fault in one caller's export never affects other callers",
 "When several threads export the same or different objects to different files and storage fails for some of the files, in every interleaving each export on healthy storage returns normally with its file complete and exact, each other call returns its normal result, and each export that hit a fault either raises that fault's error or has written its exact document; when all calls have ended no file is left open and the exported objects are unchanged.",
 ["schedules","fault_sequences","inputs"],
 "for every interleaving of concurrent exports and queries combined with every placement of storage faults on a subset of the files",
 "The tests have neither threads nor storage faults.",
 [DC,SQ],[("no state shared between exports",DC+": _export_to_qctrl_expanded_format")],
 [dict(name="destination files",meaning="one per concurrent export",where="file system")],["outcome and file of each export","descriptor table","object arrays"])
p("C11","A call may be interrupted by code that itself uses the library",
 "Code that runs in the middle of a call and then lets it continue (a signal handler, a callback, a finaliser) may itself make any calls of the library, on the same or other objects and to other files. Wherever in the outer call this happens and however often, the inner and the outer call finish, each returns, raises or writes exactly what it would have alone, and no object or process-wide setting is changed.",
 ["schedules","inputs"],
 "for every point of every outer call, every inner call and any number of interruptions",
 "No test makes a call while another one is in progress.",
 ALLF,[("functions keep their intermediate state in local variables","all modules"),("no lock is held during a call","all modules")],
 [dict(name="outer call",meaning="a call suspended at any of its bytecodes",where="call stack")],["value, exception or file of the inner and the outer call","objects","ambient snapshot"])
p("C12","Objects, results and errors survive copying and travel between processes",
 "Every control and sequence can, at any point of its history, be copied, deep-copied, pickled, stored and sent to another or restarted process; what arrives holds exactly the sender's data and name at the moment of sending, shares nothing with the original (a shallow copy's arrays excepted), can be changed like it, and answers every call exactly like a newly created object holding that data. A call made in a worker process on arguments sent there gives, when its result or error is sent back, exactly the value it would have given locally, or the same ArgumentsValueError with message, description, arguments and extras. This holds however often the objects travel and whatever messages are delayed, reordered or duplicated and whichever processes crash and restart.",
 ["histories","fault_sequences","inputs"],
 "for every history of creations, changes, copies, messages, remote calls, crashes and restarts",
 "No test copies or pickles anything or uses a second process.",
 [DC,SQ,EX],[("plain attributes only",DC+": DrivenControl.__init__; "+SQ+": DynamicDecouplingSequence.__init__"),("errors rebuilt from their arguments",EX+": ArgumentsValueError")],
 [dict(name="messages",meaning="pickled objects and errors in flight",where="between processes")],["object or error after arrival","result of every later call"])
p("C13","A process forked during other threads' calls can use the library",
 "A thread may fork the process at any moment, while other threads are in the middle of any calls. In the child, where only the forking thread exists, every call finishes and returns, raises or writes exactly what it would have alone, on new objects and on those that existed before the fork; and in the parent every call gives what it would have given without the fork.",
 ["schedules","crash_points","inputs"],
 "for every fork at any bytecode of any concurrent calls, every later call in the child",
 "The tests have neither threads nor forks.",
 ALLF,[("no lock, worker thread or other process-bound state is kept","all modules")],
 [dict(name="forked child",meaning="a copy of the process in which the other threads have vanished",where="process")],["value, exception or file of each call in child and parent"])
p("C14","A long-running process retains nothing of its past calls",
 "Once the caller has dropped their arguments, results and exceptions, calls of the library leave nothing behind, whether they succeeded, were rejected, were aborted or hit a storage error: the number of live objects does not keep growing with the number of calls made, and no file stays open, no thread stays alive and no file other than the exported ones remains.",
 ["histories","fault_sequences","inputs"],
 "for every history of thousands of calls with ever different arguments and any share of rejected, aborted and failing calls",
 "The tests make each call a few times and never look at what stays alive.",
 ALLF,[("no table of earlier calls is kept","all modules")],
 [dict(name="live objects",meaning="everything the garbage collector cannot free",where="process")],["number of live objects after each batch of calls","descriptor table","threads","directory tree"])
p("C15","Processes exporting side by side do not disturb each other",
 "Several processes may export at the same time to different files, in the same or in different directories, and any of them may hit storage errors or be killed at any moment. Every export on healthy storage then finishes, returns normally and leaves its own complete document, also one repeated by a restarted process; an export that hits an error raises that error; and no file other than the exported ones is changed, nor any left behind unless a process was killed.",
 ["schedules","crash_points","fault_sequences","inputs"],
 "for every number of processes, every interleaving of their storage operations, every death and every storage error",
 "The tests export from one process, never two at once.",
 [DC,SQ],[("a file is opened, written and closed under its own name, nothing else is touched",DC+": _export_to_qctrl_expanded_format")],
 [dict(name="files",meaning="the directory tree all processes share",where="file system")],["return or error of each export","directory tree at the end"])
p("C16","An aborted call harms no other thread",
 "When a call in one thread is aborted at any moment by an exception that is not its own (an interrupt, a full memory, an exception thrown into it), that exception leaves the call, and every call of the other threads, begun before or after, finishes and gives what it would have given alone. Afterwards new calls in any thread do too, and process-wide settings are as before.",
 ["schedules","fault_sequences","inputs"],
 "for every set of concurrent calls, every interleaving and every abort position",
 "The tests have no threads and no aborts.",
 ALLF,[("calls share no state that an abort could leave half done","all modules")],
 [dict(name="shared state",meaning="whatever outlives a call inside the package",where="process")],["value, exception or file of each call","process-wide settings"])
p("C17","A running call is invisible to the other threads of the process",
 "At no moment during a call can another thread observe a changed process-wide setting: working directory, umask, environment, locale, warning filters, print options, streams, signal handlers, random generators, limits, hooks and the attributes of other modules are, while any number of calls are in progress and after they have ended, what they were before.",
 ["schedules","fault_sequences","inputs"],
 "for every set of concurrent calls and every moment of them",
 "The tests look at results only, and only after a call.",
 ALLF,[("calls do not touch process-wide state, not even temporarily","all modules")],
 [dict(name="process-wide settings",meaning="everything one thread sets and another sees",where="process")],["process-wide settings at bytecodes of the package and at the end"])
p("C18","Calls give the same in every process, however it was started",
 "The package can be imported, and every call gives exactly the same value, exception or document, in every process, however it was started: with any hash seed, optimisation level (-O, -OO), environment, locale and encodings, umask, signal dispositions and limit on open files, with standard streams that are closed or broken, and from a working directory that no longer exists (for absolute paths). It does not matter which module of the package is imported first, nor where in the process import and calls happen: in any thread, inside an event loop, a signal handler, an exit handler or a forked child. Neither the import nor a call touches a file other than the exported ones.",
 ["configurations","fault_sequences","inputs"],
 "for every combination of start conditions, place in the process and calls",
 "The tests run in one process started in one way.",
 ALLF,[("calls use only their arguments and the file system","all modules")],
 [dict(name="start conditions",meaning="what a process inherits or is told when it starts",where="process")],["value, exception or file of each call","names the package offers","files touched"])
p("C19","An import that failed or was interrupted can be repeated",
 "If an import of the package is interrupted by an asynchronous exception, that exception leaves the import statement; if it hits a failure (a module that cannot be read, a full memory), it either raises or succeeds as if nothing had happened. Importing the package again in the same process then succeeds, also in several threads at once and also after its modules were unloaded, and from then on it offers the same names, classes that recognise each other's objects, and functions that give exactly the same as in a process where it was imported undisturbed. Imports, failed or not, change no process-wide setting, touch no file and leave none open.",
 ["fault_sequences","schedules","histories"],
 "for every sequence of imports, every fault position in them, every interleaving of importing threads",
 "The tests import the package once, undisturbed.",
 ALLF,[("modules only define names when imported","all modules")],
 [dict(name="loaded modules",meaning="which modules of the package are complete, partial or absent",where="process")],["outcome of each import","names the package offers","value, exception or file of later calls","process-wide settings"])
p("C20","An export that hangs holds up no other call",
 "While exports are waiting for storage that does not answer, however many and for however long, every call made in other threads of the process, including exports of the same or other objects to other files, finishes and gives exactly what it would have given alone. A waiting export goes on waiting; when its storage answers at last, it finishes with its exact document or raises the storage error, like any other export.",
 ["schedules","fault_sequences"],
 "for every set of hanging exports, every storage operation at which they hang, every interleaving of the other calls",
 "The tests export in one thread, on storage that answers at once.",
 [DC,SQ],[("exports share nothing, in particular no lock",DC+": _export_to_qctrl_expanded_format")],
 [dict(name="waiting exports",meaning="exports inside a storage operation that does not return",where="process")],["value, exception or file of each call","no call waits for a hanging one"])
p("C21","Loading the package again disturbs nothing that is in use",
 "The package, or any of its modules in any order, may be reloaded, removed from the loaded modules, imported again or loaded as a second copy at any time between calls, also when such a step is interrupted or fails and is then repeated. The classes, functions and objects obtained from an earlier loading go on working with each other beside those of later ones: every call made through them gives exactly the value, exception or document it would have given in a process that loaded the package once, and objects stay as they were. Loading again changes no process-wide setting, touches no file and leaves none open.",
 ["histories","fault_sequences"],
 "for every history of loadings (whole, single modules, interrupted) and calls on objects of any age",
 "The tests load the package once.",
 ALLF,[("methods depend on names of their module only by value","all modules")],
 [dict(name="loadings",meaning="copies of the package in the process and which one imports find",where="process")],["value, exception or file of each call","state of all objects","process-wide settings"])
NA="pure function of its arguments: no schedule, clock, I/O or fault can influence it, so simulated runs would only be input sampling"
na=[]
def n(id,title,statement,text,why,files,mech):
    p(id,title,statement,["inputs"],text,why,files,mech); na.append(id)
n("P01","Conversion of a sequence to a driven control preserves its physics",
 "For every convertible sequence the driven control lasts exactly as long as the sequence, performs each pulse's rotation (angle and axis) in order in a segment centred on the pulse's offset (shifted inwards at the two ends), has zero drive in between, and respects the maximum rates and the minimum segment duration.",
 "for every sequence, maximum rates and minimum segment duration","The tests convert a dozen hand-written sequences at one time scale.",[SQ],[("pulse placement",SQ+": convert_dds_to_driven_control")])
n("P02","Predefined driven controls perform the requested rotation",
 "Each predefined driven control effects, up to global phase, the rotation by the requested angle about the requested equatorial axis without exceeding the maximum Rabi rate.",
 "for every supported angle, axis and rate","The tests compare listed segments for a few angles.",[DP],[("closed-form segment tables",DP)])
n("P03","Composite driven controls suppress the error they are designed for",
 "BB1, SK1 and SCROFULOUS cancel amplitude errors, CORPSE and WAMF1 detuning errors, and the concatenated controls both, to their documented order.",
 "for every supported angle and small error","No test evaluates a noisy evolution.",[DP],[("phase and angle formulas",DP)])
n("P04","Modulated Gaussian control is an identity within its bounds",
 "The modulated Gaussian control has the requested total duration, no segment shorter than the minimum, no Rabi rate above the maximum, and a net identity effect.",
 "for every rate, duration, segment bound and modulation frequency","The tests try a few settings.",[DP],[("normalisation and sampling",DP+": new_modulated_gaussian_control")])
n("P05","Predefined sequences have the documented pulses in time order",
 "Every predefined decoupling sequence has exactly the pulses and offsets of its defining formula, in strictly increasing order inside the sequence.",
 "for every duration and order","The tests check one or two orders of each.",[SP],[("offset formulas",SP)])
n("P06","Pre/post rotations leave a net identity or Z",
 "With pre/post rotations every predefined sequence's net effect is an identity or a Z pi rotation.",
 "for every sequence kind and order","The tests check two orders of each.",[SP],[("choice of final azimuth",SP+": _add_pre_post_rotations")])
n("P07","Constructors and factories reject invalid arguments",
 "Every constructor and factory raises ArgumentsValueError for arguments outside its documented domain and never returns an object violating it.",
 "for every argument tuple","The tests try a handful.",[DC,DP,SQ,SP,UT],[("argument checks",UT+": check_arguments")])
n("P08","Derived quantities satisfy their definitions",
 "Amplitudes, angles, directions, times and extrema of a control equal their defining formulas on its segments.",
 "for every control","The tests check three or four small controls.",[DC],[("properties",DC)])
n("P09","Text forms describe the object",
 "repr names every constructor argument with its value and str lists the normalised values with their scale.",
 "for every object","The tests check one object of each class.",[UT,DC,SQ],[("repr builder",UT+": create_repr_from_attributes")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim.catalogue import FACTS
NOTE={
"C01":"seeded histories of exports on a faulty simulated disk; the file of every export that returned is decoded and compared with a reference model",
"C02":"seeded histories of exports that must be rejected, on healthy and faulty storage; the exception, the directory tree and the log of storage calls are inspected",
"C03":"for each generated export every storage operation is failed in turn (error, full disk, EINTR, Ctrl-C), then the call is repeated on healthy storage; controls and documents are sampled",
"C04":"for each generated history the process is killed before, inside and after each storage operation of the last export; process crash, not power loss; restarted processes repeat the export",
"C05":"seeded schedules (random, hot spots, priority based, round robin) of two to four threads switched at bytecodes of the package; results compared with each call alone",
"C06":"seeded histories of creations, queries, in-place changes of results and rejected calls; each result compared with the same call in a fresh instance",
"C07":"exceptions raised at sampled executed lines of calls, followed by further calls compared with a fresh instance",
"C08":"seeded perturbations of process-wide state, clock and entropy; ambient snapshots around every call incl. rejected, aborted and failing ones",
"C09":"seeded interleavings of changes and queries; each query compared with a new object holding the current data",
"C10":"seeded schedules combined with storage faults bound to some of the concurrent exports",
"C11":"calls made at sampled bytecodes or lines of other calls, singly or densely; both compared with the same calls alone",
"C12":"seeded histories over two or three simulated processes exchanging real pickle bytes, with delays, duplicates, crashes and restarts; every later call compared with a new object holding the data",
"C13":"seeded schedules in which one thread really forks while others stand inside calls; calls of child and parent compared with each call alone",
"C14":"seeded lives of over a thousand calls with ever new arguments, aborts and storage errors; population of live objects, descriptors, threads and files compared between batches",
"C15":"seeded interleavings of real processes at their storage operations, with storage errors, kills and restarts; every document and the directory tree compared",
"C16":"seeded schedules of real threads in which one to three calls are aborted at a line or operation; the others and later calls compared with each call alone",
"C17":"seeded schedules of real threads; process-wide settings compared at new bytecode positions while calls are in progress and at the end",
"C19":"seeded sequences of imports with faults at lines, operations, import statements and module files, and of importing threads; later calls compared with those after an undisturbed import",
"C20":"seeded schedules of real threads in which storage operations of some exports do not return before all other threads have finished or wait; calls compared with each call alone",
"C21":"seeded histories of reloads, unloadings and second copies, some interrupted or failing, among calls on objects of all ages; calls compared with each call alone",
"C18":"seeded start conditions of real, newly executed interpreters and places in them; results compared with the same calls in an ordinary process",
}
TECH={"C21":"deterministic simulation of module reloads with faults","C03":"deterministic simulation, enumeration of storage faults","C04":"deterministic simulation, enumeration of crash points",
"C05":"deterministic simulation of thread schedules","C10":"deterministic simulation of thread schedules with storage faults","C07":"deterministic simulation, injected aborts","C11":"deterministic simulation of interruptions","C12":"deterministic simulation of crashing processes and messages","C13":"deterministic simulation of thread schedules with forks","C14":"deterministic simulation of long process lives with faults","C15":"deterministic simulation of process schedules with crashes and storage faults","C16":"deterministic simulation of thread schedules with aborts","C17":"deterministic simulation of thread schedules with observation","C18":"deterministic simulation of start conditions with faults","C19":"deterministic simulation of imports with faults and thread schedules","C20":"deterministic simulation of thread schedules with hanging storage"}
manifest=dict(version=1,setup_cmd="/opt/venv/bin/python check.py --setup",
 checks=[dict(property=i,quick_cmd="/opt/venv/bin/python check.py "+i,thorough_cmd="/opt/venv/bin/python check.py "+i,
  evidence_file="evidence/%s.json"%i,technique=TECH.get(i,"deterministic simulation with fault injection"),level=FACTS[i]["level"],level_note=NOTE[i]) for i in sorted(FACTS)],
 not_applicable=[dict(property=i,reason=NA) for i in na],
 notes="No hooks in /repo: storage is owned through a preloaded library, threads through trace functions. A violation's replay file is repeated with: /opt/venv/bin/python check.py --replay FILE. VERIF_RUNS overrides the number of runs, VERIF_WORKERS the number of processes; neither changes what a given run does.")
json.dump(manifest,open("/verif/MANIFEST.json","w"),indent=1)
import jsonschema
S=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,S)
print(len(P))
jsonschema.validate(manifest,json.load(open("/root/.vp/MANIFEST.schema.json")))
