TC='TLA+/TLC: design model (HdbModel) plus TLC validation of recorded runs against HdbBase'
B='Exhaustive over small one-dimensional data in the design model; the code is bound by validating recorded runs (the same small data, random data of six kinds, all element types) against the declarative definitions. Assumes the runs explored are representative beyond those bounds; trusts TLC, gcc and the recorder.'
T.update({
'C01':('TLA+/TLC: TLC validation of recorded distances against the declarative definition',"Distances of recorded runs of every element type, layout and magnitude are compared exactly (squared integers) by TLC; real-valued data only up to rank. Trusts TLC and the recorder."),
'C02':(TC,B),'C03':(TC,B),'C04':(TC,B),'C05':(TC,B+' Stabilities are compared in fixed point (2^-15 relative to the unit).'),
'C06':(TC,B+' Near ties of stability that fixed point cannot decide follow the recorded comparison of the exact doubles.'),
'C07':(TC,B),'C08':(TC,B+' Scores are compared in fixed point.'),
})
CT='TLA+/TLC: storage-level refinement model (%s) checked against the abstract type, one history per transition replayed in the code, recorded histories validated by CollTrace'
CB='Storage model exhaustive within small constants; every transition of it is replayed in the real code for concrete element types, plus long random histories. Assumes small-scope representativeness beyond; trusts TLC, gcc and the recorder.'
for i,m in (('C15','ListModel'),('C16','SetModel'),('C17','HashModel'),('C18','LinkModel'),('C29','HashModel')): T[i]=(CT%m,CB)
AT='TLA+/TLC: validation of recorded analyses against the definitions in AnBase'
AB='Exhaustive small label arrays, keys and sign combinations, random data beyond; ratios are checked exactly when they are integers (given or arising from data), real-valued data by order only. Trusts TLC and the recorder.'
T['C19']=(AT,AB);T['C21']=(AT,AB)
T['C20']=(AT+'; pass over a group model checked (AnModel)',AB);T['C22']=(AT+'; partition sort model checked (AnModel)',AB)
NA={}
LT='TLA+/TLC: design model of object lives (Life), histories it emits replayed in the code, recordings validated by LifeTrace'
LB='Lives exhaustive for two objects within small constants, one history per transition and all short histories replayed, random long ones beyond; trusts TLC, gcc and the recorder.'
T['C09']=(LT+'; results compared with those of a new object in a process of its own',LB)
T['C10']=(LT+'; allocations counted and guarded, and the same lives under address and memory sanitizers as recorders of errors',LB+' Errors of reading are those the sanitizers of gcc and clang report.')
T['C11']=('TLA+/TLC: lemma that accesses without conflict make every schedule give one result (ParModel); recorded accesses of controlled schedules validated by LifeTrace','Every parallel region of the runs explored is recorded under seeded schedules of 1 to 8 threads of an own OpenMP runtime; absence of conflicts covers all interleavings of those accesses. Trusts the instrumentation of gcc (-fsanitize=thread) and the recorder.')
T['C12']=(LT+'; interleavings of two objects, also from threads under controlled schedules',LB)
T['C28']=('TLA+/TLC: recorded runs of degenerate and extreme data validated against HdbTrace (termination, return value, caller data, results present)','Random and enumerated data sets of all types, layouts, sizes 1 to several hundred, minima from 2 to more than a million. A run that does not end within its processor time is a violation.')
T['C13']=('TLA+/TLC: relation of two recorded runs (Relate); invariance of the definitions checked exhaustively on small data (RelModel)','All permutations of small data, random ones beyond, exact arithmetic by integer coordinates; flat labels are not compared where two stabilities tie up to rounding.')
T['C14']=('TLA+/TLC: recordings of all 18 storage configurations validated by HdbTrace and AnTrace, and compared with the reference configuration (Same)','All 18 builds run the same scenarios; those the usual configuration gets wrong are left to the other properties. Narrow distances are compared by the tolerances of the specification.')
T['C27']=('TLA+/TLC: model of the in-place sort and the adjacency lists (GraphModel) checked against Graph; histories replayed, recordings validated by GraphTrace','Exhaustive for up to 5 edges; every arrangement of up to 5 (thorough 7) weights sorted in the code, random multigraphs beyond. Repeated self edges of one vertex are not part of the domain.')
T['C30']=('TLA+/TLC: propagation over all small trees checked to be the lexicographically best selection (CluModel); trees replayed, recordings validated field by field by CluTrace','Trees of up to 5 clusters exhaustive in the model, random operations beyond; levels are powers of two so that stabilities are exact.')
T['C23']=('TLA+/TLC: recordings of the same operations through both interfaces compared step by step (Same), C++ orders and releases validated by AnTrace and LifeTrace','Histories emitted by Life, random ones, whole pipelines, stages called one by one, all analyses. Sums over another order of groups are compared up to 1e-9. Scenarios the C interface itself gets wrong are left to the other properties.')
T['C26']=('TLA+/TLC: printed and exported text parsed into tables and validated against the recorded results (PrintTrace); export histories enumerated by PrintModel','All histories of four (thorough five) computations, exports and reads over two objects and names, random tables with the largest and smallest values; also under the address sanitizer. The layout of a line is judged by its words, not by its spaces.')

ML='Histories of two objects exhaustive in the model (one per transition replayed), random longer ones over up to three objects, every layout and element type of arrays, misuse of every kind of call included. What the C functions give is recorded from the same tree, so that faults of the C functions are left to the other properties.'
T['C24']=('TLA+/TLC: design model of wrapping objects (BindModel); its histories replayed in the interpreter of Python, recordings validated by BindTrace',ML+' The module shows labels, groups and levels only. Memory is compared by counting allocations and references.')
T['C25']=('TLA+/TLC: design model of wrapping objects (BindModel); its histories replayed in a Java virtual machine, recordings validated by BindTrace',ML+' The class shows labels and groups only; the virtual machine checks its native interface (-Xcheck:jni).')
T['C31']=(TC+', with compact levels',B+' The compact form is reached by calling the stages of a run one by one, as its header offers them.')
T['C32']=('TLA+/TLC: design models of object lives (DistModel) and of the search for neighbours (CoreModel); histories replayed through both interfaces, recordings validated by DistTrace','Histories of two (thorough: three) objects exhaustive in the model, one per transition replayed; rows of up to 5 (7) distances exhaustive in CoreModel; random longer histories of up to four objects of all element types. Integer data, compared exactly. Trusts TLC, the compilers and the recorder.')
T['C33']=('TLA+/TLC: Util defines orders, hashes, primes, sizes; UtilModel checks the search in a table of primes and the trial beyond it; recorded calls validated by UtilTrace','Model: a table of 40 (thorough: all 198) primes, every argument up to 260 (1400), with termination. Code: every prime argument up to 1400 (thorough: hundreds of thousands) and the ends of the type, all pairs of random sets of values of all types, hashes into 12 table sizes, random lives of value objects; also in a build with address and undefined-behaviour sanitizers. Trusts TLC, the compilers and the recorder.')

T['C34']=('TLA+/TLC: LogModel (threads composing and handing over messages, sessions of a file) checked and its histories replayed; recorded logs taken apart message by message by LogTrace against Log','Model: 3 (thorough 4) threads with 2 messages each; all histories of two messages of all types and two openings. Code: histories, random sequences up to 60 messages and 9000 characters, 2-4 threads with up to 120 messages each, in the stream build and a DEBUG build; controlled schedules with a race check on the accesses. Trusts TLC, the C library and the recorder.')
T['C35']=('TLA+/TLC: OomModel (collections which take memory block by block and may be denied any) checked and its histories replayed with an allocator that denies those requests; recorded behaviours validated by OomTrace against Coll','Model: four collections, 3 values, every history of 6 (thorough 8) operations with every denial; all histories of 4 (5) operations on 2 values are replayed (sampled to 700 per collection in the quick tier). Code: these and 240 (thorough: thousands of) random histories up to 200 operations with denials of any request, once or from then on. Trusts TLC, the wrapped allocator and the recorder.')
