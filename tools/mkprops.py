#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

prop('C01','Full sweeps give the serial answer for every layout, schedule and timing',
 'For any mesh partition, number of processes, number of threads, cells-per-step limit, sweep-priority choice, message protocol and message or thread timing, a solve with one of the full-sweep solvers (both original sweeps and the graph traversal, with either source iteration or Krylov) produces the angular flux that a serial upstream-to-downstream sweep of the same mesh and the same number of iterations produces, up to floating-point roundoff. Neither the order in which messages arrive nor which thread runs first may change any value of the flux, for any number of energy groups, angles and materials. The solution error printed at the end is the error of that whole flux.',
 ['schedules','configurations','inputs'],
 'All partitions (columns, slabs, blobs, random, disconnected), 1..8 processes, 1..5 threads, all priority/inter-angle/step-size/Gauss-elimination settings, 1..3 groups, all legal MPI delivery timings and thread interleavings.',
 'The regression decks run one 208-cell mesh with one material, at most 4 column partitions, 1 or 3 threads and whatever timing the machine happens to produce; a lost, duplicated or misplaced face value under another timing or layout is never exercised.',
 ['src/GraphTraverser.cc','src/Sweeper.cc','src/SweepSchedule.cc','src/SweeperTraverse.cc','src/SourceIteration.cc','src/SweepData.hh','src/Transport.cc','src/TychoMesh.cc','src/TychoMeshIO.cc','src/Util.cc'],
 [('dependency counts and boundary packets drive the traversal','src/GraphTraverser.cc traverse'),('precomputed step schedule with per-step sends and receives','src/SweepSchedule.cc, src/Sweeper.cc sweep'),('fixed-point and Krylov outer iterations','src/SourceIteration.cc')],
 ['the psi output file written by the run'])

prop('C02','Domain-decomposition solvers converge to the undecomposed flux',
 'For any partition, number of processes and threads and any message timing, each of the domain-decomposition solvers (parallel block Jacobi in its three variants, Schur complement in its three variants), run to a tight tolerance, ends with the same angular flux as the undecomposed problem to within that tolerance. On a single process they give the same flux as a full sweep solve.',
 ['schedules','configurations','inputs'],
 'All partitions, 1..8 processes, 1..4 threads, both outer iteration types, all legal delivery timings.',
 'Tests compare each solver against a stored file for one column partition of one mesh, so neither an exchange that is right only for that partition shape nor one that depends on timing is seen.',
 ['src/SweeperPBJ.cc','src/SweeperSchur.cc','src/CommSides.cc','src/KrylovSolver.cc','src/SourceIteration.cc','src/Util.cc'],
 [('lagged boundary values exchanged after each local sweep','src/SweeperPBJ.cc, src/CommSides.cc'),('boundary unknowns solved by GMRES','src/SweeperSchur.cc, src/KrylovSolver.cc')],
 ['the psi output file written by the run'])

prop('C03','A sweep visits each cell and angle once, after all its upstream data',
 'In every traversal of the mesh, in the forward or backward direction and with or without communication, each (cell, angle) pair is processed exactly once, and only after every upstream neighbour pair has been processed, on whatever process or thread it lives. When communication is on, every value leaving a partition face arrives at the matching face of the neighbouring partition exactly once, unchanged and before it is needed, and every face handed to the user of the traversal is labelled with the right neighbour and boundary kind.',
 ['schedules','configurations','inputs'],
 'Both directions, communication on and off, both message protocols, any payload size, any per-call work limit, any priority function, all partitions, legal delivery timings and thread interleavings.',
 'No test observes traversal order; the backward direction and the second message protocol are never run by the tests, and a pair processed early usually reads a stale value that is only wrong under some timings.',
 ['src/GraphTraverser.cc','src/GraphTraverser.hh','src/TychoMesh.hh','src/TychoMeshIO.cc'],
 [('per pair dependency counters','src/GraphTraverser.cc traverse'),('packets of (global side, angle, data)','src/GraphTraverser.cc createPacket/splitPacket'),('size-then-data protocol with shutdown signal','src/GraphTraverser.cc sendAndRecvData')],
 ['the callbacks a traversal makes to its client'])

prop('C04','Precomputed sweep schedules are complete, ordered and match across ranks',
 'For any partition, priority choice and cells-per-step limit, the schedules computed by all processes together contain every (cell, angle) pair exactly once, place every pair after all of its upstream pairs (in an earlier step when the upstream pair is on another process), and never exceed the cells-per-step limit in a step. All processes agree on the number of steps, and in every step process A plans to send to B exactly when B plans to receive from A.',
 ['schedules','configurations','inputs'],
 'All intra- and inter-angle priority choices, step limits 1..large, 1..8 processes, angle subsets as split over threads, all partitions and message timings during schedule construction.',
 'Tests only use a few fixed priorities on one mesh with column partitions and never look at the schedule itself.',
 ['src/SweepSchedule.cc','src/SweepSchedule.hh'],
 [('partial topological sorts alternated with exchange of finished sides','src/SweepSchedule.cc calcOrdering, sendOrders, recvOrders'),('global emptiness test','src/SweepSchedule.cc allDone')],
 ['the work, send and receive lists a schedule returns per step'])

prop('C05','Every run finishes: no deadlock or livelock under legal MPI buffering',
 'Every solve terminates for every legal behaviour of the message layer, including one that buffers nothing (each send waits for its receive), arbitrary message delays, slow or stalled processes and any fair thread scheduling. No combination of partition, process count, thread count, message protocol, step limit or solver may leave processes waiting on each other or polling forever.',
 ['schedules','configurations','fault_sequences'],
 'All solvers and both message protocols; per-message choice of buffered or synchronous completion; arbitrary finite delays and stalls; liveness as completion within a step budget.',
 'On the test machine small messages are always buffered and delivered at once, so waits that need buffering never block.',
 ['src/GraphTraverser.cc','src/Sweeper.cc','src/SweepSchedule.cc','src/CommSides.cc','src/Comm.cc','src/TychoMeshIO.cc'],
 [('non-blocking sends completed after receives','src/GraphTraverser.cc, src/Sweeper.cc, src/CommSides.cc'),('thread token for communication order','src/Sweeper.cc sweep')],
 ['completion of the run'])

prop('C06','Message passing obeys the MPI contract at every point',
 'During any run no process modifies or frees a buffer it has handed to an unfinished send, reads a buffer of an unfinished receive, receives a message larger than its buffer, leaves a request or message unfinished at shutdown, or calls the message layer from threads in a way the thread level it asked for does not permit. All processes make the same sequence of collective calls with matching arguments.',
 ['schedules','configurations'],
 'All solvers and workloads of the other properties, with sends completed as late as the standard allows and the lowest permitted thread support provided.',
 'A common MPI copies small messages at once and tolerates extra threads, so breaches do not show in results on the test machine.',
 ['src/GraphTraverser.cc','src/Sweeper.cc','src/CommSides.cc','src/SweepSchedule.cc','src/TychoMeshIO.cc','src/Main.cc','src/Comm.cc'],
 [('requests waited for before buffers are reused','src/Sweeper.cc, src/CommSides.cc, src/GraphTraverser.cc'),('thread support requested at start','src/Main.cc main')],
 ['the calls the program makes to MPI'])

prop('C07','Threads of a process never race on shared data',
 'In every parallel region of every solver, no two threads access the same memory location without ordering between them when at least one of them writes. This holds for every thread count, including counts that do not divide the number of angles, and for every interleaving.',
 ['schedules','configurations'],
 'All solvers, 2..5 threads, all angle counts and groupings; race detection on every instrumented access of the simulated executions.',
 'Tests run few threads on short regions and only compare final numbers; a race rarely changes them.',
 ['src/GraphTraverser.cc','src/Sweeper.cc','src/SweepData.hh','src/Util.cc','src/Transport.cc'],
 [('angles partitioned over threads, per-thread scratch','src/GraphTraverser.cc angleGroupIndex, src/SweepData.hh'),('atomic counter and communication token','src/GraphTraverser.cc, src/Sweeper.cc')],
 ['memory accesses and thread synchronisation'])

prop('C08','Boundary exchange delivers exactly the neighbour\'s outgoing values',
 'After each exchange of partition-boundary values, every incoming value on an internal partition face equals the value the neighbouring process holds for the same angle, energy group and mesh vertex of that face, whatever the message timing and however often the exchange is repeated. Values that are not incoming from another partition are left untouched.',
 ['schedules','configurations','inputs','histories'],
 'All partitions incl. ones where a pair of processes shares faces in only one direction, 1..8 processes, repeated exchanges with changing data, legal delivery timings.',
 'Only final converged fluxes for one column partition are compared; a swapped vertex or a stale neighbour value may be masked there.',
 ['src/CommSides.cc','src/TychoMeshIO.cc','src/ParallelMesh.cc'],
 [('self-describing packets (global side, angle, values)','src/CommSides.cc commSides'),('receive completion in any order','src/CommSides.cc commSides')],
 ['boundary values before and after the exchange'])

prop('C09','A finished run leaves exactly its own complete flux file',
 'When a run with output enabled reports success, the output file contains exactly the header (format name, version, global cell, angle and group counts) and each global cell\'s flux at its defined position, independent of how many processes wrote it, in what order, or what file was there before. After a run is interrupted at any point, running it again in the same place gives that same file; with output disabled no file is created or changed.',
 ['crash_points','histories','configurations'],
 'Any partition and process count, absent/shorter/longer/garbage pre-existing output, a crash of the job at any point including mid-write, then rerun.',
 'Tests always write into a fresh directory with at most four processes and never crash a run.',
 ['src/PsiData.cc','src/Comm.cc','src/SweeperAbstract.hh','src/Main.cc'],
 [('write at computed offsets by each process','src/PsiData.cc writeToFile'),('delete and recreate an existing output','src/Comm.cc openFileForWrite')],
 ['the output file on the simulated disk'])

prop('C10','A failed output write is never reported as success',
 'If opening, writing or closing the flux output file fails or writes fewer bytes than asked on any process, the job ends unsuccessfully (abort or nonzero status). It never ends successfully leaving an output file that is missing, incomplete or wrong.',
 ['fault_sequences','crash_points'],
 'I/O error, disk full, short write, failed open, delete or close injected at any operation on any process, transient or persistent.',
 'The tests never make an I/O operation fail.',
 ['src/Comm.cc','src/PsiData.cc'],
 [('return codes and transferred counts checked after each operation','src/Comm.cc')],
 ['job status and the output file'])

prop('C11','A damaged or unreadable mesh file is refused, never solved',
 'If the parallel mesh file is missing, truncated at any point, of another format, version or partition count, or any read of it fails or returns fewer bytes than asked on any process, the job ends unsuccessfully instead of solving and reporting success on wrong data.',
 ['fault_sequences','inputs'],
 'Truncation at every field boundary and inside fields, torn file from an interrupted writer, read errors and short reads at any read of any process, header damage, wrong number of processes.',
 'The tests only read intact meshes on a healthy disk.',
 ['src/ParallelMesh.cc','src/Comm.cc','src/TychoMeshIO.cc'],
 [('format, version and partition-count checks','src/ParallelMesh.cc readInParallel'),('return codes and counts of reads checked','src/Comm.cc')],
 ['job status for a damaged input'])

prop('C12','Mesh tools write complete files or fail visibly',
 'Each mesh tool that reports success has left an output mesh that reads back as exactly the mesh it built, with every cell, face and node of the input accounted for, whatever file was there before. If any open, read, write or close in the tool fails or is cut short, the tool ends unsuccessfully rather than reporting success with a damaged file.',
 ['fault_sequences','crash_points','histories','inputs'],
 'Read/write/close faults, disk full at any byte, truncated inputs, pre-existing outputs, partition counts 1..8, meshes of 5..300 cells.',
 'The tests run the tools only to prepare their fixed inputs on a healthy disk.',
 ['src/SerialMesh.cc','src/ParallelMesh.cc','util/PartitionColumns.cc','util/PartitionMetis.cc','util/RefineSerialMesh.cc','util/SerialMeshInfo.cc','util/ParallelMeshInfo.cc'],
 [('element counts of every read and write checked','src/SerialMesh.cc, src/ParallelMesh.cc')],
 ['tool exit status and files on the simulated disk'])

prop('C13','Clock behaviour never affects results or termination',
 'Whatever the system clock does while a run executes (jumps forwards or backwards, stands still, differs between processes), the run terminates with the same flux values and iteration decisions as with a steady clock. Timing is only ever reported.',
 ['fault_sequences','schedules'],
 'Arbitrary per-process clock offsets, jumps and freezes at any reading; all solvers.',
 'The test machine\'s clock is steady.',
 ['src/Timer.hh','src/SourceIteration.cc','src/GraphTraverser.cc','src/Sweeper.cc','src/Main.cc'],
 [('timers feed only printed statistics','src/Timer.hh')],
 ['output file and status under clock faults'])

prop('C14','Partition-boundary adjacency is mutual between processes',
 'After the mesh is loaded, for every cell face on an internal partition boundary the two processes sharing it agree: each names the other as neighbour, both use one global side number that no other face of either process uses, what each records as the adjacent cell and face is the cell and face on the other process, and corresponding face vertices are the same points. Every other face is either interior with mutual cell-and-face neighbours or on the outer boundary.',
 ['schedules','configurations','inputs'],
 'All partitions, 1..8 processes, any delivery timing and buffering while the adjacency data is exchanged.',
 'Nothing in the tests reads the adjacency data directly, and the exchange depends on buffers and message order the tests cannot vary.',
 ['src/TychoMeshIO.cc','src/TychoMesh.cc','src/TychoMesh.hh','src/ParallelMesh.cc'],
 [('side numbering from the global face number','src/TychoMeshIO.cc readTychoMesh'),('exchange of (cell, face) with each neighbour','src/TychoMeshIO.cc readTychoMesh')],
 ['mesh query results on both sides'])

prop('C15','All processes take the same convergence decisions within the caps',
 'In any run all processes perform the same number of sweeps and iterations, the iteration limits given by the user are never exceeded, and iteration stops exactly when the globally summed relative change first drops to the requested tolerance or a limit is reached. The decision and the reported change are the same for every partition and timing, up to roundoff.',
 ['schedules','configurations','inputs'],
 'All solvers and partitions, tolerances and caps chosen so that either rule ends the iteration, uneven partitions where local and global changes differ strongly, legal timings.',
 'Tests use a near-uniform partition and do not check iteration counts, caps or reported changes.',
 ['src/SourceIteration.cc','src/SweeperPBJ.cc','src/SweeperSchur.cc','src/KrylovSolver.cc','src/Comm.cc'],
 [('global sums before each decision','src/SourceIteration.cc fixedPoint, src/SweeperPBJ.cc')],
 ['sweeps performed per process, printed iteration statistics'])

prop('C16','A failed memory allocation never yields a wrong success',
 'If a memory allocation fails at any point on any process, the job ends unsuccessfully, or it succeeds with the correct flux; it never ends successfully with wrong or missing output and never hangs the process in which the allocation failed.',
 ['fault_sequences'],
 'One or more allocations failing at any point of a run on any process or thread.',
 'The tests never exhaust memory.',
 ['src/Main.cc','src/Mat.hh','src/GraphTraverser.cc','src/PsiData.hh'],
 [('allocation failure raises an exception nobody swallows','src/Main.cc main')],
 ['job status and output under allocation faults'])

# Properties that this family does not decide (pure functions of their input).
prop('C17','The angular quadrature integrates the sphere exactly',
 'For every supported order the quadrature has positive weights summing to the full solid angle, unit directions, and integrates low-order polynomials of direction exactly.',
 ['inputs'],'All supported orders.','Tests use one order and only compare fluxes.',
 ['src/Quadrature.cc'],[('Chebyshev-Legendre product rule','src/Quadrature.cc')],['quadrature weights and directions'])
prop('C18','All local solve options solve the same local transport system',
 'For any cell, angle, cross section and incoming flux, every selectable local elimination method returns the solution of the same local linear system up to roundoff.',
 ['inputs'],'All well-shaped tetrahedra, directions and cross sections.','Tests compare only fixed decks.',
 ['src/Transport.cc'],[('hand-written eliminations','src/Transport.cc')],['local solution vectors'])
prop('C19','Input decks are read exactly as written',
 'Each setting in an input deck takes exactly the value written there, and a missing, repeated or malformed setting is refused.',
 ['inputs'],'All deck texts.','Tests only read valid decks of one shape.',
 ['src/KeyValueReader.cc','src/Main.cc'],[('line-oriented parser with typed getters','src/KeyValueReader.cc')],['settings in effect'])
prop('C20','Mesh refinement preserves the domain',
 'Refining a mesh replaces each cell by eight cells of its material that fill the same volume and conform to their neighbours.',
 ['inputs'],'All conforming tetrahedral meshes.','No test checks the refined mesh.',
 ['util/RefineSerialMesh.cc'],[('edge-midpoint subdivision','util/RefineSerialMesh.cc')],['refined mesh file'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
