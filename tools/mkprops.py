#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
L = "src/libscotch/"
prop("C01", "Scatter, gather, redistribution and file transfer of a graph are lossless",
 "A graph that is scattered, built from local pieces, loaded from a centralized or a multi-piece file set, redistributed to an arbitrary new owner map, gathered on one or all processes or saved, is always the same graph: same vertices, vertex and edge loads, labels and adjacency, each vertex held by exactly one process. This is true for every process count, every split of the vertices over the processes (empty processes included) and every timing of messages.",
 ["inputs", "schedules", "configurations"], "all graphs, base values, optional arrays, process counts, vertex splits, message delivery orders and send buffering modes",
 "The tests run a handful of meshes on 3 processes of one MPI library whose timing nobody controls; they never compare a redistributed or gathered graph with the original on arbitrary splits and delivery orders.",
 [L+f for f in ("dgraph_scatter.c","dgraph_gather.c","dgraph_gather_all.c","dgraph_redist.c","dgraph_build.c","dgraph_io_load.c","dgraph_io_save.c","library_dgraph_scatter.c","library_dgraph_gather.c","library_dgraph_redist.c")],
 [("scatter from root by point-to-point sends", L+"dgraph_scatter.c"),("gather on one root or on all", L+"dgraph_gather_all.c"),("redistribution by all-to-all exchange and renumbering", L+"dgraph_redist.c"),("one-to-all and one-file-per-process loading", L+"dgraph_io_load.c")],
 observe=["SCOTCH_dgraphData, SCOTCH_graphData, SCOTCH_dgraphSize"])
prop("C02", "Halo exchange gives every ghost vertex its owner's current value",
 "After a synchronous halo exchange, or once an asynchronous one has been waited for, every ghost slot of every process holds exactly the value its owner had, local values are untouched, and ghost numbering maps each local neighbour to its right global vertex. This is true for every attribute datatype, process count, distribution, message timing and any interleaving of the asynchronous exchange with the caller's other work and with other exchanges.",
 ["inputs", "schedules", "configurations"], "all distributed graphs, attribute types, numbers of pending exchanges, message timings and thread interleavings",
 "Tests perform one synchronous exchange on 3 processes; asynchronous exchanges hand a request to a worker thread or a pending MPI operation whose overlap with the caller is never varied.",
 [L+f for f in ("dgraph_halo.c","dgraph_halo_fill.c","dgraph_halo_fill.h","library_dgraph_halo.c","dgraph_ghst.c")],
 [("ghost numbering and send/receive index build", L+"dgraph_ghst.c"),("fill of send buffers", L+"dgraph_halo_fill.c"),("pending exchange and wait", L+"dgraph_halo.c dgraphHaloWait")],
 observe=["SCOTCH_dgraphHalo, SCOTCH_dgraphHaloAsync, SCOTCH_dgraphHaloWait, SCOTCH_dgraphGhst"])
prop("C03", "Distributed coarsening yields the exact quotient graph, whatever the folding",
 "Coarsening a distributed graph yields multinodes made of one vertex or of two vertices that form a legal pair, in which each fine vertex appears exactly once, and a coarse graph that is exactly the quotient of the fine graph under these multinodes: loads are summed, edges inside a multinode vanish, parallel edges are merged with summed loads. Plain, folded and folded-with-duplication coarsening, and their non-merging and coarsening-ratio options (no more coarse vertices than the ratio allows), all do so for every process count and message timing, and all processes agree on whether coarsening took place.",
 ["inputs", "schedules", "configurations"], "all distributed graphs, process counts, folding and matching options, message timings and thread interleavings",
 "Matching across processes is a negotiation by rounds of messages followed by probing of whichever answer arrives first; tests see one timing on 3 processes and never compare the coarse graph with the quotient.",
 [L+f for f in ("dgraph_coarsen.c","dgraph_match.c","dgraph_match_scan.c","dgraph_match_sync_coll.c","dgraph_match_sync_ptop.c","dgraph_fold.c","dgraph_fold_comm.c","dgraph_fold_dup.c","library_dgraph_coarsen.c")],
 [("distributed matching", L+"dgraph_match.c"),("synchronisation of remote mating requests", L+"dgraph_match_sync_ptop.c"),("folding onto part of the processes", L+"dgraph_fold.c"),("duplicate folding", L+"dgraph_fold_dup.c"),("coarse graph build", L+"dgraph_coarsen.c")],
 observe=["SCOTCH_dgraphCoarsen, SCOTCH_dgraphData"])
prop("C04", "Distributed induced, band and grown subgraphs are exact",
 "A distributed induced subgraph contains exactly the selected vertices and the edges between them with their loads and labels; a band graph contains exactly the vertices within the requested distance of the frontier; growing from seeds assigns to each reached vertex a colour carried by a path of allowed length from a seed of that colour and leaves the others as they were. This is true for every process count, distribution and message timing.",
 ["inputs", "schedules", "configurations"], "all distributed graphs, selections, seeds, distances, process counts and message timings",
 "Tests run fixed meshes on 3 processes and check neither completeness of the band nor of the growth; the growth code has two message-passing variants and keeps persistent receives pending.",
 [L+f for f in ("dgraph_induce.c","dgraph_band.c","dgraph_band_grow.c","library_dgraph_induce.c","library_dgraph_band.c","library_dgraph_grow.c")],
 [("induced subgraph", L+"dgraph_induce.c"),("distributed breadth-first growth", L+"dgraph_band_grow.c"),("band graph build", L+"dgraph_band.c")],
 observe=["SCOTCH_dgraphInducePart, SCOTCH_dgraphBand, SCOTCH_dgraphGrow"])
prop("C05", "Parallel ordering is always a consistent permutation",
 "A distributed ordering always numbers every vertex of the graph exactly once, its block list and separator tree partition the numbering range and nest without cycles, and every view of it — per-process permutation, gathered centralized ordering, block and tree arrays, saved files — describes the same ordering. This is true for every non-empty graph given with compact adjacency arrays, every process count, strategy, message timing and thread interleaving.",
 ["inputs", "schedules", "configurations"], "all distributed graphs, ordering strategies, process counts, message timings, thread interleavings",
 "Tests order four meshes with default strategies under uncontrolled timing and check none of the views against the others.",
 [L+f for f in ("library_dgraph_order.c","hdgraph_order_nd.c","hdgraph_order_si.c","hdgraph_order_sq.c","dorder.c","dorder_gather.c","dorder_perm.c","dorder_tree_dist.c","dorder_io.c","dorder_io_tree.c","library_dgraph_order_gather.c","library_dgraph_order_perm.c","library_dgraph_order_tree_dist.c","library_dgraph_order_io.c")],
 [("parallel nested dissection", L+"hdgraph_order_nd.c"),("gathering of ordering fragments", L+"dorder_gather.c"),("distributed permutation", L+"dorder_perm.c"),("distributed tree", L+"dorder_tree_dist.c"),("saving by message collection", L+"dorder_io.c")],
 observe=["SCOTCH_dgraphOrderPerm, SCOTCH_dgraphOrderGather, SCOTCH_dgraphOrderCblkDist, SCOTCH_dgraphOrderTreeDist, SCOTCH_dgraphOrderSave*"])
prop("C06", "Parallel mapping assigns every vertex one legal target and every view agrees",
 "A distributed mapping or partition gives every local vertex exactly one part that exists in the target architecture, on every process; and the mapping array and the saved mapping file describe the same mapping; the file names each vertex by its label when the graph has labels, and by its global number otherwise. This is true for every graph, strategy, process count and message timing, and for every target architecture that parallel mapping supports (complete graphs, weighted or of variable size); any other architecture is refused with the same status on every process.",
 ["inputs", "schedules", "configurations"], "all distributed graphs, targets, strategies, process counts, message timings, thread interleavings",
 "Tests map four meshes on fixed targets under uncontrolled timing and check nothing about the saved file or rare distributions.",
 [L+f for f in ("library_dgraph_map.c","library_dgraph_map_io.c","library_dgraph_map_view.c","kdgraph_map_rb.c","kdgraph_map_rb_part.c","kdgraph_map_rb_map.c","dmapping.c","dmapping_io.c","bdgraph_bipart_ml.c","bdgraph_bipart_bd.c","bdgraph_bipart_df.c")],
 [("parallel recursive bipartitioning", L+"kdgraph_map_rb_part.c"),("distributed multilevel bipartitioning", L+"bdgraph_bipart_ml.c"),("mapping fragments and output", L+"dmapping.c, dmapping_io.c")],
 observe=["SCOTCH_dgraphMap, SCOTCH_dgraphPart, SCOTCH_dgraphMapSave, SCOTCH_dgraphMapView"])
prop("C07", "Parallel routines never deadlock and only rely on what MPI guarantees",
 "Every parallel routine terminates on all processes together and leaves nothing behind: under any legal message timing, buffering, eager or rendezvous sending and collective synchronisation it never deadlocks, never mismatches a collective, never receives more than it posted room for, never touches a buffer that a pending operation owns, and leaves no message, request, communicator or datatype unconsumed. A call that is refused because of its arguments or of the files it reads is refused on all processes, and the graph and the communicator stay usable.",
 ["schedules", "configurations", "inputs"], "all message timings, send buffering decisions, collective synchronisation modes, wait-any completion orders, process counts and sequences of parallel calls",
 "The tests run on one MPI library with its own buffering and timing, with 3 processes on one host, which hides unsafe reliance on buffering, early buffer reuse and unconsumed messages.",
 [L+f for f in ("dgraph_fold.c","dgraph_match_sync_ptop.c","dgraph_band_grow.c","hdgraph_fold.c","dorder_io.c","dmapping_io.c","dgraph_halo.c","kdgraph_map_rb_part.c","hdgraph_order_nd.c","dgraph_gather_all.c","dgraph_coarsen.c")],
 [("folding communications", L+"dgraph_fold.c"),("probing of answers", L+"dgraph_match_sync_ptop.c"),("persistent receives, cancel", L+"dgraph_band_grow.c"),("communicator splitting", L+"kdgraph_map_rb_part.c")])
prop("C08", "With the deterministic option, parallel results do not depend on timing",
 "When the deterministic option is set, parallel coarsening, ordering, mapping and partitioning give exactly the same result for the same input, strategy, random state and number of processes and threads, whatever the timing of messages and the interleaving of threads.",
 ["schedules", "configurations", "inputs"], "all message timings, wait-any completion orders and thread interleavings, for each input",
 "Comparing one or two real runs on one machine samples a vanishing part of the timings; the code takes answers in arrival order unless the option is set.",
 [L+f for f in ("dgraph_match_sync_ptop.c","dgraph_match_scan.c","dgraph_band_grow.c","context.c","library_context_dgraph.c","dgraph_fold_dup.c","bdgraph_bipart_ml.c")],
 [("ordered consumption of mating requests", L+"dgraph_match_sync_ptop.c"),("per-process random state", L+"common_integer.c intRandProc"),("best-of-two choice after duplicate folding", L+"bdgraph_bipart_ml.c")])
prop("C09", "With the deterministic option, threaded results do not depend on scheduling",
 "When the deterministic option is set in a context, graph coarsening, mapping, partitioning and ordering run with that context give exactly the same result for every interleaving of the context's threads, and coarsening gives the same result for every number of threads.",
 ["schedules", "configurations", "inputs"], "all interleavings of the threads of a context, all thread counts",
 "A test compares a few runs under the operating system's scheduler; a race that needs a preemption between two given instructions is practically never sampled.",
 [L+f for f in ("graph_match.c","graph_match_scan.c","graph_coarsen.c","bgraph_bipart_df.c","kgraph_map_df.c","context.c","common_thread.c")],
 [("threaded matching with per-vertex locks", L+"graph_match_scan.c"),("threaded coarse graph build", L+"graph_coarsen.c"),("parallel diffusion", L+"bgraph_bipart_df.c"),("thread reduction and scan", L+"common_thread.c")])
prop("C10", "Threaded coarsening builds an exact quotient graph under every interleaving",
 "Whatever the number of threads and their interleaving, centralized coarsening puts each fine vertex in exactly one multinode of at most two vertices that are neighbours of each other, or one of which has no neighbour at all when merging is allowed, honours fixed and non-merging options, and builds exactly the quotient graph of the fine graph under that matching, with loads conserved and no more vertices than the requested ratio allows; the matching-only entry point returns an involution, and the build-only entry point follows the matching it is given.",
 ["schedules", "inputs", "configurations"], "all interleavings of worker threads, thread counts, graphs, coarsening options",
 "The matching uses racy reads backed by per-vertex spin locks and the build runs on slices computed in parallel; tests run it under one operating-system schedule and do not compare with the quotient.",
 [L+f for f in ("graph_match.c","graph_match_scan.c","graph_coarsen.c","graph_coarsen_edge.c","library_graph_coarsen.c","common_thread.c")],
 [("locking of vertex pairs", L+"graph_match_scan.c"),("slice-wise numbering by parallel scan", L+"graph_coarsen.c"),("worker barrier, reduce, scan", L+"common_thread.c")],
 observe=["SCOTCH_graphCoarsen, SCOTCH_graphCoarsenMatch, SCOTCH_graphCoarsenBuild"])
prop("C11", "Concurrent use of separate contexts gives each caller its solo result",
 "Threads that each use their own context with its own random generator, even on the same shared graph, each get exactly the result that the same sequence of calls gives when run alone, each context keeps its own options, which read back as it set them (deterministic behaviour implying a fixed seed), and shared read-only objects are unchanged.",
 ["schedules", "histories", "inputs"], "all interleavings of caller threads and of their worker threads, all call sequences",
 "One test runs a few concurrent calls and only checks that they return; hidden shared state shows only under rare interleavings.",
 [L+f for f in ("context.c","library_context.c","library_context_graph.c","common_integer.c","common_values.c","parser.c","parser_yy.y","library_strat.c")],
 [("context-bound objects", L+"library_context_graph.c"),("per-context random generator and values", L+"context.c")])
prop("C12", "Worker-thread pools start, work, split and stop without hang, leak or lost work",
 "Creating a context's threads, launching work on all of them, splitting the pool in two halves and merging back, reducing and scanning across threads, and destroying the context always complete: each worker runs each launched task exactly once, barriers release nobody early, reductions and prefix scans give the sequential result, and no thread or memory is left. If the system refuses to create a thread, the call reports failure or runs with fewer threads, and the context can still be destroyed; the calling thread always gets its processor affinity back.",
 ["schedules", "fault_sequences", "histories"], "all interleavings and spurious wake-ups of worker threads, thread counts, sequences of launches and splits, and refusals of thread creation at any point",
 "Tests start a pool once and run it under one schedule; they never see a spurious wake-up, a late thread start or a refused thread creation.",
 [L+f for f in ("common_thread.c","common_thread_system.c","context.c","library_context.c")],
 [("pool start-up and shutdown", L+"common_thread.c threadContextInit2/threadContextExit"),("launch state machine", L+"common_thread.c threadLaunch"),("splitting", L+"context.c contextThreadLaunchSplit")])
prop("C13", "What is saved can be loaded back unchanged, and failed writes are reported",
 "Saving a graph, mesh, mapping, ordering, target architecture or geometry and loading the file gives back an equal object, within what the format can hold: coordinates have six decimals; Chaco and Matrix Market files are read back as base 1, Chaco holds weights of at least 1 and labels that are a permutation, Matrix Market no weights or labels; only orderings of unlabelled graphs can be loaded; block, tree and labelled ordering files, and the files of distributed orderings and mappings, say what the arrays say. Saving again gives the same file. When any write or the final flush of the stream fails, with a full disk or an I/O error, at any point, the save call that meets the failure reports it.",
 ["inputs", "fault_sequences"], "all objects, every point of failure of the underlying stream, all short-write patterns",
 "Tests save to a healthy disk only and compare few of the files.",
 [L+f for f in ("graph_io.c","mesh_io.c","mapping_io.c","order_io.c","arch.c","arch_deco.c","geom.c","dgraph_io_save.c","dmapping_io.c","dorder_io.c","dorder_io_tree.c")],
 [("graph output", L+"graph_io.c graphSave"),("mapping output", L+"mapping_io.c"),("ordering output", L+"order_io.c")])
prop("C14", "Loading from a failing or damaged stream gives an error or a valid object",
 "Loading a graph, mesh, mapping, ordering or architecture from a stream that is cut short, returns read errors, delivers data in arbitrary small pieces or has flipped bytes never crashes, hangs, accesses memory out of bounds or leaks: it returns an error, or an object that can be checked, saved and freed and that, if its consistency check accepts it (architectures, mappings and geometries have none), can be used. When a distributed graph is loaded, all processes return the same status. After a failed load, the intact file loads. A stream that is merely slow or delivers short reads gives the same object as an ordinary one.",
 ["fault_sequences", "inputs"], "all positions of truncation, read error and byte corruption; all short-read patterns",
 "Tests load well-formed files from a healthy disk.",
 [L+f for f in ("graph_io.c","mesh_io.c","library_graph_map_io.c","arch.c","arch_deco.c","arch_deco2.c","common_integer.c","graph_io_chac.c","graph_io_mmkt.c","graph_io_habo.c","dgraph_io_load.c","graph_io_scot.c")],
 [("integer parsing", L+"common_integer.c intLoad"),("graph input", L+"graph_io.c graphLoad2"),("parallel load with error propagation", L+"dgraph_io_load.c")])
prop("C15", "The random generator is exactly restartable and private to its context",
 "Resetting the generator replays the sequence since the last seeding, saving and reloading its state at any point continues exactly the same sequence, the seed and the process number each have their influence on the sequence, which they make reproducible, and every draw is within its bound. Draws made by other contexts, by other threads or by the library's default generator never alter the sequence of a context's own generator, and a save or load that meets an I/O error reports it and a failed load leaves no half-loaded state in use.",
 ["histories", "fault_sequences", "schedules"], "all sequences of draw, seed, reset, save and load operations on several generators, all interleavings, all I/O failure points",
 "Tests draw a few numbers once from the default generator.",
 [L+f for f in ("common_integer.c","library_random.c","library_context.c","context.c")],
 [("generator state", L+"common_integer.c intRand*"),("library interface", L+"library_random.c"),("context cloning", L+"context.c contextRandomClone")])
prop("C16", "Running out of memory is reported cleanly and harms nothing",
 "When a memory allocation fails at any point inside a library call, the call returns a failure status without crashing, hanging, corrupting memory or leaking what it had allocated; objects passed as read-only input are unchanged, and repeating the call with memory available gives the same result as if the failure had never happened.",
 ["fault_sequences", "inputs", "histories"], "every allocation of every covered call, one at a time and in bursts",
 "No test makes an allocation fail.",
 [L+f for f in ("common_memory.c","graph_coarsen.c","graph_match.c","kgraph_map_ml.c","hgraph_order_nd.c","library_graph_map.c","library_graph_order.c","graph_io.c","mesh_graph.c","order.c","mapping.c")],
 [("grouped allocation", L+"common_memory.c memAllocGroup"),("error returns", L+"library_graph_*.c")])
prop("C17", "Compressed streams carry exactly the bytes written, whatever the pipe does",
 "Data written through a compressing output stream (gzip, bzip2, lzma) and read back through a decompressing input stream is byte for byte the same and ends at the same place, for every interleaving of the worker thread with the caller and every chunking of pipe reads and writes. A damaged or truncated compressed file ends the stream or is reported, never hangs the caller, closing always terminates the worker, and a compressed file that could not be written completely is reported.",
 ["schedules", "inputs", "fault_sequences"], "all thread interleavings, pipe chunk sizes, data sizes, formats, truncation points, write failure points",
 "Tests read a few compressed files through ordinary pipes under one schedule.",
 [L+f for f in ("common_file.c","common_file_compress.c","common_file_decompress.c")],
 [("worker thread and pipe", L+"common_file_compress.c"),("format loops", L+"common_file_decompress.c")])
prop("C18", "The MeTiS, ParMeTiS and MUMPS interfaces return valid results and true status",
 "Through the compatibility interfaces every successful call returns a valid result: permutations that are inverse of each other, part numbers in range with the cut or volume it reports equal to the one the partition really has, dual graphs of meshes as MeTiS defines them, and elimination trees and column degrees that are those of the factored matrix; every failing call says so by its status. For the distributed ones this is true for every process count, distribution and message timing, and the user's arrays are left unchanged.",
 ["inputs", "schedules", "configurations"], "all graphs, base values, weights options, process counts, message timings",
 "Tests call each routine once on one mesh.",
 ["src/libscotchmetis/"+f for f in ("metis_graph_order.c","metis_graph_part.c","metis_graph_dual.c","metis_graph_part_dual.c","parmetis_dgraph_order.c","parmetis_dgraph_part.c")]+["src/esmumps/esmumps.c","src/esmumps/symbol_fax.c"],
 [("array adaptation and cut computation","src/libscotchmetis/metis_graph_part.c"),("distributed adaptation","src/libscotchmetis/parmetis_dgraph_part.c"),("symbolic factorisation","src/esmumps/esmumps.c")])
prop("C19", "Consistency checks reject any single corruption, on all processes alike",
 "The consistency check of a distributed graph accepts every valid graph and gives, on all processes, the same rejecting verdict for a graph in which one process's data was damaged so as to be inconsistent; it never hangs or reads outside of the arrays. The same is true of the checks of centralized graphs, meshes and orderings. (Loops and overflowing load sums of distributed graphs, which their check does not look at, are not meant.)",
 ["fault_sequences", "inputs", "schedules"], "all single corruptions of the described arrays on any process, all message timings",
 "Tests only check valid objects.",
 [L+f for f in ("dgraph_check.c","graph_check.c","mesh_check.c","order_check.c","dorder_io.c","library_dgraph_check.c","library_graph_check.c")],
 [("symmetry check across processes", L+"dgraph_check.c")])
prop("C20", "Threaded mapping and partitioning are valid under every interleaving",
 "Whatever the number of threads and their interleaving, mapping, remapping, fixed-vertex mapping and overlapping partitioning return for every vertex one existing part (or the separator mark where allowed), keep each fixed vertex where it was fixed, and leave the graph unchanged.",
 ["schedules", "inputs", "configurations"], "all interleavings of worker threads, thread counts, graphs, targets, strategies",
 "Tests run single schedules and check few results.",
 [L+f for f in ("library_graph_map.c","kgraph_map_rb_part.c","kgraph_map_ml.c","kgraph_map_df.c","bgraph_bipart_df.c","wgraph_part_rb.c","library_graph_part_ovl.c")],
 [("pool splitting in recursive bipartitioning", L+"kgraph_map_rb_part.c"),("threaded diffusion", L+"kgraph_map_df.c")])
prop("C21", "Threaded ordering is a consistent permutation under every interleaving",
 "Whatever the number of threads and their interleaving, ordering a graph or a mesh returns a permutation and its inverse, and a block list and separator tree that partition the numbering range, nest without cycles and are consistent with the graph: no edge joins two vertices of unrelated subtrees.",
 ["schedules", "inputs", "configurations"], "all interleavings of worker threads, thread counts, graphs, meshes, strategies",
 "Tests run single schedules and check few results.",
 [L+f for f in ("library_graph_order.c","library_mesh_order.c","hgraph_order_nd.c","hmesh_order_nd.c","order.c","order_io.c")],
 [("parallel dissection of the two parts", L+"hgraph_order_nd.c"),("shared ordering structure", L+"order.c")])
prop("C22", "Statistics describe the whole object, alike on every process",
 "Graph, mesh and mapping statistics (graph, mesh and distributed-graph statistics, distributed mapping statistics and every mapping, remapping and overlap view) are those of the object given, by their documented definitions: loads, degrees, used target vertices, neighbors, communication load, dilation, expansion, cut, distance histogram, migration. On a distributed graph every process gets the same values, those of the same graph held centrally, whatever the distribution, and each process may ask for a different subset. The object, the mapping included, is left unchanged, and output that cannot be written is reported.",
 ["schedules", "inputs", "faults", "configurations"], "all graphs, weights, bases, distributions, targets, mappings with unused or unmapped parts, message schedules, write errors",
 "Tests call the statistics routines on a few graphs and never check the values.",
 [L+f for f in ("library_dgraph_stat.c","library_dgraph_map_stat.c","library_dgraph_map_view.c","library_graph_map_view.c","library_graph.c","library_mesh.c")],
 [("global reduction of graph statistics", L+"library_dgraph_stat.c"),("mapping statistics over ghost vertices", L+"library_dgraph_map_stat.c"),("centralized mapping views", L+"library_graph_map_view.c")])
prop("C23", "Programs produce what they were asked for, or end with a failure status",
 "Each command-line program (graph, mesh and architecture generators, converters, testers, scatterer and gatherers, sequential and parallel partitioners, mappers and orderers) writes files that are what its documented arguments and options ask for: the generated or converted object, an ordering, mapping or vertex separator tree valid for the input graph, statistics equal to those of the input, whatever the order of the options, the base, the compression of the files, and, for parallel programs, the number of processes, the distribution of the input files and the message timing. When its arguments are wrong, a file cannot be opened or read, or its output cannot be written, at whatever byte, it ends with an error message or a failure status, never with success.",
 ["inputs", "faults", "schedules", "configurations"], "all programs, options, input files, process counts, message timings, thread interleavings, file open, read, write and close failures",
 "Tests run the programs on a few files and look at the exit status only.",
 ["src/scotch/"+f for f in ("gmap.c","gord.c","gcv.c","gscat.c","gotst.c","gmtst.c","gtst.c","gmk_msh.c","amk_grf.c","acpl.c","atst.c","mord.c","dgmap.c","dgord.c","dgscat.c","dggath.c")]+[L+"common_file.c"],
 [("mapping program","src/scotch/gmap.c"),("parallel mapping program","src/scotch/dgmap.c"),("ordering programs","src/scotch/gord.c"),("graph conversion","src/scotch/gcv.c"),("opening and closing of program files",L+"common_file.c")])
prop("C24", "A strategy does what its string says, and survives being saved and read back",
 "A strategy string is applied as documented: a condition on the variables of the current graph or mesh, with its operators, precedences, parentheses and number types, selects the branch it says, so that the computation gives the result of that branch alone. A strategy that is saved, whether given as a string or built from flags, is read back as the same strategy: it is accepted, gives the same results, and is saved again in the same way. A failed write while saving is reported. A string that is not a strategy is refused with an error message, without a crash, and the strategy object stays usable.",
 ["inputs", "faults", "configurations"], "all strategy strings of all eight kinds, well formed or not, graphs and meshes, flags of built strategies, write failures at any byte",
 "Tests parse a few fixed strings and never read a saved strategy back.",
 [L+f for f in ("parser.c","parser_yy.y","parser_ll.l","library_parser.c","hgraph_order_st.c","hmesh_order_st.c","bgraph_bipart_st.c","kgraph_map_st.c","vgraph_separate_st.c","wgraph_part_st.c")],
 [("evaluation and saving of conditions",L+"parser.c"),("strategy grammar",L+"parser_yy.y"),("strategy tokens",L+"parser_ll.l")])
prop("C25", "Derived centralized objects and colourings are exact",
 "What the library builds out of a centralized graph or mesh is what its definition says: a colouring gives neighbours different colours and uses all the colours it announces; the subgraph induced by a vertex list or by a part is exactly the induced subgraph, with its weights, labels and edge loads, also when induced again; the pseudo-diameter is a distance between two vertices which is the eccentricity of the first one and which no vertex exceeds from the second one, or the documented value for disconnected and empty graphs; the graph and the dual graph of a mesh are exactly those defined by its adjacency; the base of a graph can be changed and restored exactly; the dumped C form of a graph rebuilds it. The source object is unchanged by read-only calls, which several callers may make at the same time. When memory or a write is refused the call reports it, gives no wrong result, and keeps no memory.",
 ["inputs", "schedules", "faults"], "all graphs, meshes, bases, weights, gapped arrays, vertex lists, contexts, interleavings of callers, refused allocations and write failures",
 "Tests call each routine on one or two graphs and hardly check the result.",
 [L+f for f in ("library_graph_color.c","library_graph_induce.c","graph_induce.c","graph_diam.c","library_graph_diam.c","graph_dump.c","library_graph_dump.c","library_graph_base.c","graph_base.c","mesh_graph.c","library_mesh_graph.c")],
 [("greedy colouring",L+"library_graph_color.c"),("induced subgraphs",L+"graph_induce.c"),("mesh to graph",L+"mesh_graph.c"),("pseudo-diameter",L+"graph_diam.c")])
prop("C26", "An object bound to a context stands for the object in every routine",
 "A graph, mesh or distributed graph bound to an execution context can be given to every routine which accepts the bare object, and the routine does the same thing: same data, statistics, files, checks, derived objects, mappings and orderings when the random generator is in the same state. Binding and releasing do not change the object, and modifications which a routine is documented to make through the container are made to the object.",
 ["inputs", "configurations", "schedules"], "all routines accepting graphs, meshes or distributed graphs, all inputs, context options, message timings",
 "Tests bind a graph to a context for mapping and ordering only.",
 [L+f for f in ("context.c","context.h","library_context.c","library_context_graph.c","library_context_mesh.c","library_context_dgraph.c","library_graph.c","library_mesh.c","library_dgraph.c","library_arch_build.c")],
 [("containers",L+"context.h"),("binding",L+"library_context_graph.c"),("binding of distributed graphs",L+"library_context_dgraph.c")])
prop("C27", "The Fortran interface does what the C interface does",
 "Every routine of the Fortran interface does exactly what the C routine of the same name is documented to do, on the same objects: it takes all its arguments by reference and in the documented order, takes the arrays passed in place of absent ones as absent, returns arrays as indices from the reference array given, takes strings by their length, gives back the values and the status the C routine gives, and reads and writes through the file descriptors it is given, which stay open and usable by the caller, -1 standing for no file in collective routines. A failed read or write, up to the closing of the file, is reported in the status. All the guarantees of the C interface hold through it.",
 ["inputs", "faults", "schedules", "configurations"], "all Fortran routines which have a C counterpart, all inputs, process counts, message timings, read and write failures at any byte",
 "Tests never call most of the Fortran routines, and check no result of those they call.",
 [L+f for f in ("library_graph_f.c","library_dgraph_f.c","library_mesh_f.c","library_arch_f.c","library_graph_map_f.c","library_graph_order_f.c","library_dgraph_map_f.c","library_dgraph_order_f.c","library_dgraph_band_f.c","library_dgraph_induce_f.c","library_dgraph_stat_f.c","library_parser_f.c","library_context_f.c","library_graph_io_mmkt_f.c")],
 [("graphs",L+"library_graph_f.c"),("distributed graphs",L+"library_dgraph_f.c"),("distributed mapping files",L+"library_dgraph_map_f.c"),("orderings",L+"library_graph_order_f.c")])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
