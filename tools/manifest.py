#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = 'TLA+ trace validation with TLC'
LEVEL = 'model_checking'
CHECKS = {
 'C01': (TV + ' (CycleBasis, SVA)', 'Every Emit/Return of the three exact entry points (double, int, external weight map) is validated as a step of CycleBasis.tla; SVA.tla is model checked to refine it on all graphs of 4 vertices. Holds for the graphs run, seeded families with heavy ties; trusts the TLA+ definitions of simple cycle and GF(2) rank (checked by MC_Graphs).'),
 'C02': (TV + ' against a TLA+ optimum (CycleBasis, MC_Graphs, SignedSearch)', 'Return is a step only if the weight is the emitted sum and the sorted weights are those of a minimum basis, computed in TLA+ by greedy over Horton candidates, an oracle itself model checked against the brute force definition on all small graphs. The search inside a phase has its own design model (SignedSearch) and trace specification, bound to recorded searches.'),
 'C03': (TV + ' (TbbRuntime schedules imposed on the code, CycleBasis)', 'TbbRuntime.tla states the legal executions of a parallel region; TLC enumerates and simulates them and a fiber scheduler imposes them on the real TBB entry points, whose region logs and results are validated as steps. The reductions are model checked under every schedule. Races: every segment a thread, under ThreadSanitizer. Bounded by the schedules and graphs run.'),
 'C04': (TV + ' (MpiMcb message model, TraceMpi)', 'MpiMcb.tla models the ranks, the block distribution and the reductions and is checked for every rank count in its bounds (deadlock freedom, agreement, optimality). The real MPI entry points run over a message switch that imposes arbitrary delivery and arrival orders for 1 to 9 processes, and under mpirun; every rank result is a step of TraceMpi. Bounded by the graphs, process counts and delivery orders run.'),
 'C05': (TV + ' (CycleBasis: maps aspect)', 'Every approximate entry point, k from 1 to beyond the girth: Emit/Return steps on the caller graph, descriptors used after return, weights through the caller map.'),
 'C06': (TV + ' (CycleBasis bound, Spanner design model)', 'Return is a step only if weight <= (2k-1) x the TLA+ optimum (equality for k=1); k=0 must throw and emit nothing.'),
 'C07': ('TLA+ ownership model (Lifetime) and ' + TV + ' (TraceLifetime) of allocation/ownership events and of faults from instrumented builds', 'Lifetime.tla models who owns the storage behind what is handed to the caller; MC_Lifetime checks it and its two broken variants. Recorded ownership traces of every entry point, and runs of all drivers under ASan/UBSan/LSan with checked iterators, memcheck, pattern-filled storage and TSan, are steps or, for a fault, no step. Bounded by the inputs run: UB that no sanitizer of this toolchain observes is not seen.'),
 'C08': (TV + ' of metamorphic chains (Invariance)', 'Chains of transformations (renumbering, edge reorder, scaling, pendant, subdivision, disjoint union) on large graphs: each observed weight must follow from the previous ones by the step relation of Invariance.tla, which MC_Invariance checks against the optimum on small graphs.'),
 'C09': (TV + ' (CycleBasis: near aspects)', 'Inexact double weights (decimals with jitter in the last places): returns must equal the emitted sum and the exact integer optimum within 1e-9.'),
 'C10': (TV + ' (Dimacs)', 'Dimacs.tla defines the line grammar, builds the graph and decides the validators; MC_Dimacs explores all short files; generated and mutated files are read by the real reader and compared.'),
 'C11': ('TLA+ design model of the gate (Demo) and ' + TV + ' (TraceDemo over Dimacs and Graphs)', 'The four programs are built from src/ and run as processes (the MPI one under mpirun, 1 to 8 ranks) on generated valid and invalid files, option combinations enumerated by TLC. TraceDemo reads the file with Dimacs.tla, computes the optimum and admits only runs the property allows; entered algorithms are seen through instrumented function entries. Non-termination is judged by a 30 s limit on tiny graphs.'),
 'C12': (TV + ' (LexTrees design model and trace specification, TraceLongTrees)', 'All trees of a graph are validated together: distances against TLA+ shortest paths, mutual reversal and sub-path consistency, first-in-path labels; the lexicographic Dijkstra is model checked on all small graphs.'),
 'C13': (TV + ' (FVS)', 'greedy_fvs outputs are steps of FVS.tla, whose step relation is the property itself (acyclic remainder); a model of the greedy algorithm is checked exhaustively on small graphs.'),
 'C14': (TV + ' (Candidates)', 'Horton, FVS and isometric collections recorded from the real builders; soundness, nesting and sufficiency decided in TLA+ against the oracle; MC_Candidates checks sufficiency of the three collections on all small graphs.'),
 'C15': (TV + ' (Spanner)', 'The spanner, its weights, translation map and dropped list are recorded after construction and checked in TLA+ against the definition; the greedy construction is model checked under every tie order.'),
 'C16': (TV + ' (ForestIndex)', 'Both lookups for every edge and index, dimension, components, copies and assignments, reversed descriptors.'),
 'C17': (TV + ' and TLC-generated histories (GF2Vec)', 'Operation histories generated by TLC (all short ones, simulated longer ones) and seeded long ones are replayed into SpVecGF2 for four coordinate types; every result is a step of GF2Vec.tla.'),
 'C18': (TV + ' and TLC-generated histories (FpField, BigInt)', 'As C17 for fp, primes and SpVecFP over several primes and integer types; big integers are checked with BigInt.tla.'),
 'C19': ('TLA+ model of programs made of headers (Headers, reduction checked by TLC) and ' + TV, 'Every header alone and used, in four TBB/MPI configurations (absent libraries made uncompilable), linked with a copy of itself; generated programs of several units; from the observed external symbols TLC decides every pair, by a reduction model checked in MC_Headers.'),
 'C20': ('TLA+ model of the control objects (Concurrency) and ' + TV, 'Histories of set / query / library call from two units and other threads, exhaustive for short ones and simulated for long ones, generated by TLC; the limit is read inside the calls through instrumentation, and inside the demos for every option combination with --cores n.'),
}
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {'version': 1,
     'setup_cmd': 'java -version >/dev/null 2>&1 && g++ --version >/dev/null && python3 -c "import json"',
     'hooks': {'guard': 'PARMCB_VERIF', 'enable': 'harness drivers are compiled with -DPARMCB_VERIF against /repo/include', 'source_commits': ['e83977d']},
     'checks': [{'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                 'evidence_file': 'evidence/%s.json' % p, 'technique': CHECKS[p][0], 'level': LEVEL, 'level_note': CHECKS[p][1]}
                for p in props if p in CHECKS],
     'not_applicable': [{'property': p, 'reason': 'check under construction'} for p in props if p not in CHECKS],
     'notes': 'See DESIGN.md.  All specifications are TLA+ (spec/), checked with TLC.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
