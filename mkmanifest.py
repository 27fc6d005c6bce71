#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables below."""
import json
GUEST = 'runtime commit monitor on the real simulator against an independent sequential model, repository assertions on'
NOTE = ' Sampled workloads, not exhaustive; trusts the model and the bus/DDR stand-in.'
NOTE2 = ' Sampled operands and states, not exhaustive; trusts the independent model.'
STEP = 'side-by-side runtime comparison of the repository reference model with an independent model, address and undefined-behaviour sanitizers on'
CHECKS = [
 ('P01', 'exploration', GUEST,
  'Every commit of random programs under random bus timing is compared with the model.' + NOTE),
 ('P02', 'exploration', GUEST,
  'Trap causes, values, CSR state and privilege are compared at every commit of trap- and interrupt-heavy programs.' + NOTE),
 ('P03', 'exploration', GUEST,
  'Every address translation that commits, and every page fault, is compared with a walk of the page tables in memory.' + NOTE),
 ('P04', 'exploration', GUEST,
  'Values loaded and final memory contents are compared under cache-hostile access patterns and bus timing.' + NOTE),
 ('P05', 'exploration', GUEST,
  'Results and memory effects of LR/SC and AMOs are compared at commit.' + NOTE),
 ('P06', 'exploration', GUEST,
  'The bits of each committed instruction are compared with memory in self-modifying programs.' + NOTE),
 ('P07', 'exploration', STEP,
  'Every step of the reference model from random states is compared with the sequential model in all state, and all memory at the end.' + NOTE2),
 ('P08', 'exploration', STEP,
  'Privileged steps over random page tables, delegation and pending interrupts are compared in all state. One open finding: undelegated supervisor interrupts.' + NOTE2),
 ('P09', 'exploration', 'operation-by-operation runtime comparison with an independent IEEE computation under sanitizers, plus commit monitor for whole programs',
  'All operations and rounding modes with corner-case and random operands on the reference model, the execution units and the core.' + NOTE2),
 ('P10', 'fault_enumeration', "fault injection into the reference the simulator's own checker compares with, and into bus reads, on real runs",
  'Every compared item and bit is made to differ at random commits, in forked copies of the run; each must stop at that commit. Positions are sampled, items and bits are enumerated.'),
 ('P11', 'exploration', GUEST,
  'A watchdog observes commits under hostile bus timing; a bounded stall stands in for a deadlock.' + NOTE),
 ('P12', 'exploration', 'runtime ownership monitors on pipeline resources every cycle of real runs, repository assertions on',
  'Owners of registers, slots, tags and miss registers are recounted each cycle and pools compared with their first state after each drain. The monitors read internal state by name; one that no longer compiles is left out and named in the evidence.' + NOTE),
 ('P13', 'exploration', GUEST,
  'Device registers, interrupts, DMA results and console bytes are compared with an independent device model.' + NOTE),
 ('P14', 'fault_enumeration', 'hand-over monitor and lock-step model on real fast-forwarded and checkpointed runs; enumerated damage to checkpoint files and options',
  'The restored state is compared with a run of the model from the start, then every commit, the whole instruction stream, exit code and console. Switch points and bit flips are sampled; header fields and cut positions are enumerated.' + NOTE),
 ('P15', 'exploration', 'address, undefined-behaviour and memory sanitizers, library bounds checks and memcheck on real runs',
  'Programs inside and outside the contract, damaged checkpoints, odd command lines, two build profiles, and the reference model; any report in repository code fails. Sampled, not exhaustive; uninitialised reads are judged from the first simulated cycle on, and loading by memcheck.'),
 ('P16', 'exploration', 'differential runs of the same program with varied heap, environment, layout, compiler, optimisation and link order',
  'Exit status, complete output with statistics, cycle counts, bus transfers and commit stream are compared byte for byte. Sampled programs and variations.'),
 ('P17', 'exploration', GUEST + ', in other build profiles and parameter settings',
  'Programs of every class run in the shipped profiles and in 18 parameter settings; one wrong in a setting and right in another is a violation. Settings are a fixed selection inside the documented ranges. Open findings: ideal instruction cache, and data lines shorter than instruction lines, with self-modifying or paged programs.' + NOTE),
 ('P18', 'fault_enumeration', 'memory image monitor before the first instruction, commit monitor for endings and limits, enumerated unusable files and options',
  'All of memory is compared with the file; endings, codes and limits are compared in every mode; refusals are enumerated. Sizes, codes and limits are sampled.'),
 ('P19', 'exploration', 'runtime event monitors beside the simulator counters, compared with every printed report',
  'Cycles, commits, loads, stores, branches, mispredictions and cache events are counted by monitors at commit and at the cache interfaces and compared with the printed numbers. Cache monitors read interfaces by name; one that no longer compiles is left out and named in the evidence.' + NOTE),
]
NA = []
m = {'version': 1, 'setup_cmd': 'python3 setup.py',
     'checks': [{'property': p, 'quick_cmd': 'python3 check.py ' + p,
                 'thorough_cmd': 'python3 check.py ' + p,
                 'evidence_file': 'evidence/%s.json' % p, 'technique': t,
                 'level': l, 'level_note': n} for p, l, t, n in CHECKS],
     'not_applicable': [{'property': p, 'reason': r} for p, r in NA],
     'notes': 'No hooks in /repo: monitors attach through the reference-CPU and bus interfaces the simulator is linked against.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
