#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL = ('Seeded search over generated workloads of the real dredd binary run under a ptrace/LD_PRELOAD simulator that owns every system call result '
        '(errors, short writes, full disk, kill at each call), environment, allocator layout, clock and randomness; trusts the kernel, ptrace and the oracle code. '
        'Evidence for what was explored, not a proof.')
T = {
 'C01': 'deterministic simulation of the dredd process with seeded crash and I/O fault injection; old-or-new check on every source file',
 'C02': 'deterministic simulation with seeded I/O fault injection; exit status checked against the resulting files and a fault-free reference run',
 'C03': 'deterministic simulation with seeded per-file faults; non-failed files compared with a reference run without the failed ones',
 'C04': 'deterministic simulation over file lists with seeded faults; id ranges checked against the outputs and the info file',
 'C05': 'deterministic simulation with seeded heap layout, environment, clock, randomness and I/O chunking; byte equality across runs',
 'C06': 'deterministic simulation over include graphs, path spellings and faults; frame check on every file in the simulated tree',
}
RT = ('Seeded search over generated programs, mutant selections, thread schedules and faults: the real dredd output is compiled and run inside a one-process simulator that '
      'decides every thread switch and system call result; trusts clang, the simulator and the generated reference programs. Evidence for what was explored, not a proof.')
R = {
 'C07': 'deterministic simulation of the instrumented program under seeded thread schedules; history equality with the original program',
 'C08': 'deterministic simulation under seeded thread schedules; history equality with a reference program edited as the mutation info file says',
 'C09': 'deterministic simulation with seeded schedules and tracking-file faults; history equality with the original program',
 'C10': 'deterministic simulation with seeded schedules, crashes and several processes; tracking file checked against an instrumented reference of what was reached',
 'C11': 'deterministic simulation of both instrumented forms under seeded schedules; killed implies tracked, ids and info equal',
 'C12': 'deterministic simulation with seeded preemption inside the injected code; happens-before race check, stall and progress check',
}
claimed = os.environ.get('CLAIM', 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12').split()
checks = []
for p in claimed:
    checks.append({'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': './check ' + p + ' thorough',
                   'technique': T.get(p) or R[p], 'level': 'exploration', 'level_note': TOOL if p in T else RT})
na = [
 {'property': 'C13', 'reason': 'query_mutant_info.py and the recorded ranges are a pure function of one input file; no schedule, fault, clock or multi-party behaviour is involved.'},
 {'property': 'C14', 'reason': 'Which redundant mutants are dropped is a pure function of the program text; no schedule or fault is involved.'}]
for p in list(T) + list(R):
    if p not in claimed:
        na.append({'property': p, 'reason': 'check under construction'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every seam is outside the binary. Replay a violation with ./check --replay <file>.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
