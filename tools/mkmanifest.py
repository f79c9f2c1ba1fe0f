"""Writes MANIFEST.json from the checks which exist (run from /verif)"""
import importlib
import json
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))

TECHNIQUE = {
    'A01': 'runtime monitor: boundary-condition residual of the reported solution (independent velocity model), fault workload with singular systems',
    'A02': 'runtime monitor: differential oracle (independent Biot-Savart and kinematics model) on observed matrices',
    'A03': 'runtime monitor: differential oracle on panelwise results of observed analyses',
    'A04': 'runtime monitor: conservation checker (sums of observed panel loads)',
    'A05': 'runtime monitor: metamorphic trace relations between observed analyses',
    'A06': 'runtime monitor: mirror relations within and between observed analyses',
    'A07': 'runtime monitor: physical limit monitors on observed analyses',
    'G01': 'runtime monitor: exact tiling and lattice-geometry oracle on observed lattices',
    'G02': 'runtime monitor: region oracle computed from the input against the observed panel bookkeeping',
    'G03': 'runtime monitor: normal-rotation oracle against observed normals, relations between runs',
    'G04': 'runtime monitor: reflection oracle on observed lattices',
    'G05': 'runtime monitor: displacement-field oracle on observed deformed lattices, relations between runs',
    'G06': 'runtime monitor: discretisation relations between observed lattices and result series',
    'G07': 'runtime monitor: geometric construction oracle on observed lattices and aircraft objects, relations between runs',
    'S01': 'runtime monitor: input/outcome oracle (acceptance table, independent ISA model) on observed flight states',
    'S02': 'runtime monitor: offline log comparison of batched against isolated analyses, random call histories',
    'S03': 'runtime monitor: shadow model of the settings over random operation histories',
    'S04': 'runtime monitor: fault injection into inputs, outcome and directory-snapshot oracle',
    'F01': 'runtime monitor: offline checker comparing written files with returned results',
    'F02': 'runtime monitor: file-system snapshots and syscall-level write log (audit hook) of real command-line runs',
    'F03': 'runtime monitor: round-trip oracle over random save/load/run histories',
    'F04': 'runtime monitor: artist recorder on matplotlib figures and directory snapshots',
    'F05': 'runtime monitor: recording stand-ins for the TiXI/TiGL libraries, differential oracle against native runs',
    'C01': 'runtime monitor: differential oracle between real command-line runs and library runs, monitor of messages and exit status',
    'O01': 'runtime monitor: recorded aircraft objects of running analyses, enumeration oracle from the definition',
    'M01': 'AddressSanitizer and UndefinedBehaviorSanitizer build of the extension, valgrind memcheck, differential runs under different memory contents',
    'M02': 'runtime monitor: weak references, reference counts, Python memory blocks, malloc statistics, file descriptors and handlers over repetitions',
}
NOTE = {
    'A01': 'Seeded random workload; a completed analysis must satisfy the boundary condition to round-off. Trusts numpy and the velocity model in vt/ref.py.',
    'A02': 'Seeded random workload; entrywise comparison at 1e-8. Trusts vt/ref.py.',
    'A03': 'Seeded random workload; panelwise comparison at 1e-6. Trusts vt/ref.py.',
    'A04': 'Seeded random workload; sums compared at 1e-10.',
    'A05': 'Seeded random pairs of analyses; badly conditioned lattices (condition number above 2000) are left out of the relations which are only equal up to round-off amplification.',
    'A06': 'Seeded random workload; interpolated camber of the external aerofoil library limits the tolerance on cambered wings to 1e-3.',
    'A07': 'Seeded random workload in ranges where the bounds of wing theory are safe.',
    'G01': 'Seeded random workload; the oracle recomputes strips and panels from the input.',
    'G02': 'Seeded random workload; the documented merging of spanwise borders closer than 0.01 is modelled.',
    'G03': 'Seeded random workload; aerofoil slopes come from the external aerofoil library.',
    'G04': 'Seeded random workload; reflection compared at round-off.',
    'G05': 'Seeded random workload; the interpolation between given points is only checked where it is determined (at points, for affine fields and between runs).',
    'G06': 'Seeded random workload; convergence is checked on a bounded refinement series.',
    'G07': 'Seeded random workload; corners compared at round-off, loads up to the sensitivity of the aerofoil library.',
    'S01': 'Acceptance table enumerated completely for scalars, random for lists; the atmosphere compared with an own implementation of ISA to 80 km geometric altitude.',
    'S02': 'Random histories; results compared bit by bit.',
    'S03': 'Random histories of settings objects against a shadow model.',
    'S04': 'Every fault of the catalogue at random places; the same project without the fault is accepted.',
    'F01': 'Random projects; files parsed independently.',
    'F02': 'Random projects run through the command line and the library; writes recorded by directory snapshots and an audit hook.',
    'F03': 'Random histories; values compared exactly.',
    'F04': 'Random plot settings; figures inspected through matplotlib artists at the moment they are saved.',
    'F05': 'The real TiXI and TiGL libraries are not available: the stand-ins implement their documented behaviour for the calls used.',
    'C01': 'Random projects, arguments and histories; result files compared byte by byte.',
    'O01': 'Seeded random workload; identity of objects and exact order.',
    'M01': 'Sanitizers see the executions of the workload only; NumPy, LAPACK and Python themselves are not instrumented.',
    'M02': 'Bounded number of repetitions; growth is measured after a warm-up, growth which stops is taken for a cache.',
}
NOT_APPLICABLE = {}

checks, missing = [], []
for line in open(VERIF / 'properties.jsonl'):
    pid = json.loads(line)['id']
    if (VERIF / 'vt' / 'checks' / f'{pid}.py').exists():
        checks.append({'property': pid, 'quick_cmd': f'./check.py {pid} --tier quick',
                       'thorough_cmd': f'./check.py {pid} --tier thorough', 'technique': TECHNIQUE[pid],
                       'level': 'exploration', 'level_note': NOTE[pid]})
    else:
        missing.append({'property': pid, 'reason': NOT_APPLICABLE.get(pid, 'No check built yet.')})
out = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -m vt.build plain asan pattern debug', 'checks': checks, 'not_applicable': missing,
       'notes': 'No hooks in the code under test: the monitors observe its public entry points, files and processes.'}
(VERIF / 'MANIFEST.json').write_text(json.dumps(out, indent=1) + '\n')
print(len(checks), 'checks', [m['property'] for m in missing])
