"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = {
 'C01': 'Random schemas, values and edit/save/reload histories over several simulated process lives on every backend; every acknowledged save and every ended life is judged by a fresh process against the reference model.',
 'C02': 'A copy of the process is killed at sampled disk operations of saves (before, in the middle of a write, after) and power-loss images are built from the write/fsync/rename log; fresh processes must find the old or the new version and be able to go on.',
 'C03': 'EIO, ENOSPC, EINTR, short and partial transfers, once or persistent, at sampled disk operations of saves; outcome, memory, stored version and retry are judged.',
 'C04': 'Histories mixing valid and invalid updates at all depths; every validate/save/forced save is judged by an independent validator; reported locations must be real violators.',
 'C05': 'Valid and force-saved invalid versions loaded with and without force, under read faults and after byte damage; results judged by an independent validator and the reference model.',
 'C06': 'Schemas and near-miss mutants offered as required schema, required hash and pseudo-storage alternatives; judged by independent schema equality and hash.',
 'C07': 'Sessions of read-only operations with read faults, kills and clock jumps; later sessions must find the same, for npz/mat byte for byte.',
 'C08': 'Lives ended by close, interpreter exit or kill with unsaved edits, refused and failed saves; later sessions must find the last acknowledged version only.',
 'C09': 'Virtual clock with jumps between any two readings and changing time zones; every automatic timestamp must equal the local time of a reading taken during its creation and never change afterwards.',
 'C10': 'save_as, create_from and load_from between all backends from arbitrary states, followed by edits of both sides; exactness and independence judged by the reference model.',
 'C11': 'Occupied, missing and odd target names, explicit backends, neighbouring files, faults; directory contents are compared byte for byte around every operation.',
 'C12': 'One update history driven through all four backends in lockstep, including reloads, against the reference model after every step.',
 'C13': 'Unrepresentable values assigned in arbitrary states and nesting depths; the field, its neighbours, later assignments and saves are judged.',
 'C14': 'open/close/with histories of pseudo-storages on paths and nodes, bodies that raise, refused and faulty opens and closes, judged by a lifecycle model.',
 'C15': 'Real threads of which exactly one runs; the seeded scheduler switches at source lines or bytecodes of dsch (and of the file writers); every thread is judged by its own reference model; what a thread also does wrong alone is not attributed to C15.',
 'C16': 'Every acknowledged file is read with plain NumPy/SciPy/h5py; files written that way are loaded, edited and saved with dsch.',
 'C17': 'All status queries are recomputed from the model after every operation of arbitrary histories, including failed ones.',
}
NOTE.update({
 'C20': 'After every operation that changed something, the printed tree is compared to one computed from the reference model, also in later sessions and after faults.',
 'C21': 'After every operation, faulty or not, the descriptors of the process and the HDF5 objects in memory are compared to the storages in use.',
 'C23': 'Copies of the process get an asynchronous exception at sampled instructions inside an operation (where CPython delivers signals); outcome, files, memory and the repeated operation are judged.',
 'C22': 'Two to four real processes of which exactly one runs; the seeded scheduler switches at every disk operation and look at a file name, with disk errors and crashes; the history must be linearizable to one register of whole versions per path.',
})
NA = {
 'C18': 'to_json/from_json and the schema hash are pure functions of a schema: no time, schedule, I/O, fault or history enters, so there is nothing to simulate (what of it a stored file depends on is exercised under C06 and C16).',
 'C19': 'Schema constructors are pure functions of their arguments; there is no fault, schedule or history to inject.',
}
m = {'version': 1,
     'setup_cmd': './setup',
     'hooks': {'guard': 'none', 'enable': 'No hooks: the shipped code runs unmodified; the seam is below it (LD_PRELOAD of sim/shim.c).', 'source_commits': []},
     'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'check --replay FILE reproduces a reported violation. known-findings.txt lists recorded findings and repaired defects.'}
for p in props:
    if p['id'] in NA:
        continue
    m['checks'].append({'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check ' + p['id'] + ' --tier thorough',
                        'technique': 'deterministic simulation with fault injection: seeded search over %s' % ({'C15': 'thread schedules, histories and faults', 'C22': 'process schedules, crashes and faults', 'C23': 'histories and points of interruption'}[p['id']] if p['id'] in ('C15', 'C22', 'C23') else 'histories, process lives and faults'),
                        'level': 'exploration', 'level_note': NOTE[p['id']] + ' Sampling, not proof; trusts the reference model and the tmpfs below the seam.'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
