"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

B = ['dsch/backends/hdf5.py', 'dsch/backends/npz.py', 'dsch/backends/mat.py']

p('C01', 'An acknowledged save is read back exactly, by every later session',
  'Once saving a file storage has returned without an error, every later session that loads that path, whether the saving '
  'process closed properly or was killed right after, gets exactly the schema and data the storage held when it was saved: '
  'same values, types, array dtypes and shapes, same list lengths and order, same empty and non-empty fields. '
  'This holds for every schema, every backend and whatever sequence of edits, earlier saves and reloads led to that state.',
  ['histories', 'inputs', 'crash_points', 'configurations'],
  'all schemas (nested), backends, histories of edits/saves/reloads over several process lives, kill after acknowledgement',
  'Tests save one fixed value per type once and load it once in the same process; they never edit after a save or load, never '
  'span process lives, never nest deeply, and skip whole node types (bytes) in the round trip.',
  B + ['dsch/storage.py', 'dsch/data.py'],
  [('save', 'dsch/storage.py:FileStorage.save'), ('npz flatten/inflate', 'dsch/backends/npz.py:_flatten_dotted,_inflate_dotted'),
   ('mat struct/cell mapping', 'dsch/backends/mat.py'), ('hdf5 group/dataset mapping', 'dsch/backends/hdf5.py')],
  ['dsch.load(path) after FileStorage.save()'])

p('C02', 'An interrupted save leaves the old version or the new one',
  'If the process dies, or power is lost, at any instant while a storage is being saved, then afterwards its path loads as exactly '
  'the last acknowledged version or exactly the version being saved, and if nothing had been acknowledged before, the path may also '
  'be absent or refused. It never loads as a mixture, as partially filled or as emptied data, and the last acknowledged version is never lost.',
  ['crash_points', 'histories', 'inputs'],
  'every disk operation of every save, torn writes included, after every history; power loss dropping any not-yet-synced data',
  'No test interrupts a save; a crash point is a choice among dozens of disk operations the tests never see.',
  B + ['dsch/storage.py'],
  [('writing the file', 'dsch/backends/npz.py:Storage._save, dsch/backends/mat.py:Storage._save, dsch/backends/hdf5.py:Storage._save')],
  ['disk image after the crash, loaded by a fresh process'])

p('C03', 'A storage fault is reported, destroys nothing and can be retried',
  'When the disk fails, is full, or refuses an operation while a storage is saved, the save either raises an error or has really stored the data; '
  'it never reports success for data that cannot be loaded back, and it does not destroy the last acknowledged version. '
  'The data held in memory is unchanged by the failed save, and once the fault is gone, saving again succeeds and is durable.',
  ['fault_sequences', 'histories', 'inputs'],
  'every disk operation of every save failing with EIO/ENOSPC/EINTR or short, once or persistently, after every history',
  'No test makes any disk operation fail.',
  B + ['dsch/storage.py'],
  [('save path', 'dsch/storage.py:FileStorage.save'), ('backend writers', 'dsch/backends/*.py:Storage._save')],
  ['exception or return of save(); reload by a fresh process; in-memory tree after the failure'])

p('C04', 'Invalid data is never saved unforced, valid data is never refused',
  'Saving without force succeeds exactly when all data currently held satisfies every constraint of the schema (types, dtypes, shapes, value and '
  'length limits, list lengths, sizes of dependent arrays; empty fields satisfy everything), however that data was put there. A refused save raises an error, '
  'leaves the stored version as it was, and a validation error that names a location names a field that really violates the schema. Forced saving stores the data as it is.',
  ['histories', 'inputs', 'programs'],
  'all schemas with constraints at any nesting depth, all edit histories mixing valid and invalid updates, all backends',
  'Tests validate single nodes with single hand-picked violations; the gate must hold in every reachable state of every nested schema.',
  ['dsch/storage.py', 'dsch/data.py', 'dsch/schema.py', 'dsch/exceptions.py'] + B,
  [('gate', 'dsch/storage.py:FileStorage.save'), ('recursive validation', 'dsch/data.py:validate'), ('constraints', 'dsch/schema.py:validate')],
  ['outcome of save()/validate(); stored version afterwards'])

p('C05', 'Loading hands out exactly the stored, schema-conforming data or fails',
  'Loading without force returns a storage only if all its data satisfies its schema, and does return whenever valid data was stored; with force the stored data is returned as it is. '
  'Read errors during a load, and files that were damaged or truncated, make the load fail or leave it correct: a load disturbed by read errors never returns data differing from what was '
  'stored, and a damaged file never yields unforced data violating the schema.',
  ['fault_sequences', 'histories', 'inputs'],
  'all stored versions (also forced invalid ones), read faults at every read, flipped bytes and truncation at every offset',
  'Tests load intact files only, with one invalid value of one type.',
  ['dsch/frontend.py', 'dsch/storage.py', 'dsch/data.py', 'dsch/schema.py'] + B,
  [('validation at load', 'dsch/frontend.py:load'), ('backend readers', 'dsch/backends/*.py:Storage._load')],
  ['outcome of dsch.load and the tree it exposes'])

p('C06', 'A storage opens only under the schema it was stored with',
  'The schema of a stored dataset and its hash are the same in every session and equal the schema given at creation. Loading with a required schema or schema hash succeeds exactly if it is that schema, and '
  'otherwise raises the schema error, leaving the stored data as it was. A pseudo-storage accepts existing data exactly if its schema is the requested one or one of the listed alternatives, and creates new storages only with the requested one.',
  ['histories', 'inputs', 'configurations'],
  'all schemas, all near-miss variants of a schema, every generation of save/load, copies between backends',
  'Tests compare one flat schema and its own hash; near misses and later generations are not sampled.',
  ['dsch/frontend.py', 'dsch/schema.py', 'dsch/storage.py'] + B,
  [('required_schema', 'dsch/frontend.py:load'), ('hash', 'dsch/schema.py:SchemaNode.hash'), ('alternatives', 'dsch/frontend.py:PseudoStorage._verify_schema')],
  ['dsch.load(required_schema=...), PseudoStorage.open, storage.schema_hash()'])

p('C07', 'Reading never changes what is stored',
  'A session that only loads, inspects, validates, prints, copies from, or fails to open a storage leaves the stored content as it was: every later load gives the same schema, data and empty fields, whatever the '
  'system clock shows, however the session ends, and even if reads fail on the way. For file formats written as a whole the file keeps its bytes.',
  ['histories', 'fault_sequences', 'crash_points', 'inputs'],
  'all stored versions, all sequences of read-only operations over several sessions, read faults, kills, clock jumps',
  'Tests never look at a file again after only reading it.',
  ['dsch/frontend.py', 'dsch/data.py'] + B,
  [('load', 'dsch/backends/*.py:Storage._load'), ('node creation for absent fields', 'dsch/data.py:Compilation._init_from_storage')],
  ['file bytes and next load after a read-only session'])

p('C08', 'Changes that were not saved never reach later sessions',
  'Edits made to a file storage become visible to later sessions only through a save that succeeded: after closing, leaving or killing a session without saving, or after a save refused by validation, '
  'the path still loads as the last acknowledged version (or does not load as data at all if there was none).',
  ['histories', 'crash_points', 'inputs'],
  'all edit histories after the last save, ended by close, exit or kill; all backends',
  'Tests save once at the end; they never leave a session with unsaved edits and look again.',
  ['dsch/storage.py'] + B,
  [('explicit save', 'dsch/storage.py:FileStorage.save')],
  ['next load by a fresh process'])

p('C09', 'Automatic timestamps are taken exactly when the field is created',
  'A field marked to be set on creation receives the local date/time that the system clock showed while the field was being created (with its storage, or with the list item containing it), in every timezone and under clock jumps. '
  'It is never changed or filled in afterwards by loading, saving, validating or copying; a cleared one stays empty in later sessions, and fields not so marked are never filled.',
  ['histories', 'schedules', 'inputs', 'configurations'],
  'all clock readings and jumps (also between two readings), timezones, sessions, backends and nesting positions',
  'Tests compare against the real clock once, right after creation, at minute resolution; they cannot jump the clock or reload later.',
  ['dsch/data.py'] + B,
  [('set_on_create', 'dsch/data.py:Date._init_new, DateTime._init_new, Time._init_new')],
  ['field values against the simulated clock readings'])

p('C10', 'A copy is exact, complete and independent of its source',
  'Creating a storage from another one (or saving it under a new path), between any two backends and from any state of the source, also partially filled ones, gives a storage with the same schema and exactly the same data, and loading data from a compatible node '
  'makes the target equal to the source whatever it held before. The source is not changed, later edits of either are not visible in the other, and an incompatible node is refused leaving the target as it was.',
  ['histories', 'inputs', 'configurations', 'fault_sequences'],
  'all pairs of backends, all source states, all edit histories after the copy, storage faults during the copy',
  'Tests copy completely filled one-field storages and do not edit afterwards.',
  ['dsch/frontend.py', 'dsch/storage.py', 'dsch/data.py'] + B + ['dsch/backends/inmem.py'],
  [('copy', 'dsch/frontend.py:create_from'), ('node copy', 'dsch/data.py:load_from')],
  ['trees of source and copy after every step'])

p('C11', 'Creating never overwrites, and only the named path is written',
  'Creating, copying or saving-as to a path at which something exists raises a file-exists error and leaves that file as it was; loading a path at which nothing exists raises a file-not-found error and creates nothing. '
  'No operation on a storage changes, adds or removes any other file, whatever the file name looks like and whichever backend is chosen explicitly, and a save that has returned has left its data at exactly the given path.',
  ['histories', 'inputs', 'configurations', 'fault_sequences'],
  'all path spellings and explicit backend choices, neighbouring files with similar names, faults during the operation',
  'Tests use one path with the natural extension in an otherwise empty directory.',
  ['dsch/storage.py', 'dsch/frontend.py'] + B,
  [('existence checks', 'dsch/storage.py:FileStorage.__init__'), ('backend file creation', 'dsch/backends/*.py:Storage._new,_save')],
  ['directory content and bytes of all other files after every operation'])

p('C12', 'All backends show the same data after the same history',
  'Driven by the same sequence of updates with valid values, storages of all backends, in-memory included, show after every step the same values, types, lengths and order, namely those last assigned; '
  'no update changes any field other than the ones it addresses, and every valid update is accepted.',
  ['histories', 'inputs', 'configurations'],
  'all schemas, all update histories (assign, replace, append, clear, element assignment, sessions), all four backends',
  'Tests perform one update on a fresh node; sequences of updates on the same or neighbouring nodes are not sampled.',
  ['dsch/data.py'] + B + ['dsch/backends/inmem.py'],
  [('node updates', 'dsch/backends/*.py:replace'), ('list handling', 'dsch/data.py:List.append,clear,replace')],
  ['value of every node after every operation against a reference model'])

p('C13', 'A failed assignment leaves the field as it was',
  'When assigning a value to a single field (or copying into it) raises an error, because the value cannot be represented or because the disk fails, the field keeps the value or emptiness it had, '
  'all other fields are unchanged, and a later valid assignment or save works normally.',
  ['fault_sequences', 'histories', 'inputs'],
  'all node types and backends, unrepresentable values and storage faults at every disk operation of the assignment',
  'Tests assign valid values on working disks only.',
  ['dsch/data.py'] + B + ['dsch/backends/inmem.py'],
  [('replace', 'dsch/backends/*.py:replace')],
  ['tree before and after the failed assignment'])

p('C14', 'A pseudo-storage session stores on exit and releases, every time',
  'Opening a pseudo-storage on a path loads what is there or creates it, exposing the same data as the storage itself; leaving the context or closing, also because of an exception in the body, stores the data if it is valid and then holds no data, so it can be opened again any number of times and sees what was stored. '
  'If the data is invalid or the disk fails, closing raises an error and neither the stored version nor the held data is lost, so that closing can be retried; a failed open leaves it closed. Given a data node it never loads, creates or saves a storage.',
  ['histories', 'fault_sequences', 'schedules', 'inputs'],
  'all sequences of open/close/with, exceptions in the body, faults while opening or closing, path or node, all backends',
  'Tests run one context each with one flag assigned, without failures.',
  ['dsch/frontend.py', 'dsch/storage.py'],
  [('PseudoStorage', 'dsch/frontend.py:PseudoStorage.open,close,__exit__')],
  ['data/storage attributes and the stored version after every transition'])

p('C15', 'Independent storages used concurrently do not affect each other',
  'When several threads each work on their own storage (own path, any backends, same or different schema objects), every thread observes and stores exactly what it would alone, for every interleaving of their steps.',
  ['schedules', 'histories', 'inputs'],
  'all interleavings at source-line granularity of concurrent create/edit/validate/save/load/copy sequences on different paths',
  'The test suite is single-threaded and has at most two storages open at once.',
  ['dsch/frontend.py', 'dsch/data.py', 'dsch/schema.py', 'dsch/storage.py'] + B + ['dsch/backends/inmem.py'],
  [('absence of shared mutable state', 'dsch/*.py')],
  ['every thread against its own reference model; reload of every path'])

p('C16', 'Stored files are complete and readable without dsch, in the known layout',
  'Every acknowledged save leaves a regular file of its format in which the schema text and every non-empty value can be found under the documented layout with plain h5py, NumPy or SciPy, and nothing that was removed is left behind. '
  'Conversely, a file in that layout, such as one stored by the pinned version, loads with exactly the data it contains.',
  ['histories', 'inputs', 'configurations'],
  'all schemas and data, after all edit/save histories, for all file backends',
  'Tests look into files with two flags; a change made consistently to writer and reader passes every round-trip test.',
  B,
  [('file layout', 'dsch/backends/*.py:Storage._save,_load')],
  ['the file opened with h5py/numpy/scipy; hand-made files loaded with dsch'])

p('C17', 'Status queries tell the truth in every state',
  'In every state reached by any history, also after reloading, crashes and failed operations, a field reports empty exactly if it holds no value (reading it then raises the node-empty error), a compilation or list is empty exactly if everything in it is, '
  'complete exactly if all non-optional parts are, list lengths count the items, every node names its parent node, and the data tree shows exactly the values present (with empty ones as None when asked for, and left out otherwise).',
  ['histories', 'inputs', 'crash_points'],
  'all schemas with optionals, all histories of updates, clears, saves, reloads and restarts, all backends',
  'Tests query flat nodes right after one assignment.',
  ['dsch/data.py', 'dsch/storage.py'] + B,
  [('complete/empty/data_tree', 'dsch/data.py:Compilation, List, ItemNode')],
  ['empty, complete, len, parent, data_tree of every node against the reference model'])

p('C18', 'Schema serialisation is lossless',
  'Converting any schema to its dict or JSON form and back gives an equal schema with the same hash, and schemas differing in any setting have different hashes.',
  ['inputs'], 'all schema definitions',
  'Tests convert a handful of fixed schemas.',
  ['dsch/schema.py'], [('to_dict/from_dict', 'dsch/schema.py')], ['node_from_json(node.to_json())'])

p('C19', 'Contradictory schema definitions are rejected at construction',
  'Constructing a schema whose constraints contradict each other (shape limits of different length, a dependency list not matching the dimensions) or deserialising an unknown node type raises an error immediately.',
  ['inputs'], 'all constructor arguments',
  'Tests try one example of each.',
  ['dsch/schema.py'], [('constructor checks', 'dsch/schema.py:Array.__init__')], ['constructor outcome'])

p('C20', 'The printed tree shows the true state of every field',
  'In every state reached by any history, also after reloading, crashes and failed operations, node_tree() of a data node and its printed form show every field and list item below it exactly once, list items in order, '
  'each with its node type and its current value as text (arrays by their shape, scalars with their unit, empty fields as <empty>), and printing never raises.',
  ['histories', 'inputs', 'crash_points'],
  'all schemas, all histories of updates, clears, saves, reloads, copies and restarts, all backends',
  'Tests do not look at the representation after anything but one assignment.',
  ['dsch/data.py'], [('node_tree/repr', 'dsch/data.py:ItemNode, Array, Scalar, Compilation, List')], ['node_tree() and repr() of every top-level node against the reference model'])

p('C21', 'Finished operations leave no file open',
  'Once creating, loading, copying, saving or opening or closing a pseudo-storage has returned or raised, whatever errors the disk produced and however damaged the file was, '
  'the process holds no open descriptor of a storage file or its directory, and files that a backend keeps in memory exist only for storages that are still in use.',
  ['histories', 'fault_sequences', 'inputs'],
  'all histories of operations on several storages, disk errors at every operation, damaged files, wrong schemas, all backends',
  'A leaked descriptor changes no result of a test; it shows after thousands of operations, or when somebody else wants to use the file.',
  ['dsch/storage.py', 'dsch/frontend.py'] + B,
  [('opening and closing files', 'dsch/storage.py:FileStorage, dsch/backends/*.py:Storage._load, Storage._save')],
  ['/proc/self/fd after every operation; open HDF5 objects of the process'])

p('C22', 'Processes sharing a file see whole versions, in order',
  'When several processes create, load, save, copy and use pseudo-storages on the same paths at the same time, every load returns one complete version (schema and all data) that some process stored, '
  'and all that the processes see is explained by saves and loads taking effect at one moment each, in real-time order: nobody sees a mixture, a partly written file or a version already replaced, '
  'no operation fails because of the others (except creating what exists), data loaded before does not change, and no temporary files are left. Errors and crashes of one process do not harm the others.',
  ['schedules', 'histories', 'crash_points', 'fault_sequences'],
  'all interleavings of the disk operations of two to four processes, crashes and disk errors included, all backends',
  'Tests run one process; interleavings of two writers or of a reader and a writer never occur.',
  ['dsch/storage.py', 'dsch/frontend.py'] + B,
  [('replacing the file', 'dsch/storage.py:FileStorage._replace_file'), ('reading the file', 'dsch/backends/*.py:Storage._load'), ('create or load', 'dsch/frontend.py:PseudoStorage.open')],
  ['results of load/create/save in every process, checked as a history of one whole-file register per path'])

p('C23', 'An interrupted operation leaves everything usable',
  'When an operation on a storage (creating, loading, saving or copying it, opening or closing a pseudo-storage, validating, inspecting) is interrupted at any point by an exception that does not come from it '
  '(Ctrl-C, a signal handler that raises, memory exhausted), that exception reaches the caller and the process goes on as if the operation had not been started or had been completed: '
  'the stored file is one complete version, old or new, no temporary file stays behind and no lock stays held, the data in memory is what it was, and doing the operation again '
  '(for a half-opened or half-closed pseudo-storage after closing it) succeeds with the usual result.',
  ['histories', 'fault_sequences', 'crash_points'],
  'every point inside an operation at which CPython can deliver an asynchronous exception, all backends, all histories',
  'Tests never interrupt anything; one interrupted save can block all later ones or leave the storage neither open nor closed.',
  ['dsch/storage.py', 'dsch/frontend.py', 'dsch/data.py'] + B,
  [('cleaning up', 'dsch/storage.py:FileStorage._replace_file'), ('opening and closing', 'dsch/frontend.py:PseudoStorage.open, close')],
  ['outcome of the operation, files, memory and outcome of the repeated operation after an exception raised at a chosen instruction'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
