"""One line per property: how it is decided (for DESIGN.md)."""
HOW = {'C01': 'encode and decode executed on a symbolic integer of each type; digit arithmetic goes to the LIA back end',
 'C02': 'two symbolic integers; pairs split by sign and magnitude; lexicographic order of the two encodings against the order of the values',
 'C04': 'sp_to_key and key_to_sp on symbolic subjects, predicates and types; two pairs with equal keys must be equal',
 'C05': "every constructor, assignment and pack/unpack on symbolic bytes with the engine's ownership tracking (double free, leak, use after free)",
 'C06': 'each request type with symbolic items packed, the size compared with what was announced, unpacked, compared field by field',
 'C07': 'the same for responses of every status, and for stealing items',
 'C08': 'histories of symbolic PUT/GET against a reference map kept by the harness, in each backend',
 'C09': 'histories with DELETE against the reference map',
 'C10': 'every GETOP against the sorted reference list (in key order) of symbolic records',
 'C23': 'typed parts through the real encode and decode callbacks, stored and found again',
 'C25': 'the database models fail at a symbolic call; what is reported and stored compared with what happened',
 'C18': 'buckets of symbolic doubles against an independent count (Z3 floating point)',
 'C19': 'pack, size, unpack, compare; into fresh and filled histograms',
 'C20': "datastore histograms against the harness's own count of the PUTs, over closing and reopening",
 'C14': 'hash functions on symbolic bytes; range of the result; equal bytes at different addresses',
 'C15': 'numbering functions with symbolic job size, rank and id; inverse of each other',
 'C16': 'hxhim::init::datastore on a symbolic rank of a symbolic job; totals compared with the numbering of all ranks',
 'C11': 'whole sessions on up to three ranks; a reference store per datastore predicts the one result of each operation',
 'C12': 'symbolic permutation mask; every permutation looked up afterwards',
 'C13': 'packets intercepted between client and transport, packed and measured',
 'C17': 'symbolic response chains turned into Results and read through every accessor',
 'C22': 'one symbolic bad argument per call; return code and the next flush',
 'C29': 'histories of PUT, ChangeHash, ChangeDatastoreName and Sync against a map from (name, datastore) to contents',
 'C21': "the real threads under the engine's scheduler: every interleaving within a preemption bound, with race, deadlock and leak detection",
 'C26': 'several ranks as threads over a model of MPI: delay bounded schedules, races, deadlocks, leftover messages',
 'C24': 'the real configuration parser over an in-memory file system and environment with symbolic values',
 'C30': 'each setter with symbolic values on each state of a session; snapshot of all other settings',
 'C31': 'user supplied encode and decode with a symbolic key, sessions opened with and without them',
 'C32': 'OpenOne and Open on databases that exist or not, and on each reason of failing; leak check and state of the session',
 'C33': 'each accessor in C and C++ on each state of a session, compared with the layout the harness built',
 'C28': 'the real function over a stand-in for mkdir(2) that keeps a set of directories; nothing reaches the real file system'}
