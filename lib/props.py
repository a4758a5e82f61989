"""The properties, kept in one place: gen.py writes properties.jsonl and MANIFEST.json from here and from checks.py."""
PROPS = []
NA = {}
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, note=''):
    assert len(title) <= 80, title
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over.split(), 'text': text}, 'why_tests_cant': why,
                  'anchors': {'files': files.split(), 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                              'observe_at': list(observe), 'hook_needed': None}, '_note': note})
    if na:
        NA[id] = na

P('C01', 'Encoded integers decode to the value that was encoded',
  'For every signed and unsigned integer of 8 to 64 bits, encoding it as an order preserving string and decoding that string yields the same value and the length of the encoding, whatever follows it; the C functions do the same, and with other symbols for the signs those stand exactly where the default ones would.',
  'inputs', 'every value of int8..int64 and uint8..uint64, every pair of symbols',
  'The tests encode a few dozen small values; the extremes of each type and lengths above nine digits are never tried.',
  'src/utils/elen.cpp include/utils/elen.hpp include/utils/elen.tpp', [('length-prefixed integer encoding and its inverse', 'include/utils/elen.tpp')], observe=['elen::encode::integers / elen::decode::integers'])
P('C02', 'Encoded integers sort in the order of their values',
  'For any two integers of the same type, the encoded strings compare in byte order exactly as the integers compare, and are equal only for equal integers.',
  'inputs', 'every pair of values of a type',
  'Tests compare neighbouring sample values; order must hold for all pairs, across sign and digit-count boundaries.',
  'src/utils/elen.cpp include/utils/elen.tpp', [('recursive length prefix, digit complement for negatives', 'include/utils/elen.tpp')], observe=['lex_comp on encoded strings'])
P('C04', 'A subject-predicate pair and its storage key determine each other',
  'The storage key made from a subject and a predicate splits back into the same bytes and types of both, starts with the subject bytes followed by the predicate bytes, and two different pairs (bytes or types) never share a key.',
  'inputs', 'every byte content, length and data type of subjects and predicates',
  'Tests convert a handful of strings; contents with separators or embedded lengths, empty parts and every type are not sampled.',
  'src/datastore/triplestore.cpp include/datastore/triplestore.hpp', [('key layout with trailing lengths and types', 'src/datastore/triplestore.cpp')], observe=['bytes of the key in the backing store'])
P('C05', 'Blobs pack, unpack and own memory correctly',
  'A blob packed into a buffer (with or without its type, by value or by reference) occupies exactly the announced size and unpacks to the same bytes and type; equality is on bytes, length and type; and through any sequence of copies, moves and assignments every owned buffer is released exactly once and never used after release.',
  'inputs histories', 'every content, length and type; every sequence of copy, move, assign and dealloc over three blobs',
  'Tests check single copies and moves; aliasing sequences, self assignment and empty blobs without an address are not covered.',
  'src/utils/Blob.cpp include/utils/Blob.hpp include/utils/little_endian.hpp', [('ownership flag and move/copy operators', 'src/utils/Blob.cpp'), ('length-type-bytes packing', 'src/utils/Blob.cpp')], observe=['Blob accessors', 'heap state'])
P('C06', 'Requests survive packing and unpacking',
  'Every request packed into exactly the announced number of bytes unpacks to a request of the same kind, source, destination and items (names, values, types, operations, record counts and the requester\'s addresses), and byte strings that are not a request of a known kind are refused.',
  'inputs', 'every kind of request, number of items, content, length and type',
  'Tests pack one hand-written message per kind; sizes, empty parts, mixed types and announced sizes for all combinations are not tried.',
  'src/message/BPut.cpp src/message/Packer.cpp src/message/Unpacker.cpp include/message/Messages.hpp', [('sizes accumulate in add() and are consumed by the packer', 'src/message')], observe=['Packer::pack / Unpacker::unpack'])
P('C07', 'Responses survive packing, unpacking and stealing',
  'Every response packed into exactly the announced number of bytes unpacks to a response with the same statuses, objects, records, histograms and requester addresses, item by item, also after its items are taken over by another response; nothing leaks or is released twice.',
  'inputs', 'every kind of response, status, number of items and records, content, length and type',
  'Tests pack one hand-written message per kind; failing items between successful ones and transfers between responses are not tried.',
  'src/message/Packer.cpp src/message/Unpacker.cpp src/message', [('per item packing depends on the status', 'src/message/Packer.cpp'), ('steal moves one item', 'src/message')], observe=['Packer::pack / Unpacker::unpack', 'steal'])
P('C08', 'A GET returns the last object that was PUT for the pair',
  'After any history of PUTs (single or batched), syncs, switching to another database and back and reopening, a GET of any subject-predicate pair succeeds exactly if a PUT of that pair (bytes and types) is in the history of that database, returns the object and type of the last one, and names the requester\'s pair; a datastore that is not open answers nothing.',
  'histories inputs', 'every history and content, in each backend',
  'Tests put fixed triples and get the same ones; overwriting, near-miss pairs, types, batches with repeats and reopening in combination are not sampled.',
  'src/datastore/InMemory.cpp src/datastore/LevelDB.cpp src/datastore/RocksDB.cpp src/datastore/datastore.cpp src/datastore/triplestore.cpp',
  [('typed key and typed value in the backing store', 'src/datastore/datastore.cpp'), ('batched writes', 'src/datastore/LevelDB.cpp')], observe=['Datastore::operate'])
P('C09', 'A DELETE removes exactly its pair',
  'After a DELETE of a pair, a GET of that pair fails until it is PUT again, every other pair (bytes and types) keeps its object, and deleting a stored pair reports success.',
  'histories inputs', 'every history and content, in each backend',
  'Tests delete a stored triple and look at it; that all other pairs stay, and batches that delete, repeat and miss, are not tried.',
  'src/datastore/InMemory.cpp src/datastore/LevelDB.cpp src/datastore/RocksDB.cpp src/datastore/datastore.cpp', [('delete by typed key', 'src/datastore/LevelDB.cpp')], observe=['Datastore::operate'])
P('C10', 'GETOP visits records in key order from the right place',
  'With records ordered by the bytes of their keys: EQ returns the first record whose key starts with subject+predicate; NEXT and PREV start at the first record not before it and walk forwards or backwards; FIRST and LAST ignore the pair and start at either end; LOWEST and HIGHEST return, ascending or descending, the records whose key starts with subject+predicate (with an empty numeric predicate: in order of value); each returns as many records as exist up to the number asked for (EQ: one), with their types, and fails exactly if there is none to start at, in every backend.',
  'inputs', 'every set of records, operation, prefix and number of records, in each backend',
  'Tests run each of five operations over one fixed list; LOWEST and HIGHEST, empty stores, missing prefixes, prefixes of other keys and 0xff bytes are not tried.',
  'src/datastore/InMemory.cpp src/datastore/LevelDB.cpp src/datastore/RocksDB.cpp src/datastore/datastore.cpp include/datastore/datastore.tpp', [('seek and walk per operation', 'src/datastore/LevelDB.cpp'), ('seek keys', 'src/datastore/datastore.cpp')], observe=['Datastore::operate(BGetOp)'])
P('C23', 'Numbers stored as any part of a triple come back as they were',
  'An integer of any of the four stored integer types, put as a subject, predicate or object, is found by its value and comes back from GET and GETOP with the same value and type.',
  'inputs', 'every value, in each position, in each backend',
  'Tests store a few small numbers.',
  'src/datastore/transform.cpp include/datastore/transform.tpp src/datastore/datastore.cpp', [('type indexed encoders and decoders', 'src/datastore/transform.cpp')], observe=['Datastore::operate'])
P('C25', 'Failed storage operations are reported, for exactly what failed',
  'When the storage library fails to open, write or read, the operations it hit report an error, stored data is unchanged and later operations work; when a value cannot be encoded or decoded, exactly that item of a batch reports an error and the others take effect.',
  'faults inputs', 'a failure at any point, in any item and part',
  'Tests never make the library or an encoder fail.',
  'src/datastore/LevelDB.cpp src/datastore/RocksDB.cpp src/datastore/InMemory.cpp src/datastore/datastore.cpp include/datastore/datastore.tpp', [('status of a write batch spread over its items', 'src/datastore/LevelDB.cpp'), ('partial decoding', 'include/datastore/datastore.tpp')], observe=['statuses of responses'])

P('C18', 'Histograms count every value in the bucket it falls in',
  'After first_n values the generator is called once with exactly those values, and from then on each bucket\'s count is the number of added values from its left end up to the next (values below the first bucket are not counted) and the upper bound is the largest counted value; before that there are no buckets and the values are cached in order. The predefined generators yield at least one bucket, starting at the smallest value, in order, and count all of the first values. A generator that fails makes adding fail.',
  'inputs', 'every value, bucket layout, first_n and number of values',
  'Tests add 0..9 in order to fixed layouts; negative values, equal values, values on boundaries, failing generators and first_n of 0 with the predefined generators are not tried.',
  'src/utils/Histogram.cpp include/utils/Histogram.hpp', [('cache, then generate, then count', 'src/utils/Histogram.cpp'), ('bucket generators', 'src/utils/Histogram.cpp')], observe=['Histogram::get', 'Histogram::get_cache'])
P('C19', 'Histograms survive packing and unpacking',
  'A histogram packs into exactly the announced number of bytes, a smaller buffer is refused untouched, and unpacking (into any histogram) yields the same name, cache or buckets, counts and upper bound, after which original and copy count on alike; a copy without a generator never makes buckets.',
  'inputs', 'every layout, fill state, name and previous state of the target',
  'Tests pack one layout, full and empty; partially filled histograms and reuse of the target are not tried.',
  'src/utils/Histogram.cpp', [('packed form depends on the fill state', 'src/utils/Histogram.cpp')], observe=['Histogram::pack / unpack / get'])
P('C20', 'A datastore\'s histograms count exactly what was stored under them',
  'A registered histogram counts the object of every successful PUT whose predicate is its name (as bytes) and whose object is FLOAT or DOUBLE, and nothing else; a histogram request returns it, and fails for other names; written histograms come back with the same counts when the database is read again and go on counting, are not there when it is reopened without reading them, and do not disturb walks over the records.',
  'histories inputs', 'every history of PUTs, in each backend',
  'Tests add known doubles to one histogram and read it back in one order; near-miss predicates and types, failed PUTs and partially filled stored histograms are not tried.',
  'src/datastore/datastore.cpp src/datastore/InMemory.cpp src/datastore/LevelDB.cpp src/datastore/RocksDB.cpp', [('PUT updates histograms by predicate', 'src/datastore/datastore.cpp'), ('histograms stored under a fixed subject', 'src/datastore/LevelDB.cpp')], observe=['Datastore::operate(BHistogram)', 'ReadHistograms'])

P('C14', 'Every predefined hash names an existing datastore, for equal bytes the same',
  'Each predefined hash function maps any subject and predicate to the id of one of the datastores of the session, depends on nothing but the bytes (and the rank, for RANK_MOD_DATASTORES), and DATASTORE_0, RANK_MOD_DATASTORES and SUM_MOD_DATASTORES name the datastore their names announce.',
  'inputs', 'every subject, predicate, number of datastores and rank',
  'Tests hash a couple of strings; high bytes, empty parts, long keys and numbers of datastores that are no power of two are not tried.',
  'src/hxhim/hash.cpp include/hxhim/hash.h', [('predefined hash functions', 'src/hxhim/hash.cpp')], observe=['return value of the hash function'])
P('C15', 'Ranks, range servers and datastores are numbered consistently',
  'With any client ratio, server ratio and number of datastores per server, the first server_ratio of every client_ratio ranks (all, if there are not more clients than servers) are range servers; range servers and datastores are numbered in rank order without gaps; ids and ranks lead to each other; and ids or ranks that do not exist and ratios of zero are refused.',
  'inputs', 'every rank, job size, ratio and offset',
  'Tests check a few ratio tables; ragged last groups, several datastores per server and inverse lookups at the edges are not covered.',
  'src/hxhim/RangeServer.cpp src/hxhim/Datastore.cpp src/hxhim/accessors.cpp', [('id arithmetic on ratios', 'src/hxhim/RangeServer.cpp'), ('datastore ids over range server ids', 'src/hxhim/Datastore.cpp')], observe=['RangeServer::get_id / get_rank / is_range_server', 'Datastore::get_id / get_rank'])
P('C16', 'All ranks agree on how many datastores there are and who has them',
  'Opening gives a rank datastores exactly if it is a range server, numbered as every other rank computes, and the total number of datastores it uses for hashing is exactly the number that exist on all ranks together.',
  'inputs', 'every rank, job size, ratio and number of datastores per server',
  'Tests open sessions with one rank.',
  'src/hxhim/init.cpp src/hxhim/RangeServer.cpp src/hxhim/Datastore.cpp', [('datastore setup', 'src/hxhim/init.cpp')], observe=['GetDatastoreCount', 'Datastore ids'])

P('C11', 'Every queued operation takes effect once and yields one truthful result',
  'With any layout of ranks, range servers and datastores and any mix of queued operations, a flush sends each operation to the rank that has the datastore the hash chose (local ones without a message), executes it there once, in the order PUT, GET, GETOP, DELETE, HISTOGRAM, and returns exactly one result per operation (one per record for GETOP) that says what happened at that datastore; nothing is left queued. This holds for every form of every operation: C and C++, single and bulk, with given and with implied types.',
  'histories inputs', 'every mix of operations, every pair and object, every layout of the job',
  'Tests run one rank, with every datastore local; they flush one kind of operation at a time and mostly look at the status.',
  'src/hxhim/hxhim.cpp src/hxhim/ops/impl.cpp include/hxhim/private/process.hpp src/hxhim/ops/double.cpp src/hxhim/ops/float.cpp src/hxhim/ops/single_type.cpp src/transport/backend/local/RangeServer.cpp', [('queues per datastore', 'src/hxhim/hxhim.cpp'), ('local and remote requests', 'include/hxhim/private/process.hpp')], observe=['hxhim::Flush*', 'hxhim_results'])
P('C12', 'A PUT stores exactly the permutations of its triple that were asked for',
  'A PUT with a set of permutations stores the triple under each of the selected orders of subject, predicate and object, with the types moved along, and nothing else; one result is returned for each.',
  'inputs', 'every set of permutations, every triple',
  'Tests use SPO, or all permutations with a few fixed strings.',
  'src/hxhim/ops/impl.cpp', [('permutation bits', 'src/hxhim/ops/impl.cpp')], observe=['GET of each permutation'])
P('C13', 'Packets respect the limits on operations and size',
  'No packet has more operations than the configured maximum, and no packet of several operations is larger, as it travels, than the configured maximum size; still every operation is sent, including one that is larger on its own.',
  'inputs histories', 'every maximum, every number and size of operations of each kind',
  'Tests set an operation limit of 1 for PUTs only and no size limit.',
  'src/hxhim/ops/impl.cpp src/message/Request.cpp', [('starting a new packet', 'src/hxhim/ops/impl.cpp'), ('size kept while adding', 'src/message/Message.cpp')], observe=['requests handed to the transport'])
P('C17', 'A result list shows every item of the responses, once and in order',
  'Responses, in chains or one by one, turn into one result per item (one per record of a GETOP) in order, with the operation, status, datastore, subject, predicate, object or histogram of that item; accessors fail exactly on what a result does not have; lists can be walked, appended and destroyed; requested objects are owned by the list and subjects and predicates of GET, PUT and DELETE are the requester\'s.',
  'inputs histories', 'every response, status and content; every chain',
  'Tests build results with all items succeeding and one response.',
  'src/hxhim/Results.cpp', [('moving items out of a response', 'src/hxhim/Results.cpp')], observe=['hxhim_result_*', 'hxhim_results_*'])
P('C22', 'Bad arguments are refused without side effects',
  'A null or empty subject or predicate given to a single operation, a null or empty object given to a single PUT, a missing array given to a bulk operation, datastores that do not exist and sessions that are not open make every queueing function fail and leave nothing queued; histograms can be requested from exactly the datastores that exist.',
  'inputs', 'every argument, one bad at a time, of every function; every datastore id',
  'Tests try a few null pointers.',
  'src/hxhim/hxhim.cpp src/hxhim/ops/double.cpp src/hxhim/ops/float.cpp src/hxhim/ops/single_type.cpp', [('argument checks', 'src/hxhim/hxhim.cpp')], observe=['return codes', 'results of the next flush'])
P('C29', 'Changing the hash or the database name moves to exactly that data',
  'Changing the hash or the name of the datastores first carries out what is queued and syncs, returning one result for each; afterwards every datastore holds exactly what was stored in it under its new name before (nothing, for in-memory datastores), changing back shows the earlier contents again, operations go where the current hash says, and histograms are saved, found again, made or left out as the change was told (a change of name) or the session is set (a change of hash).',
  'histories inputs', 'every history of PUTs and changes, in each backend',
  'Tests change the hash once and check the return value.',
  'src/hxhim/hxhim.cpp src/datastore/datastore.cpp src/datastore/LevelDB.cpp src/datastore/RocksDB.cpp src/datastore/InMemory.cpp', [('reopening datastores', 'src/hxhim/hxhim.cpp')], observe=['GET results'])

P('C21', 'Background PUTs lose nothing under any interleaving of the threads',
  'With background PUTs enabled, every PUT queued before a flush is stored and has its one successful result when the flush returns, later operations see it, closing the session ends the background thread and releases everything, and none of this deadlocks or lets two threads use the same data at once. Without the thread, PUTs processed while queueing behave the same.',
  'schedules inputs', 'every interleaving of the calling thread and the background thread, every threshold, every form of PUT',
  'Tests run one schedule, the one the machine happens to choose; lost wakeups, runs left over from an earlier flush and a thread that is in the middle of its work when the session closes need particular interleavings.',
  'src/hxhim/init.cpp src/hxhim/private.cpp src/hxhim/ops/FLUSH.cpp src/hxhim/ops/PUT.cpp src/hxhim/ops/BPUT.cpp src/hxhim/ops/single_type.cpp src/hxhim/destroy.cpp', [('background PUT thread', 'src/hxhim/init.cpp'), ('waiting for the background thread', 'src/hxhim/private.cpp')], [('queues.puts', 'PUTs waiting for the thread', 'include/hxhim/private/hxhim.hpp'), ('async_puts', 'results of finished PUTs', 'include/hxhim/private/hxhim.hpp')], observe=['hxhim::FlushPuts', 'hxhim::Close'])

P('C26', 'Over MPI every request reaches its datastore and is answered once',
  'With the MPI transport, every operation is carried out by the rank that has its datastore and its results come back to the rank and thread that sent it, whatever the layout, the order of arrival, the size of the messages and how many ranks, listeners and background threads are active at once; no rank waits forever, a session can be closed while others still work, and no message or memory is left over.',
  'schedules inputs', 'every layout of clients and servers, every interleaving of the ranks, listeners and background threads, eager and rendezvous sending',
  'The tests run one process, in which nothing travels between ranks; deadlocks and mixed up answers need particular interleavings of several ranks.',
  'src/transport/backend/MPI/EndpointGroup.cpp src/transport/backend/MPI/EndpointBase.cpp src/transport/backend/MPI/RangeServer.cpp src/transport/backend/MPI/Init.cpp src/transport/backend/MPI/Instance.cpp include/transport/transport.hpp src/hxhim/init.cpp src/hxhim/destroy.cpp', [('client side of the transport', 'src/transport/backend/MPI/EndpointGroup.cpp'), ('listeners', 'src/transport/backend/MPI/RangeServer.cpp')], [('running', 'whether the listeners of the rank go on', 'include/hxhim/private/hxhim.hpp')], observe=['hxhim::Flush on every rank', 'hxhim::Close'])

P('C24', 'Every setting is what the last place that gives it says',
  'A session initialized from the configuration has, for every key, the value given by the last of: the default, the configuration file, the file named by HXHIM_CONFIG, the environment; keys given anywhere are used even if no others are, giving one setting never changes another, and numbers, switches, names, groups of endpoints and lists are read as written.',
  'inputs histories', 'every key, every value, every combination of places',
  'Tests read small maps with the parsing helpers; none initializes a session from a file or the environment and looks at what the session then uses.',
  'src/hxhim/config.cpp src/hxhim/options.cpp src/utils/Configuration.cpp include/utils/Configuration.hpp', [('process_config_and_fill_options', 'src/hxhim/config.cpp'), ('parsing of values', 'include/utils/Configuration.hpp')], observe=['settings of a session after hxhim_default_config / hxhim::config'])
P('C30', 'Options can be set exactly on sessions that have not started',
  'Every hxhim_set_* function stores its value in a session that is not running, leaves every other setting as it was, and fails without changing anything on a null, closed or running session and for values outside its documented range.',
  'inputs', 'every option, value and state of the session',
  'Tests set a handful of options on a valid session.',
  'src/hxhim/options.cpp include/hxhim/options.h', [('setters', 'src/hxhim/options.cpp')], observe=['hxhim_set_*'])
P('C31', 'User transforms apply to every part of their type and nothing else',
  'A transform registered for a type encodes every subject, predicate and object of that type before it is stored and decodes it when it is returned, with the argument it was registered with, also replacing a predefined transform; parts of other types are unaffected; what is found, missed and returned is the same as without transforms.',
  'inputs histories', 'every type, part and value; each backend; reopening with and without the transform',
  'Tests use one type in one position, with the in-memory datastore.',
  'src/datastore/transform.cpp include/datastore/transform.tpp src/datastore/datastore.cpp src/hxhim/options.cpp src/hxhim/init.cpp', [('encode and decode', 'src/datastore/datastore.cpp'), ('registering', 'src/hxhim/options.cpp')], observe=['GET and GETOP results', 'what is in the database'])
P('C32', 'A session opens completely or not at all',
  'OpenOne opens a session on one existing database, in which PUT, GET, GETOP and flushes work as in any session; a session that cannot be opened (missing database, wrong number of ranks, no communicator) says so with a code that is not success, releases everything it had acquired and leaves no session behind; a session that is open cannot be opened again.',
  'inputs faults', 'every backend, option and reason of failing',
  'Tests open working in-memory sessions only.',
  'src/hxhim/hxhim.cpp src/hxhim/init.cpp src/hxhim/destroy.cpp src/datastore/datastores.cpp', [('hxhim::Open and OpenOne', 'src/hxhim/hxhim.cpp'), ('initialisation', 'src/hxhim/init.cpp')], observe=['hxhim::Open', 'hxhim::OpenOne', 'hxhim::Close'])

P('C33', 'A session tells the truth about itself',
  'The accessors tell, for a session that is open, the communicator, rank and size it was opened with, how many range servers and datastores there are on all ranks together, the ratios, the rank and place of every datastore that exists (and of no other), the hash, its name and its argument that are in use, exactly the names of the histograms that were configured, and for any session the time it started; answers that are not asked for are left out; sessions that are not open give an error and no answer.',
  'inputs', 'every layout, session state, id, name and combination of answers',
  'Tests call the accessors of sessions with one rank and compare them with constants.',
  'src/hxhim/accessors.cpp src/hxhim/Datastore.cpp', [('accessors', 'src/hxhim/accessors.cpp')], observe=['hxhim::Get*', 'hxhim::HaveHistogram', 'hxhimGet*'])
P('C28', 'Creating a directory creates every directory of its path and nothing else',
  'After mkdir_p succeeds, the directory and all directories above it exist, with the requested mode if they were made, and nothing else was made; directories that exist already are no error; any other error of the system is returned as it is, and nothing is made after it.',
  'inputs faults', 'every path, separator and mode, every set of existing directories, every failing call',
  'There are no tests.',
  'src/utils/mkdir_p.cpp', [('mkdir_p', 'src/utils/mkdir_p.cpp')], observe=['calls of mkdir'])
