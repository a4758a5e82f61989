"""Which harness entries decide which property, and within which bounds."""
MC = 'model_checking'
def E(harness, entry, **kw):
    d = dict(harness=harness, entry=entry); d.update(kw); return d
CHECKS = {}
def check(pid, entries, bounds, outside='', level=MC, **kw):
    CHECKS[pid] = dict(entries=entries, bounds=bounds, outside=outside, level=level, **kw)
INTS = ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64')

check('C01', [E('t_elen', 'h_rt_' + t, covers=['positive', 'zero'] + (['negative'] if t[0] == 'i' else []), time=300) for t in INTS]
      + [E('t_elen', 'h_c_' + t, covers=['positive', 'zero'] + (['negative'] if t[0] == 'i' else []), time=300) for t in INTS + ('int',)],
      'every value of int8..int64 and uint8..uint64, with the default symbols and with every pair of symbols around the digits, in C++ and C', 'symbols between the digits, or the negative one above the positive one')
check('C02', [E('t_elen', 'h_ord_' + t, params={'PART': p}, covers=['less', 'greater'] + (['equal'] if p % 5 < 4 and p < 10 else []), time=600) for t, p in [('u64', 3), ('i64', 8), ('i64', 3)] + [(t, p) for t, n in (('i64', 11), ('u64', 5)) for p in range(n) if p not in (3, 8)]] +
      [E('t_elen', 'h_ord_' + t, covers=['less', 'equal', 'greater'], time=600) for t in INTS[:6]],
      'every pair of values of each of int8..int64 and uint8..uint64', 'other prefix characters')
check('C04', [E('t_triple', 'h_roundtrip', covers=['copy', 'reference'], params={'N': 5}, tparams={'N': 12}), E('t_triple', 'h_injective', covers=['same', 'different'], params={'N': 3}, tparams={'N': 5})],
      'subjects and predicates of 0..5 (round trip; 12 thorough) and 0..3 (injectivity; 5 thorough) arbitrary bytes, every data type', 'longer subjects and predicates')
check('C05', [E('t_blob', 'h_pack', covers=['copied', 'referenced'], tparams={'N': 16}), E('t_blob', 'h_pack_ref', covers=['end']), E('t_blob', 'h_equal', covers=['equal', 'different']), E('t_blob', 'h_endian', covers=['end']),
              E('t_blob', 'h_ownership', covers=['sequence'], params={'K': 3}, tparams={'K': 4}, time=400)],
      'blobs of 0..6 (16 thorough) arbitrary bytes of every type; every sequence of 3 (4 thorough) operations over an owner, a reference and an empty blob', 'longer blobs and sequences')
check('C06', [E('t_msg', 'h_request', covers=['PUT', 'GET', 'GETOP', 'DELETE', 'HISTOGRAM'], tparams={'L': 3, 'COUNT': 3}), E('t_msg', 'h_refuse', covers=['end'])],
      'requests of 1..2 (3 thorough) items of each of the five kinds; names and values of 0..2 (3) arbitrary bytes; every data type, operation and record count', 'longer messages')
check('C07', [E('t_msg', 'h_response', covers=['PUT', 'GET', 'GETOP', 'DELETE', 'HISTOGRAM'], time=300), E('t_msg', 'h_refuse', covers=['end'])],
      'responses of 1..2 items of each of the five kinds; names and values of 0..2 arbitrary bytes; 0..2 records per GETOP; histograms with 0..3 values', 'longer messages')
BACK = {'BACKEND': 0}, {'BACKEND': 1}, {'BACKEND': 2}
def per_backend(h, e, covers, params={}, tparams={}, mem_t={}, **kw):
    return [E(h, e, covers=covers, params=dict(params, BACKEND=b), tparams=dict(mem_t if b == 0 else tparams, BACKEND=b), **kw) for b in range(3)]
check('C08', per_backend('t_ds', 'h_history', ['end', 'found', 'missing'], {'K': 2, 'DEL': 0}, {'K': 3, 'DEL': 0}, {'K': 2, 'DEL': 0}, time=600) + per_backend('t_ds', 'h_batch', ['end', 'found', 'missing'], {'N': 2}, {'N': 3}, {'N': 3}),
      'every history of up to 2 (3 thorough, LevelDB and RocksDB) steps out of: PUT of one or two triples, reopening, visiting another database; then a GET of any pair; subjects and predicates of one arbitrary byte, objects of 0..1 bytes; batches of 2 (3) PUTs',
      'longer histories; the LevelDB and RocksDB libraries themselves (replaced by a sorted map model); concurrency')
check('C09', per_backend('t_ds', 'h_history', ['end', 'found', 'missing'], {'K': 2, 'DEL': 1}, {'K': 3, 'DEL': 1}, {'K': 2, 'DEL': 1}, time=600) + per_backend('t_ds', 'h_batch', ['end', 'found', 'missing'], {'N': 3}, {'N': 3}, {'N': 3}),
      'every history of up to 2 (3 thorough, LevelDB and RocksDB) steps out of: PUT of one or two triples, DELETE; then a GET of any pair; subjects and predicates of one arbitrary byte; batches of 3 PUTs and 2 DELETEs',
      'longer histories; the LevelDB and RocksDB libraries themselves (replaced by a sorted map model)')
check('C10', per_backend('t_getop', 'h_getop', ['records', 'nothing'], {'N': 2}, {'N': 3}, {'N': 3}, time=600) + per_backend('t_ds', 'h_numeric_order', ['end'], {'B': 120}, {'B': 2147483647}, {'B': 2147483647}, time=300),
      '0..2 (3 thorough) stored records with arbitrary one byte subjects and 0..1 byte predicates, every operation, prefixes of 0..1 + 0..1 arbitrary bytes, every number of records up to one more than exist; two numeric predicates of -120..120 (every int32 thorough)',
      'more records; the LevelDB and RocksDB libraries themselves (replaced by a sorted map model)')
check('C23', [E('t_ds', 'h_typed_' + t, covers=['end']) for t in ('i32', 'u32', 'i64', 'u64')],
      'every value of the four integer types as subject, predicate or object, in each backend', 'FLOAT and DOUBLE (formatted by the C++ stream library), user defined encodings')
check('C25', [E('t_fault', 'h_io', covers=['write', 'delete', 'read', 'change']), E('t_fault', 'h_encoding', covers=['encode', 'decode'])],
      'one library failure at any open, write or read of a short history (LevelDB and RocksDB); one item of a batch of two whose type has no encoding or whose encoding or decoding fails, in any part and position, in each backend; arbitrary one byte values',
      'the LevelDB and RocksDB libraries themselves (replaced by a model that can fail)')

FMT = {'FORMAT': 1}     # the text of printed histograms is not looked at
check('C18', [E('t_hist', 'h_count', covers=['counted', 'cached'], params=dict(FMT, K=2), tparams=dict(FMT, K=3), time=600), E('t_hist', 'h_failing', covers=['error', 'no values'], params=FMT),
              E('t_hist', 'h_gen_n', covers=['end'], params=dict(FMT, N=2), tparams=dict(FMT, N=3)), E('t_hist', 'h_gen_sqrt', covers=['end'], params=dict(FMT, N=4, SPREAD=2, B=3), tparams=dict(FMT, N=4)),
              E('t_hist', 'h_gen_sturges', covers=['end'], params=dict(FMT, N=2, SPREAD=3, B=3), tparams=dict(FMT, N=3)), E('t_hist', 'h_gen_rice', covers=['end'], params=dict(FMT, N=2, SPREAD=3, B=3), tparams=dict(FMT, N=3)),
              E('t_hist', 'h_gen_scott', covers=['end'], params=dict(FMT, N=3)), E('t_hist', 'h_gen_logn', covers=['end'], params=dict(FMT, N=3))],
      'histograms of 1..2 buckets with arbitrary increasing finite bounds, first_n of 0..3, up to 2 (3 thorough) arbitrary finite values; predefined generators over 1..2 (3..4) integer values of -100..100 (n_buckets), of a symbolic position and a spread of 0..2 (square root, Sturges, Rice), of positions -2..2 and spreads 0..3 (Scott, uniform_logn)',
      'more values and buckets; infinities and NaN; generators over fractional values')
check('C19', [E('t_hist', 'h_pack', covers=['full', 'partial'], params=FMT), E('t_hist', 'h_unset', covers=['end'], params=FMT)],
      'histograms of 1..2 buckets, first_n 0..3, 0..2 arbitrary finite values, names of 0..2 arbitrary bytes, unpacked into a fresh, an empty and a filled histogram', 'larger histograms; truncated packed data (peers are trusted)')
check('C20', per_backend('t_hist', 'h_ds', ['end', 'stored'], dict(FMT, K=2), dict(FMT, K=3), dict(FMT, K=3), time=600),
      '2 (3 thorough) PUTs under arbitrary one byte predicates of integer valued FLOAT, DOUBLE and other objects and unencodable objects, first_n 0..2; then reading back, closing and reopening with and without writing histograms; each backend', 'FLOAT and DOUBLE objects stored through the default (formatting) encoders; more PUTs')

check('C14', [E('t_route', 'h_hash', covers=['end'], tparams={'L': 9})],
      'each of the nine hash functions on subjects and predicates of 0..4 (8 thorough) and 11.. arbitrary bytes, 1..32768 datastores, 65536 ranks', 'user supplied hash functions; longer subjects and predicates')
check('C15', [E('t_route', 'h_ids', covers=['server', 'client'], params={'R': 4}, tparams={'R': 5, 'MASK': 0xffff}, time=300), E('t_route', 'h_location', covers=['exists', 'missing'], params={'R': 3})],
      'client and server ratios of 1..4 (5 thorough), 1..3 datastores per server, job sizes of up to 256 (65536), every rank and id up to twice that', 'larger ratios')
check('C16', [E('t_route', 'h_open', covers=['server', 'client'], params={'R': 3}, tparams={'R': 5}, time=300)],
      'client and server ratios of 1..3 (5 thorough), 1..3 datastores per server, job sizes of up to 256, every rank', 'larger ratios; opening single datastores by name')

def lay(ranks=2, per=1, client=1, server=1, me=0, **kw):
    return dict(RANKS=ranks, PER=per, CLIENT=client, SERVER=server, ME=me, **kw)
REMOTE, LAYOUTS = ['end', 'succeeded', 'failed', 'packet of one'], [lay(), lay(per=2, me=1), lay(per=2), lay(3, 1, 3, 2, 2)]
check('C11', [E('t_client', 'h_flush', covers=REMOTE + ['packet of several'], params=dict(l, K=1), tparams=dict(l, K=2), time=850) for l in LAYOUTS] +
             [E('t_client', 'h_flush', covers=['end', 'succeeded', 'failed'], params=lay(1, 2, K=1), tparams=lay(1, 2, K=2), time=850),
              E('t_client', 'h_flush', covers=REMOTE + ['packet of several'], params=lay(K=3, BULK=0, OPS=2), time=850),
              E('t_client', 'h_flush', covers=['end', 'succeeded', 'failed'], params=lay(1, K=3, BULK=0, OPS=1), tparams=lay(1, K=4, BULK=0, OPS=2), time=850),
              E('t_client', 'h_flush', covers=REMOTE, params=lay(K=1, BULK=0, OPS=2, FLUSHES=3), tparams=lay(K=1, OPS=1, FLUSHES=2), time=850),
              E('t_client', 'h_api', covers=['PUT', 'GET', 'GETOP', 'DELETE', 'HISTOGRAM']), E('t_client', 'h_partial', covers=['end'])],
      'flushes of one call (two thorough) of any kind, single or bulk (of two), in five layouts: 2 ranks with 1 or 2 datastores each, 3 ranks of which 2 are servers, 1 rank with 2 datastores; flushes of three single operations; three flushes of one operation; one or two operations per packet; subjects, predicates and objects of one arbitrary byte; every C and C++ form of every operation once; in-memory datastores',
      'more operations and ranks; the MPI and Thallium transports (requests travel through packing and unpacking into the range server of the other rank); background PUTs')
check('C12', [E('t_client', 'h_permute', covers=['some', 'none'])],
      'every value of the permutation mask, alone or in bulk with another triple, for parts of three different types and lengths, 1 or 4 operations per packet', 'other triples')
check('C13', [E('t_client', 'h_limits', covers=['end', 'packet of one', 'packet of several'], params=dict(KIND=k, K=3), tparams=dict(KIND=k, K=4), time=600) for k in range(5)],
      '3 (4 thorough) operations of one kind with subjects and predicates of two lengths each, 1..3 operations per packet and every size limit of 1..65535 bytes', 'more operations; mixed kinds (each kind has its own queue)')
check('C17', [E('t_results', 'h_results', covers=['end', 'more'], params=dict(FMT, L=1), tparams=dict(FMT, L=2), time=400)],
      'chains of up to two responses of one kind with up to two items, every status, 0..2 records per GETOP, parts of one (two thorough) arbitrary bytes, followed by a second list', 'longer chains')
check('C22', [E('t_client', 'h_reject', covers=['bad argument', 'no session']), E('t_client', 'h_hist_id', covers=['exists', 'missing'], params={'PER': 2}), E('t_client', 'h_hist_id', covers=['exists', 'missing'], params=lay(3, 1, 3, 2, 2))],
      'each argument of each single, bulk and single type function in turn; no, closed and idle sessions; every histogram id in two layouts', 'several bad arguments at once; pointers that are not null but invalid')
check('C29', per_backend('t_client', 'h_change', ['end', 'found', 'missing'], dict(FMT, K=2), dict(FMT, K=3), dict(FMT, K=3), time=850)
      + [E('t_client', 'h_change_hist', covers=['end', 'made', 'none'] + (['kept', 'buckets'] if b else []), params={'BACKEND': b, 'K': 2}, tparams={'BACKEND': b, 'K': 3}) for b in range(3)],
      'every history of 2 (3 thorough) steps of at most one PUT and a change of hash, of name or a sync, on one rank with two datastores; arbitrary one byte parts; histograms written or not; every history of 2 (3 thorough) PUTs each followed by a change of name, with its three histogram options, or of hash, through the C and the C++ functions, in sessions that read and write histograms by themselves or not', 'longer histories; several ranks; not writing histograms at a change in a session that writes them; the LevelDB and RocksDB libraries themselves (replaced by a sorted map model)')

def a_(covers, preempt, tpreempt=None, tparams={}, quiet=False, **p):
    return E('t_async', 'h_async', covers=covers, params=p, tparams=dict(p, **tparams), preempt=preempt, tpreempt=tpreempt or preempt + 1, quiet=quiet, time=850)
check('C21', [a_(['flushed'], 3, END=0, AT=1, FORMS=1), a_(['flushed'], 3, END=0, AT=1, FORMS=1, GET=1), a_(['flushed'], 2, END=0, AT=1, FORMS=1, PER=2), a_(['flushed'], 2, END=0, AT=2, FORMS=3), a_(['closed'], 2, END=2, AT=2, FORMS=3),
              a_(['closed'], 3, END=2, AT=1, FORMS=1), a_(['flushed'], 2, END=1, AT=1, FORMS=1, K=2, OPS=2, GET=1), a_(['flushed'], 2, END=0, AT=9, FORMS=1, K=2), a_(['closed', 'flushed'], 0, 0, AT=0, PER=2, K=2)] +
             [a_(['flushed'], 3, quiet=True, END=0, AT=1, FORMS=1, K=2, OPS=1), a_(['flushed'], 2, 3, quiet=True, END=0, AT=2, FORMS=1, K=3, OPS=1), a_(['flushed'], 2, quiet=True, END=1, AT=1, FORMS=1, K=3, OPS=1, GET=1), a_(['closed'], 3, quiet=True, END=2, AT=1, FORMS=1, K=2, OPS=1)],
      'one calling thread and the background thread, with up to 2 or 3 (one more thorough) preemptions at any lock, wait, notification or atomic access and any number of switches when a thread blocks; thresholds of 1, 2 and 9 PUTs; one PUT of any form or two or three single ones (for these, reading an atomic variable is not a point of preemption), then a GET, a flush of one kind or of everything, or closing; data races between these points are detected, so finer interleavings add nothing',
      'more preemptions; several calling threads (the client interface does not lock its queues against each other); spurious wakeups; remote ranks')

def m_(entry, l, delays, tdelays=None, covers=['end'], quiet=False, time=400, **p):
    return E('t_mpi', entry, covers=covers, params=dict(l, MPI=p.pop('MPI', 1), **p), delays=delays, tdelays=delays if tdelays is None else tdelays, quiet=quiet, time=time)
check('C26', [m_('h_remote', l, 0, 1) for l in (lay(), lay(per=2, me=1), lay(3, 1, 2, 3), lay(3, 2, 3, 2, 1), lay(3, 1, 1, 1, 2))] +
             [m_('h_all', lay(), 1, 1, BUSY=3), m_('h_all', lay(), 1, 1, BUSY=1), m_('h_all', lay(), 1, 2, BUSY=3, EAGER=0, quiet=True, time=850), m_('h_all', lay(3, 1, 2, 3), 1), m_('h_all', lay(3), 1, BUSY=7, EAGER=0, quiet=True, time=850),
              m_('h_background', lay(), 1, covers=['flushed', 'closed'], time=850), m_('h_background', lay(), 1, covers=['flushed', 'closed'], MPI=2, quiet=True, time=850)] +
             [E('t_client', 'h_flush', covers=['end', 'succeeded', 'failed'], params=dict(lay(3, 2, 3, 2, 1), K=1, MPI=1), delays=0, tdelays=0, time=850)],
      'jobs of 2 and 3 ranks in six layouts with 1 or 2 listeners each, every rank with an endpoint to every other; one rank working on any subset of the datastores (PUT, GET, then GETOP, DELETE or HISTOGRAM), and all ranks storing in and reading from every datastore at once and closing when done; PUTs in the background during reads and closing; small messages sent eagerly or every one by rendezvous; arbitrary bytes; schedules that differ from round robin by one delayed step at a lock, an atomic access or an MPI call (two thorough); data races between these are detected',
      'failures of the MPI library; more delays; several calling threads in one rank; the MPI library itself (replaced by a model of matching, ordering and completion)')

check('C24', [E('t_config', 'h_source', covers=['default', 'file', 'named file', 'environment'], tparams={'D': 4}, time=400), E('t_config', 'h_pair', covers=['environment', 'file']), E('t_config', 'h_transport', covers=['end']), E('t_config', 'h_elen', covers=['in order', 'out of order'])],
      'each of 22 keys given in the file, the named file and the environment in every combination, with numbers of 1..2 (4 thorough) arbitrary digits, words of 1..2 arbitrary printable characters and every predefined name; every pair of keys with one short value each; every transport with its settings; every symbol and precision of one or two digits of encoded numbers, given or not, in and out of order',
      'values with spaces (cut at the first one by design), malformed values (documented as ignored), settings without a default, which are not read from the environment; Thallium')
check('C30', [E('t_config', 'h_set', covers=['set', 'bad', 'running', 'null', 'closed'])], 'every setter with arbitrary values, on null, closed, running and fresh sessions', 'thallium; sequences of setters on one session')
check('C31', [E('t_session', 'h_transform', covers=['end'] + (['stored form'] if b else []), params={'BACKEND': b, 'TWICE': t}) for b in range(3) for t in range(2)],
      'a keyed transform for each of eight types, for every subset of the three parts, each of one arbitrary byte, registered once or twice; GET and GETOP, a second session without the transform', 'longer parts; transforms of several types at once')
check('C32', [E('t_session', 'h_open_one', covers=['end'] + (['found'] if b else []), params={'BACKEND': b}, preempt=0) for b in range(3)] + [E('t_session', 'h_open_fail', covers=['end'], preempt=0)],
      'one rank; a database with one arbitrary triple of one byte parts, opened once or twice in each backend with and without background PUTs, 1..2 datastores per server; three reasons of failing, for Open and OpenOne', 'preemptions of the background thread (C21); failures of the MPI library')

check('C33', [E('t_session', 'h_accessors', covers=['histogram', 'no histogram', 'open', 'not open'], params=l, preempt=0, time=600) for l in (lay(), lay(per=2, me=1), lay(3, 1, 3, 2, 2))],
      'the C and C++ form of each of eight accessors with every combination of answers asked for, on null, empty, idle and open sessions in three layouts of 2 and 3 ranks; every datastore id; names of 0..2 arbitrary bytes with none, one or two histograms configured; every start within 4 seconds of two points in time; before and after changing the hash', 'larger layouts; the print buffer and statistics, which are not exposed')
check('C28', [E('t_mkdir', 'h_mkdir', covers=['made', 'failed'], params={'L': 5}, tparams={'L': 7})],
      'every path of 1..5 (7 thorough) characters, each a separator, a dot or any other arbitrary byte, with the default and another separator, every number of leading directories that exist already and every call that may fail', 'components ".."; directories made by others at the same time; a file in the place of a directory')
