NA = {}
T['C01'] = ('exploration', 'bounded exhaustive enumeration of executions of the real code',
  'Every combination of element type, byte order, codec, chunk size/shape/position within the stated bounds is executed on the real code through both stores; chunk contents are 7 families, not all contents.')
T['C02'] = ('exploration', 'bounded exhaustive enumeration of executions against reference codecs',
  'Stored bytes are decoded by the codec libraries driven directly, and streams made by them with every setting are read back; trusts those libraries.')
T['C10'] = ('exploration', 'bounded exhaustive enumeration of settings and names',
  'All letter cases of the names, a settings alphabet around every documented limit and the integer limits, and every name of up to 3 edits; contents are a few families.')
T['C04'] = ('exploration', 'bounded exhaustive enumeration of executions against a set-of-points oracle',
  'All shapes, chunk shapes, positions and regions up to small bounds in 0-3 dimensions, and an alphabet of limit values for large shapes.')
T['C05'] = ('exploration', 'bounded exhaustive enumeration of executions against a set-of-points oracle',
  'All pairs of boxes with small corners in 0-3 dimensions, and limit values.')
T['C06'] = ('model_checking', 'explicit-state exploration of operation histories executed on the real code, against a dense-array model',
  'Each transition runs the real code from the restored store state and is compared with the model; bounded alphabet of regions per array, histories to a depth (several state spaces close). Every region of small arrays is also enumerated as a single step.')
T['C07'] = ('exploration', 'bounded exhaustive enumeration of executions over declared fill values',
  'All values of the 8 and 16 bit types (and half floats), an alphabet for the others; each seen through every operation that uses fill values.')
T['C08'] = ('exploration', 'bounded exhaustive enumeration of executions against an independent reader of the documents',
  'Every value of a field alphabet and, in the thorough tier, pairs of fields, are written, read back through both stores and compared field by field with the stored JSON; reference documents are opened. The alphabet samples the infinite value spaces.')
T['C09'] = ('exploration', 'bounded exhaustive enumeration of strings against an independent reader of the notation',
  'All strings up to length 4 (5) over an alphabet of significant characters, two-edit neighbours of every valid string, and boundary numbers.')
T['C16'] = ('exploration', 'bounded exhaustive enumeration of entry points, directory states and openers',
  'Every entry point document of an alphabet of versions, extensions, suffixes and damage in every kind of directory, by every way of opening.')
T['C17'] = ('exploration', 'bounded exhaustive enumeration of damaged documents against an independent reader',
  'Every truncation, every value replacement from an alphabet, every single byte change from an alphabet of bytes; the thorough tier replaces pairs of values.')
T['C11'] = ('model_checking', 'explicit-state exploration of update histories executed on the real code, against a map model',
  'State spaces of bounded update alphabets, explored to closure in memory and to a depth on the file system.')
T['C12'] = ('model_checking', 'explicit-state exploration of creation and removal histories executed on the real code, against a tree model',
  'State spaces of 14 families of three (thorough: four) adversarial paths, to closure; values and attributes come from small alphabets.')
T['C13'] = ('model_checking', 'explicit-state exploration of hierarchies and orders of the store answers, against a tree model',
  'All sets of up to 3 (4) of 20 adversarial nodes, both kinds, six suffixes, and all orders of up to four answers; closure of creation and removal histories.')
T['C14'] = ('exploration', 'bounded exhaustive enumeration of spellings of operation sequences executed on the real code, against the plain spelling',
  'All spellings with 0-3 or 7 slashes on either side of six paths, for every operation, alone and followed by every other.')
T['C03'] = ('exploration', 'bounded exhaustive enumeration of names, separators, suffixes and positions against an independent key builder',
  '40 node names, 13 separators, positions with up to 8 coordinates from 10 values (all tuples up to rank 3); keys requested from a recording store and files on disk for every operation; all keys of all names compared for collisions.')
T['C15'] = ('exploration', 'bounded exhaustive enumeration of paths and keys with every file-system call monitored',
  'All paths of up to 5 (6) components over {a, .., ., empty}, further escapes, separators and suffixes with parent components, pairs of operations; calls outside the base are refused and reported at the libc boundary.')
T['C28'] = ('model_checking', 'explicit-state exploration of operation histories on the real code against a map model',
  'From every reachable state (stored bytes plus model) every chunk write, delete, region write, array removal and re-opening of an alphabet runs on the real code (memory and file system); states are merged by their bytes, depth bounded.')
T['C29'] = ('model_checking', 'explicit-state exploration of store operation histories on the real code against a map model',
  'From every reachable directory tree every set, erase and prefix erase runs on the real store; get, exists, list, list_prefix, list_dir of all keys and prefixes compared with a map; inherited listing functions over all key sets and answer orders.')
T['C18'] = ('exploration', 'bounded exhaustive enumeration of refused operations on the real code with the store compared byte by byte',
  'Every refused creation, chunk write, region write, attribute update and removal of an alphabet, on several states through memory and file-system stores.')
T['C19'] = ('model_checking', 'exhaustive enumeration of single faults and pairs of faults at every call of the real code (fault injection at the libc and store boundary)',
  'Every call each operation makes fails in every way of an alphabet, and in the pairs every later call once more; stored bytes compared with the run without faults or the state before.')
T['C20'] = ('model_checking', 'exhaustive enumeration of single faults and pairs of faults at every call of the real code (fault injection at the libc and store boundary)',
  'Every call of every lookup and read fails in every way of an alphabet, and in pairs; the result must be the result without faults or an error other than absence.')
T['C22'] = ('model_checking', 'exhaustive enumeration of crash points and torn writes of the real code, and of second crashes during repair',
  'Process death at every call and, for writes, after any number of bytes (all sizes up to 48, thorough 4096); machine crashes with reordered write-back are outside the claim.')
T['C32'] = ('exploration', 'bounded exhaustive enumeration of read operations with every file-system call monitored',
  'Every read operation on every state of an alphabet; the calls observed at the libc boundary and the bytes afterwards show that nothing is written.')
T['C24'] = ('model_checking', 'stateless exploration of all thread schedules of the real code (sleep sets), checked for linearizability',
  'Real threads run the library under a scheduler that decides at every file-system call; all programs of up to 2+2 writes, reads and deletes of one chunk under every order of calls up to swaps of independent neighbours, three threads with a preemption bound for longer programs. Threads stand for processes.')
T['C25'] = ('model_checking', 'stateless exploration of all thread schedules of the real code (sleep sets)',
  'Every pair of operations on different items from an alphabet of 28 under every order of calls (quick: at most 4000 schedules per pair), triples that create directories with a preemption bound; results and store compared with running alone.')
T['C26'] = ('model_checking', 'stateless exploration of all thread schedules of the real code (sleep sets), checked for linearizability',
  'All pairs of creations, attribute updates and reads of one node, longer programs and three threads with a preemption bound, on the file system and on a store with atomic values. Two known findings are recorded.')
T['C27'] = ('model_checking', 'stateless exploration of all thread schedules of the real code (sleep sets), with locks modelled',
  'Readers and writers held open against every kind of overwrite and removal; the bytes of the item are looked at throughout the hold and the order of completion is compared; deadlocks are detected by the scheduler.')
T['C21'] = ('model_checking', 'exhaustive enumeration of split and interrupted transfers of the real code (injection at the libc and store boundary)',
  'Every single transfer of every operation cut short or interrupted, every pair for operations of up to 60 (300) calls, and uniform patterns; results and stored bytes compared with whole transfers.')
T['C23'] = ('exploration', 'bounded exhaustive enumeration of damaged streams read by the real code',
  'Every truncation, every value of every byte (every bit of longer streams), stretches zeroed, set and lost, of streams of every codec; contents are a few families.')
T['C30'] = ('exploration', 'bounded exhaustive enumeration of executions of the real code',
  'All pairs of declared type (every type and byte order, plain, as fallback, raw, missing) and element type through every chunk and region call, on both stores; a few codecs.')
T['C31'] = ('model_checking', 'exhaustive enumeration of histories of reads through one buffer, executed on the real code',
  'All sequences of up to 3 (4) of 23 reads over chunks of different sizes, contents, presence and health; each result compared with that of a fresh buffer.')
T['C33'] = ('exploration', 'bounded exhaustive enumeration of executions of two builds of the real code against each other',
  'The pure-Rust build runs as a second process; every element type, block size setting and size around block boundaries is exchanged in both directions, and stored streams are damaged in every way of an alphabet; contents are 7 families.')
T['C34'] = ('model_checking', 'exhaustive enumeration of histories whose steps are executed by four builds of the real code, against the same history in one build',
  'The builds (every codec; none; pure-Rust gzip and LZ4; bzip2 and xz only) run as processes on the same directory; all histories of creation plus 2 (3) operations out of 8 with every assignment of steps to builds, and every ordered pair of builds for codecs x settings x types x sizes; other feature selections are not built.')
