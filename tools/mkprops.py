"""Writes /verif/properties.jsonl (kept as code so that it can be validated)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': dict({'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}, **kw)})
T = 'The existing tests run one generator (Threefish) with one seed and reseeding on, one test at a time, on an undisturbed machine, and compare the printed row.'
p('C01', 'A seeded run is exactly reproducible',
  'With a fixed non-zero seed every result row (test, n-tuple, sample counts, p-value, assessment, seed) and every dumped random number is a function of the generator, the seed and the test options alone, for every seedable generator and every test. '
  'Time of day and clock jumps, contents or failures of the entropy device, previous contents of memory, memory addresses, process id, environment variables and the chosen display options (which columns, separator, header, rate measurement, histograms, debugging output) never change it.',
  ['inputs', 'schedules', 'configurations', 'fault_sequences'],
  'every seedable generator, seed, test and option set x every clock, entropy, memory-content and address environment x every display option set',
  T + ' They cannot vary uninitialised memory, clock or entropy, and cover one generator of about 90.',
  ['dieharder/run_test.c', 'dieharder/choose_rng.c', 'dieharder/output.c', 'libdieharder/rng_*.c', 'libdieharder/rgb_timing.c', 'libdieharder/bits.c'],
  [('select_rng', 'dieharder/choose_rng.c'), ('execute_test reseeding', 'dieharder/run_test.c'), ('generator set functions', 'libdieharder/rng_*.c'), ('rate measurement reseeds before the tests', 'libdieharder/rgb_timing.c')])
p('C02', 'The seed that is reported replays the run that reported it',
  'When no seed is given, the seed shown for the run (or, with per-test reseeding, the seed shown in each row, or the seed in the header of dumped numbers) is the one that was used: giving it back explicitly with the same options reproduces the same rows or the same dumped numbers. '
  'This holds whatever the entropy device delivered or failed to deliver. (Seed 0, which means "choose a seed", is excepted.)',
  ['inputs', 'configurations', 'fault_sequences'], 'every seed the entropy device or its fallback can deliver, every seedable generator, test and display option set that shows a seed',
  'Every existing test passes an explicit seed; none runs unseeded.',
  ['dieharder/choose_rng.c', 'dieharder/run_test.c', 'dieharder/output.c', 'dieharder/output_rnds.c', 'libdieharder/random_seed.c'],
  [('seed / Seed globals', 'dieharder/choose_rng.c, dieharder/run_test.c'), ('seed columns', 'dieharder/output.c'), ('dump header', 'dieharder/output_rnds.c')])
p('C03', 'Unseeded runs take fresh seeds from the entropy device, else from the clock',
  'When no seed is given, each seeding event (start of the run; start of each test with per-test reseeding; start of a dump) takes a full 32-bit seed from bytes of the system entropy device not used before. '
  'When the device cannot be opened, fails or delivers too few bytes, the seed is derived from the time of day at microsecond resolution; it never comes from leftover memory and the run proceeds normally.',
  ['fault_sequences', 'schedules', 'inputs'], 'every entropy byte sequence, every open/read failure or short delivery at any seeding event, every clock reading',
  'Every existing test passes an explicit seed, and nothing makes the entropy device fail.',
  ['libdieharder/random_seed.c', 'dieharder/choose_rng.c', 'dieharder/run_test.c', 'dieharder/output_rnds.c'],
  [('random_seed', 'libdieharder/random_seed.c'), ('callers', 'dieharder/choose_rng.c, dieharder/run_test.c, dieharder/output_rnds.c, libdieharder/rgb_timing.c')])
p('C04', 'Tests judge exactly the numbers the input stream delivers',
  'Results computed from standard input, a raw binary file, a named pipe or a text file of numbers (decimal, octal, hexadecimal, binary or floating point notation, comment lines and header fields in any order) depend only on the sequence of 32-bit numbers it holds, each used once and in order, starting with the first (on a pipe, the first after those a requested speed measurement draws). '
  'How the bytes arrive (any chunk sizes and delays, slow producers, trailing partial word) makes no difference, and all these ways of supplying the same numbers give the same rows.',
  ['inputs', 'schedules'], 'every word sequence, every division of its bytes into reads with any delays, every supported notation, every test',
  'No existing test reads any input file or standard input.',
  ['libdieharder/rng_stdin_input_raw.c', 'libdieharder/rng_file_input_raw.c', 'libdieharder/rng_file_input.c', 'libdieharder/parse.c', 'libdieharder/bits.c'],
  [('stdin generator', 'libdieharder/rng_stdin_input_raw.c'), ('raw file generator', 'libdieharder/rng_file_input_raw.c'), ('text file generator', 'libdieharder/rng_file_input.c'), ('binary digits', 'libdieharder/bits.c:bit2uint')])
p('C05', 'Input that fails, ends or is malformed never yields fabricated results',
  'If the input stream ends early, cannot be opened, returns a read error, shrinks, is a directory or too small, or holds a line without a number of the declared type, a cut off line or a malformed header, the run stops with a message on the error stream, and the result rows printed until then are exactly the first rows of the run that would have had complete input. '
  'It never invents, repeats or reuses words to go on, never prints a row that involves data it did not get, never crashes and never hangs. If memory runs out the run may end in any way, but prints no row that differs from the undisturbed run.',
  ['fault_sequences', 'inputs', 'crash_points'], 'every position of an end of data, error, truncation, malformed line or failed allocation in every kind of input, for every test and multi-test run',
  'No existing test reads any input, and none injects a failure.',
  ['libdieharder/rng_stdin_input_raw.c', 'libdieharder/rng_file_input_raw.c', 'libdieharder/rng_file_input.c', 'libdieharder/rng_dev_random.c', 'libdieharder/rng_dev_urandom.c', 'libdieharder/parse.c'],
  [('checks after fread/fgets/sscanf/stat/fopen', 'libdieharder/rng_file_input*.c, rng_stdin_input_raw.c'), ('device reads', 'libdieharder/rng_dev_*.c')])
p('C06', 'A file that is too short is reused cyclically, and the accounting says so',
  'When a test needs more numbers than an input file holds, the file is used again from its first number, so that the rows equal those of an endless periodic stream with the same period. '
  'The reported count of numbers (and bytes) used and of rewinds is exact, counts a rewind only once a number has been read again, accumulates over the tests of a run, and starts over at the first number with zero counts when each test reseeds.',
  ['inputs', 'histories', 'configurations'], 'every file length (including exact multiples of what is used), notation, test sequence and reseeding mode, with any chunking of the reads',
  'No existing test reads any file.',
  ['libdieharder/rng_file_input_raw.c', 'libdieharder/rng_file_input.c', 'dieharder/output.c'],
  [('rptr/rtot/rewind_cnt', 'libdieharder/rng_file_input*.c'), ('file_rng_stat and rewind message', 'dieharder/output.c')])
p('C07', 'With per-test seeding a test result does not depend on what ran before it',
  'With a fixed seed and per-test reseeding, the rows of a test inside a sequence of tests (any order, repetitions, different n-tuples and sample counts, the run-everything mode, or after the generator or input file has been switched) are the rows of the same test run alone. '
  'The run-everything mode reports every available test, for every n-tuple of its documented range, exactly once and in order.',
  ['histories', 'programs', 'configurations'], 'every history of tests, options and generator selections before a test',
  'Each existing test is a process of its own that runs a single test.',
  ['dieharder/run_test.c', 'dieharder/run_all_tests.c', 'dieharder/choose_rng.c', 'libdieharder/bits.c', 'libdieharder/std_test.c', 'libdieharder/*.c static state'],
  [('reseeding and reset of bit buffers', 'dieharder/run_test.c, libdieharder/bits.c'), ('static state in tests', 'libdieharder/diehard_*.c, rgb_*.c, sts_*.c, dab_*.c'), ('n-tuple loops', 'dieharder/run_all_tests.c')])
p('C08', 'Dumped random numbers are the generator\'s output and read back as such',
  'A dump of n numbers contains exactly the next n outputs of the freshly seeded generator in order, in raw, decimal and floating point format, to a file or to standard output, however the writes are divided up; its header states generator, seed, format and count truthfully. '
  'Testing a dump of a 32-bit generator gives the rows of testing the generator directly with that seed (up to rounding where numbers are printed, or used by the test, as reals).',
  ['inputs', 'configurations', 'schedules'], 'every generator, seed, count and format; every division of the output into writes; every test applied to the dump',
  'No existing test dumps numbers.',
  ['dieharder/output_rnds.c', 'libdieharder/rng_file_input.c', 'libdieharder/rng_file_input_raw.c', 'dieharder/choose_rng.c'],
  [('output_rnds', 'dieharder/output_rnds.c'), ('readers', 'libdieharder/rng_file_input*.c')])
p('C09', 'Output that could not be written is never reported as success',
  'If any write, flush or close of dumped numbers or of the result table fails (full disk, quota, I/O error, closed pipe, at any byte), the program ends with a non-zero status or by the broken-pipe signal, and an endless dump stops promptly. '
  'What did reach the file or pipe is a prefix of the complete output (a table may go on after a single failed write), and exit status 0 after a dump or test run without input errors means that all of it was written.',
  ['fault_sequences', 'crash_points'], 'every position and kind of write/flush/close failure, short write or full disk; file or standard output; all dump formats; all tests',
  'No existing test makes output fail.',
  ['dieharder/output_rnds.c', 'dieharder/dieharder.c', 'dieharder/output.c'],
  [('checks of fwrite/ferror/fclose', 'dieharder/output_rnds.c'), ('check of stdout before exit', 'dieharder/dieharder.c')])
p('C10', 'The adaptive modes stop exactly when their rule says so',
  'In resolve-ambiguity and test-to-destruction mode a test starts with its requested number of p-samples (at most the cut-off) and adds 100 at a time up to the cut-off; it stops after the first stage at which a p-value of the test is below the failure threshold from either end, or the cut-off is reached, or (resolve-ambiguity only) no p-value is below the weak threshold from either end, and at no other stage. '
  'Each stage\'s rows are those of a single non-adaptive run with that many p-samples, every run ends, and without an adaptive mode exactly one stage is run.',
  ['inputs', 'configurations', 'histories'], 'every input stream or generator, thresholds, cut-off, initial sample count and test, including p-values that are exactly 0 or 1',
  'No existing test uses an adaptive mode.',
  ['dieharder/run_test.c', 'libdieharder/std_test.c'], [('stage loop', 'dieharder/run_test.c:execute_test'), ('add_2_test/std_test', 'libdieharder/std_test.c')])
p('C11', 'The reported speed is numbers drawn per second of elapsed clock time',
  'The generator speed shown in the header is the number of values drawn in the timing loop divided by the clock time that passed while drawing them, for any speed, sample counts and clock reading, also across second boundaries. '
  'Clock jumps between timed intervals do not change it, and no clock behaviour (frozen, backwards, jumping) changes results, ends the run or makes it hang.',
  ['schedules', 'fault_sequences', 'configurations'], 'every clock start, draw cost, sample count and clock jump',
  'Existing tests suppress or ignore the rate column and run on the real clock.',
  ['libdieharder/rgb_timing.c', 'libdieharder/timing.c', 'dieharder/time_rng.c', 'dieharder/output.c'], [('delta_timing', 'libdieharder/timing.c'), ('rgb_timing', 'libdieharder/rgb_timing.c')])
p('C12', 'Only the files named on the command line are touched, and inputs only read',
  'A run opens nothing but the file named by the user and the system\'s random devices; an input file is never written, created, truncated, renamed or removed, and a dump writes to the one named file (or standard output) and nowhere else. '
  'The name is used exactly as given, whatever its length and characters; a name that cannot be used is refused with a message rather than shortened or changed. Asking for a dump while the named file is the input does not destroy that file.',
  ['inputs', 'configurations', 'fault_sequences'], 'every file name, mode (raw, text, dump formats, listing, help), test and input failure',
  'Existing tests use no files.',
  ['dieharder/parsecl.c', 'dieharder/output_rnds.c', 'dieharder/choose_rng.c', 'libdieharder/rng_file_input.c', 'libdieharder/rng_file_input_raw.c'],
  [('-f handling', 'dieharder/parsecl.c'), ('opens', 'libdieharder/rng_file_input*.c, dieharder/output_rnds.c')])
p('C13', 'Long runs do not accumulate descriptors or memory',
  'The number of open files and the amount of allocated memory after the n-th test, reseeding, rewind or generator selection of a process do not grow with n, for every test, every generator and input kind, and every display option. '
  'A run works under any limit on open files that allows its one input file and one random device to be open beside the standard streams.',
  ['histories', 'configurations', 'fault_sequences'], 'every sequence of tests, reseedings and generator selections; every descriptor limit from the minimum',
  'Each existing test is a short process that runs a single test once.',
  ['libdieharder/*.c', 'dieharder/output.c', 'libdieharder/rng_file_input.c', 'libdieharder/rng_dev_random.c', 'libdieharder/std_test.c'],
  [('malloc/free pairs in tests', 'libdieharder/*.c'), ('fopen/fclose pairs', 'libdieharder/rng_*.c, random_seed.c'), ('create_test/destroy_test', 'libdieharder/std_test.c')])
p('C14', 'Every finite input gives memory-safe, terminating, well-formed results',
  'Whatever words a finite input (a pipe that ends) holds (constant, alternating, periodic, sparse, dense or arbitrary), every test run on it ends, with rows or with a message that the input ran out, and accesses no memory out of bounds. If it prints rows there is one for each of its statistics, whose p-value is a number between 0 and 1 and whose assessment is FAILED, WEAK or PASSED according to the p-value and the two thresholds from both ends. '
  'The rows per test and the sample counts shown are those requested (diehard_parking_lot always uses 12000), provided at least as many samples are asked for as the test needs to form its statistic.',
  ['inputs', 'configurations'], 'every finite word sequence, test, workable sample count and thresholds',
  'Existing tests feed one good generator with one seed and default thresholds.',
  ['libdieharder/diehard_*.c', 'libdieharder/rgb_*.c', 'libdieharder/sts_*.c', 'libdieharder/dab_*.c', 'libdieharder/kstest.c', 'libdieharder/chisq.c', 'libdieharder/Vtest.c', 'dieharder/output.c'],
  [('test bodies', 'libdieharder/*.c'), ('assessment', 'dieharder/output.c:output_table_line')])
p('C15', 'Splitting generator words into bit fields loses, repeats and reorders no bits',
  'A sequence of requests for random words and bit fields of any widths (1 to 32 bits, and longer strings of up to 128) returns consecutive pieces of the generator\'s output bits, each significant bit used at most once and none skipped between requests, for generators of any number of significant bits. '
  'After a reset or reseed nothing left over from before is used.',
  ['histories', 'inputs', 'configurations'], 'every interleaving of requests of any widths, resets and reseeds, for every generator width',
  'Existing tests reach it through one 32-bit generator and fixed request patterns.',
  ['libdieharder/bits.c', 'libdieharder/static_get_bits.c', 'include/dieharder/libdieharder.h'],
  [('get_rand_bits / get_uint_rand / reset_bit_buffers', 'libdieharder/bits.c'), ('static get_rand_bits_uint', 'libdieharder/static_get_bits.c')])
p('C16', 'Finished results survive a kill at any instant',
  'If the process is killed at any instant, what it had written to its output is a prefix of the output of the undisturbed run and already contains every row of each test (and each adaptive stage) that had finished before. '
  'A killed dump likewise leaves a prefix of the complete dump.',
  ['crash_points', 'histories'], 'every kill point (by numbers drawn or system calls made) in every multi-test run, adaptive run or dump',
  'Existing tests only look at complete output of complete runs.',
  ['dieharder/output.c', 'dieharder/run_test.c', 'dieharder/output_rnds.c'], [('flush after each row', 'dieharder/output.c'), ('output after each stage', 'dieharder/run_test.c')])
p('N01', 'Test p-values are statistically correct',
  'For a perfect random source each test\'s p-values are uniformly distributed.',
  ['inputs'], 'all random sources', 'Golden-row tests pin single values, not the distribution.',
  ['libdieharder/*.c'], [('test statistics', 'libdieharder/diehard_*.c, rgb_*.c, sts_*.c, dab_*.c')])
p('N02', 'Built-in generators implement their published algorithms',
  'Each named generator produces the sequence of the published algorithm of that name for every seed.',
  ['inputs'], 'all seeds', 'One generator and one seed is tested indirectly.',
  ['libdieharder/rng_*.c'], [('generator get functions', 'libdieharder/rng_*.c')])
p('N03', 'Command line names and numbers select the same thing',
  'Selecting a test, generator or display column by name is the same as selecting it by its listed number.',
  ['inputs'], 'all names and numbers', 'Tests use numbers only.',
  ['dieharder/parsecl.c', 'dieharder/choose_rng.c', 'dieharder/run_test.c'], [('name lookups', 'dieharder/parsecl.c, dieharder/choose_rng.c, dieharder/run_test.c')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(here, 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
