"""C10, C15-...: sequential library code."""
from core import u
TECH = 'stateless model checking of the real code: every operation sequence to a depth and every input of a bounded grid, compared with a reference model after each step'
GRID = 'bounded exhaustive enumeration of inputs of the real code (every input of the stated grid), compared with an independent reference'
ASSUME = ['the code is compiled with g++-10 -O1 and AddressSanitizer; an access outside an allocation ends the execution and is reported',
          'the reference model (standard library strings, vectors, shared pointers, plain formulas) is kept by the harness']
RULE = 'distinct final results are counted'
P = {}
P['C10'] = u(title='A handle keeps its object alive exactly as long as some handle refers to it',
  statement='Whatever sequence of creating, copying, assigning (also to itself, also to a handle stored inside its own object), clearing and cleanup registration is performed, every handle refers to the object last assigned to it, the count equals the number of handles, the object is destroyed exactly once when the last handle goes, and a registered cleanup runs exactly once. Creating over an existing object is refused; using an empty handle raises an error.',
  over=['programs'], text='every sequence of handle operations up to the depth bound over three handles, with and without objects that contain handles',
  why='Self assignment, chains of handles and re-creation only matter in particular sequences of several steps.',
  files=['src/mg/cresource.h'], mech=[('release/addRef on assignment', 'src/mg/cresource.h')],
  builds=['seq1'], tech=TECH, assume=ASSUME, rule=RULE, bounds='3 handles, depth 4 (5 thorough) over 6 operations; depth 3 (4) over 8 operations with links', design='handles() in `harness/seq1.cpp`, compared with `std::shared_ptr`.')
P['C15'] = u(title='A growing buffer holds exactly what was added, whatever its size or history',
  statement='After any sequence of additions (also of another buffer or of its own content), direct writes of prepared space, step backs and resets, a buffer holds exactly the elements added and not taken back, in order; the space it promises is really there, and zero where nothing was ever written; reading at any position returns exactly what lies there and nothing past the end.',
  over=['programs'], text='every sequence of buffer operations up to the depth bound x initial sizes 1..5 and the default',
  why='Growth happens at one exact fill level; the tests add far less than, or whole multiples of, the initial size.',
  files=['src/mg/cbuffer.h'], mech=[('growth', 'src/mg/cbuffer.h')],
  builds=['seq1'], tech=TECH, assume=ASSUME, rule=RULE, bounds='depth 4 (5 thorough) over 10 operations, initial sizes 1..5 elements of 1 and 4 bytes, and the default size', design='buffers() in `harness/seq1.cpp`, compared with `std::vector`.')
P['C16'] = u(title='Strings behave as character sequences; copies share, clones do not',
  statement='Assigning, appending (also to itself), concatenating, cutting, clearing and cloning strings give the characters one expects; plain copies of a string share its content and clones do not; comparisons and searches agree with the characters; asking for parts beyond the end yields what exists and never reads outside.',
  over=['programs', 'inputs'], text='every sequence of string operations up to the depth bound on two strings; every text and pattern over two letters up to a length, from every position',
  why='Sharing and aliasing effects need several steps; search and cut faults live at the ends.',
  files=['src/mg/alxstring.h', 'src/mg/cbuffer.h'], mech=[('shared buffer', 'src/mg/alxstring.h'), ('find, rfind, subString', 'src/mg/alxstring.h')],
  builds=['seq1'], tech=TECH, assume=ASSUME, rule=RULE, bounds='16 start states, depth 3 (4 thorough for four of them) over 13 operations; texts to length 6 (8), patterns to 3 (4)', design='strings(), searching() in `harness/seq1.cpp`, compared with `std::string` behind `std::shared_ptr`.')
P['C17'] = u(title='Numbers, formats and hexadecimal survive the way into a string and back',
  statement='Appending an integer, float, formatted text or hexadecimal bytes adds exactly its text; reading a string as a number gives the number back over the whole range; text that is no number is refused, never guessed. Formatting that does not fit raises an error and leaves the string as it was. A dump of bytes shows every byte once, in order.',
  over=['inputs'], text='boundary values of every numeric type, every format of a grid around the internal limit, every byte value and short byte sequences',
  why='The limits (sign, 2^31, 2^63, the internal line length) are single points of a huge domain.',
  files=['src/mg/alxstring.h'], mech=[('operator+= and conversions', 'src/mg/alxstring.h'), ('append_format, hexformat', 'src/mg/alxstring.h')],
  builds=['seq1'], tech=GRID, assume=ASSUME, rule=RULE, bounds='16 boundary integers x 6 conversions, formatted lengths 0..5000, byte strings to length 3, dumps of 0..33 bytes in 1..11 columns', design='numbers(), not_numbers(), formats(), hexes(), hexdump() in `harness/seq1.cpp`.')
P['C18'] = u(title='Splitting and replacing text loses nothing and always ends',
  statement='Splitting a text at a separator yields exactly the pieces between its occurrences (joined again they give the text), whatever was split before with the same object; an empty separator yields the whole text. Replacing puts the new text in place of every occurrence and changes nothing else.',
  over=['inputs'], text='every text over three letters and every separator over two letters up to a length, fresh and reused splitters',
  why='Overlapping, adjacent and final separators, empty texts and reuse are not in the tests.',
  files=['src/mg/splitter.h', 'src/mg/alxstring.h'], mech=[('locator list', 'src/mg/splitter.h')],
  builds=['seq1'], tech=GRID, assume=ASSUME, rule=RULE, bounds='texts to length 6 (7 thorough) over 3 letters, separators to length 3 over 2 letters', design='splitting() in `harness/seq1.cpp`.')
P['C19'] = u(title='A command line is understood completely, in order, with its own values only',
  statement='Every option reaches its handler once, in order, with exactly the arguments that follow it. Named options keep every value given, in order and whole, even when a value contains separators; short forms are equivalent; unknown options are kept; a missing required option is refused with a message naming it; numbers are read over their full range; what was given can be asked for afterwards.',
  over=['inputs'], text='every command line of up to 5 tokens of a vocabulary (letters), up to 2 options (3 thorough) from a grid of 9 names x 10 value forms x 2 dashes',
  why='Interactions of neighbouring options and separators inside values are combinatorial.',
  files=['src/mg/cmdline.h'], mech=[('Dispatch', 'src/mg/cmdline.h'), ('console_command::process', 'src/mg/cmdline.h')],
  builds=['seq1'], tech=GRID, assume=ASSUME + ['the value of a yes/no option given by its letter alone is not specified'], rule=RULE, bounds='letter commands of up to 5 (6) tokens of 9; up to 2 (3) named options of 180 forms mixed with plain arguments', design='letters(), console(), console_int() in `harness/seq1.cpp`.')
P['C20'] = u(title='Base64 encoding and decoding are inverse, whatever the pieces they are fed in',
  statement='The encoder produces exactly the standard base64 text of its input plus one line end, however the input is cut into blocks, and the decoder returns exactly the bytes of a base64 text, however it is cut and with whatever foreign characters in between, padded or not.',
  over=['inputs'], text='every input of up to 2 bytes and a grid of longer ones, every cut of inputs into pieces, every character value at every position',
  why='State carried between blocks has three phases on each side; single foreign characters are 192 values.',
  files=['src/b64/src/cencode.cpp', 'src/b64/src/cdecode.cpp'], mech=[('step state', 'src/b64/src/cdecode.cpp'), ('step state', 'src/b64/src/cencode.cpp')],
  builds=['seq1'], tech=GRID, assume=ASSUME + ['the caller\'s output has room for one byte more than the decoded data'], rule=RULE, bounds='all inputs to 2 bytes, 13 values for bytes 3 and 4, up to 3 cuts (4 thorough) of 0..9 (12) bytes, all 256 characters at 5 positions', design='b64_*() in `harness/seq1.cpp`, compared with an independent encoder.')
P['C21'] = u(title='The transport stream checksum is the standard CRC-32 at any length and alignment',
  statement='The checksum of any byte sequence, at any memory alignment, equals the MPEG-2 CRC-32 (polynomial 04C11DB7, start FFFFFFFF, not reflected); it reads nothing outside the sequence; continuing from an intermediate checksum gives the checksum of the whole; data followed by its own checksum gives zero.',
  over=['inputs'], text='every content of up to 2 bytes (3 thorough), every length 0..40 at every alignment, every cut of 0..13 bytes',
  why='The table driven code treats unaligned heads, groups of four and tails differently.',
  files=['src/mg/media/wincrc.cpp'], mech=[('av_crc', 'src/mg/media/wincrc.cpp')],
  builds=['seq1'], tech=GRID, assume=ASSUME + ['the first use of the tables is not concurrent'], rule=RULE, bounds='contents to 2 (3) bytes, lengths 0..40 x 8 alignments x 3 patterns, two parts of 0..13 bytes', design='crc_*() in `harness/seq1.cpp`, compared with the bitwise definition.')

A2 = ['the code is compiled with g++-10 -O1 and AddressSanitizer; an access outside an allocation ends the execution and is reported']
P['C22'] = u(title='Dates are right: now, as text, from text, and the time between two of them',
  statement='A date taken from the clock is the clock\'s, in UTC or in local time with its offset; its text says exactly that date; a date read from text has exactly the fields the text gives; and the difference of two dates, in any unit and either direction, is the elapsed time, whatever the zone, summer time, leap years or century.',
  over=['inputs', 'clock'], text='a grid of instants (leap days, year ends, summer time changes, before 1970, after 2038) x 3 time zones; a grid of texts and of pairs of dates',
  why='Dates are wrong at particular instants in particular zones; tests run at the present in one zone.',
  files=['src/mg/core/nx/ctime.cpp', 'src/mg/core/ctime.h'], mech=[('Ctime from the clock', 'src/mg/core/nx/ctime.cpp'), ('Ctime from text', 'src/mg/core/nx/ctime.cpp')],
  builds=['seq2'], tech=GRID, assume=A2 + ['clock_gettime(CLOCK_REALTIME) is answered by the harness; time zone rules come from POSIX TZ strings through the C library'], rule=RULE, bounds='about 215,000 combinations of year, month, day, time, zone and form', design='dates_*() in `harness/seq2.cpp`, compared with a day count computed independently.')
P['C23'] = u(title='A duration in 100 ns units is written and taken apart exactly',
  statement='The text of a duration in 100-nanosecond units gives its sign, hours, minutes, seconds and milliseconds exactly, and the parts of a duration and a duration made of parts agree with each other, up to the largest duration.',
  over=['inputs'], text='24 boundary durations x 5 additions x 2 signs',
  why='Carries between the fields happen only at single values.',
  files=['src/mg/media/hnano.h'], mech=[('HundredNano', 'src/mg/media/hnano.h')],
  builds=['seq2'], tech=GRID, assume=A2 + ['the most negative 64-bit number is left out'], rule=RULE, bounds='240 durations', design='durations() in `harness/seq2.cpp`.')
P['C24'] = u(title='A media queue gives back whole items in order and only drops what it may',
  statement='A bounded media queue hands items out in order of arrival, each with exactly its data. A dropping queue loses only its oldest items and only when space is needed; a refusing queue refuses only when the item does not fit and loses nothing; a growing queue accepts everything and loses nothing. A buffer that is too small leaves the item in the queue. This holds at any fill level, wherever the data wraps and however many items have passed before.',
  over=['programs'], text='every sequence of operations up to the depth bound on queues of 16, 40, 61 and 100 bytes, new and after 2^31 items',
  why='The ring wraps at fill levels that depend on the whole history.',
  files=['src/mg/media/fixed_queue.h', 'src/mg/media/media_queue.h'], mech=[('push / make_space', 'src/mg/media/fixed_queue.h'), ('growing', 'src/mg/media/media_queue.h')],
  builds=['seq2'], tech=TECH, assume=A2 + ['"space is needed" is judged by the bytes laid out since the queue was last empty; items of 24 + length bytes', 'the queues are used by one thread at a time'], rule=RULE + '; states are distinct (fill, item lengths) vectors', bounds='depth 4 (5 thorough) over 16 operations, 5 (6) for queues of 40 and 61 bytes starting with a push', design='queues() in `harness/seq2.cpp`, compared with `std::deque`.')
P['C25'] = u(title='A number that does not fit a narrower type is an error, never another number',
  statement='The conversions between integer sizes, signedness and floating point return the same number or raise an error; they never wrap, truncate the range or accept what is not a number.',
  over=['inputs'], text='12 boundary integers and 13 boundary floating point values for every conversion',
  why='Only the exact limits distinguish right from wrong comparisons.',
  files=['src/mg/core/core.h'], mech=[('ST_U32, U64_i64, DBL_U64, ...', 'src/mg/core/core.h')],
  builds=['seq2'], tech=GRID, assume=A2, rule=RULE, bounds='156 combinations', design='narrowing() in `harness/seq2.cpp`.')
P['C26'] = u(title='Creating and deleting directories and files does that, or raises an error',
  statement='After creating a directory it exists and is usable, whether or not it existed; deleting removes exactly the named file or empty directory; what cannot be done raises an error and changes nothing. An environment variable is returned whole, a missing one as empty text.',
  over=['programs'], text='every sequence of operations up to the depth bound on a small directory tree',
  why='Errors arise from particular states: existing, missing parent, a file in the place of a directory, not empty.',
  files=['src/mg/core/nx/util.cpp'], mech=[('create_directory, delete_file', 'src/mg/core/nx/util.cpp')],
  builds=['seq2'], tech=TECH, assume=A2 + ['run in a fresh directory under /tmp'], rule=RULE, bounds='depth 4 (5) over 12 operations on 3 names', design='directories() in `harness/seq2.cpp`, compared with the file system after each step.')
P['C27'] = u(title='Joined media continues all streams with one common shift, without overlap or gap',
  statement='When presentations are appended, every stream of the next one is shifted by the same amount (they stay synchronous), no stream begins before its predecessor\'s end, and the shift is the smallest with that property.',
  over=['inputs'], text='1 to 3 streams with a grid of ends and starts',
  why='Which stream decides depends on all ends and starts together.',
  files=['src/mg/media/MediaJoin.h'], mech=[('Compute', 'src/mg/media/MediaJoin.h')],
  builds=['seq2'], tech=GRID, assume=A2, rule=RULE, bounds='7 ends x 5 starts for up to 2 streams, 4 x 3 for 3', design='joins() in `harness/seq2.cpp`.')
P['C28'] = u(title='Corrected audio times are evenly spaced and stay with the input',
  statement='Corrected times of successive audio frames strictly increase; each follows the one before by one frame duration (within one sample) or restarts at the input after a real jump; they never fall more than a frame behind the input, and follow an input with rounding jitter without drifting.',
  over=['histories'], text='every sequence of up to 6 (8) frames with 6 kinds of deviation x 3 rates x 2 starts x 2 streams',
  why='Drift and resynchronisation depend on the accumulated history of jitter.',
  files=['src/mg/media/aac_time_fix.h'], mech=[('fix_audio_frequency_timing', 'src/mg/media/aac_time_fix.h')],
  builds=['seq2'], tech=TECH, assume=A2 + ['frames of 1024 samples'], rule=RULE, bounds='6 (8 thorough) frames', design='audio() in `harness/seq2.cpp`.')
P['C29'] = u(title='An error carries its number, message and place intact to whoever catches it',
  statement='An error object keeps its number, message, file and line through being thrown, copied and caught as its base; its text contains all of them; the check helpers raise exactly for negative codes, with that code.',
  over=['inputs'], text='6 numbers x 3 lines x 2 messages x 4 ways',
  why='Errors are copied while the original is destroyed.',
  files=['src/mg/exception.h'], mech=[('mgexception', 'src/mg/exception.h')],
  builds=['seq2'], tech=GRID, assume=A2, rule=RULE, bounds='144 combinations', design='errors() in `harness/seq2.cpp`.')
