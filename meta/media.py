import os, glob
from core import u
from seq import TECH, GRID
def flavor(dirp, repo, here, sh):
    out = os.path.join(dirp, 'fl', 'mg', 'media', 'mp4')
    os.makedirs(out, exist_ok=True)
    sh(['python3', os.path.join(here, 'flavor', 'flavor.py'), out] + sorted(glob.glob(os.path.join(repo, 'src/mg/media/mp4/*.fl'))))
    fl = os.path.join(dirp, 'fl')
    return ['-I' + fl, '-I' + fl + '/mg/media', '-I' + here + '/flavor', '-I' + repo + '/src/mg/media', '-I' + repo + '/src/mg']
MFLAGS = ['-DHAVE_LIBGYPAES', '-DBASE64', '-Dmain=mg_cli_main']
MEDIA = ['mp4edit', 'mp4dynamic', 'mp4dynamicinfo', 'tsinfo', 'wincrc']
def media(src, cli):
    return dict(mode='asan', src=src, repo=['core', 'b64'], gen=flavor, gen_src=['fl/mg/media/mp4/*.cpp'], flags=MFLAGS,
                repo_files=['src/mg/media/%s.cpp' % m for m in MEDIA] + (['src/mgcli/mp4info.cpp'] if cli else []))
BUILDS = {
 'mp4': media(['media1.cpp'], False),
 'cli': media(['media2.cpp'], True),
 'hls': media(['media3.cpp'], True),
 'join': media(['media4.cpp'], True),
 'mux': media(['media5.cpp'], True),
 'list': media(['media6.cpp'], True),
 'cut': media(['media7.cpp'], True),
 'same': dict(media(['media8.cpp'], True), flags=MFLAGS + ['--param', 'asan-stack=0']),
}
MASSUME = ['the code is compiled with g++-10 -O1 and AddressSanitizer; an access outside an allocation ends the execution and is reported',
 'the bit stream descriptions (*.fl) are translated by the small Flavor translator in flavor/, and AES is a stand-in of our own: the original generator and libgypaes are not available here',
 'the writer and the parsers in harness/ are written from the ISO specifications alone and share no code with the repository']
MRULE = 'distinct files produced or read are counted'
FL = 'src/mg/media/mp4/mp4.fl'
P = {}
P['C30'] = u(title='Reading an MP4 file gives every sample its place, size, times and kind',
  statement='For every well formed MP4 file, whatever its layout (chunking, interleaving, index first or last, 32 or 64 bit boxes and offsets, fixed or listed sizes, unknown boxes, edit lists), reading reports for each track the samples it holds: count, position, size, decoding and composition time, sync flag, language, codec configuration and duration. Walking the file meets each sample once, in file order. Looking up a time finds the last sync sample not after it, and moving to a time starts every track there.',
  over=['inputs', 'programs'], text='every file of a bounded family: all chunkings, duration, composition and sync patterns of short tracks; all layouts of files of one to four tracks; every time around every sample',
  why='The sample tables are compressed five ways at once; a fault shows only for certain chunk runs, counts or boundaries, and the repository has no test that reads a file.',
  files=['src/mg/media/mp4parse.h', FL], mech=[('sample table iterators', 'src/mg/media/mp4parse.h'), ('walk and seek', 'src/mg/media/mp4parse.h')],
  builds=['mp4'], tech=GRID, assume=MASSUME, rule=MRULE, bounds='tracks of up to 5 (7) samples with all chunkings x duration / composition / sync patterns; layouts of 7 track combinations; seeks over up to 6 (8) video samples with every sync pattern, at each sample time -1, +0, +1 and +10 ms', design='`harness/media1.cpp`: files made by `harness/mp4synth.h`, opened with MP4Reader from memory and from disk, compared with the description the file was made from.')
P['C31'] = u(title='DASH packaging keeps every sample and cuts where the manifest says',
  statement='Packaging an MP4 file for DASH writes a manifest and the files it refers to, and no others. For closed groups of pictures every picture, and every sound sample that begins no earlier than the first picture, is in exactly one piece of its set, in order and unaltered, at its original decoding and composition time (up to rounding; a constant composition offset may be dropped). Every piece of video begins with the first sync picture due after the piece length; every piece of sound but the last holds as many samples as fit. Each piece spans the times the manifest gives, and durations, codecs, sizes and initialisation segments describe the file.',
  over=['inputs', 'programs'], text='every sync pattern of short videos x frame rates and timescales x picture orders x piece lengths x sound rates, lengths and delays x track orders x output timescales',
  why='Pieces are cut in three passes (points, edits, fragments) that must agree to the tick; a fault shows only for certain sync patterns, orders or offsets and loses or moves single samples.',
  files=['src/mgcli/mp4info.cpp', 'src/mg/media/mp4dynamic.cpp', 'src/mg/media/mp4dynamicinfo.h', 'src/mg/media/mp4fragmented.h', 'src/mg/media/mp4edit.cpp', 'src/mg/media/mpd_renderer.h'], mech=[('cut points', 'src/mg/media/mp4dynamic.cpp'), ('fragments', 'src/mg/media/mp4fragmented.h'), ('manifest', 'src/mg/media/mpd_renderer.h')],
  builds=['cli'], tech=GRID, assume=MASSUME + ['the command line tool is run in process through its main(), in a scratch directory'], rule=MRULE,
  bounds='videos of up to 6 (9) pictures with every sync pattern, 5 rates x 3 orders x 4 lengths; sounds of up to 12 (30) samples; both together up to 4 (6) pictures x 3 delays x 3 sound lengths x 2 track orders x 2 piece lengths, and 4 output timescales; videos of up to 1000 pictures 10 seconds to 400 seconds apart, lasting hours',
  design='`harness/media2.cpp` runs `-k:dash` on synthesised files; `harness/mp4check.h` reads the manifest, initialisation segments and fragments independently; samples, times, boundaries, sidx, and parameter sets are compared with the source.')
P['C32'] = u(title='HLS packaging keeps every sample and cuts where the playlist says',
  statement='Packaging an MP4 file with pictures for HLS writes a master playlist, media playlists and the segments they refer to, and no others. For closed groups of pictures every picture is in exactly one segment, in order, behind an access unit delimiter, with parameter sets at sync pictures; every sound sample that begins no earlier than the first picture is in the segment during which it begins. Times are those of the file, all later by the same amount; segments begin with the first sync picture due after the segment length and last as long as the playlist says. Each segment is a well formed transport stream whose tables, continuity counters and clock carry on from segment to segment, for every sample size.',
  over=['inputs', 'programs'], text='every sync pattern of short videos x frame rates x picture orders x segment lengths x sound rates, lengths and delays x track orders; every sample length from 1 to 420 (1200) and around each limit; up to 1100 pictures',
  why='A transport stream packet is filled in many ways depending on the bytes that remain; counters wrap after 16 packets; samples are assigned to segments from two clocks. A fault needs one exact length, count or offset.',
  files=['src/mgcli/mp4info.cpp', 'src/mg/media/tswrite.h', 'src/mg/media/mp4dynamic.cpp', 'src/mg/media/mp4dynamicinfo.h', 'src/mg/media/mp4/mpeg2ts.fl'], mech=[('transport stream', 'src/mg/media/tswrite.h'), ('segments', 'src/mg/media/mp4dynamic.cpp'), ('playlists', 'src/mgcli/mp4info.cpp')],
  builds=['hls'], tech=GRID, assume=MASSUME + ['the command line tool is run in process through its main(), in a scratch directory',
   'times are compared to within 1 ms (the code rounds them to ms); a sync picture within 66 ms of the segment length may begin a segment; the sound codec named for a file without sound, stuffing values and reserved bits are not judged; encryption and files without pictures are outside'], rule=MRULE,
  bounds='videos of up to 6 (9) pictures with every sync pattern, 5 rates x 3 orders x 2 lengths; with sound up to 4 (6) pictures x 3 delays x 3 sound lengths x 2 track orders x 4 layouts; pictures and sound frames of every length 1..420 (1200), 8151..8170 and 65461..65560 (66000); 33, 520 and 1100 pictures',
  design='`harness/media3.cpp` runs `-k:hls` on synthesised files; `harness/hlsread.h` and `harness/tscheck.h` read playlists and transport streams independently (sync bytes, adaptation fields, PSI CRC, PES headers, PTS / DTS / PCR, NAL units, ADTS) and compare with the source.')
P['C33'] = u(title='Several bitrates of one programme are packaged as one presentation',
  statement='Given the same programme encoded at several bitrates (one -i and further -j options), packaging for DASH or HLS lists every bitrate with its own size, codec and bandwidth; each holds exactly the pictures of its own file, unaltered and at their times; all are cut at the same times; the sound is there once (DASH) or with each (HLS), unaltered. -k:adaptive writes both presentations into one directory, each as if it was alone.',
  over=['inputs', 'programs'], text='every sync pattern of short videos x frame rates x picture orders x two or three bitrates in any order x layouts and track orders of the files x piece lengths',
  why='Every bitrate is addressed by indices into lists made per file, kind and part; an index that is right for one file or one order of options picks the wrong stream in another.',
  files=['src/mgcli/mp4info.cpp', 'src/mg/media/mp4dynamic.cpp', 'src/mg/media/mp4dynamicinfo.h', 'src/mg/media/mpd_renderer.h'], mech=[('paths and bitrates', 'src/mg/media/mp4dynamicinfo.h'), ('manifest', 'src/mg/media/mpd_renderer.h')],
  builds=['join'], tech=GRID, assume=MASSUME + ['the command line tool is run in process through its main(), in a scratch directory', 'the files agree in picture times and in sound'], rule=MRULE,
  bounds='videos of up to 4 (6) pictures with every sync pattern, 5 rates x 3 orders x 2 lengths, without and with sound (1 (2) rates), 2 or 3 bitrates in 3 orders, 3 layouts, 2 track orders, DASH, HLS and both (-k:adaptive)',
  design='`harness/media4.cpp` (`rates`): files that differ in every byte but agree in times; each bitrate is judged by the oracle of C31 or C32.')
P['C34'] = u(title='Parts of files put together play on without loss, repetition or drift',
  statement='Packaging parts of files (-s and -e per -i, several -i in a row, at one or more bitrates) for DASH or HLS gives one presentation. Each part holds, in order and unaltered, the pictures from the last sync picture decoded at or before its start (closed groups) to the last shown before its end, and the sound heard from the first of these pictures until the end (HLS: sound after the last picture may be missing). All samples of a part are moved by one and the same time, pictures and sound alike; parts follow each other without overlap and without a gap in all streams; no picture segment spans two parts; the manifest agrees.',
  over=['inputs', 'programs'], text='every start and end around the pictures of short videos; every join of two files and every insertion of one into the other at a sync picture, over sync patterns, frame rates, orders, sound lengths and delays, track orders, bitrates and segment lengths',
  why='Each part is read with its own time base, sound left over from one file is completed from the next, and the ends of parts are found in two ways; a fault needs particular remainders, delays or ends and repeats or loses single samples.',
  files=['src/mg/media/mp4dynamic.cpp', 'src/mg/media/mp4dynamicinfo.h', 'src/mg/media/mp4edit.cpp', 'src/mg/media/MediaJoin.h', 'src/mg/media/mp4fragmented.h', 'src/mg/media/tsinfo.cpp'], mech=[('join times', 'src/mg/media/MediaJoin.h'), ('crossing fragments', 'src/mg/media/mp4dynamic.cpp'), ('ends of parts', 'src/mg/media/mp4dynamicinfo.h')],
  builds=['join'], tech=GRID, assume=MASSUME + ['the command line tool is run in process through its main(), in a scratch directory', 'files of pictures shown out of order are cut at sync pictures only; joined files have the same tracks and time scales; HLS times are compared to within 1 ms; the gap is not judged next to a part without sound'], rule=MRULE,
  bounds='one part: videos of up to 4 (6) pictures with every sync pattern, every start (exactly, 1 us and half a picture later) and end (exactly, half a picture later), 5 rates x 3 orders; joins and insertions of files of up to 3+2 (5+3) pictures with every sync pattern, 3 sound lengths, delays, 2 track orders, 1 or 2 bitrates, 2 segment lengths; one to three parts of sound alone of up to 6 (9) samples',
  design='`harness/media4.cpp` (`trim`, `join`, `alone`): one oracle selects the samples of each part and measures by how much they were moved; DASH and HLS output are read by the parsers of C31 and C32.')
P['C35'] = u(title='Muxing (-k:mux) puts parts of MP4 files into one equivalent MP4 file',
  statement='Muxing parts of files (-s and -e per -i, several -i in a row) writes one well-formed MP4 file: one video and one sound track with the parameter sets, picture size and audio configuration of the input and the timescale asked for (-videotimescale, -audiotimescale) or that of the input. The tracks hold, in order and unaltered, the samples of the parts as in C34, with the input\'s sync marks. All samples of a part are moved by one and the same time, pictures and sound alike, parts follow each other without overlap or gap, recorded durations fit the samples to within two of them, and nothing else is left in the output directory.',
  over=['inputs', 'programs'], text='every start and end around the pictures of short videos; every two files one after the other and every insertion of one into the other at a sync picture, over sync patterns, frame rates, orders, sound lengths and delays, track orders, timescales and picture durations',
  why='The tables of the result are packed (run lengths, one size for all, 4- or 8-byte offsets) and written while samples of several tracks and files wait in queues; a fault needs particular tables, timescales or distances between tracks.',
  files=['src/mgcli/mp4info.cpp', 'src/mg/media/mp4edit.cpp', 'src/mg/media/mp4mux.h', 'src/mg/media/mp4write.h', 'src/mg/media/MediaJoin.h'], mech=[('muxing', 'src/mg/media/mp4edit.cpp'), ('writing', 'src/mg/media/mp4write.h')],
  builds=['mux'], tech=GRID, assume=MASSUME + ['the command line tool is run in process through its main(), in a scratch directory', 'files of pictures shown out of order are cut at sync pictures only; put together files have the same parameter sets, timescales and tracks'], rule=MRULE,
  bounds='one part: videos of up to 4 (6) pictures with every sync pattern, every start (exactly, 1 us and half a picture later) and end (exactly, half a picture later), 5 rates x 3 orders, without and with sound; up to 3 (5) pictures with 4 choices of timescales and with pictures of 0.8 s; two files of up to 3+2 (5+3) pictures in a row or one inside the other',
  design='`harness/media5.cpp`: the result is read by the parser of C30 and judged by the selection and movement oracle of C34 (`harness/parts.h`).')
P['C36'] = u(title='The lists of groups of pictures (-k:gop) and of boxes (-k:analyze) are true',
  statement='-k:gop prints exactly one line for every sync picture of the video from the last decoded at or before the start up to the first not shown before the end, in order, with its number, the time it is shown (as clock time and in 100 ns) and the time it is decoded; files of the same picture times give the same list. -k:analyze prints exactly one line for every box of a well-formed file, those inside moov, trak, mdia, minf, dinf, stbl, edts, udta, mvex, moof and traf included, in file order: its type, where it begins, its size and where it ends. Both end with exit code 0.',
  over=['inputs', 'programs'], text='every sync pattern of short videos x frame rates x picture orders x sound tracks x layouts x starts and ends around the pictures; boxes of source files of several layouts and of all files written by the DASH packager and the muxer from such sources',
  why='Sync pictures are looked up through ranges and times whose cursors advance as they are read; a list can be wrong for groups of one picture, for pictures shown later than decoded, or without a table of sync pictures, and right otherwise.',
  files=['src/mgcli/mp4info.cpp', 'src/mg/media/mp4parse.h', 'src/mg/media/mp4parse.h'], mech=[('group list', 'src/mgcli/mp4info.cpp'), ('sync sample table', 'src/mg/media/mp4parse.h')],
  builds=['list'], tech=GRID, assume=MASSUME + ['the command line tool is run in process through its main(), in a scratch directory', 'lists from a start are judged for files without a table of sync samples only when pictures are shown in decoding order'], rule='distinct lists are counted',
  bounds='groups: videos of up to 5 (8) pictures, every sync pattern, with and without a table of sync samples, 5 rates x 3 orders x 3 sound layouts, 2 interleavings, 32- and 64-bit offsets, every start and end; boxes: sources of up to 4 (7) pictures, 3 sets of tracks, 8 layouts x 4 kinds of boxes, and the files the tool makes of them',
  design='`harness/media6.cpp`: what the tool prints is caught and compared with lists made from the synthetic movie and by an independent walk of the boxes.')
P['C37'] = u(title='An MP4 file cut short is refused, or gives what the whole file gives',
  statement='For every MP4 file and every place at which it may be cut off, each command that reads it (-k:gop, -k:analyze, and packaging for DASH, for HLS, and muxing) ends: it never hangs, crashes, or reads memory it was not given. When it reports success, its result is what the whole file gives, byte for byte (-k:analyze: a beginning of the list for the whole file); and as long as all it needs is before the cut (the index; to package or mux also the samples), it does report success.',
  over=['crash-points', 'inputs'], text='every length from none to the whole of synthetic files x five commands x index first or last, 32- and 64-bit offsets, further boxes between x with or without sound',
  why='A file still being copied, or lost half-way, ends at any byte: inside a header, a table, or the samples of one track only. Tests have whole files.',
  files=['src/mg/media/mp4parse.h', 'src/mg/media/mp4parse.h', 'src/mgcli/mp4info.cpp'], mech=[('box reading', 'src/mg/media/mp4parse.h'), ('sample reading', 'src/mg/media/mp4parse.h')],
  builds=['cut'], tech='systematic exploration of the real command line tool: every point at which the input file may end is tried, each compared with the result of the whole file', assume=MASSUME + ['the command line tool is run in process through its main(), in a scratch directory', 'parts of output written before a refusal are not judged'], rule='distinct lengths and exit codes per file are counted',
  bounds='videos of 1 and 2 (up to 4) pictures, 8 layouts, with and without sound, 5 commands, every length',
  design='`harness/media7.cpp`: the whole file is run once per kind and remembered; then every beginning of it is run and the results compared.')
P['C38'] = u(title='A file larger than 4 GB is read like a small one',
  statement='However far back in a file its samples and its index lie (beyond 2, 4 or more GB), -k:gop, packaging for DASH and for HLS, and muxing give the same result as for the same movie in a small file, byte for byte (the time of writing apart).',
  over=['inputs'], text='every byte of the sample data and of the start of the index as the one before which the 2 GB or 4 GB (or a further) border lies x index first or last x four commands x with or without sound',
  why='A position cut to 32 bits only shows in a file no test would carry; whether it matters depends on which read crosses the border.',
  files=['src/mg/core/file.h', 'src/mg/media/mp4parse.h', 'src/mgcli/mp4info.cpp'], mech=[('file positions', 'src/mg/core/file.h'), ('chunk offsets', 'src/mg/media/mp4parse.h')],
  builds=['cut'], tech='systematic exploration of the real command line tool on sparse files: every alignment of the samples with the 32-bit borders is tried and compared with the small file', assume=MASSUME + ['the command line tool is run in process through its main(), in a scratch directory whose file system keeps holes unwritten', '-k:analyze reads through the samples and is left out'], rule='distinct positions per file are counted',
  bounds='videos of 1 and 2 (up to 4) pictures, 4 layouts, with and without sound, 64-bit offsets, borders at 2^31 and 2^32 (also 2^33, 5*2^31, 2^35) before every byte of the samples and the first bytes of an index that follows',
  design='`harness/media7.cpp`: the file is written with a hole before its samples; results are compared with those of the file without the hole.')
P['C39'] = u(title='What the command line tool writes depends on its input only',
  statement='Running the same command on the same files gives the same exit code, the same files with the same bytes and (for -k:gop and -k:analyze) the same text each time, the time of writing apart. Nothing that happened to be in memory before reaches a result.',
  over=['inputs', 'histories'], text='all commands over synthetic files: tracks, sync patterns, picture orders, layouts, parts, segment lengths, two files joined; each run with three different contents of unused memory',
  why='A field never set is usually zero when a test looks; it differs from run to run in a long-lived or busy process, and leaks memory into files.',
  files=['src/mgcli/mp4info.cpp', 'src/mg/media/mp4write.h', 'src/mg/media/mp4parse.h', 'src/mg/media/mp4/h264.fl'], mech=[('box writing', 'src/mg/media/mp4write.h'), ('parameter sets', 'src/mg/media/mp4/h264.fl')],
  builds=['same'], tech='systematic exploration of the real command line tool: every command of the grid runs with fresh heap and stack memory filled with 00, ff and 5a, and the results are compared', assume=MASSUME + ['the command line tool is run in process through its main(), in a scratch directory', 'uninitialised values that are the same under all three fillings (static data) are zero by the language'], rule='distinct results are counted',
  bounds='videos of up to 2 (3) pictures x every sync pattern x 3 orders x 5 sets of tracks x 4 layouts x extra boxes x delayed sound x whole or two parts x 2 segment lengths x 6 commands; two files joined',
  design='`harness/media8.cpp`: operator new and the stack below main() are filled; outputs are compared after blanking creation times.')
