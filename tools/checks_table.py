"""Which harness decides which property, how it is built, and what it claims."""
TTY = ["libtty", "libstream", "sys"]
BINS = {
    "vt": dict(src=["vt.cpp"], parts=TTY, wrap=["isatty", "ioctl"]),
    "str": dict(src=["str.cpp"], parts=TTY, wrap=["open", "pipe", "dup", "malloc", "strdup", "pthread_create", "getaddrinfo", "freeaddrinfo", "socket", "connect", "recv", "send", "close", "curl_easy_perform", "curl_easy_setopt", "curl_easy_init", "curl_easy_cleanup", "curl_global_init"]),
    "fmt": dict(src=["fmt.cpp"], parts=TTY, wrap=["gettimeofday", "select", "nanosleep", "usleep"]),
}
SCHED = ["pthread_" + x for x in "attr_init attr_setdetachstate attr_destroy create join detach self cancel setcancelstate testcancel mutex_init mutex_destroy mutex_lock mutex_trylock mutex_unlock cond_init cond_destroy cond_wait cond_timedwait cond_signal cond_broadcast sigmask exit".split()] + \
    "__pthread_register_cancel __pthread_unregister_cancel __pthread_unwind_next memcpy memmove memset malloc free calloc realloc strdup gettimeofday clock_gettime time select nanosleep clock_nanosleep usleep sleep atexit exit _exit".split()
BINS["sch"] = dict(src=["sch.cpp"], parts=TTY + ["common", "play"], san=[], hsan=[],
    wrap=SCHED + "pipe read write close isatty tcdrain tcsetattr tcgetattr ioctl open_stream ttyrec_r_play sigaction signal raise kill pthread_kill tgkill".split(),
    cflags=["-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset"],
    fileflags={"play/termplay.c": ["-Dmain=termplay_main"]},
    objcopy=["--rename-section", ".data=vsdata,alloc,load,data,contents", "--rename-section", ".bss=vsbss,alloc,load,data,contents", "--rename-section", ".data.rel=vsdata", "--rename-section", ".data.rel.local=vsdata", "--set-section-flags", ".bss=alloc,load,contents,data"])
VSEC = BINS["sch"]["objcopy"]
BINS["rec"] = dict(src=["rec.cpp"], parts=TTY + ["common", "rec"], hsan=[],
    wrap="select pselect poll ppoll read write ioctl tcgetattr tcsetattr gettimeofday forkpty execve execv kill killpg wait waitpid sigaction signal sigprocmask pthread_sigmask close exit _exit open_stream".split(),
    cflags=["-DHAVE_CONFIG_H"], fileflags={"rec/termrec.c": ["-Dmain=termrec_main"]}, objcopy=VSEC)
BINS["tools"] = dict(san=[], src=["tools.cpp"], parts=TTY + ["common", "rec", "cat", "time"], wrap="time gettimeofday clock_gettime forkpty open open64 creat rename fopen".split(),
    cflags=["-DHAVE_CONFIG_H"], libs=["-lutil"], fileflags={"rec/termrec.c": ["-Dmain=termrec_main"], "cat/termcat.c": ["-Dmain=termcat_main"], "time/termtime.c": ["-Dmain=termtime_main"]})
PROPS = {}
CHECKS = {}
NA = {}
def check(id, jobs, technique, level, note):
    PROPS[id] = jobs; CHECKS[id] = (technique, level, note)

for i, t, n in [
  ("T01", "explicit-state search over token and byte sequences on the real emulator, invariants checked after every byte under AddressSanitizer",
   "Every sequence of the alphabet up to the stated depth from every seeded state was run; allocation balance checked for each. Seeds include full mark tables, over-long titles, pending surrogates. Bounded by alphabet, depth and small screens (up to 17 columns), and one to two steps on full screens of up to 512x130 and 300x220 with up to 260000 marks; the thorough tier adds one level of depth."),
  ("T02", "explicit-state search: every split of every token sequence compared with the unsplit write (state and notification log)",
   "Every sequence of the alphabet up to the stated depth, written whole, byte by byte, and split at every point of the last token."),
  ("T03", "explicit-state search in lock-step with an independent reference terminal",
   "Real emulator and reference model compared in full after every sequence of the alphabet up to the stated depth from every seeded state (full mark tables, over-long titles and pending surrogates among them; one step from full screens of up to 512x130). Trusts the reference model."),
  ("T04", "exhaustive enumeration of code points and byte strings against a reference decoder",
   "All code points, all strings of up to 2 bytes, all surrogate pairs, pairs with something between, all class combinations of up to 5 (6) items. Trusts the reference tables (code page 437, DEC graphics, Unicode 5.0 widths)."),
  ("T05", "explicit-state search: screen rebuilt from notifications compared with the real one",
   "Every sequence of the alphabet up to the stated depth from every seeded state (full screens of up to 512x130 among them), with all listeners attached."),
  ("T06", "explicit-state search: renderer output replayed on an independent reference terminal in lock-step",
   "Every sequence of the alphabet up to the stated depth, attached at the start or by a dump of every seeded screen; displays of equal size must match, smaller ones must not be overrun. In the C locale too: what is not ASCII must be a ? for each column, or VT100 graphics for an 8-bit terminal (wide characters only as dumped or appended there, not overwritten by halves)."),
  ("T07", "explicit-state search: copy taken in every state, differential continuation on both sides",
   "Copy point after every sequence of the alphabet up to the stated depth; continuations rotate exhaustively over pairs of probes."),
  ("T08", "explicit-state search over resize and reset transitions in lock-step with the reference terminal",
   "All sizes up to 7x5 and all in-band parameters around the limits, from every seeded state, followed by probes of the state left behind."),
  ("T09", "exhaustive enumeration of output lengths, differential against direct writes",
   "All lengths near every power-of-two buffer size up to 128 KB and a stride between, five formats."),
]:
    check(i, [dict(bin="vt", modes=[i])], t, "model_checking" if i not in ("T04", "T09") else "exploration", n)

for i, t, n in [
  ("F01", "exhaustive enumeration of frame sequences through the real recorder and player, with independent decoders of each format",
   "All sequences of up to 3 (4) frames over an alphabet of byte classes, split characters and size requests; all code points byte by byte; frame lengths around every buffer limit; frames under 1 MB."),
  ("F02", "exhaustive enumeration of delay histories through the real recorder and player; virtual clock for live output",
   "All delay sequences up to depth 3 (4) over 15 delays and 8 start times, frames that cut a character in half and size headers among them; live text and text read live under a virtual clock; long recordings for accumulated error."),
  ("F03", "exhaustive enumeration of truncation points",
   "Every cut of small recordings of each format, cuts around every frame and buffer border of large ones."),
  ("F04", "bounded exhaustive enumeration of malformed files under AddressSanitizer, twice with differently poisoned stacks",
   "All strings over each format's significant tokens up to a depth, all triples of boundary values in binary headers, every byte of samples replaced, removed or doubled."),
  ("F05", "exhaustive enumeration of read fragmentations, delivered through a pipe in lock-step",
   "Every two-piece split and many three-piece splits of small recordings, splits around every frame and buffer border of large ones, equal pieces of many sizes."),
  ("F06", "bounded exhaustive enumeration of spellings of one abstract asciicast, against the abstract file",
   "All single and a fixed part of (thorough: all) pairs of alternative spellings over 12 file shapes; all code points as escapes; a list of malformed files."),
  ("F07", "exhaustive enumeration of names, extensions and short contents against a reference rule",
   "All combinations of 23 format names, 23 fallbacks, 12 stems, 17 extensions and 13 suffixes; all streams of up to 4 (5) tokens; an asciicast's beginning with all whitespace up to 3 (4) characters in a place, 1 (2) in each."),
  ("F08", "bounded exhaustive enumeration of DosRecorder frame sequences against a reference decoder and terminal",
   "All pairs and a fixed part of (thorough: all) triples of 75 frame kinds, all 65536 cell values, all runs of blanks."),
  ("F09", "exhaustive enumeration of the point at which the device fills up",
   "Every limit for small recordings, around every buffer border for large ones, and near the end of recordings which end anywhere relative to a border; write errors (not memory failures) of a regular file."),
  ("M01", "bounded exhaustive enumeration of recordings and seek times against replay from the start",
   "All triples of frame lengths around the snapshot interval, all triples of 19 short frames incl. split sequences; seeks at, just before and just after every frame; plus every sequence of up to 4 (thorough 5) operations out of seeks of two terminals, writes and resizes by their owners, added frames, stepping and dropping."),
  ("M02", "bounded exhaustive enumeration of recordings, gaps and selections",
   "All gap sequences up to depth 2 (3) over 10 gaps, all pairs of selection borders at and next to frames."),
]:
    check(i, [dict(bin="fmt", modes=[i])], t, "exploration", n)

for i, t, n in [
  ("S01", "exhaustive enumeration of write sequences, members and read fragmentations through the real filters, against the compression libraries",
   "All pairs of 18 (30) lengths around every internal buffer limit, 3 kinds of data, 5 kinds of file; appending by us to files by us and by the library; every 1- and many 2-cut fragmentations of a two-member file. Fixed seeds make the data."),
  ("S03", "fault enumeration: each interposed call made while opening fails in turn",
   "Every one of the first 12 calls (open, pipe, dup, malloc, strdup, thread creation, name resolution, socket, connect, curl) failing alone, for 25 URLs x 4 modes x with and without a descriptor x 1-3 addresses; a list of unopenable names."),
  ("S04", "explicit enumeration of telnet token sequences and fragmentations, against a reference decoder",
   "All token sequences up to 3 over about 60 tokens, all 1-cut fragmentations up to 2 tokens (thorough: 3) and byte by byte; all options and commands; all tokens at buffer borders. The network is a stand-in."),
  ("S05", "exhaustive enumeration of server menus and fragmentations in lock-step with a scripted server, against a reference menu matcher",
   "All 1-cut and many 2-cut fragmentations of one-entry menus, all pairs of 10 names in 3 styles, entries at all buffer borders. Worker scheduling is the operating system's; lock-step delivery makes the read sizes deterministic."),
  ("S06", "exhaustive enumeration of truncations, altered bytes and failing calls under AddressSanitizer",
   "Every truncation of small files of every compressor, 5 (255) alterations of every byte, every removed byte; each of the first 40 worker reads and writes failing or short (bzip2 reads and writes through stdio: full-disk limits instead); readers leaving early."),
  ("S07", "exhaustive enumeration of host, port and path spellings against an independent parser",
   "All combinations of about 60 hosts, 39 ports, 9 paths, 5 schemes; (thorough) all ports to 70000. Name resolution and connection are stand-ins that record their arguments."),
]:
    check(i, [dict(bin="str", modes=[i])], t, "exploration", n)

for i, t, n in [
  ("S02", "stateless exploration of all schedules of the real threads up to a delay bound, under a controlled scheduler",
   "One to three streams opened through filter() with scripted workers on modelled pipes of 4 bytes, closed in every order, with each thread creation failing in turn, then exit(); every schedule with up to 4 (two streams: 4, three: 3, one: 5; thorough 5, 4, 6) deviations from the default one, at every synchronisation, I/O and racing memory access. Sequentially consistent memory."),
  ("M03", "stateless exploration of all schedules of the real threads up to a delay bound, under a controlled scheduler",
   "A thread adding up to 4 frames (with and without snapshots) while another runs up to 3 operations of next and seek, or two threads reading; recordings with screen clears and combining marks; every schedule with up to 3 (large frames: 2; thorough: 4, 3) deviations from the default one. Sequentially consistent memory."),
  ("U04", "stateless exploration of all schedules of the real player up to a delay bound, with virtual time, against an interval model of the position",
   "termplay's own main() with its loader, player and keyboard threads: 12 recordings x key scripts of 0 to 3 keys out of 10, 12 speeds; every schedule and every early passing of time with up to 2 (no keys: 2, one key: 1-2, two: 1, three: 0; thorough one more) deviations. Sequentially consistent memory; the terminal and the file are stand-ins."),
  ("U06", "exhaustive enumeration of typed byte sequences through the real player under a controlled scheduler and virtual time, against a reference decoder of keys and the interval model of U04",
   "Every byte alone and after 12 prefixes with 4 continuations, all sequences of up to 3 (4) of 17 bytes, playing and paused, triples of 36 keys, 14 keys and 6 keys, every cut of a key. Default schedule only (U04 explores schedules); escape sequences with more than 3 digits are not covered."),
  ("U07", "exhaustive enumeration of command lines and of the file or terminal being unusable, through the player's whole main() under a controlled scheduler and virtual time, against a reference reader of the options",
   "All single options and pairs out of 64 spellings with 20 file names in both orders, triples of 12, with and without a terminal, with an unopenable file; each of 4 signals, inherited as ignored or not, at every point of 15 runs; what is opened, the format, the speed (by the times of frames), messages, exit status and the terminal's settings are judged. Opening and decoding themselves are stand-ins (S and F properties)."),
]:
    check(i, [dict(bin="sch", modes=[i])], t, "model_checking", n)

check("U01", [dict(bin="rec", modes=["U01"])], "explicit enumeration of all environment behaviours (readiness, transfer sizes, signal arrival points, end of the program) around the real main loop", "model_checking",
  "Up to 4 output chunks, 3 key chunks, 2 signals at any call, 2 (3) short transfers, program end at any point, with and without a terminal; each failing call alone. System calls of the recorder are stand-ins (a pseudoterminal, a terminal and a clock); compression is left out except for what a child inherits.")

for i, t, n in [
  ("U02", "exhaustive enumeration of recordings, input and output formats, compression, sets of inputs and failures, each through termcat's whole main() in its own process, against independent encoders and decoders",
   "All single frames and half (thorough: all) of the pairs of 15 texts and 10 delays through all 5 input and 5 output formats; triples; lengths at all buffer borders; pairs and triples of inputs; all pairs of compressions; good and 7 kinds of unreadable inputs in up to 3 places; destinations that cannot be opened; a disk full after every number of bytes. Compressed output to a full disk is a listed finding."),
  ("U03", "exhaustive enumeration of delay sequences, formats and file lists through termtime's whole main(), against the sum of the delays",
   "All sequences of up to 3 (4) of 16 delays from 3 starts in 5 formats, lists of up to 5 files, all compressions, long recordings, unreadable files in up to 3 places. Totals that are negative are not judged."),
  ("U05", "exhaustive enumeration of options, names and what exists already, through termrec's whole main() with a stand-in for the recorded program",
   "9 formats x append x raw x command in every order and 4 spellings, 19 names x 4 previous contents, up to 120 (2000) and around 702 (18278) names taken, 12 outputs that cannot be opened, wrong usage. The clock is fixed."),
  ("A01", "exhaustive enumeration of operands around every border, against 64- and 128-bit arithmetic",
   "All pairs of about 240 boundary values up to 4e15 us, all pairs within 1.2 ms of second borders (thorough: all microseconds against 1000), 33 and more scale factors."),
  ("A02", "exhaustive enumeration of all colours", "All 2^24 RGB colours and all palette entries, into all palettes."),
]:
    check(i, [dict(bin="tools", modes=[i])], t, "exploration", n)

check("F10", [dict(bin="tools", modes=["F10"])], "exhaustive enumeration of names, formats, descriptors, callbacks and contents through the library's calls in processes of their own, against a reference rule and independent encoders", "exploration",
  "5 stems x 13 extensions x 8 suffixes x 14 formats x write/save/play/load, with and without a descriptor, every set of callbacks; a part of the combinations (thorough: all) beyond the simplest stem; names that cannot be opened. Readers given another format than the contents' are F04's.")
check("S08", [dict(bin="str", modes=["S08"])], "exhaustive enumeration of kinds of address, suffixes, contents, fragmentations and interleavings of several open streams, against what the scripted other side sent or got", "exploration",
  "9 kinds of address x names and suffixes x about 12 contents, every single cut of short ones; two (a fixed part; thorough: all) and three streams open at once in every order of their operations. Network and downloads are stand-ins.")
check("I01", [dict(bin="vt", modes=["I01"]), dict(bin="fmt", modes=["I01"])], "exhaustive enumeration of interleavings of two objects' operations, against each object alone", "exploration",
  "Two terminals (with listeners and with the renderer) over all sequences of an alphabet of pending operations, two recorders in all 252 interleavings of 5+5 operations for 15x15 pairs, two recordings in memory, players inside each other's callbacks and recorders inside players. One thread (S02, M03 and U04 explore threads).")
