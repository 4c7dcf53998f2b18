#!/usr/bin/env python3
"""Single source of truth for properties.jsonl and MANIFEST.json.
Run `python3 tools/props.py` after editing; both files are committed."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- terminal
prop("T01", "The terminal emulator survives any byte stream with its invariants intact",
 "Whatever bytes are written to an emulated terminal of any size from two columns up, in any mode, the write returns without an invalid memory access, a leak or an abort. Afterwards the cursor is on the screen (at most one column past the right edge), every double-width character owns two adjacent cells of one row, and every cell's combining marks are an intact chain of at most four belonging to that cell alone. Freeing the terminal releases everything.",
 ["inputs", "histories"], "all byte/control-function sequences up to a depth, from the initial and from many non-initial screen states, on small screens",
 "Existing tests feed a dozen hand-written streams and one short random stream; corruption needs a particular combination of wide characters, combining marks, edge columns and region changes.",
 ["libtty/tty.c", "libtty/wcwidth.c"],
 [("combining-mark pool (allocate, free, chain)", "libtty/tty.c tty_add_comb, tty_kill_comb"),
  ("repair of half-overwritten wide characters", "libtty/tty.c cjk_damage_left, cjk_damage_right"),
  ("cursor clamping in every control function", "libtty/tty.c tty_write")],
 ["struct tty after each tty_write; AddressSanitizer; allocation balance"])
prop("T02", "How a byte stream is split into writes never changes what is displayed",
 "The screen contents, attributes, cursor, title, modes and the sequence of notifications to listeners depend only on the concatenation of the bytes written to a terminal. Splitting the stream at any point, including inside an escape sequence, a parameter, a window title or a multi-byte character, gives the same result as writing it whole.",
 ["inputs", "histories"], "every split of every token sequence up to a depth (in particular byte by byte), in UTF-8 and in 8-bit mode",
 "Tests pipe whole files in large blocks; a split inside one particular sequence is only met by accident.",
 ["libtty/tty.c"],
 [("resumable parser state kept in the terminal", "libtty/tty.c tty_write (state, tok, oscbuf, utf_*)")],
 ["struct tty and the event log after the last write"])
prop("T03", "Control functions have exactly their documented effect on the screen",
 "Starting from any screen, each printed character and each supported control function (wrapping, cursor motion, erasing, inserting and deleting characters and lines, scrolling inside a scrolling region, tabs, attributes and 16/256/RGB colours, cursor save and restore, line-drawing and 8-bit character sets, window title, modes, reset, resize request) changes the cells, the cursor and the modes exactly as the vt100/xterm repertoire the library supports prescribes, and changes nothing else. Parameters that are omitted, zero or oversized are defaulted or clamped, more than sixteen parameters invalidate a sequence, and unknown or cancelled sequences are ignored without disturbing what follows.",
 ["inputs", "histories"], "all sequences of control functions and characters up to a depth from initial and non-initial states, against an independent reference terminal",
 "A test fixes one stream and one expected screen; the property is about every combination of cursor position, region, content and parameter.",
 ["libtty/tty.c", "libtty/charsets.c"],
 [("escape sequence interpreter", "libtty/tty.c tty_write"), ("scrolling", "libtty/tty.c tty_scroll"),
  ("printing, wrapping, wide characters", "libtty/tty.c tty_write_char"), ("erasing", "libtty/tty.c tty_clear_region")],
 ["cells, cursor, attributes, modes and title after each write"])
prop("T04", "Every encoded character is decoded to the right glyph and width",
 "In UTF-8 mode each well-formed encoding displays its code point once, with the column width (none, one or two) of that code point; malformed input, non-characters, unpaired trailing surrogates, out-of-range values and overlong forms of ASCII or control characters are replaced or dropped without swallowing the ASCII or control characters that follow, and a byte order mark is ignored. In 8-bit mode every byte that is not an acted-upon control displays its code page 437 glyph, and with the line-drawing set selected every ASCII byte displays its vt100 graphic.",
 ["inputs"], "all code points, all 1- to 3-byte strings plus all 4- to 6-byte lead/continuation class combinations, all 256 bytes in 8-bit mode and both character sets",
 "Tests contain a few dozen distinct characters; there are over a million code points and far more malformed strings.",
 ["libtty/tty.c", "libtty/charsets.c", "libtty/wcwidth.c"],
 [("UTF-8 decoder", "libtty/tty.c tty_write ESnormal"), ("character tables", "libtty/charsets.c"), ("width table", "libtty/wcwidth.c mk_wcwidth")],
 ["cells and cursor after each byte"])
prop("T05", "Listeners are told about every change, in order",
 "A mirror of the screen maintained only from the notifications (character, combining mark, clear, scroll, cursor, mode flag, window title, resize, bell) is identical to the terminal's own cells, cursor and modes after every write. No change is left unreported and no notification describes something that did not happen; a flush follows every write.",
 ["inputs", "histories"], "all sequences of control functions and characters up to a depth from initial and non-initial states, with every listener attached",
 "No test attaches listeners other than through the vt-on-vt renderer, and none compares them with the screen.",
 ["libtty/tty.c", "libtty/tty.h"],
 [("notification macros and direct listener calls", "libtty/tty.c L_CURSOR, FLAG, SCROLL, CLEAR, l_char, l_comb")],
 ["listener callbacks and struct tty"])
prop("T06", "Displaying a terminal on another terminal reproduces it",
 "What the vt-on-vt renderer writes to the real terminal makes a terminal of the same size show the same characters, combining marks, attributes and colours, and leaves its cursor at the same place, after every write; this holds from an initial dump of any screen as well as after any later change, and on a real terminal of another size the part common to both is shown, and nothing is written outside it. Where the locale has no such character, each column it takes shows a question mark, or for an 8-bit terminal its VT100 graphic; the layout does not change. Window titles, bells and resizes are passed on.",
 ["inputs", "histories", "configurations"], "all sequences of control functions and characters up to a depth, starting by attaching before any output or with a dump of a non-empty screen",
 "One test replays fixed streams and compares characters and attributes at the end only.",
 ["libtty/vtredir.c", "libtty/tty.c"],
 [("translation of events to escape sequences, cursor and attribute caches", "libtty/vtredir.c"), ("full redraw", "libtty/vtredir.c vtvt_dump")],
 ["bytes written to the output stream, replayed on a second terminal"])
prop("T07", "A copied terminal is an exact, independent snapshot",
 "A copy of a terminal taken at any moment, even in the middle of an escape sequence, a title or a multi-byte character, has the same screen, cursor, modes and title and reacts to any further input exactly as the original would. Writing to, resizing or freeing either one never affects the other, and the copy carries none of the original's listeners.",
 ["histories"], "every prefix of every token sequence up to a depth as copy point, every continuation up to a depth on either side",
 "No test copies a terminal at all.",
 ["libtty/tty.c"], [("deep copy", "libtty/tty.c tty_copy")], ["two struct tty compared; AddressSanitizer"])
prop("T08", "Resizing and resetting keep what must be kept and clear the rest",
 "Resizing a terminal keeps the characters, attributes and combining marks of the cells common to both sizes in place (a wide character cut in half becomes a blank), fills new cells with blanks, keeps cursor and saved cursor on the screen and makes the scrolling region the whole screen; a request outside the permitted range or on a fixed-size terminal changes nothing. Resetting blanks the screen with default attributes and returns cursor and saved cursor, scrolling region, attributes, character sets and modes to their power-on values (window title and 8-bit mode stay) whatever the state before.",
 ["inputs", "histories", "configurations"], "all pairs of sizes up to a bound and all in-band resize parameters around the limits, over all screen contents reachable by short token sequences",
 "Tests resize only a few times, to fixed sizes, with plain content.",
 ["libtty/tty.c"], [("resize", "libtty/tty.c tty_resize; CSI t"), ("reset", "libtty/tty.c tty_reset; CSI c")], ["struct tty"])
prop("T09", "Formatted output reaches the terminal whole whatever its length",
 "Printing formatted text to a terminal has the same effect as writing the formatted bytes, whatever their length, with nothing lost, added or truncated.",
 ["inputs"], "every output length around the internal buffer limits and a sweep beyond, with position-dependent contents",
 "Tests print nothing longer than a line.",
 ["libtty/tty.c"], [("buffering of short and long output", "libtty/tty.c tty_printf")], ["struct tty; AddressSanitizer"])

# ---------------------------------------------------------------- formats
prop("F01", "What was recorded is what is played back, in every format",
 "For every recording format that can also be read, playing back a recording delivers exactly the bytes that were recorded, in order, for any division into frames. (nh_recorder cannot hold NUL bytes; asciicast holds any valid UTF-8 text in frames under a megabyte, where a character split between frames is completed by the next, and a size request that opens the first frame becomes the header and is played back from there.) An asciicast file, version 1 or 2, is moreover strictly valid JSON and UTF-8, with the screen size left by the first frame in its header.",
 ["inputs", "histories"], "all frame sequences up to a depth over an alphabet covering every byte class, plus frame lengths around every buffer limit",
 "Tests convert three fixed recordings.",
 ["libtty/formats.c", "libtty/asciicast.c", "libtty/files.c"],
 [("ttyrec, nh_recorder, plain writers and readers", "libtty/formats.c"), ("JSON escaping and UTF-8 reassembly", "libtty/asciicast.c record_asciicast, eat_string")],
 ["ttyrec_w_* output bytes; ttyrec_r_play callbacks"])
prop("F02", "Recorded timing is reproduced on playback",
 "In every timed format each frame of a recording is played back with the delay from the previous frame with which it was recorded, to within the format's own resolution and without accumulating error; ttyrec and asciicast (in whole seconds) also preserve the date of the recording. Where the clock went backwards, asciicast shows the frame without a delay. A plain text file is played at a constant 60 characters every fifth of a second; live output appears when it is due, never before; text read live has the delays with which it arrives.",
 ["inputs", "histories"], "all sequences of frame times up to a depth over a set of delays (zero, sub-tick, second borders, large, backwards) and start times",
 "Tests compare only the text of recordings, and durations of three fixed files.",
 ["libtty/formats.c", "libtty/asciicast.c"],
 [("time stamps and delays", "libtty/formats.c play_*/record_*"), ("decimal times", "libtty/asciicast.c eat_float, record_asciicast")],
 ["ttyrec_r_play wait callbacks"])
prop("F03", "A truncated recording plays up to the cut",
 "Cutting a recording file at any byte makes playback deliver the frames that are complete before the cut, with their original timing, then possibly a part of the frame that was cut (for asciicast followed by at most one diagnostic message), and then end normally; it never delivers bytes that were not recorded, hangs or crashes.",
 ["crash_points"], "every truncation length of recordings in every format, including ones larger than every internal buffer",
 "Tests only play complete files.",
 ["libtty/formats.c", "libtty/asciicast.c", "libtty/dosrecorder.c"], [("end-of-file handling in each reader", "libtty/formats.c, libtty/asciicast.c, libtty/dosrecorder.c")], ["ttyrec_r_play callbacks"])
prop("F04", "Malformed recordings are handled safely",
 "No file content, however malformed, makes any of the readers access invalid memory, leak, abort, or run without end; reading stops at the first thing that cannot be interpreted and returns normally.",
 ["inputs"], "all files built from the format's own grammar with up to k fields replaced by boundary values, and all short strings over each format's significant bytes",
 "Tests only play well-formed files.",
 ["libtty/formats.c", "libtty/asciicast.c", "libtty/dosrecorder.c"], [("bounds checks of lengths, positions and counts", "libtty/formats.c, libtty/asciicast.c, libtty/dosrecorder.c")], ["AddressSanitizer; callback log"])
prop("F05", "How the operating system delivers a file never changes what is played",
 "Playback of a recording does not depend on how the input is fragmented: however the bytes are split between successive reads from a pipe, the reader delivers the same output bytes and the same delays (live playback, which takes its timing from arrival, the same bytes).",
 ["schedules", "inputs"], "every split of short recordings into two reads, byte-by-byte delivery, and all splits around each buffer limit, for every format and for automatic detection",
 "Tests read regular files, which arrive in full blocks.",
 ["libtty/formats.c", "libtty/asciicast.c"], [("buffering in each reader", "libtty/formats.c play_nh_recorder, play_auto; libtty/asciicast.c nih_getc")], ["ttyrec_r_play callbacks"])
prop("F06", "Asciicast files are interpreted as the asciicast specification says",
 "Any JSON spelling of an asciicast version 1 or 2 file (white space, field order, unknown and nested fields, string escapes including surrogate pairs, number forms of times) plays as the same text with the same timing, preceded by a request for the recorded screen size. (Version, width and height are whole numbers, and the frames of version 1 are the last field.) Only output events are played; unsupported versions, broken headers and events of the wrong shape are reported, not displayed as data.",
 ["inputs"], "all combinations of spelling variants of headers, fields, escapes, numbers and events up to a bound, against an independent interpreter of the specification",
 "Tests play two or three files in the spelling one program writes.",
 ["libtty/asciicast.c"], [("JSON reader", "libtty/asciicast.c do_play_asciicast, eat_string, eat_float")], ["ttyrec_r_play callbacks"])
prop("F07", "Formats are chosen from name, extension or content correctly",
 "An explicitly named format is used regardless of case and never replaced by another; without one, the file name's extension decides, looking through a compression suffix, and otherwise the stated default is used. Automatic detection plays a ttyrec stream (whose first frame has 1 to 65535 bytes) or an asciicast stream (which begins with its version) exactly as its own reader would and shows anything else verbatim.",
 ["inputs", "configurations"], "all combinations of format names (and case variants, unknown names), extensions, compression suffixes and fallbacks, and automatic detection of every short stream and every valid recording",
 "Tests use a handful of names.",
 ["libtty/files.c", "libtty/formats.c", "libstream/compress.c"],
 [("format lookup", "libtty/files.c find_w_format, find_r_format"), ("content detection", "libtty/formats.c play_auto")],
 ["ttyrec_*_find_format, ttyrec_r_play"])
prop("F08", "DosRecorder files show the recorded screens",
 "Playing a DosRecorder file of frames (deltas against numbered stored screens, with or without a boxed note) makes a terminal show after each frame exactly the characters (as code page 437 glyphs), colours and brightness that the file describes, with the described delays; deltas outside the screen end playback.",
 ["inputs", "histories"], "all sequences of frames up to a depth over an alphabet of deltas, stored-screen numbers, notes and cell values (all 256 characters and attributes), against a reference decoder",
 "There is one sample file.",
 ["libtty/dosrecorder.c"], [("delta decoding and screen differencing", "libtty/dosrecorder.c play_dosrecorder, scrdiff")], ["ttyrec_r_play callbacks rendered on a reference terminal"])
prop("F09", "A recording that could not be written completely is reported",
 "If any byte of a recording cannot be written, whether on a frame or only when the file is closed, at least one of the frame writes or the close reports failure; if everything was written all of them report success.",
 ["fault_sequences", "crash_points"], "a failing device after every number of bytes, for every format",
 "Tests never run out of disk space.",
 ["libtty/files.c", "libtty/timeline.c"], [("error propagation", "libtty/files.c ttyrec_w_write, ttyrec_w_close; libtty/timeline.c ttyrec_save")], ["return values"])

prop("F10", "A recording is opened by its name, its format or a descriptor",
 "A recording written, saved, played or loaded by name uses the format given (in any case), else the one its extension means, else the default (plain text when writing, detection when reading), and is compressed or decompressed as its suffix says; when a descriptor is given, that is used and closed, and the name only chooses the format. Callbacks that are not wanted may be left out without altering what the others get, and all get the caller's argument. An unknown format or a name that cannot be opened is refused, with no file created or altered; the lists of formats name each format once, and each is found by its name and its extension.",
 ["inputs", "configurations"], "all combinations of names, extensions, suffixes, formats, descriptors, sets of callbacks and contents of every format, through the library's public calls in a process of their own",
 "Tests open a few names, always with the format that goes with the extension.",
 ["libtty/files.c", "libtty/timeline.c", "libstream/stream.c", "libtty/formats.c"], [("format choice and opening", "libtty/files.c"), ("loading and saving", "libtty/timeline.c ttyrec_load, ttyrec_save")], ["files, callbacks, return values"])

# ---------------------------------------------------------------- in-memory recordings
prop("M01", "Seeking in a loaded recording shows the exact state of that moment",
 "For any recording in memory and any time, seeking returns the last frame not later than that time (with no time, the first frame) and yields a terminal whose screen, cursor and modes are what playing all frames from the beginning up to it produces, however large the recording and whatever terminal it was created with.",
 ["inputs", "histories"], "all recordings up to a number of frames over sizes around the internal snapshot interval, all seek times at, between, before and after frames",
 "One test seeks in one fixed recording with the default terminal.",
 ["libtty/timeline.c"], [("snapshots and replay from the nearest one", "libtty/timeline.c synch_print, ttyrec_seek")], ["ttyrec_seek results"])
prop("M02", "Loading, editing and saving a recording preserve its frames and times",
 "Loading a recording yields its frames in order with their recorded times, where gaps of five seconds or more (and gaps that go backwards) become five seconds; adding a frame appends it after the given delay, limited likewise. Saving writes the frame that is shown at the start of the selection and every later one up to its end, nothing else, in order and with their times, in the chosen format, and reports failure if it cannot.",
 ["inputs", "histories"], "all frame sequences up to a depth over a set of delays, all selections at, between, before and after frames, in every format",
 "Tests load and save three fixed recordings whole, without selections, gaps or additions.",
 ["libtty/timeline.c"], [("frame list", "libtty/timeline.c synch_wait, synch_print, ttyrec_save")], ["ttyrec_next_frame, saved file played back"])
prop("M03", "A recording can be read while it is still being loaded",
 "A second thread that walks or seeks the frames of a recording while another thread is still adding to it always sees a prefix of the frames: each one complete, in order and with its final time and contents, and the screen it gets is the one for that prefix.",
 ["schedules"], "all interleavings of one loading and one reading thread at shared-memory access granularity up to a preemption bound",
 "Tests are single-threaded; the window is a few instructions wide.",
 ["libtty/timeline.c"], [("publication of a frame after it has been filled in", "libtty/timeline.c synch_print")], ["frames seen by the reader"])

# ---------------------------------------------------------------- streams
prop("S01", "Compressed files round-trip, and appended files read back whole",
 "Data written through any supported compression and read back is identical, for any length and any sequence of writes, and the file is one that the standard tools accept. Appending to an existing file, compressed or not, never alters the old data, and reading the result gives the old data followed by the new.",
 ["inputs", "histories"], "all write sequences up to a depth over lengths around every internal buffer limit, for every compressor, with 1-3 appended members; every fragmentation of delivery at buffer limits",
 "Tests compress one small file with each compressor.",
 ["libstream/compress.c", "libstream/stream.c", "libstream/url_file.c"], [("compression and decompression filters", "libstream/compress.c")], ["bytes read from open_stream"])
prop("S02", "A program does not exit before everything written has been stored",
 "When a program that wrote to one or more compressed or network streams closes them and exits normally, the exit waits until every stream's data has been completely processed, in whatever order the streams' background workers run and finish; it never waits for ever.",
 ["schedules"], "all interleavings of the exiting thread with up to three stream workers at synchronisation-point granularity",
 "A test sees one timing; the window is between the last close and process exit.",
 ["libstream/stream.c"], [("count of active streams and exit handler", "libstream/stream.c filter, finish_up")], ["file contents at exit"])
prop("S03", "Opening a stream fails cleanly",
 "When a stream cannot be opened (missing file, directory, permissions, refused connection, out of descriptors, processes or memory at any step), the caller gets a failure with a non-empty reason, and no descriptor, memory, connection or background worker is left behind; the caller's strings are not used after the call returns; opening for appending or writing never creates or truncates anything but the named file.",
 ["fault_sequences"], "one injected failure at every system or allocation call made while opening, for every kind of stream and mode",
 "Tests open only files that exist.",
 ["libstream/stream.c", "libstream/url_file.c", "libstream/url_tcp.c", "libstream/url_termcast.c", "libstream/compress.c"], [("error paths of open_stream", "libstream/stream.c open_stream, filter")], ["return value, error string, open descriptors"])
prop("S04", "The telnet client hands over exactly the remote session's data",
 "From any telnet byte stream the client delivers exactly the data bytes, with doubled 255s undone and all commands, option negotiations and subnegotiations (of up to 64 bytes; a longer one is taken for unterminated and given up, which does not affect what follows) removed, independent of how the network fragments it; every WILL and DO is answered exactly once with a refusal or acceptance the protocol allows, every WONT and DONT at most once and only with a refusal, and nothing else is ever sent.",
 ["inputs", "schedules"], "all token sequences (data, 255, commands, each negotiation verb with each option, subnegotiations, truncated ends) up to a depth, with every split into received packets",
 "No test connects anywhere.",
 ["libstream/url_telnet.c"], [("telnet state machine", "libstream/url_telnet.c telnet")], ["bytes delivered, bytes sent to the peer"])
prop("S05", "The termcast client joins the requested session and shows it in full",
 "Connecting to a termcast server selects the requested person's session (and nobody else's) at whatever position of the server's menu and whenever it appears there, and delivers everything the server sends, exactly and in full, however the network fragments it. If the server ends before the person appears, that is reported; the connection is closed when either side ends.",
 ["inputs", "schedules"], "all server menus up to a number of entries and pages over colliding names, with every split of the server's output",
 "No test connects anywhere.",
 ["libstream/url_termcast.c"], [("menu parser", "libstream/url_termcast.c")], ["bytes delivered, bytes sent to the server"])
prop("S06", "Damaged or unreadable compressed data never hangs or crashes",
 "Reading a compressed stream that is truncated, or whose source or destination fails at any point, delivers a prefix of its data, followed by at most an error notice, then ends (a file too short to be recognised as compressed may be passed through). With altered bytes, some bytes are delivered, then it ends. Neither reading nor writing ever accesses invalid memory, loops for ever, or brings the program down, whichever side fails or goes away.",
 ["crash_points", "fault_sequences", "inputs"], "every truncation and every single-byte corruption of small files of every compressor, and a read or write error at every call",
 "Tests only read intact files.",
 ["libstream/compress.c"], [("error handling of each filter", "libstream/compress.c")], ["bytes delivered; AddressSanitizer"])
prop("S07", "Network addresses in URLs are parsed as written",
 "Host names, IPv4 and bracketed IPv6 addresses, with or without a port, name exactly that host and port (the protocol's default port if none is given); a path is not a part of them. A malformed address or port is reported and never silently replaced.",
 ["inputs"], "all combinations of host forms, port forms and paths up to a bound, against an independent parser",
 "No test opens a network URL.",
 ["libstream/url_tcp.c", "libstream/stream.c", "libstream/url_termcast.c"], [("host and port parsing", "libstream/url_tcp.c")], ["name resolution and connection requests"])

prop("S08", "Streams of every kind carry exactly the bytes behind their address",
 "Reading a stream, whatever it is behind (a file, a given descriptor, standard input, a tcp or telnet connection, a download), delivers exactly the bytes its other side sends, decompressed if and only if the name ends in a compression suffix in any case, however they are fragmented and whatever other streams are open; writing or appending likewise delivers exactly what is written, compressed likewise. Each side sees the end when the other closes. A download that fails midway delivers what had arrived, followed by an error notice.",
 ["inputs", "schedules", "histories"], "all kinds of address with all suffixes and contents at every fragmentation, and two or three streams opened, used and closed in every interleaving",
 "Tests read and write files, one at a time.",
 ["libstream/stream.c", "libstream/url_file.c", "libstream/url_tcp.c", "libstream/url_telnet.c", "libstream/url_curl.c", "libstream/compress.c"], [("opening and filters", "libstream/stream.c open_stream, filter")], ["bytes at both ends"])

# ---------------------------------------------------------------- tools
prop("U01", "The recorder captures the whole session once, in order",
 "Everything the recorded program outputs appears, in order and exactly once, both on the user's terminal and in the recording, in whatever pieces it arrives; everything the user types reaches the program; terminal size changes reach both the program and the recording; and when the program ends its last output is recorded. Interrupting signals and partial reads or writes do not lose or duplicate data; other signals sent to the recorder are passed to the program and nobody else. However the session ends (the program's end, the end of input, a failure of any call), the recording is closed properly, the terminal restored and a failure reported by the exit status; the program run is exactly the command given, else the user's shell, and it inherits nothing of the recorder's.",
 ["schedules", "fault_sequences"], "all sequences of environment events (output chunk, keystroke, size change, signal, partial write, end) up to a depth against the real main loop with a scripted environment",
 "Tests record a few commands' output without signals, resizes or partial transfers.",
 ["rec/termrec.c", "rec/pty.c"], [("main loop", "rec/termrec.c record, main"), ("signal handlers", "rec/termrec.c sigpass, sigwinch")], ["recording, terminal output, pty input"])
prop("U02", "Converting a recording preserves it",
 "Converting between formats keeps the text of the recording unchanged and its timing to the coarser of the two formats' resolutions, in one or several input files played one after the other; every unreadable input is named in an error message without hindering the others, and the exit status reports failure if nothing could be read or the output could not be written, and success otherwise.",
 ["inputs", "configurations"], "all pairs of formats over all short frame sequences, with and without compression and with several inputs",
 "Tests convert a few fixed files to a few formats.",
 ["cat/termcat.c", "common/open_out.c", "common/rec_args.c"], [("conversion loop", "cat/termcat.c")], ["output file, exit status"])
prop("U03", "The reported length of a recording is the sum of its delays",
 "The duration printed for a recording is the total of its frames' delays, carried correctly between units and at any magnitude, for every format and any number of files, each counted on its own; an unreadable file is named in an error message and the exit status reports failure if nothing could be read.",
 ["inputs"], "all frame-time sequences up to a depth over delays around second, minute, hour and day borders",
 "Three fixed files are tested.",
 ["time/termtime.c"], [("summation and formatting", "time/termtime.c")], ["standard output"])
prop("U04", "The player shows frames in order, on time and stays in control",
 "Playing a recording shows every frame once, in order, never before its time scaled by the chosen speed, while the recording is still being loaded as well as after (when the recording's data arrives more than two seconds late, the clock is slowed down by as much instead of skipping); pause, speed change, stepping to the next frame, seeking, rewinding (which also pauses) and quit take effect correctly at any moment, and after each of them the screen is that of the position reached. The player never deadlocks, and keeps running until it is told to quit or its keyboard input ends.",
 ["schedules", "inputs"], "all interleavings of loader, player and keyboard up to a preemption bound over short recordings with a virtual clock, for all key sequences up to a depth",
 "Nothing tests the player.",
 ["play/player.c", "play/termplay.c", "libtty/timeline.c"], [("player loop and condition variable", "play/player.c"), ("keyboard commands", "play/termplay.c")], ["output bytes and virtual times"])
prop("U06", "Keys typed to the player do exactly what is documented",
 "Each documented key of the player (space, enter, - S s, + F f, 1, the arrows, page up and down, R r, Q q) is recognised in every encoding terminals send for it (normal and application cursor keys, application keypad) and performs exactly its documented action once: pause or resume, one frame ahead, half or double speed (within 0.001 to 1000), speed 1, 10 s / 1 min / 10 min back (never before the start) or forward, rewind, quit. Any other key or escape sequence is consumed as a whole and changes nothing, without disturbing the keys after it, and input ending at any point, even within a key, ends the player.",
 ["inputs"], "all byte sequences up to a depth over the bytes that keys are made of, and all sequences of keys up to a depth",
 "Nothing tests the player; escape sequences arrive byte by byte.",
 ["play/player.c"], [("key bindings and decoder", "play/player.c binds, replay")], ["screen contents after each key"])
prop("U05", "Output files are named and opened as the user asked",
 "Without a name the recorder chooses a fresh dated name with the chosen format's extension and never overwrites an existing file, however many exist already; a given name is used as is, its compression, and its format unless chosen, deduced from it; appending keeps what is there; and wrong usage (of which an unknown format is named) or an output that cannot be opened is an error before anything is recorded or touched.",
 ["configurations", "fault_sequences"], "all combinations of options, existing files and open failures up to a bound",
 "Tests always give explicit names in an empty directory.",
 ["common/open_out.c", "common/rec_args.c", "common/args.c"], [("automatic naming", "common/open_out.c"), ("option parsing", "common/rec_args.c")], ["files opened and created"])
prop("U07", "The player obeys its command line and gives the terminal back",
 "The player opens exactly the named file or address, reads it in the format given (in any case of letters) or else deduced from its name after removing a compression suffix or else detected automatically, and starts at the speed given, in whatever order and spelling the options come; a speed outside 0.001 to 1000, an unknown format (which is named) or a repeated one, no or several names, an unknown option or a file that cannot be opened (which is named, with the reason) is an error reported by a message and the exit status, before the terminal is touched. While it plays, single keys reach it without echo and interrupting it stays possible; after it ends, be it by a signal, the terminal's settings are what they were.",
 ["configurations", "fault_sequences"], "all command lines of up to three options, in all orders, with and without a terminal",
 "Nothing tests the player.",
 ["play/termplay.c", "common/args.c"], [("option parsing", "play/termplay.c get_play_parms"), ("terminal settings", "play/termplay.c kbd_raw, kbd_restore")], ["exit status, messages, terminal settings"])

# ---------------------------------------------------------------- misc
prop("A01", "Time arithmetic is exact and normalised",
 "Adding, subtracting, scaling and comparing times gives the mathematically exact result (scaling rounded to a microsecond) with microseconds in range, for all normalised operands including negative results.",
 ["inputs"], "all pairs of boundary and small operands and all speed factors the player uses",
 "A test tries a few dozen operand pairs.",
 ["libtty/ttyrec.h"], [("time macros", "libtty/ttyrec.h tadd, tsub, tmul1000, tdiv1000, tcmp")], ["results"])
prop("A02", "Colour conversion always yields a valid, closest-family colour",
 "Converting any colour to any palette yields an index valid in that palette; palette entries convert to their standard RGB values and from there back to an entry of the same colour (brown, which exists only among the 16, is approximated), a grey stays a grey, no channel is off by more than half the range (16 colours) or 7/16 of it (256), and the 256-colour result is never further from the original, by the weighted distance the library uses (2-4 per unit of a channel), than the 16-colour one, nor by more than 300 further than the nearest of the 256.",
 ["inputs"], "all 2^24 RGB colours and all palette entries into every target",
 "Tests convert a few dozen colours.",
 ["libtty/colors.c"], [("nearest colour search", "libtty/colors.c")], ["tty_color_convert"])

prop("I01", "Terminals, recorders, players and recordings do not affect each other",
 "Any number of terminals, recorders, players and in-memory recordings may be in use at once, interleaved in any way (a player's callbacks may themselves play, record or draw): each behaves exactly as it does when used alone. Nothing is kept between one use and the next.",
 ["histories", "inputs"], "all interleavings of the operations of two objects over an alphabet of operations that leave something pending, compared with each object alone",
 "Tests have a single object of each kind at a time.",
 ["libtty/tty.c", "libtty/vtredir.c", "libtty/formats.c", "libtty/asciicast.c", "libtty/dosrecorder.c", "libtty/timeline.c"], [("per-object state", "libtty/tty.c, libtty/formats.c, libtty/asciicast.c, libtty/timeline.c")], ["screen, output, recorded bytes, callbacks"])

# ---------------------------------------------------------------- checks
# id -> (technique, level, level_note); anything absent is listed under not_applicable
CHECKS = {}
NA = {}
try:
    from checks_table import CHECKS, NA
except ImportError:
    pass

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
    for p in P:
        i = p["id"]
        if i in CHECKS:
            t, l, n = CHECKS[i]
            m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}",
                "thorough_cmd": f"env VERIF_TIER=thorough python3 check.py {i}", "technique": t, "level": l,
                "level_note": n, "evidence_file": f"evidence/{i}.json"})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, "Applicable, but its check is not built yet.")})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
if __name__ == "__main__":
    main()
