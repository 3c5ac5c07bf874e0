"""What each check runs: configurations, number of cases, floors for what must have been observed."""

W5 = [("plain", e, 1) for e in ("plain", "wt", "wezterm", "contour", "vscode")]
W6 = W5 + [("plain", "cjk", 1)]
ORG = [("org", "plain", 1), ("org", "wt", 1)]
RACE = [("race", e, 1) for e in ("plain", "wt")]
WIDTHS = "go-runewidth (or the package's own width table in the orgxwidth build) gives the columns a terminal uses for a code point"
VT = "the terminal emulator of the harness (auto-wrap, CR, LF, BS, CSI moves/erase/SGR, OSC title) behaves like the user's terminal"
API = "the editor is driven through its public API with a scripted terminal (tty.ITty-like interface); monitors read the buffer only while the editor waits for a key"

SPECS = {}


def spec(id, cases, configs, rule, technique, note, floors, assumptions=(), level="exploration", **kw):
    SPECS[id] = dict(cases=cases, configs=configs, rule=rule, technique=technique, note=note, floors=floors,
                     assumptions=[API] + list(assumptions), level=level, **kw)


spec("C01", (90000, 1500000), W5 + ORG,
     "a case is one editing session of random keys over ASCII, CJK, emoji, combining and control text in a random width; an evaluation is one comparison of text and cursor after a key; distinct = different (operation, text, cursor) observed",
     "online monitor comparing the buffer with a list model after every key",
     "every key of every generated session is judged; sessions are sampled, not exhausted",
     {"evaluations": 100000, "distinct": 20000, "other_quotes": 5000, "end_1": 1000, "end_2": 50, "end_3": 50})
spec("C02", (40000, 500000), [("plain", e, 4) for e in ("plain", "wt", "wezterm", "contour", "vscode")] + [("plain", "clip", 1)],
     "a case is one session mixing edits and undos, ended by undoing everything; an evaluation is one text comparison with the recorded text before the edit; distinct = different (operation, text, undo depth)",
     "online monitor comparing each undo with a recorded stack of texts",
     "every undo of every generated session is judged; sessions are sampled",
     {"evaluations": 100000, "distinct": 20000, "unwound": 1000, "unwound_to_empty": 1000, "with_prediction": 2000, "yanked": 500, "long_inputs": 200, "very_long_inputs": 5})
spec("C03", (36000, 360000), W6 + ORG,
     "a case is one text (all code-point classes, joiner/selector/modifier sequences, control characters) entering by typing, default, history, paste, insertion, completion, prediction or search; evaluations compare the code points that come out; part of the cases round-trips split/join exhaustively over the code space; distinct = different texts",
     "conservation oracle over code points entering and leaving the editor",
     "round trip of every single code point plus sampled sequences through every way in",
     {"evaluations": 500000, "distinct": 20000, "in_default": 500, "in_typing": 500, "in_pasted": 200, "in_recall": 200,
      "in_completion": 200, "in_prediction": 100, "in_search": 200}, ["only valid UTF-8 is claimed"])
spec("C04", (12000, 220000), W6 + ORG,
     "a case prints units of one text to the emulator and compares reported width with the cursor's advance, and string width/count with the sum over reference units; part of the cases walks the whole code space; distinct = different texts",
     "differential oracle: reported width against cursor advance in a terminal emulator",
     "every single code point is visited; sequences are sampled", {"evaluations": 200000, "distinct": 20000, "overrides": 500, "printed": 100000, "swept": 30, "far_right": 10},
     [WIDTHS, VT])
spec("C05", (60000, 1200000), W6 + ORG,
     "a case is one editing session on an emulated terminal; at every wait the row, the cursor column and all other rows are compared with the line; distinct = different rows seen",
     "terminal emulator as screen oracle at every key wait",
     "every wait of every generated session is judged; sessions are sampled",
     {"evaluations": 200000, "distinct": 20000, "scrolled_views": 10000, "finished_rows": 10000, "scrolled_right": 20000}, [WIDTHS, VT])
spec("C06", (200000, 2000000), W6,
     "a case is one prompt (text, wide characters, line breaks, backspaces, SGR and OSC sequences) in one width; evaluations compare where typed text appears with the emulator's cursor after printing the prompt, at start and after full repaints; distinct = different (prompt, column)",
     "terminal emulator as oracle for the prompt's end column",
     "prompts are sampled", {"evaluations": 100000, "distinct": 10000, "fresh_row": 2000, "changing_prompts": 20000, "wide_terminals": 2000}, [WIDTHS, VT])
spec("C07", (120000, 1200000), W6,
     "a case is one session whose line, history, prediction and search strings contain control characters; the output byte stream is tokenised and every control byte must belong to one of the editor's own sequences, and a twin session with the control characters replaced must emit the same control tokens; distinct = different token streams",
     "output-stream monitor (tokeniser) plus twin-run differential",
     "every byte emitted in every generated session is judged", {"evaluations": 100000, "distinct": 5000, "control_tokens": 1000000, "twins": 5000},
     ["the editor's own sequences are CR, LF, BS, BEL-free CSI cursor/erase/SGR/mode sequences; prompts are the caller's"])
spec("C08", (30000, 600000), W5,
     "a case is one session with prediction enabled (default or custom predictor); at every wait the dimmed text on the emulated screen is compared with what the predictor returns for the line; distinct = different rows seen",
     "terminal emulator plus shadow predictor at every key wait",
     "every wait of every generated session is judged", {"evaluations": 200000, "distinct": 10000, "accepted": 2000, "predictions_shown": 10000, "finished": 5000, "finished_otherwise": 200, "disabled": 1000},
     [WIDTHS, VT])
spec("C09", (70000, 800000), W5,
     "a case is one session of history moves and edits; after each move the line is compared with a reference list of entries as last left; distinct = different (position, text)",
     "online monitor against a reference history",
     "every move of every generated session is judged", {"evaluations": 200000, "distinct": 10000, "edited_entry_left": 10000, "huge_history": 5, "revisited": 10000, "stayed": 5000, "lines_added": 2000})
spec("C10", (120000, 1200000), W5,
     "a case is one incremental search over a random history; after every key the row shown on the emulator is compared with a reference search; distinct = different (search string, found entry)",
     "terminal emulator plus reference search at every nested key wait",
     "every key of every generated search is judged",
     {"evaluations": 100000, "distinct": 10000, "accepted": 5000, "cancelled": 5000, "found": 20000, "not_found": 20000, "huge_history": 5, "steps": 5000, "undone": 2000},
     [VT])
spec("C11", (4500, 45000), [("plain", "clip", 2), ("plain", "plain", 1)],
     "a case is one session of cuts and pastes with a clipboard tool (a script on PATH storing to a file, made to fail at random) or with none; evaluations compare the clipboard file and the line with the list model; distinct = different (operation, clipboard, line)",
     "list-model monitor plus inspection of the clipboard tool's store, with injected tool failures",
     "the clipboard library is really executed; its tool is a stand-in",
     {"evaluations": 10000, "distinct": 4000, "cut_to_clipboard": 1000, "pasted": 1000, "quoted": 300, "cut_without_clipboard": 1000, "paste_without_clipboard": 1000},
     ["xclip on PATH is used as on a desktop; the stand-in honours -in/-out"])
spec("C12", (2400, 30000), RACE,
     "a case is either a session with notifications delivered at every kind of wait, after each of which the emulated screen is judged, or a session with notifications fired continuously by three goroutines and at special moments (open, size, prompt, line feed, close) compared with the same session undisturbed; distinct = different screens/results",
     "race detector plus screen oracle under concurrent resize notifications",
     "schedules are those the Go scheduler produced; the race detector reports unsynchronised accesses independent of timing within a schedule",
     {"evaluations": 4000, "distinct": 1000, "sync_notifications": 4000, "nested_notifications": 300, "notifications": 20000, "with_prediction": 200, "too_narrow": 300, "multi_line_prompts": 200},
     [VT], schedule=True, watchdog=120)
spec("C13", (12000, 120000), W5,
     "a case is one session ended in every possible way: each terminal call failing in turn, output failing after n bytes, a command panicking at each key, and the three regular endings; evaluations compare the calls recorded at the terminal, the cursor state, flushed bytes, hook calls and the outcome; distinct = different (fault point, outcome)",
     "fault enumeration over every terminal call of recorded sessions with a lifecycle monitor",
     "for every generated session every fault point is enumerated", {"evaluations": 100000, "distinct": 5000, "other_errors": 1000, "fault_getkey": 20000, "fault_open_size_close": 5000, "fault_output": 10000, "fault_panic": 10000, "fault_callback": 10000, "reused": 20000, "ending_0": 500, "ending_1": 500, "ending_2": 500},
     level="fault_enumeration", watchdog=60)
spec("C15", (70000, 700000), W5,
     "a case is a random sequence of bindings (by key, by name, nil, both maps) on two editors followed by pressing every affected key; evaluations compare which command ran with a reference map; distinct = different (key, command)",
     "online monitor against a reference binding map",
     "all default bindings are pressed; binding histories are sampled", {"evaluations": 200000, "distinct": 500, "pressed": 100000, "bound_by_name": 2000, "unknown_names": 2000})
spec("C16", (40000, 400000), W5,
     "a case is one session with a recording colouring; every painting pass recorded is compared with the line and the colours of the cells on the emulated screen with what it answered; distinct = different passes",
     "call monitor on the colouring interface plus cell attributes of a terminal emulator",
     "every painting pass of every generated session is judged", {"evaluations": 200000, "distinct": 10000, "passes": 100000, "coloured_cells": 500000, "empty_lines": 500, "twins": 1000},
     [WIDTHS, VT])
spec("C20", (16000, 200000), W6 + ORG,
     "a case is one session of hostile keys (invalid UTF-8, unknown sequences, empty keys), sizes, defaults, prompts and commands; after every key cursor and view start must be in range, and nothing may panic or hang; distinct = different (key class, state)",
     "crash/hang monitor and invariant monitor under hostile input",
     "inputs are sampled; a case that does not end within the watchdog is run again alone before it counts",
     {"evaluations": 200000, "distinct": 10000, "resizes": 5000, "huge_default": 100}, watchdog=60)
spec("C21", (400, 8000), RACE,
     "a case is two to eight editors run at the same time (some starting another editor from a command) while two goroutines call the width helpers, compared with each editor run alone; distinct = different solo results",
     "race detector plus solo-run differential",
     "schedules are those the Go scheduler produced", {"evaluations": 1000, "distinct": 500, "helper_calls": 10000, "with_nested_editor": 50, "own_process": 100, "same_keys": 50},
     schedule=True, watchdog=120)
spec("C22", (150000, 1500000), W6 + ORG,
     "a case is one command running random exported buffer operations; each result and the buffer are compared with the list model, screens after repaints with the emulator; distinct = different (operation, text)",
     "list-model monitor over API calls plus screen oracle",
     "operation sequences are sampled", {"evaluations": 100000, "distinct": 10000, "screens": 10000, "undone": 5000, "other_quotes": 5000}, [WIDTHS, VT])
spec("C23", (1000000, 10000000), [("plain", "plain", 1)],
     "a case composes one colour sequence by constructors, appending or chaining and compares the bytes written with the codes, in order, also with a writer that fails; distinct = different code lists",
     "differential oracle against a direct rendering of the codes",
     "all single codes and pairs occur; longer lists are sampled", {"evaluations": 100000, "distinct": 20000, "failing_writer": 10000})
spec("C24", (90000, 900000), W5,
     "a case is one session with one of five kinds of writer; at every wait the bytes delivered so far, the buffered byte count and the cursor visibility are checked; distinct = different (writer kind, bytes)",
     "delivery monitor at every key wait",
     "every wait of every generated session is judged",
     {"evaluations": 200000, "distinct": 10000, "nested_waits": 5000, "top_level_keys": 100000, "writer_kind_0": 500, "writer_kind_1": 500, "writer_kind_2": 500, "writer_kind_3": 500, "writer_kind_4": 500})
spec("C17", (240000, 2400000), W5,
     "a case is one line with quoted and delimited words and a spying candidate source; evaluations compare line, cursor, words asked for, undo, listing and screen with a reference completion; distinct = different (word, candidates matched, result)",
     "reference completion at every press plus screen oracle; listings on a real pseudo terminal",
     "lines and candidate lists are sampled", {"evaluations": 30000, "distinct": 5000, "single": 5000, "extended": 5000, "kept": 5000, "undone": 5000, "listed": 500, "many_candidates": 500},
     ["candidates whose case variants have the same byte length; the cursor not right behind a delimiter", "go-box prints the listing"])
spec("C18", (16000, 100000), [("plain", "plain", 1)],
     "a case is one scratch directory tree (case variants, spaces, symlinks to anything, fifos, empty directories) with up to 12 typed paths; evaluations compare the candidates with the directory read independently, and the completed line with the reference completion; distinct = different (path, candidates)",
     "differential oracle against an independent directory reading in a scratch tree",
     "trees and paths are sampled; runs as root, so unreadable means missing or not a directory",
     {"evaluations": 100000, "distinct": 10000, "candidates_0": 5000, "candidates_1": 5000, "candidates_2": 2000, "candidates_4": 1000, "only_directory": 2000, "single": 1000, "extended": 1000, "large_directories": 100, "huge_directories": 5})
spec("C14", (120000, 1200000), [("plain", "plain", 1)],
     "a case is one stream of pressed keys encoded into chunks of runes (NULs and surrogate pairs mixed in) and decoded key by key and in batches, with raw mode refused and with every read failing in turn; evaluations compare keys, raw-mode calls and errors; distinct = different keys and (fault point, keys before it)",
     "conservation and lifecycle monitor on a scripted rune source, every read fault enumerated per stream",
     "for every generated stream every read fault is enumerated; streams are sampled",
     {"evaluations": 200000, "distinct": 2000, "keys": 20000, "key_batches": 10000, "read_faults": 20000, "pair_in_two_chunks": 200, "scripted_lines": 1000},
     ["no NUL directly behind ESC in one chunk; surrogates come in pairs"], level="fault_enumeration")
spec("C19", (400, 4000), [("plain", "plain", 1)],
     "a case is one process running the editor on a pseudo terminal with one of the two back ends while the harness types text at once, in pieces split anywhere, escape sequences, lines ahead and long pastes and changes the window size; evaluations compare each line and each key delivered with the same keys fed directly, the terminal mode before and after, and the goroutines still running at the end; distinct = different lines, modes and sizes",
     "differential run on a real pseudo terminal with mode and key-delivery monitors",
     "both back ends on Linux; keys that terminals send as one sequence are written at once; a failure counts only if the case fails again",
     {"hangups": 5, "without_terminal": 10, "left_running": 40, "evaluations": 1000, "distinct": 800, "keys_default": 5000, "keys_tty10": 5000, "lines_default": 200, "lines_tty10": 200, "pieces": 200, "resizes": 40},
     ["Linux pseudo terminals deliver what is written while the reader is in raw mode unchanged"], timing=True, watchdog=200)
spec("C25", (120000, 1200000), [("plain", "plain", 1)],
     "a case asks the bundled colouring for every character of several random texts and, in every fourth case, edits such text on the emulated screen; evaluations compare the colour of a character with one computed from the counts of quotes and percent signs before it; distinct = different (text, position)",
     "reference colouring asked directly and through the cells of a terminal emulator",
     "texts over the characters the colouring distinguishes are sampled",
     {"evaluations": 500000, "distinct": 100000, "colour_36;49;1": 10000, "colour_35;49;1": 10000, "colour_33;22;49": 5000, "colour_37;22;41": 5000, "colour_39;49;1": 10000, "screen_cells": 100000},
     [VT])
spec("C26", (100000, 1000000), W5,
     "a case is one script of keys played twice, key by key and with groups of keys called by commands of the application (which also read keys themselves), ended by a command with a random result; evaluations compare text, cursor and row at every group end, context, hook and outcome; distinct = different (text, cursor, row)",
     "twin-run differential with a monitor of context, delivery and outcome",
     "scripts are sampled", {"evaluations": 200000, "distinct": 20000, "called": 50000, "read_keys": 10000, "result_1": 2000, "result_2": 2000, "result_3": 2000},
     [VT])
spec("C27", (90000, 900000), W5,
     "a case is two to four inputs read by one editor, each ended in one of ten ways (Enter, Ctrl-C, Ctrl-D, terminal errors, a panicking command, a waiting joiner); every input is repeated on a new editor with the same settings; evaluations compare text, error, hook calls and every byte of output; distinct = different (text, output)",
     "used-against-new differential over the complete output",
     "inputs are sampled", {"evaluations": 60000, "distinct": 20000, "used_again": 30000, "after_fault_getkey": 2000, "after_fault_open": 1000, "after_fault_size": 1000})
