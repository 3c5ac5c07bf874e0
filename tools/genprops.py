#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of every property lives here)."""
import json, os

P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        }})

p("C01", "Editing keys behave as operations on a plain list of characters",
  "For every sequence of editing keys (typed characters, character/word/line motion, character/word/line deletion, transposition, quoted insert, kill), in every terminal width and terminal-capability setting, the line's text and the cursor position after each key, and the text finally returned by ReadLine, equal those obtained by applying the same operations to a plain list of characters with a cursor. An editing key at a boundary (start of line, end of line, empty line) leaves the text unchanged, and Ctrl-D deletes when the line has text and ends input only on an empty line. A word is a maximal run of non-space characters (a tab is a space); only Ctrl-W additionally treats spaces inside a quoted region as part of the word, where the quotes are the characters of the package variable Delimiters as it is at that moment.",
  ["inputs", "histories", "configurations"],
  "all key sequences over the default key map and the editing commands, all texts (ASCII, wide, control, tab, emoji sequences), all terminal widths and capability environments",
  "Existing tests type at most six keys in one configuration (auto.TestDummyIn, TestKeyFuncBackSpace); the interaction of cursor, view and composite characters over long key histories is unsampled.",
  ["gommand.go", "buffer.go", "slice.go", "main.go", "keymap.go"],
  [("editing commands", "gommand.go"), ("sliceInsert/sliceDelete", "slice.go"), ("CurrentWordTop", "buffer.go")],
  ["text, cursor and view start seen through the buffer handed to commands, at every key wait", "ReadLine's result"],
  [("Buffer/Cursor", "cells of the line and insertion index", "buffer.go, main.go")])

p("C02", "Undo walks back through exactly the edits that were made",
  "Each undo restores the line's text to what it was immediately before the most recent edit not yet undone, whatever mixture of typing, deleting, killing, transposing, pasting, replacing, history recall and search produced it (a replacement is one edit; a recall is a clear followed by an insert). Undoing as many times as there were edits leads back to the empty line, undo on an exhausted stack changes nothing, and new edits made after an undo are themselves undoable.",
  ["inputs", "histories"],
  "all interleavings of edits and undos, all texts including characters that combine into one editing unit",
  "No test executes undo at all.",
  ["gommand.go", "buffer.go", "isearch.go", "history.go", "repaints.go"],
  [("undo records pushed by every edit", "buffer.go, gommand.go, isearch.go"), ("joinUndo", "buffer.go"), ("cmdUndo", "gommand.go")],
  ["text and cursor at every key wait"],
  [("undoes", "stack of inverse edits", "buffer.go")])

p("C03", "Text that enters the line comes out unchanged",
  "Whatever valid Unicode text enters the line - typed key by key, given as the default text, recalled from history, pasted, inserted by a command, or supplied by completion or prediction - is returned with the same code points in the same order: nothing is lost, added, replaced or reordered, in any terminal-capability setting, including tabs, control characters, joiners, variation selectors, modifiers and sequences of them at any position (also at the very end of the input). Splitting any valid text into editing units and writing the units back reproduces it.",
  ["inputs", "configurations"],
  "all valid UTF-8 texts and all ways of entering them, in all terminal-capability environments",
  "Unit tests check four emoji strings and one control string; corruption only shows for particular code points at particular positions in particular environments.",
  ["internal/moji/moji.go", "internal/moji/codepoint.go", "internal/moji/width.go", "internal/moji/termcheck.go", "gommand.go", "buffer.go", "main.go"],
  [("StringToMoji / WriteTo", "internal/moji/moji.go"), ("pending joiner in SelfInserter", "gommand.go")],
  ["ReadLine's result", "StringToMoji(...).WriteTo"])

p("C04", "Computed widths equal the columns the characters occupy",
  "For every text, the reported display width of each editing unit equals the number of columns the cursor advances when the unit is printed, the width and count reported for a string equal the sum and number of its units, and a tab always extends to the next multiple of four columns of the line. Width overrides take effect for the given character only and are forgotten on reset.",
  ["inputs", "configurations"],
  "every code point and every sequence of code points, in every terminal-capability environment and with every width override",
  "Tests check the widths of five strings in one environment.",
  ["internal/moji/codepoint.go", "internal/moji/moji.go", "internal/moji/width.go", "internal/moji/runewidth.go", "internal/moji/termcheck.go", "buffer.go"],
  [("Width/PrintTo of each unit kind", "internal/moji/codepoint.go, internal/moji/moji.go"), ("MojiWidthAndCountInString", "internal/moji/moji.go"), ("widthCache", "internal/moji/width.go")],
  ["cursor advance on a terminal emulator", "GetStringWidth, MojiCountInString, Moji.Width, Buffer.GetWidthBetween"])

p("C05", "The screen shows the line and the cursor where they are",
  "Whenever the editor waits for a key on a terminal wide enough for the prompt and a few characters, the terminal row holding the cursor shows exactly the prompt followed by a contiguous part of the line that contains the cursor position, rendered character by character, with nothing stale to its right, and the terminal cursor stands at the column where the next typed character will appear. The text is never painted past the right edge, and editing never disturbs other rows. When the view moves to the right because of typing or moving right, the text before the cursor stays in view. A line finished with Enter stays on its row as it was shown (without a prediction).",
  ["inputs", "histories", "configurations"],
  "all key histories, texts, prompts and terminal widths of at least prompt width + 12 columns",
  "No test looks at the painted screen; stale or misplaced cells depend on scroll position, character widths and the previous paint.",
  ["repaints.go", "buffer.go", "gommand.go", "history.go", "isearch.go"],
  [("repaint, getView2, puts, GotoHead, eraseline", "repaints.go, buffer.go"), ("ViewStart maintenance", "gommand.go, buffer.go")],
  ["terminal emulator fed with the bytes written, at every key wait"],
  [("ViewStart", "first visible cell", "buffer.go"), ("topColumn", "column after the prompt", "buffer.go"), ("termWidth", "terminal width", "buffer.go")])

p("C06", "Editing starts right after the prompt, whatever the prompt contains",
  "For every prompt made of printable text (narrow and wide characters), line breaks, backspaces, colour sequences, other escape sequences that leave the cursor where it is, and title sequences, the editable area starts at the column where a terminal's cursor stands after printing the prompt (or at column 0 of a fresh row when the prompt leaves too little room). After a full repaint it starts again right behind the prompt as then printed, also when the prompt function prints something else each time it is called, with every row of the prompt standing above it (repainting on a new line also keeps the rows from before). With no prompt function the prompt is '> ' on a fresh row.",
  ["inputs", "configurations"],
  "all prompts over the described alphabet and all terminal widths",
  "One test covers one backspace prompt and one two-line prompt at the level of the stripping helper.",
  ["main.go", "repaints.go"],
  [("cutEscapeSequenceAndOldLine, callPromptWriter", "main.go"), ("RepaintAll, RepaintLastLine", "repaints.go")],
  ["terminal emulator: position of the text relative to the prompt"])

p("C07", "No control character of the content reaches the terminal raw",
  "Whatever the line, the history, the prediction or the search string contains, the bytes sent to the terminal contain no control character (C0, DEL or C1) other than those of the editor's own escape sequences: control characters of the content are always shown in a visible form (^X or <XX>), so content can never move the cursor, change colours or otherwise drive the terminal.",
  ["inputs", "configurations"],
  "all contents, including control characters next to joiners, variation selectors and modifiers, in all terminal-capability environments",
  "Tests print one backspace and one DEL character; injection needs particular neighbouring code points.",
  ["internal/moji/codepoint.go", "internal/moji/moji.go", "buffer.go", "repaints.go", "isearch.go"],
  [("PrintTo of each unit kind", "internal/moji/codepoint.go, internal/moji/moji.go")],
  ["output tokenizer that accepts only the editor's own sequences"])

p("C08", "A prediction shown or accepted always belongs to the current line",
  "With prediction enabled, the text shown dimmed after the cursor is either nothing or what the predictor returns for the current line (cut at the right edge), and it is shown only when the cursor is at the end of a non-empty line; after typing a character there it is shown as far as there is room; accepting it (forward-char at the end of the line) appends exactly what the predictor returns for the line as it is at that moment. The default predictor completes to the most recent history entry that has the line as prefix; the prediction never becomes part of the returned text unless accepted and is gone from the row of the line once the line is finished, whichever way it ends; the prediction colour applies to the predicted text only. With prediction disabled (no prediction colour) nothing is predicted: neither shown nor accepted.",
  ["inputs", "histories", "configurations"],
  "all histories, key sequences and predictors",
  "No test enables prediction.",
  ["buffer.go", "repaints.go", "gommand.go", "main.go"],
  [("updateSuffix, Suffix, predictByHistory", "buffer.go"), ("cmdForwardChar", "gommand.go"), ("repaintWithoutUpdateSuffix", "repaints.go")],
  ["terminal emulator, text at key waits, ReadLine's result"],
  [("suffix", "predicted text", "buffer.go")])

p("C09", "History recall moves through the entries and keeps unfinished edits",
  "Previous/next history move one entry at a time through the history followed by the line being typed (previous wraps from the oldest entry to the line being typed only when cycling is enabled), showing each entry as last left: an entry or the fresh line that was edited during this input reappears as edited (also when edited back to its original), all others as stored. Moving never changes the history container itself, and the container returns the entries in the order they were added.",
  ["inputs", "histories", "configurations"],
  "all history contents and all interleavings of recall and editing keys, with and without cycling",
  "No test uses history.",
  ["history.go", "simplehistory/main.go"],
  [("saveModifiedHistory, getHistory, cmdPreviousHistory, cmdNextHistory", "history.go"), ("Container", "simplehistory/main.go")],
  ["text at key waits, ReadLine's result, container contents"],
  [("historyPointer", "entry being shown", "buffer.go"), ("modifiedHistory", "edited copies", "buffer.go")])

p("C10", "Incremental search finds the newest matching entry and cancels cleanly",
  "During incremental search the row shows the search string and the found entry; after each change of the search string the found entry is the most recent history entry containing it (ignoring case) or empty if there is none. Ctrl-R then steps to older differing matches (wrapping around) and Ctrl-S to newer ones; Enter replaces the whole line by the found entry with the cursor at its end as one undoable edit; Escape, Ctrl-C and Ctrl-G leave text and cursor as they were before the search.",
  ["inputs", "histories"],
  "all histories, prior lines and search key sequences",
  "No test enters the search mode.",
  ["isearch.go"],
  [("cmdISearchBackward", "isearch.go")],
  ["terminal emulator row during search, text and cursor after it"])

p("C11", "Cut text lands in the clipboard whole and is pasted back verbatim",
  "Kill-to-end, kill-to-start and kill-word put exactly the text they remove into the system clipboard, and paste inserts exactly the clipboard's text at the cursor (without trailing line ends), leaving the cursor behind it; pasting right after a cut at the same place restores the line. Paste-with-quotes encloses text that contains a space and does not already start with a quote, doubling inner quotes; if the clipboard is unavailable, cutting still removes the text and pasting changes nothing.",
  ["inputs", "histories", "fault_sequences"],
  "all lines, cut/paste sequences, clipboard contents and clipboard failures",
  "No test touches the clipboard commands.",
  ["gommand.go"],
  [("cmdKillLine, cmdUnixWordRubout, cmdUnixLineDiscard, cmdYank, cmdYankWithQuote", "gommand.go")],
  ["recorded calls of a stand-in clipboard program, text at key waits"])

p("C12", "Resizing at any moment is safe and repaints at the new width",
  "Terminal-resize notifications arriving at any moment - while the session is being set up, between or during keys, inside nested key waits, or while it is finishing - cause no data race, crash, deadlock or change of the text returned. Once a notification has been delivered while the editor waits for a key, the row has been repainted for the new width without further key presses and editing continues correctly at that width; a width notified while the session is being set up is used as well; nothing is painted once ReadLine has returned.",
  ["schedules", "inputs"],
  "all interleavings of resize notifications with the editing session, all widths including ones too narrow for the prompt",
  "No test delivers a resize; races need a concurrent notification at a particular moment.",
  ["main.go", "repaints.go", "buffer.go", "tty8.go", "tty10/main.go"],
  [("editor mutex around commands and the resize handler", "main.go"), ("RepaintLastLine, ResetViewStart", "repaints.go, buffer.go")],
  ["Go race detector, terminal emulator after a delivered resize, ReadLine's result, writer activity after return"],
  [("mutex", "serialises commands and resize repaints", "main.go")])

p("C13", "Every session ends cleanly whichever way it ends",
  "For every way a session can end - accepted, interrupted, end-of-input, or an error of the terminal at any call - the terminal is closed exactly once per successful open, the cursor is visible again, all output is flushed, the line-feed hook runs exactly once with the outcome for finished lines (and not on errors), and the caller gets the documented outcome: text and nil on Enter, empty text with the interrupt error on Ctrl-C, empty text with io.EOF on Ctrl-D, the terminal's own error otherwise. The same editor can be used again afterwards, output failures do not lose the typed text, and a panic of a user command or of another function the application supplied (prompt, history, colouring, predictor, line-feed hook) propagates with the terminal closed, the output flushed and the cursor visible, without leaving the editor locked.",
  ["fault_sequences", "crash_points", "inputs"],
  "every fault point (open, size, k-th key, k-th write, prompt, command panic) in every session script",
  "Tests only ever finish with Enter on a terminal that never fails.",
  ["main.go", "buffer.go", "gommand.go", "isearch.go", "auto/main.go"],
  [("deferred close / cursor restore", "main.go"), ("result mapping", "main.go")],
  ["call log of an instrumented terminal and writer, returned values"])

p("C14", "Key decoding loses, reorders and invents nothing and restores the tty mode",
  "Decoding a terminal's rune stream into keys conserves the input: the keys returned, concatenated in order, are exactly the runes read (NULs dropped, surrogate pairs joined into one character), a key that starts with ESC takes the runes already available with it, every other key is a single character. Raw mode is entered before reading and left exactly once per call on success and on every error, errors are reported to the caller, and the scripted key source delivers every scripted key once in order and then Enter.",
  ["inputs", "schedules", "fault_sequences"],
  "all rune streams, all arrival chunkings, an error at any call",
  "Key decoding is not tested; the scripted source is exercised with one script.",
  ["getkey.go", "tty8.go", "auto/main.go"],
  [("GetKey, GetKeys, GetRawKey", "getkey.go"), ("Pilot", "auto/main.go")],
  ["event log of an instrumented terminal (raw/clean/read) against the returned keys"])

p("C15", "The most specific key binding decides what a key does",
  "A key runs the command bound to it in the editor's own map if there is one, otherwise the one in the global map, otherwise it inserts itself; binding nil removes the binding again, binding one key never affects another key or another editor, and the default map binds each key to its documented command. Binding by names (key name and function name, case-insensitive, '-' and '_' alike) has the same effect as binding the key to that command; unknown names are reported as errors and change nothing.",
  ["inputs", "histories"],
  "all sequences of bind/unbind operations on the global and local maps, all key and function names in all spellings",
  "No test binds a key.",
  ["keymap.go", "main.go", "nameutils/main.go", "keys/naming.go", "keys/code.go", "gommand.go"],
  [("LookupCommand", "main.go"), ("BindKey/Lookup", "keymap.go"), ("BindKeyFunc, BindKeySymbol, GetFunc", "nameutils/main.go"), ("NameToCode, NormalizeName", "keys/naming.go")],
  ["which recorded command runs for a key"])

p("C16", "Syntax colouring sees the exact line and paints what it answered",
  "In every painting pass the colouring is initialised once and then given exactly the code points of the whole line in order, with the cursor marker inserted exactly once at the cursor position; every visible character is painted in the colour the colouring returned for it and the default colour it returned is in force afterwards. Colouring changes neither the text shown nor the text returned.",
  ["inputs", "histories", "configurations"],
  "all lines (including tabs, control characters and emoji sequences), key histories and colourings",
  "No test uses a colouring.",
  ["repaints.go", "buffer.go", "color.go", "coloring/vimbatch.go"],
  [("refreshColor", "repaints.go"), ("puts", "buffer.go"), ("VimBatch", "coloring/vimbatch.go")],
  ["call log of a monitored colouring, attributes of the emulated screen cells"])

p("C17", "Completion only extends the word at the cursor, to what candidates share",
  "Completion replaces only the word before the cursor: text before the word and after the cursor is untouched, and it only acts on candidates that start with the typed word (ignoring case). A single candidate is inserted whole (quoted when it contains a space or delimiter) followed by the postfix; several candidates extend the word to their longest common prefix (spelled as in the shortest of them), never shortening it and never cutting a character; with nothing to extend the text stays as it is and, if requested, the candidates that start with the word, and no others, are listed. One undo takes the completion back.",
  ["inputs", "configurations"],
  "all lines, cursor positions and candidate sets (mixed case, quotes, delimiters, wide characters)",
  "The completion package has no tests.",
  ["completion/main.go", "repaints.go"],
  [("split, complete, commonPrefix, removeUnmatches", "completion/main.go"), ("ReplaceAndRepaint", "repaints.go")],
  ["text and cursor before/after the completion key, fields given to the candidate source"])

p("C18", "File candidates are exactly the matching directory entries",
  "For every typed path the file-name candidates are exactly the entries of the directory part whose names start with the base part ignoring case, written as the typed directory part plus the name, directories and symlinks with a trailing separator; when the only candidate is a directory its entries are offered as well. Listing always terminates and never fails on unreadable, missing or empty directories or an empty word.",
  ["inputs", "configurations"],
  "all directory trees and typed paths",
  "The completion package has no tests.",
  ["completion/file.go"],
  [("File.List", "completion/file.go")],
  ["returned full and base names against an independent directory walk"])

p("C19", "On a real terminal both back ends deliver the keys and restore the mode",
  "Run on a real (pseudo) terminal with either terminal back end, the bytes typed - including multi-byte characters split at any point, long pastes and escape sequences - yield the same text as the same keys fed directly, lines typed ahead are delivered to the following inputs of the same editor, and after each input the terminal's mode settings are exactly those from before it and what the back end started for it has ended. A window-size change is picked up during the session. Without a terminal, or when the terminal goes away, reading a line ends with an error.",
  ["inputs", "schedules"],
  "all key byte streams and chunkings, both back ends",
  "Tests never open a terminal.",
  ["tty8.go", "tty10/main.go", "tty10/main_unix.go", "getkey.go"],
  [("_Tty", "tty8.go"), ("Tty", "tty10/main.go")],
  ["pseudo-terminal: termios before/after, bytes sent, text returned"])

p("C20", "No input, size or setting crashes or hangs the editor",
  "For every sequence of keys (including invalid UTF-8, unknown escape sequences, empty keys, very long lines), every terminal size (including zero and far too small), every default text and cursor, prompt, history and every bundled command bound to a key, processing a key terminates without panic and leaves the cursor within the line and the first visible character at or before the cursor.",
  ["inputs", "configurations", "histories"],
  "all inputs, sizes and settings",
  "Tests run on a fixed 80-column terminal with tiny valid inputs.",
  ["main.go", "buffer.go", "gommand.go", "repaints.go", "history.go", "isearch.go", "internal/moji/codepoint.go"],
  [("ResetViewStart, getView2", "buffer.go"), ("all commands", "gommand.go, history.go, isearch.go")],
  ["panics, hangs and index invariants at every key wait"])

p("C21", "Independent editors do not disturb each other",
  "Editors used at the same time - in different goroutines with their own terminals, or one started from a command of another - each return and paint what they would alone (with whatever histories, settings and keys the others have), without data races, and the width helpers can be called concurrently with running editors.",
  ["schedules", "inputs"],
  "all interleavings of sessions of independent editors",
  "No test runs two editors.",
  ["main.go", "internal/moji/width.go", "buffer.go", "keymap.go"],
  [("per-editor mutex", "main.go"), ("shared width cache", "internal/moji/width.go")],
  ["Go race detector, per-session results against a solo run"])

p("C22", "The buffer operations offered to commands obey the list model",
  "For user-defined commands, every sequence of the exported buffer operations (insert, delete, replace-before-cursor, insert-at-cursor, substring, width between, current word with the quotes of Delimiters, repaint) with in-range arguments has the effect and result of the same operation on a plain list of characters: it reports the number inserted, the width removed, the text and the word start correctly, out-of-range deletion changes nothing, each modification is undoable, and the screen matches after a repaint.",
  ["programs", "inputs"],
  "all call sequences of the exported buffer operations on all texts",
  "No test calls the buffer API.",
  ["buffer.go", "repaints.go", "slice.go"],
  [("InsertString, Delete, ReplaceAndRepaint, SubString, GetWidthBetween, CurrentWord", "buffer.go, repaints.go")],
  ["return values and text after each call"])

p("C23", "Colour sequences are emitted exactly as composed",
  "A colour sequence composed of up to six codes (0-255) by the constructors, by appending codes or by chaining sequences is written to the terminal as one SGR sequence listing exactly those codes in order, with the number of bytes written reported; the empty sequence writes nothing. An error of the writer at any point is reported.",
  ["inputs"],
  "all code lists and all ways of composing them",
  "One test appends two codes and chains once, and never writes a sequence.",
  ["color.go"],
  [("SGR1-4, Add, Chain, WriteTo", "color.go")],
  ["bytes written"])

p("C24", "Nothing is left unsent while the editor waits for a key",
  "Whenever the editor waits for a key - at top level, in incremental search or in quoted insert - everything painted so far has been delivered to the writer and the cursor is visible; while a key is being processed the cursor is hidden before and shown after the repaint. This holds whatever writer or buffered writer the caller supplied.",
  ["histories", "configurations"],
  "all key histories and all writer set-ups",
  "No test observes the order of output and key reads.",
  ["main.go", "buffer.go", "gommand.go", "isearch.go"],
  [("GetKey flushes", "buffer.go"), ("cursor on/off around commands", "main.go"), ("Init's writer set-up", "main.go")],
  ["bytes that reached the writer at each key wait"])

p("C25", "The bundled colouring marks variables, quotes and separators correctly",
  "The bundled colouring (coloring.VimBatch) decides the colour of each character from the characters up to it alone: an ideographic space is shown on red; otherwise percent signs and everything between an odd and the next percent sign are cyan, otherwise double quotes and everything between an odd and the next double quote are magenta, otherwise an ampersand is dark yellow and every other character has the default foreground colour. The cursor marker changes nothing, each pass starts afresh, the colour left in force is the reset colour, and the line is painted in these colours on the screen.",
  ["inputs", "histories"],
  "all texts over the characters distinguished, all cursor positions, all sequences of passes on one colouring",
  "No test uses the bundled colouring.",
  ["coloring/vimbatch.go", "repaints.go", "buffer.go"],
  [("Init and Next of VimBatch", "coloring/vimbatch.go"), ("refreshColor, puts", "repaints.go, buffer.go")],
  ["colours returned", "attributes of the cells of the emulated screen"])

p("C26", "Commands of the application get their context and decide the outcome",
  "A command bound by the application is called with the context given to ReadLine (whatever its state, also when it is already cancelled) and the buffer of that editor. Calling the bundled commands from it has the same effect on text, cursor and row as pressing their keys one after another; keys it reads through the buffer are the next ones of the terminal, delivered after everything painted so far was sent. Its result decides how input goes on: CONTINUE reads the next key, ENTER, INTR and ABORT end the input without reading further keys, call the line-feed hook once with that result and return the line as the command left it with nil, the interrupt error and io.EOF respectively.",
  ["programs", "histories", "inputs"],
  "all commands composed of bundled commands, key reads and insertions, all results",
  "No test binds a command of its own.",
  ["main.go", "keymap.go", "gommand.go", "buffer.go"],
  [("command loop of ReadLine", "main.go"), ("LookupCommand, AnonymousCommand", "main.go, keymap.go"), ("Buffer.GetKey", "buffer.go")],
  ["context and buffer seen by the command", "text, cursor and screen at key waits", "ReadLine's result and hook calls"])

p("C27", "An editor that was used before behaves like a new one",
  "However earlier inputs of an editor went and ended (accepted, interrupted, end of input, errors of the terminal, a panicking command, a character still waiting for its joined counterpart), its next input with given settings (default, cursor, history, width) sends the same bytes to the terminal and returns the same text and error as on a new editor with these settings: no text, undo record, edited history entry, search, view position or colouring state carries over. Reading a line does not alter the settings the application made (default text, history, cycling, prediction colours, colouring, output, terminal).",
  ["histories", "inputs"],
  "all sequences of inputs of one editor and all endings of the earlier ones",
  "No test reads two lines with one editor.",
  ["main.go", "buffer.go", "history.go", "isearch.go"],
  [("per-input buffer set up by ReadLine", "main.go"), ("modified history entries", "history.go")],
  ["all bytes written, results and hook calls of both editors"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
