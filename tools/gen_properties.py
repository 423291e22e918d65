#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
S = "bglib/protocol/session.py"
FB = "bglib/protocol/fibs.py"

prop("S01", "Every server line reaches every subscriber exactly once, in order, intact",
 "Whatever way TCP segments or delays the server's byte stream, each CRLF-terminated line (and each login prompt that starts a message) is delivered to every registered subscriber exactly once, in stream order, byte-for-byte the line without its CRLF, with nothing split, merged, dropped or altered. Text left unterminated when the server ends the stream is delivered once as the last message. Concurrent sessions never receive each other's lines.",
 ["schedules", "fault_sequences", "inputs"],
 "every server script, every segmentation/delay/EINTR pattern of its bytes, every interleaving of the reader with caller threads, 1-3 sessions and 1-3 subscribers each",
 "the session tests need a live server and do not run here; segmentation and thread interleaving are not something a sample test chooses",
 [S, FB], [("message reader loop and CRLF/prompt framing", S + " Session._listener"), ("fan-out to subscribers", S + " Session._dispatch")],
 ["subscriber callbacks (handler name = message kind, argument = text)"],
 [("subscribers", "registered receivers, in order", S + " Session.subscribers")])

prop("S02", "Message kinds follow the login/MOTD/run protocol phase, per session",
 "Each message is announced under a kind whose published pattern matches its text in the session's current protocol phase (or the phase's default kind when none matches), where the phase goes from login to message-of-the-day at the line '3', to normal running at the line '4', and back to login at the goodbye line. The kind depends only on that session's own stream: never on what other sessions receive, on timing, or on which kinds were seen before. A message matching exactly one kind's pattern always gets that kind.",
 ["histories", "schedules", "inputs"],
 "every sequence of server messages over several logins, several sessions interleaved line by line, for every message kind of the protocol",
 "the one existing classifier test feeds a handful of lines to one fresh classifier; the claim ranges over all message kinds, all histories (the matcher reorders itself after each message) and interleaved sessions sharing a pattern cache",
 [FB, S], [("phase automaton", FB + " State.next_state"), ("pattern tables and most-recently-used matching order", FB + " RunState/LoginState/MOTDState, State.candidates")],
 ["subscriber callbacks", "CookieMonster().make_cookie(line)"],
 [("state", "current protocol phase", FB + " CookieMonster.state"), ("last_match", "MRU order of kinds", FB + " State.last_match")])

prop("S03", "Subscribing and unsubscribing take effect exactly at their call",
 "A subscriber receives exactly the messages dispatched between its registration and its removal: all of those whose dispatch starts after registration returns and ends before removal is invoked, none more than once, and none after removal returned or before registration was invoked (a subscriber registered while already registered is outside this claim). This holds when registrations and removals come from other threads in the middle of traffic and when they are made from inside a callback, and such changes never make another subscriber miss or repeat a message. When removal returns in another thread, no callback of the removed subscriber is still running.",
 ["schedules", "histories"],
 "every interleaving of register/unregister calls from caller threads and from callbacks with incoming messages",
 "needs registration changes placed at every point of a dispatch in progress; no test does that even once",
 [S], [("lock shared by dispatch, register, unregister", S + " Transport._lock"), ("dispatch loop", S + " Session._dispatch")],
 ["subscriber callbacks", "Session.register/unregister call and return"])

prop("S04", "Lines sent by several threads reach the server whole and in order",
 "The bytes the server receives are the concatenation of whole sent lines, each followed by one CRLF and with telnet escape bytes doubled, never interleaved with one another even when the kernel accepts only part of a write at a time. Lines of one thread keep their order, a line whose send returned before another's send began comes first, and every line whose send returned is received once as long as the connection lives. A failing send raises to its caller and leaves the session usable by others (they get through or get an error, they do not hang).",
 ["schedules", "fault_sequences"],
 "1-4 sending threads (including sends made from callbacks), every preemption point, short writes of every size, connection reset mid-line",
 "atomicity of concurrent sends only fails under particular interleavings with partial writes, which ordinary tests cannot produce",
 [S], [("send path under the session lock", S + " Transport.send_line"), ("IAC doubling", "telnetlib.Telnet.write")],
 ["bytes arriving at the peer socket", "return or exception of send_line"])

prop("S05", "After close() returns nothing more is delivered and the reader ends",
 "Once close() has returned to a caller thread, no subscriber callback is running or ever starts again and the session reports itself inactive; a close() made inside a callback stops delivery after the current message. Once open() has returned, closing is safe at any moment, any number of times, and from several threads. After close() on an opened session, the background reader finishes and the session's 'terminated' event becomes set within a bounded number of steps after the closed socket wakes the reader or the peer ends.",
 ["schedules", "crash_points"],
 "close() placed at every instant of connection, receiving, dispatching and end-of-stream handling, from callers or callbacks, with 1-2 closers",
 "needs close() to land in every window of the reader's loop; no runnable test opens a session at all",
 [S], [("termination flag checked in dispatch", S + " Session._dispatch"), ("close under lock", S + " Transport.close"), ("reader loop exit", S + " Session._listener")],
 ["callbacks", "is_active()", "terminated event", "reader thread liveness"])

prop("S06", "Critical sections exclude each other and are always released",
 "Callbacks of one session never overlap one another, and operations sharing one lock (session operations, subscriber operations, and any function wrapped by the library's locking decorator) never overlap, keep their arguments and results, and can be re-entered by the thread already inside. Whatever way a protected section ends (return, exception from a callback, failed send, thread exit) its lock is released, so no other thread ever blocks forever on it.",
 ["schedules", "fault_sequences"],
 "every interleaving of 2-5 caller threads and the reader, with callbacks and protected sections that raise, re-enter the session, or exit their thread",
 "mutual exclusion and absence of leaked locks are properties of all schedules and all exit paths; tests exercise none",
 [S], [("locking decorator", S + " synchronized_with"), ("session-wide re-entrant lock", S + " Transport._lock"), ("subscriber condition", S + " Subscriber._lock")],
 ["entry/exit of wrapped functions and callbacks", "progress of every caller thread"])

prop("S07", "Connection loss is reported once, after received lines; failed opens are clean",
 "When the server ends the connection every subscriber is told exactly once, after every line received before it; a connection error is likewise reported exactly once with the original error, and never both; afterwards nothing more is delivered and the reader ends. When open() fails it raises the error to the caller, the session stays inactive with no reader running, and a later open() on the same session succeeds and delivers normally.",
 ["fault_sequences", "schedules"],
 "end-of-stream, reset, timeout or unreachable errors at every byte offset and instant, refused or unresolvable connects followed by retries",
 "requires faults at every byte offset of a stream; nothing in the tests injects any",
 [S], [("exception to notification mapping", S + " Session._listener"), ("activation only after connect", S + " Transport.open")],
 ["subscriber EOFError/socket_error callbacks", "is_active()", "reader thread liveness"])

prop("P01", "The canned-session server plays its whole script to the client, in order",
 "The playback server sends its connected client exactly the bytes of the script file, in order, once, even when the kernel accepts only part of each write or the client reads slowly. If the client disconnects or disk or network errors occur, what was sent is a prefix of the script. In every case the listening socket and the script file are closed when it ends.",
 ["fault_sequences", "schedules"],
 "every script, short writes of every size, slow readers, early disconnects, read errors, client connecting at any time",
 "short writes and disconnects do not occur in tests; the server has no test at all",
 ["bglib/protocol/server.py"], [("send loop", "bglib/protocol/server.py serve_forever"), ("cleanup", "bglib/protocol/server.py try/finally")],
 ["bytes received by the client socket", "open descriptors after exit"])

prop("F01", "The fuzz driver isolates, times out and reports each trial and leaks nothing",
 "For each requested trial the driver runs one randomly generated document in its own child process: a child still busy after three seconds is reported with its document and killed, a child that finishes earlier (successfully or by reporting its own failure) is never reported as timed out and never killed, and no other process is touched. Every report reaches the output exactly once, whether that is a terminal, a file or a pipe. The driver itself survives hanging, crashing and failing children and failed forks, makes exactly the requested number of attempts, and when it ends no descriptor is left open and no finished child is left unreaped.",
 ["fault_sequences", "schedules"],
 "every mix of succeeding, failing, crashing, slow and hanging children, fork failures, and orderings of child exit against the parent's wait",
 "the driver forks, sleeps and kills, so no unit test runs it; its guarantees are about faults in children and the OS",
 ["bglib/doc/fuzzing.py"], [("fork/pipe/select/kill protocol", "bglib/doc/fuzzing.py fuzz_it"), ("generate/format/verify", "bglib/doc/fuzzing.py Gene")],
 ["syscalls made (pipe, fork, select, kill, wait, close)", "text printed by parent and children", "elapsed time per trial"])

prop("B01", "Bearoff database reads return the exact record or an error, never a fragment",
 "Reading record n of an open bearoff database returns exactly the n-th fixed-size record of the file, however few bytes each underlying read returns. When the record is missing or cut short (truncated or torn file) the read raises an index error, and a disk error reaches the caller; partial or misaligned data is never returned. A failed read does not disturb later reads, and readers of the same file in other threads do not affect each other.",
 ["fault_sequences", "schedules"],
 "every sequence of record reads with short reads of every size, disk errors, truncation at every byte, several readers in several threads",
 "real files in tests never return short reads, fail or shrink while being read; the reader has no test",
 ["bglib/encoding/bearoff/__init__.py", "bglib/encoding/bearoff/trice.py", "bglib/encoding/bearoff/nori.py", "bglib/encoding/bearoff/gnubgdb.py"],
 [("record read loop", "bglib/encoding/bearoff/__init__.py DBReader.rawread"), ("record decoding", "bglib/encoding/bearoff/trice.py DBRreader.dump")],
 ["rawread()/dump() results and exceptions"])

prop("C01", "Loading a style sheet yields all of its rules or an error, and frees the file",
 "Loading a style sheet returns every rule of the file, in file order, each with its own selectors, declarations and line number, regardless of how the file's bytes are chunked by reads and of other loads running concurrently. If the file cannot be opened or a read fails the error reaches the caller and no partial style sheet is returned; loading a torn file yields exactly the rules of the bytes present. In every case the file is closed when loading ends.",
 ["fault_sequences", "schedules", "inputs"],
 "every style sheet of the supported subset, read chunkings, open/read errors at every offset, torn files, 1-3 concurrent loads",
 "tests load a few fixed sheets from a healthy disk, sequentially, and never look at the file handle",
 ["bglib/image/css.py", "bglib/image/base.py"], [("line reader and rule parser", "bglib/image/css.py load / CSSParser"), ("rule list", "bglib/image/css.py Binder; bglib/image/base.py ElementTree.css")],
 ["returned rule list", "exceptions", "open file handles"])

prop("R01", "Match records are validated and chopped by their own bytes, in order",
 "A match record is accepted exactly when its lines come in order: first the match length (or an empty line), then games, each with its header, its players' line and moves numbered from one without gaps; an empty line may come anywhere but only a game may follow it, and results may come anywhere. An accepted record's digest is the SHA-1 of exactly the bytes fed so far; a record longer than the limit given is refused, a shorter one is not. Chopping gives the games one by one, each with the match length and all its lines but empty ones, and never a game with a line out of order. All this holds however the file is read, and whatever other records are validated or chopped at the same time, in other threads or in turns. A disk error reaches the caller and is never taken for the end of the record.",
 ["schedules", "fault_sequences", "inputs"],
 "records whole or with lines lost, repeated, swapped or foreign, read chunkings and disk errors at every offset, 1-3 threads validating and chopping, validators fed in turns",
 "tests feed a few recorded matches one after another from a healthy disk (and cannot run without the third-party packages missing here)",
 ["bglib/record/snowietxt.py"], [("line state machine", "bglib/record/snowietxt.py LineValidator / statevalidate"), ("digest and limit", "bglib/record/snowietxt.py Validator"), ("games", "bglib/record/snowietxt.py chop")],
 ["exceptions", "digests", "chopped games"])

prop("D01", "Drawings are independent of each other and of earlier failed drawings",
 "The drawing of a board depends only on the board, size and style sheet: a drawing that fails midway (image or font missing, disk error) reaches the caller as an error and leaves the renderer able to produce, on the next call, exactly what a fresh renderer would. Renderers running in different threads over one shared style sheet each produce what they would alone. Nothing loaded unsuccessfully is ever served from a cache, and a board is never modified by being drawn.",
 ["fault_sequences", "schedules", "histories"],
 "sequences of drawings of different boards with image/font faults at every load, interleaved renderers sharing one style sheet",
 "tests draw once per renderer, sequentially, without failures",
 ["bglib/image/draw.py", "bglib/image/base.py", "bglib/image/css.py", "bglib/image/PIL.py"],
 [("per-draw context reset", "bglib/image/draw.py Draw.draw"), ("resource cache", "bglib/image/PIL.py load_image/load_font"), ("style application", "bglib/image/css.py Binder.apply")],
 ["result of draw()", "exceptions"], [("dc", "drawing context of the draw in progress", "bglib/image/draw.py Draw.dc")])

prop("T01", "A simulated tournament conserves players and lives in every round",
 "After every round, completed or interrupted by a failing random source, each entrant is either alive or dead, never both and never lost; a round pairs the living so that each plays at most one match and a completed round costs exactly floor(n/2) lives, one per match, with an odd player sitting out. A player is dead exactly when their lives are used up, ratings never change, the caller's entry table is not altered, and the favourite of a pair wins with the probability its rating gives, and who meets whom is drawn anew for every round. Repeating rounds ends with exactly one player alive.",
 ["histories", "fault_sequences"],
 "every sequence of rounds under every behaviour of the random source (uniform, extreme and adversarial values and permutations), 1-40 entrants with mixed lives and ratings",
 "tests play a few rounds with the real random source and few entrants; the claim is over all random outcomes and long histories",
 ["bglib/stat/tourney.py", "bglib/stat/rating.py"], [("pairing and elimination", "bglib/stat/tourney.py Tourney.round"), ("win probability", "bglib/stat/rating.py winning_chance")],
 ["alive/dead tables and lives after each round"], [("alive/dead", "entrants still in / knocked out", "bglib/stat/tourney.py Tourney")])

prop("W01", "Documents formatted concurrently or piecemeal come out as if alone and whole",
 "The HTML produced for a wiki, markdown, preformatted or reStructuredText-in-wiki document is the same whether its lines are fed in one call or in several, and whether or not other documents are being parsed and rendered by other threads at the same time. No text, attribute, list nesting or open markup of one document ever shows up in another. A timestamp macro shows the clock's time at which its line was parsed.",
 ["schedules", "histories", "inputs"],
 "2-4 documents in as many threads preempted anywhere, every line-granular chunking, every mix of the supported markup, arbitrary clock including jumps",
 "the existing tests format one document at a time in one call on one thread with the real clock",
 ["bglib/doc/bgwiki.py", "bglib/doc/doctree.py", "bglib/doc/macro.py", "bglib/doc/mkdn.py", "bglib/doc/rst.py"],
 [("per-document editor and tree", "bglib/doc/bgwiki.py Formatter"), ("tree editing", "bglib/doc/doctree.py Editor"), ("macro dispatch", "bglib/doc/macro.py dispatch")],
 ["make_html() of each document"])

prop("W02", "Rendering is repeatable and survives analysis-database failures",
 "Rendering a parsed document, or extracting its references, any number of times and after any failed attempt gives the same HTML each time. When the position-analysis database fails or times out during parsing, the error reaches the caller, everything parsed before the failing line is still rendered, further text can still be parsed, and the output remains balanced markup. The same analysis answer always renders to the same table, whatever failed before.",
 ["fault_sequences", "histories"],
 "every placement of database errors, delays and retries among parse and render calls, repeated renders and reference extraction",
 "tests render once with a database that never fails",
 ["bglib/doc/bgwiki.py", "bglib/doc/macro.py", "bglib/doc/doctree.py"],
 [("render visitor", "bglib/doc/doctree.py HtmlWriter"), ("wrapped formatter close", "bglib/doc/bgwiki.py WrappingFormatterElement.close"), ("analysis macro", "bglib/doc/macro.py Analysis")],
 ["make_html()", "exceptions from parse()"])

prop("M01", "A frozen board never changes and an editor's edits stay its own",
 "A frozen board keeps every field it had when frozen, whatever is done afterwards by any thread to the editor it came from, to editors made from it, or to other boards; attempts to modify it are refused. An editor made from a board or from another editor starts equal to it and from then on neither sees the other's edits. Every snapshot taken while its editor's owner is between operations equals the state produced by exactly the operations completed so far.",
 ["schedules", "histories"],
 "every interleaving of 2-4 threads editing their own editors derived from shared boards, freezing, copying and comparing",
 "tests check single assignments in one thread; isolation is over all histories of derived editors and snapshots and all interleavings",
 ["bglib/model/board.py", "bglib/model/boardeditor.py"],
 [("immutable board", "bglib/model/board.py Board"), ("state copy on construction and freeze", "bglib/model/boardeditor.py BoardEditor.__init__/freeze")],
 ["public fields of boards and editors"])

prop("M02", "A double or resignation between two players is settled exactly once",
 "In a game between two players whose requests may be repeated, delayed or arrive out of turn, every request not legal in the current state is refused and changes nothing (a double, for one, needs an ongoing game, the doubler's turn before rolling, access to the cube, no Crawford game, no pending or earlier double, and a cube that still matters to the score). Dropping a double ends the game and gives exactly the cube's value to the doubler, accepting a resignation gives exactly the offered multiple of the cube to the other player, each only once per game; rejecting a resignation, taking a double and offering change no score. Turn and inner turn always name one of the two players as those requests demand.",
 ["histories", "fault_sequences"],
 "every sequence of double/take/drop/resign/accept/reject/roll/pass-dice requests from two clients with duplication, delay and reordering, all scores and cube levels",
 "tests exercise each action once on a fresh board; the claim is about repeated, late and reordered requests over whole games",
 ["bglib/model/boardeditor.py", "bglib/model/board.py"],
 [("guards", "bglib/model/board.py is_leagal_to_double / is_cube_take_or_pass / is_leagal_to_resign / is_to_accept_resign"), ("actions", "bglib/model/boardeditor.py double/take/drop/offer_resign/accept_resign/reject_resign/pickupdice")],
 ["public board fields after each request", "refusals"])

prop("K01", "A match written down is picked up where it was left",
 "A server that saves its matches as gnubg IDs (or in the database form) at any moment and is restarted at any moment continues exactly the match it saved: every field of the board read back equals the board saved, whoever is to decide and whatever is on offer, whatever the editor it is read into held before, whatever other matches are saved and read at the same time by other threads, and however often saving or reading was broken off before. Position IDs always have 14 and match IDs 12 characters, and matches that differ have different IDs. A saved ID that was cut off is refused promptly, by an exception, and the board it was to be read into is left as it was. A database form cannot be altered.",
 ["schedules", "fault_sequences", "histories"],
 "1-3 matches of any length and score, with positions from the start to the last chequer, saved after every action; crashes at any line of saving or reading, lost and torn records, editors used before, spectators reading any saved moment (money games are played from 0-0: IDs of money games with points scored are refused by design)",
 "tests encode and decode a few fixed IDs one after another (and cannot run without the third-party package missing here)",
 ["bglib/encoding/gnubgid.py", "bglib/encoding/dbbyte.py"], [("bit packing", "bglib/encoding/gnubgid.py seq2bytes / MatchProxy"), ("restoring", "bglib/encoding/gnubgid.py decode; bglib/encoding/dbbyte.py tomodel")],
 ["IDs", "public fields of restored boards", "exceptions"])

prop("M03", "Chequers are conserved and undo restores through any play history",
 "Through any history of partial moves, hits, entries, bear-offs, undos and turn changes by two players, each side's chequers on board, bar and off always add up to fifteen, no point holds a negative count, and each partial move changes exactly the chequers it names. Undoing the partial moves of a turn in reverse order, at any depth, restores position and remaining dice exactly. Asking which moves are possible never changes the board, the move in progress or the remaining dice, even when the question fails, and a thread that only reads the board meanwhile sees no trace of it. A partial move whose die is not there is refused and changes nothing; a turn taken over by another factory goes on with exactly the moves made and the dice left.",
 ["histories", "schedules"],
 "every dice stream and sequence of play/undo/query requests over whole games, two players on two boards, interleaved queries",
 "tests check single moves on fixed positions; conservation and undo are over whole histories with interleaved failed queries",
 ["bglib/model/boardeditor.py", "bglib/model/move.py", "bglib/model/board.py"],
 [("partial move", "bglib/model/boardeditor.py make_partial_move"), ("turn bookkeeping", "bglib/model/move.py MoveFactory.append/add, AvailableToPlay"), ("move guessing", "bglib/model/move.py MoveFactory.guess_*")],
 ["public position, rolled, available dice and move list"])

prop("E01", "Clients following a match over the network converge on the server's board",
 "Two players and any watchers connected to one server through sessions end up, after each board message they process, with exactly the position, dice, turn, cube and score the server holds, each seen from its own side; the two players' boards are mirror images of each other. This holds however messages are delayed and segmented relative to one another and across disconnections and reconnections at arbitrary points. A board message never leaves a client's board mixed from two different server states.",
 ["schedules", "fault_sequences", "histories"],
 "whole simulated matches with random dice and moves, arbitrary per-client delay, segmentation, connection loss and reconnection",
 "no test runs client and server together; agreement is over all delivery timings and reconnection points",
 [S, FB, "bglib/encoding/FIBS.py", "bglib/model/boardeditor.py"],
 [("board message decoding", "bglib/encoding/FIBS.py decode"), ("delivery", S + " Session._listener/_dispatch"), ("mirror", "bglib/model/boardeditor.py flip")],
 ["decoded boards at each client"])

# --- properties the family cannot address (pure functions, or code that cannot run here)
def na(id, title, st, over, q, why, files, mech):
    prop(id, title, st, over, q, why, files, mech)
na("N01", "gnubg position and match IDs round-trip every board",
   "Encoding any legal position and match state into gnubg IDs and decoding it gives back the same state, and distinct states get distinct IDs.",
   ["inputs"], "all positions and match states", "tests sample fixed IDs only", ["bglib/encoding/gnubgid.py"], [("bit packing", "bglib/encoding/gnubgid.py")])
na("N02", "XGID strings round-trip every board",
   "Encoding any board as XGID and decoding it gives back the same board.",
   ["inputs"], "all boards", "tests sample fixed strings only", ["bglib/encoding/xgid.py"], [("codec", "bglib/encoding/xgid.py")])
na("N03", "Database byte keys round-trip every position",
   "Converting any position to its database byte form and back gives the same position.",
   ["inputs"], "all positions", "tests sample fixed positions only", ["bglib/encoding/dbbyte.py"], [("codec", "bglib/encoding/dbbyte.py")])
na("N04", "Bearoff indexing is a bijection onto database records",
   "Each bearoff position maps to exactly one record number within the database and back.",
   ["inputs"], "all bearoff positions", "no test computes all indices", ["bglib/encoding/bearoff/gnubgdb.py", "bglib/encoding/bearoff/trice.py", "bglib/encoding/bearoff/nori.py"], [("indexing", "bglib/encoding/bearoff")])
na("N05", "Wiki output is well-formed and escapes user text for every input",
   "For every input text the generated HTML is well-formed and contains user text only in escaped form.",
   ["inputs"], "all input texts", "tests sample markup snippets", ["bglib/doc/bgwiki.py", "bglib/doc/html.py", "bglib/doc/doctree.py"], [("escaping", "bglib/doc/html.py escape")])
na("N06", "Style rules apply to exactly the elements their selectors describe",
   "A rule's declarations apply to an element if and only if its selector path matches, with later rules overriding earlier ones.",
   ["inputs"], "all element trees and style sheets", "tests sample a few rules", ["bglib/image/css.py", "bglib/image/base.py"], [("matching", "bglib/image/css.py Rule.is_match")])
na("N07", "The picture shows exactly the board's chequers, dice, cube and score",
   "Every chequer, die, cube and score of the board appears once at its place in the drawing.",
   ["inputs"], "all boards", "tests compare a few trees", ["bglib/image/base.py"], [("element tree", "bglib/image/base.py ElementTree")])
na("N08", "Accepted moves are exactly the legal backgammon moves",
   "A requested move is accepted if and only if the rules of backgammon allow it with the dice rolled.",
   ["inputs"], "all positions, dice and requested moves", "tests sample positions", ["bglib/model/move.py", "bglib/model/board.py"], [("guessing and legality", "bglib/model/move.py MoveFactory")])
na("N09", "Rating formulas are consistent",
   "Winning and upset chances are complementary, monotone in rating difference and match length, and handicaps equalise expectations.",
   ["inputs"], "all ratings and lengths", "tests sample values", ["bglib/stat/rating.py", "bglib/stat/tourney.py"], [("formulas", "bglib/stat/rating.py")])
na("N10", "Every line of a match record is recognised as what it is",
   "A line of a match record is taken for a match length, game, player, move or result line if and only if it has the form of one.",
   ["inputs"], "all lines", "the module cannot be imported here without its missing packages", ["bglib/record/snowietxt.py"], [("line patterns", "bglib/record/snowietxt.py LineValidator")])
na("N11", "The graphical and network players keep the displayed board in step",
   "The board shown by the graphical players always equals the board of the game being played.",
   ["schedules"], "all user and network event orders", "no test", ["bglib/protocol/networkplayer.py", "bglib/image/wxpython.py", "bglib/image/wx2.py"], [("event handlers", "bglib/protocol/networkplayer.py")])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
