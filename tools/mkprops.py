#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file is easy to review and edit)."""
import json, os
UT='src/unix/terminal.rs'; US='src/unix/screen.rs'; BU='src/buffer.rs'; TE='src/terminal.rs'; SC='src/screen.rs'; MA='src/macros.rs'; PU='src/priv_util.rs'; SG='src/signal.rs'; SQ='src/sequence.rs'; UT2='src/util.rs'
NOTE='The existing tests never open a terminal: no test calls a read, write, prepare, restore, resize or signal path, so they sample nothing of this space.'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Accepted output reaches the device exactly once and in order",
 "Everything a successful Terminal write operation accepted is delivered to the terminal device exactly once and in the order it was accepted, however the device takes it (short writes, interrupted writes, slow writes, output larger than the internal buffer). A failed write or flush never causes bytes the device already took to be sent again, and output still queued after a failure is delivered, ahead of newer output, by the next successful flush. A failed operation contributes at most a prefix of its own text.",
 ["fault_sequences","histories","schedules"],"every sequence of text operations of any size, from any number of threads, and every sequence of short writes, EINTR, EAGAIN, EIO, zero-length writes and stalls by the device",
 NOTE+" Short and failed writes cannot be provoked by a unit test on a real tty.",[UT,TE],
 [("write buffering and flushing (write_bytes, flush, write_data)",UT),("flush when the write lock is released",UT)],["bytes received by the device"],[("output buffer","bytes accepted but not yet taken by the device",UT)])
p("C02","Output of one write operation or write lock is never interleaved",
 "The output of a single Terminal method call, of one term_write!/term_writeln! invocation, and of everything done under one write guard reaches the device as one contiguous block, never mixed with output of other threads. The order of blocks is consistent with real time: a call that returned before another began comes first.",
 ["schedules","histories"],"every interleaving of any number of threads using methods, macros, guards and try-locks on a shared Terminal",
 NOTE+" No test uses more than one thread.",[UT,TE,MA,PU],
 [("write mutex held across each method, macro and guard",UT),("term_write! borrows one guard for all of its elements",MA)],["bytes received by the device"])
p("C03","Terminal text and cursor operations appear exactly as requested",
 "Every character written through a Terminal is displayed with exactly the foreground, background and style requested by the operations that precede it in lock order; after write_styled no attribute remains active, and attribute calls never change other attributes than the one they name. Cursor movements, line and screen clearing move or clear exactly what was asked for, for every argument value. This holds over any history of attribute calls from any threads, including ones in which earlier operations failed.",
 ["histories","schedules","fault_sequences","configurations"],"every history of attribute, text, cursor and clear operations from several threads, with and without transient device errors, on terminals with different capabilities",
 NOTE+" Attribute tracking is history dependent (what has to be reset depends on everything set before).",[UT,TE,MA],
 [("attribute tracking (set_fg, set_bg, set_style, remove_style, clear_attributes, set_attrs)",UT),("parameter expansion for cursor movement",UT)],["display state of the device as interpreted by an emulator"],[("tracked attributes","foreground, background and style the device is believed to have",UT)])
p("C04","After a successful refresh the display equals the screen buffer",
 "When Screen refresh succeeds (explicitly or by dropping the write guard), the terminal displays exactly the contents of the screen buffer: every cell's text, colours and style, including wide and combining characters, and the cursor at the buffer's cursor position (the last cell if that is outside the screen). The buffer contents are those defined by the documented operations: clipped at the end of the screen, wide characters never split, non-printable characters ignored, attributes of one styled write not leaking into the next. This holds over any history of drawing and refreshing, for every screen size.",
 ["histories","inputs","fault_sequences","configurations"],"every history of drawing operations and refreshes, any text (narrow, wide, combining, control, tab), any screen size, with short and interrupted device writes",
 "Four unit tests exercise the in-memory buffer on a handful of strings; none renders anything, so incremental update (which depends on everything drawn before) is not tested at all.",[US,BU,SC],
 [("incremental refresh against a back buffer",US),("cell update rules of the screen buffer",BU),("tracking of the real cursor",US)],["display of an emulated terminal after each refresh"],[("back buffer","what is believed to be on display",BU),("real cursor","where the device cursor is believed to be",US)])
p("C05","A failed refresh is repaired by the next successful one",
 "If refreshing the screen fails at any point because the device reports an error, the failure is reported, and once the device accepts output again the next successful refresh leaves the display equal to the screen buffer. No cell is left stale because an earlier refresh was cut short.",
 ["fault_sequences","crash_points","histories"],"every point of the output stream at which the device may fail, every error, any number of consecutive failures",
 NOTE,[US,BU,UT],[("back buffer bookkeeping during refresh",US),("queued output kept across a failed flush",UT)],["display of an emulated terminal after the first refresh that succeeds"])
p("C06","A reported resize is followed by a correct full repaint",
 "When the window size changes while the terminal is prepared, reading events eventually reports a resize carrying a size the device had at or after the latest change, the Screen then has that size with the overlapping part of its contents preserved, and the next refresh makes the display equal to the buffer, whatever the device did to its contents when it was resized. Any sequence of sizes, at any moment relative to drawing, refreshing and reading, is handled without a panic.",
 ["schedules","histories","inputs"],"every sequence of window sizes and every placement of a size change relative to drawing, refreshing and event reading in several threads",
 NOTE,[US,BU,UT],[("resize event handling in the screen read guard",US),("buffer resize and full invalidation",BU),("SIGWINCH to resize-event translation",UT)],["size and display after each resize event"])
p("C07","Concurrent screen operations take effect atomically",
 "Drawing operations issued on a shared Screen by several threads behave as if executed one at a time in some order consistent with real time; everything done under one screen write guard, including its refreshes, is exclusive; and a refresh displays a state that exists between two operations, never half of one.",
 ["schedules","histories"],"every interleaving of drawing operations, cursor and size queries, write-guard sessions and refreshes in several threads",
 NOTE+" No test uses more than one thread.",[US,BU,SC,PU],[("screen data mutex",US),("write guard holding both the terminal write lock and the data lock",US)],["display after refresh, values returned by cursor()"])
p("C08","No input byte is lost, duplicated or reordered",
 "The bytes arriving from the terminal are reported exactly once and in order by read_event and read_raw, in any mix, from any threads; UTF-8 characters split over arrivals are reassembled, and waiting for events never consumes input. Signals, interrupted or short reads, timeouts and read errors in between lose nothing.",
 ["schedules","inputs","fault_sequences"],"every input byte stream, every way of splitting it into arrivals, every interleaving of readers, signals, EINTR, read errors and timeouts",
 NOTE,[UT,TE],[("input buffer shared by read_event and read_raw",UT),("signal handling before and after waiting",UT)],["values returned by read_event, read_raw, wait_event"],[("input buffer","bytes read from the device and not yet reported",UT)])
p("C09","Arrived key sequences and mouse reports decode to one correct event",
 "A function-key sequence or mouse report whose bytes have all arrived when the read begins is reported as exactly one event with the right key, or the right button, wheel, modifiers and zero-based position, even inside long bursts of input; the longest known sequence wins. Other characters are reported as one key each.",
 ["inputs","schedules","configurations"],"every stream of key sequences, mouse reports and characters, every burst length and arrival pattern, terminals with different key sequences",
 "The sequence map is unit tested on seven strings; no test decodes an event, and none involves more input than fits one read.",[UT,SQ,TE],
 [("longest-match search over prefixes (peek_event)",UT),("mouse report parser",UT),("SequenceMap::find",SQ)],["events returned by read_event"])
p("C10","Malformed input neither panics nor blocks later input",
 "Whatever bytes arrive, reading and waiting never panic, and a malformed sequence costs at most the malformed bytes themselves: invalid UTF-8 is reported as an error without preventing the following input from being read. Reading after a hang-up or at end of input returns rather than looping forever.",
 ["inputs","fault_sequences"],"every byte stream, including invalid UTF-8, truncated or out-of-range mouse reports, flipped bytes, end of file and hang-up at any point",
 NOTE,[UT],[("utf8_prefix and peek_event error handling",UT),("mouse parameter arithmetic",UT)],["values returned by read_event, wait_event, read_raw"])
p("C11","Every handled signal is reported, promptly and only if requested",
 "While the terminal is prepared, every kind of signal asked for that is received is reported by a read at least once after it arrives, resize always being reported as a resize event, without having to wait for other input or a timeout, whichever thread the signal was delivered to and whatever other signals arrive. Signals that were not asked for are never reported, none is reported more often than it was received, and nested prepare and restore calls keep the right set in force.",
 ["schedules","histories","fault_sequences"],"every placement of signals relative to the reader's instructions and system calls, every target thread, every combination and order of signals, nested configurations",
 "Unit tests cover only the SignalSet bit set; no test delivers a signal.",[UT,SG],[("signal handler recording the last signal",UT),("signal checks around waiting and reading",UT),("report set kept in the reader",UT)],["events returned by read_event / wait_event, whether a reader stays blocked"],[("pending signals","signals received and not yet reported",UT)])
p("C12","Timeouts are honoured for every duration",
 "wait_event, read_event and read_raw with a timeout report 'nothing' only after at least that time has elapsed, unless a low-level wake-up produced no event, and return no later than the timeout plus scheduling delay, also when interrupted repeatedly; without a timeout they wait until something arrives. When an event is already available or arrives earlier they return at once. Any Duration value is accepted.",
 ["schedules","inputs","fault_sequences"],"every duration from zero to the maximum, every arrival time, any number of interruptions while waiting",
 NOTE+" Time-dependent behaviour with EINTR cannot be unit tested without controlling the clock.",[UT],[("conversion of the timeout and the select loop",UT)],["simulated time at call and return"])
p("C13","Restore undoes prepare exactly",
 "Restoring the state returned by prepare (in last-in first-out order when nested) leaves the terminal settings, the signal dispositions and the keypad and mouse modes exactly as they were before that prepare, and while prepared the terminal is in the mode the configuration describes. This holds for any initial settings and any configuration, whatever was read, written or signalled in between and in whichever threads.",
 ["histories","configurations","schedules"],"every initial terminal state and signal disposition, every nesting of configurations, any reads, writes and signals in between",
 NOTE,[UT,TE],[("PrepareState captured by prepare and applied by restore",UT)],["termios, signal dispositions and device modes after restore"])
p("C14","A failed prepare or restore leaves as little changed as possible",
 "If preparing the terminal fails part way, terminal settings, signal dispositions and device modes are put back as they were. If restoring, or leaving screen mode, hits an error in one step, every other step is still carried out and the error is reported; a queued mode change is sent once the device accepts output again.",
 ["fault_sequences","crash_points"],"every step of prepare, restore, Screen creation and Screen drop at which a system call may fail, with every error",
 NOTE,[UT,US],[("error paths of prepare_with_lock and restore_with_lock",UT),("Screen construction and Drop",US)],["termios, signal dispositions and device modes after the failed call"])
p("C15","Ending a Screen or Terminal always gives the terminal back",
 "When a Screen is dropped - normally, while a panic unwinds, or after some thread panicked holding any of its locks - the terminal is back on its normal screen with the original settings, signal handlers, keypad and mouse modes and a visible cursor; dropping a Terminal makes the cursor visible and delivers queued output. Dropping never panics or aborts the process.",
 ["crash_points","schedules","histories"],"every point at which a thread may panic (holding no lock, the read lock, the write lock or both), every drop order",
 NOTE,[US,UT],[("Drop for Screen",US),("Drop for Terminal",UT)],["device state and process fate after drop"])
p("C16","Threads that follow the documented lock order never deadlock",
 "Any number of threads that use a shared Terminal or Screen, acquiring the read lock before the write lock when they hold both, always make progress: no operation blocks forever unless it is a read without timeout for which no input arrives. A thread waiting for input never delays a writer, and a thread holding the write lock or stalled in output never prevents input from being read.",
 ["schedules","histories"],"every interleaving of every mix of operations obeying the documented order, including signals, resizes, stalls and blocked readers",
 NOTE,[UT,US,TE,SC],[("separate reader and writer mutexes",UT),("lock order reader, writer, screen data",US)],["whether every thread finishes"])
p("C17","A continued program gets its prepared terminal mode back",
 "When the process receives SIGCONT while the terminal is prepared, the next read re-applies the most recent configuration - terminal settings, keypad and mouse modes, signal handlers - whatever another program did to the terminal meanwhile, and a later restore still returns to the state before prepare. After restore, SIGCONT changes nothing.",
 ["schedules","histories","crash_points"],"every moment of suspension and continuation relative to reads and writes, every foreign change to the terminal mode, nested configurations",
 NOTE,[UT],[("resume information kept in the reader",UT),("SIGCONT handling in read",UT)],["termios and device modes after the read following SIGCONT, and after restore"])
p("C18","Locks are exclusive, try-locks never block, poisoned locks stay usable",
 "While one thread holds a read (write) guard no other thread obtains that lock, for Terminal and Screen alike; try_lock calls return at once, with a guard whenever nobody else uses the lock and 'would block' whenever somebody holds it. After a thread panicked holding a guard, lock calls report poisoning and hand out a guard that works.",
 ["schedules","crash_points"],"every interleaving of lock, try-lock, method calls and panics in several threads",
 NOTE,[UT,US,PU,TE,SC],[("map_lock_result, map_try_lock_result, map2_lock_result, map2_try_lock_result",PU)],["results of lock and try_lock calls"])
p("C19","term_write! applies its elements in order and stops at the first error",
 "term_write! and term_writeln! on a Terminal, Screen or either write guard do exactly what the documented equivalent calls would do, in order and under one lock. On a Terminal the result is the first error and no element after the failing one is sent.",
 ["fault_sequences","schedules","inputs"],"every kind of element, every point at which the device may fail, any concurrent threads",
 "The doc test for the macro is compile-only; nothing runs it.",[MA,TE,SC],[("Chain for io::Result and ()",MA),("borrow_term_write_guard",TE)],["output and result of the macro"])
p("C20","Device handles are owned exactly",
 "A Terminal opened from a path closes its device handle exactly once - when dropped, also after panics and failures, or when construction fails - and never uses it afterwards; standard input, output and error are never closed. Read errors, write errors and hang-ups do not leak or close handles early.",
 ["fault_sequences","crash_points","histories"],"every failure point in opening, using and dropping terminals, any number of terminals opened and closed",
 NOTE,[UT,'src/unix/ext.rs'],[("owned_fd flag and Drop for Terminal",UT),("close on failed construction",UT)],["open and close calls"])
p("C21","SequenceMap behaves as a sorted map with prefix search",
 "For any sequence of insertions, entry operations and removals, a SequenceMap holds exactly the last value per key in sorted order, and find classifies every string correctly as not found, incomplete, undecided or found.",
 ["histories","inputs"],"every operation sequence and key set","Unit tests use one small key set.",[SQ],[("binary search over a sorted vector",SQ)])
p("C22","SignalSet obeys set algebra",
 "Union, intersection, difference, symmetric difference, complement, insertion, removal and membership of SignalSet agree with mathematical sets over the six signals.",
 ["inputs"],"all pairs of sets","Unit tests check a few sets.",[SG],[("bit operations masked to the valid signals",SG)])
p("C23","Character helpers and key conversion are consistent",
 "ctrl and unctrl_* are inverse on control characters, prefixes yields every non-empty prefix in order, cursor and size helpers stay within bounds, and every character converts to exactly one Key as documented.",
 ["inputs"],"every character, string, cursor and size","Unit tests check the control characters and three strings.",[UT2,TE],[("pure functions",UT2)])
p("C24","The Windows console backend gives the same guarantees",
 "On Windows, events, screen rendering, prepare/restore and locking provide the same guarantees as on Unix.",
 ["schedules","inputs","fault_sequences"],"all of the above on the Windows console","The Windows code is not even compiled by the tests on this platform.",['src/windows/terminal.rs','src/windows/screen.rs'],[("Windows console API backend",'src/windows/terminal.rs')])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
