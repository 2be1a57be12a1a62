#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (what is claimed = what specs.py has runs for)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.dont_write_bytecode = True
import specs
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title)); assert statement.count('. ') <= 3, id
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['include/cli/' + f for f in files], mechanism=[dict(name=a, where='include/cli/' + b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
D = 'detail/'
prop('C01', 'A command line is split into words exactly by the quoting grammar',
 'Every line is split into words by one grammar: blanks, tabs and newlines separate words, single or double quotes delimit a word, a backslash escapes the next character (and disappears only in front of a quote or a backslash), an unquoted ! is a word of its own, empty words are dropped. Arguments quoted with either quote (escaping the quote and the backslash) come out verbatim.',
 ['inputs'], 'every line up to the bounded length, every byte value', 'The tests try a few dozen lines; the guarantee is for every byte string, including unterminated quotes, trailing backslashes and bytes above 127.',
 [D+'split.h'], [('word splitting state machine', D+'split.h')], ['the words a free-form command receives'])
prop('C02', 'Integer parameters are converted exactly or the command is rejected',
 'A parameter of an integer type is accepted iff its text is an optional sign (minus only for signed types) followed by decimal digits whose value the type can represent, and then the handler gets exactly that value. Any other text, of any length, is rejected as a wrong parameter, never truncated, wrapped or crashed on.',
 ['inputs'], 'every text up to the bounded length and the neighbourhood of both ends of every integer type', 'Overflow detection must hold for every digit string of ten integer types; the tests sample a few values per type.',
 [D+'fromstring.h'], [('digit accumulation with overflow test', D+'fromstring.h'), ('sign handling', D+'fromstring.h')])
prop('C03', 'Bool, char, string, floating point and custom parameters convert exactly',
 'A bool parameter accepts exactly true, false and the integers 0 and 1; a char exactly one character; a string is passed unchanged. A floating point parameter is accepted iff its whole text, without blanks, is a number the C library reads without a range error, and has that value. A parameter of a user type is accepted iff its stream extraction succeeds and consumes all the text but trailing blanks.',
 ['inputs'], 'every text up to the bounded length, plus arbitrary bytes put in typical number texts', 'Trailing garbage, embedded blanks, NUL bytes, range errors can occur at any position of any text; the tests sample a handful.',
 [D+'fromstring.h'], [('per type conversions', D+'fromstring.h')])
prop('C04', 'A line runs exactly the first command matching name, arity and types, once',
 'A line runs exactly one command, once: the built-in one if it matches, otherwise the first inserted command of the current menu whose name equals the first word, whose number of parameters is the number of remaining words and whose parameters all convert; it gets the converted words in order (all of them as they are, for a free-form command). If there is none, nothing runs and the wrong command handler (or the default message) gets the original line once; an empty line does nothing.',
 ['inputs', 'configurations'], 'every pair of command kinds and names, every argument up to the bounded length; every short line', 'Overload resolution interacts with names that are prefixes of each other, conversions that fail halfway, and built-ins; the tests fix one small menu.',
 ['cli.h'], [('command matching', 'cli.h'), ('parameter conversion chain', 'cli.h'), ('line entry point', 'cli.h')], ['handler calls', 'session output'])
prop('C05', 'Navigation among menus follows paths, names and the parent shortcut exactly',
 'A line made of menu names, optionally ended by a command, is followed from the current menu through submenus and (by its name or ..) the parent menu: ending on a menu makes it the current one, ending on a command runs it and leaves the current menu unchanged. A line that does not lead anywhere changes nothing and is reported as wrong. The prompt is always the one of the current menu.',
 ['inputs', 'histories', 'configurations'], 'every line of a bounded number of words from every menu of a three level tree, with arbitrary (possibly equal) one character names, and sequences of lines', 'Backtracking between submenus and parents with equal names, and sequences of moves, are far more than the fixed paths in the tests.',
 ['cli.h'], [('recursive command scan', 'cli.h'), ('parent lookup', 'cli.h'), ('prompt', 'cli.h')], ['prompt text', 'handler calls'])
prop('C06', 'Disabled or removed commands and menus neither run nor are reachable',
 'After any sequence of enabling, disabling and removing commands and menus through their handles, a line behaves as if disabled and removed entries did not exist: they do not run, cannot be entered or passed through, and hide no other entry of the same name; enabling restores the entry unless it was removed. Handles stay harmless after the entry, the menu or the whole cli is gone, and a handler may disable or remove any entry (its own included) while it runs.',
 ['histories', 'inputs'], 'every history of a bounded number of handle operations and moves over a menu tree, followed by any line; every late use of a handle', 'The tests do one enable/disable/remove each; lifetime errors only show in particular orders, such as a handler removing itself.',
 ['cli.h'], [('handles holding weak references', 'cli.h'), ('enabled checks', 'cli.h')], ['handler calls', 'prompt text'])
prop('C07', 'Completions are exactly the enabled continuations of the typed text',
 'The completions of a text (leading blanks ignored) are exactly: the enabled built-in and current menu commands and menus starting with it, the parent menu name likewise, and, when the text starts with the name of an enabled submenu or of the parent (or ..), in place of that name, that word and a blank followed by each completion of the rest inside that menu. They come sorted, without duplicates, and nothing disabled is ever proposed.',
 ['inputs', 'configurations', 'histories'], 'every text up to the bounded length, over menu trees with symbolic names, from every menu, with any subset of entries disabled', 'The tests sample a few texts on one tree.',
 ['cli.h'], [('recursive completion', 'cli.h'), ('sort and unique', 'cli.h')])
prop('C08', 'Tab extends the line only by what all completions agree on',
 'Tab with one completion replaces the line with it and a blank; with several it replaces the line with their longest common prefix when that is longer than the line, otherwise it lists all of them once and redraws prompt and line unchanged; with none it does nothing. The line that is later entered is always the one shown on the screen.',
 ['inputs', 'configurations'], 'every typed text up to the bounded length and cursor position, over command sets with symbolic names', 'The tests check the completion list, not the key, and the common prefix on a handful of lists.',
 [D+'commandprocessor.h', D+'commonprefix.h', D+'terminal.h'], [('tab handling', D+'commandprocessor.h'), ('longest common prefix', D+'commonprefix.h')], ['terminal screen', 'executed line'])
prop('C09', 'Browsing the history with up and down recalls exactly the past lines',
 'Up recalls, one per press, the lines entered (most recent first, equal consecutive lines once, at most the configured number), stopping at the oldest; down comes back towards the line being typed, and one further gives an empty line. The line being typed counts as one of the configured number while browsing. Lines edited while browsing are kept while browsing in place of the recalled ones, and entering a line while browsing adds just that line to the history. Nothing of this fails whatever the history size, zero included.',
 ['histories', 'inputs', 'configurations'], 'every sequence of a bounded number of enter/up/down operations with arbitrary lines, for history sizes 0 to 3', 'A state machine with eviction and temporary lines; the tests follow a few fixed walks.',
 [D+'history.h', 'cli.h'], [('history buffer and browsing mode', D+'history.h')])
prop('C10', 'The history listing and ! agree: an id runs exactly the command shown for it',
 'The history command lists the kept lines oldest first with ids that grow by one and never change while the line is kept. A ! with an id runs exactly the line kept with that id (the ! line itself takes the place of one line, the oldest when the history is full), as if it had been typed, and an id that is not listed (or a line that would run itself again) gives an error and runs nothing.',
 ['histories', 'inputs', 'configurations'], 'every bounded sequence of lines and ! commands with any id, for history sizes 0 to 3', 'Ids shift with eviction and with the ! line itself; the tests run one or two cases.',
 [D+'history.h', 'cli.h'], [('id/index conversion', D+'history.h'), ('replay of a history entry', 'cli.h')], ['history listing', 'handler calls'])
prop('C11', 'At exit the session adds exactly its own commands to the stored history',
 'When a session exits, the history storage receives exactly the lines entered in that session (the most recent ones that fit its history size, oldest first, equal consecutive lines once, lines edited while browsing as edited), after those already stored, and a new session starts with what is stored. Lines loaded from previous sessions are never stored again.',
 ['histories', 'configurations'], 'every bounded sequence of lines, ups and ! commands over two consecutive sessions sharing a storage', 'The count of own commands is kept by a counter that every kind of operation must maintain; the tests use one short session.',
 [D+'history.h', 'cli.h'], [('command counter', D+'history.h'), ('store at exit', 'cli.h')], ['contents of the storage'])
prop('C12', 'History storages keep exactly the most recent commands, in order',
 'A history storage returns exactly the most recent stored commands (lines without newline), oldest first, up to its size, whatever the sequence of store and clear operations. The file storage keeps them across objects on the same file: a new storage object of the same size on that file returns what an uninterrupted one would.',
 ['histories', 'inputs', 'configurations'], 'every bounded sequence of store (batches of arbitrary lines), clear and reopen operations for sizes 0 to 3', 'The tests store a few fixed batches.',
 ['volatilehistorystorage.h', 'filehistorystorage.h'], [('trimming to size', 'volatilehistorystorage.h'), ('file rewrite', 'filehistorystorage.h')])
prop('C13', 'The edited line, the cursor and the screen stay in step for every key sequence',
 'Typing single-byte characters, deleting, moving the cursor, home/end, recalling lines and clearing the screen (which leaves the cursor at the end) edit the line as an ideal line editor would: after every key the screen shows exactly the prompt and the edited line with the cursor at the right column, and return submits exactly that line. Colours never change what is shown.',
 ['inputs', 'histories'], 'every sequence of a bounded number of keys of every kind with arbitrary characters, colours on and off', 'The tests feed a few sequences and never interpret the screen output.',
 [D+'terminal.h', D+'commandprocessor.h', 'colorprofile.h'], [('line editing', D+'terminal.h')], ['terminal screen', 'submitted line'])
prop('C14', 'The local keyboard reports every key, survives signals and restores the terminal',
 'Every byte sequence read from the local terminal is reported, through the scheduler, as the keys it encodes, in order and each once, however the bytes arrive and whatever signals interrupt the waits; unknown escape sequences produce no text; the end of the input is reported once as end of file. Terminal settings changed while reading are always restored when input is deactivated or the keyboard destroyed, and no other setting is touched; while deactivated at most the key being waited for is taken. Destruction at any time never hangs, races or leaks a descriptor, and nothing is delivered after it.',
 ['inputs', 'schedules', 'fault_sequences'], 'every short byte sequence, interleaving of the reading thread with activation, deactivation and destruction, and interrupted system calls', 'Needs a terminal, a second thread, signals and end of input; no test covers it.',
 [D+'linuxkeyboard.h', D+'inputdevice.h'], [('key decoding', D+'linuxkeyboard.h'), ('reader thread', D+'linuxkeyboard.h'), ('terminal settings', D+'linuxkeyboard.h')])
prop('C15', 'Telnet commands are filtered out and answered whatever way the bytes are cut',
 'From the bytes a telnet client sends, exactly the data bytes reach the line editor (a doubled 255 is one data byte); commands, option negotiations and subnegotiations never do, and everything is the same however the stream is cut into packets. Each negotiation request is answered at once with the fixed well formed reply, written to the client unaltered by text processing.',
 ['inputs', 'schedules'], 'every byte stream up to the bounded length and every way to cut it in packets', 'The parser is a state machine over arbitrary bytes and packet boundaries; no test covers it.',
 [D+'genericasioremotecli.h', D+'server.h'], [('telnet command parser', D+'genericasioremotecli.h'), ('negotiation replies', D+'genericasioremotecli.h')], ['keys delivered', 'bytes written to the socket'])
prop('C16', 'Keys sent over telnet edit the line like the same local keys',
 'The data bytes of a telnet session are decoded to keys exactly: printable bytes, carriage return followed by newline or NUL (one return), delete and backspace, arrows, home, end, delete escape sequences, control-D and control-L; unknown escape sequences (up to their final character) produce no key and do not disturb the keys that follow.',
 ['inputs'], 'every sequence of data bytes up to the bounded length', 'No test drives the decoder; sequences can be interrupted at any byte.',
 [D+'genericasioremotecli.h'], [('key decoder state machine', D+'genericasioremotecli.h')], ['keys delivered'])
prop('C17', 'A telnet session starts, exits and dies cleanly whatever the network does',
 'A telnet connection gets the negotiation, the enter actions and the prompt once; all text sent to it has every newline as carriage return plus newline and nothing else changed; exit runs the exit actions once and closes the connection. Whatever the order of incoming data, errors, disconnections and server shutdown, no session is used after it is gone and no exception escapes to the event loop.',
 ['histories', 'fault_sequences', 'inputs'], 'every bounded sequence of connection, data, error and close events over a simulated network library', 'Needs failures at particular points of the socket life; no test opens a connection.',
 [D+'server.h', D+'genericasioremotecli.h'], [('session lifecycle', D+'server.h'), ('telnet session', D+'genericasioremotecli.h')], ['bytes written to the socket', 'actions called'])
prop('C18', 'The loop scheduler runs every posted task once, in order, and stops',
 'Every task posted to the loop scheduler, from any thread or from a running task, runs exactly once, on the thread that runs the scheduler, in the order of posting of each thread, one at a time and never inside the call that posts it, unless the scheduler is stopped before its turn. Stop, from any thread or task, makes a running scheduler return after the task being executed, even when it is waiting, and nothing runs afterwards; an exception out of a task leaves the scheduler usable; nothing is lost, deadlocks or races in any interleaving.',
 ['schedules', 'histories'], 'all interleavings, within a bound on preemptions, of two threads posting and stopping against the running scheduler', 'The tests see whichever interleaving the machine happens to produce.',
 ['loopscheduler.h', 'scheduler.h'], [('queue with mutex and condition variable', 'loopscheduler.h')])
prop('C19', 'The asio scheduler runs posted tasks in order and manages its context',
 'Every task posted to the asio based scheduler runs exactly once inside the event loop, in posting order and never inside the call that posts it; stop ends the loop, even with a keep-alive pending, and an error in one task does not prevent the following ones. A scheduler built on an external context uses that context and leaves it alive; one built without owns its context for exactly its lifetime.',
 ['histories', 'configurations'], 'every bounded sequence of post, run, stop and nested post operations, for owned and external contexts', 'The tests check a few orders with one library version.',
 [D+'genericasioscheduler.h'], [('post to the context', D+'genericasioscheduler.h'), ('work guard', D+'genericasioscheduler.h')])
prop('C20', 'An exception in a handler is reported once and the session goes on',
 'Any exception thrown by a command handler is reported exactly once: a standard one to the exception handler with the session stream, the line and the exception (or its text on the output by default), any other one as a message naming the line. Other commands are not tried, the wrong command handler is not called, and the session stays usable in the same menu.',
 ['inputs', 'configurations', 'histories'], 'every kind of exception from every kind of command, at top level, through a path, or through the history, with and without handlers', 'Exceptions overlap with those used for conversion errors; the tests throw one or two types.',
 ['cli.h'], [('exception handling around the dispatch', 'cli.h')], ['session output', 'handler calls'])
prop('C21', 'Enter and exit actions run once, in order, and nothing is prompted after exit',
 'Starting a session calls the global enter action and then the session one; leaving it (exit command, end of input, closing) calls the session exit action and then the global one, exactly once however many exits arrive. After exit no prompt is written.',
 ['histories', 'configurations'], 'every bounded sequence of lines, exits and prompts with every subset of the actions set, for plain, local-editor and file sessions', 'The tests check one exit; repeated or nested exits are not exercised.',
 ['cli.h', 'clifilesession.h', D+'commandprocessor.h'], [('exit once', 'cli.h'), ('prompt suppression', 'cli.h')], ['actions called', 'session output'])
prop('C22', 'The global output stream writes once to every live session and to no dead one',
 'What is written to the global output stream reaches every existing session exactly once per session, in order, and no session that has been destroyed, whatever the order of creation and destruction and even when sessions share one stream.',
 ['histories', 'inputs'], 'every bounded sequence of session creation, destruction and output of arbitrary text', 'A dangling stream only shows in particular destruction orders; the tests use one session.',
 ['cli.h'], [('stream registration', 'cli.h')], ['session output'])
prop('C23', 'A file session executes every line of its input in order and exits once',
 'A session reading from a stream executes each of its lines in order until an exit command or the end of the input (an unterminated last line included), prompts once for every line it waits for, and exits exactly once.',
 ['inputs', 'histories'], 'every input text up to the bounded length', 'The tests read a few scripts; unterminated lines, empty lines and early exits combine in any way.',
 ['clifilesession.h'], [('read loop', 'clifilesession.h')], ['handler calls', 'session output'])
prop('C24', 'An asynchronous session executes complete lines however the input is cut',
 'A session over an asynchronous input executes each complete line, in order and once, however the bytes arrive, prompting again after each; an incomplete line is never executed, and an error or the end of the input ends the session with one exit.',
 ['inputs', 'schedules', 'fault_sequences'], 'every byte stream up to the bounded length and every way to cut it, ended by an error at any point', 'No test drives it; framing errors only show with particular cuts.',
 [D+'genericcliasyncsession.h'], [('line framing', D+'genericcliasyncsession.h')], ['handler calls', 'session output'])
prop('C25', 'Help lists exactly the usable commands of the current menu, in order',
 'Help lists, in insertion order, exactly the enabled built-in commands, the enabled commands and submenus of the current menu and its enabled parent menu, each once, with its name, the description of its parameters (given or derived from their types) and its description. Disabled or removed entries are not listed.',
 ['configurations', 'histories'], 'every kind of command, any subset of entries disabled or removed, from every menu', 'The tests look for a few substrings.',
 ['cli.h'], [('help output', 'cli.h')], ['session output'])
prop('C26', 'The code of the user runs in the scheduler\'s thread only, one call at a time',
 'The commands, the actions and the output of a local session, and the tasks posted by the application, run only in the thread that runs the scheduler, inside its tasks (the enter action and the first prompt: in the construction of the session), one at a time, whatever the scheduler is, the one of the library or one of the user, whichever thread runs it and however other threads post their tasks; the destruction of a session runs no code of the user.',
 ['schedules', 'histories', 'configurations'], 'every interleaving of the keyboard thread, of the thread running the scheduler and of a thread posting tasks within the preemption bound; typed texts, ends and destructions', 'The tests have no thread at all; a call in the wrong thread needs a particular interleaving to do harm.',
 ['clilocalsession.h', 'loopscheduler.h', D+'inputdevice.h', D+'linuxkeyboard.h', D+'commandprocessor.h'], [('keys are posted to the scheduler', D+'inputdevice.h'), ('tasks run in the thread that runs the scheduler', 'loopscheduler.h')], ['thread of every user call and of every output'])
prop('C27', 'Sessions do not interfere with each other',
 'What a session shows and does while other sessions are created, used, disturbed and destroyed, on the same Cli, is what it shows and does when it is alone: its line, its current menu, its history, its completions, its exit and its telnet state belong to it only, also when a command of a session uses another one.',
 ['inputs', 'schedules', 'histories'], 'every interleaving of a bounded number of keys, lines or packets of two sessions and of disturbances by a third one; arbitrary bytes', 'The tests use a session at a time; a state shared by mistake needs two of them in a particular interleaving.',
 ['cli.h', D+'commandprocessor.h', D+'terminal.h', D+'history.h', D+'genericasioremotecli.h', D+'server.h'], [('state of a session', 'cli.h'), ('state of a connection', D+'genericasioremotecli.h')], ['session output', 'handler calls', 'connection output'])
prop('C28', 'Nothing a user sends can crash the application or make a session unusable',
 'Whatever bytes, keys or lines arrive by any front end (direct calls, a file, keys, an asynchronous input, telnet), no undefined behaviour occurs, no exception reaches the event loop, every call ends, a session that has not ended still executes the next good line, other sessions are served, and everything can be destroyed.',
 ['inputs', 'histories', 'configurations'], 'every byte sequence up to the bounded length, without exclusions, after typical lines, in packets cut anywhere; large inputs made of each special character', 'Tests send well formed lines; the crashing input is one out of many.',
 ['cli.h', 'clifilesession.h', D+'split.h', D+'commandprocessor.h', D+'terminal.h', D+'genericasioremotecli.h', D+'genericcliasyncsession.h'], [('line execution', 'cli.h'), ('byte decoding', D+'genericasioremotecli.h')], ['handler calls after the input', 'exceptions', 'memory errors'])
prop('C29', 'The same lines do the same through every front end',
 'The same lines give the same calls with the same arguments, the same output and the same end whether they are passed to the session directly, read from a file, from an asynchronous input, typed as keys or sent over telnet (with either end of line); the line editors add the echo of what is typed only. The actions of the user are in force in each of them.',
 ['inputs', 'configurations'], 'scripts of lines of every sort with an arbitrary line of bounded length; colours on and off; long lines and many of them', 'The tests never compare two front ends.',
 ['cli.h', 'clifilesession.h', D+'genericcliasyncsession.h', D+'commandprocessor.h', D+'terminal.h', D+'genericasioremotecli.h'], [('front ends', 'clifilesession.h'), ('line execution', 'cli.h')], ['handler calls', 'session output'])
TECH = 'symbolic execution of the LLVM IR of the real headers, path conditions and assertions decided by Z3, counterexamples replayed natively'
NA = specs.NOT_APPLICABLE if hasattr(specs, 'NOT_APPLICABLE') else {}
checks, na = [], []
for p in P:
    if p['id'] in specs.PROPS:
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'], technique=TECH, level='model_checking', level_note=specs.PROPS[p['id']].get('note', 'exhaustive over the paths within the bounds stated per harness in the evidence file')))
    else: na.append(dict(property=p['id'], reason=NA.get(p['id'], 'the harness for this property is not built yet')))
json.dump(dict(version=1, setup_cmd='bash engine/build.sh', checks=checks, not_applicable=na, hooks=dict(guard='VERIF_HOOKS', enable='no hooks are needed: the checks compile the unmodified headers'), notes='see DESIGN.md; known findings in known_findings.txt'), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), 'properties', len(checks), 'claimed')
