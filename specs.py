"""Which harness entries decide which property, and within which bounds."""
COMMON_ASSUMPTIONS = [
    'C++ library and libc below the code under test are models (engine/rt.cpp, rtc.cpp) in the C locale; sampled paths are re-executed against the real libstdc++/glibc build on every run',
    'allocation never fails; sequentially consistent memory',
]
NOT_APPLICABLE = {}
def R(file, entry, bounds='', **kw): return dict(file=file, entry=entry, bounds=bounds, **kw)
PROPS = {}
PROPS['C01'] = dict(runs=[
    R('c01.cpp', 'h_grammar', 'every byte string up to LEN bytes', defs={'LEN': 7, 'QLEN': 4}, tdefs={'LEN': 9, 'QLEN': 6}, reach=['no tokens', 'several tokens']),
    R('c01.cpp', 'h_quote', 'two arguments of 1..QLEN and 1..2 arbitrary bytes, either quote', defs={'LEN': 7, 'QLEN': 4}, tdefs={'LEN': 9, 'QLEN': 6}, reach=['round trip']),
    R('c01.cpp', 'h_scale', 'lines of up to 4100 bytes, plain, quoted or of many words, with an arbitrary byte (and an escaped one) at four places', reach=['several tokens']),
    R('c01.cpp', 'h_again', 'two lines of up to ALEN arbitrary bytes, then the first one again, into one vector or several', defs={'ALEN': 3}, tdefs={'ALEN': 4}, reach=['several lines']),
])
_c2 = {'schar': 5, 'uchar': 4, 'short': 6, 'ushort': 6, 'int': 4, 'uint': 4, 'long': 4, 'ulong': 4, 'llong': 4, 'ullong': 4}
PROPS['C02'] = dict(runs=[R('c02.cpp', 'h_' + t, 'every byte string up to %d (+EXTRA) bytes' % n, tdefs={'EXTRA': 2}, reach=['accepted', 'rejected']) for t, n in sorted(_c2.items(), key=lambda x: -x[1])]
  + [R('c02.cpp', 'h_limit_' + t, 'the largest value and the largest number of that many digits with the last two digits (and one more) arbitrary bytes, any sign, leading zero', tdefs={'EXTRA': 2}, reach=['accepted', 'rejected']) for t in ['int', 'uint', 'long', 'ulong', 'llong', 'ullong']]
  + [R('c02.cpp', 'h_long_text', 'a sign, up to 1000 zeros (or a one and as many zeros), two arbitrary bytes, for each type', reach=['accepted', 'rejected']),
     R('c02.cpp', 'h_spread', '90 leading digits x 3 fillings x the digits of the limit and up to two more, the last one an arbitrary byte, for each type', reach=['accepted', 'rejected']),
     R('c02.cpp', 'h_powers', 'the multiples (1, 2, 3) of the powers of two up to 2^66, signed or not, the last digit an arbitrary byte, for each type', reach=['accepted', 'rejected']),
     R('c02.cpp', 'h_again', 'up to AGAIN arbitrary bytes for each type after another conversion (2 arbitrary bytes or out of range) and any errno', defs={'AGAIN': 3}, tdefs={'AGAIN': 4}, reach=['accepted', 'rejected'])])
_c3 = {'NB': 5, 'NF': 3}; _c3t = {'NB': 7, 'NF': 4}
PROPS['C03'] = dict(assumptions=['the value of a number text with symbolic bytes is an opaque value, the same for the same text in the code and in the oracle (concrete texts: the host strtod)'], runs=[
    R('c03.cpp', 'h_bool', 'every byte string up to NB bytes', defs=_c3, tdefs=_c3t, reach=['accepted', 'rejected']),
    R('c03.cpp', 'h_bool_big', 'the multiples (1 to 5) of the powers of two up to 2^66, signed or not, the last digit an arbitrary byte', reach=['accepted', 'rejected']),
    R('c03.cpp', 'h_char', 'every byte string up to 3 bytes', defs=_c3, tdefs=_c3t, reach=['accepted', 'rejected']),
    R('c03.cpp', 'h_string', 'every byte string up to 8 bytes', defs=_c3, tdefs=_c3t, reach=['accepted']),
    R('c03.cpp', 'h_custom', 'every string up to 5 bytes over digits , blank - x', defs=_c3, tdefs=_c3t, reach=['accepted', 'rejected']),
    R('c03.cpp', 'h_again', 'each type after 30 other conversions (accepted, malformed, out of range) and any errno; arbitrary bytes or typical texts', reach=['again', 'accepted', 'rejected']),
    R('c03.cpp', 'h_long_text', 'texts of up to 1000 bytes for each type, one of them arbitrary', reach=['decided']),
] + [R('c03.cpp', 'h_' + t + x, ('31 number texts with one arbitrary byte inserted or substituted anywhere' if x else 'every byte string up to NF bytes'), defs=_c3, tdefs=_c3t, reach=['accepted', 'rejected']) for t in ['float', 'double', 'ldouble'] for x in ['', '_texts']])
PROPS['C04'] = dict(runs=[
    R('c04.cpp', 'h_resolve', 'two commands: 6x6 parameter kinds, 3 name relations; 0..2 arguments of 1..ARGLEN arbitrary ordinary bytes', defs={'ARGLEN': 3, 'RAWLEN': 6}, tdefs={'ARGLEN': 4, 'RAWLEN': 8}, reach=['executed', 'wrong', 'builtin']),
    R('c04.cpp', 'h_sequence', 'SEQ lines of 1..3 words, arbitrary one-byte arguments, against six commands with two names', defs={'SEQ': 2}, tdefs={'SEQ': 3}, reach=['executed', 'wrong']),
    R('c04.cpp', 'h_kinds', '31 commands inserted in every way the interface has (functions, functors, std::function, own command classes, 0..8 parameters, overloads), lines of up to 260 words, an arbitrary byte', reach=['executed', 'wrong']),
    R('c04.cpp', 'h_line', 'every line up to RAWLEN bytes (but no backslash) against three commands', defs={'ARGLEN': 3, 'RAWLEN': 6}, tdefs={'ARGLEN': 4, 'RAWLEN': 8}, reach=['executed', 'wrong', 'builtin', 'empty']),
])
PROPS['C05'] = dict(runs=[
    R('c05.cpp', 'h_line', 'one line of 1..TOKS+1 words of 1..2 arbitrary bytes from each of 4 menus', defs={'TOKS': 4, 'LINES': 2}, tdefs={'TOKS': 6, 'LINES': 3}, reach=['command', 'moved', 'wrong']),
    R('c05.cpp', 'h_names', 'the same with 7 arbitrary one-byte names, 1..TOKS words', defs={'TOKS': 4, 'LINES': 2}, tdefs={'TOKS': 6, 'LINES': 3}, reach=['command', 'moved', 'wrong']),
    R('c05.cpp', 'h_deep', 'a chain of 8 menus with side menus: every way down and up along it (names or ..) from every menu, in one line or several, ended by an arbitrary word', reach=['command', 'moved', 'wrong']),
    R('c05.cpp', 'h_lines', 'LINES lines of 1..2 words, arbitrary names', defs={'TOKS': 4, 'LINES': 2}, tdefs={'TOKS': 6, 'LINES': 3}, reach=['command', 'moved', 'wrong']),
    R('c05.cpp', 'h_two', 'two sessions on the same menus, the second one created at any time: every sequence of STEPS lines out of 9 (and an arbitrary byte) in either', defs={'STEPS': 3}, tdefs={'STEPS': 4}, reach=['command', 'moved', 'wrong', 'apart']),
])
PROPS['C06'] = dict(runs=[
    R('c06.cpp', 'h_history', 'every sequence of OPS handle operations or moves over 4 entries, then any line of 1..2 words of 1..2 bytes', defs={'OPS': 3}, tdefs={'OPS': 4}, reach=['command', 'moved', 'wrong']),
    R('c06.cpp', 'h_history_inside', 'the same from inside the submenu', defs={'OPS': 4}, tdefs={'OPS': 5}, reach=['command', 'moved', 'wrong']),
    R('c06.cpp', 'h_stale_handles', 'handles used after their entries, menus and the cli are gone', defs={'OPS': 3}, tdefs={'OPS': 3}, reach=['late calls']),
    R('c06.cpp', 'h_many', '9 or 18 entries with 3 names: two operations on any of them (removal followed by an insertion included), then any line', reach=['command', 'moved', 'wrong']),
    R('c06.cpp', 'h_from_handler', '8 changes made by a running handler, then every entry probed', defs={'OPS': 2}, tdefs={'OPS': 3}, reach=['still there', 'gone']),
    R('c06.cpp', 'h_current_removed', 'the current menu is removed (known finding)', defs={'OPS': 2}, tdefs={'OPS': 3}),
    R('c06.cpp', 'h_two', 'two sessions in any two menus: OPS2 changes through handles and copies of them, then lines in both', defs={'OPS2': 2}, tdefs={'OPS2': 3}, reach=['command', 'moved', 'wrong']),
])
_c7 = {'TLEN': 5, 'NLEN': 1}; _c7t = {'TLEN': 7, 'NLEN': 2}
PROPS['C07'] = dict(runs=[
    R('c07.cpp', 'h_texts', 'every text up to TLEN bytes, any subset of three entries disabled, from every menu of a tree', defs=_c7, tdefs=_c7t, reach=['none', 'one', 'several']),
    R('c07.cpp', 'h_paths', 'two words of a path (all pairs), then up to 2 arbitrary bytes', defs=_c7, tdefs=_c7t, reach=['none', 'one', 'several']),
    R('c07.cpp', 'h_deep', 'a chain of 6 menus, one of them disabled: every way down and up along it, then an arbitrary byte', reach=['none', 'one', 'several']),
    R('c07.cpp', 'h_names', 'four arbitrary one byte names, every text up to NLEN bytes', defs=_c7, tdefs=_c7t, reach=['none', 'one', 'several']),
    R('c07.cpp', 'h_names_deep', 'two arbitrary one byte names (any two of menu, submenu, command, root), every text up to NLEN+1 bytes', defs=_c7, tdefs=_c7t, reach=['none', 'one', 'several']),
    R('c07.cpp', 'h_again', '9 texts (one of an arbitrary byte) asked again after 9 changes (enabled, disabled, removed, inserted, moved, another session), from 3 menus', reach=['none', 'one', 'several']),
])
_c8 = {'TLEN': 4, 'PLEN': 4}; _c8t = {'TLEN': 6, 'PLEN': 6}
PROPS['C08'] = dict(runs=[
    R('c08.cpp', 'h_tab', 'every typed text up to TLEN printable bytes, every cursor position', defs=_c8, tdefs=_c8t, reach=['none', 'single', 'prefix', 'list']),
    R('c08.cpp', 'h_tab_path', 'the name of a submenu, then up to TLEN printable bytes', defs=_c8, tdefs=_c8t, reach=['none', 'single', 'prefix', 'list']),
    R('c08.cpp', 'h_names', 'commands with arbitrary names of 1..2 bytes', defs=_c8, tdefs=_c8t, reach=['single', 'list', 'prefix']),
    R('c08.cpp', 'h_many', 'up to 27 completions of up to 300 bytes, an arbitrary byte typed', reach=['single', 'list', 'prefix', 'none']),
    R('c08.cpp', 'h_common_prefix', 'lists of 1..3 texts up to PLEN arbitrary bytes', defs=_c8, tdefs=_c8t, reach=['differ', 'exhausted']),
    R('c08.cpp', 'h_moved', 'TABS Tabs on the same text (of 4) with 5 moves, a command disabled, enabled or removed between them', defs={'TABS': 3}, tdefs={'TABS': 4}, reach=['none', 'single', 'prefix', 'list', 'moved', 'state', 'removed']),
    R('c08.cpp', 'h_again', 'three Tabs, with an arbitrary byte, a backspace or another line between them', reach=['none', 'single', 'prefix', 'list', 'another line']),
])
_c9 = {'OPS': 7, 'KOPS': 7}; _c9t = {'OPS': 9, 'KOPS': 9}
PROPS['C09'] = dict(runs=[
    R('c09.cpp', 'h_session', 'every sequence of OPS enter/up/down/edit+up with arbitrary one byte lines, history size 0..3', defs=_c9, tdefs=_c9t, reach=['enter', 'up', 'down']),
    R('c09.cpp', 'h_raw', 'the history object preloaded with 0..3 lines, OPS-1 operations, size 0..3', defs=_c9, tdefs=_c9t, reach=['up', 'down']),
    R('c09.cpp', 'h_keys', 'every sequence of KOPS keys (char, up, down, backspace, return), size 1..3', defs=_c9, tdefs=_c9t, reach=['enter', 'up', 'down']),
    R('c09.cpp', 'h_big', 'history sizes 4 to 300, filled below and beyond the size, stored lines before, an arbitrary line in the middle; up and down over all of it, another line entered meanwhile', reach=['up', 'down']),
    R('c09.cpp', 'h_two', 'two sessions of the same Cli: every sequence of OPS2 enter/up/down in either', defs={'OPS2': 5}, tdefs={'OPS2': 6}, reach=['enter', 'up', 'down']),
])
_c10 = {'OPS': 5}; _c10t = {'OPS': 7}
PROPS['C10'] = dict(runs=[
    R('c10.cpp', 'h_ids', 'every sequence of OPS lines, "!" commands and listings, size 0..3', defs=_c10, tdefs=_c10t, reach=['typed', 'replayed', 'error', 'listed']),
    R('c10.cpp', 'h_loaded', 'stored lines that are "!" commands (chains and cycles)', defs=_c10, tdefs=_c10t, reach=['replayed', 'error']),
    R('c10.cpp', 'h_bad_ids', 'every text of up to 3 bytes after the "!"', defs=_c10, tdefs=_c10t, reach=['executed', 'wrong', 'error']),
    R('c10.cpp', 'h_big', 'history sizes 12 to 300, up to 270 lines after up to 300 stored ones; 18 ids around the limits, then one with an arbitrary last digit', reach=['replayed', 'error', 'listed']),
    R('c10.cpp', 'h_old_session', 'sessions of up to 65600 lines, history size 4, ids around the limits, then one with an arbitrary last digit', opts=['--max-steps', 4000000000], reach=['replayed', 'error', 'listed']),
    R('c10.cpp', 'h_two', 'two sessions of the same Cli: every sequence of OPS2 lines, "!" commands and listings in either', defs={'OPS2': 3}, tdefs={'OPS2': 4}, reach=['typed', 'replayed', 'error', 'listed', 'changed']),
])
_c11 = {'OPS': 4}; _c11t = {'OPS': 5}
PROPS['C11'] = dict(runs=[
    R('c11.cpp', 'h_one', 'one session of OPS operations over 0..2 stored lines, every history and storage size', defs=_c11, tdefs=_c11t, reach=['several', 'none', 'after others']),
    R('c11.cpp', 'h_two', 'two sessions of OPS/2 operations each sharing the storage', defs={'OPS': 4}, tdefs={'OPS': 6}, reach=['several', 'after others']),
    R('c11.cpp', 'h_big', 'history sizes 100 to 300, up to 400 stored lines, up to 260 lines (one arbitrary), up to 400 ups and an edit, exit typed or called', reach=['several', 'none']),
    R('c11.cpp', 'h_overlap', 'two sessions at the same time, the second one created at any time: every sequence of OPS2 lines, ups and exits', defs={'OPS2': 4}, tdefs={'OPS2': 5}, reach=['two', 'several']),
])
_c12 = {'OPS': 4, 'BATCH': 2}; _c12t = {'OPS': 5, 'BATCH': 3}
PROPS['C12'] = dict(runs=[
    R('c12.cpp', 'h_volatile', 'every sequence of OPS store (0..BATCH arbitrary lines) / clear operations, sizes 0..3', defs=_c12, tdefs=_c12t, reach=['stored', 'cleared']),
    R('c12.cpp', 'h_file', 'the same plus reopening the file', defs=_c12, tdefs=_c12t, reach=['stored', 'cleared', 'reopened']),
    R('c12.cpp', 'h_file_defaults', 'default size, long lines, two files', defs=_c12, tdefs=_c12t, reach=['two files']),
    R('c12.cpp', 'h_shared_file', 'every sequence of OPS operations on two storages of the same file', defs={'OPS': 3, 'BATCH': 2}, tdefs={'OPS': 4, 'BATCH': 2}, reach=['stored', 'cleared', 'read']),
    R('c12.cpp', 'h_big', 'sizes 10 to 1000 (and the default), batches of 1 to 1003 commands (one arbitrary), clear, reopening', reach=['stored']),
])
_c13 = {'KEYS': 3, 'LLEN': 6, 'STEPS': 2}; _c13t = {'KEYS': 5, 'LLEN': 8, 'STEPS': 3}
PROPS['C13'] = dict(runs=[
    R('c13.cpp', 'h_keys', 'every sequence of KEYS keys of 12 kinds, any printable bytes, colours on and off', defs=_c13, tdefs=_c13t, reach=['submitted', 'typed']),
    R('c13.cpp', 'h_step', 'every line up to LLEN arbitrary printable bytes, every cursor position, then STEPS arbitrary keys', defs=_c13, tdefs=_c13t, reach=['submitted', 'typed']),
    R('c13.cpp', 'h_session', 'KEYS keys through a whole session', defs={'KEYS': 5}, tdefs={'KEYS': 7}, reach=['cleared', 'executed', 'recalled']),
    R('c13.cpp', 'h_long', 'a line of 250 and 400 characters with an arbitrary byte at 8 places and 5 edits', reach=['long line']),
    R('c13.cpp', 'h_many', 'a session of 280 lines with an arbitrary byte, recalled', reach=['recalled']),
    R('c13.cpp', 'h_two', 'two terminals: every sequence of KEYS keys of 6 kinds in either, one more in the second', defs={'KEYS': 3}, tdefs={'KEYS': 4}, reach=['submitted', 'typed']),
])
_thr = ['--preempt', 2, '--spurious', 1, '--race', 1, '--atomic-preempt', 1, '--max-steps', 1000000]; _thrt = ['--preempt', 3, '--spurious', 1]
_p = {'POSIX_MODEL': 1}
PROPS['C14'] = dict(assumptions=['the operating system calls (read, write, select, poll, pipe, close, tcgetattr, tcsetattr) are models (harness/posix_model.cpp), the same in the native replay; pipe() succeeds with descriptors below FD_SETSIZE, standard input is open', 'threads are switched at the operations on mutexes, condition variables, threads, atomics and at the modelled system calls', 'byte 255 is not typed'], runs=[
    R('c14.cpp', 'h_bytes', 'every sequence of up to BYTES bytes, then end of file, a read error or silence; any terminal settings', defs=dict(_p, BYTES=3), tdefs={'BYTES': 5}, reach=['silence', 'end of file', 'read error'], opts=_thr[:1] + [0] + _thr[2:], native='thr'),
    R('c14.cpp', 'h_keys', 'every pair of 19 key encodings, the last one possibly incomplete, a signal interrupting any of the waits', defs=_p, reach=['eof', 'no eof'], opts=_thr[:1] + [0] + _thr[2:], topts=['--preempt', 1], native='thr'),
    R('c14.cpp', 'h_life', 'every sequence of OPS activations, deactivations, deliveries and changes of the terminal, then the destruction, with 4 texts; every interleaving of the reader with up to 1 preemption (2 thorough)', defs=dict(_p, OPS=3), reach=['deactivated', 'changed', 'all delivered', 'destroyed'], opts=_thr[:1] + [1] + _thr[2:3] + [0] + _thr[4:], topts=['--preempt', 2, '--spurious', 1], native='thr', ttime=3000),
    R('c14.cpp', 'h_late', 'keys typed while the reader waits', defs=_p, reach=['late'], opts=_thr, topts=['--preempt', 3], native='thr'),
    R('c14.cpp', 'h_notty', 'standard input not a terminal', defs=_p, reach=['not a terminal'], opts=_thr, native='thr'),
    R('c14.cpp', 'h_session', 'a local session with 6 texts, destroyed after 0..2 deliveries or run to the end', defs=_p, reach=['ran to the end', 'session destroyed'], opts=_thr[:1] + [1] + _thr[2:], topts=['--preempt', 2], native='thr'),
    R('c14.cpp', 'h_long', '300 keys at once with an arbitrary byte at 4 places', defs=_p, reach=['long'], opts=_thr[:1] + [0] + _thr[2:], native='thr'),
    R('c14.cpp', 'h_again', 'a second keyboard after the first was destroyed, an arbitrary byte typed before; up to 1 preemption (2 thorough)', defs=_p, reach=['again'], opts=_thr[:1] + [1] + _thr[2:3] + [0] + _thr[4:], topts=['--preempt', 2], native='thr'),
    R('c14.cpp', 'h_descriptors', 'no descriptor left, or the descriptors of the pipe around the limit of select (1022 to 1025)', defs=_p, reach=['no descriptors', 'high descriptors', 'last descriptor'], opts=_thr[:1] + [0] + _thr[2:], native='thr'),
])
PROPS['C15'] = dict(runs=[
    R('c15.cpp', 'h_stream', 'any BYTES bytes after a typed letter, cut at every combination of places', defs={'BYTES': 5}, tdefs={'BYTES': 7}, reach=['executed', 'negotiation', 'reply', 'subnegotiation']),
    R('c15.cpp', 'h_items', 'ITEMS well formed pieces (data, command, negotiation of any option, subnegotiations) with arbitrary bytes, whole, byte by byte or cut at any one place', defs={'ITEMS': 2}, tdefs={'ITEMS': 3}, reach=['executed', 'byte by byte', 'cut']),
    R('c15.cpp', 'h_items', 'the same on the Boost.Asio flavour, one piece', defs={'ITEMS': 1, 'USE_BOOST': 1}, tdefs={'ITEMS': 2}, reach=['executed']),
    R('c15.cpp', 'h_at_once', 'up to 3 WILL/DO requests of any option in one or two packets each', reach=['answered']),
    R('c15.cpp', 'h_doubled', 'a doubled 255 inside an escape sequence, cut anywhere', reach=['one byte']),
    R('c15.cpp', 'h_large', 'a packet longer than one read with a request of any option at 8 places around the boundary', reach=['large']),
    R('c15.cpp', 'h_flood', '400 requests in a packet; subnegotiations of 300, 1100 and 5000 bytes; an arbitrary option and byte', reach=['requests', 'subnegotiation']),
    R('c15.cpp', 'h_after', 'any well formed piece after 300 commands', reach=['after']),
    R('c15.cpp', 'h_two', 'two clients sending one well formed piece each, both cut at any place, the packets interleaved', reach=['two']),
])
PROPS['C16'] = dict(runs=[
    R('c16.cpp', 'h_bytes', 'any BYTES data bytes in one packet (but quotes, backslash, ! and i)', defs={'BYTES': 4}, tdefs={'BYTES': 6}, reach=['line ended', 'end of file']),
    R('c16.cpp', 'h_onebyone', 'any BYTES data bytes, one packet each, with a history', defs={'BYTES': 4}, tdefs={'BYTES': 6}, reach=['line ended', 'end of file']),
    R('c16.cpp', 'h_keys', 'every sequence of KEYS keys out of 21 encodings, cut at any place', defs={'KEYS': 2}, tdefs={'KEYS': 3}, reach=['line ended'], ttime=1800),
    R('c16.cpp', 'h_two', 'two sessions, a key of 21 encodings each, both cut at any place, the packets interleaved', reach=['both ended']),
    R('c16.cpp', 'h_edit', 'from every cursor position of a line, every pair of keys', reach=['line ended', 'end of file']),
    R('c16.cpp', 'h_long', 'a line of 300 characters, an arbitrary byte and any key out of 21 at 3 places', reach=['line ended']),
    R('c16.cpp', 'h_many', '200 lines, one with an arbitrary byte, recalled', reach=['many']),
])
PROPS['C17'] = dict(runs=[
    R('c17.cpp', 'h_life', 'every sequence of STEPS events out of 11 (connections, commands, closing, errors, single handlers, broadcast, destruction of the server) and every ending', defs={'STEPS': 3}, tdefs={'STEPS': 5}, reach=['connected', 'exit', 'closed by the peer', 'network error', 'server destroyed', 'broadcast', 'end'], ttime=1500),
    R('c17.cpp', 'h_life', 'the same on the Boost.Asio flavour, shorter', defs={'STEPS': 2, 'USE_BOOST': 1}, tdefs={'STEPS': 3}, reach=['end']),
    R('c17.cpp', 'h_pair', 'two clients, every interleaving of STEPS pieces of input or disconnections', defs={'STEPS': 3}, tdefs={'STEPS': 4}, reach=['pair']),
    R('c17.cpp', 'h_none', 'a server without actions', reach=['exit']),
    R('c17.cpp', 'h_text', 'a command printing any TLEN bytes in four ways', defs={'TLEN': 4}, tdefs={'TLEN': 8}, reach=['text']),
    R('c17.cpp', 'h_history', 'two consecutive clients', reach=['recalled']),
    R('c17.cpp', 'h_accept', 'failed accepts', reach=['accepted']),
    R('c17.cpp', 'h_big', 'outputs of 14 sizes up to 8 kB with 2 arbitrary bytes', reach=['big']),
    R('c17.cpp', 'h_many', '5 and 20 clients at once, two of them disturbed in every way', reach=['many']),
    R('c17.cpp', 'h_row', '60 clients in a row with different ends', reach=['row']),
])
PROPS['C18'] = dict(assumptions=['sequentially consistent memory; data races on the executed interleavings are detected by vector clocks and reported', 'threads are switched at the operations on mutexes, condition variables, threads and atomics'], runs=[
    R('c18.cpp', 'h_ops', 'every sequence of OPS operations (post of 5 kinds of task, PollOne, ExecOne, Stop, Run) of one thread', defs={'OPS': 5}, tdefs={'OPS': 6}, reach=['end', 'run', 'stopped', 'throws']),
    R('c18.cpp', 'h_post_run', 'two threads posting (POSTS and 1 tasks of 4 kinds), the main thread in Run; every interleaving with up to 2 preemptions (3 thorough) and 1 spurious wake up', defs={'POSTS': 2}, reach=['all ran'], opts=_thr, topts=_thrt, native='thr'),
    R('c18.cpp', 'h_post_other', 'the same with another thread executing by ExecOne or PollOne', defs={'POSTS': 2}, reach=['all ran'], opts=_thr, topts=_thrt, native='thr'),
    R('c18.cpp', 'h_stop', 'Stop of a third thread while up to POSTS tasks are posted and run', defs={'POSTS': 3}, tdefs={'POSTS': 4}, reach=['some ran', 'none ran'], opts=_thr, topts=_thrt, native='thr'),
    R('c18.cpp', 'h_stop_task', 'a task that stops while another thread posts', defs={'POSTS': 2}, reach=['stopped by a task'], opts=_thr[:1] + [4] + _thr[2:], native='thr'),
    R('c18.cpp', 'h_idle', 'a waiting runner', defs={'POSTS': 2}, reach=['returned'], opts=_thr[:1] + [4] + _thr[2:], native='thr'),
    R('c18.cpp', 'h_big', '300 tasks of one thread, a nesting, throwing, empty or stopping one at 9 places', reach=['big']),
    R('c18.cpp', 'h_two', 'two schedulers of one thread: every sequence of OPS2 posts (tasks posting to, stopping or polling the other one), polls and stops', defs={'OPS2': 4}, tdefs={'OPS2': 5}, reach=['end', 'stopped']),
    R('c18.cpp', 'h_cross', 'two schedulers run by two threads, tasks posting to each other up to 2 hops, a third thread posting; every interleaving with up to 2 preemptions (3 thorough) and 1 spurious wake up', reach=['crossed'], opts=_thr, topts=_thrt, native='thr'),
])
PROPS['C19'] = dict(runs=[R('c19.cpp', 'h_ops', 'every sequence of OPS operations (post of 4 kinds of task, poll, exec, run, stop) on an owned or external context; ' + n, defs={'OPS': 4, 'VARIANT': v}, tdefs={'OPS': 5}, reach=['a task throws', 'end', 'posted by a task', 'run', 'run by the user', 'stopped']) for v, n in enumerate(['standalone asio', 'boost asio', 'old standalone asio', 'old boost asio'])] + [
    R('c19.cpp', 'h_keepalive', 'an owned context with nothing to do; ' + n, defs={'VARIANT': v}, reach=['kept alive']) for v, n in enumerate(['standalone asio', 'boost asio', 'old standalone asio', 'old boost asio'])] + [
    R('c19.cpp', 'h_big', '300 tasks, one of 4 kinds at 7 places; ' + n, defs={'VARIANT': v}, reach=['big']) for v, n in enumerate(['standalone asio', 'boost asio', 'old standalone asio', 'old boost asio'])] + [
    R('c19.cpp', 'h_two', 'two schedulers on one context or on their own: every sequence of OPS2 posts, polls, stops and destructions; ' + n, defs={'OPS2': 4, 'VARIANT': v}, tdefs={'OPS2': 5}, reach=['own contexts', 'one context', 'stopped', 'destroyed']) for v, n in enumerate(['standalone asio', 'boost asio', 'old standalone asio', 'old boost asio'])])
PROPS['C24'] = dict(runs=[
    R('c24.cpp', 'h_bytes', 'any BYTES bytes of input (but quotes, backslash, !, i, p) cut and scheduled in every way, then end of input, error or neither', defs={'BYTES': 4}, tdefs={'BYTES': 6}, reach=['incomplete line', 'ended', 'destroyed']),
    R('c24.cpp', 'h_steps', 'every sequence of STEPS events out of 7 (pieces of lines, lines, end, exit, destruction, handlers)', defs={'STEPS': 4}, tdefs={'STEPS': 6}, reach=['end of input', 'destroyed with pending input', 'destroyed', 'exit', 'end']),
    R('c24.cpp', 'h_steps', 'the same on the Boost.Asio flavour', defs={'STEPS': 3, 'VARIANT': 1}, tdefs={'STEPS': 5}, reach=['end']),
    R('c24.cpp', 'h_long', 'lines around the size of one read', reach=['long']),
    R('c24.cpp', 'h_big', '300 lines, lines up to 40000 bytes with an arbitrary byte, pieces of 4 sizes', reach=['big']),
    R('c24.cpp', 'h_again', 'a session after another on the same Cli, the first one ended, destroyed or destroyed with input pending', reach=['again', 'destroyed', 'ended', 'run']),
])
PROPS['C20'] = dict(runs=[
    R('c20.cpp', 'h_one', '15 kinds of exceptions (and none) out of 5 kinds of commands, arbitrary argument bytes, at top level, through a path, in a submenu, through the parent, replayed with "!", with and without handlers', reach=['default', 'handler', 'no exception', 'replayed', 'unknown']),
    R('c20.cpp', 'h_many', 'LINES such lines in one session', defs={'LINES': 2}, tdefs={'LINES': 3}, reach=['default', 'handler', 'unknown']),
    R('c20.cpp', 'h_nested', 'a handler that executes a line whose handler throws, and throws itself: every pair of kinds', reach=['nested']),
    R('c20.cpp', 'h_big', 'lines up to 1100 characters, 200 exceptions in a session', reach=['big']),
    R('c20.cpp', 'h_two', 'a command of a session that executes a line of another session (of the same Cli or another one), both throwing: 9 kinds each, handlers set, unset or replaced', reach=['two', 'handler', 'default', 'unknown']),
])
_c21 = {'OPS': 4}; _c21t = {'OPS': 5}
PROPS['C21'] = dict(runs=[
    R('c21.cpp', 'h_plain', 'every sequence of OPS lines, exits (typed, called, from a handler), prompts and moves, every subset of the actions', defs=_c21, tdefs=_c21t, reach=['exited', 'prompt']),
    R('c21.cpp', 'h_two', 'two sessions, every sequence of OPS exits and prompts', defs=_c21, tdefs=_c21t, reach=['two']),
    R('c21.cpp', 'h_keys', 'the line editor: every sequence of OPS keys or lines, end of input included', defs=_c21, tdefs={'OPS': 6}, reach=['exited']),
    R('c21.cpp', 'h_file', 'every script of up to OPS-1 lines', defs={'OPS': 3}, tdefs={'OPS': 5}, reach=['exited', 'end of input']),
    R('c21.cpp', 'h_late', 'every sequence of OPS+1 entries, exits, lines, prompts and actions set, replaced or removed (some exiting again)', defs={'OPS': 3}, tdefs={'OPS': 4}, reach=['late', 'enter', 'exit']),
    R('c21.cpp', 'h_inside', 'actions that exit or execute lines themselves, in a plain and in a file session', reach=['early', 'inside']),
])
PROPS['C22'] = dict(runs=[
    R('c22.cpp', 'h_sessions', 'every sequence of OPS creations, destructions and outputs (arbitrary text), up to 3 sessions on 2 streams', defs={'OPS': 5}, tdefs={'OPS': 7}, reach=['destroyed', 'string', 'char', 'mixed', 'stream gone']),
    R('c22.cpp', 'h_from_handler', 'output from handlers and actions while sessions come and go', defs={'OPS': 6}, tdefs={'OPS': 8}, reach=['said']),
    R('c22.cpp', 'h_state', 'three outputs in 5 ways (arbitrary bytes) with a stream of a session in 5 states or formats, a session without stream buffer', reach=['text', 'char', 'put']),
    R('c22.cpp', 'h_big', 'up to 33 sessions, texts up to 3300 bytes with an arbitrary byte', reach=['big']),
])
PROPS['C23'] = dict(runs=[
    R('c23.cpp', 'h_text', 'every text up to LEN bytes', defs={'LEN': 5}, tdefs={'LEN': 7}, reach=['exit', 'end of input']),
    R('c23.cpp', 'h_script', 'every script of up to SLINES lines out of 9, one of them of 2 arbitrary bytes, or else a tail of 1 (2) arbitrary bytes', defs={'SLINES': 3}, tdefs={'SLINES': 4}, reach=['exit', 'end of input']),
    R('c23.cpp', 'h_streams', 'good and bad streams', reach=['accepted', 'refused']),
    R('c23.cpp', 'h_input', 'SLINES lines out of 7 commands (reading or breaking the input themselves, throwing, exit) or an arbitrary byte; a device delivering the text in 3 ways, ending or failing', defs={'SLINES': 2}, tdefs={'SLINES': 3}, reach=['ended']),
    R('c23.cpp', 'h_big', 'scripts of 300 lines, lines up to 4 kB, an arbitrary byte at 3 places', reach=['big']),
    R('c23.cpp', 'h_nested_line', 'a command with ILEN-1 arbitrary bytes running another session of up to 3 lines, then throwing', defs={'ILEN': 3}, tdefs={'ILEN': 4}, reach=['line', 'unknown']),
    R('c23.cpp', 'h_nested', 'a command running another session over a stream of up to ILEN arbitrary bytes, on the same Cli, on another one or on the same stream; then another session on the stream', defs={'ILEN': 3}, tdefs={'ILEN': 4}, reach=['same cli', 'another cli', 'same stream', 'left', 'again']),
])
PROPS['C25'] = dict(runs=[
    R('c25.cpp', 'h_kinds', 'up to KINDS entries of 11 kinds, arbitrary names and descriptions, parameter descriptions given or not', defs={'KINDS': 2}, tdefs={'KINDS': 3}, reach=['listed']),
    R('c25.cpp', 'h_state', 'every sequence of OPS enable/disable/remove over 8 entries of a three level tree, from every menu', defs={'OPS': 2}, tdefs={'OPS': 3}, reach=['root', 'sub', 'lowest']),
    R('c25.cpp', 'h_big', 'up to 65 entries with long names and descriptions, two arbitrary bytes', reach=['big']),
    R('c25.cpp', 'h_again', 'the help three times in either of two sessions with 8 changes or moves between, two arbitrary bytes', reach=['first', 'second']),
])
PROPS['C26'] = dict(assumptions=PROPS['C14']['assumptions'], runs=[
    R('c26.cpp', 'h_loop', 'the LoopScheduler, 6 typed texts, run to the end or up to 2 keys, then destroyed; every interleaving with up to 1 preemption (2 thorough)', defs=_p, reach=['ran to the end', 'loop'], opts=_thr[:1] + [1] + _thr[2:], topts=['--preempt', 2], native='thr'),
    R('c26.cpp', 'h_byte', 'any byte typed in a line', defs=_p, reach=['byte'], opts=_thr[:1] + [1] + _thr[2:], topts=['--preempt', 2], native='thr'),
    R('c26.cpp', 'h_mine', 'a scheduler of the user run by another thread than the one of the session', defs=_p, reach=['mine'], opts=_thr[:1] + [1] + _thr[2:], topts=['--preempt', 2], native='thr'),
    R('c26.cpp', 'h_posts', 'a third thread posting a task that writes on the global stream', defs=_p, reach=['before the end', 'posts'], opts=_thr[:1] + [1] + _thr[2:], topts=['--preempt', 2], native='thr'),
])
PROPS['C27'] = dict(runs=[
    R('c27.cpp', 'h_keys', 'two line editors: every sequence of STEPS keys or lines of 10 kinds (up to LLEN arbitrary bytes) or destructions in either, then four more in both', defs={'STEPS': 2, 'LLEN': 2}, tdefs={'STEPS': 3}, reach=['together', 'destroyed', 'exited']),
    R('c27.cpp', 'h_keys', 'the same, longer, without arbitrary bytes', defs={'STEPS': 3, 'LLEN': 0}, tdefs={'STEPS': 4}, reach=['together', 'destroyed', 'exited']),
    R('c27.cpp', 'h_plain', 'two sessions: every sequence of STEPS lines, history steps and completions of 8 kinds (LLEN arbitrary bytes), with a third one coming and going, then three more in both', defs={'STEPS': 2, 'LLEN': 2, 'TLEN': 2}, tdefs={'STEPS': 3}, reach=['together', 'destroyed', 'exited', 'another one']),
    R('c27.cpp', 'h_inside', 'a command of a session uses another session in 8 ways, arbitrary bytes in both', reach=['inside']),
    R('c27.cpp', 'h_net', 'two telnet clients: every sequence of STEPS packets of 8 kinds (arbitrary bytes), handled at once or late, with a third client coming, typing and going', defs={'NETWORK': 1, 'STEPS': 2, 'LLEN': 2}, tdefs={'STEPS': 3}, reach=['together', 'another one', 'lost']),
    R('c27.cpp', 'h_net', 'the same on the Boost.Asio flavour, shorter', defs={'NETWORK': 1, 'STEPS': 1, 'USE_BOOST': 1}, tdefs={'STEPS': 2}, reach=['together']),
])
PROPS['C28'] = dict(runs=[
    R('c28.cpp', 'h_plain', 'after 5 scripts, LINES texts of BYTES and 1 arbitrary bytes executed, completed or used in the history', defs={'BYTES': 1, 'LINES': 2}, tdefs={'BYTES': 2, 'LINES': 3}, reach=['plain']),
    R('c28.cpp', 'h_plain', 'one text of BYTES arbitrary bytes', defs={'BYTES': 3, 'LINES': 1}, tdefs={'BYTES': 4}, reach=['plain']),
    R('c28.cpp', 'h_raw', 'any line of BYTES+1 bytes with the default handlers', defs={'BYTES': 2}, tdefs={'BYTES': 4}, reach=['raw']),
    R('c28.cpp', 'h_file', 'any file of BYTES bytes after 5 scripts', defs={'BYTES': 3}, tdefs={'BYTES': 5}, reach=['file']),
    R('c28.cpp', 'h_keys', 'every sequence of BYTES keys of 13 kinds (arbitrary bytes) after 5 scripts and 4 typed texts', defs={'BYTES': 2}, tdefs={'BYTES': 3}, reach=['keys', 'exited']),
    R('c28.cpp', 'h_big', 'inputs of 600 to 10000 special characters of 8 kinds with an arbitrary byte', reach=['big']),
    R('c28.cpp', 'h_net', 'any BYTES bytes of a telnet client after 3 scripts and 6 beginnings of sequences, cut anywhere, with other clients', defs={'NETWORK': 1, 'BYTES': 2}, tdefs={'BYTES': 3}, reach=['net', 'open', 'closed']),
    R('c28.cpp', 'h_flood', '300 or 1100 pieces of 12 sorts after 3 beginnings from a telnet client, an arbitrary byte', defs={'NETWORK': 1}, reach=['flood', 'open', 'closed']),
    R('c28.cpp', 'h_async', 'any BYTES bytes of an asynchronous input after 5 scripts, cut anywhere', defs={'NETWORK': 1, 'BYTES': 3}, tdefs={'BYTES': 5}, reach=['async']),
    R('c28.cpp', 'h_async', 'the same on the Boost.Asio flavour', defs={'NETWORK': 1, 'BYTES': 2, 'USE_BOOST': 1}, tdefs={'BYTES': 3}, reach=['async']),
])
PROPS['C29'] = dict(runs=[
    R('c29.cpp', 'h_lines', 'direct, file, asynchronous: every script of LINES lines of 14 kinds, one of them with LLEN arbitrary bytes', defs={'LLEN': 2, 'LINES': 2}, tdefs={'LLEN': 3, 'LINES': 3}, reach=['exited', 'goes on']),
    R('c29.cpp', 'h_typed', 'direct, keys, telnet: the same with printable bytes and either end of line', defs={'LLEN': 1, 'LINES': 2}, tdefs={'LLEN': 2, 'LINES': 3}, reach=['exited', 'goes on']),
    R('c29.cpp', 'h_typed', 'one line of LLEN arbitrary printable bytes', defs={'LLEN': 3, 'LINES': 1}, tdefs={'LLEN': 4}, reach=['goes on']),
    R('c29.cpp', 'h_lines', 'the same on the Boost.Asio flavour', defs={'LLEN': 1, 'LINES': 1, 'USE_BOOST': 1}, tdefs={'LLEN': 2, 'LINES': 2}, reach=['goes on']),
    R('c29.cpp', 'h_typed', 'the same on the Boost.Asio flavour', defs={'LLEN': 1, 'LINES': 1, 'USE_BOOST': 1}, tdefs={'LLEN': 2, 'LINES': 2}, reach=['goes on']),
    R('c29.cpp', 'h_color', 'two lines with colours', reach=['color']),
    R('c29.cpp', 'h_big', '120 lines, words of 600 characters, lines of 150 words, an arbitrary byte', reach=['big']),
])
# the same code as released (assert() expands to nothing)
for _id, _e, _d, _t in [('C01', 'h_grammar', {'LEN': 5}, {'LEN': 7}), ('C02', 'h_int', {}, {}), ('C03', 'h_bool', {'NB': 4}, {'NB': 5}), ('C04', 'h_resolve', {'ARGLEN': 1, 'RAWLEN': 4}, {'ARGLEN': 2}), ('C04', 'h_line', {'ARGLEN': 1, 'RAWLEN': 4}, {'RAWLEN': 6}),
                        ('C05', 'h_line', {'TOKS': 3, 'LINES': 2}, {'TOKS': 4}), ('C05', 'h_lines', {'TOKS': 3, 'LINES': 2}, {}), ('C06', 'h_history', {'OPS': 2}, {'OPS': 3}), ('C06', 'h_from_handler', {'OPS': 2}, {}), ('C07', 'h_texts', {'TLEN': 3}, {'TLEN': 5}), ('C07', 'h_paths', {'TLEN': 3}, {}),
                        ('C08', 'h_tab', {'TLEN': 2, 'PLEN': 2}, {'TLEN': 4}), ('C08', 'h_common_prefix', {'TLEN': 2, 'PLEN': 2}, {'PLEN': 4}), ('C09', 'h_session', {'OPS': 6, 'KOPS': 5}, {'OPS': 7}), ('C10', 'h_ids', {'OPS': 4}, {'OPS': 5}), ('C10', 'h_loaded', {'OPS': 4}, {}),
                        ('C11', 'h_one', {'OPS': 3}, {'OPS': 4}), ('C12', 'h_file', {'OPS': 3}, {'OPS': 4}), ('C13', 'h_step', {'LLEN': 4, 'STEPS': 1}, {'STEPS': 2}), ('C14', 'h_bytes', {'BYTES': 2}, {'BYTES': 3}), ('C15', 'h_stream', {'BYTES': 4}, {'BYTES': 5}), ('C16', 'h_onebyone', {'BYTES': 3}, {'BYTES': 4}),
                        ('C17', 'h_life', {'STEPS': 2}, {'STEPS': 3}), ('C18', 'h_ops', {'OPS': 4}, {'OPS': 5}), ('C19', 'h_ops', {'OPS': 3, 'VARIANT': 0}, {'OPS': 4}), ('C20', 'h_one', {}, {}), ('C21', 'h_plain', {'OPS': 3}, {'OPS': 4}), ('C22', 'h_sessions', {'OPS': 4}, {'OPS': 5}),
                        ('C23', 'h_text', {'LEN': 4}, {'LEN': 5}), ('C24', 'h_bytes', {'BYTES': 3}, {'BYTES': 4}), ('C25', 'h_state', {'OPS': 1}, {'OPS': 2})]:
    _r = dict([r for r in PROPS[_id]['runs'] if r['entry'] == _e][0])
    _r.update(bounds='built with NDEBUG: ' + _r['bounds'], defs=dict(_r.get('defs', {}), NDEBUG=1, **_d), tdefs=dict({k: v for k, v in _r.get('tdefs', {}).items() if k not in (_d or {}) and not _d}, **_t), reach=[x for x in _r['reach']])
    PROPS[_id]['runs'].append(_r)
