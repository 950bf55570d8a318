#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl).
import json
A='src/agent/'; L='src/libwinpty/'; S='src/shared/'; U='src/unix-adapter/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p('C01','The terminal converges to what the console window shows',
 'Whatever a console program draws in a console with the normal scrollback buffer, once it stops drawing and a poll interval has passed, a terminal that interprets the output stream shows exactly the text of the console window, row for row, with its cursor on the same cell and visible if and only if the console cursor is visible and inside the window.',
 ['inputs','histories','schedules'],'all histories of console drawing operations (text, wrapping, cursor moves, fills, scrolls, window moves, clears, cursor show/hide, screen buffer switches), interleaved in any way with the polling of the agent, on all supported console generations and window sizes',
 'The existing tests check a UTF-8 encoder, a string builder and that one spawned command produces output; no test compares a screen with a console, let alone after an arbitrary drawing history.',
 [A+'Scraper.cc',A+'Terminal.cc',A+'ConsoleLine.cc',A+'Win32ConsoleBuffer.cc',A+'LargeConsoleRead.cc',A+'Agent.cc'],
 [('incremental scrape of dirty lines with line cache',A+'Scraper.cc: scrollingScrapeOutput'),('line output with prefix reuse, trimming, erase',A+'Terminal.cc: sendLine'),('change detection per line',A+'ConsoleLine.cc')],
 [('line cache','last content sent for each of the 3000 buffer lines',A+'Scraper.h'),('remote line/column/colour','believed terminal cursor state',A+'Terminal.h')],
 ['conout pipe byte stream','console window content'])
p('C02','No output line is lost, repeated or reordered in the scrollback',
 'When a program prints lines into a scrolling console, at most 2,400 between two polls, the scrollback plus screen of a terminal reading the output contains every printed line exactly once, in order, with its final text; only a program that clears or moves the console back makes the terminal start over with a clear.',
 ['inputs','histories','schedules'],'all sequences of printed lines and bursts, before and after the 3000-line buffer wraps around, with any pause pattern and window height, including window resizes between bursts',
 'No test prints more than a line; the buffer wrap-around, the marker that measures scrolling and its re-creation are never reached.',
 [A+'Scraper.cc',A+'Scraper.h',A+'Terminal.cc'],
 [('synchronisation marker written above the window measures scrolling',A+'Scraper.cc: createSyncMarker/findSyncMarker'),('scraped-line high-water mark',A+'Scraper.cc')],
 [('scrolled count','lines pushed out of the buffer so far',A+'Scraper.h')],['conout pipe byte stream'])
p('C03','Console colours and attributes are translated to the documented SGR state',
 'Every cell of a printed line that the terminal shows has the rendition that the console attributes call for: default colours for light grey on black, bold for white on black, inverse for a white background, otherwise the exact foreground and background, with intensity, reverse video and underline (where the console honours them) and conceal when both colours are equal; blank and erased cells carry their background too.',
 ['inputs','histories','configurations'],'all 16-bit attribute values in all cells and all orders of repainting, on all code pages and output modes that decide whether reverse video and underline are honoured',
 'No test looks at an attribute.',
 [A+'Terminal.cc',A+'Scraper.cc'],[('colour heuristic',A+'Terminal.cc: outputSetColor'),('attribute mask by code page and mode',A+'Scraper.cc: attributesMask')],(),['SGR sequences in the conout/conerr streams'])
p('C04','Plain output mode never emits escapes it promised not to emit',
 'With plain output requested, the output streams contain no escape sequence at all (only SGR colour sequences if colour escapes are also requested), no title, mouse mode or cursor sequences, and every line of text printed still appears in them in order.',
 ['inputs','histories','configurations'],'all drawing histories, titles, mouse configurations and resizes under the two plain-output configurations',
 'No test uses the plain or colour flags.',
 [A+'Agent.cc',A+'Terminal.cc','src/include/winpty_constants.h'],[('plain mode switches',A+'Terminal.cc'),('title/DSR suppression',A+'Agent.cc')],(),['conout and conerr byte streams'])
p('C05','Every console cell becomes well-formed, faithful UTF-8',
 'For any sequence of UTF-16 code units and width flags in console cells the output is well-formed UTF-8: valid pairs become one scalar value, double-width pairs one character, unpaired surrogates and escape characters become a question mark, and the popup box codes become box-drawing characters; nothing else is altered.',
 ['inputs'],'all cell contents: any 16-bit code unit, any leading/trailing flags, valid or not, at any column including the last',
 'UnicodeEncodingTest checks the encoder on scalar values only; cells, widths, surrogate halves split over cells and line ends are not reached.',
 [A+'Terminal.cc',A+'UnicodeEncoding.h'],[('cell scanning',A+'Terminal.cc: scanUnicodeScalarValue'),('special characters',A+'Terminal.cc: fixSpecialCharacters'),('encoding',A+'UnicodeEncoding.h: encodeUtf8')],(),['conout byte stream'])
p('C06','Full-screen programs with their own buffer size are mirrored exactly',
 'While a program uses a console screen buffer of another height than the scrolling one, the terminal shows the current console window (top-left aligned, clipped to the terminal size) with its cursor after each poll, and entering or leaving this mode clears the terminal and resynchronises it.',
 ['histories','inputs'],'all histories that change buffer heights, switch screen buffers back and forth, move the window and draw in it, with resizes in between',
 'No test changes the buffer size.',
 [A+'Scraper.cc',A+'Agent.cc'],[('direct mode',A+'Scraper.cc: directScrapeOutput, syncConsoleContentAndSize')],[('direct mode flag','whether lines are mirrored without history',A+'Scraper.h')],['conout byte stream'])
p('C07','Resizing sets the console to the requested size and keeps the screen in sync',
 'After a successful resize request the console window has the requested size (limited only by the largest window the system allows and the largest size that the agent supports), the program is sent a buffer-size event with the new buffer size, the buffer keeps its scrollback height, lines already scrolled off are not printed again, and the terminal converges to the window as after any other change.',
 ['inputs','histories','schedules'],'all sequences of resize requests (including shrinking, growing, extreme sizes) interleaved with drawing and polling on all console generations',
 'The tests never resize.',
 [A+'Scraper.cc',A+'Agent.cc',A+'Win32ConsoleBuffer.cc',L+'winpty.cc'],[('resize in three frozen/unfrozen phases',A+'Scraper.cc: resizeImpl'),('size event',A+'Agent.cc: resizeWindow')],(),['console window and buffer size','console input queue','conout stream'])
p('C08','Terminal mouse mode follows the console and is switched off before closing',
 'Mouse reporting is enabled on the terminal exactly while the configured mouse mode and the console input mode call for it, changes are followed within a poll interval, enabling and disabling alternate without repetition, and a stream that is closed by shutdown never ends with mouse reporting enabled.',
 ['histories','configurations'],'all histories of console input mode changes (mouse input, quick edit, extended flags) under every mouse mode and output mode, with shutdown at any point',
 'No test enables the mouse.',
 [A+'Agent.cc',A+'ConsoleInput.cc',A+'Terminal.cc'],[('activation rule',A+'ConsoleInput.cc: shouldActivateTerminalMouse'),('mode sequences',A+'Terminal.cc: enableMouseMode')],(),['conout byte stream'])
p('C09','The terminal title follows the console title',
 'Whenever the console title changes, the terminal receives a single title sequence with the full new title in UTF-8 within a poll interval, whatever its length and on every operating system version, and no sequence when it has not changed.',
 ['inputs','histories'],'all titles of printable characters up to very long ones (including empty ones and surrogate pairs) and all sequences of changes, under the different title-query behaviours of Windows versions',
 'No test sets a title.',
 [A+'Agent.cc',A+'Win32Console.cc'],[('title query with version workarounds',A+'Win32Console.cc: title'),('OSC 0',A+'Agent.cc: syncConsoleTitle')],(),['OSC sequences in the conout stream'])
p('C10','Typed text reaches the program as the same characters',
 'Every well-formed UTF-8 character sent to the input stream arrives in the console as key events that carry exactly its UTF-16 code units in order, each press paired with a release and modifiers released again, and malformed bytes neither produce characters nor damage the well-formed text that follows them.',
 ['inputs'],'all byte strings of text and control characters, well-formed or not',
 'No test sends input.',
 [A+'ConsoleInput.cc',A+'UnicodeEncoding.h'],[('UTF-8 decoding',A+'ConsoleInput.cc: appendUtf8Char'),('key event synthesis',A+'ConsoleInput.cc: appendKeyPress')],(),['console input records'])
p('C11','Splitting the input stream does not change its meaning',
 'The key and mouse events delivered to the console for an input byte stream are the same however the stream is divided into writes and reads, as long as no pause long enough to end an incomplete sequence occurs.',
 ['inputs','schedules'],'all input byte streams (keys, text, escape sequences, mouse reports, terminal replies, garbage) and all ways to cut them into chunks within the timeout',
 'No test sends input, and chunking is decided by pipe timing.',
 [A+'ConsoleInput.cc',A+'InputMap.cc',A+'NamedPipe.cc'],[('byte queue with incomplete-sequence detection',A+'ConsoleInput.cc: doWrite/scanInput')],[('byte queue','undecided tail of the input',A+'ConsoleInput.h')],['console input records'])
p('C12','Terminal key sequences become the key presses they stand for',
 'Every key sequence that common terminals send (cursor, navigation, editing, keypad and function keys in their CSI, SS3, tilde, rxvt and Linux-console forms, with any xterm modifier, and Alt or Escape prefixes) arrives as that key with those modifiers and the virtual key, scan code and character a real keyboard would give.',
 ['inputs'],'all sequences of the key grammar of xterm, rxvt, PuTTY and the Linux console, with all modifier codes, in any order and concatenation',
 'No test sends a key sequence; the encodings are several hundred.',
 [A+'DefaultInputMap.cc',A+'InputMap.cc',A+'ConsoleInput.cc'],[('sequence table',A+'DefaultInputMap.cc'),('longest-match trie',A+'InputMap.cc')],(),['console input records'])
p('C13','Mouse reports become the console mouse events they stand for',
 'A mouse report in any of the three terminal encodings arrives, when mouse input is active, as one console mouse event at the reported position relative to the console window and clamped to it, with the right button state, movement, wheel, double-click flag and modifiers; releases release the button they name and reports never leak as text.',
 ['inputs','histories'],'all histories of press, release, drag, move and wheel reports in all three encodings with all modifier bits and coordinates of any size, at any time distance and window position',
 'No test sends a mouse report.',
 [A+'ConsoleInput.cc'],[('mouse report decoding',A+'ConsoleInput.cc: scanMouseInput'),('button state machine',A+'ConsoleInput.cc: dispatchMouse...')],[('button state and last click','for double-click detection',A+'ConsoleInput.h')],['console input records'])
p('C14','Incomplete escape sequences and terminal queries resolve without losing input',
 'An incomplete escape sequence left in the input is delivered as the keys it consists of after the timeout and not before, a cursor-position query is sent to the terminal only to resolve such a case and once until it is answered, and its reply is never delivered as key presses whatever surrounds it.',
 ['inputs','schedules'],'all input streams cut anywhere with all pauses, with terminals that answer the query at any time or never',
 'No test sends input; the behaviour depends on time.',
 [A+'ConsoleInput.cc',A+'Agent.cc',A+'DsrSender.h'],[('escape timeout',A+'ConsoleInput.cc: flushIncompleteEscapeCode'),('DSR',A+'ConsoleInput.cc: scanInput, Agent.cc: sendDsr')],[('query outstanding flag','',A+'ConsoleInput.h')],['console input records','conout byte stream'])
p('C15','Ctrl-C and terminal-input mode follow the console input mode',
 'A typed Ctrl-C interrupts the program when the console processes Ctrl-C and is delivered as a key otherwise, and when the program asked for terminal-style input, keys reach it as the escape sequences such a console produces, all in the order typed.',
 ['inputs','histories'],'all input streams mixed with all changes of the console input mode',
 'No test sends input or changes modes.',
 [A+'ConsoleInput.cc'],[('Ctrl-C',A+'ConsoleInput.cc: doWrite/scanInput'),('terminal input',A+'ConsoleInput.cc: appendKeyPress')],(),['console input records','window messages','control events'])
p('C16','RPC messages survive any splitting, delay or size',
 'Every library call is carried out exactly once with exactly its arguments and gets its own reply, however the messages in both directions are split, delayed or buffered on the pipe and however long they are.',
 ['schedules','inputs'],'all sequences of library calls with all argument sizes, under all completion orders and transfer sizes of the overlapped pipe operations',
 'trivial_test makes one spawn with default pipe timing.',
 [L+'winpty.cc',A+'Agent.cc',A+'NamedPipe.cc',S+'Buffer.cc'],[('length-prefixed packets',L+'winpty.cc: readPacket; '+A+'Agent.cc: pollControlPipe'),('overlapped I/O workers',A+'NamedPipe.cc')],(),['library results','console state','recorded process creations'])
p('C17','A spawn request reaches process creation unchanged',
 'The program, command line, working directory, environment block and handle requests given to a spawn call reach process creation exactly (absent stays absent), returned handles are usable in the caller and leave no copy in the agent, and a failed creation returns the system error code and leaves the session usable.',
 ['inputs','histories'],'all strings (any UTF-16 unit, any length), all environment blocks including empty ones, all flag and handle combinations and all outcomes of process creation, repeated after failures',
 'trivial_test spawns one fixed command line.',
 [L+'winpty.cc',A+'Agent.cc',S+'Buffer.cc',S+'StringUtil.h'],[('field encoding',S+'Buffer.cc'),('argument construction',A+'Agent.cc: handleStartProcessPacket'),('handle transfer',L+'winpty.cc: stealHandle')],(),['recorded process creations','library results','handle tables'])
p('C18','Malformed RPC data is rejected cleanly on both sides',
 'If the peer on the control pipe sends data that is not a valid message (truncated, oversized lengths, wrong field types, trailing bytes), the library call fails with an error and no memory is misused, and the agent ends the session without crashing or acting on the malformed message.',
 ['inputs'],'all byte strings as messages, in particular all single mutations of valid ones',
 'Both ends are always well-behaved in the tests.',
 [L+'winpty.cc',A+'Agent.cc',S+'Buffer.cc'],[('typed field decoding with bounds checks',S+'Buffer.cc'),('size validation',L+'winpty.cc: readPacket; '+A+'Agent.cc: pollControlPipe')],(),['library results','agent process end state','sanitizer reports'])
p('C19','Library calls honour the error contract under every failure',
 'If any system call fails, the agent dies, hangs or closes its pipe at any point, each library call still returns: with its failure value, an error object with the documented code and a message, cleared outputs, and no I/O still in flight on the caller memory; a session whose RPC failed refuses later calls instead of desynchronising.',
 ['fault_sequences','crash_points','histories'],'all single failures of any system call or memory allocation, agent deaths and hangs at every point of every call sequence, with any timeout',
 'Failures are never injected in the tests.',
 [L+'winpty.cc',L+'AgentLocation.cc',S+'WindowsSecurity.cc',S+'WinptyException.cc',S+'OwnedHandle.cc'],[('exception translation',L+'winpty.cc: translateException'),('pending I/O cancellation',L+'winpty.cc: PendingIo'),('pipe closed on RPC failure',L+'winpty.cc: RpcOperation')],(),['library results','pending operations','handle table'])
p('C20','Shutdown delivers all output before the stream ends',
 'With automatic shutdown, when the program exits the output streams carry everything it had written and then end, not before the client has connected and read it; the agent exits afterwards exactly if that was requested, and without automatic shutdown the streams stay open.',
 ['schedules','histories'],'all times of child exit relative to drawing, polling, client connection and reading, for all output volumes and flag combinations',
 'trivial_test observes a single timing.',
 [A+'Agent.cc',A+'NamedPipe.cc'],[('deferred close',A+'Agent.cc: autoClosePipesForShutdown'),('scrape after exit check',A+'Agent.cc: onPollTimeout')],(),['conout/conerr stream content and end','agent process state'])
p('C21','Session pipes are private to the user and the right agent',
 'All pipes of a session have unpredictable distinct names, allow a single instance that must be the first of its name, reject remote clients where the system can, grant access only to the owner, administrators and the system, and the library refuses a control connection that does not come from the agent it started.',
 ['configurations','histories','fault_sequences'],'all Windows versions, session sequences, random-source failures, and other processes that connect first or squat a name',
 'No test inspects pipe attributes or plays an intruder.',
 [L+'winpty.cc',A+'NamedPipe.cc',S+'WindowsSecurity.cc',S+'GenRandom.cc'],[('security descriptor',S+'WindowsSecurity.cc'),('client pid check',L+'winpty.cc: verifyPipeClientPid'),('unique names',S+'GenRandom.cc')],(),['pipe creation arguments','library results'])
p('C22','Output bytes do not depend on how fast or in what pieces they are read',
 'For the same console history, the bytes delivered on the output streams are the same however slowly the client reads and however the pipe operations complete; nothing is lost, duplicated or reordered, and input keeps being processed while output is blocked.',
 ['schedules'],'all reader speeds, buffer sizes and completion orders of pipe operations, with input flowing at the same time',
 'The tests read with one timing.',
 [A+'NamedPipe.cc',A+'EventLoop.cc',A+'NamedPipe.h'],[('output queue and worker',A+'NamedPipe.cc: OutputWorker')],[('output queue','bytes not yet written to the pipe',A+'NamedPipe.h')],['conout byte stream'])
p('C23','Standard error stays on its own stream',
 'In separate-error mode the program gets the console input, the main screen buffer and an inheritable error buffer as its standard handles, what it writes to each buffer appears on the corresponding stream only, and both streams follow the guarantees of the main one through resizing and shutdown.',
 ['histories','configurations'],'all interleavings of writes to both buffers, screen buffer activations, resizes and exits',
 'No test requests the error stream.',
 [A+'Agent.cc',A+'Scraper.cc',A+'Win32ConsoleBuffer.cc'],[('second scraper',A+'Agent.cc: scrapeBuffers'),('std handles',A+'Agent.cc: handleStartProcessPacket')],(),['conout and conerr streams','recorded process creation'])
p('C24','The adapter quotes command lines so that arguments survive',
 'The command line that the console adapter builds from its arguments parses back, by the standard Windows rules, to exactly those arguments.',
 ['inputs'],'all argument vectors, in particular with quotes, backslash runs, spaces, tabs and empty arguments',
 'The adapter is never run by the tests.',
 [U+'main.cc'],[('quoting',U+'main.cc: argvToCommandLine')],(),['command line passed to the spawn configuration'])
p('C25','The adapter relays bytes verbatim between terminal and pipes',
 'Bytes read from the terminal reach the input pipe and bytes read from the output pipe reach the terminal, all of them, in order and unmodified, under any pattern of short reads, short writes and interruptions, and both directions stop promptly and signal completion when either side ends.',
 ['schedules','fault_sequences'],'all byte streams with all patterns of short, interrupted and failing transfers and any shutdown moment',
 'The adapter is not built by the tests.',
 [U+'InputHandler.cc',U+'OutputHandler.cc',U+'Util.cc',U+'WakeupFd.cc'],[('write loop',U+'Util.cc: writeAll'),('relay threads',U+'InputHandler.cc, '+U+'OutputHandler.cc'),('wakeup',U+'WakeupFd.cc')],(),['bytes on the file descriptors and pipe handles'])
p('C26','Concurrent library calls do not mix',
 'Calls made from several threads at once, on one session or on several ones, opened at once or not, each take effect exactly once, on their own session, and each get their own result, for every interleaving.',
 ['schedules'],'all interleavings of concurrent resize, process-list and spawn calls, including calls that fail or time out while others wait',
 'trivial_test is single-threaded.',
 [L+'winpty.cc',S+'Mutex.h'],[('per-session lock',L+'winpty.cc')],(),['library results'])
p('C27','The agent never outlives or hangs its session',
 'The agent keeps serving while its client is connected and ends its process within bounded time once the client closes the session or dies, at any moment including start-up and with output blocked, without busy-waiting or crashing and, once it is serving, without failing an internal assertion on the way.',
 ['crash_points','schedules'],'all points at which the client disconnects any of the pipes, with any pending I/O',
 'trivial_test ends in one way only.',
 [A+'Agent.cc',A+'EventLoop.cc',A+'NamedPipe.cc',S+'WinptyAssert.cc'],[('control pipe end',A+'Agent.cc: pollControlPipe'),('pipe error handling',A+'NamedPipe.cc: serviceIo'),('console teardown',S+'WinptyAssert.cc: agentShutdown')],(),['agent process state','window messages'])
p('C28','The process list call reports the console processes',
 'The process-list call returns the number of processes attached to the console and fills the caller array with exactly their ids when they fit, leaves it untouched when they do not, and in both cases leaves the session usable.',
 ['inputs','histories','schedules'],'all process counts (also growing while being read) against all array sizes, repeatedly',
 'No test calls it.',
 [L+'winpty.cc',A+'Agent.cc'],[('list retrieval loop',A+'Agent.cc: handleGetConsoleProcessListPacket'),('reply decoding',L+'winpty.cc: winpty_get_console_process_list')],(),['library results'])
p('C29','Sessions release every system resource',
 'After a session is freed, or failed to open, in whatever state it was, the client process holds exactly the handles it was given on purpose and those it had before, no memory of the session is still allocated, and while a session runs the agent handle count does not grow with use.',
 ['histories','fault_sequences'],'all histories of open, spawn, resize, failures and free; long-running use of the agent',
 'No test counts handles.',
 [L+'winpty.cc',S+'OwnedHandle.cc',A+'NamedPipe.cc',A+'Agent.cc',S+'WindowsSecurity.cc'],[('owned handles',S+'OwnedHandle.cc')],(),['handle tables of both processes'])
p('C30','Old systems run the agent on a hidden desktop without side effects',
 'Where a background desktop is needed, the agent is started on it, programs are started on the original desktop, the caller window station is unchanged after opening a session, and failure to create a desktop falls back to the original one.',
 ['configurations','fault_sequences'],'all Windows versions, desktop-creation flags and failures of any desktop call',
 'The test machine never needs a background desktop.',
 [L+'winpty.cc',S+'BackgroundDesktop.cc',A+'AgentCreateDesktop.cc'],[('desktop setup',L+'winpty.cc: setupBackgroundDesktop'),('RAII desktop',S+'BackgroundDesktop.cc')],(),['process creation arguments','window station of the caller'])
p('C31','The adapter runs the program it was asked for and reports how it ended',
 'The console adapter starts the program that a path names, or else the first executable file of that name on PATH (with .exe added to a name without an executable extension), with its arguments, with TERM removed from its environment and the debugging variables passed on. It exits with the exit code of the program after all its output, or with code 1 and a message, without touching the terminal modes, when the program cannot be found or started.',
 ['inputs','configurations','fault_sequences'],'all program names, search paths, file systems (links, unreadable or non-executable files), environments, exit codes and start failures',
 'The adapter is never run by the tests.',
 [U+'main.cc',U+'Util.cc'],[('search',U+'main.cc: findProgram, resolvePath'),('environment',U+'main.cc: setupWin32Environment'),('exit code',U+'main.cc: main')],(),['command line and environment passed to the library','exit code and error text of the adapter'])
p('C32','The console follows the adapter terminal, whose modes are restored',
 'The console is created with the size of the terminal (80x25 without one) and has the size of the terminal again after every size change, whenever it happens. While the program runs the terminal is in raw mode, and whenever and however the session ends every terminal gets exactly its previous modes back; without the needed terminals the adapter refuses to run and leaves them untouched.',
 ['histories','schedules','fault_sequences'],'all terminal modes and sizes, size changes at any time from the start of the adapter on, interrupted system calls, combinations of streams that are no terminals, and all kinds of ends (program, agent, terminal)',
 'The adapter is never run by the tests.',
 [U+'main.cc',U+'WakeupFd.cc',U+'Util.cc'],[('terminal modes',U+'main.cc: setRawTerminalMode, restoreTerminalMode'),('resize signal',U+'main.cc: terminalResized, registerResizeSignalHandler'),('main loop',U+'main.cc: main')],[('last known size','compared with the terminal after each wakeup',U+'main.cc')],['terminal attributes','resize requests'])
p('C33','Debug tracing never changes a session, and each trace message is well formed',
 'With WINPTY_DEBUG asking for tracing, every result and error of the library, the output stream, the console input and the end of a session are the same as without it, whether no debug server runs, one runs, one is busy for a while or is killed at any moment, also when system calls fail. Nothing is sent unless the variable contains the flag trace or 1; each message sent is whole, at most 1,023 bytes, names its process, and goes to the debug server once, in the order of its thread.',
 ['inputs','histories','configurations','fault_sequences'],'all session histories, values of WINPTY_DEBUG, states of the debug server (absent, running, busy, killed) and failing system calls',
 'No test runs a session, with tracing or without.',
 [S+'DebugClient.cc',S+'DebugClient.h',S+'WinptyAssert.cc',A+'main.cc'],[('message delivery, last error preserved',S+'DebugClient.cc: sendToDebugServer, PreserveLastError'),('flags',S+'DebugClient.cc: hasDebugFlag, isTracingEnabled'),('formatting',S+'DebugClient.cc: trace')],[('debug configuration','value of WINPTY_DEBUG, read once',S+'DebugClient.cc')],['results of winpty.h functions','output stream','messages at the debug pipe'])
p('C34','The debug server shows every message once, whole, and admits only its user',
 'The debug server prints each message of up to 4,096 bytes that a client sends, once, unaltered, followed by a line break and in the order of arrival, and acknowledges it only after printing it; clients that connect early, connect without sending, send too much, do not wait for the answer or die neither stop it nor cost anybody else a message. Its pipe is the first and only instance, local, and open to other users only with --everyone; it refuses to run when the name is taken, the access list cannot be made, or the arguments are wrong.',
 ['inputs','schedules','fault_sequences','configurations'],'all numbers of clients, messages, orders and moments of their system calls, kinds of careless clients, failing security calls',
 'The debug server is built, but never run, by the tests.',
 ['src/debugserver/DebugServer.cc',S+'WindowsSecurity.cc'],[('serving loop','src/debugserver/DebugServer.cc: main'),('access list',S+'WindowsSecurity.cc: createPipeSecurityDescriptorOwnerFullControlEveryoneWrite')],[],['standard output of the server','answer to the client','pipe creation arguments'])
for x in P: print(json.dumps(x))
