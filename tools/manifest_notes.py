LEVEL = {}
NA = {}
TECH["C01"] = "model-based random testing (reference terminal vs simulated console), choice-stream shrinking"
NOTE["C01"] = "Random drawing histories against the unmodified agent in a simulated console; exact screen and cursor comparison after settling. Samples, no proof; the Win32 simulator is trusted."
def _t(i, tech, note):
    TECH[i] = tech; NOTE[i] = note
_SIM = " Samples, no proof; the Win32 simulator is trusted."
_t("C03", "model-based random testing (attribute-to-rendition model per cell), choice-stream shrinking", "Random attributes, code pages and console modes; the rendition of every cell of the lines that are printed is compared." + _SIM)
_t("C02", "model-based random testing (endless-paper terminal vs list of printed lines), choice-stream shrinking", "Random scrolling histories with sync markers and buffer wrap-around; every line exactly once and in order. Bounded to about 2,400 lines per poll (more is documented loss)." + _SIM)
_t("C05", "model-based random testing over arbitrary UTF-16 cell contents (text oracle), choice-stream shrinking", "Arbitrary code units, surrogates, full-width pairs and glyph substitutions compared as text." + _SIM)
_t("C06", "stateful random testing (reference terminal vs active screen buffer), choice-stream shrinking", "Random screen-buffer creation, activation, closing and resizing with drawing and racing." + _SIM)
_t("C07", "stateful random testing (window, buffer, size event and paper terminal after each resize), choice-stream shrinking", "Random resize requests mixed with (possibly racing) drawing; one known finding is listed." + _SIM)
_t("C23", "stateful random testing (two reference terminals, one per stream), choice-stream shrinking", "Random interleavings on both buffers with activation, resizing and exit." + _SIM)
_t("C04", "stateful random testing (raw stream scan, marked-line order oracle), choice-stream shrinking", "Random drawing, titles, input modes, pending input and resizes under both plain configurations." + _SIM)
_t("C08", "stateful random testing (reference mouse-mode function compared every millisecond), choice-stream shrinking", "Random input-mode histories under every mouse and output mode, with shutdown at random points." + _SIM)
_t("C09", "stateful random testing (title history oracle), choice-stream shrinking", "Random console titles of any length, racing with the poll, on every Windows version." + _SIM)
_t("C10", "random testing against an independent UTF-8 decoder and key-event model, choice-stream shrinking", "Random text in all planes, Alt prefixes, malformed fragments and long pastes, two keyboard layouts." + _SIM)
_t("C11", "metamorphic random testing (divisions of one input stream), choice-stream shrinking", "Token and byte soup, written whole and divided, under different I/O schedules." + _SIM)
_t("C12", "random testing against an independent key table, choice-stream shrinking", "All terminal key encodings with modifiers, mixed with text and divided into pieces." + _SIM)
_t("C13", "stateful random testing (reference mouse model), choice-stream shrinking", "Random mouse histories in three encodings with window movement and mode changes." + _SIM)
_t("C14", "stateful random testing (timed reference model of pending input and queries), choice-stream shrinking", "Incomplete sequences resolved by silence, replies at any time or further input; clock wrap-around." + _SIM)
_t("C15", "stateful random testing (reference model of control events and terminal-style input), choice-stream shrinking", "Random input-mode histories." + _SIM)
_t("C16", "random testing against a scripted peer on the control pipe (request/reply log oracle), choice-stream shrinking", "Random call sequences and argument lengths with every fragmentation, delay and completion schedule, both towards a scripted agent and from a scripted client." + _SIM)
_t("C17", "random testing (process-creation record compared with the call's arguments), choice-stream shrinking", "Random programs, command lines, environments, standard-handle requests and creation failures." + _SIM)
_t("C18", "structured fuzzing of the control pipe in both directions under ASan/UBSan, choice-stream shrinking", "Mutated, truncated, oversized and random packets towards the library and towards the agent." + _SIM)
_t("C19", "fault injection at generated points (every fallible system call, allocation, agent death, hang, pipe loss) with an error-contract oracle, choice-stream shrinking", "One to several faults per history over call sequences; documented codes, cleared outputs, no I/O in flight, session refuses later calls." + _SIM)
_t("C20", "stateful random testing (complete-output oracle over exit and read schedules), choice-stream shrinking", "Random final output, exits, connection times, slow readers and shutdown flags." + _SIM)
_t("C21", "random testing with an active adversary (creation-record oracle for every pipe), choice-stream shrinking", "Random systems and sessions; strangers connect to control pipes or own names beforehand. Unpredictability is judged by the system random bytes contained in the name." + _SIM)
_t("C22", "metamorphic random testing (same console history, different read and completion schedules), choice-stream shrinking", "Byte equality of the streams of one history re-run under different schedules." + _SIM)
_t("C26", "random interleaving exploration of concurrent calls against sequential expectations, choice-stream shrinking", "Two to six threads on one to three sessions, preempted at random system calls, against real and scripted agents." + _SIM)
_t("C27", "random fault timing (client death or free at any moment, blocked output) with liveness and assertion oracle, choice-stream shrinking", "The end of the client at random system calls from start-up on; bounded exit of the agent, no spinning." + _SIM)
_t("C28", "stateful random testing (set of attached processes), choice-stream shrinking", "Random process populations and array sizes with attach and exit in between." + _SIM)
_t("C29", "stateful random testing (handle-table and heap accounting), choice-stream shrinking", "Random session histories including failed opens, dead agents and frees in every state." + _SIM)
_t("C30", "random testing with fault injection into desktop creation (placement oracle), choice-stream shrinking", "All systems, both ways of creating the desktop, every failing step." + _SIM)
_t("C24", "random testing (round trip through an independent Windows command-line parser), choice-stream shrinking", "Random argument vectors rich in quotes, backslash runs, blanks and empty arguments, run through the whole adapter; what reaches the agent is parsed by two independent parsers." + _SIM)
_t("C25", "random testing with fault injection (byte equality of both relays under short, interrupted and failing transfers), choice-stream shrinking", "The whole adapter between a simulated terminal and a scripted agent." + _SIM)
_t("C31", "random testing with fault injection (independent model of the program search, environment and exit code), choice-stream shrinking", "Random file systems, search paths, environments and start failures." + _SIM)
_t("C32", "stateful random testing (history of terminal sizes and modes as oracle), choice-stream shrinking", "Random size changes from the first moment on, interruptions, non-terminals and all kinds of ends." + _SIM)
_t("C33", "metamorphic random testing (same session with and without tracing), fault injection, choice-stream shrinking", "Each session runs twice on the same schedule seed; faults are injected at the same call of the same process, and cases where tracing moves the fault are not compared." + _SIM)
_t("C34", "stateful random testing (multi-client histories against the list of accepted messages), choice-stream shrinking", "One to five clients, honest, careless or dying; scheduling at system-call granularity." + _SIM)
