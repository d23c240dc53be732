import os
H = os.path.dirname(os.path.abspath(__file__))
COV = "-O1 -g -fsanitize-coverage=trace-pc-guard"
SAN = "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"
OBJS = ["main.cpp", "diff.cpp", "gen.cpp", "model.cpp", "special.cpp", "term.cpp", "alloc.cpp"]
CONFIGS = {
    "cov": dict(what="clang -O1, edge coverage of the library", cflags=COV, objs=OBJS),
    "asan": dict(what="clang AddressSanitizer + UndefinedBehaviorSanitizer, every report fatal", cflags=SAN, objs=OBJS,
                 ldflags="-fsanitize=address,undefined", lflags=["-fsanitize=address,undefined"]),
    "util": dict(what="helpers and library, clang AddressSanitizer + UndefinedBehaviorSanitizer, every report fatal", cflags=SAN, objs=OBJS + ["util.cpp"], util=True,
                 ldflags="-fsanitize=address,undefined", lflags=["-fsanitize=address,undefined"]),
    "gtk": dict(what="example terminal and library, clang AddressSanitizer + UndefinedBehaviorSanitizer (with float-cast-overflow, without function), every report fatal", cflags=SAN + " -fno-sanitize=function", objs=OBJS + ["gtk.cpp"], gtk=True,
                ldflags="-fsanitize=address,undefined", lflags=["-fsanitize=address,undefined"]),
    "plain": dict(what="clang -O1 below valgrind memcheck", cflags="-O1 -g", objs=OBJS, prefix=["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--undef-value-errors=yes"]),
    "tsan": dict(what="clang ThreadSanitizer, every report fatal", cflags="-O1 -g -fsanitize=thread", ldflags="-fsanitize=thread", wrap=False, objs=OBJS + ["conc.cpp"],
                 hflags=["-fsanitize=thread"], lflags=["-fsanitize=thread"]),
    "debug": dict(what="clang -O1 with the debug messages of ENABLE_EXTRA_DEBUG, edge coverage", cflags=COV + " -DBUILD_ENABLE_DEBUG", objs=OBJS),
    "asandebug": dict(what="as asan, with the debug messages of ENABLE_EXTRA_DEBUG", cflags=SAN + " -DBUILD_ENABLE_DEBUG", objs=OBJS,
                 ldflags="-fsanitize=address,undefined", lflags=["-fsanitize=address,undefined"]),
    "age8": dict(what="age counter of 8 bits", cflags=COV + " -include " + H + "/small_age8.h", hflags=["-include", H + "/small_age8.h"], objs=OBJS),
    "age16": dict(what="age counter of 16 bits", cflags=COV + " -include " + H + "/small_age16.h", hflags=["-include", H + "/small_age16.h"], objs=OBJS),
}
CHECKS = {}
for p in "C01 C02 C03".split(): CHECKS[p] = dict(stages=[dict(cfg="asan")], rule="x")
for p in "C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C35 C36 C37 C40 C41 C43 C46 C47".split(): CHECKS[p] = dict(stages=[dict(cfg="cov")], rule="x")
for p in "C29 C30 C31 C32 C33 C42".split(): CHECKS[p] = dict(stages=[dict(cfg="util")], rule="x")
CHECKS["C18"]["stages"] += [dict(cfg="age8", own_states=True), dict(cfg="age16", own_states=True)]
CHECKS["C36"]["stages"] += [dict(cfg="debug", scale=0.5)]
CHECKS["C01"]["stages"] += [dict(cfg="asandebug", scale=0.3)]
CHECKS["C39"] = dict(stages=[dict(cfg="cov"), dict(cfg="plain", scale=0.04)], rule="x")
for p in "C44 C45 C48".split(): CHECKS[p] = dict(stages=[dict(cfg="gtk")], rule="x")
CHECKS["C38"] = dict(stages=[dict(cfg="tsan", jobs=4)], rule="x")
CHECKS["C34"] = dict(stages=[dict(cfg="exports")], rule="x")

# ---- what a case is, what the run must have observed, assumptions ----
DIFF = ("a case is a history of operations (bytes from the client, calls of the application) drawn from a boundary-biased generator that knows the current state; "
        "library and reference model execute it side by side and %s are compared after every operation; a case counts as distinct and non-trivial by the hash of the final drawing, cursor, history size and flags")
STATE = "; cases are distinct and non-trivial by the hash of the final drawing, cursor and output"
STATE_U = "; cases are distinct and non-trivial by the hash of what the container held at the end and of what was done to it"
A_MODEL = "the reference model (harness/model.hpp) states what the terminal's documentation and the protocols it cites ask for; where those leave a choice it follows the library (list in DESIGN.md)"
A_SAMPLE = "histories are sampled, not enumerated: a violation that needs an arrangement the generator does not reach goes unseen"
A_SIZE = "screens up to 140x300 and 1100x3, histories up to some hundred operations"
A_SAN = "clang's AddressSanitizer and UndefinedBehaviorSanitizer see every access made by the instrumented library"


def meta(p, rule, need, technique, note, assume=(), level="exploration", **kw):
    CHECKS[p].update(rule=rule, need=need, technique=technique, note=note, assumptions=list(assume) + [A_SAMPLE], level=level, **kw)


def diff(p, what, need, extra=""):
    n = {"operations": 1000}
    n.update(need)
    meta(p, DIFF % what, n, "differential runtime monitor: library against an independent reference model, step by step",
         "exploration: no counterexample among the generated histories (quick: tens of thousands, thorough: millions). Trusts the reference model" + extra, [A_MODEL, A_SIZE])


diff("C07", "cells, attributes, cursor, modes, replies, OSC strings and mouse state", {"csi": 10000, "esc": 1000, "cells_compared": 100000}, "; adds junk, aborted and overlong sequences to ordinary ones")
diff("C08", "cells, attributes and the cursor", {"chars_printed": 10000, "autowraps": 100, "cells_compared": 100000})
diff("C09", "cursor and attributes", {"operations": 100000})
diff("C10", "cells, cursor and history size", {"lines_scrolled": 10000, "cells_compared": 100000})
diff("C11", "cells, attributes and cursor", {"cells_compared": 100000})
diff("C12", "cells, attributes and cursor", {"cells_compared": 100000})
diff("C13", "the cursor", {"operations": 100000})
diff("C14", "cells, attributes, history size and position, seen at every position of the view,", {"lines_scrolled": 10000, "lines_dropped": 1000, "cells_compared": 100000})
diff("C15", "cells, history size and reported position", {"lines_scrolled": 10000, "cells_compared": 100000})
diff("C16", "cells, attributes, cursor, flags and history size", {"cells_compared": 100000})
diff("C17", "cells, attributes and the default attribute", {"csi": 10000, "op_PAL": 100, "op_CPAL": 100, "cells_compared": 100000})
diff("C19", "highlighted cells and copied texts", {"selections_copied": 10000, "multi_line_selections": 1000, "cells_compared": 100000})
diff("C21", "bytes to the client, return values, mouse callbacks and queries", {"op_MOUSE": 10000, "bytes_to_client": 10000, "mouse_notices": 1000})
diff("C22", "bytes to the client", {"bytes_to_client": 10000})
diff("C23", "delivered strings, cells and cursor", {"osc_strings": 10000})
diff("C25", "cells, attributes, cursor and flags", {"cells_compared": 100000, "esc": 10000})
diff("C26", "cells and cursor", {"cells_compared": 100000, "esc": 10000})
diff("C27", "flags, cells, attributes and cursor", {"csi": 10000, "cells_compared": 100000})
diff("C28", "cells, attributes, cursor, size and history size", {"op_RESIZE": 10000, "cells_compared": 100000})
diff("C37", "cells, attributes, cursor, bytes to the client, return values and flags", {"op_KEY": 10000, "bytes_to_client": 10000})
diff("C43", "everything observable (cells, attributes, cursor, modes, history, replies, OSC strings, mouse state, default attribute)", {"csi": 10000, "op_RESIZE": 1000, "cells_compared": 1000000})
diff("C46", "everything observable, also from within the callbacks,", {"calls_in_callbacks": 10000, "calls_in_callback_OSC": 1000, "calls_in_callback_mouse": 1000, "calls_in_callback_write": 1000, "cells_compared": 1000000})
diff("C47", "everything observable of the emulator that is driven and of the shared screen", {"op_VSWAP": 10000, "op_VNEW": 1000, "op_VDROP": 1000, "cells_compared": 1000000})
meta("C06", "an enumerated part feeds the encodings of all code points and all ill-formed combinations of boundary bytes, a random part mixes well- and ill-formed pieces; cells and cursor are compared with an independent decoder"
     + STATE, {"bytes_decoded": 1000000, "cells_compared": 100000}, "differential runtime monitor: library against an independent UTF-8 decoder; all code points enumerated",
     "exploration with an exhaustive part: every code point's encoding, and every pair of bytes from the boundaries of the encoding, are executed; mixtures are sampled", [A_MODEL])
meta("C20", "an enumerated part presses all key symbols of the handled ranges with all modifier sets in all keyboard modes, a random part mixes keys with mode changes; bytes sent and result are compared with an independent key table"
     + STATE, {"keys_consumed": 10000, "bytes_to_client": 100000}, "differential runtime monitor: library against an independent key table; key symbols, modifiers and modes enumerated",
     "exploration with an exhaustive part (key symbols 0xff00-0xffff and printable ASCII, all modifiers, all modes)", [A_MODEL])
meta("C01", "a case is a history of hostile operations (mutated and truncated sequences, huge and boundary arguments, noise) executed by the library built with AddressSanitizer and UndefinedBehaviorSanitizer, inputs in blocks of exactly their length" + STATE,
     {"operations": 100000, "bytes_in": 100000}, "AddressSanitizer + UndefinedBehaviorSanitizer under hostile random histories",
     "exploration: no report in the executed histories; trusts the sanitizers", [A_SAN, "documented preconditions hold: objects passed in are alive, callbacks do not re-enter the terminal"])
meta("C02", "a case is a history during which allocations fail (the k-th from now, once or for good; for the constructors every k); the same history runs without failures beside it; the screens, results and live blocks are compared" + STATE,
     {"failures_injected": 10000, "failed_calls_retried": 1000}, "fault injection into the allocator with ownership monitor, twin comparison, AddressSanitizer",
     "fault_enumeration: every allocation of the constructors and of string conversion fails once and for good; inside histories the failing allocation is sampled", [A_SAN, "allocation goes through malloc, calloc, realloc, strdup and the like, called by the library itself"], level="fault_enumeration")
meta("C03", "a case takes and drops references to one screen and up to three terminals on it in random order between random operations; blocks allocated by the library are recorded one by one" + STATE,
     {"objects_destroyed": 1000, "refs": 10000, "unrefs": 10000}, "allocation monitor (live blocks, double and foreign frees) + AddressSanitizer under random reference histories",
     "exploration: every destruction in the run left nothing behind and no object died early", [A_SAN])
meta("C04", "a case is a hostile history with drawings in between, each checked cell by cell (coverage, order, width, glyph identity), with the cursor and inverse video toggled to see exactly what they invert" + STATE,
     {"frames": 10000, "cells": 1000000, "highlight_probes": 1000}, "online monitor of the drawing contract",
     "exploration: every drawing observed satisfied the contract", [A_SIZE])
meta("C05", "a case feeds the same history to two terminals, one in one piece and one cut up (single bytes, random pieces, empty pieces), and compares everything observable" + STATE,
     {"pieces": 10000, "bytes": 100000}, "metamorphic runtime monitor: twin terminals with differently cut input", "exploration: no difference in any executed pair")
meta("C18", "a case draws at random moments of a hostile history into a cache that skips cells exactly as a renderer would, with the age counter at its normal width and narrowed to 8 and 16 bits; skipped cells must equal the full drawing" + STATE,
     {"cells_skipped_as_unchanged": 100000, "age_resets": 100}, "online monitor: incremental renderer against full redraw",
     "exploration: no stale cell in any frame; the narrowed counters make its wrap-around reachable and are set by redefining the type of the age when building")
meta("C24", "a case lets one terminal live through a history, resets it, and compares it with a newly made one of the same size and settings, at once and while both get the same further input" + STATE,
     {"operations_before_reset": 100000, "operations_after_reset": 100000}, "metamorphic runtime monitor: reset terminal against a new one", "exploration: no difference in any executed pair")
meta("C35", "a case brings a terminal into a random state, makes every public call with each invalid argument, and compares results and the terminal with an untouched twin" + STATE,
     {"rejected_calls": 10000}, "runtime monitor: return values and twin comparison", "exploration: all functions and invalid arguments in each of the sampled states")
meta("C36", "a case runs the same history twice, once with observations (drawings with all callback results, copies, queries, references, empty input) inserted at random, and compares everything observable" + STATE,
     {"observations": 10000, "messages_logged": 1000}, "metamorphic runtime monitor: observed against unobserved terminal", "exploration: no difference in any executed pair")
meta("C38", "a case runs several terminals, each with its own history, alone, interleaved in one thread and in parallel threads with random pauses under ThreadSanitizer; transcripts must agree; distinct by the observed global order of operations",
     {"threads": 100, "thread_switches_observed": 1000}, "ThreadSanitizer + transcript comparison (alone, interleaved, parallel)", "exploration: no race reported and no difference in any executed schedule",
     ["ThreadSanitizer sees every access made by the instrumented library", "each terminal is used by one thread at a time"])
meta("C39", "a case runs the same history with fresh memory filled with 0xa5 and with 0x5a and compares all results and drawings including ages; a part runs below valgrind memcheck, which also checks that everything handed out is defined" + STATE,
     {"frames_compared": 10000, "operations_under_memcheck": 1000, "cells_checked": 10000}, "valgrind memcheck + comparison of runs with differently poisoned memory", "exploration: no dependence seen in the executed histories",
     ["stack memory is only covered by the memcheck part"])
meta("C40", "a case is a hostile history with huge numbers and endless sequences; executed branches per call and allocated bytes are compared with a bound computed from input length, screen and history size" + STATE,
     {"steps": 1000000, "bytes_in": 100000}, "online monitor: edge counter of the instrumented library and bytes held by its allocator, against a bound", "exploration: the bound held for every executed call; the largest fraction of the bound seen is in the evidence",
     ["one executed edge stands for a bounded amount of work; calls of memmove and the like count as one"])
meta("C41", "a case feeds one terminal ESC forms and its twin the same input with a random subset replaced by C1 controls, and compares everything observable" + STATE,
     {"c1_controls_exchanged": 10000}, "metamorphic runtime monitor: twin terminals", "exploration: no difference in any executed pair")
meta("C29", "all code points are converted and measured, 32-bit values beyond and strings are sampled; compared with an independent encoder and the width table; a case is a block of 4096 code points or a batch of strings",
     {"code_points": 1114112, "strings": 10000}, "exhaustive execution over all code points against an independent encoder, AddressSanitizer + UndefinedBehaviorSanitizer", "exhaustive over all 1114112 code points; larger values and strings sampled",
     [A_SAN, "the width table was extracted from external/wcwidth when the check was written"])
meta("C30", "a case appends characters to random known symbols, looks symbols up and lets allocations fail; compared with a map from sequences to symbols" + STATE_U,
     {"appends": 10000, "found_again": 1000, "failed_for_memory": 1000}, "online monitor: dictionary specification, fault injection, AddressSanitizer", "exploration: no deviation in the executed histories", [A_SAN])
meta("C31", "a case is a sequence of insertions, lookups, removals, visits and clears with one of several hash qualities and address patterns, with failing allocations; compared with a multimap" + STATE_U,
     {"operations": 100000, "removed": 10000, "failed_for_memory": 1000}, "online monitor: set specification, fault injection, AddressSanitizer", "exploration: no deviation in the executed histories",
     [A_SAN, "elements are not the address 1, which the table reserves"])
meta("C32", "a case is a sequence of pushes, pulls, peeks, copies, flushes and failures with random and boundary sizes; compared with a queue of bytes" + STATE_U,
     {"bytes_pushed": 100000, "wrapped_states": 1000, "failed_for_memory": 100}, "online monitor: queue specification, fault injection, AddressSanitizer", "exploration: no deviation in the executed histories", [A_SAN])
meta("C42", "a case is a sequence of pushes, pops, resizes and failures with random element size; compared with a vector" + STATE_U,
     {"operations": 100000, "failed_for_memory": 1000}, "online monitor: vector specification, fault injection, AddressSanitizer", "exploration: no deviation in the executed histories", [A_SAN])
meta("C33", "a case runs up to three pseudo terminals with real child processes that report and produce numbered bytes, with interrupted and shortened system calls, pauses, resizes and signals; every byte is checked at both ends; distinct by what was exchanged",
     {"bytes_to_children": 100000, "bytes_from_children": 100000, "interrupted_calls": 100, "shortened_calls": 100, "signals": 10, "resizes": 10},
     "online monitor: order, conservation and liveness of the byte streams with fault injection into system calls", "exploration: no byte lost, repeated, reordered or stuck in the executed schedules",
     [A_SAN, "liveness means: nothing arrives although the bridge reports nothing ready and all children are idle"])
meta("C34", "every function the installed header declares is looked up in the dynamic symbol table and in the version script, linked, resolved and called by generated programs (C and C++, pkg-config and cmake, with and without version script); a case is a function",
     {"functions_declared": 50}, "execution of generated programs against the installed library", "exhaustive over the declared functions; toolchain of this machine", level="exploration", exhaustive=True)
CHECKS["C34"]["assumptions"] = ["declarations are read from the header by gcc"]
GTK_RULE = "a case is a history of the example terminal's widget (output of the child, window sizes, keys, mouse, property changes, child exits and restarts, with and without the event loop running in between); "
A_GTK = "GTK's base class, event delivery and the pseudo terminal are stand-ins; pango and cairo are the installed ones"
meta("C44", GTK_RULE + "after every event the painted window is compared, pixel by pixel, with the picture that the reference model and glyphs painted in isolation ask for; distinct by the final picture",
     {"pictures": 10000, "cells_compared": 100000, "op_MOUSE": 1000, "op_PAL": 10},
     "pixel-level runtime monitor of the real widget on stand-ins for GTK's base class and the pseudo terminal, under AddressSanitizer + UndefinedBehaviorSanitizer",
     "exploration: no wrong pixel in the executed histories", [A_MODEL, A_SAN, A_GTK])
meta("C45", GTK_RULE + "after every event the bytes and signals that the child got, the size of its terminal, the reports of the widget and its properties are compared with those the reference model asks for; distinct by everything sent to the child",
     {"bytes_to_child": 10000, "titles": 100, "op_KEY": 1000, "op_VHARD": 50, "op_PAL": 100},
     "online monitor of the real widget's communication on stand-ins for GTK's base class and the pseudo terminal, under AddressSanitizer + UndefinedBehaviorSanitizer",
     "exploration: no lost key, report or size in the executed histories", [A_MODEL, A_SAN, A_GTK])
meta("C48", "a case is a run of the whole example program in a process of its own: environment, command line, later invocations and activations, output and ends of children, windows closed by the user; whenever its main loop is idle, windows, titles, properties, children with what they execute, messages, statuses and releases are compared with the specification; distinct by command lines, environment, titles and replies",
     {"invocations": 5000, "windows": 3000, "titles": 1000, "refused": 200, "child_ends": 500, "closes": 300, "values_tracked": 500},
     "online monitor of the real program (real children, recorded executions) on stand-ins for GTK's application and window classes, under AddressSanitizer + UndefinedBehaviorSanitizer",
     "exploration: no deviation in the executed runs", [A_SAN, "GTK's application and window classes, event delivery and the pseudo terminal are stand-ins, GLib's application, options and main loop are the installed ones; no session bus"])
