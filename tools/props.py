"""The property list.  tools/gen.py writes properties.jsonl and MANIFEST.json from this and harness/checks.py."""
T = "src/tsm/"
SCR, VTE, SEL, REN, UNI, CHS = T + "tsm-screen.c", T + "tsm-vte.c", T + "tsm-selection.c", T + "tsm-render.c", T + "tsm-unicode.c", T + "tsm-vte-charsets.c"
API = T + "libtsm.h"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))


prop("C01", "No input or call sequence causes memory errors or undefined behaviour",
     "Whatever bytes a client sends and whatever documented calls the embedding application makes, in any order and with any argument values, the library never accesses memory outside of live objects and never executes undefined behaviour.",
     ["inputs", "histories"], "every byte stream, every sequence of API calls with any numeric arguments, every screen size",
     "The suite feeds a few dozen short well-formed sequences to one or two screen sizes and is built without sanitizers; the defects live in rare combinations (a width-1 screen in insert mode, a huge count, a sequence cut at its last parameter).",
     [SCR, VTE, REN, SEL, UNI], [("argument clamping", SCR + ": cursor, scroll, insert and erase functions"), ("parameter buffer limits", VTE + ": do_param, do_csi"), ("scroll-back bookkeeping", SCR + ": link_to_scrollback, screen_scroll_up")],
     [("screen lines", "arrays of lines and cells that every operation indexes", SCR)], ["every call of the public interface, in a build with AddressSanitizer and UndefinedBehaviorSanitizer"])
prop("C02", "Allocation failure is reported or survived, and never corrupts anything",
     "If any memory allocation fails, a call that can report errors returns an out-of-memory error and the terminal stays usable and consistent: nothing is leaked, freed twice or left dangling, and the same call succeeds once memory is available again. A failed creation leaves no object behind.",
     ["fault_sequences", "histories"], "every allocation of every call that allocates, failing once or from then on, at any point of a history",
     "No test injects an allocation failure.",
     [SCR, VTE, SEL, UNI, "src/shared/shl-htable.c", "src/shared/shl-array.h"], [("error paths of construction and resizing", SCR + ": tsm_screen_new, tsm_screen_resize"), ("allocation while scrolling", SCR + ": screen_scroll_up"), ("selection copy", SEL + ": tsm_screen_selection_copy"), ("palette", VTE + ": tsm_vte_set_palette, tsm_vte_set_custom_palette")],
     [], ["return values, live allocations and the drawn screen, with the library's allocator replaced by one that fails on demand"])
prop("C03", "References are counted and everything is freed exactly once",
     "Objects live exactly as long as somebody holds a reference: a terminal keeps its screen alive, extra references keep an object usable, and when the last reference is dropped all memory that the library allocated for it is released exactly once, whatever the object went through before. Memory handed to the caller is his to free.",
     ["histories"], "every history of operations followed by every order of taking and dropping references",
     "The suite drops each object once, in one order, without looking at the allocator.",
     [SCR, VTE, UNI, SEL], [("reference counts", SCR + ": tsm_screen_ref/unref, " + VTE + ": tsm_vte_ref/unref, " + UNI + ": tsm_symbol_table_ref/unref"), ("release of lines, history and palettes", SCR + ": line_free; " + VTE + ": tsm_vte_unref")],
     [], ["the library's allocation calls, recorded block by block"])
prop("C04", "Drawing covers the grid exactly once and the cursor stays on it",
     "Every drawing reports every cell of the grid exactly once, in reading order, with a width of at most two columns and glyph identities that are equal exactly if text and style are equal, no matter what the renderer's callback returns. The cursor never leaves the screen (the position right behind the last column counts as on it), and it and inverse video change nothing but the inversion of the cells they concern.",
     ["histories", "inputs"], "every screen state reachable by any byte stream and any API calls, scrolled back or not, any size from 1x1",
     "No test draws at all except to compare a handful of cells; none looks at coverage, identities or the cursor cell.",
     [REN, SCR], [("drawing loop", REN + ": tsm_screen_draw"), ("cursor clamping", SCR + ": move_cursor, tsm_screen_resize")],
     [("cursor position", "column and row", SCR)], ["tsm_screen_draw callback, tsm_screen_get_cursor_x/y"])
prop("C05", "The result does not depend on how the input is cut into pieces",
     "Feeding a byte stream in one piece, byte by byte or in any other pieces (also empty ones, also cut inside of a character or a control sequence) gives the same screen, history, cursor, modes, replies and notifications.",
     ["inputs", "schedules"], "every byte stream and every way to split it",
     "The suite always feeds whole sequences in one call.",
     [VTE, UNI], [("byte-wise parser state", VTE + ": tsm_vte_input, parse_data"), ("UTF-8 decoder state", UNI + ": tsm_utf8_mach_feed")],
     [("parser state and decoder state", "what is remembered between two calls", VTE + ", " + UNI)], ["two terminals fed differently, compared through every query and drawing"])
prop("C06", "UTF-8 input is decoded correctly, ill-formed input becomes U+FFFD",
     "Every well-formed UTF-8 encoding of a printable character arrives on the screen as that character. Overlong forms, surrogates, values above U+10FFFF and truncated sequences produce U+FFFD and never another character; stray continuation bytes produce nothing. A byte that cuts a sequence short is itself interpreted as if it came alone (a control acts, a letter is printed, a lead byte starts a new sequence).",
     ["inputs"], "all code points, all ill-formed two- to four-byte combinations of boundary bytes, all mixtures of them",
     "The suite feeds ASCII and two or three multi-byte characters.",
     [UNI, VTE], [("UTF-8 state machine", UNI + ": tsm_utf8_mach_feed"), ("hand-over to the parser", VTE + ": tsm_vte_input")],
     [("decoder", "bytes of an unfinished character", UNI)], ["drawn cells and cursor"])
prop("C07", "Unknown, malformed and aborted control sequences have no effect",
     "Control sequences that are unknown, carry intermediates or private markers that their final byte is not defined with, or are malformed have no effect, and those aborted by CAN, SUB or a new ESC have none either (SUB shows its error sign); control characters inside of a control sequence act at once without disturbing it. Text after the sequence is interpreted normally, and OSC, DCS, SOS, PM and APC strings never leak onto the screen.",
     ["inputs"], "every sequence of well-formed, unknown, overlong, malformed and aborted escape, control and string sequences, mixed with text",
     "The suite contains no unknown or aborted sequence beyond one or two OSC strings.",
     [VTE], [("state machine of the parser", VTE + ": parse_data, do_trans, do_action"), ("dispatch", VTE + ": do_csi, do_esc, csi_mode")],
     [("parser state", "where in a sequence the stream is", VTE)], ["drawn cells, cursor, modes, replies against a reference interpretation"])
prop("C08", "Printing places each character, wraps and inserts as specified",
     "A printed character goes to the cursor with the current attributes in all of its cells and advances it by its width; zero-width characters are not put into a cell of their own; a character that does not fit at the end of the line starts the next line if autowrap is on (scrolling within the margins if needed) and overwrites the last columns otherwise. In insert mode the rest of the line moves right and what passes the edge is lost; no other cell changes.",
     ["inputs", "histories"], "every text with narrow, wide and zero-width characters, every cursor position, width, margin, autowrap and insert mode setting",
     "The suite prints a few ASCII strings; wide characters at the edge and insert mode are untested.",
     [SCR, VTE], [("writing", SCR + ": tsm_screen_write, screen_write"), ("autowrap and scrolling", SCR + ": tsm_screen_newline, screen_scroll_up"), ("delayed wrap", SCR + ": cursor_x == size_x")],
     [("cursor and attributes", "where and how the next character is put", SCR)], ["drawn cells, cursor position"])
prop("C09", "Cursor movement follows the addressing rules, margins and origin mode",
     "Every cursor-movement sequence and call moves the cursor to the specified position: relative movements stop at the screen edge or the margin they start inside of, absolute ones are clamped to the screen and, in origin mode, relative to and confined to the scroll region. Movements alone never change the contents (movements that are defined to scroll do so only at the margins).",
     ["inputs", "histories"], "every sequence of movements with all counts, all margins, origin mode on and off, all sizes",
     "The suite checks a few single moves on an 80x24 screen without margins.",
     [SCR, VTE], [("movement", SCR + ": tsm_screen_move_to/up/down/left/right/line_end/line_home"), ("origin mode", SCR + ": to_abs_x, to_abs_y"), ("sequences", VTE + ": do_csi cases A-G, H, a, d, e, f, `, ESC D/E/M")],
     [("cursor, margins, relative-origin flag", "what movements depend on", SCR)], ["cursor position, drawn cells"])
prop("C10", "Scrolling moves exactly the lines of the scroll region",
     "Line feeds, index, reverse index and the scroll commands move exactly the lines inside the scroll region by exactly the requested number (at most its height), filling the freed lines with blanks; lines outside never change, and a cursor outside the region does not make the region scroll. A request for invalid margins (bottom not below top, or off the screen) makes the full screen the region.",
     ["inputs", "histories"], "every region, every count, cursor in, above or below the region, all sizes",
     "The suite scrolls only the full screen.",
     [SCR, VTE], [("region scrolling", SCR + ": screen_scroll_up, screen_scroll_down, tsm_screen_newline, tsm_screen_set_margins"), ("sequences", VTE + ": CSI r, S, T, ESC D, M, E")],
     [("margin_top, margin_bottom", "scroll region", SCR)], ["drawn cells"])
prop("C11", "Erasing clears exactly the specified cells",
     "Each erase function and sequence blanks exactly the cells it is defined to blank with the current erase attributes and leaves all others, the cursor and the history alone; protected cells survive the selective forms.",
     ["inputs", "histories"], "every erase command with every parameter and count at every cursor position, protected and unprotected cells, all sizes",
     "The suite erases a line or screen once or twice from one position and knows no protected cells.",
     [SCR, VTE], [("erase", SCR + ": screen_erase_region, tsm_screen_erase_*"), ("sequences", VTE + ": CSI J, K, X, DECSED, DECSEL")],
     [], ["drawn cells, cursor, scroll-back size"])
prop("C12", "Inserting and deleting lines and characters shifts exactly what it should",
     "Inserting or deleting characters shifts exactly the rest of the cursor's line, inserting or deleting lines shifts exactly the lines from the cursor to the bottom margin; what is pushed out is lost, what is freed becomes blank in the erase attributes, every other cell keeps its contents and attributes. Outside of the scroll region line insertion and deletion do nothing.",
     ["inputs", "histories"], "every count, cursor position, margin and size",
     "The suite has no such test with margins, large counts or attributes.",
     [SCR, VTE], [("shifting", SCR + ": tsm_screen_insert_lines/delete_lines/insert_chars/delete_chars"), ("sequences", VTE + ": CSI L, M, P, @")],
     [], ["drawn cells, cursor"])
prop("C13", "Tab stops are set, cleared and used exactly",
     "Tab stops are initially every eight columns; setting, clearing one or clearing all affects exactly the named stops; forward and backward tabs move the cursor to the n-th next or previous stop or to the edge of the line and never change the contents. Resetting the terminal or giving it another size restores the default stops.",
     ["inputs", "histories"], "every set of stops, every cursor position, count and width, also across resizing",
     "The suite never sets a tab stop.",
     [SCR, VTE], [("tab ruler", SCR + ": tsm_screen_set_tabstop, reset_tabstop, reset_all_tabstops, tab_right, tab_left; reset of the ruler in tsm_screen_resize and tsm_screen_reset"), ("sequences", VTE + ": HT, HTS, CSI I, Z, g")],
     [("tab_ruler", "one flag per column", SCR)], ["cursor position"])
prop("C14", "The scroll-back history keeps exactly the lines that left the screen",
     "Each line that the main screen scrolls out at the top of its scroll region is appended to the history unchanged, in order and exactly once; only the oldest lines are dropped when the configured maximum is exceeded. Nothing else adds to, alters or reorders the history (neither deleting or erasing lines nor anything on the alternate screen), and clearing it or lowering the maximum removes exactly what it should. Making the screen lower pushes the rows that no longer fit into the history in the same way.",
     ["histories"], "every sequence of output, scrolling, resizing, limits and screen switches",
     "The suite counts history lines after one burst of output; it never compares their contents or order.",
     [SCR], [("appending and dropping", SCR + ": link_to_scrollback, screen_scroll_up, tsm_screen_set_max_sb, tsm_screen_clear_sb"), ("rows pushed out by shrinking", SCR + ": tsm_screen_resize")],
     [("sb_first, sb_last, sb_count, sb_max", "the history list and its limit", SCR)], ["tsm_screen_sb_get_line_count and drawings scrolled to every position"])
prop("C15", "Scrolling through the history shows the right lines and keeps its position",
     "Moving through the history by lines or pages moves the view by exactly that many lines, clamped at both ends, and the view shows exactly the consecutive lines at that position; the reported position and size always match the view. While scrolled back, new output leaves the position as it is, except that with the fixed-position flag the view stays on its lines when older ones are dropped, as long as they exist; returning to the bottom shows the live screen.",
     ["histories"], "every interleaving of view movements, output, resizing, limit changes and clearing",
     "The suite makes a few view movements on one fixed history.",
     [SCR, REN], [("view position", SCR + ": tsm_screen_sb_up/down/page_up/page_down/reset, link_to_scrollback"), ("drawing the history", REN + ": tsm_screen_draw")],
     [("sb_pos, sb_pos_num", "the line at the top of the view, its number", SCR)], ["drawings, tsm_screen_sb_get_line_pos, tsm_screen_sb_get_line_count"])
prop("C16", "The alternate screen never disturbs the main screen",
     "Whatever is printed, erased, scrolled or moved on the alternate screen, switching back shows the main screen's cells as they were, and the history is untouched; the private modes for switching, clearing and cursor saving do exactly their own part: 47 switches, 1047 also clears the alternate screen when leaving it, 1048 saves and restores the cursor position, 1049 does the latter and clears the alternate screen on entry.",
     ["inputs", "histories"], "every interleaving of the three switching modes with any output, at every size",
     "The suite does not switch screens.",
     [SCR, VTE], [("switching", SCR + ": tsm_screen_set_flags, tsm_screen_reset_flags"), ("modes 47, 1047, 1048, 1049", VTE + ": csi_mode")],
     [("main_lines, alt_lines, lines", "the two grids and the one in use", SCR)], ["drawn cells, cursor, flags, scroll-back size"])
prop("C17", "Colours and attributes are applied as specified by SGR and the palette",
     "Graphic-rendition sequences set exactly the attributes and colours they name, with 8, 16, 256 and direct colours resolved through the selected or custom palette, in any parameter combination, including incomplete and unknown ones; printed and erased cells carry exactly the attributes in force. Selecting a palette changes what colour codes resolve to from then on, clears the screen in its colours and starts over with its default attributes; names that are unknown fall back to the default palette.",
     ["inputs", "configurations"], "every SGR parameter list, every palette, every interleaving with printing, erasing, saving and resetting",
     "The suite sets one palette and looks at the default attribute only.",
     [VTE], [("SGR", VTE + ": csi_attribute"), ("palettes", VTE + ": color_palettes, get_palette, to_rgb, tsm_vte_set_palette, tsm_vte_set_custom_palette")],
     [("cattr, def_attr, palette", "current attributes, default attributes, colours", VTE)], ["drawn attributes, tsm_vte_get_def_attr"])
prop("C18", "Redrawing only cells newer than the last frame never shows stale cells",
     "A renderer that skips every cell whose age does not exceed the age returned by its previous drawing (unless either is zero) always shows exactly what a full redraw would show, for all operations, including selection, cursor, inverse video, resizing, scrolling, screen switches and wrap-around of the age counter.",
     ["histories", "schedules"], "every history and every choice of the moments at which frames are drawn",
     "No test uses ages.",
     [SCR, REN, SEL], [("age bookkeeping", SCR + ": screen_inc_age, screen_cell_init, con->age = con->age_cnt in every mutator"), ("age of a cell as reported", REN + ": tsm_screen_draw")],
     [("age, age_cnt, age_reset and ages of lines and cells", "when what was last changed", T + "libtsm-int.h")], ["ages and return value of tsm_screen_draw"])
prop("C19", "A selection marks and copies exactly the selected text",
     "The highlighted cells are exactly those between the start and the end of the selection in reading order, whichever was set first, and copying returns exactly their text line by line without trailing blanks, as well-formed UTF-8 terminated by NUL; without a selection copying reports that there is none. The selection stays attached to its text while output scrolls the full screen into the history, and is cut off where its lines are gone.",
     ["inputs", "histories"], "every pair of positions (also outside the screen), on the screen and in the history, with wide characters and gaps, followed by output, scrolling and resizing",
     "The suite copies a few ASCII ranges, with few combinations of history and screen.",
     [SEL, REN, SCR], [("positions", SEL + ": selection_set, tsm_screen_selection_start/target"), ("copy", SEL + ": tsm_screen_selection_copy, copy_line"), ("highlight", REN + ": tsm_screen_draw"), ("moving with the text", SCR + ": screen_scroll_up, link_to_scrollback")],
     [("sel_start, sel_end, sel_active", "ends of the selection", T + "libtsm-int.h")], ["copied text, inversion of drawn cells"])
prop("C20", "Every key press sends exactly its byte sequence",
     "For each key symbol, modifier set and terminal mode the bytes sent to the client are exactly those of the terminal's keyboard table (cursor and keypad modes, backspace setting, Alt prefix, control characters, UTF-8 text), sent once, and the result tells truthfully whether the key was consumed.",
     ["inputs", "configurations"], "all key symbols in the handled ranges, all modifier combinations, all modes",
     "The suite tries about a dozen keys in the default mode.",
     [VTE], [("key table", VTE + ": tsm_vte_handle_keyboard"), ("modes", VTE + ": FLAG_CURSOR_KEY_MODE, FLAG_KEYPAD_APPLICATION_MODE, FLAG_7BIT_MODE, backspace_sends_delete")],
     [], ["write callback, return value"])
prop("C21", "Mouse events are reported as the client asked, and only then",
     "For every mouse mode, encoding, button, modifier, motion and coordinate the client receives exactly the report defined by that protocol (X10, SGR or pixel encoding; clicks only, drags or all motion, no repeats within one cell), nothing if it did not ask, and X10 coordinates are limited to what its encoding can hold. The application is told which events are needed whenever that changes.",
     ["inputs", "histories", "configurations"], "every order of enabling and disabling modes and every sequence of mouse events",
     "The suite tests a few events per mode, mostly small coordinates and one order of enabling.",
     [VTE], [("reports", VTE + ": tsm_vte_handle_mouse, handle_mouse_x10, handle_mouse_sgr"), ("modes 9, 1002, 1003, 1006, 1016", VTE + ": csi_mode, mouse_mode/mouse_event")],
     [("mouse_mode, mouse_event, mouse_last_col/row", "what is reported how, last position", VTE)], ["write callback, mouse callback, tsm_vte_get_mouse_mode/event, return value"])
prop("C22", "Queries are answered truthfully and exactly once",
     "Enquiry, status, cursor-position and primary and secondary device-attribute queries (in all their forms) are each answered exactly once with a well-formed report that states the actual state (the cursor position as addressing would have it, also at the right edge and in origin mode); nothing else in the input causes output.",
     ["inputs", "histories"], "every query in every state, mixed with any other input",
     "The suite has one or two query tests in the initial state.",
     [VTE], [("reports", VTE + ": csi_dsr, csi_dev_attr, do_csi; vte_write")],
     [], ["write callback"])
prop("C23", "OSC strings are delivered once, complete and in order",
     "Each operating-system-command string is handed to the application exactly once, NUL-terminated and byte for byte as sent (up to the documented limit), whichever terminator ends it; without a handler it is dropped, and no part of it ever reaches the screen or a later string.",
     ["inputs"], "every sequence of strings of every length, terminator and content, mixed with other output",
     "The suite delivers one or two short strings.",
     [VTE], [("collection", VTE + ": do_osc_collect, do_osc_start, do_osc_end")],
     [("osc_arg, osc_len", "the string so far", VTE)], ["OSC callback"])
prop("C24", "A hard reset makes the terminal behave like a new one",
     "After a hard reset (by call or by escape sequence) the terminal shows and does exactly what a newly created terminal of the same size and with the same application settings would, for all later input, whatever happened before: screen contents, history, modes, character sets, saved cursors, tab stops, palette colours and an unfinished sequence or character are all gone, and only what the application set up (callbacks, palette, backspace setting, history limit) stays.",
     ["histories", "inputs"], "every history before the reset and every continuation after it",
     "The suite resets once and looks at a flag or two.",
     [VTE, SCR], [("reset", VTE + ": tsm_vte_hard_reset, tsm_vte_reset; " + SCR + ": tsm_screen_reset"), ("ESC c", VTE + ": do_esc")],
     [("all state of terminal and screen", "", VTE + ", " + SCR)], ["a reset and a new terminal compared through every query and drawing while both get the same input"])
prop("C25", "Saving and restoring the cursor restores exactly the saved state",
     "DECRC (ESC 8) brings back exactly the position, attributes, selected character sets, origin and autowrap mode that DECSC (ESC 7) last saved, clamped to the present screen, or the defaults if nothing was saved, and changes nothing else. The private modes 1048 and 1049 do the same for the position alone, in a place of their own.",
     ["inputs", "histories"], "every state saved, every change in between including resizing and screen switches",
     "The suite does not save the cursor.",
     [VTE], [("save and restore", VTE + ": save_state, restore_state, ESC 7/8, modes 1048/1049")],
     [("saved_state, alt_cursor_x/y", "what was saved", VTE)], ["cursor, drawn cells of text printed afterwards"])
prop("C26", "Character sets are designated, shifted and translated as specified",
     "Designating a character set to G0-G3, locking and single shifts into GL and GR, and 7- and 8-bit modes translate each byte to exactly the specified character; a single shift affects exactly the next character of the left half; control characters, blanks and characters beyond the 8-bit range are never translated.",
     ["inputs", "histories"], "every order of designations, shifts, modes and bytes",
     "The suite does not use character sets.",
     [VTE, CHS], [("translation", VTE + ": vte_map"), ("designation and shifts", VTE + ": do_esc, SI, SO, SS2, SS3, LS*"), ("tables", CHS)],
     [("gl, gr, glt, grt, g0-g3", "current sets", VTE)], ["drawn cells"])
prop("C27", "Modes are switched by exactly their own sequences and take effect",
     "Each mode is set and reset by exactly its own sequences, also when several are given in one sequence, leaves all other modes alone, is reported faithfully by the mode queries of the interface, and has its documented effect on later input; a soft reset restores the documented defaults.",
     ["inputs", "histories"], "every order of mode changes, resets and input",
     "The suite checks a couple of flags.",
     [VTE, SCR], [("modes", VTE + ": csi_mode, set_reset_flag; " + SCR + ": tsm_screen_set_flags"), ("soft reset", VTE + ": csi_soft_reset")],
     [("flags of terminal and screen", "", VTE + ", " + SCR)], ["tsm_vte_get_flags, tsm_screen_get_flags, drawings, cursor"])
prop("C28", "Resizing keeps the text and leaves a consistent screen",
     "After any sequence of resizes the grid has exactly the requested size; every cell that still fits keeps its contents: making the screen lower moves the rows shown up by the difference (those pushed out of the main screen go to the history) and the cursor with them, making it higher adds blank rows at the bottom, and making it narrower cuts off columns, which come back blank. New area is blank in the current erase attributes, the cursor always stays on the screen, and margins and tab stops are those of a new screen. Resizing to the same size changes nothing, and size zero is refused.",
     ["inputs", "histories"], "every sequence of sizes interleaved with output, history limits and scrolled-back views",
     "The suite resizes a few times and checks the reported size.",
     [SCR], [("resize", SCR + ": tsm_screen_resize, line_resize")],
     [("size_x, size_y, line_num", "size and allocated lines", SCR)], ["drawn cells, cursor, scroll-back size, tsm_screen_get_width/height"])
prop("C29", "Character conversion and width agree with Unicode for all code points",
     "Converting a code point to UTF-8 yields exactly its standard encoding within the documented four bytes, and nothing for surrogates, noncharacters and values beyond U+10FFFF; converting strings is the concatenation of that. The display width of each code point is 0, 1 or 2 as fixed by the terminal's width table.",
     ["inputs"], "all code points and all 32-bit values beyond (sampled), all strings (sampled)",
     "The suite converts a handful of characters.",
     [UNI, "external/wcwidth/wcwidth.h"], [("conversion", UNI + ": tsm_ucs4_to_utf8, tsm_ucs4_to_utf8_alloc"), ("width", UNI + ": tsm_ucs4_get_width; external/wcwidth")],
     [], ["return values and buffers"])
prop("C30", "The symbol table is a faithful dictionary of character sequences",
     "Symbols and character sequences correspond one to one: appending a character to a symbol yields the symbol of exactly the extended sequence, the same sequence always yields the same symbol, existing symbols keep their meaning for ever, plain characters are their own symbols, and unknown symbols decompose into the default character. Overlong sequences, invalid characters and failed allocations return the old symbol and change nothing.",
     ["histories", "fault_sequences"], "every sequence of appends, lookups and failed allocations",
     "The suite appends a few characters once.",
     [UNI, "src/shared/shl-htable.c", "src/shared/shl-array.h"], [("append and get", UNI + ": tsm_symbol_append, tsm_symbol_get, tsm_symbol_get_width")],
     [("symbols, index, next_id", "sequence to symbol, symbol to sequence", UNI)], ["return values"])
prop("C31", "The hash table behaves like a set of elements with keys",
     "For every sequence of insertions, lookups, removals and clears, with any element addresses and any hash function however bad, a lookup finds an element exactly if one with an equal key is in the table, a removal takes out exactly the element it returns, and a visit or clear sees every element exactly once. A failed allocation is reported and changes nothing.",
     ["histories", "fault_sequences", "inputs"], "every operation sequence, key distribution, hash quality and address pattern",
     "The suite inserts a few consecutive integers.",
     ["src/shared/shl-htable.c", "src/shared/shl-htable.h"], [("open addressing with pointer-bit packing", "src/shared/shl-htable.c: ht_add, htable_val, update_common, double_table, rehash_table, htable_delval")],
     [("table, common_mask, common_bits, perfect_bit, deleted", "", "src/shared/shl-htable.c")], ["return values, visited elements"])
prop("C32", "The ring buffer is a faithful byte queue",
     "Bytes leave the ring exactly in the order they were pushed, none lost, repeated or altered, across any wrap-around and growth; peeking and copying show exactly the queued bytes without consuming them; sizes that cannot be satisfied and failed allocations are reported and change nothing.",
     ["histories", "fault_sequences"], "every sequence of pushes, pulls, peeks, copies, flushes and failures with all sizes",
     "The ring has no tests.",
     ["src/shared/shl-ring.c", "src/shared/shl-macro.h"], [("wrap-around and growth", "src/shared/shl-ring.c: shl_ring_push, shl_ring_pull, shl_ring_peek, ring_resize, ring_grow")],
     [("start, used, size", "", "src/shared/shl-ring.h")], ["peeked and copied bytes"])
prop("C33", "The pseudo-terminal layer transports every byte once, in order, without stalling",
     "Bytes written to a pseudo terminal reach the child process and bytes written by the child reach the application exactly once and in order, through interrupted and short system calls and full buffers, and the event bridge never stops reporting a terminal that has data to read or queued data that could be written. The child gets a controlling terminal of the requested size with default signal handling and inherits nothing else of the layer, sees resizes and signals, and a removed or closed terminal is silent and refuses further use. Opening without resources fails without a trace, and no descriptor outlives its terminal.",
     ["schedules", "fault_sequences", "histories"], "every interleaving of writes, reads, pauses of the child, resizes, signals and bridge dispatches, several terminals, interrupted and shortened calls",
     "The suite has no test of this layer.",
     ["src/shared/shl-pty.c", "src/shared/shl-ring.c"], [("reading and writing", "src/shared/shl-pty.c: pty_read, pty_write, shl_pty_dispatch, shl_pty_write"), ("edge-triggered bridge", "src/shared/shl-pty.c: shl_pty_bridge_dispatch, shl_pty_bridge_dispatch_pty, shl_pty_bridge_add"), ("child set-up", "src/shared/shl-pty.c: shl_pty_open, pty_setup_child")],
     [("out_buf", "bytes not yet written", "src/shared/shl-pty.c")], ["the child's end, the input callback, readiness of the bridge descriptor"])
prop("C34", "Every declared function can be linked and called by users of the library",
     "Every function that the installed public header declares is exported by the installed shared library, survives the version script, and can be linked and resolved from C and C++ programs through the installed pkg-config and cmake files.",
     ["configurations"], "all declared functions; shared library with and without version script; C, C++, pkg-config and cmake users",
     "The suite links with a static library in which hidden symbols are visible.",
     [API, T + "libtsm.sym", T + "CMakeLists.txt", "etc/libtsm.pc.in"], [("export marks", "SHL_EXPORT in " + T), ("version script", T + "libtsm.sym")],
     [], ["dynamic symbol table, linking and loading of generated programs"])
prop("C35", "Invalid arguments are refused without any effect",
     "Calls with missing objects, missing callbacks or impossible sizes return the documented error (or do nothing where nothing can be returned) in every state, and afterwards the terminal is exactly as before.",
     ["inputs", "histories"], "every public function with each invalid argument, in every reachable state",
     "The suite passes NULL to about half of the functions, in the initial state only.",
     [SCR, VTE, SEL, REN, UNI], [("argument checks", "first lines of the public functions")],
     [], ["return values; two terminals compared through every query and drawing"])
prop("C36", "Observing a terminal never changes it",
     "Drawing, copying the selection, querying any property, taking and dropping references, feeding empty input and having messages logged never influence what the terminal shows, reports or does afterwards; drawing twice in a row gives the same picture.",
     ["histories", "schedules"], "every history with observations inserted anywhere",
     "The suite observes at the end of a test only.",
     [REN, SEL, SCR, VTE], [("read-only access", REN + ": tsm_screen_draw; " + SEL + ": tsm_screen_selection_copy; getters")],
     [], ["an observed and an unobserved terminal compared through every query and drawing"])
prop("C37", "Local echo shows what keys and replies send, once and in order",
     "With local echo (send/receive mode reset) everything that the terminal sends because of keys is also interpreted as input by itself exactly once and in order; without local echo nothing sent ever appears as input. Nested input does not disturb the state of the byte stream being processed.",
     ["inputs", "histories"], "every interleaving of keys, queries, mode changes and input",
     "The suite does not use local echo.",
     [VTE], [("echo", VTE + ": vte_write_debug, FLAG_SEND_RECEIVE_MODE, parse_cnt")],
     [("parse_cnt, flags", "nesting, prefix state", VTE)], ["drawn cells, write callback"])
prop("C38", "Terminals are independent of each other, also across threads",
     "Terminals used by different threads at the same time (each by one thread), or interleaved in one thread, behave exactly as if each were used alone, and no data race occurs.",
     ["schedules", "programs"], "every set of terminals, every interleaving and thread schedule",
     "The suite is single-threaded with one terminal at a time.",
     [SCR, VTE, UNI, CHS, REN, SEL], [("no mutable shared state", "all state is in the screen and terminal objects; tables are constant")],
     [], ["transcripts of each terminal alone, interleaved and in parallel; ThreadSanitizer"])
prop("C39", "Nothing depends on or hands out uninitialised memory",
     "No decision of the library and nothing it reports (cells, attributes, ages, texts, sizes, bytes to the client) ever depends on memory that was never initialised.",
     ["inputs", "histories"], "every byte stream and call sequence",
     "The suite's valgrind test runs a few operations, and ordinary runs give zeroed fresh memory, which hides the defect.",
     [SCR, VTE, SEL, REN, UNI], [("initialisation", SCR + ": line_new, screen_cell_init, line_resize; " + VTE + ": tsm_vte_new")],
     [], ["everything reported, below valgrind memcheck and with differently poisoned fresh memory"])
prop("C40", "Work and memory are bounded by input, screen and history size",
     "However large the numbers in the input or the arguments are, processing a byte or a call takes at most work proportional to the size of the screen (and of the history where a call concerns it). The memory held is bounded by the size of screen and history however long the input is.",
     ["inputs", "histories"], "every byte stream with arbitrarily large parameters and endless sequences, every call with extreme counts",
     "The suite uses small numbers and short input.",
     [SCR, VTE], [("clamped counts", SCR + ": scroll, insert, tab and movement functions"), ("bounded collection", VTE + ": do_param, do_osc_collect")],
     [], ["number of executed branches per call (edge counter of the instrumented library), bytes held by the allocator"])
prop("C41", "8-bit C1 controls and their 7-bit escape forms are equivalent",
     "Replacing any two-byte escape form by the corresponding C1 control (as UTF-8 or as a single byte in 8-bit mode) anywhere in the input never changes the result, except in 7-bit mode.",
     ["inputs"], "every byte stream and every subset of its C1 controls exchanged",
     "The suite uses escape forms only.",
     [VTE], [("dispatch of C1 and ESC", VTE + ": parse_data, do_execute, do_esc")],
     [], ["two terminals compared through every query and drawing"])
prop("C42", "The dynamic array keeps its elements through every growth and failure",
     "For every sequence of pushes, pops and resizes with any element size the array holds exactly the expected elements in order; elements that a resize adds are zero; a failed allocation is reported and changes nothing.",
     ["histories", "fault_sequences"], "every operation sequence, element size and allocation failure",
     "The array has no test of its own.",
     ["src/shared/shl-array.h"], [("growth", "src/shared/shl-array.h: shl_array_push, shl_array_zresize, shl_array_pow2")],
     [("data, length, size", "", "src/shared/shl-array.h")], ["elements, length"])
prop("C43", "Any byte stream produces exactly the specified screen",
     "For every byte stream and every interleaving with resizing, view movements, selections, resets, keys and mouse events, the visible cells with their attributes, the cursor, the modes, the history size, the replies and the notifications are exactly those of the terminal's specification (an independent reference implementation of all documented controls acting together).",
     ["inputs", "histories", "configurations"], "every history mixing all features, all sizes",
     "The suite tests features one at a time.",
     [VTE, SCR, REN, SEL], [("the whole terminal", VTE + ", " + SCR)],
     [("all state", "", VTE + ", " + SCR)], ["every query, callback and drawing, after every operation"])
GT = "src/gtktsm/gtktsm-terminal.c"
prop("C44", "The example terminal's window shows exactly what its emulator holds",
     "After any history of output, window sizes, keys, mouse selection, scrolling through the history and changes of font, anti-aliasing, subpixel order, history size and dirty-cell highlighting, the window of the terminal widget (gtktsm) shows in every cell exactly the glyph of that cell's character in the face asked for (regular, bold, italic, both; underlined or not) and in its colours, cut off at the cell's bounds, and the default background in the padding: nothing stale, nothing of a neighbouring cell, no highlight after highlighting ended. Wide characters cover two cells. No event causes undefined behaviour.",
     ["histories", "configurations"], "every history of output and user events, every window size, font and rendering option",
     "The example terminal has no tests; it repaints incrementally, so that what is shown depends on the whole history.",
     [GT, REN, "src/shared/shl-htable.c"], [("incremental drawing", GT + ": renderer_draw_cell, gtktsm_renderer_draw"), ("glyphs and faces", GT + ": gtktsm_face_render, create_glyph, terminal_set_font"), ("blending", GT + ": renderer_blend_a1, _a8, _xrgb32, renderer_fill"), ("mouse selection and view", GT + ": terminal_button_fn, terminal_motion_fn, terminal_key_fn")],
     [("rend->age", "age of the shadow buffer", GT), ("face->glyphs", "cache of rendered glyphs", GT)], ["pixels painted on the widget's draw event"])
prop("C45", "The example terminal passes everything on between user, emulator and child",
     "After any history of events everything that the child wrote has reached the emulator, also what it wrote just before its end, and the terminal widget (gtktsm) has sent its child exactly the bytes that the emulator produced for the keys and queries, once, in order and without leaving any of them waiting; scroll keys move the view instead of being sent, and a key event is taken if and only if it did something; the child's terminal always has as many columns and rows as fit the window with the current font, and so has the emulator's screen; every title the child sets is reported once with exactly its text; the end of a child is reported once, afterwards nothing is sent and a new child can be started, of which there is at most one; signals reach the child; the properties read back as they were set; destroying the widget releases the child's terminal.",
     ["histories", "schedules"], "every history of output, user events, property changes, child exits and restarts, with and without the event loop running between them, output that waits while the loop is busy",
     "The example terminal has no tests.",
     [GT, "src/gtktsm/gtktsm-terminal.h"], [("keys", GT + ": terminal_key_fn, terminal_write_fn, terminal_idle_fn"), ("sizes", GT + ": terminal_configure_fn, terminal_recalculate_cells, terminal_set_font"), ("children", GT + ": gtktsm_terminal_fork, terminal_child_fn, gtktsm_terminal_kill"), ("titles", GT + ": terminal_osc_fn"), ("properties", GT + ": terminal_set_property, terminal_get_property")],
     [("pty, child_src, idle_src", "the running child and pending work for it", GT)], ["bytes, signals and sizes that reach the pseudo terminal, signals and return values of the widget, its properties"])
GA, GW = "src/gtktsm/gtktsm-app.c", "src/gtktsm/gtktsm-win.c"
prop("C48", "The example program's windows, options and children belong together",
     "Every invocation of the example program (gtktsm), the first or one passed on to the running instance, and every activation opens exactly one window, shown once, realised, black and holding one terminal, whose font, history size (negative: 0), anti-aliasing, subpixel order, dirty-cell highlighting and debugging are exactly those its options name, and the widget's defaults otherwise. Options that do not exist, malformed numbers and modes without meaning are refused with a message and a non-zero status (1 for a mode); neither then nor after --version, which prints GtkTsm, does a window stay open or a child start. Each window starts exactly one child, which executes $SHELL (without it /bin/sh) with that name as its only argument and the program's environment, but TERM=xterm-256color and COLORTERM=gtktsm; a child whose shell cannot be executed ends. A window's title is the last one that its own child set; it closes when its own child ends or when the user closes it, and no other window does; then it and its terminal are released. The program ends, with status 0, when its last window closes, not before; nothing it was given on command lines stays allocated.",
     ["inputs", "histories", "configurations"], "every command line and environment, every history of invocations, activations, output, child ends and closed windows",
     "The example program has no tests, and they could not run without a display.",
     [GA, GW, "src/gtktsm/gtktsm.c"], [("options", GA + ": app_options, app_handle_local_options, app_command_line"), ("windows", GW + ": gtktsm_win_init, win_realize, win_title_fn, win_stopped_fn"), ("children", GW + ": gtktsm_win_run"), ("program", "src/gtktsm/gtktsm.c: main, " + GA + ": app_activate")],
     [("windows and terminals", "one child each", GW)], ["exit status, messages, windows with their titles and properties, executed program with arguments and environment, released objects"])

prop("C46", "The application may use the terminal from within its callbacks",
     "Whatever an application does with the terminal and the screen in its OSC, mouse and write callbacks (resizing, palettes, flags, history, view, writing, drawing, queries, resetting, replacing the callbacks, taking and dropping references of its own) takes effect at once, exactly as it would between two inputs, sees everything that the input before the callback did, and leaves the processing of the rest of that input correct. Exempt are feeding input, dropping the last reference, and sending or resetting from within the write callback.",
     ["histories", "inputs"], "every input that leads to callbacks and every call made in them",
     "The suite's callbacks only record their arguments.",
     [VTE, SCR], [("OSC strings", VTE + ": do_osc_end, do_trans"), ("mouse notices", VTE + ": csi_mode, tsm_vte_reset"), ("output", VTE + ": vte_write_debug")],
     [("modes, parser state, screen", "changed by the callback while a sequence is being executed", VTE)], ["queries and drawings within the callbacks, everything observable after each input"])

prop("C47", "Emulators on one screen are independent and can be replaced",
     "An emulator that is created on a screen which others have used starts like one on a new screen: the main screen shown and blank in its default colours, default modes, margins and tab stops, no mouse tracking, nothing saved, nothing half read; only the cursor position, the history, the view, the selection and the hidden alternate screen stay. Releasing an emulator changes nothing. Of emulators that share a screen each keeps a parser, modes, character sets, saved state, palette, mouse tracking and pending prefix of its own, whatever is fed to the other; what each does to the screen (contents, cursor, flags, margins, tab stops, default attribute) is what it would do to a screen that the application had brought into that state.",
     ["histories", "inputs"], "every history of inputs and calls, with emulators created, released and alternated at any point, also in the middle of a sequence",
     "The suite never has two emulators and never replaces one.",
     [VTE, SCR], [("creation", VTE + ": tsm_vte_new, tsm_vte_reset"), ("release", VTE + ": tsm_vte_unref"), ("shared screen", SCR + ": tsm_screen_reset, tsm_screen_erase_screen")],
     [("screen", "shared by emulators", SCR), ("parser, modes, palette", "one set per emulator", VTE)], ["everything observable of the driven emulator and of the screen after each step"])
