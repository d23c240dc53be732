From 8c0254b33e0ef5b6850a7da01f857a98d3f20734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 01/48] fix: initialise resized main-screen cells with the
 active default attributes

tsm_screen_resize() cleared new cells of the main screen with def_attr_main,
which is only saved when the alternate screen is entered. While on the main
screen it is stale (all-zero before the first switch).
---
 src/tsm/tsm-screen.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index b8202d4..b0b61e9 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -110,7 +110,7 @@ static void move_cursor(struct tsm_screen *con, unsigned int x, unsigned int y)
 	c->age = con->age_cnt;
 }
 
-void screen_cell_init_generic(struct tsm_screen *con, struct cell *cell, struct tsm_screen_attr *attr)
+void screen_cell_init_generic(struct tsm_screen *con, struct cell *cell, const struct tsm_screen_attr *attr)
 {
 	cell->ch = 0;
 	cell->width = 1;
@@ -602,6 +602,7 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 		      unsigned int y)
 {
 	struct line **cache;
+	const struct tsm_screen_attr *main_attr;
 	unsigned int i, j, width, diff, start;
 	int ret;
 	bool *tab_ruler;
@@ -682,6 +683,12 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 
 	screen_inc_age(con);
 
+	/* def_attr_main is only valid while the alternate screen is active */
+	if (con->flags & TSM_SCREEN_ALTERNATE)
+		main_attr = &con->def_attr_main;
+	else
+		main_attr = &con->def_attr;
+
 	/* clear expansion/padding area */
 	start = x;
 	if (x > con->size_x)
@@ -694,7 +701,7 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 
 		for ( ; i < con->main_lines[j]->size; ++i)
 			screen_cell_init_generic(con, &con->main_lines[j]->cells[i],
-				&con->def_attr_main);
+				main_attr);
 
 		/* alt-lines never go into SB, only clear visible cells */
 		i = 0;
-- 
2.43.0


From a0e7bd6f220e4ebab0e8a0b8ad68c75c80c4b945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 02/48] fix: unsigned wrap-around in insert-mode bounds check

(int)size_x - len is evaluated as unsigned, so a wide character on a
one-column screen moved a huge block of memory.
---
 src/tsm/tsm-screen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index b0b61e9..1c27c8e 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -404,7 +404,7 @@ static void screen_write(struct tsm_screen *con, unsigned int x,
 	line = con->lines[y];
 
 	if ((con->flags & TSM_SCREEN_INSERT_MODE) &&
-	    (int)x < ((int)con->size_x - len)) {
+	    x + len < con->size_x) {
 		line->age = con->age_cnt;
 		memmove(&line->cells[x + len], &line->cells[x],
 			sizeof(struct cell) * (con->size_x - len - x));
-- 
2.43.0


From 4c0099a0f80f73fb3b3b6b6a93fdb0e177f722f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 03/48] fix: wrap wide characters that do not fit into the
 current line

A double-width character written into the last column was stored with a
width exceeding the screen and left the cursor two columns past the last
one, from where tsm_screen_tab_left() read beyond the tab ruler.
---
 src/tsm/tsm-screen.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 1c27c8e..2c542cf 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1131,11 +1131,15 @@ void tsm_screen_write(struct tsm_screen *con, tsm_symbol_t ch,
 	else
 		last = con->size_y - 1;
 
-	if (con->cursor_x >= con->size_x) {
+	/* a wide character never exceeds the right border of the screen */
+	if (len > con->size_x)
+		len = con->size_x;
+
+	if (con->cursor_x + len > con->size_x) {
 		if (con->flags & TSM_SCREEN_AUTO_WRAP)
 			move_cursor(con, 0, con->cursor_y + 1);
 		else
-			move_cursor(con, con->size_x - 1, con->cursor_y);
+			move_cursor(con, con->size_x - len, con->cursor_y);
 	}
 
 	if (con->cursor_y > last) {
-- 
2.43.0


From 6b1d9067dfe4d8858323b22054112881c880067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 04/48] fix: do not scroll the scroll region for a cursor
 outside of it

A line feed on the last row below the bottom margin (or a reverse index on
the first row above the top margin) scrolled the region even though the
cursor is not inside of it.
---
 src/tsm/tsm-screen.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 2c542cf..3e49910 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1144,7 +1144,9 @@ void tsm_screen_write(struct tsm_screen *con, tsm_symbol_t ch,
 
 	if (con->cursor_y > last) {
 		move_cursor(con, con->cursor_x, last);
-		screen_scroll_up(con, 1);
+		/* below the scroll region there is nothing to scroll */
+		if (last == con->margin_bottom)
+			screen_scroll_up(con, 1);
 	}
 
 	screen_write(con, con->cursor_x, con->cursor_y, ch, len, attr);
@@ -1231,7 +1233,8 @@ void tsm_screen_move_up(struct tsm_screen *con, unsigned int num,
 	diff = con->cursor_y - size;
 	if (num > diff) {
 		num -= diff;
-		if (scroll)
+		/* above the scroll region there is nothing to scroll */
+		if (scroll && size == con->margin_top)
 			screen_scroll_down(con, num);
 		move_cursor(con, con->cursor_x, size);
 	} else {
@@ -1258,7 +1261,8 @@ void tsm_screen_move_down(struct tsm_screen *con, unsigned int num,
 	diff = size - con->cursor_y - 1;
 	if (num > diff) {
 		num -= diff;
-		if (scroll)
+		/* below the scroll region there is nothing to scroll */
+		if (scroll && size == con->margin_bottom + 1)
 			screen_scroll_up(con, num);
 		move_cursor(con, con->cursor_x, size - 1);
 	} else {
-- 
2.43.0


From 8630460bf4cf7272daba9c5260295b1a48fe1cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 05/48] fix: keep the numeric scroll-back position in sync with
 the view

When the scroll-back buffer is full the numeric position was advanced
although the oldest line is dropped at the same time, it was not adjusted
with a fixed position, and it was left stale by tsm_screen_set_max_sb() and
tsm_screen_sb_reset().
---
 src/tsm/tsm-screen.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 3e49910..2a2a303 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -230,13 +230,14 @@ static void link_to_scrollback(struct tsm_screen *con, struct line *line)
 		if (con->sb_pos) {
 			if (con->sb_pos == tmp ||
 			    !(con->flags & TSM_SCREEN_FIXED_POS)) {
-				if (con->sb_pos->next) {
+				/* The first line is dropped and we advance by
+				 * one line, so sb_pos_num does not change. */
+				if (con->sb_pos->next)
 					con->sb_pos = con->sb_pos->next;
-					++con->sb_pos_num;
-				} else {
+				else
 					con->sb_pos = line;
-					con->sb_pos_num = 0;
-				}
+			} else {
+				--con->sb_pos_num;
 			}
 		}
 
@@ -807,6 +808,8 @@ void tsm_screen_set_max_sb(struct tsm_screen *con,
 		 * remove lines from the TOP of the scrollback buffer. */
 		if (con->sb_pos == line)
 			con->sb_pos = con->sb_first;
+		else if (con->sb_pos)
+			--con->sb_pos_num;
 
 		if (con->sel_active) {
 			if (con->sel_start.line == line) {
@@ -822,6 +825,9 @@ void tsm_screen_set_max_sb(struct tsm_screen *con,
 	}
 
 	con->sb_max = max;
+
+	if (con->sb_pos == NULL)
+		con->sb_pos_num = con->sb_count;
 }
 
 /* clear scrollback buffer */
@@ -938,7 +944,7 @@ void tsm_screen_sb_reset(struct tsm_screen *con)
 	con->age = con->age_cnt;
 
 	con->sb_pos = NULL;
-	con->sb_pos_num = 0;
+	con->sb_pos_num = con->sb_count;
 }
 
 unsigned int tsm_screen_sb_get_line_count(struct tsm_screen *con)
-- 
2.43.0


From 26757bc7cecc640d168f633a7c20958376a43b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 06/48] fix: export all functions of the public header

tsm_vte_handle_mouse(), tsm_screen_sb_get_line_count() and
tsm_screen_sb_get_line_pos() are declared in libtsm.h and listed in
libtsm.sym but were compiled with hidden visibility.
---
 src/tsm/tsm-screen.c | 2 ++
 src/tsm/tsm-vte.c    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 2a2a303..ef4945b 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -947,6 +947,7 @@ void tsm_screen_sb_reset(struct tsm_screen *con)
 	con->sb_pos_num = con->sb_count;
 }
 
+SHL_EXPORT
 unsigned int tsm_screen_sb_get_line_count(struct tsm_screen *con)
 {
 	if (!con) {
@@ -956,6 +957,7 @@ unsigned int tsm_screen_sb_get_line_count(struct tsm_screen *con)
 	return con->sb_count;
 }
 
+SHL_EXPORT
 unsigned int tsm_screen_sb_get_line_pos(struct tsm_screen *con)
 {
 	if (!con) {
diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 82dca19..ab8f3ef 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3119,6 +3119,7 @@ bool tsm_vte_handle_keyboard(struct tsm_vte *vte, uint32_t keysym,
 	return false;
 }
 
+SHL_EXPORT
 bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 		unsigned int cell_y, unsigned int pixel_x, unsigned int pixel_y,
 		unsigned int button, unsigned int event, unsigned char modifiers)
-- 
2.43.0


From 4b48e689a8fc73cc20438897569b17022cedc31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 07/48] fix: reject NULL objects in the remaining public
 functions

---
 src/tsm/tsm-screen.c | 2 +-
 src/tsm/tsm-vte.c    | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index ef4945b..d9f4f06 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1124,7 +1124,7 @@ void tsm_screen_write(struct tsm_screen *con, tsm_symbol_t ch,
 {
 	unsigned int last, len;
 
-	if (!con)
+	if (!con || !attr)
 		return;
 
 	len = tsm_symbol_get_width(con->sym_table, ch);
diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index ab8f3ef..8ff0b9e 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2538,6 +2538,9 @@ void tsm_vte_input(struct tsm_vte *vte, const char *u8, size_t len)
 SHL_EXPORT
 void tsm_vte_set_backspace_sends_delete(struct tsm_vte *vte, bool enable)
 {
+	if (!vte)
+		return;
+
 	vte->backspace_sends_delete = enable;
 }
 
@@ -3128,6 +3131,10 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 	unsigned char reply_flags = 0;
 	bool pressed = event & TSM_MOUSE_EVENT_PRESSED;
 
+	if (!vte) {
+		return false;
+	}
+
 	/* drop move event if we don't wait for move events */
 	if ((vte->mouse_mode == TSM_VTE_MOUSE_MODE_X10 || vte->mouse_event != TSM_VTE_MOUSE_EVENT_ANY) && (event & TSM_MOUSE_EVENT_MOVED)) {
 		return false;
-- 
2.43.0


From 1778eab2de7cabb30b4d6379e24d7be285f32bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 08/48] fix: out-of-bounds read for an extended SGR colour as
 last argument

If 38 or 48 is the 16th argument, csi_attribute() read past csi_argv.
---
 src/tsm/tsm-vte.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 8ff0b9e..3665459 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1380,6 +1380,10 @@ static void csi_attribute(struct tsm_vte *vte)
 			/* fallthrough */
 		case 48:
 			val = vte->csi_argv[i];
+			if (i + 1 >= vte->csi_argc) {
+				llog_debug(vte, "invalid SGR");
+				break;
+			}
 			if (vte->csi_argv[i + 1] == 5) { // 256color mode
 				if (i + 2 >= vte->csi_argc ||
 					vte->csi_argv[i + 2] < 0) {
-- 
2.43.0


From 76e590f1b9ea623d6e071010e5f4c24afccc2793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 09/48] fix: sign extension of input bytes in 8bit mode

Bytes >= 0x80 were passed as 0xffffff80 and above to the parser, so neither
C1 controls nor GR characters worked in 8bit mode.
---
 src/tsm/tsm-vte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 3665459..20cd1fc 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2526,7 +2526,7 @@ void tsm_vte_input(struct tsm_vte *vte, const char *u8, size_t len)
 					   (int)u8[i]);
 			parse_data(vte, u8[i] & 0x7f);
 		} else if (vte->flags & TSM_VTE_FLAG_8BIT_MODE) {
-			parse_data(vte, u8[i]);
+			parse_data(vte, (unsigned char)u8[i]);
 		} else {
 			state = tsm_utf8_mach_feed(vte->mach, u8[i]);
 			if (state == TSM_UTF8_ACCEPT ||
-- 
2.43.0


From ef56f2a8d6a53ffc87e03123371ec2ec3eaff63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 10/48] fix: reject overlong, surrogate and out-of-range UTF-8
 sequences

The input byte was sign-extended so the existing check for overlong
encodings of ASCII never matched; overlong 3 and 4 byte sequences (e.g. an
encoded ESC), surrogates and values beyond U+10FFFF were accepted.
---
 src/tsm/tsm-unicode.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index bc1609a..6cfc1e6 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -501,7 +501,7 @@ int tsm_utf8_mach_feed(struct tsm_utf8_mach *mach, char ci)
 	if (!mach)
 		return TSM_UTF8_START;
 
-	c = ci;
+	c = (unsigned char)ci;
 
 	switch (mach->state) {
 	case TSM_UTF8_START:
@@ -536,17 +536,24 @@ int tsm_utf8_mach_feed(struct tsm_utf8_mach *mach, char ci)
 		break;
 	case TSM_UTF8_EXPECT3:
 		mach->ch |= (c & 0x3F) << 12;
-		if ((c & 0xC0) == 0x80)
-			mach->state = TSM_UTF8_EXPECT2;
-		else
+		if ((c & 0xC0) != 0x80)
 			mach->state = TSM_UTF8_REJECT;
+		else if (mach->ch < 0x10000 || mach->ch > 0x10FFFF)
+			/* overlong encoding or out of range, reject */
+			mach->state = TSM_UTF8_REJECT;
+		else
+			mach->state = TSM_UTF8_EXPECT2;
 		break;
 	case TSM_UTF8_EXPECT2:
 		mach->ch |= (c & 0x3F) << 6;
-		if ((c & 0xC0) == 0x80)
-			mach->state = TSM_UTF8_EXPECT1;
-		else
+		if ((c & 0xC0) != 0x80)
 			mach->state = TSM_UTF8_REJECT;
+		else if (mach->ch < 0x800 ||
+			 (mach->ch >= 0xD800 && mach->ch <= 0xDFFF))
+			/* overlong encoding or surrogate, reject */
+			mach->state = TSM_UTF8_REJECT;
+		else
+			mach->state = TSM_UTF8_EXPECT1;
 		break;
 	case TSM_UTF8_EXPECT1:
 		mach->ch |= c & 0x3F;
-- 
2.43.0


From 92e65eed24ce1bdc91580efe3caf8a5613ad0471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 11/48] fix: symbol table off-by-one and invalid free on error

The ID of a new symbol was one higher than its slot in the index, so
tsm_symbol_get() returned the default or a wrong symbol. On failure the
pointer behind the hidden ID prefix was passed to free().
---
 src/tsm/tsm-unicode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index 6cfc1e6..865dd6b 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -155,7 +155,7 @@ int tsm_symbol_table_new(struct tsm_symbol_table **out)
 		return -ENOMEM;
 	memset(tbl, 0, sizeof(*tbl));
 	tbl->ref = 1;
-	tbl->next_id = TSM_UCS4_MAX + 2;
+	tbl->next_id = TSM_UCS4_MAX + 1;
 	shl_htable_init(&tbl->symbols, cmp_ucs4, hash_ucs4, NULL);
 
 	ret = shl_array_new(&tbl->index, sizeof(uint32_t*), 4);
@@ -307,7 +307,7 @@ err_symbol:
 	shl_htable_remove(&tbl->symbols, nval, hash_ucs4(nval, NULL), NULL);
 err_id:
 	--tbl->next_id;
-	free(nval);
+	free(--nval);
 	return sym;
 }
 
-- 
2.43.0


From 06919f13d48520ec1a28a537f619fdcca742649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 12/48] fix: map all non-ASCII keyboard input to '?' in 7bit
 mode

Only bit 7 was tested, so characters like U+0141 were truncated and sent as
an unrelated ASCII character.
---
 src/tsm/tsm-vte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 20cd1fc..48ce353 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3101,7 +3101,7 @@ bool tsm_vte_handle_keyboard(struct tsm_vte *vte, uint32_t keysym,
 	if (unicode != TSM_VTE_INVALID) {
 		if (vte->flags & TSM_VTE_FLAG_7BIT_MODE) {
 			val = unicode;
-			if (unicode & 0x80) {
+			if (unicode > 0x7f) {
 				llog_debug(vte, "invalid keyboard input in 7bit mode U+%x; mapping to '?'",
 					   unicode);
 				val = '?';
-- 
2.43.0


From a067c03d0ed141629797406531fa18b32594ec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 13/48] fix: truncated mouse reports for large coordinates

A report with large coordinates did not fit into the buffer and lost its
final byte; the X10 clamping overflowed.
---
 src/tsm/tsm-vte.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 48ce353..4015ca7 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3131,7 +3131,7 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 		unsigned int cell_y, unsigned int pixel_x, unsigned int pixel_y,
 		unsigned int button, unsigned int event, unsigned char modifiers)
 {
-	char buffer[24];
+	char buffer[48];
 	unsigned char reply_flags = 0;
 	bool pressed = event & TSM_MOUSE_EVENT_PRESSED;
 
@@ -3162,17 +3162,17 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 	if (vte->mouse_mode == TSM_VTE_MOUSE_MODE_X10) {
 		/* + 0x20 to start in the range of visible characters
 		 * and + 1 to start at 1,1 */
-		cell_x += 0x21;
-		cell_y += 0x21;
-
-		if (cell_x > 0xff) {
-			cell_x = 0xff;
+		if (cell_x > 0xff - 0x21) {
+			cell_x = 0xff - 0x21;
 		}
 
-		if (cell_y > 0xff) {
-			cell_y = 0xff;
+		if (cell_y > 0xff - 0x21) {
+			cell_y = 0xff - 0x21;
 		}
 
+		cell_x += 0x21;
+		cell_y += 0x21;
+
 		if (event & TSM_MOUSE_EVENT_RELEASED) {
 			/* translates to released but the information which key is
 			 * released gets lost by design of this encoding scheme */
-- 
2.43.0


From 170c1cc96b9b2d63976ee2a926c95a08e727f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 14/48] fix: do not erase the main screen when resetting mode
 1047

Resetting the mode while the main screen is already active wiped it.
---
 src/tsm/tsm-vte.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 4015ca7..86688ba 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1661,7 +1661,9 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 				tsm_screen_set_flags(vte->con,
 						     TSM_SCREEN_ALTERNATE);
 			} else {
-				tsm_screen_erase_screen(vte->con, false);
+				if (tsm_screen_get_flags(vte->con) &
+				    TSM_SCREEN_ALTERNATE)
+					tsm_screen_erase_screen(vte->con, false);
 				tsm_screen_reset_flags(vte->con,
 						       TSM_SCREEN_ALTERNATE);
 			}
-- 
2.43.0


From 29f983f789ba3d5425bb1c4e165b1c21f1064cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 15/48] fix: forget the saved alternate-screen cursor on reset

---
 src/tsm/tsm-vte.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 86688ba..e223725 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -730,6 +730,8 @@ static void reset_state(struct tsm_vte *vte)
 	vte->saved_state.wrap_mode = true;
 	vte->saved_state.gl = &vte->g0;
 	vte->saved_state.gr = &vte->g1;
+	vte->alt_cursor_x = 0;
+	vte->alt_cursor_y = 0;
 
 	copy_fcolor(&vte->saved_state.cattr, &vte->def_attr);
 	copy_bcolor(&vte->saved_state.cattr, &vte->def_attr);
-- 
2.43.0


From 88913c060b177048a28847e5917284baa8f356c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 16/48] fix: tell the mouse callback when tracking gets
 disabled

Resetting mode 9, 1006 or 1016 reported the old tracking event although no
event is reported anymore, and a terminal reset did not report anything.
---
 src/tsm/tsm-vte.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index e223725..0b1d3e5 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -791,6 +791,8 @@ static void restore_state(struct tsm_vte *vte)
 SHL_EXPORT
 void tsm_vte_reset(struct tsm_vte *vte)
 {
+	bool tracking;
+
 	if (!vte)
 		return;
 
@@ -814,10 +816,14 @@ void tsm_vte_reset(struct tsm_vte *vte)
 	vte->g2 = &tsm_vte_unicode_lower;
 	vte->g3 = &tsm_vte_unicode_upper;
 
+	tracking = vte->mouse_mode && vte->mouse_event;
 	vte->mouse_mode = 0;
 	vte->mouse_event = 0;
 	vte->mouse_last_col = 0;
 	vte->mouse_last_row = 0;
+	if (vte->mouse_cb && tracking)
+		vte->mouse_cb(vte, TSM_MOUSE_TRACK_DISABLE, false,
+			      vte->mouse_data);
 
 	memcpy(&vte->cattr, &vte->def_attr, sizeof(vte->cattr));
 	to_rgb(vte, &vte->cattr);
@@ -1612,7 +1618,7 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			continue;
 		case TSM_VTE_MOUSE_MODE_X10:
 			vte->mouse_mode = set ? vte->csi_argv[i] : 0;
-			vte->mouse_event = TSM_VTE_MOUSE_EVENT_BTN;
+			vte->mouse_event = set ? TSM_VTE_MOUSE_EVENT_BTN : 0;
 
 			if (vte->mouse_cb) {
 			    vte->mouse_cb(vte, vte->mouse_event, false, vte->mouse_data);
@@ -1723,7 +1729,7 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			}
 
 			if (!set || vte->mouse_event) {
-			    vte->mouse_cb(vte, vte->mouse_event, false, vte->mouse_data);
+			    vte->mouse_cb(vte, set ? vte->mouse_event : 0, false, vte->mouse_data);
 			    continue;
 			}
 			continue;
@@ -1735,7 +1741,7 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			}
 
 			if (!set || vte->mouse_event) {
-			    vte->mouse_cb(vte, vte->mouse_event, set, vte->mouse_data);
+			    vte->mouse_cb(vte, set ? vte->mouse_event : 0, set, vte->mouse_data);
 			    continue;
 			}
 			continue;
-- 
2.43.0


From 9d1492b2d88373d54433b8f3cdeba8f97d708659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 17/48] fix: cursor jumps in origin mode for CHA, VPR and
 restored cursors

tsm_screen_move_to() expects rows relative to the top margin in origin mode
but absolute rows were passed, so the top margin was added twice.
---
 src/tsm/tsm-vte.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 0b1d3e5..f1cae33 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -754,10 +754,18 @@ static void save_state(struct tsm_vte *vte)
 	vte->saved_state.origin_mode = vte->flags & TSM_VTE_FLAG_ORIGIN_MODE;
 }
 
+/* Convert an absolute row into the one tsm_screen_move_to() expects. In origin
+ * mode, this is relative to the top margin and negative above of it. */
+static int to_origin_y(struct tsm_vte *vte, unsigned int y)
+{
+	if (vte->con->flags & TSM_SCREEN_REL_ORIGIN)
+		return (int)y - (int)vte->con->margin_top;
+
+	return y;
+}
+
 static void restore_state(struct tsm_vte *vte)
 {
-	tsm_screen_move_to(vte->con, vte->saved_state.cursor_x,
-			       vte->saved_state.cursor_y);
 	vte->cattr = vte->saved_state.cattr;
 	to_rgb(vte, &vte->cattr);
 	if (vte->flags & TSM_VTE_FLAG_BACKGROUND_COLOR_ERASE_MODE)
@@ -780,6 +788,9 @@ static void restore_state(struct tsm_vte *vte)
 		vte->flags &= ~TSM_VTE_FLAG_ORIGIN_MODE;
 		tsm_screen_reset_flags(vte->con, TSM_SCREEN_REL_ORIGIN);
 	}
+
+	tsm_screen_move_to(vte->con, vte->saved_state.cursor_x,
+			   to_origin_y(vte, vte->saved_state.cursor_y));
 }
 
 /*
@@ -1687,7 +1698,7 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 					tsm_screen_get_cursor_y(vte->con);
 			} else {
 				tsm_screen_move_to(vte->con, vte->alt_cursor_x,
-						   vte->alt_cursor_y);
+						   to_origin_y(vte, vte->alt_cursor_y));
 			}
 			continue;
 		case 1049: /* Alternate screen buffer with pre-erase+cursor */
@@ -1706,7 +1717,7 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 				tsm_screen_reset_flags(vte->con,
 						       TSM_SCREEN_ALTERNATE);
 				tsm_screen_move_to(vte->con, vte->alt_cursor_x,
-						   vte->alt_cursor_y);
+						   to_origin_y(vte, vte->alt_cursor_y));
 			}
 			continue;
 		case TSM_VTE_MOUSE_EVENT_BTN:
@@ -1847,7 +1858,7 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 			num = 1;
 		x = tsm_screen_get_cursor_x(vte->con);
 		y = tsm_screen_get_cursor_y(vte->con);
-		tsm_screen_move_to(vte->con, x, y + num);
+		tsm_screen_move_to(vte->con, x, to_origin_y(vte, y) + num);
 		break;
 	case 'F': /* CPL */
 		/* Move cursor up the indicated # of rows, to column 1 */
@@ -1874,7 +1885,7 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 		if (num <= 0)
 			num = 1;
 		y = tsm_screen_get_cursor_y(vte->con);
-		tsm_screen_move_to(vte->con, num - 1, y);
+		tsm_screen_move_to(vte->con, num - 1, to_origin_y(vte, y));
 		break;
 	case 'J':
 		if (vte->csi_flags & CSI_WHAT)
-- 
2.43.0


From d81d9391ce6c3cfa99bfd2795f97d2847d588437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 18/48] fix: cursor position reports beyond the last column and
 in origin mode

With a pending new-line the reported column was one past the last column,
and in origin mode the reported row was not relative to the top margin, so
a client moving back to a reported position ended up somewhere else.
---
 src/tsm/tsm-vte.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index f1cae33..3550d98 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1783,14 +1783,20 @@ static void csi_dev_attr(struct tsm_vte *vte)
 static void csi_dsr(struct tsm_vte *vte)
 {
 	char buf[64];
-	unsigned int x, y, len;
+	unsigned int x, len;
+	int y;
 
 	if (vte->csi_argv[0] == 5) {
 		vte_write(vte, "\e[0n", 4);
 	} else if (vte->csi_argv[0] == 6) {
+		/* a pending new-line is not visible to the client */
 		x = tsm_screen_get_cursor_x(vte->con);
-		y = tsm_screen_get_cursor_y(vte->con);
-		len = snprintf(buf, sizeof(buf), "\e[%u;%uR", y + 1, x + 1);
+		if (x >= tsm_screen_get_width(vte->con))
+			x = tsm_screen_get_width(vte->con) - 1;
+		y = to_origin_y(vte, tsm_screen_get_cursor_y(vte->con));
+		if (y < 0)
+			y = 0;
+		len = snprintf(buf, sizeof(buf), "\e[%d;%uR", y + 1, x + 1);
 		if (len >= sizeof(buf))
 			vte_write(vte, "\e[0;0R", 6);
 		else
-- 
2.43.0


From 3a9ee79615417042fe961937c34d62d4d9a02b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 19/48] fix: ignore control sequences with unsupported
 intermediate characters

A private marker or intermediate character selects a different function, but
most of them were ignored, so e.g. CSI > 4 ; 2 m (modifyOtherKeys) changed
the text attributes and ESC # 8 (DECALN) restored the cursor.
---
 src/tsm/tsm-vte.c | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 3550d98..cf414c3 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -110,6 +110,7 @@ enum parser_action {
 #define CSI_PLUS	0x0100		/* CSI: + */
 #define CSI_POPEN	0x0200		/* CSI: ( */
 #define CSI_PCLOSE	0x0400		/* CSI: ) */
+#define CSI_OTHER	0x0800		/* CSI: any other unsupported character */
 
 /* max CSI arguments */
 #define CSI_ARG_MAX 16
@@ -1018,6 +1019,9 @@ static void do_collect(struct tsm_vte *vte, uint32_t data)
 	case ')':
 		vte->csi_flags |= CSI_PCLOSE;
 		break;
+	default:
+		vte->csi_flags |= CSI_OTHER;
+		break;
 	}
 }
 
@@ -1050,13 +1054,13 @@ static void do_param(struct tsm_vte *vte, uint32_t data)
 
 static bool set_charset(struct tsm_vte *vte, tsm_vte_charset *set)
 {
-	if (vte->csi_flags & CSI_POPEN)
+	if (vte->csi_flags == CSI_POPEN)
 		vte->g0 = set;
-	else if (vte->csi_flags & CSI_PCLOSE)
+	else if (vte->csi_flags == CSI_PCLOSE)
 		vte->g1 = set;
-	else if (vte->csi_flags & CSI_MULT)
+	else if (vte->csi_flags == CSI_MULT)
 		vte->g2 = set;
-	else if (vte->csi_flags & CSI_PLUS)
+	else if (vte->csi_flags == CSI_PLUS)
 		vte->g3 = set;
 	else
 		return false;
@@ -1138,7 +1142,7 @@ static void do_esc(struct tsm_vte *vte, uint32_t data)
 			return;
 		break;
 	case 'F':
-		if (vte->csi_flags & CSI_SPACE) {
+		if (vte->csi_flags == CSI_SPACE) {
 			/* S7C1T */
 			/* Disable 8bit C1 mode */
 			vte->flags &= ~TSM_VTE_FLAG_USE_C1;
@@ -1146,7 +1150,7 @@ static void do_esc(struct tsm_vte *vte, uint32_t data)
 		}
 		break;
 	case 'G':
-		if (vte->csi_flags & CSI_SPACE) {
+		if (vte->csi_flags == CSI_SPACE) {
 			/* S8C1T */
 			/* Enable 8bit C1 mode */
 			vte->flags |= TSM_VTE_FLAG_USE_C1;
@@ -1804,6 +1808,26 @@ static void csi_dsr(struct tsm_vte *vte)
 	}
 }
 
+/* A private marker or intermediate characters select a different function than
+ * the plain final character does, so check for the supported combinations. */
+static bool csi_is_supported(struct tsm_vte *vte, uint32_t data)
+{
+	switch (vte->csi_flags) {
+	case 0:
+		return true;
+	case CSI_WHAT:
+		return data == 'J' || data == 'K' || data == 'h' ||
+		       data == 'l' || data == 'n';
+	case CSI_GT:
+		return data == 'c' || data == 'p';
+	case CSI_BANG:
+	case CSI_DQUOTE:
+		return data == 'p';
+	}
+
+	return false;
+}
+
 static void do_csi(struct tsm_vte *vte, uint32_t data)
 {
 	int num, x, y, upper, lower;
@@ -1812,6 +1836,12 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 	if (vte->csi_argc < CSI_ARG_MAX)
 		vte->csi_argc++;
 
+	if (!csi_is_supported(vte, data)) {
+		llog_debug(vte, "unhandled CSI sequence %c with flags %x",
+			   data, vte->csi_flags);
+		return;
+	}
+
 	switch (data) {
 	case 'A': /* CUU */
 		/* move cursor up */
-- 
2.43.0


From 319a2a351103a73915ee77b3f25f82dadec754a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 20/48] fix: escape prefix of a key lost to a reply in
 local-echo mode

With local echo and Alt, a reply generated while the key's own sequence was
parsed again got the escape prefix instead of the key itself.
---
 src/tsm/tsm-vte.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index cf414c3..3d5366b 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -683,6 +683,8 @@ unsigned int tsm_vte_get_mouse_event(struct tsm_vte *vte)
 static void vte_write_debug(struct tsm_vte *vte, const char *u8, size_t len,
 			    bool raw, const char *file, int line)
 {
+	bool prepend;
+
 #ifdef BUILD_ENABLE_DEBUG
 	/* in debug mode we check that escape sequences are always <0x7f so they
 	 * are correctly parsed by non-unicode and non-8bit-mode clients. */
@@ -697,18 +699,21 @@ static void vte_write_debug(struct tsm_vte *vte, const char *u8, size_t len,
 	}
 #endif
 
+	/* parsing the data again may generate replies or reset the flags, so
+	 * the escape character must be claimed for this data first */
+	prepend = vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE;
+	vte->flags &= ~TSM_VTE_FLAG_PREPEND_ESCAPE;
+
 	/* in local echo mode, directly parse the data again */
 	if (!vte->parse_cnt && !(vte->flags & TSM_VTE_FLAG_SEND_RECEIVE_MODE)) {
-		if (vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE)
+		if (prepend)
 			tsm_vte_input(vte, "\e", 1);
 		tsm_vte_input(vte, u8, len);
 	}
 
-	if (vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE)
+	if (prepend)
 		vte->write_cb(vte, "\e", 1, vte->data);
 	vte->write_cb(vte, u8, len, vte->data);
-
-	vte->flags &= ~TSM_VTE_FLAG_PREPEND_ESCAPE;
 }
 
 #define vte_write(_vte, _u8, _len) \
-- 
2.43.0


From 79478fbf1a36038752ab748c98c3cce653d415ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 21/48] fix: re-arm a pty in the bridge if it could not be
 drained

The fd is already part of the epoll-set, so EPOLL_CTL_ADD always failed and
no further edge-triggered event was generated for data that is still queued
(e.g. if read() was interrupted).
---
 src/shared/shl-pty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index 8c8bb32..5aa1152 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -484,7 +484,7 @@ int shl_pty_bridge_dispatch_pty(int bridge, struct shl_pty *pty)
 		up.events = EPOLLHUP | EPOLLERR | EPOLLIN | EPOLLOUT | EPOLLET;
 		up.data.ptr = pty;
 		epoll_ctl(bridge,
-			  EPOLL_CTL_ADD,
+			  EPOLL_CTL_MOD,
 			  shl_pty_get_fd(pty),
 			  &up);
 	}
-- 
2.43.0


From af0864a1d353d47786039e7ee8a0f04225979455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 22/48] fix: keep selection positions inside of the screen

Positions beyond the last row or column (passed by the terminal, or pushed
out by scrolling down or shrinking the screen) made
tsm_screen_selection_copy() access lines that do not exist.
---
 src/tsm/tsm-screen.c    | 19 +++++++++++++++++++
 src/tsm/tsm-selection.c |  6 ++++++
 2 files changed, 25 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index d9f4f06..514c25a 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -343,6 +343,18 @@ static void screen_scroll_up(struct tsm_screen *con, unsigned int num)
 	}
 }
 
+/* Selection positions must not leave the screen at the right or bottom */
+static void selection_clamp(struct tsm_screen *con, struct selection_pos *sel)
+{
+	if (!sel->line && sel->y >= 0 && sel->y >= (int)con->size_y) {
+		sel->y = con->size_y - 1;
+		sel->x = con->size_x - 1;
+	}
+
+	if (sel->x >= con->size_x)
+		sel->x = con->size_x - 1;
+}
+
 static void screen_scroll_down(struct tsm_screen *con, unsigned int num)
 {
 	unsigned int i, j, max;
@@ -384,6 +396,8 @@ static void screen_scroll_down(struct tsm_screen *con, unsigned int num)
 			con->sel_start.y += num;
 		if (!con->sel_end.line && con->sel_end.y >= 0)
 			con->sel_end.y += num;
+		selection_clamp(con, &con->sel_start);
+		selection_clamp(con, &con->sel_end);
 	}
 }
 
@@ -750,6 +764,11 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 	if (con->cursor_y >= con->size_y)
 		move_cursor(con, con->cursor_x, con->size_y - 1);
 
+	if (con->sel_active) {
+		selection_clamp(con, &con->sel_start);
+		selection_clamp(con, &con->sel_end);
+	}
+
 	return 0;
 }
 
diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 7821f03..3d2c317 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -66,6 +66,12 @@ static void selection_set(struct tsm_screen *con, struct selection_pos *sel,
 {
 	struct line *pos;
 
+	/* positions outside of the screen select the cell next to them */
+	if (x >= con->size_x)
+		x = con->size_x - 1;
+	if (y >= con->size_y)
+		y = con->size_y - 1;
+
 	sel->line = NULL;
 	pos = con->sb_pos;
 
-- 
2.43.0


From 0d7c2b55571ce40b59e2991695e2976b231cc119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 23/48] fix: order of selections that involve the scroll-back
 buffer

A selection made upwards to the newest scroll-back line was not detected as
reversed, one from the scroll-back to the first screen row could be swapped
although it was in order, and a start that scrolled off the screen made the
copy begin at row -1.
---
 src/tsm/tsm-selection.c | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 3d2c317..b2f697c 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -196,15 +196,16 @@ static void swap_selections(struct selection_pos **a, struct selection_pos **b)
  */
 static void norm_selection(struct tsm_screen *con, struct selection_pos **start, struct selection_pos **end)
 {
-	struct line *iter;
-	struct selection_pos *buffer;
-
 	if ((*end)->line == NULL && (*end)->y == SELECTION_TOP) {
 		swap_selections(start, end);
 
 		return;
 	}
 
+	if ((*start)->line == NULL && (*start)->y == SELECTION_TOP) {
+		return;
+	}
+
 	if ((*start)->line && (*end)->line) {
 		/* single line selection */
 		if ((*start)->line == (*end)->line) {
@@ -215,25 +216,19 @@ static void norm_selection(struct tsm_screen *con, struct selection_pos **start,
 			return;
 		}
 
-		/*
-		 * multi line selection
-		 *
-		 * search from end->line to con->sb_last
-		 * if we find start->line on the way we
-		 * need to change start and end
-		*/
-		iter = (*end)->line;
-		while (iter && iter != con->sb_last) {
-			if (iter == (*start)->line) {
-				swap_selections(start, end);
-			}
-
-			iter = iter->next;
+		/* multi line selection */
+		if ((*start)->line->sb_id > (*end)->line->sb_id) {
+			swap_selections(start, end);
 		}
 
 		return;
 	}
 
+	/* start is in scroll back buffer and end on screen */
+	if ((*start)->line && !(*end)->line) {
+		return;
+	}
+
 	/* end is in scroll back buffer and start on screen */
 	if (!(*start)->line && (*end)->line) {
 		swap_selections(start, end);
@@ -296,6 +291,11 @@ static int selection_count_lines(struct selection_pos *start, struct selection_p
 		return 0;
 	}
 
+	/* Selection continues on the screen from its very first line */
+	if (start->line) {
+		return end->y + 1;
+	}
+
 	return end->y - start->y + 1;
 }
 
@@ -402,7 +402,9 @@ static int copy_lines(struct tsm_screen *con, struct selection_pos *start, struc
 		return pos;
 	}
 
-	for (i = start->y; i <= end->y; i++) {
+	/* a selection that starts in the scroll back buffer continues on the
+	 * first line of the screen */
+	for (i = start->line ? 0 : start->y; i <= end->y; i++) {
 		line_len = calc_selection_line_len(con, start, end, i);
 
 		line_x = 0;
@@ -446,7 +448,7 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 	if (start->y == SELECTION_TOP && start->line == NULL &&
 		end->y == SELECTION_TOP && end->line == NULL) {
 		*out = strdup("");
-		return 0;
+		return *out ? 0 : -ENOMEM;
 	}
 
 	norm_selection(con, &start, &end);
-- 
2.43.0


From c54e31140f97e9f36d77fa420e5974c66ce70cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 24/48] fix: selection copy overflows its buffer and emits NUL
 bytes

The buffer had no room for the line breaks, so copying full lines of 4-byte
characters overflowed it. Blank cells between characters were copied as NUL
bytes, which truncates the text, and the second cell of a wide character
copied a stale character.
---
 src/tsm/tsm-selection.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index b2f697c..3719792 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -169,7 +169,11 @@ static unsigned int copy_line(struct line *line, char *buf,
 	}
 
 	for (i = start; i < line->size && i < end; ++i) {
-		if (i < line->size || !line->cells[i].ch)
+		/* covered by the wide character before it */
+		if (!line->cells[i].width)
+			continue;
+
+		if (line->cells[i].ch)
 			pos += tsm_ucs4_to_utf8(line->cells[i].ch, pos);
 		else
 			pos += tsm_ucs4_to_utf8(' ', pos);
@@ -354,8 +358,9 @@ static int calc_selection_line_len(struct tsm_screen *con, struct selection_pos
  */
 static unsigned int calc_line_copy_buffer(struct tsm_screen *con, unsigned int num_lines)
 {
-	// 4 is the max size of a Unicode character
-	return con->size_x * num_lines * 4 + 1;
+	// 4 is the max size of a Unicode character, every line is terminated by
+	// a line break
+	return (con->size_x * 4 + 1) * num_lines + 1;
 }
 
 /*
-- 
2.43.0


From f7580b382af7232def11627a95dcefea1cb98be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 25/48] fix: wrong highlight of a cut-off selection in the
 scroll-back view

The y position -1 of a selection that was cut off at the top matched every
visible scroll-back line.
---
 src/tsm/tsm-render.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-render.c b/src/tsm/tsm-render.c
index 88ad847..b04b8c9 100644
--- a/src/tsm/tsm-render.c
+++ b/src/tsm/tsm-render.c
@@ -100,13 +100,13 @@ tsm_age_t tsm_screen_draw(struct tsm_screen *con, tsm_screen_draw_cb draw_cb,
 
 		if (con->sel_active) {
 			if (con->sel_start.line == line ||
-			    (!con->sel_start.line &&
+			    (!con->sel_start.line && k > 0 &&
 			     con->sel_start.y == k - 1))
 				sel_start = true;
 			else
 				sel_start = false;
 			if (con->sel_end.line == line ||
-			    (!con->sel_end.line &&
+			    (!con->sel_end.line && k > 0 &&
 			     con->sel_end.y == k - 1))
 				sel_end = true;
 			else
-- 
2.43.0


From 98a0eb3e93de5fa367b29513a6e447c075972890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 26/48] fix: arithmetic overflow for huge erase and page-scroll
 counts

---
 src/tsm/tsm-screen.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 514c25a..9bc0947 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -58,6 +58,7 @@
 
 #include <errno.h>
 #include <inttypes.h>
+#include <limits.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
@@ -939,6 +940,8 @@ void tsm_screen_sb_page_up(struct tsm_screen *con, unsigned int num)
 		return;
 
 	screen_inc_age(con);
+	if (num > UINT_MAX / con->size_y)
+		num = UINT_MAX / con->size_y;
 	tsm_screen_sb_up(con, num * con->size_y);
 }
 
@@ -949,6 +952,8 @@ void tsm_screen_sb_page_down(struct tsm_screen *con, unsigned int num)
 		return;
 
 	screen_inc_age(con);
+	if (num > UINT_MAX / con->size_y)
+		num = UINT_MAX / con->size_y;
 	tsm_screen_sb_down(con, num * con->size_y);
 }
 
@@ -1595,6 +1600,9 @@ void tsm_screen_erase_chars(struct tsm_screen *con, unsigned int num)
 	else
 		x = con->cursor_x;
 
+	if (num > con->size_x - x)
+		num = con->size_x - x;
+
 	screen_erase_region(con, x, con->cursor_y, x + num - 1, con->cursor_y,
 			     false);
 }
-- 
2.43.0


From 5eb19baec52f5865aa46d962c64e6b135014dcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 27/48] fix: clear the alternate screen on a hard reset

---
 src/tsm/tsm-vte.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 3d5366b..620a518 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -857,6 +857,12 @@ void tsm_vte_hard_reset(struct tsm_vte *vte)
 
 	tsm_vte_reset(vte);
 	tsm_screen_erase_screen(vte->con, false);
+
+	/* also forget the contents of the alternate screen */
+	tsm_screen_set_flags(vte->con, TSM_SCREEN_ALTERNATE);
+	tsm_screen_erase_screen(vte->con, false);
+	tsm_screen_reset_flags(vte->con, TSM_SCREEN_ALTERNATE);
+
 	tsm_screen_clear_sb(vte->con);
 	tsm_screen_move_to(vte->con, 0, 0);
 }
-- 
2.43.0


From 6f751beb65fc5b2b10746dd6c42231076d5061a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 28/48] fix: zero all new entries when growing an array within
 its capacity

---
 src/shared/shl-array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared/shl-array.h b/src/shared/shl-array.h
index f776807..1928419 100644
--- a/src/shared/shl-array.h
+++ b/src/shared/shl-array.h
@@ -115,10 +115,11 @@ static inline int shl_array_zresize(struct shl_array *arr, size_t size)
 
 		arr->data = tmp;
 		arr->size = newsize;
+	}
 
+	if (size > arr->length)
 		memset(((uint8_t*)arr->data) + arr->element_size * arr->length,
 		       0, arr->element_size * (size - arr->length));
-	}
 
 	arr->length = size;
 	return 0;
-- 
2.43.0


From 59fadccf07071c3fb4ad15a31812c6d1f76ac53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 29/48] fix: redraw when the default attribute changes while
 scrolled back

---
 src/tsm/tsm-screen.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 9bc0947..660628d 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -997,6 +997,13 @@ void tsm_screen_set_def_attr(struct tsm_screen *con,
 {
 	if (!con || !attr)
 		return;
+
+	/* the area beside narrow scroll-back lines shows the default attribute */
+	if (con->sb_pos) {
+		screen_inc_age(con);
+		con->age = con->age_cnt;
+	}
+
 	memcpy(&con->def_attr, attr, sizeof(*attr));
 }
 
-- 
2.43.0


From 9e77ef5c705a940cd593ebb75f72e9eb24b3ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 30/48] fix: do not swallow the byte that cuts a UTF-8 sequence
 short

---
 src/tsm/tsm-vte.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 620a518..6116fca 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2602,6 +2602,16 @@ void tsm_vte_input(struct tsm_vte *vte, const char *u8, size_t len)
 				ucs4 = tsm_utf8_mach_get(vte->mach);
 				parse_data(vte, ucs4);
 			}
+
+			/* A byte that cuts a sequence short is no part of it,
+			 * so it must not get lost. */
+			if (state == TSM_UTF8_REJECT && (u8[i] & 0xc0) != 0x80) {
+				state = tsm_utf8_mach_feed(vte->mach, u8[i]);
+				if (state == TSM_UTF8_ACCEPT) {
+					ucs4 = tsm_utf8_mach_get(vte->mach);
+					parse_data(vte, ucs4);
+				}
+			}
 		}
 	}
 	--vte->parse_cnt;
-- 
2.43.0


From 08b5dca35f8d59cdd0187ccd03ec8a8597b58c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 31/48] fix: reschedule the pty when not all output could be
 written

---
 src/shared/shl-pty.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index 5aa1152..86b71c8 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -392,13 +392,18 @@ static int pty_read(struct shl_pty *pty)
 
 int shl_pty_dispatch(struct shl_pty *pty)
 {
-	int r;
+	int r, w;
 
 	if (!shl_pty_is_open(pty))
 		return -ENODEV;
 
 	r = pty_read(pty);
-	pty_write(pty);
+	w = pty_write(pty);
+
+	/* unwritten data needs to be rescheduled, too */
+	if (!r && w == -EAGAIN)
+		r = w;
+
 	return r;
 }
 
-- 
2.43.0


From 6c457d3bd98ec06412cdb7dd71c336a209e311ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 32/48] fix: hash table loses elements that share no revealed
 pointer bit

An element whose address has none of the bits set that are kept in the
buckets was stored as an empty or deleted entry, depending on its hash.
---
 src/shared/shl-htable.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/shared/shl-htable.c b/src/shared/shl-htable.c
index 74e3d09..7ff6f37 100644
--- a/src/shared/shl-htable.c
+++ b/src/shared/shl-htable.c
@@ -251,16 +251,16 @@ static COLD void update_common(struct htable *ht, const void *p)
 	unsigned int i;
 	uintptr_t maskdiff, bitsdiff;
 
-	if (ht->elems == 0) {
-		/* Always reveal one bit of the pointer in the bucket,
-		 * so it's not zero or HTABLE_DELETED (1), even if
-		 * hash happens to be 0.  Assumes (void *)1 is not a
-		 * valid pointer. */
-		for (i = sizeof(uintptr_t)*CHAR_BIT - 1; i > 0; i--) {
-			if ((uintptr_t)p & ((uintptr_t)1 << i))
-				break;
-		}
+	/* Always reveal one bit of the pointer in the bucket,
+	 * so it's not zero or HTABLE_DELETED (1), even if
+	 * hash happens to be 0.  Assumes (void *)1 is not a
+	 * valid pointer. */
+	for (i = sizeof(uintptr_t)*CHAR_BIT - 1; i > 0; i--) {
+		if ((uintptr_t)p & ((uintptr_t)1 << i))
+			break;
+	}
 
+	if (ht->elems == 0) {
 		ht->common_mask = ~((uintptr_t)1 << i);
 		ht->common_bits = ((uintptr_t)p & ht->common_mask);
 		ht->perfect_bit = 1;
@@ -269,6 +269,8 @@ static COLD void update_common(struct htable *ht, const void *p)
 
 	/* Find bits which are unequal to old common set. */
 	maskdiff = ht->common_bits ^ ((uintptr_t)p & ht->common_mask);
+	if (!entry_is_valid((uintptr_t)p & (~ht->common_mask | maskdiff)))
+		maskdiff |= (uintptr_t)1 << i;
 
 	/* These are the bits which go there in existing entries. */
 	bitsdiff = ht->common_bits & maskdiff;
@@ -295,7 +297,8 @@ static bool htable_add(struct htable *ht, size_t hash, const void *p)
 	if (ht->elems+1 + ht->deleted > ht->max_with_deleted)
 		rehash_table(ht);
 	assert(p);
-	if (((uintptr_t)p & ht->common_mask) != ht->common_bits)
+	if (((uintptr_t)p & ht->common_mask) != ht->common_bits ||
+	    !entry_is_valid((uintptr_t)p & ~ht->common_mask))
 		update_common(ht, p);
 
 	ht_add(ht, p, hash);
-- 
2.43.0


From 09f23673acaccc88b76469ae45781e3141936b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 33/48] fix: undefined shift in SHL_ALIGN_POWER2 for 0, 1 and
 on overflow

---
 src/shared/shl-macro.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/shared/shl-macro.h b/src/shared/shl-macro.h
index 67607bd..ce7ed2c 100644
--- a/src/shared/shl-macro.h
+++ b/src/shared/shl-macro.h
@@ -141,6 +141,11 @@ static inline void shl_set_errno(int *r)
 /* align to next higher power-of-2 (except for: 0 => 0, overflow => 0) */
 static inline size_t SHL_ALIGN_POWER2(size_t u)
 {
+	if (u <= 1ULL)
+		return u;
+	if (u - 1ULL > SIZE_MAX / 2ULL)
+		return 0;
+
 	return 1ULL << ((sizeof(u) * 8ULL) - __builtin_clzll(u - 1ULL));
 }
 
-- 
2.43.0


From a62a96086ddbc57e150900399d5ababed6132e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 34/48] fix: do not keep an unlimited number of lines on the
 stack

Inserting or deleting very many lines at once put one pointer per line on
the stack and overflowed it on extremely tall screens. Work in blocks of at
most 128 lines as scrolling does.
---
 src/tsm/tsm-screen.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 660628d..ac6d02a 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1448,6 +1448,12 @@ void tsm_screen_insert_lines(struct tsm_screen *con, unsigned int num)
 	if (num > max)
 		num = max;
 
+	/* see screen_scroll_up() for an explanation */
+	if (num > 128) {
+		tsm_screen_insert_lines(con, 128);
+		tsm_screen_insert_lines(con, num - 128);
+		return;
+	}
 	struct line *cache[num];
 
 	for (i = 0; i < num; ++i) {
@@ -1488,6 +1494,12 @@ void tsm_screen_delete_lines(struct tsm_screen *con, unsigned int num)
 	if (num > max)
 		num = max;
 
+	/* see screen_scroll_up() for an explanation */
+	if (num > 128) {
+		tsm_screen_delete_lines(con, 128);
+		tsm_screen_delete_lines(con, num - 128);
+		return;
+	}
 	struct line *cache[num];
 
 	for (i = 0; i < num; ++i) {
-- 
2.43.0


From 281b0c78c807e5ad46b83327dd8603c465d22bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 35/48] fix: undefined shift when the example terminal composes
 a pixel

---
 src/gtktsm/gtktsm-terminal.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index 8afa0af..43aa3c0 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -659,7 +659,7 @@ static void renderer_fill(struct gtktsm_renderer *rend,
 	/* prepare */
 	dst = rend->data;
 	dst = &dst[y * rend->stride + x * 4];
-	out = (0xff << 24) | (br << 16) | (bg << 8) | bb;
+	out = (0xffU << 24) | (br << 16) | (bg << 8) | bb;
 
 	/* fill buffer */
 	while (height--) {
@@ -698,7 +698,7 @@ static void renderer_highlight(struct gtktsm_renderer *rend,
 	/* prepare */
 	dst = rend->data;
 	dst = &dst[y * rend->stride + x * 4];
-	out = (0xff << 24) | (0xd0 << 16) | (0x10 << 8) | 0x10;
+	out = (0xffU << 24) | (0xd0 << 16) | (0x10 << 8) | 0x10;
 
 	/* draw outline into buffer */
 	for (i = 0; i < height; ++i) {
@@ -739,7 +739,7 @@ static void renderer_blend_a1(uint8_t *dst,
 				b = bb;
 			}
 
-			out = (0xff << 24) | (r << 16) | (g << 8) | b;
+			out = (0xffU << 24) | (r << 16) | (g << 8) | b;
 			((uint32_t*)dst)[i] = out;
 		}
 
@@ -790,7 +790,7 @@ static void renderer_blend_a8(uint8_t *dst,
 				b = (b + (b >> 8)) >> 8;
 			}
 
-			out = (0xff << 24) | (r << 16) | (g << 8) | b;
+			out = (0xffU << 24) | (r << 16) | (g << 8) | b;
 			((uint32_t*)dst)[i] = out;
 		}
 
@@ -856,7 +856,7 @@ static void renderer_blend_xrgb32(uint8_t *dst,
 				b = (b + (b >> 8)) >> 8;
 			}
 
-			out = (0xff << 24) | (r << 16) | (g << 8) | b;
+			out = (0xffU << 24) | (r << 16) | (g << 8) | b;
 			((uint32_t*)dst)[i] = out;
 		}
 
-- 
2.43.0


From bfb22b5c61fc32fe7f26e1089aa025bd25db10a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 36/48] fix: pointer positions outside of the example terminal
 select wild cells

---
 src/gtktsm/gtktsm-terminal.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index 43aa3c0..bbf1aa9 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -1418,6 +1418,12 @@ static gboolean terminal_key_fn(GtkWidget *widget,
 	return FALSE;
 }
 
+/* pointer positions left of or above the window belong to its first cell */
+static unsigned int pos_to_cell(gdouble pos, unsigned int cell_size)
+{
+	return pos > 0 ? pos / cell_size : 0;
+}
+
 static gboolean terminal_button_fn(GtkWidget *widget,
 				   GdkEvent *ev,
 				   gpointer data)
@@ -1445,15 +1451,15 @@ static gboolean terminal_button_fn(GtkWidget *widget,
 		p->sel = 2;
 		/* TODO: select word */
 		tsm_screen_selection_start(p->screen,
-					   e->x / cell_width,
-					   e->y / cell_height);
+					   pos_to_cell(e->x, cell_width),
+					   pos_to_cell(e->y, cell_height));
 		gtk_widget_queue_draw(GTK_WIDGET(term));
 	} else if (e->type == GDK_3BUTTON_PRESS) {
 		p->sel = 2;
 		/* TODO: select line */
 		tsm_screen_selection_start(p->screen,
-					   e->x / cell_width,
-					   e->y / cell_height);
+					   pos_to_cell(e->x, cell_width),
+					   pos_to_cell(e->y, cell_height));
 		gtk_widget_queue_draw(GTK_WIDGET(term));
 	} else if (e->type == GDK_BUTTON_RELEASE) {
 		if (p->sel == 1 && p->sel_start + 100 > e->time) {
@@ -1492,14 +1498,14 @@ static gboolean terminal_motion_fn(GtkWidget *widget,
 		    fabs(p->sel_y - e->y) > 3) {
 			p->sel = 2;
 			tsm_screen_selection_start(p->screen,
-						   p->sel_x / cell_width,
-						   p->sel_y / cell_height);
+						   pos_to_cell(p->sel_x, cell_width),
+						   pos_to_cell(p->sel_y, cell_height));
 			gtk_widget_queue_draw(GTK_WIDGET(term));
 		}
 	} else {
 		tsm_screen_selection_target(p->screen,
-					    e->x / cell_width,
-					    e->y / cell_height);
+					    pos_to_cell(e->x, cell_width),
+					    pos_to_cell(e->y, cell_height));
 		gtk_widget_queue_draw(GTK_WIDGET(term));
 	}
 
-- 
2.43.0


From ca18ae4f1ebbdc98f49e6f9f68713b123ec8912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 37/48] fix: changing the font of the example terminal leaves
 picture and sizes behind

---
 src/gtktsm/gtktsm-terminal.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index bbf1aa9..6ed139c 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -1180,6 +1180,22 @@ static void terminal_recalculate_cells(GtkTsmTerminal *term,
 		p->rows = 1;
 }
 
+static void terminal_resize_screen(GtkTsmTerminal *term)
+{
+	GtkTsmTerminalPrivate *p = gtktsm_terminal_get_instance_private(term);
+	int r;
+
+	r = tsm_screen_resize(p->screen, p->columns, p->rows);
+	if (r < 0)
+		g_error("tsm_screen_resize() failed: %d", r);
+
+	if (p->pty) {
+		r = shl_pty_resize(p->pty, p->columns, p->rows);
+		if (r < 0)
+			g_error("shl_pty_resize() failed: %d", r);
+	}
+}
+
 static void terminal_set_font(GtkTsmTerminal *term)
 {
 	GtkTsmTerminalPrivate *p = gtktsm_terminal_get_instance_private(term);
@@ -1242,7 +1258,12 @@ static void terminal_set_font(GtkTsmTerminal *term)
 	if (r < 0)
 		p->face_bold_italic = NULL;
 
+	/* the cell size may have changed and nothing that was drawn with the
+	 * old faces can be kept */
 	terminal_recalculate_cells(term, p->width, p->height);
+	if (p->realized)
+		terminal_resize_screen(term);
+	p->rend->age = 0;
 	gtk_widget_queue_draw(GTK_WIDGET(term));
 }
 
@@ -1264,15 +1285,7 @@ static gboolean terminal_configure_fn(GtkWidget *widget,
 	if (r < 0)
 		g_error("gtktsm_renderer_resize() failed: %d", r);
 
-	r = tsm_screen_resize(p->screen, p->columns, p->rows);
-	if (r < 0)
-		g_error("tsm_screen_resize() failed: %d", r);
-
-	if (p->pty) {
-		r = shl_pty_resize(p->pty, p->columns, p->rows);
-		if (r < 0)
-			g_error("shl_pty_resize() failed: %d", r);
-	}
+	terminal_resize_screen(term);
 
 	if (!p->realized) {
 		p->realized = true;
-- 
2.43.0


From 6175dfdd934dba30119cfe87691832269be6c25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 38/48] fix: example terminal keeps showing lines that a
 smaller sb-size dropped

---
 src/gtktsm/gtktsm-terminal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index 6ed139c..2238d40 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -1715,6 +1715,7 @@ static void terminal_set_property(GObject *gobj,
 	case TERMINAL_PROP_SB_SIZE:
 		p->prop_sb_size = g_value_get_uint(val);
 		tsm_screen_set_max_sb(p->screen, p->prop_sb_size);
+		gtk_widget_queue_draw(GTK_WIDGET(term));
 		break;
 	case TERMINAL_PROP_ANTI_ALIASING:
 		update_font = true;
-- 
2.43.0


From 4a2b697ef5ab1861715ed5b0a72682e0b9b5ff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 39/48] fix: glyphs of bold and italic faces do not match the
 cells of the example terminal

---
 src/gtktsm/gtktsm-terminal.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index 2238d40..89a3f86 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -1180,6 +1180,22 @@ static void terminal_recalculate_cells(GtkTsmTerminal *term,
 		p->rows = 1;
 }
 
+/* All faces share the cells and the baseline of the regular face, no matter
+ * how large they would like to be themselves. */
+static void terminal_adopt_metrics(struct gtktsm_face *face,
+				   const struct gtktsm_face *regular)
+{
+	if (!face)
+		return;
+
+	face->width = regular->width;
+	face->height = regular->height;
+	face->baseline = regular->baseline;
+	face->line_thickness = regular->line_thickness;
+	face->underline_pos = regular->underline_pos;
+	face->strikethrough_pos = regular->strikethrough_pos;
+}
+
 static void terminal_resize_screen(GtkTsmTerminal *term)
 {
 	GtkTsmTerminalPrivate *p = gtktsm_terminal_get_instance_private(term);
@@ -1258,6 +1274,10 @@ static void terminal_set_font(GtkTsmTerminal *term)
 	if (r < 0)
 		p->face_bold_italic = NULL;
 
+	terminal_adopt_metrics(p->face_bold, regular);
+	terminal_adopt_metrics(p->face_italic, regular);
+	terminal_adopt_metrics(p->face_bold_italic, regular);
+
 	/* the cell size may have changed and nothing that was drawn with the
 	 * old faces can be kept */
 	terminal_recalculate_cells(term, p->width, p->height);
-- 
2.43.0


From 565b86f5a8f381aa11f73560a18c078fee2c2599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 40/48] fix: example terminal never uses its bold and italic
 face

---
 src/gtktsm/gtktsm-terminal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index 89a3f86..347f81d 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -984,7 +984,9 @@ static int renderer_draw_cell(struct tsm_screen *screen,
 	}
 
 	/* select correct font */
-	if (attr->bold && ctx->face_bold)
+	if (attr->bold && attr->italic && ctx->face_bold_italic)
+		face = ctx->face_bold_italic;
+	else if (attr->bold && ctx->face_bold)
 		face = ctx->face_bold;
 	else if (attr->italic && ctx->face_italic)
 		face = ctx->face_italic;
-- 
2.43.0


From 6cd7b8110f8adc36bbfca82a5959896f46d5f128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 41/48] fix: highlights of dirty cells stay in the example
 terminal

---
 src/gtktsm/gtktsm-terminal.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index 347f81d..a824d66 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -1767,6 +1767,9 @@ static void terminal_set_property(GObject *gobj,
 		break;
 	case TERMINAL_PROP_SHOW_DIRTY:
 		p->show_dirty = g_value_get_boolean(val);
+		/* get rid of the highlights of earlier frames */
+		if (!p->show_dirty)
+			p->rend->age = 0;
 		gtk_widget_queue_draw(GTK_WIDGET(term));
 		break;
 	case TERMINAL_PROP_DEBUG:
-- 
2.43.0


From 686a5d5deecc43989d768e6c1275bd30fc7f34b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 42/48] fix: example terminal draws old text over the second
 half of wide characters

---
 src/gtktsm/gtktsm-terminal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index a824d66..1d1ac5b 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -956,6 +956,10 @@ static int renderer_draw_cell(struct tsm_screen *screen,
 	bool skip;
 	int r;
 
+	/* Skip cells that are covered by a wide character to their left. */
+	if (!cwidth)
+		return 0;
+
 	/* Skip if our age and the cell age is non-zero *and* the cell-age is
 	 * smaller than our age. */
 	skip = age && rend->age && age <= rend->age;
-- 
2.43.0


From 4e8c3b3d76f0cac3baf01b0d830d78885f795c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 43/48] fix: example terminal caches glyphs of cut off
 characters for good

---
 src/gtktsm/gtktsm-terminal.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index 1d1ac5b..654d32c 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -468,6 +468,9 @@ static int gtktsm_face_render(struct gtktsm_face *face,
 	if (!face || !out)
 		return -EINVAL;
 
+	/* a wide character is cut off if the screen is too narrow for it */
+	id = (id << 2) | cwidth;
+
 	b = shl_htable_lookup_ulong(&face->glyphs, id, &gid);
 	if (b) {
 		*out = gtktsm_glyph_from_id(gid);
-- 
2.43.0


From f4a79448e6d105275336538e99213ecce8c5930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 44/48] fix: copied selections end in blanks where text is
 hidden beyond the right edge

A screen that became narrower leaves text in the hidden cells of the lines of
the alternate screen and of the history. These cells counted when the end of
a line's text was looked for, so blanks up to the right edge were copied.
---
 src/tsm/tsm-selection.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 3719792..1edf564 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -132,13 +132,13 @@ void tsm_screen_selection_target(struct tsm_screen *con,
 	selection_set(con, &con->sel_end, posx, posy);
 }
 
-/* calculates the line length from the beginning to the last non zero character */
-static unsigned int calc_line_len(struct line *line)
+/* calculates the line length from the beginning to the last visible non zero character */
+static unsigned int calc_line_len(struct tsm_screen *con, struct line *line)
 {
 	unsigned int line_len = 0;
 	int i;
 
-	for (i = 0; i < line->size; i++) {
+	for (i = 0; i < line->size && i < con->size_x; i++) {
 		if (line->cells[i].ch != 0) {
 			line_len = i + 1;
 		}
@@ -150,14 +150,14 @@ static unsigned int calc_line_len(struct line *line)
 /* TODO: tsm_ucs4_to_utf8 expects UCS4 characters, but a cell contains a
  * tsm-symbol (which can contain multiple UCS4 chars). Fix this when introducing
  * support for combining characters. */
-static unsigned int copy_line(struct line *line, char *buf,
+static unsigned int copy_line(struct tsm_screen *con, struct line *line, char *buf,
 			      unsigned int start, unsigned int len)
 {
 	unsigned int i, end;
 	char *pos = buf;
 	int line_len;
 
-	line_len = calc_line_len(line);
+	line_len = calc_line_len(con, line);
 	if (start > line_len) {
 		return 0;
 	}
@@ -383,7 +383,7 @@ static int copy_lines_sb(struct tsm_screen *con, struct selection_pos *start, st
 		}
 
 		line_len = calc_selection_line_len_sb(con, start, end, iter);
-		pos += copy_line(iter, &(buf[pos]), line_x, line_len);
+		pos += copy_line(con, iter, &(buf[pos]), line_x, line_len);
 
 		if (iter == con->sb_last || iter == end->line) {
 			break;
@@ -417,7 +417,7 @@ static int copy_lines(struct tsm_screen *con, struct selection_pos *start, struc
 			line_x = start->x;
 		}
 
-		pos += copy_line(con->lines[i], &(buf[pos]), line_x, line_len);
+		pos += copy_line(con, con->lines[i], &(buf[pos]), line_x, line_len);
 	}
 
 	return pos;
-- 
2.43.0


From 1d8a6394fbca4be9ddbfa33e1f1dcfd565361ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 45/48] fix: the last output of the example terminal's child
 was lost

---
 src/gtktsm/gtktsm-terminal.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index 654d32c..17b0c22 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -2011,10 +2011,18 @@ static void terminal_child_fn(GPid pid,
 {
 	GtkTsmTerminal *term = data;
 	GtkTsmTerminalPrivate *p = gtktsm_terminal_get_instance_private(term);
+	unsigned int i;
 
 	g_spawn_close_pid(pid);
 	p->child_src = 0;
 
+	/* Take the last output of the child before closing the pty. Others
+	 * might still write to it, so do not wait for its end. */
+	for (i = 0; i < 64; ++i) {
+		if (shl_pty_dispatch(p->pty) != -EAGAIN)
+			break;
+	}
+
 	shl_pty_bridge_remove(p->pty_bridge, p->pty);
 	shl_pty_close(p->pty);
 	shl_pty_unref(p->pty);
-- 
2.43.0


From 039e86bc17e1ea8231b4d017a1fc746fc31e62df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:07 +0000
Subject: [PATCH 46/48] fix: values of the example terminal's options were
 never released

g_variant_dict_lookup_value() returns a reference of its own.
---
 src/gtktsm/gtktsm-app.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/gtktsm/gtktsm-app.c b/src/gtktsm/gtktsm-app.c
index bfb01d5..1a6bfcd 100644
--- a/src/gtktsm/gtktsm-app.c
+++ b/src/gtktsm/gtktsm-app.c
@@ -82,18 +82,22 @@ static gint app_command_line(GApplication *gapp,
 	val = g_variant_dict_lookup_value(dict,
 					  "font",
 					  G_VARIANT_TYPE_STRING);
-	if (val)
+	if (val) {
 		g_object_set(G_OBJECT(term),
 			     "font", g_variant_get_string(val, NULL),
 			     NULL);
+		g_variant_unref(val);
+	}
 
 	val = g_variant_dict_lookup_value(dict,
 					  "sb-size",
 					  G_VARIANT_TYPE_INT32);
-	if (val)
+	if (val) {
 		g_object_set(G_OBJECT(term),
 			     "sb-size", shl_max(g_variant_get_int32(val), 0),
 			     NULL);
+		g_variant_unref(val);
+	}
 
 	val = g_variant_dict_lookup_value(dict,
 					  "anti-aliasing",
@@ -107,6 +111,7 @@ static gint app_command_line(GApplication *gapp,
 			g_application_command_line_printerr(cmd,
 					"invalid anti-aliasing argument: %s\n",
 					sval);
+			g_variant_unref(val);
 			r = 1;
 			goto error;
 		}
@@ -114,6 +119,7 @@ static gint app_command_line(GApplication *gapp,
 		g_object_set(G_OBJECT(term),
 			     "anti-aliasing", sval,
 			     NULL);
+		g_variant_unref(val);
 	}
 
 	val = g_variant_dict_lookup_value(dict,
@@ -129,6 +135,7 @@ static gint app_command_line(GApplication *gapp,
 			g_application_command_line_printerr(cmd,
 					"invalid subpixel-order argument: %s\n",
 					sval);
+			g_variant_unref(val);
 			r = 1;
 			goto error;
 		}
@@ -136,23 +143,28 @@ static gint app_command_line(GApplication *gapp,
 		g_object_set(G_OBJECT(term),
 			     "subpixel-order", sval,
 			     NULL);
+		g_variant_unref(val);
 	}
 
 	val = g_variant_dict_lookup_value(dict,
 					  "show-dirty",
 					  G_VARIANT_TYPE_BOOLEAN);
-	if (val)
+	if (val) {
 		g_object_set(G_OBJECT(term),
 			     "show-dirty", g_variant_get_boolean(val),
 			     NULL);
+		g_variant_unref(val);
+	}
 
 	val = g_variant_dict_lookup_value(dict,
 					  "debug",
 					  G_VARIANT_TYPE_BOOLEAN);
-	if (val)
+	if (val) {
 		g_object_set(G_OBJECT(term),
 			     "debug", g_variant_get_boolean(val),
 			     NULL);
+		g_variant_unref(val);
+	}
 
 	gtktsm_win_run(win);
 	gtk_window_present(GTK_WINDOW(win));
-- 
2.43.0


From e543007fa58b4ab0ac4e0f36292fbd03429bbeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:07 +0000
Subject: [PATCH 47/48] fix: the example terminal ignored --sb-size=0

GLib does not put integers that are 0 into the options of an invocation, so
the default size was used instead of no history.
---
 src/gtktsm/gtktsm-app.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gtktsm/gtktsm-app.c b/src/gtktsm/gtktsm-app.c
index 1a6bfcd..2205cb1 100644
--- a/src/gtktsm/gtktsm-app.c
+++ b/src/gtktsm/gtktsm-app.c
@@ -41,11 +41,12 @@ struct _GtkTsmAppClass {
 G_DEFINE_TYPE(GtkTsmApp, gtktsm_app, GTK_TYPE_APPLICATION);
 
 static gboolean arg_version;
+static gint arg_sb_size = 2000; /* default of the terminal widget */
 
 static GOptionEntry app_options[] = {
 	{ "version", 0, 0, G_OPTION_ARG_NONE, &arg_version, "Show version information and exit", NULL },
 	{ "font", 0, 0, G_OPTION_ARG_STRING, NULL, "Terminal font", "FONT" },
-	{ "sb-size", 0, 0, G_OPTION_ARG_INT, NULL, "Scroll-back buffer size in lines", "COUNT" },
+	{ "sb-size", 0, 0, G_OPTION_ARG_INT, &arg_sb_size, "Scroll-back buffer size in lines", "COUNT" },
 	{ "anti-aliasing", 0, 0, G_OPTION_ARG_STRING, NULL, "Anti-aliasing mode for font rendering", "{none,gray,subpixel,default}" },
 	{ "subpixel-order", 0, 0, G_OPTION_ARG_STRING, NULL, "Subpixel order for font rendering", "{rgb,bgr,vrgb,vbgr,default}" },
 	{ "show-dirty", 0, 0, G_OPTION_ARG_NONE, NULL, "Mark dirty cells during redraw", NULL },
@@ -61,6 +62,9 @@ static gint app_handle_local_options(GApplication *gapp,
 		return 0;
 	}
 
+	/* GLib itself does not forward integers that are 0 */
+	g_variant_dict_insert(opts, "sb-size", "i", arg_sb_size);
+
 	return -1;
 }
 
-- 
2.43.0


From 086497675e72340c33bed16d22be9f8265dae34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:19 +0000
Subject: [PATCH 48/48] fix: the second cell of a wide character kept old
 attributes

The cells a wide character covers got a width of zero, but kept the
attributes of whatever had been there before. A selective erase blanked
the second half of a protected wide character and left the first half,
and a colored wide character was drawn with a second half of another
color. Give all its cells the same attributes.
---
 src/tsm/tsm-screen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index ac6d02a..9eafca1 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -434,6 +434,7 @@ static void screen_write(struct tsm_screen *con, unsigned int x,
 	for (i = 1; i < len && i + x < con->size_x; ++i) {
 		line->cells[x + i].age = con->age_cnt;
 		line->cells[x + i].width = 0;
+		memcpy(&line->cells[x + i].attr, attr, sizeof(*attr));
 	}
 }
 
-- 
2.43.0

