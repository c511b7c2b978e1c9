From 43ab73e2ed60396af6ca6d474ea3a90e8ec43317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 01/63] fix: drop oneshot modifiers when toggle() consumes a
 oneshot layer

toggle() recomputed the modifiers before clearing the oneshot layers, which
left their modifiers pressed although no layer was active anymore.
---
 src/keyboard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 81ef40c..0b93cc8 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -708,8 +708,8 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			else
 				deactivate_layer(kbd, idx);
 
-			update_mods(kbd, -1, 0);
 			clear_oneshot(kbd);
+			update_mods(kbd, -1, 0);
 		}
 
 		break;
-- 
2.43.0


From 3349fa13cc0e3592cdcb1f3574d36bae33f25ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 02/63] fix: keep the expanded lettermod() expression alive
 while it is parsed

The arguments pointed into a buffer whose scope had already ended.
---
 src/config.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 74383aa..290686f 100644
--- a/src/config.c
+++ b/src/config.c
@@ -547,6 +547,7 @@ static int parse_descriptor(char *s,
 	int ret;
 	struct macro macro;
 	struct command cmd;
+	char buf[1024];
 
 	if (!s || !s[0]) {
 		d->op = 0;
@@ -616,8 +617,6 @@ static int parse_descriptor(char *s,
 		int i;
 
 		if (!strcmp(fn, "lettermod")) {
-			char buf[1024];
-
 			if (nargs != 4) {
 				err("%s requires 4 arguments", fn);
 				return -1;
-- 
2.43.0


From 5de953eb8ce48ac668eb5a98ecf415e1c2986d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 03/63] fix: do not mix replayed events with a chord in
 progress

Events queued behind a pending (e.g overloadt) key were fed to the chord
which was being disambiguated when the key resolved, so that a single chord
key struck twice could complete the chord and leave its output stuck.
---
 src/keyboard.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 0b93cc8..962b0da 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1089,6 +1089,8 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 		struct key_event queue[ARRAY_SIZE(kbd->pending_key.queue)];
 		size_t queue_sz = kbd->pending_key.queue_sz;
 
+		int chord_state = kbd->chord.state;
+
 		uint8_t code = kbd->pending_key.code;
 		int dl = kbd->pending_key.dl;
 
@@ -1105,8 +1107,17 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 		});
 		process_descriptor(kbd, code, &action, dl, 1, time);
 
-		/* Flush queued events */
+		/*
+		 * Flush queued events. These must not be mixed up with the
+		 * (later) events of a chord which is still being disambiguated.
+		 */
+		if (chord_state != CHORD_INACTIVE)
+			kbd->chord.state = CHORD_RESOLVING;
+
 		kbd_process_events(kbd, queue, queue_sz);
+
+		if (chord_state != CHORD_INACTIVE)
+			kbd->chord.state = chord_state;
 	}
 
 	return 1;
-- 
2.43.0


From b3af126540e959285d5031b5a39d83103ff43e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 04/63] fix: let the first activated layer take precedence over
 the layout

The layout is given an activation time of 1, which is also the first
value handed out by get_time(); the first layer activated after startup
thus tied with (and lost to) a non-default layout.
---
 src/keyboard.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 962b0da..05c34ca 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -14,8 +14,13 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 
 static long get_time()
 {
-	/* Close enough :/. Using a syscall is unnecessary. */
-	static long time = 1;
+	/*
+	 * Close enough :/. Using a syscall is unnecessary.
+	 *
+	 * Starts at 2 so that every activated layer is more recent than the
+	 * layout (which is given an activation time of 1).
+	 */
+	static long time = 2;
 	return time++;
 }
 
-- 
2.43.0


From 8f01178f9b2430cd153c2e88c39a6233138f4008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 05/63] fix: do not repeat macros whose repeat timeout is 0

A timer scheduled by something else (e.g. oneshot_timeout) caused a macro
with repetition disabled to be executed again while its key was held.
---
 src/keyboard.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 05c34ca..6d2290e 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -462,6 +462,17 @@ static void schedule_timeout(struct keyboard *kbd, long timeout)
 	kbd->timeouts[kbd->nr_timeouts++] = timeout;
 }
 
+/* Schedule the next repetition of the active macro (an interval of 0 disables it). */
+static void schedule_macro(struct keyboard *kbd, long interval, long time)
+{
+	if (interval > 0) {
+		kbd->macro_timeout = time + interval;
+		schedule_timeout(kbd, kbd->macro_timeout);
+	} else {
+		kbd->macro_timeout = LONG_MAX;
+	}
+}
+
 static long calculate_main_loop_timeout(struct keyboard *kbd, long time)
 {
 	size_t i;
@@ -696,8 +707,7 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			kbd->active_macro = macro;
 			kbd->active_macro_layer = dl;
 
-			kbd->macro_timeout = time + timeout;
-			schedule_timeout(kbd, kbd->macro_timeout);
+			schedule_macro(kbd, timeout, time);
 		}
 
 		break;
@@ -1157,8 +1167,7 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 			update_mods(kbd, -1, 0);
 		} else if (time >= kbd->macro_timeout) {
 			execute_macro(kbd, kbd->active_macro_layer, kbd->active_macro);
-			kbd->macro_timeout = time+kbd->macro_repeat_interval;
-			schedule_timeout(kbd, kbd->macro_timeout);
+			schedule_macro(kbd, kbd->macro_repeat_interval, time);
 		}
 	}
 
-- 
2.43.0


From 37769a46e2d7a14e57c6c851a447eb822961032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:50 +0000
Subject: [PATCH 06/63] fix: do not release arbitrary keys after a timeout in a
 key group

macro(a+100ms+b) emitted a key up event for key code 100 when releasing
the group.
---
 src/macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 13f743e..3933d75 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -110,7 +110,9 @@ void macro_execute(void (*output)(uint8_t, uint8_t),
 
 				for (j = hold_start; j < i; j++) {
 					const struct macro_entry *ent = &macro->entries[j];
-					output(ent->data, 0);
+					/* The group may also contain timeouts. */
+					if (ent->type == MACRO_HOLD)
+						output(ent->data, 0);
 				}
 
 				hold_start = -1;
-- 
2.43.0


From 27fa7c1b3395187cc703dab23a29f007c7312f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 07/63] fix: reject section headers without a layer name

---
 src/config.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/config.c b/src/config.c
index 290686f..34838ee 100644
--- a/src/config.c
+++ b/src/config.c
@@ -309,6 +309,11 @@ static int new_layer(char *s, const struct config *config, struct layer *layer)
 	name = strtok(s, ":");
 	type = strtok(NULL, ":");
 
+	if (!name) {
+		err("missing layer name");
+		return -1;
+	}
+
 	strcpy(layer->name, name);
 
 	layer->nr_chords = 0;
@@ -868,6 +873,8 @@ static int config_parse_string(struct config *config, char *content)
 			continue;
 
 		layername = strtok(section->name, ":");
+		if (!layername)
+			continue;
 
 		for (j = 0; j < section->nr_entries;j++) {
 			char entry[MAX_EXP_LEN];
-- 
2.43.0


From e19f3e2137cf4d4cf4d29f6760678c47c61d620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 08/63] fix: enforce the limit on composite layer constituents

---
 src/config.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 34838ee..3eba4a1 100644
--- a/src/config.c
+++ b/src/config.c
@@ -320,7 +320,6 @@ static int new_layer(char *s, const struct config *config, struct layer *layer)
 
 	if (strchr(name, '+')) {
 		char *layername;
-		int n = 0;
 
 		layer->type = LT_COMPOSITE;
 		layer->nr_constituents = 0;
@@ -338,7 +337,7 @@ static int new_layer(char *s, const struct config *config, struct layer *layer)
 				return -1;
 			}
 
-			if (n >= ARRAY_SIZE(layer->constituents)) {
+			if (layer->nr_constituents >= ARRAY_SIZE(layer->constituents)) {
 				err("max composite layers (%d) exceeded", ARRAY_SIZE(layer->constituents));
 				return -1;
 			}
-- 
2.43.0


From 654ec8dbc03cdcccd741ea1e4be4fa722fa4e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 09/63] fix: do not crash on global options and aliases without
 a value

---
 src/config.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 3eba4a1..216d529 100644
--- a/src/config.c
+++ b/src/config.c
@@ -739,7 +739,9 @@ static void parse_global_section(struct config *config, struct ini_section *sect
 	for (i = 0; i < section->nr_entries;i++) {
 		struct ini_entry *ent = &section->entries[i];
 
-		if (!strcmp(ent->key, "macro_timeout"))
+		if (!ent->val) {
+			warn("line %zd: missing value for %s", ent->lnum, ent->key);
+		} else if (!strcmp(ent->key, "macro_timeout"))
 			config->macro_timeout = atoi(ent->val);
 		else if (!strcmp(ent->key, "macro_sequence_timeout"))
 			config->macro_sequence_timeout = atoi(ent->val);
@@ -811,7 +813,9 @@ static void parse_alias_section(struct config *config, struct ini_section *secti
 		struct ini_entry *ent = &section->entries[i];
 		const char *name = ent->val;
 
-		if ((code = lookup_keycode(ent->key))) {
+		if (!name) {
+			warn("line %zd: invalid alias", ent->lnum);
+		} else if ((code = lookup_keycode(ent->key))) {
 			ssize_t len = strlen(name);
 
 			if (len >= (ssize_t)sizeof(config->aliases[0])) {
-- 
2.43.0


From 80c472c44a8d9703591525282b5d61810b6bbe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 10/63] fix: report actions with too many arguments instead of
 aborting

---
 src/config.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 216d529..a94b305 100644
--- a/src/config.c
+++ b/src/config.c
@@ -457,7 +457,9 @@ exit:
 			return -1;
 
 		if (arg != c) {
-			assert(*nargs < 5);
+			if (*nargs >= 5)
+				return -1;
+
 			args[(*nargs)++] = arg;
 		}
 
-- 
2.43.0


From a5b65f79b259b66c11c5592e8d82009da3447ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 11/63] fix: do not abort on truncated UTF-8

---
 src/string.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/string.c b/src/string.c
index dfcdc60..83adc1f 100644
--- a/src/string.c
+++ b/src/string.c
@@ -14,19 +14,13 @@ int utf8_read_char(const char *_s, uint32_t *code)
 	if (!s[0])
 		return 0;
 
-	if (s[0] >= 0xF0) {
-		assert(s[1]);
-		assert(s[2]);
-		assert(s[3]);
+	if (s[0] >= 0xF0 && s[1] && s[2] && s[3]) {
 		*code = (s[0] & 0x07) << 18 | (s[1] & 0x3F) << 12 | (s[2] & 0x3F) << 6 | (s[3] & 0x3F);
 		return 4;
-	} else if (s[0] >= 0xE0) {
-		assert(s[1]);
-		assert(s[2]);
+	} else if (s[0] >= 0xE0 && s[1] && s[2]) {
 		*code = (s[0] & 0x0F) << 12 | (s[1] & 0x3F) << 6 | (s[2] & 0x3F);
 		return 3;
-	} else if (s[0] >= 0xC0) {
-		assert(s[1]);
+	} else if (s[0] >= 0xC0 && s[1]) {
 		*code = (s[0] & 0x1F) << 6 | (s[1] & 0x3F);
 		return 2;
 	} else {
-- 
2.43.0


From f76fd9d2106500922a7433bbcfb7eaa03bf0566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 12/63] fix: do not read past the end of a modifier prefix

---
 src/keys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keys.c b/src/keys.c
index 77d055f..3e007a0 100644
--- a/src/keys.c
+++ b/src/keys.c
@@ -353,7 +353,7 @@ int parse_key_sequence(const char *s, uint8_t *codep, uint8_t *modsp)
 
 	uint8_t mods = 0;
 
-	while (c[1] == '-') {
+	while (*c && c[1] == '-') {
 		switch (*c) {
 		case 'C':
 			mods |= MOD_CTRL;
-- 
2.43.0


From 45d5c4981211d9768d75ac009e975773476398b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 13/63] fix: reject files with too many sections or entries
 instead of aborting

---
 src/ini.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ini.c b/src/ini.c
index 6029293..94659c1 100644
--- a/src/ini.c
+++ b/src/ini.c
@@ -107,7 +107,8 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 		switch (line[0]) {
 		case '[':
 			if (line[len-1] == ']') {
-				assert(n < MAX_SECTIONS);
+				if (n >= MAX_SECTIONS)
+					return NULL;
 
 				section = &ini.sections[n++];
 
@@ -136,7 +137,8 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 				return NULL;
 		}
 
-		assert(section->nr_entries < MAX_SECTION_ENTRIES);
+		if (section->nr_entries >= MAX_SECTION_ENTRIES)
+			return NULL;
 
 		ent = &section->entries[section->nr_entries++];
 		parse_kvp(line, &ent->key, &ent->val);
-- 
2.43.0


From 0197d0a3ae289e265f9ec57eff41d1fac3584fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 14/63] fix: terminate overlong section names

---
 src/ini.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ini.c b/src/ini.c
index 94659c1..36d9db3 100644
--- a/src/ini.c
+++ b/src/ini.c
@@ -114,7 +114,7 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 
 				line[len-1] = 0;
 
-				strncpy(section->name, line+1, sizeof(section->name));
+				snprintf(section->name, sizeof(section->name), "%s", line+1);
 				section->nr_entries = 0;
 				section->lnum = ln;
 
-- 
2.43.0


From 96ab809f9b9b77fe007051c4d737f730cc9e616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 15/63] fix: ignore excess device ids instead of aborting

---
 src/config.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/config.c b/src/config.c
index a94b305..33ed927 100644
--- a/src/config.c
+++ b/src/config.c
@@ -780,23 +780,21 @@ static void parse_id_section(struct config *config, struct ini_section *section)
 
 		if (!strcmp(s, "*")) {
 			config->wildcard = 1;
+		} else if (config->nr_ids >= ARRAY_SIZE(config->ids)) {
+			warn("max ids (%zu) exceeded, ignoring %s", ARRAY_SIZE(config->ids), s);
 		} else if (strstr(s, "m:") == s) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_MOUSE;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+2);
 		} else if (strstr(s, "k:") == s) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_KEYBOARD;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+2);
 		} else if (strstr(s, "-") == s) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_EXCLUDED;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+1);
 		} else if (strlen(s) < sizeof(config->ids[config->nr_ids].id)-1) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_KEYBOARD | ID_MOUSE;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s);
-- 
2.43.0


From 12c8f352c66a864efd840224be2c1adedead533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 16/63] fix: stay within the buffers while reading a config
 file

---
 src/config.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 33ed927..cadc28e 100644
--- a/src/config.c
+++ b/src/config.c
@@ -123,16 +123,20 @@ static char *read_file(const char *path)
 	while (fgets(line, sizeof line, fh)) {
 		int len = strlen(line);
 
+		if (!len)
+			continue;
+
 		if (line[len-1] != '\n') {
 			if (len >= MAX_LINE_LEN) {
 				err("maximum line length exceed (%d)", MAX_LINE_LEN);
 				goto fail;
 			} else {
 				line[len++] = '\n';
+				line[len] = 0;
 			}
 		}
 
-		if ((len+sz) > MAX_FILE_SZ) {
+		if ((len+sz) >= MAX_FILE_SZ) {
 			err("maximum file size exceed (%d)", MAX_FILE_SZ);
 			goto fail;
 		}
@@ -161,7 +165,7 @@ static char *read_file(const char *path)
 				perror("open");
 			} else {
 				int n;
-				while ((n = read(fd, buf+sz, sizeof(buf)-sz)) > 0)
+				while ((n = read(fd, buf+sz, sizeof(buf)-sz-1)) > 0)
 					sz += n;
 				close(fd);
 			}
-- 
2.43.0


From 7cab9b4f95a4a3d508cd95df00b882f7f040083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 17/63] fix: separate the last line of an included file from
 what follows

---
 src/config.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/config.c b/src/config.c
index cadc28e..b216ffe 100644
--- a/src/config.c
+++ b/src/config.c
@@ -168,6 +168,10 @@ static char *read_file(const char *path)
 				while ((n = read(fd, buf+sz, sizeof(buf)-sz-1)) > 0)
 					sz += n;
 				close(fd);
+
+				/* Keep the last included line apart from the one which follows. */
+				if (sz && buf[sz-1] != '\n' && sz < MAX_FILE_SZ-1)
+					buf[sz++] = '\n';
 			}
 		} else {
 			strcpy(buf+sz, line);
-- 
2.43.0


From 54a0343fc70d5cc364007313b15927273844a311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 18/63] fix: do not overwrite a chord with one which uses a
 subset of its keys

---
 src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index b216ffe..114d2c2 100644
--- a/src/config.c
+++ b/src/config.c
@@ -226,7 +226,7 @@ static struct descriptor *layer_lookup_chord(struct layer *layer, uint8_t *keys,
 				}
 		}
 
-		if (nm == n)
+		if (nm == n && chord->sz == n)
 			return &chord->d;
 	}
 
-- 
2.43.0


From 1d3dc15b81049d162cadafa1567d7734cc5a4f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 19/63] fix: reject bindings without a key

---
 src/config.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/config.c b/src/config.c
index 114d2c2..ae4a084 100644
--- a/src/config.c
+++ b/src/config.c
@@ -267,6 +267,10 @@ static int set_layer_entry(const struct config *config,
 			keys[n++] = code;
 		}
 
+		if (!n) {
+			err("chord without keys");
+			return -1;
+		}
 
 		if ((ld = layer_lookup_chord(layer, keys, n))) {
 			*ld = *d;
@@ -284,6 +288,9 @@ static int set_layer_entry(const struct config *config,
 
 			layer->nr_chords++;
 		}
+	} else if (!key[0]) {
+		err("missing key name");
+		return -1;
 	} else {
 		for (i = 0; i < 256; i++) {
 			if (!strcmp(config->aliases[i], key)) {
-- 
2.43.0


From ed7f706b7beb30fdf3003a5684acd929ccdf329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 20/63] fix: do not drop the first character of the unicode
 table from macros

---
 src/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 3933d75..faf8d19 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -69,7 +69,7 @@ int macro_parse(char *s, struct macro *macro)
 							break;
 						}
 					}
-				} else if ((xcode = unicode_lookup_index(codepoint)) > 0)
+				} else if ((xcode = unicode_lookup_index(codepoint)) >= 0)
 					ADD_ENTRY(MACRO_UNICODE, xcode);
 
 				tok += chrsz;
-- 
2.43.0


From 777eb08a1064ee8cc00a96b9b382a6e99a12d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 21/63] fix: serve all timers which are due at the same time

A wake-up consumed by a chord whose timeout had elapsed was not seen by a
tap/hold key with the same deadline, which then remained undecided.
---
 src/keyboard.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 6d2290e..7a1ef55 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1150,7 +1150,8 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 	int dl = -1;
 	struct descriptor d;
 
-	if (handle_chord(kbd, code, pressed, time))
+	/* A wake-up may be due for several reasons at once. */
+	if (handle_chord(kbd, code, pressed, time) && code)
 		goto exit;
 
 	if (handle_pending_key(kbd, code, pressed, time))
-- 
2.43.0


From 1b56310079a35d9119bbe75496dfdf70f2420fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 22/63] fix: do not leave overdue chords of flushed events
 pending

---
 src/keyboard.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 7a1ef55..32b5f77 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1133,6 +1133,9 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 
 		if (chord_state != CHORD_INACTIVE)
 			kbd->chord.state = chord_state;
+
+		/* A chord begun by the flushed events may be overdue already. */
+		handle_chord(kbd, 0, 0, time);
 	}
 
 	return 1;
-- 
2.43.0


From 49da24d01fa1d54ce0bb0c612bf355a2c1b327b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 23/63] fix: do not activate a layer twice when swapping to a
 toggled one

---
 src/keyboard.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 32b5f77..4164077 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -762,6 +762,10 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 				deactivate_layer(kbd, dl);
 				kbd->layer_state[dl].toggled = 0;
 
+				/* Replace an existing toggle rather than adding another activation. */
+				if (kbd->layer_state[idx].toggled)
+					deactivate_layer(kbd, idx);
+
 				activate_layer(kbd, 0, idx);
 				kbd->layer_state[idx].toggled = 1;
 				update_mods(kbd, -1, 0);
-- 
2.43.0


From 3812f203b8dccf03506698e97a39fc3b1ec54c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 24/63] fix: do not take a held toggle key for the key of the
 layer being swapped

---
 src/keyboard.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 4164077..f0f9c3e 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -781,6 +781,11 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 					uint8_t code = kbd->cache[i].code;
 					int layer = kbd->cache[i].layer;
 					int type = kbd->config.layers[layer].type;
+					enum op op = kbd->cache[i].d.op;
+
+					/* The layer does not depend on a toggle key which is still held. */
+					if (op == OP_TOGGLE || op == OP_TOGGLEM)
+						continue;
 
 					if (code && layer == dl && type == LT_NORMAL && layer != 0) {
 						ce = &kbd->cache[i];
-- 
2.43.0


From c0e9879ae9eab73e8a5894698ba6a93733b30175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:29 +0000
Subject: [PATCH 25/63] fix: release whatever the tap action of overload()
 turned into

---
 src/keyboard.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index f0f9c3e..9d0ce07 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -657,8 +657,13 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 					struct macro *macro = &kbd->config.macros[action->args[0].idx];
 					execute_macro(kbd, dl, macro);
 				} else {
+					/*
+					 * The release ends whatever the press turned
+					 * into (e.g an undecided key or a repeating macro).
+					 */
+					cache_set(kbd, code, &(struct cache_entry) { .d = *action, .dl = dl, .layer = 0 });
 					process_descriptor(kbd, code, action, dl, 1, time);
-					process_descriptor(kbd, code, action, dl, 0, time);
+					process_event(kbd, code, 0, time);
 				}
 			}
 		}
-- 
2.43.0


From 9cc408be1d3b24a38323cb201571d492d4fb13ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 26/63] fix: do not abort if more than three chords are held

---
 src/keyboard.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 9d0ce07..d63f51b 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -894,10 +894,11 @@ static int resolve_chord(struct keyboard *kbd)
 			}
 		}
 
-		assert(code);
-
-		queue_offset = chord->sz;
-		process_event(kbd, code, 1, kbd->chord.last_code_time);
+		/* Deliver the keys individually if too many chords are held. */
+		if (code) {
+			queue_offset = chord->sz;
+			process_event(kbd, code, 1, kbd->chord.last_code_time);
+		}
 	}
 
 
-- 
2.43.0


From 2bd28591d903cc9b54584d63e39ecb70ff4e7589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 27/63] fix: decide a tap/hold key rather than abort if its
 queue is full

---
 src/keyboard.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index d63f51b..b04c872 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1113,6 +1113,10 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 			}
 	}
 
+	/* Nothing more can be queued. */
+	if (!action.op && kbd->pending_key.queue_sz == ARRAY_SIZE(kbd->pending_key.queue))
+		action = kbd->pending_key.action2;
+
 	if (action.op) {
 		/* Create a copy of the queue on the stack to
 		   allow for recursive pending key processing. */
-- 
2.43.0


From 7cc8ca3964e376099d4bf21bfedc2de11201fc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 28/63] fix: resolve a chord rather than abort if its queue is
 full

---
 src/keyboard.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index b04c872..3bb66b2 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1050,6 +1050,10 @@ static int handle_chord(struct keyboard *kbd,
 					return abort_chord(kbd);
 		}
 
+		/* Nothing more can be queued. */
+		if (kbd->chord.queue_sz == ARRAY_SIZE(kbd->chord.queue))
+			return resolve_chord(kbd);
+
 		return 1;
 	}
 
-- 
2.43.0


From 57d36e6e7bac5ef13c7f2bd3eaac295000b7fdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 29/63] fix: drop obsolete timers instead of aborting

---
 src/keyboard.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 3bb66b2..53ad3c2 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -458,7 +458,16 @@ static void setlayout(struct keyboard *kbd, uint8_t idx)
 
 static void schedule_timeout(struct keyboard *kbd, long timeout)
 {
-	assert(kbd->nr_timeouts < ARRAY_SIZE(kbd->timeouts));
+	size_t i;
+
+	/* Every kind of timer supersedes its predecessor, the oldest is obsolete. */
+	if (kbd->nr_timeouts == ARRAY_SIZE(kbd->timeouts)) {
+		for (i = 1; i < kbd->nr_timeouts; i++)
+			kbd->timeouts[i-1] = kbd->timeouts[i];
+
+		kbd->nr_timeouts--;
+	}
+
 	kbd->timeouts[kbd->nr_timeouts++] = timeout;
 }
 
-- 
2.43.0


From 87376e84ecb3fe1151374be4b46c453574e6cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 30/63] fix: do not overflow the activation count of a layer

---
 src/keyboard.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.h b/src/keyboard.h
index dc94075..9536404 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -117,9 +117,9 @@ struct keyboard {
 	struct {
 		long activation_time;
 
-		uint8_t active;
+		unsigned int active;
 		uint8_t toggled;
-		uint8_t oneshot_depth;
+		unsigned int oneshot_depth;
 	} layer_state[MAX_LAYERS];
 
 	uint8_t keystate[256];
-- 
2.43.0


From 71df3b102bdfbc71abb712a88c31b9943b2b6627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 31/63] fix: do not report tablet and touchpad buttons as
 unrelated keys

Codes in the BTN_DIGI range have no keyd equivalent but were truncated to
8 bits (e.g BTN_TOUCH became the keypad minus key).
---
 src/device.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/device.c b/src/device.c
index b72c8a7..7fab147 100644
--- a/src/device.c
+++ b/src/device.c
@@ -546,10 +546,10 @@ struct device_event *device_read_event(struct device *dev)
 				case BTN_9:       ev.code = KEYD_F22; break;
 
 				default:
-					if (!(ev.code >= BTN_DIGI && ev.code <= BTN_TOOL_QUADTAP)) {
+					if (!(ev.code >= BTN_DIGI && ev.code <= BTN_TOOL_QUADTAP))
 						keyd_log("r{ERROR:} unsupported evdev code: 0x%x\n", ev.code);
-						return NULL;
-					}
+
+					return NULL;
 			}
 		}
 
-- 
2.43.0


From ea5cb1eced42e6a212555a15eede4f12976fa7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 32/63] fix: do not repeat the previous event on unknown
 absolute axes

---
 src/device.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index 7fab147..b229672 100644
--- a/src/device.c
+++ b/src/device.c
@@ -453,7 +453,7 @@ struct device_event *device_read_event(struct device *dev)
 			break;
 		default:
 			dbg("Unrecognized EV_ABS code: %x", ev.code);
-			break;
+			return NULL;
 		}
 
 		break;
-- 
2.43.0


From ae1b8c0b16b04ecf17e6f18c88de8f217fa86146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 33/63] fix: scale absolute coordinates over the range of the
 axis

Ranges which do not start at zero were offset (or wrapped around, for
negative values), large values overflowed and an empty range caused a
division by zero.
---
 src/device.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/device.c b/src/device.c
index b229672..62a31d9 100644
--- a/src/device.c
+++ b/src/device.c
@@ -376,6 +376,15 @@ int device_ungrab(struct device *dev)
 	}
 }
 
+/* Scale an absolute value to the range 0-1024. */
+static int scale_abs(int value, int min, int max)
+{
+	if (max <= min)
+		return 0;
+
+	return ((int64_t)value - min) * 1024 / ((int64_t)max - min);
+}
+
 /*
  * Read a device event from the given device or return
  * NULL if none are available (may happen in the
@@ -441,13 +450,13 @@ struct device_event *device_read_event(struct device *dev)
 		switch (ev.code) {
 		case ABS_X:
 			devev.type = DEV_MOUSE_MOVE_ABS;
-			devev.x = (ev.value * 1024) / (dev->_maxx - dev->_minx);
+			devev.x = scale_abs(ev.value, dev->_minx, dev->_maxx);
 			devev.y = 0;
 
 			break;
 		case ABS_Y:
 			devev.type = DEV_MOUSE_MOVE_ABS;
-			devev.y = (ev.value * 1024) / (dev->_maxy - dev->_miny);
+			devev.y = scale_abs(ev.value, dev->_miny, dev->_maxy);
 			devev.x = 0;
 
 			break;
-- 
2.43.0


From ae57499024697ad27757740922affe9237fb8c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 34/63] fix: terminate device names truncated by the kernel

Names of 64 characters or more left the buffer unterminated, which made
the device id depend on uninitialised memory.
---
 src/device.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/device.c b/src/device.c
index 62a31d9..fdfa6d0 100644
--- a/src/device.c
+++ b/src/device.c
@@ -140,6 +140,9 @@ static int device_init(const char *path, struct device *dev)
 		return -1;
 	}
 
+	/* The kernel does not terminate truncated names. */
+	dev->name[sizeof(dev->name)-1] = 0;
+
 	if (capabilities & CAP_MOUSE_ABS) {
 		if (ioctl(fd, EVIOCGABS(ABS_X), &absinfo) < 0) {
 			perror("ioctl");
-- 
2.43.0


From c0ada9d4e752034eba01ac0cf8123a6aa04ba42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 35/63] fix: close devices which cannot be queried

---
 src/device.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index fdfa6d0..12588b0 100644
--- a/src/device.c
+++ b/src/device.c
@@ -136,7 +136,8 @@ static int device_init(const char *path, struct device *dev)
 	capabilities = resolve_device_capabilities(fd, &num_keys, &relmask, &absmask);
 
 	if (ioctl(fd, EVIOCGNAME(sizeof(dev->name)), dev->name) == -1) {
-		keyd_log("ERROR: could not fetch device name of %s\n", dev->path);
+		keyd_log("ERROR: could not fetch device name of %s\n", path);
+		close(fd);
 		return -1;
 	}
 
@@ -146,6 +147,7 @@ static int device_init(const char *path, struct device *dev)
 	if (capabilities & CAP_MOUSE_ABS) {
 		if (ioctl(fd, EVIOCGABS(ABS_X), &absinfo) < 0) {
 			perror("ioctl");
+			close(fd);
 			return -1;
 		}
 
@@ -154,6 +156,7 @@ static int device_init(const char *path, struct device *dev)
 
 		if (ioctl(fd, EVIOCGABS(ABS_Y), &absinfo) < 0) {
 			perror("ioctl");
+			close(fd);
 			return -1;
 		}
 
@@ -168,6 +171,7 @@ static int device_init(const char *path, struct device *dev)
 
 		if (ioctl(fd, EVIOCGID, &info) == -1) {
 			perror("ioctl EVIOCGID");
+			close(fd);
 			return -1;
 		}
 
-- 
2.43.0


From df9186c3dd80874df7a7124b27c65ece8e94dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 36/63] fix: forget the active keyboard when configs are
 reloaded

It was used after having been freed by the next timeout, scroll event, mouse
button or layer listener.
---
 src/daemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/daemon.c b/src/daemon.c
index ab90b17..01e8be2 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -27,6 +27,7 @@ static void free_configs()
 	}
 
 	configs = NULL;
+	active_kbd = NULL;
 }
 
 static void cleanup()
-- 
2.43.0


From 083dfbfc0f57877fc34d3ddf5ba107a086809e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 37/63] fix: consider key events only when looking for the
 panic sequence

The code of a LED event is that of a different key (e.g the capslock LED
counted as escape).
---
 src/evloop.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evloop.c b/src/evloop.c
index 58e631a..1645d86 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -103,7 +103,8 @@ int evloop(int (*event_handler) (struct event *ev))
 						break;
 					} else {
 						//Handle device event
-						panic_check(devev->code, devev->pressed);
+						if (devev->type == DEV_KEY)
+							panic_check(devev->code, devev->pressed);
 
 						ev.type = EV_DEV_EVENT;
 						ev.devev = devev;
-- 
2.43.0


From c5cdfdd2b60853d256563edaa46eb6cf22ca9ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:16 +0000
Subject: [PATCH 38/63] fix: do not lose the timeouts of a keyboard

A timeout which elapsed while an unrelated event was being handled was never
delivered and events from a device with a different config discarded the
timeouts of all other keyboards (e.g moving a mouse with a config of its own
left overload() undecided).
---
 src/daemon.c | 51 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 01e8be2..e741243 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -3,6 +3,7 @@
 struct config_ent {
 	struct config config;
 	struct keyboard *kbd;
+	long timeout; /* Time until kbd expects to be woken up (0 if it does not). */
 	struct config_ent *next;
 };
 
@@ -461,7 +462,17 @@ static void handle_client(int con)
 	}
 }
 
-static long process_keypress(struct keyboard *kbd, uint8_t code, int timestamp)
+static void process_event(struct keyboard *kbd, struct key_event *kev)
+{
+	struct config_ent *ent;
+	long timeout = kbd_process_events(kbd, kev, 1);
+
+	for (ent = configs; ent; ent = ent->next)
+		if (ent->kbd == kbd)
+			ent->timeout = timeout;
+}
+
+static void process_keypress(struct keyboard *kbd, uint8_t code, int timestamp)
 {
 	struct key_event kev = {
 		.code = code,
@@ -469,32 +480,36 @@ static long process_keypress(struct keyboard *kbd, uint8_t code, int timestamp)
 		.timestamp = timestamp
 	};
 
-	kbd_process_events(kbd, &kev, 1);
+	process_event(kbd, &kev);
 
 	kev.pressed = 0;
-	return kbd_process_events(kbd, &kev, 1);
+	process_event(kbd, &kev);
 }
 
 static int event_handler(struct event *ev)
 {
 	static int last_time = 0;
-	static int timeout = 0;
+	int timeout = 0;
+	int elapsed = ev->timestamp - last_time;
+	struct config_ent *ent;
 	struct key_event kev = {0};
 
-	timeout -= ev->timestamp - last_time;
 	last_time = ev->timestamp;
 
-	timeout = timeout < 0 ? 0 : timeout;
+	/* Overdue timeouts are retained until the next EV_TIMEOUT. */
+	for (ent = configs; ent; ent = ent->next)
+		if (ent->timeout)
+			ent->timeout = ent->timeout > elapsed ? ent->timeout - elapsed : 1;
 
 	switch (ev->type) {
 	case EV_TIMEOUT:
-		if (!active_kbd)
-			return 0;
-
 		kev.code = 0;
 		kev.timestamp = ev->timestamp;
 
-		timeout = kbd_process_events(active_kbd, &kev, 1);
+		for (ent = configs; ent; ent = ent->next)
+			if (ent->timeout == 1)
+				process_event(ent->kbd, &kev);
+
 		break;
 	case EV_DEV_EVENT:
 		if (ev->dev->data) {
@@ -509,7 +524,7 @@ static int event_handler(struct event *ev)
 				kev.pressed = ev->devev->pressed;
 				kev.timestamp = ev->timestamp;
 
-				timeout = kbd_process_events(kbd, &kev, 1);
+				process_event(kbd, &kev);
 				break;
 			case DEV_MOUSE_MOVE:
 				if (kbd->scroll.active) {
@@ -539,16 +554,16 @@ static int event_handler(struct event *ev)
 				if (active_kbd) {
 					if (ev->devev->x > 0)
 						for (i = 0;i < (size_t)ev->devev->x; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_RIGHT, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_RIGHT, ev->timestamp);
 					if (ev->devev->x < 0)
 						for (i = 0;i < (size_t)-1*ev->devev->x; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_LEFT, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_LEFT, ev->timestamp);
 					if (ev->devev->y > 0)
 						for (i = 0;i < (size_t)ev->devev->y; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_UP, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_UP, ev->timestamp);
 					if (ev->devev->y < 0)
 						for (i = 0;i < (size_t)-1*ev->devev->y; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_DOWN, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_DOWN, ev->timestamp);
 				}
 				break;
 			default:
@@ -556,7 +571,7 @@ static int event_handler(struct event *ev)
 			}
 		} else if (!ev->dev->is_virtual && ev->dev->capabilities & CAP_MOUSE) {
 			if (active_kbd && (ev->devev->type == DEV_KEY || ev->devev->type == DEV_MOUSE_SCROLL))
-				timeout = process_keypress(active_kbd, KEYD_EXTERNAL_MOUSE_BUTTON, ev->timestamp);
+				process_keypress(active_kbd, KEYD_EXTERNAL_MOUSE_BUTTON, ev->timestamp);
 		} else if (ev->dev->is_virtual && ev->devev->type == DEV_LED) {
 			size_t i;
 
@@ -594,6 +609,10 @@ static int event_handler(struct event *ev)
 		break;
 	}
 
+	for (ent = configs; ent; ent = ent->next)
+		if (ent->timeout > 0 && (!timeout || ent->timeout < timeout))
+			timeout = ent->timeout;
+
 	return timeout;
 }
 
-- 
2.43.0


From 1826f719c4d29a36c7910fc0127907349f779b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:50 +0000
Subject: [PATCH 39/63] fix: do not let clients terminate or stall the daemon

A client which disconnected before reading its reply terminated the daemon
(EPIPE), one which disconnected before sending its message sent it into an
endless loop and one which sent nothing blocked it indefinitely.
---
 src/daemon.c | 57 +++++++++++++++++++++++++++++++++++++++++++---------
 src/util.c   |  2 +-
 2 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index e741243..e57bca5 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -75,6 +75,38 @@ static void send_key(uint8_t code, uint8_t state)
 	}
 }
 
+/*
+ * Like xread/xwrite, but failure (e.g because the client is gone) is not
+ * fatal. Returns 0 on success.
+ */
+static int client_read(int con, void *buf, size_t sz)
+{
+	size_t nrd = 0;
+
+	while (nrd != sz) {
+		ssize_t n = read(con, buf+nrd, sz-nrd);
+		if (n <= 0)
+			return -1;
+		nrd += n;
+	}
+
+	return 0;
+}
+
+static int client_write(int con, const void *buf, size_t sz)
+{
+	size_t nwr = 0;
+
+	while (nwr != sz) {
+		ssize_t n = write(con, buf+nwr, sz-nwr);
+		if (n <= 0)
+			return -1;
+		nwr += n;
+	}
+
+	return 0;
+}
+
 static void add_listener(int con)
 {
 	struct timeval tv;
@@ -88,7 +120,7 @@ static void add_listener(int con)
 
 	if (nr_listeners == ARRAY_SIZE(listeners)) {
 		char s[] = "Max listeners exceeded\n";
-		xwrite(con, &s, sizeof s);
+		client_write(con, &s, sizeof s);
 
 		close(con);
 		return;
@@ -301,7 +333,7 @@ static void send_success(int con)
 	msg.type = IPC_SUCCESS;;
 	msg.sz = 0;
 
-	xwrite(con, &msg, sizeof msg);
+	client_write(con, &msg, sizeof msg);
 	close(con);
 }
 
@@ -315,7 +347,7 @@ static void send_fail(int con, const char *fmt, ...)
 	msg.type = IPC_FAIL;
 	msg.sz = vsnprintf(msg.data, sizeof(msg.data), fmt, args);
 
-	xwrite(con, &msg, sizeof msg);
+	client_write(con, &msg, sizeof msg);
 	close(con);
 
 	va_end(args);
@@ -390,7 +422,16 @@ static void handle_client(int con)
 {
 	struct ipc_message msg;
 
-	xread(con, &msg, sizeof msg);
+	/* Do not wait for clients which fail to send (or read) their message. */
+	struct timeval tv = { .tv_sec = 1 };
+
+	setsockopt(con, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
+	setsockopt(con, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
+
+	if (client_read(con, &msg, sizeof msg)) {
+		close(con);
+		return;
+	}
 
 	if (msg.sz >= sizeof(msg.data)) {
 		send_fail(con, "maximum message size exceeded");
@@ -597,12 +638,10 @@ static int event_handler(struct event *ev)
 	case EV_FD_ACTIVITY:
 		if (ev->fd == ipcfd) {
 			int con = accept(ipcfd, NULL, 0);
-			if (con < 0) {
+			if (con < 0)
 				perror("accept");
-				exit(-1);
-			}
-
-			handle_client(con);
+			else
+				handle_client(con);
 		}
 		break;
 	default:
diff --git a/src/util.c b/src/util.c
index 8e35ec5..2f19f86 100644
--- a/src/util.c
+++ b/src/util.c
@@ -22,7 +22,7 @@ void xread(int fd, void *buf, size_t sz)
 
 	while(sz != nrd) {
 		n = read(fd, buf+nrd, sz-nrd);
-		if (n < 0) {
+		if (n <= 0) {
 			perror("read");
 			exit(-1);
 		}
-- 
2.43.0


From 2729e519d84e656511176705cfa305fbc4b213dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:50 +0000
Subject: [PATCH 40/63] fix: survive the removal of a device whose leds are set

---
 src/device.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index 12588b0..cf9c0a8 100644
--- a/src/device.c
+++ b/src/device.c
@@ -599,5 +599,7 @@ void device_set_led(const struct device *dev, int led, int state)
 		.value = state
 	};
 
-	xwrite(dev->fd, &ev, sizeof ev);
+	/* Not fatal, the device may have been removed. */
+	if (write(dev->fd, &ev, sizeof ev) < 0)
+		dbg("failed to set led of %s", dev->path);
 }
-- 
2.43.0


From 80a459cbdd142704a9580289f22cbc18a9d875fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:23 +0000
Subject: [PATCH 41/63] fix: release the keys held on a device which is removed

The kernel discards pending release events of removed devices, which left
keys stuck.
---
 src/daemon.c | 13 +++++++++++++
 src/device.c |  1 +
 src/device.h |  1 +
 3 files changed, 15 insertions(+)

diff --git a/src/daemon.c b/src/daemon.c
index e57bca5..e7aba77 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -565,6 +565,7 @@ static int event_handler(struct event *ev)
 				kev.pressed = ev->devev->pressed;
 				kev.timestamp = ev->timestamp;
 
+				ev->dev->keystate[kev.code] = kev.pressed;
 				process_event(kbd, &kev);
 				break;
 			case DEV_MOUSE_MOVE:
@@ -634,6 +635,18 @@ static int event_handler(struct event *ev)
 	case EV_DEV_REMOVE:
 		keyd_log("DEVICE: r{removed}\t%s %s\n", ev->dev->id, ev->dev->name);
 
+		/* Release any keys which were still held. */
+		if (ev->dev->data) {
+			size_t i;
+
+			for (i = 0; i < 256; i++)
+				if (ev->dev->keystate[i]) {
+					kev.code = i;
+					kev.timestamp = ev->timestamp;
+					process_event(ev->dev->data, &kev);
+				}
+		}
+
 		break;
 	case EV_FD_ACTIVITY:
 		if (ev->fd == ipcfd) {
diff --git a/src/device.c b/src/device.c
index cf9c0a8..4e9535e 100644
--- a/src/device.c
+++ b/src/device.c
@@ -191,6 +191,7 @@ static int device_init(const char *path, struct device *dev)
 		dev->fd = fd;
 		dev->capabilities = capabilities;
 		dev->data = NULL;
+		memset(dev->keystate, 0, sizeof(dev->keystate));
 		dev->grabbed = 0;
 
 		dev->is_virtual = info.vendor == 0x0FAC;
diff --git a/src/device.h b/src/device.h
index 0a12699..49b8e76 100644
--- a/src/device.h
+++ b/src/device.h
@@ -37,6 +37,7 @@ struct device {
 
 	/* Reserved for the user. */
 	void *data;
+	uint8_t keystate[256];
 };
 
 struct device_event {
-- 
2.43.0


From 2880aa7d7630c16e142f1dc1346a7a38b56aba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:28 +0000
Subject: [PATCH 42/63] fix: ignore excess devices instead of aborting

---
 src/device.c | 10 ++++++++--
 src/evloop.c |  7 ++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/device.c b/src/device.c
index 4e9535e..ebf710f 100644
--- a/src/device.c
+++ b/src/device.c
@@ -234,8 +234,14 @@ int device_scan(struct device devices[MAX_DEVICES])
 
 	while((ent = readdir(dh))) {
 		if (ent->d_type != DT_DIR && !strncmp(ent->d_name, "event", 5)) {
-			assert(n < MAX_DEVICES);
-			struct device_worker *w = &workers[n++];
+			struct device_worker *w;
+
+			if (n == MAX_DEVICES) {
+				keyd_log("WARNING: too many devices, ignoring %s\n", ent->d_name);
+				continue;
+			}
+
+			w = &workers[n++];
 
 			snprintf(w->path, sizeof(w->path), "/dev/input/%s", ent->d_name);
 			pthread_create(&w->tid, NULL, device_scan_worker, w);
diff --git a/src/evloop.c b/src/evloop.c
index 1645d86..875c420 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -132,7 +132,12 @@ int evloop(int (*event_handler) (struct event *ev))
 			struct device dev;
 
 			while (devmon_read_device(monfd, &dev) == 0) {
-				assert(device_table_sz < MAX_DEVICES);
+				if (device_table_sz == MAX_DEVICES) {
+					keyd_log("WARNING: too many devices, ignoring %s\n", dev.path);
+					close(dev.fd);
+					continue;
+				}
+
 				device_table[device_table_sz++] = dev;
 
 				ev.type = EV_DEV_ADD;
-- 
2.43.0


From 656dd42b9550be22e817a4f46c8792905a38a8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:28 +0000
Subject: [PATCH 43/63] fix: close devices which have been removed

---
 src/device.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device.c b/src/device.c
index ebf710f..efc5a5e 100644
--- a/src/device.c
+++ b/src/device.c
@@ -415,6 +415,7 @@ struct device_event *device_read_event(struct device *dev)
 		if (errno == EAGAIN) {
 			return NULL;
 		} else {
+			close(dev->fd);
 			dev->fd = -1;
 			devev.type = DEV_REMOVED;
 			return &devev;
-- 
2.43.0


From e35af2d675200e3b95bd5b932b8feaf19e80cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:28 +0000
Subject: [PATCH 44/63] fix: do not loop forever if the input cannot be read

---
 src/keyd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keyd.c b/src/keyd.c
index 9c5172d..3dca2dd 100644
--- a/src/keyd.c
+++ b/src/keyd.c
@@ -112,7 +112,7 @@ static void read_input(int argc, char *argv[], char *buf, size_t *psz)
 		}
 	} else {
 		while (1) {
-			size_t n;
+			ssize_t n;
 
 			if ((n = read(0, buf+sz, bufsz-sz)) <= 0)
 				break;
-- 
2.43.0


From 4c9dff047881b8edba1240cb46536e454e2ace99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:28 +0000
Subject: [PATCH 45/63] fix: announce the voicecommand key

---
 src/vkbd/uinput.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vkbd/uinput.c b/src/vkbd/uinput.c
index cb43c65..f856107 100644
--- a/src/vkbd/uinput.c
+++ b/src/vkbd/uinput.c
@@ -84,6 +84,11 @@ static int create_virtual_keyboard(const char *name)
 		exit(-1);
 	}
 
+	if (ioctl(fd, UI_SET_KEYBIT, KEY_VOICECOMMAND)) {
+		perror("ioctl set_keybit");
+		exit(-1);
+	}
+
 	udev.id.bustype = BUS_USB;
 	udev.id.vendor = 0x0FAC;
 	udev.id.product = 0x0ADE;
-- 
2.43.0


From 0d674719e8b1e13d475f8db7c6c0f745d1c1b6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:28 +0000
Subject: [PATCH 46/63] fix: do not truncate the longest layer names sent to
 listeners

---
 src/daemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daemon.c b/src/daemon.c
index e7aba77..fd2884a 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -169,7 +169,7 @@ fail:
 static void on_layer_change(const struct keyboard *kbd, const struct layer *layer, uint8_t state)
 {
 	size_t i;
-	char buf[MAX_LAYER_NAME_LEN+2];
+	char buf[MAX_LAYER_NAME_LEN+3];
 	ssize_t bufsz;
 
 	int keep[ARRAY_SIZE(listeners)];
-- 
2.43.0


From d2cad48f3536c6964e2972684b3725b3d05efa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:28 +0000
Subject: [PATCH 47/63] fix: refuse overlong bindings instead of aborting

---
 src/keyd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keyd.c b/src/keyd.c
index 3dca2dd..73fa6f6 100644
--- a/src/keyd.c
+++ b/src/keyd.c
@@ -10,7 +10,8 @@ static int ipc_exec(int type, const char *data, size_t sz, uint32_t timeout)
 {
 	struct ipc_message msg;
 
-	assert(sz <= sizeof(msg.data));
+	if (sz > sizeof(msg.data))
+		die("maximum input length exceeded");
 
 	msg.type = type;
 	msg.sz = sz;
-- 
2.43.0


From 83d8cde16c850339c93d4ca3f69421c4a935edf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:46 +0000
Subject: [PATCH 48/63] fix: do not drop absolute movement to the edge of an
 axis

---
 src/device.c      | 4 ++--
 src/vkbd/uinput.c | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/device.c b/src/device.c
index efc5a5e..6a62333 100644
--- a/src/device.c
+++ b/src/device.c
@@ -466,13 +466,13 @@ struct device_event *device_read_event(struct device *dev)
 		case ABS_X:
 			devev.type = DEV_MOUSE_MOVE_ABS;
 			devev.x = scale_abs(ev.value, dev->_minx, dev->_maxx);
-			devev.y = 0;
+			devev.y = -1;
 
 			break;
 		case ABS_Y:
 			devev.type = DEV_MOUSE_MOVE_ABS;
 			devev.y = scale_abs(ev.value, dev->_miny, dev->_maxy);
-			devev.x = 0;
+			devev.x = -1;
 
 			break;
 		default:
diff --git a/src/vkbd/uinput.c b/src/vkbd/uinput.c
index f856107..a826abf 100644
--- a/src/vkbd/uinput.c
+++ b/src/vkbd/uinput.c
@@ -307,7 +307,8 @@ void vkbd_mouse_move_abs(const struct vkbd *vkbd, int x, int y)
 {
 	struct input_event ev;
 
-	if (x) {
+	/* A negative coordinate corresponds to an unchanged axis. */
+	if (x >= 0) {
 		ev.type = EV_ABS;
 		ev.code = ABS_X;
 		ev.value = x;
@@ -318,7 +319,7 @@ void vkbd_mouse_move_abs(const struct vkbd *vkbd, int x, int y)
 		xwrite(vkbd->pfd, &ev, sizeof(ev));
 	}
 
-	if (y) {
+	if (y >= 0) {
 		ev.type = EV_ABS;
 		ev.code = ABS_Y;
 		ev.value = y;
-- 
2.43.0


From fefcfec76399f0d51b5afe29c6026a16ab0d82e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:46 +0000
Subject: [PATCH 49/63] fix: do not lose timeouts when 2^31 ms of uptime are
 reached

---
 src/daemon.c   | 6 +++---
 src/evloop.c   | 4 ++--
 src/keyboard.c | 4 ++--
 src/keyboard.h | 2 +-
 src/keyd.h     | 2 +-
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index fd2884a..85f6ab8 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -513,7 +513,7 @@ static void process_event(struct keyboard *kbd, struct key_event *kev)
 			ent->timeout = timeout;
 }
 
-static void process_keypress(struct keyboard *kbd, uint8_t code, int timestamp)
+static void process_keypress(struct keyboard *kbd, uint8_t code, long timestamp)
 {
 	struct key_event kev = {
 		.code = code,
@@ -529,9 +529,9 @@ static void process_keypress(struct keyboard *kbd, uint8_t code, int timestamp)
 
 static int event_handler(struct event *ev)
 {
-	static int last_time = 0;
+	static long last_time = 0;
 	int timeout = 0;
-	int elapsed = ev->timestamp - last_time;
+	long elapsed = ev->timestamp - last_time;
 	struct config_ent *ent;
 	struct key_event kev = {0};
 
diff --git a/src/evloop.c b/src/evloop.c
index 875c420..b039c05 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -57,8 +57,8 @@ int evloop(int (*event_handler) (struct event *ev))
 	while (1) {
 		int removed = 0;
 
-		int start_time;
-		int elapsed;
+		long start_time;
+		long elapsed;
 
 		pfds[0].fd = monfd;
 		pfds[0].events = POLLIN;
diff --git a/src/keyboard.c b/src/keyboard.c
index 53ad3c2..29de91d 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1248,8 +1248,8 @@ exit:
 long kbd_process_events(struct keyboard *kbd, const struct key_event *events, size_t n)
 {
 	size_t i = 0;
-	int timeout = 0;
-	int timeout_ts = 0;
+	long timeout = 0;
+	long timeout_ts = 0;
 
 	while (i != n) {
 		const struct key_event *ev = &events[i];
diff --git a/src/keyboard.h b/src/keyboard.h
index 9536404..333ffb1 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -27,7 +27,7 @@ struct cache_entry {
 struct key_event {
 	uint8_t code;
 	uint8_t pressed;
-	int timestamp;
+	long timestamp;
 };
 
 struct output {
diff --git a/src/keyd.h b/src/keyd.h
index dbda395..2ab177b 100644
--- a/src/keyd.h
+++ b/src/keyd.h
@@ -66,7 +66,7 @@ struct event {
 	enum event_type type;
 	struct device *dev;
 	struct device_event *devev;
-	int timestamp;
+	long timestamp;
 	int fd;
 };
 
-- 
2.43.0


From 0f3cf3dacb4345a69c888a9dda40cbfb9d17d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:15 +0000
Subject: [PATCH 50/63] fix: do not take an empty argument for the input
 command

---
 src/keyd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keyd.c b/src/keyd.c
index 73fa6f6..796db55 100644
--- a/src/keyd.c
+++ b/src/keyd.c
@@ -251,7 +251,8 @@ int main(int argc, char *argv[])
 	signal(SIGPIPE, SIG_IGN);
 
 	if (argc > 1) {
-		for (i = 0; i < ARRAY_SIZE(commands); i++)
+		/* An empty argument is not the (missing) flag of a command. */
+		for (i = 0; argv[1][0] && i < ARRAY_SIZE(commands); i++)
 			if (!strcmp(commands[i].name, argv[1]) ||
 				!strcmp(commands[i].flag, argv[1]) ||
 				!strcmp(commands[i].long_flag, argv[1])) {
-- 
2.43.0


From 092ed4ef78131c3de73f7e2dec8bfcdd2fce78b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:04 +0000
Subject: [PATCH 51/63] fix: reassemble wayland messages which arrive in pieces

---
 scripts/keyd-application-mapper | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 91c4c93..59b1946 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -194,13 +194,24 @@ class Wayland():
         self.sock.sendall(struct.pack(b'II', object_id, opcode))
         self.sock.sendall(payload)
 
+    # A message (or its header) may arrive in several pieces.
+    def recv_exact(self, n):
+        data = b''
+        while len(data) < n:
+            chunk = self.sock.recv(n - len(data))
+            if not chunk:
+                raise EOFError('wayland connection closed')
+            data += chunk
+
+        return data
+
     def recv_msg(self):
-        (object_id, evcode) = struct.unpack('II', self.sock.recv(8))
+        (object_id, evcode) = struct.unpack('II', self.recv_exact(8))
 
         size = evcode >> 16
         evcode = evcode & 0xFFFF
 
-        data = self.sock.recv(size-8)
+        data = self.recv_exact(size-8)
 
         return (object_id, evcode, data)
 
-- 
2.43.0


From ed617d76b4a7d9ee21d62bf8f3c2fda207467b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:04 +0000
Subject: [PATCH 52/63] fix: do not confuse windows which have the same class
 and title

---
 scripts/keyd-application-mapper | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 59b1946..8b801b4 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -269,7 +269,7 @@ class Wlroots():
                 windows[obj]['appid'] = self.wl.read_string(payload)
             elif event == 4:
                 # zwlr_foreign_toplevel_handle_v1::state event
-                if active_window == windows[obj]:
+                if active_window is windows[obj]:
                     active_window = None
                 window_is_active = False
 
@@ -284,13 +284,13 @@ class Wlroots():
 
                 if window_is_active:
                     active_window = windows[obj]
-            elif event == 5 and active_window == windows[obj]:
+            elif event == 5 and active_window is windows[obj]:
                 # zwlr_foreign_toplevel_handle_v1::done event
                 self.on_window_change(active_window['appid'], active_window['title'])
             elif event == 6:
                 # zwlr_foreign_toplevel_handle_v1::closed event
                 closed_window = windows.pop(obj)
-                if closed_window == active_window:
+                if closed_window is active_window:
                     active_window = None
 
 class Cosmic():
-- 
2.43.0


From ae973e562bf6d9da2414a0217834943d488f7138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:04 +0000
Subject: [PATCH 53/63] fix: notice active windows which are maximized as well
 on cosmic

---
 scripts/keyd-application-mapper | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 8b801b4..284d97e 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -312,7 +312,7 @@ class Cosmic():
                 windows[obj]['title'] = self.wl.read_string(payload)
             if event == 3:
                 windows[obj]['appid'] = self.wl.read_string(payload)
-            if event == 8  and payload[0] > 0 and payload[4] == 2:
+            if event == 8 and 2 in struct.unpack('I' * (len(payload) // 4 - 1), payload[4:]):
                 self.on_window_change(windows[obj].get('appid', ''), windows[obj].get('title', ''))
 
 class XMonitor():
-- 
2.43.0


From 9d5a880a8a98cc85fb931e1c206c07d1168c7130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:04 +0000
Subject: [PATCH 54/63] fix: do not leave window changes in the buffer of the
 Gnome fifo

---
 scripts/keyd-application-mapper | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 284d97e..8b8c694 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -454,11 +454,12 @@ NOTE:
             exit(0)
 
     def run(self):
-        fh = open(self.fifo_path)
+        # Unbuffered, since select() does not know about lines in a buffer.
+        fh = open(self.fifo_path, 'rb', buffering=0)
         last_cls = ''
         last_title = ''
 
-        for line in new_interruptible_generator(fh.fileno(), fh.readline, None):
+        for line in new_interruptible_generator(fh.fileno(), lambda: fh.readline().decode('utf8'), None):
             if line == None:
                 self.on_window_change(last_cls, last_title)
                 continue
-- 
2.43.0


From 2f0f159395c6aed85aedbc8ecba8cba7e8b7b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:39 +0000
Subject: [PATCH 55/63] fix: notice title changes of windows whose focus lies
 in a child

---
 scripts/keyd-application-mapper | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 8b8c694..0d068a3 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -334,6 +334,8 @@ class XMonitor():
 
 
     def get_window_info(self, win):
+        import Xlib
+
         def get_title(win):
             title = ''
             try:
@@ -347,6 +349,9 @@ class XMonitor():
             return title
 
         while win:
+            # The focus may lie in a child of the window which bears the title.
+            win.change_attributes(event_mask = Xlib.X.SubstructureNotifyMask|Xlib.X.PropertyChangeMask)
+
             cls = win.get_wm_class()
             if cls:
                 return (cls[1], get_title(win))
@@ -400,8 +405,6 @@ class XMonitor():
                     if isinstance(win, int) or win == None:
                         continue
 
-                    win.change_attributes(event_mask = Xlib.X.SubstructureNotifyMask|Xlib.X.PropertyChangeMask)
-
                     cls, title = self.get_window_info(win)
 
                     if cls != last_active_class or title != last_active_title:
-- 
2.43.0


From 4c95d356bed4585d8522693ae15a89b06cd6d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:39 +0000
Subject: [PATCH 56/63] fix: keys without an alternative name are not named by
 the empty string

---
 src/keys.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keys.c b/src/keys.c
index 3e007a0..256f3a5 100644
--- a/src/keys.c
+++ b/src/keys.c
@@ -44,7 +44,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_LEFTBRACE] = { "[", "leftbrace", "{" },
 	[KEYD_RIGHTBRACE] = { "]", "rightbrace", "}" },
 	[KEYD_ENTER] = { "enter", NULL, NULL },
-	[KEYD_LEFTCTRL] = { "leftcontrol", "", NULL },
+	[KEYD_LEFTCTRL] = { "leftcontrol", NULL, NULL },
 	[KEYD_IS_LEVEL3_SHIFT] = { "iso-level3-shift", NULL, NULL }, //Oddly missing from input-event-codes.h, appears to be used as altgr in an english keymap on X
 	[KEYD_A] = { "a", NULL, "A" },
 	[KEYD_S] = { "s", NULL, "S" },
@@ -58,7 +58,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_SEMICOLON] = { ";", "semicolon", ":" },
 	[KEYD_APOSTROPHE] = { "'", "apostrophe", "\"" },
 	[KEYD_GRAVE] = { "`", "grave", "~" },
-	[KEYD_LEFTSHIFT] = { "leftshift", "", NULL },
+	[KEYD_LEFTSHIFT] = { "leftshift", NULL, NULL },
 	[KEYD_BACKSLASH] = { "\\", "backslash", "|" },
 	[KEYD_Z] = { "z", NULL, "Z" },
 	[KEYD_X] = { "x", NULL, "X" },
@@ -72,7 +72,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_SLASH] = { "/", "slash", "?" },
 	[KEYD_RIGHTSHIFT] = { "rightshift", NULL, NULL },
 	[KEYD_KPASTERISK] = { "kpasterisk", NULL, NULL },
-	[KEYD_LEFTALT] = { "leftalt", "", NULL },
+	[KEYD_LEFTALT] = { "leftalt", NULL, NULL },
 	[KEYD_SPACE] = { "space", NULL, NULL },
 	[KEYD_CAPSLOCK] = { "capslock", NULL, NULL },
 	[KEYD_F1] = { "f1", NULL, NULL },
@@ -140,7 +140,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_HANGEUL] = { "hangeul", NULL, NULL },
 	[KEYD_HANJA] = { "hanja", NULL, NULL },
 	[KEYD_YEN] = { "yen", NULL, NULL },
-	[KEYD_LEFTMETA] = { "leftmeta", "", NULL },
+	[KEYD_LEFTMETA] = { "leftmeta", NULL, NULL },
 	[KEYD_RIGHTMETA] = { "rightmeta", NULL, NULL },
 	[KEYD_COMPOSE] = { "compose", NULL, NULL },
 	[KEYD_STOP] = { "stop", NULL, NULL },
-- 
2.43.0


From b6fa9edce28fe476ce1b0934c67de9fed0c78dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:52 +0000
Subject: [PATCH 57/63] fix: layouts: il and sn: '[ = ]' was taken for a
 section heading

---
 layouts/il | 2 +-
 layouts/sn | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/layouts/il b/layouts/il
index 594f77c..3216fff 100644
--- a/layouts/il
+++ b/layouts/il
@@ -16,7 +16,7 @@
 9 = 9
 ; = ף
 = = =
-[ = ]
+leftbrace = ]
 \ = \
 ] = [
 a = ש
diff --git a/layouts/sn b/layouts/sn
index 51b26e8..5ed5307 100644
--- a/layouts/sn
+++ b/layouts/sn
@@ -155,7 +155,7 @@ z = ł
 9 = Ç
 ; = º
 = = ¾
-[ = ]
+leftbrace = ]
 ] = ê
 a = Ω
 b = ‘
-- 
2.43.0


From c07a99b01ec15284075e8da61dc09bdc5e01e04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:52 +0000
Subject: [PATCH 58/63] fix: layouts: restore the capital letters whose keysym
 starts with U (Udiaeresis etc. were taken for code points)

---
 layouts/at              | 2 +-
 layouts/az              | 2 +-
 layouts/de              | 2 +-
 layouts/dz              | 4 ++--
 layouts/ee              | 2 +-
 layouts/epo             | 2 +-
 layouts/hu              | 6 +++---
 layouts/ie              | 2 +-
 layouts/nl              | 2 +-
 layouts/tm              | 2 +-
 layouts/tr              | 4 ++--
 layouts/za              | 4 ++--
 scripts/dump-xkb-config | 2 +-
 13 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/layouts/at b/layouts/at
index a0dac82..2264211 100644
--- a/layouts/at
+++ b/layouts/at
@@ -63,7 +63,7 @@ altgr = layer(at_altgr)
 8 = (
 9 = )
 ; = Ö
-[ = 
+[ = Ü
 \ = '
 ] = *
 a = A
diff --git a/layouts/az b/layouts/az
index 27925cf..5c5c801 100644
--- a/layouts/az
+++ b/layouts/az
@@ -89,7 +89,7 @@ s = S
 t = T
 u = U
 v = V
-w = 
+w = Ü
 x = X
 y = Y
 z = Z
diff --git a/layouts/de b/layouts/de
index 3314f47..a6b5e01 100644
--- a/layouts/de
+++ b/layouts/de
@@ -63,7 +63,7 @@ altgr = layer(de_altgr)
 8 = (
 9 = )
 ; = Ö
-[ = 
+[ = Ü
 \ = '
 ] = *
 a = A
diff --git a/layouts/dz b/layouts/dz
index 151cb07..fb0d437 100644
--- a/layouts/dz
+++ b/layouts/dz
@@ -161,7 +161,7 @@ f = ‚
 g = Ǧ
 h = Ḥ
 i = Î
-j = 
+j = Ü
 k = Ï
 l = Ŀ
 m = …
@@ -172,7 +172,7 @@ q = Æ
 r = Ṛ
 s = Ṣ
 t = Ṭ
-u = 
+u = Û
 v = Ɣ
 w = Ẓ
 x = ”
diff --git a/layouts/ee b/layouts/ee
index 6c67c31..45adfff 100644
--- a/layouts/ee
+++ b/layouts/ee
@@ -63,7 +63,7 @@ altgr = layer(ee_altgr)
 8 = (
 9 = )
 ; = Ö
-[ = 
+[ = Ü
 \ = *
 ] = Õ
 a = A
diff --git a/layouts/epo b/layouts/epo
index 21ddeb9..52251f4 100644
--- a/layouts/epo
+++ b/layouts/epo
@@ -92,7 +92,7 @@ u = U
 v = V
 w = Ĝ
 x = Ĉ
-y = 
+y = Ŭ
 z = Z
 
 [epo_altgr:G]
diff --git a/layouts/hu b/layouts/hu
index cfe40f4..2a47d00 100644
--- a/layouts/hu
+++ b/layouts/hu
@@ -51,7 +51,7 @@ altgr = layer(hu_altgr)
 [hu_shift:S]
 ' = Á
 , = ?
-- = 
+- = Ü
 . = :
 / = _
 1 = '
@@ -66,8 +66,8 @@ altgr = layer(hu_altgr)
 ; = É
 = = Ó
 [ = Ő
-\ = 
-] = ¬
+\ = Ű
+] = Ú
 a = A
 b = B
 c = C
diff --git a/layouts/ie b/layouts/ie
index 8fd4dc3..1fb55df 100644
--- a/layouts/ie
+++ b/layouts/ie
@@ -167,7 +167,7 @@ q = Œ
 r = ‰
 s = ẞ
 t = Þ
-u = ¬
+u = Ú
 x = ∼
 y = µ
 z = 〉
diff --git a/layouts/nl b/layouts/nl
index d9423f9..0f90ebf 100644
--- a/layouts/nl
+++ b/layouts/nl
@@ -166,7 +166,7 @@ q = Ω
 r = ®
 s = ẞ
 t = Þ
-u = 
+u = Ü
 v = ‘
 w = §
 x = >
diff --git a/layouts/tm b/layouts/tm
index 75fbe75..add9d56 100644
--- a/layouts/tm
+++ b/layouts/tm
@@ -91,7 +91,7 @@ t = T
 u = U
 v = Ý
 w = W
-x = 
+x = Ü
 y = Y
 z = Z
 
diff --git a/layouts/tr b/layouts/tr
index 66dc959..c73d0cc 100644
--- a/layouts/tr
+++ b/layouts/tr
@@ -67,7 +67,7 @@ altgr = layer(tr_altgr)
 = = _
 [ = Ğ
 \ = ;
-] = 
+] = Ü
 a = A
 b = B
 c = C
@@ -150,7 +150,7 @@ n = ’
 o = Ô
 q = Ω
 r = ®
-u = 
+u = Û
 v = ‚
 x = >
 y = ¥
diff --git a/layouts/za b/layouts/za
index 7905088..f9fc8a4 100644
--- a/layouts/za
+++ b/layouts/za
@@ -164,9 +164,9 @@ q = Ω
 r = Ê
 s = Š
 t = Ṱ
-u = 
+u = Ü
 v = ‘
 w = §
 x = >
-y = 
+y = Û
 z = <
diff --git a/scripts/dump-xkb-config b/scripts/dump-xkb-config
index b241746..9987346 100755
--- a/scripts/dump-xkb-config
+++ b/scripts/dump-xkb-config
@@ -67,7 +67,7 @@ sub sym_to_char {
 	$sym = $_[0];
 	return "" if (!$sym);
 
-	if ($sym =~ /U([0-9A-Fa-f]+)/) {
+	if ($sym =~ /^U([0-9A-Fa-f]{4,})$/) {
 		 return chr(hex($1));
 	} elsif ($symmap{$sym}) {
 		 $symmap{$sym};
-- 
2.43.0


From ac2f1cd594acb1e79964a5fb95f6981734893e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:52 +0000
Subject: [PATCH 59/63] fix: layouts: graphite: bind the capital letters to the
 keys of the letters

---
 layouts/graphite          | 58 +++++++++++++++++++--------------------
 layouts/graphite-angle-kp | 56 ++++++++++++++++++-------------------
 2 files changed, 57 insertions(+), 57 deletions(-)

diff --git a/layouts/graphite b/layouts/graphite
index 93786a9..48a6df5 100644
--- a/layouts/graphite
+++ b/layouts/graphite
@@ -32,34 +32,34 @@ m = p
 shift = layer(graphite_shift)
 
 [graphite_shift:S]
-b = B
-l = L
-d = D
-w = W
-z = Z
-' = _
-f = F
-o = O
-u = U
-j = J
-; = :
-= = +
-n = N
-r = R
-t = T
-s = S
-y = Y
-h = H
-a = A
-e = E
-i = I
-, = ?
+q = B
+w = L
+e = D
+r = W
+t = Z
+y = _
+u = F
+i = O
+o = U
+p = J
+[ = :
+] = +
+a = N
+s = R
+d = T
+f = S
+h = Y
+j = H
+k = A
+l = E
+; = I
+' = ?
 x = X
-m = M
-c = C
-v = V
-q = Q
-k = K
-. = >
-- = "
+c = M
+v = C
+b = V
+z = Q
+n = K
+, = >
+. = "
 / = <
diff --git a/layouts/graphite-angle-kp b/layouts/graphite-angle-kp
index 3c81edd..5e25dc9 100644
--- a/layouts/graphite-angle-kp
+++ b/layouts/graphite-angle-kp
@@ -31,34 +31,34 @@ m = p
 shift = layer(graphite-angle-kp_shift)
 
 [graphite-angle-kp_shift:S]
-b = B
-l = L
-d = D
-w = W
-z = Z
-' = _
-f = F
-o = O
-u = U
-j = J
-; = :
-= = +
-n = N
-r = R
-t = T
-s = S
-y = Y
-h = H
-a = A
-e = E
-i = I
-, = ?
-x = X
-m = M
+q = B
+w = L
+e = D
+r = W
+t = Z
+y = _
+u = F
+i = O
+o = U
+p = J
+[ = :
+] = +
+a = N
+s = R
+d = T
+f = S
+h = Y
+j = H
+k = A
+l = E
+; = I
+' = ?
+z = X
+x = M
 c = C
 v = V
-q = Q
-k = K
-. = >
-- = "
+b = Q
+n = K
+, = >
+. = "
 / = <
-- 
2.43.0


From 290b93e43e3648cd1510dc691443d2848abcb4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:39 +0000
Subject: [PATCH 60/63] fix: bind keys to a dot without naming the layer

`keyd bind 'a = .'` (and C-. and the like) was refused since everything
before the first dot was taken for the name of a layer.
---
 src/config.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index ae4a084..5219635 100644
--- a/src/config.c
+++ b/src/config.c
@@ -1009,7 +1009,7 @@ int config_get_layer_index(const struct config *config, const char *name)
  */
 int config_add_entry(struct config *config, const char *exp)
 {
-	char *keyname, *descstr, *dot, *paren, *s;
+	char *keyname, *descstr, *dot, *paren, *eq, *s;
 	char *layername = "main";
 	struct descriptor d;
 	struct layer *layer;
@@ -1027,8 +1027,10 @@ int config_add_entry(struct config *config, const char *exp)
 
 	dot = strchr(s, '.');
 	paren = strchr(s, '(');
+	eq = strchr(s[0] == '=' ? s + 1 : s, '=');
 
-	if (dot && dot != s && (!paren || dot < paren)) {
+	/* A dot in the value is not a separator. */
+	if (dot && dot != s && (!paren || dot < paren) && (!eq || dot < eq)) {
 		layername = s;
 		*dot = 0;
 		s = dot+1;
-- 
2.43.0


From e93eb1b8428939a0a12c5284197ed5fd9f7c3660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:05 +0000
Subject: [PATCH 61/63] fix: end the process which cannot run its command

If the shell cannot be executed, the child went on as a second daemon which
reads from the same devices.
---
 src/keyboard.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 29de91d..55588bd 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -398,6 +398,7 @@ static void execute_command(const char *cmd)
 	dup2(fd, 2);
 
 	execl("/bin/sh", "/bin/sh", "-c", cmd, NULL);
+	exit(-1);
 }
 
 static void clear_oneshot(struct keyboard *kbd)
-- 
2.43.0


From 911af92c774c732ef39e797303ad6baf335cfed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:13 +0000
Subject: [PATCH 62/63] fix: commands must not keep the lock, the socket or
 connections open

A program started by command() inherited them, so that keyd could not be
restarted while it was running (the lock was still held), and listeners
did not notice that keyd had gone.
---
 src/daemon.c | 7 +++++--
 src/ipc.c    | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 85f6ab8..c773072 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -651,10 +651,13 @@ static int event_handler(struct event *ev)
 	case EV_FD_ACTIVITY:
 		if (ev->fd == ipcfd) {
 			int con = accept(ipcfd, NULL, 0);
-			if (con < 0)
+			if (con < 0) {
 				perror("accept");
-			else
+			} else {
+				/* Commands run by keyd must not keep the connection open. */
+				fcntl(con, F_SETFD, FD_CLOEXEC);
 				handle_client(con);
+			}
 		}
 		break;
 	default:
diff --git a/src/ipc.c b/src/ipc.c
index e6cbe43..53d9b53 100644
--- a/src/ipc.c
+++ b/src/ipc.c
@@ -47,7 +47,7 @@ int ipc_connect()
 int ipc_create_server()
 {
 	char lockpath[PATH_MAX];
-	int sd = socket(AF_UNIX, SOCK_STREAM, 0);
+	int sd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
 	int lfd;
 	struct sockaddr_un addr = {0};
 
@@ -60,7 +60,7 @@ int ipc_create_server()
 	addr.sun_family = AF_UNIX;
 	strncpy(addr.sun_path, SOCKET_PATH, sizeof(addr.sun_path)-1);
 	snprintf(lockpath, sizeof lockpath, "%s.lock", SOCKET_PATH);
-	lfd = open(lockpath, O_CREAT | O_RDONLY, 0600);
+	lfd = open(lockpath, O_CREAT | O_RDONLY | O_CLOEXEC, 0600);
 
 	if (lfd < 0) {
 		perror("open");
-- 
2.43.0


From d24f35df7123c7e530d109d01038a2bf0d4eb7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:33 +0000
Subject: [PATCH 63/63] fix: pauses of macros of more than 65 seconds were cut
 to 16 bits

---
 src/macro.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.h b/src/macro.h
index 9e6cd48..80b398e 100644
--- a/src/macro.h
+++ b/src/macro.h
@@ -13,7 +13,7 @@ struct macro_entry {
 		MACRO_TIMEOUT
 	} type;
 
-	uint16_t data;
+	uint32_t data;
 };
 
 /*
-- 
2.43.0

