From b60ed8070034da94c73b35dfff4d128bb0a54c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 01/67] fix: honour the length limit in str_*ncmp

The length-limited nick/channel comparison helpers compared one character
past the limit, so equal prefixes were reported as different.
---
 libirc/util.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libirc/util.c b/libirc/util.c
index b139315..396a4fe 100644
--- a/libirc/util.c
+++ b/libirc/util.c
@@ -50,7 +50,7 @@ static inline int str_cmphelper(const char *a, const char *b, size_t len, char s
 {
 	int i;
 	char h,l;
-	for (i = 0; a[i] && b[i] && i < len; i++) {
+	for (i = 0; i < len && a[i] && b[i]; i++) {
 		if (a[i] == b[i]) {
 			continue;
 		}
@@ -64,6 +64,9 @@ static inline int str_cmphelper(const char *a, const char *b, size_t len, char s
 			break;
 	}
 
+	if (i == len)
+		return 0;
+
 	return a[i]-b[i];
 }
 
-- 
2.43.0


From bb969a68e44be786f1db74c003642aa95f2841a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:05 +0000
Subject: [PATCH 02/67] fix: do not crash on ISUPPORT tokens without or with
 malformed values

A 005 line is sent by the server and must not be able to crash the proxy:
tokens without a value (NICKLEN, CHANTYPES, PREFIX, ...), CHANMODES that is
not a 4-tuple, EXTBAN with an empty value, and PREFIX with a different number
of modes and prefixes are now handled, and the empty string is no longer
considered to be a channel name.
---
 libirc/isupport.c | 61 ++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/libirc/isupport.c b/libirc/isupport.c
index b4656a8..3be1a35 100644
--- a/libirc/isupport.c
+++ b/libirc/isupport.c
@@ -325,7 +325,7 @@ char *network_info_string(struct irc_network_info *info)
 
 	if (info->extban_prefix != NULL) {
 		fs = g_list_append(fs, g_strdup_printf("EXTBAN=%s,%s",
-						   info->extban_prefix, info->extban_supported));
+						   info->extban_prefix, (info->extban_supported != NULL)?info->extban_supported:""));
 	}
 
 	if (info->deaf_mode != '\0') {
@@ -380,6 +380,12 @@ static void check_chanmodes_inconsistency(struct irc_network_info *info)
 }
 
 
+/* Tokens can be announced without a value, even those that should have one. */
+static int int_value(const char *val)
+{
+	return (val != NULL)?atoi(val):0;
+}
+
 void network_info_parse(struct irc_network_info *info, const char *parameter)
 {
 	char *sep;
@@ -396,7 +402,9 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 	}
 
 	if (!base_strcmp(key, "CASEMAPPING")) {
-		if (!base_strcmp(val, "rfc1459")) {
+		if (val == NULL) {
+			info->casemapping = CASEMAP_UNKNOWN;
+		} else if (!base_strcmp(val, "rfc1459")) {
 			info->casemapping = CASEMAP_RFC1459;
 		} else if (!base_strcmp(val, "strict-rfc1459")) {
 			info->casemapping = CASEMAP_STRICT_RFC1459;
@@ -414,37 +422,37 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		g_free(info->ircd);
 		info->ircd = g_strdup(val);
 	} else if (!base_strcmp(key, "NICKLEN") || !base_strcmp(key, "MAXNICKLEN")) {
-		info->nicklen = atoi(val);
+		info->nicklen = int_value(val);
 	} else if (!base_strcmp(key, "USERLEN")) {
-		info->userlen = atoi(val);
+		info->userlen = int_value(val);
 	} else if (!base_strcmp(key, "HOSTLEN")) {
-		info->hostlen = atoi(val);
+		info->hostlen = int_value(val);
 	} else if (!base_strcmp(key, "OVERRIDE")) {
 		info->operoverride = TRUE;
 	} else if (!base_strcmp(key, "CHANNELLEN") || !base_strcmp(key, "MAXCHANNELLEN")) {
-		info->channellen = atoi(val);
+		info->channellen = int_value(val);
 	} else if (!base_strcmp(key, "AWAYLEN")) {
-		info->awaylen = atoi(val);
+		info->awaylen = int_value(val);
 	} else if (!base_strcmp(key, "KICKLEN")) {
-		info->kicklen = atoi(val);
+		info->kicklen = int_value(val);
 	} else if (!base_strcmp(key, "TOPICLEN")) {
-		info->topiclen = atoi(val);
+		info->topiclen = int_value(val);
 	} else if (!base_strcmp(key, "WATCH")) {
-		info->watch = atoi(val);
+		info->watch = int_value(val);
 	} else if (!base_strcmp(key, "VBANLIST")) {
 		info->vbanlist = TRUE;
 	} else if (!base_strcmp(key, "MAXPARA")) {
-		info->maxpara = atoi(val);
+		info->maxpara = int_value(val);
 	} else if (!base_strcmp(key, "MAXCHANNELS")) {
-		info->maxchannels = atoi(val);
+		info->maxchannels = int_value(val);
 	} else if (!base_strcmp(key, "MAXTARGETS")) {
-		info->maxtargets = atoi(val);
+		info->maxtargets = int_value(val);
 	} else if (!base_strcmp(key, "REMOVE")) {
 		info->remove = TRUE;
 	} else if (!base_strcmp(key, "MAXBANS")) {
-		info->maxbans = atoi(val);
+		info->maxbans = int_value(val);
 	} else if (!base_strcmp(key, "MODES")) {
-		info->maxmodes = atoi(val);
+		info->maxmodes = int_value(val);
 	} else if (!base_strcmp(key, "WALLCHOPS")) {
 		info->wallchops = TRUE;
 	} else if (!base_strcmp(key, "MAP")) {
@@ -486,23 +494,25 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 	} else if (!base_strcmp(key, "UHNAMES")) {
 		info->uhnames = TRUE;
 	} else if (!base_strcmp(key, "KEYLEN")) {
-		info->keylen = atoi(val);
+		info->keylen = int_value(val);
 	} else if (!base_strcmp(key, "SILENCE")) {
 		if (val) {
-			info->silence_limit = atoi(val);
+			info->silence_limit = int_value(val);
 			info->silence = TRUE;
 		} else
 			info->silence = TRUE;
 	} else if (!base_strcmp(key, "CHANTYPES")) {
 		g_free(info->chantypes);
-		info->chantypes = g_strdup(val);
+		info->chantypes = g_strdup((val != NULL)?val:"");
 	} else if (!base_strcmp(key, "CHANMODES")) {
 		g_strfreev(info->chanmodes);
 		info->chanmodes_a = info->chanmodes_b =
 			info->chanmodes_c = info->chanmodes_d = NULL;
-		info->chanmodes = g_strsplit(val, ",", 4);
+		info->chanmodes = g_strsplit((val != NULL)?val:"", ",", 4);
 		if (g_strv_length(info->chanmodes) != 4) {
 			network_info_log(LOG_WARNING, info, "Expected 4-tuple for CHANMODES, received tuple was of size %d", g_strv_length(info->chanmodes));
+			g_strfreev(info->chanmodes);
+			info->chanmodes = NULL;
 		} else {
 			info->chanmodes_a = info->chanmodes[0];
 			info->chanmodes_b = info->chanmodes[1];
@@ -532,7 +542,7 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 			info->invex_mode = val[0];
 	} else if (!base_strcmp(key, "ELIST")) {
 		int i;
-		for (i = 0; val[i]; i++) {
+		for (i = 0; val != NULL && val[i]; i++) {
 			switch (val[i]) {
 			case 'M': info->elist_mask_search = TRUE; break;
 			case 'N': info->elist_inverse_mask_search = TRUE; break;
@@ -562,7 +572,7 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		} else {
 			char **parts = g_strsplit(val, ",", 2);
 			info->extban_prefix = parts[0];
-			info->extban_supported = parts[1];
+			info->extban_supported = (parts[0] != NULL)?parts[1]:NULL;
 			g_free(parts);
 		}
 	} else if (!base_strcmp(key, "MAXLIST")) {
@@ -575,12 +585,15 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		g_free(info->statusmsg);
 		info->statusmsg = g_strdup(val);
 	} else if (!base_strcmp(key, "PREFIX")) {
-		if (strlen(val) > 0 && (val[0] != '(' || !strchr(val, ')'))) {
+		const char *end = (val != NULL)?strchr(val, ')'):NULL;
+		if (val != NULL && strlen(val) > 0 &&
+			(val[0] != '(' || end == NULL ||
+			 strlen(end+1) != end-val-1)) {
 			network_info_log(LOG_WARNING, info,
 							 "Malformed PREFIX data `%s'", val);
 		} else {
 			g_free(info->prefix);
-			info->prefix = g_strdup(val);
+			info->prefix = g_strdup((val != NULL)?val:"");
 		}
 	} else if (!base_strcmp(key, "CHARSET")) {
 		g_free(info->charset);
@@ -648,7 +661,7 @@ gboolean is_channelname(const char *name, const struct irc_network_info *n)
 
 	g_assert(name != NULL);
 
-	if (strchr(n->chantypes, name[0]))
+	if (name[0] != '\0' && strchr(n->chantypes, name[0]))
 		return TRUE;
 
 	return FALSE;
-- 
2.43.0


From b89f5c091430efc7bc0afaf661bc101e24d3eeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:27 +0000
Subject: [PATCH 03/67] fix: do not drop a nick's name when it is given an
 incomplete hostmask

---
 libirc/state.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index e5088be..ac59115 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -113,7 +113,7 @@ gboolean network_nick_set_hostname(struct network_nick *n, const char *hostname)
 
 gboolean network_nick_set_hostmask(struct network_nick *n, const char *hm)
 {
-	char *t, *u;
+	const char *t, *u;
 
 	if (n == NULL)
 		return FALSE;
@@ -124,22 +124,23 @@ gboolean network_nick_set_hostmask(struct network_nick *n, const char *hm)
 	if (n->hostmask && !strcmp(n->hostmask, hm))
 		return TRUE;
 
-	g_free(n->hostmask);
-	g_free(n->nick); n->nick = NULL;
-	g_free(n->username); n->username = NULL;
-	g_free(n->hostname); n->hostname = NULL;
-	n->hostmask = g_strdup(hm);
-
+	/* Leave the nick alone if this isn't a full hostmask */
 	t = strchr(hm, '!');
 	if (!t)
 		return FALSE;
-	n->nick = g_strndup(hm, t-hm);
 
 	u = strchr(t, '@');
 	if (!u)
 		return FALSE;
-	n->username = g_strndup(t+1, u-t-1);
 
+	g_free(n->hostmask);
+	g_free(n->nick);
+	g_free(n->username);
+	g_free(n->hostname);
+	n->hostmask = g_strdup(hm);
+
+	n->nick = g_strndup(hm, t-hm);
+	n->username = g_strndup(t+1, u-t-1);
 	n->hostname = g_strdup(u+1);
 
 	return TRUE;
@@ -340,7 +341,8 @@ struct channel_nick *find_channel_nick_hostmask(struct irc_channel_state *c,
 	g_assert(c->network);
 	for (l = c->nicks; l; l = g_list_next(l)) {
 		struct channel_nick *n = (struct channel_nick *)l->data;
-		if (!irccmp(c->network->info, n->global_nick->hostmask, hm))
+		if (n->global_nick->hostmask != NULL &&
+			!irccmp(c->network->info, n->global_nick->hostmask, hm))
 			return n;
 	}
 
-- 
2.43.0


From c8b1582dba1e62fb768cfa332e8ced629084ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:30 +0000
Subject: [PATCH 04/67] fix: handle several prefixes and empty nicks in JOIN
 and NAMES

---
 libirc/state.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index ac59115..66cc77f 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -312,7 +312,7 @@ struct channel_nick *find_channel_nick(struct irc_channel_state *c,
 	else
 		info = c->network->info;
 
-	if (is_prefix(realname[0], info))
+	while (is_prefix(realname[0], info))
 		realname++;
 
 	for (l = c->nicks; l; l = g_list_next(l)) {
@@ -399,7 +399,6 @@ struct network_nick *find_add_network_nick(struct irc_network_state *n,
 	/* create one, if it doesn't exist */
 	nd = g_new0(struct network_nick,1);
 	g_assert(nd != NULL);
-	g_assert(!is_prefix(name[0], n->info));
 	nd->nick = g_strdup(name);
 	nd->hops = -1;
 
@@ -412,24 +411,24 @@ struct network_nick *find_add_network_nick(struct irc_network_state *n,
  *
  * @param n Channel state to search
  * @param name Name of the nick to search for
- * @return channel_nick structure, or NULL if out of memory.
+ * @return channel_nick structure, or NULL if name does not contain a nick.
  */
 struct channel_nick *find_add_channel_nick(struct irc_channel_state *c,
 										   const char *name)
 {
 	struct channel_nick *n;
 	const char *realname = name;
-	char prefix = 0;
 
 	g_assert(c);
 	g_assert(name);
-	g_assert(strlen(name) > 0);
 	g_assert(c->network);
 
-	if (is_prefix(realname[0], c->network->info)) {
-		prefix = realname[0];
+	/* There can be more than one prefix if the server supports NAMESX */
+	while (is_prefix(realname[0], c->network->info))
 		realname++;
-	}
+
+	if (realname[0] == '\0')
+		return NULL;
 
 	n = find_channel_nick(c, realname);
 	if (n != NULL)
@@ -440,11 +439,11 @@ struct channel_nick *find_add_channel_nick(struct irc_channel_state *c,
 
 	n->channel = c;
 	n->global_nick = find_add_network_nick(c->network, realname);
-	if (prefix != 0) {
-		char mode = get_mode_by_prefix(prefix, c->network->info);
+	for (; name != realname; name++) {
+		char mode = get_mode_by_prefix(*name, c->network->info);
 		if (mode)
 			modes_set_mode(n->modes, mode);
-    }
+	}
 	c->nicks = g_list_append(c->nicks, n);
 	n->global_nick->channel_nicks = g_list_append(n->global_nick->channel_nicks, n);
 	return n;
@@ -458,7 +457,7 @@ static void handle_join(struct irc_network_state *s, const struct irc_line *l)
 	char **channels;
 	char *nick;
 
-	CHECK_ORIGIN(s, l, "NICK");
+	CHECK_ORIGIN(s, l, "JOIN");
 
 	nick = line_get_nick(l);
 
@@ -476,6 +475,11 @@ static void handle_join(struct irc_network_state *s, const struct irc_line *l)
 		c = find_add_channel(s, channels[i]);
 		g_assert(s->channels != NULL);
 		ni = find_add_channel_nick(c, nick);
+		if (ni == NULL) {
+			network_state_log(LOG_WARNING, s, "Invalid nick '%s' joining %s",
+							  nick, c->name);
+			continue;
+		}
 		network_nick_set_hostmask(ni->global_nick, l->origin);
 
 		/* The user is joining a channel */
-- 
2.43.0


From 9f86368ca5ac36e231602fb72439b7cbd85967d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:31 +0000
Subject: [PATCH 05/67] fix: TOPIC for unknown channels and 331/333 topic
 replies

---
 libirc/state.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 66cc77f..19090a0 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -617,6 +617,12 @@ static void handle_topic(struct irc_network_state *s, const struct irc_line *l)
 
 	CHECK_ORIGIN(s, l, "TOPIC");
 
+	if (c == NULL) {
+		network_state_log(LOG_WARNING, s,
+					"Can't change topic for unknown channel '%s'!", l->args[1]);
+		return;
+	}
+
 	if (c->topic != NULL) {
 		g_free(c->topic);
 	}
@@ -654,12 +660,13 @@ static void handle_333(struct irc_network_state *s, const struct irc_line *l)
 	}
 
 	c->topic_set_time = strtol(l->args[4], NULL, 0);
+	g_free(c->topic_set_by);
 	c->topic_set_by = g_strdup(l->args[3]);
 }
 
 static void handle_no_topic(struct irc_network_state *s, const struct irc_line *l)
 {
-	struct irc_channel_state *c = find_channel(s, l->args[1]);
+	struct irc_channel_state *c = find_channel(s, l->args[2]);
 
 	if (c == NULL) {
 		network_state_log(LOG_WARNING, s,
@@ -669,6 +676,9 @@ static void handle_no_topic(struct irc_network_state *s, const struct irc_line *
 
 	g_free(c->topic);
 	c->topic = NULL;
+	g_free(c->topic_set_by);
+	c->topic_set_by = NULL;
+	c->topic_set_time = 0;
 }
 
 static void handle_namreply(struct irc_network_state *s, const struct irc_line *l)
@@ -1193,8 +1203,8 @@ static struct irc_command {
 	{ "324", 3, handle_324 },
 	{ "329", 3, handle_329 },
 	{ "332", 3, handle_332 },
-	{ "333", 3, handle_333 },
-	{ "331", 1, handle_no_topic },
+	{ "333", 4, handle_333 },
+	{ "331", 2, handle_no_topic },
 	{ "353", 4, handle_namreply },
 	{ "366", 2, handle_end_names },
 	{ "367", 2, handle_banlist_entry },
-- 
2.43.0


From 5ca62aeb80166df5cd119f0e065aad662d8f5df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:33 +0000
Subject: [PATCH 06/67] fix: ignore ban, exception and invite list entries
 without a mask

---
 libirc/state.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 19090a0..6a52637 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1207,11 +1207,11 @@ static struct irc_command {
 	{ "331", 2, handle_no_topic },
 	{ "353", 4, handle_namreply },
 	{ "366", 2, handle_end_names },
-	{ "367", 2, handle_banlist_entry },
+	{ "367", 3, handle_banlist_entry },
 	{ "368", 2, handle_end_banlist },
-	{ "346", 2, handle_invitelist_entry },
+	{ "346", 3, handle_invitelist_entry },
 	{ "347", 2, handle_end_invitelist },
-	{ "348", 2, handle_exceptlist_entry },
+	{ "348", 3, handle_exceptlist_entry },
 	{ "349", 2, handle_end_exceptlist },
 	{ "352", 8, handle_whoreply },
 	{ "315", 1, handle_end_who },
-- 
2.43.0


From 662a2561f99fc0e93c3512ec75002be746bd05a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:02 +0000
Subject: [PATCH 07/67] fix: make room for all 256 mode characters

---
 libirc/state.c | 4 ++--
 libirc/state.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 6a52637..3d7b84b 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1356,8 +1356,8 @@ gboolean string2mode(const char *modes, irc_modes_t ar)
 
 char *mode2string(irc_modes_t modes)
 {
-	char ret[256];
-	unsigned char i;
+	char ret[MAXMODES+1];
+	int i;
 	int pos = 0;
 	ret[0] = '\0';
 	for(i = 0; i < MAXMODES; i++) {
diff --git a/libirc/state.h b/libirc/state.h
index 496fd34..6196304 100644
--- a/libirc/state.h
+++ b/libirc/state.h
@@ -23,7 +23,7 @@
 #include "isupport.h"
 #include "log.h"
 
-#define MAXMODES 255
+#define MAXMODES 256
 typedef gboolean irc_modes_t[MAXMODES];
 
 /**
-- 
2.43.0


From a71437d519c8f9ed8735a498af0038633a64d187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:03 +0000
Subject: [PATCH 08/67] fix: do not crash on MODE without an origin

---
 libirc/state.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 3d7b84b..e1d46cf 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1016,9 +1016,13 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 			return;
 		}
 
-		by_name = line_get_nick(l);
-		by = find_network_nick(s, by_name);
-		g_free(by_name);
+		if (l->origin != NULL) {
+			by_name = line_get_nick(l);
+			by = find_network_nick(s, by_name);
+			g_free(by_name);
+		} else {
+			by = NULL;
+		}
 
 		for(i = 0; l->args[2][i]; i++) {
 			switch(l->args[2][i]) {
-- 
2.43.0


From 0a41a72b07ce8cf28a4abc80b4541ce3d74501f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:33 +0000
Subject: [PATCH 09/67] fix: track channel settings and their arguments, and
 our own user modes

---
 libirc/client.c |  3 ++-
 libirc/state.c  | 32 +++++++++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 78d2c86..383e469 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -842,7 +842,8 @@ gboolean client_send_channel_mode(struct irc_client *c, struct irc_channel_state
 		l->args[2] = g_strdup(ch->name);
 		l->args[3] = mode;
 		for (i = 0; mode[i]; i++) {
-			if (network_chanmode_type(mode[i], c->state->info) == CHANMODE_OPT_SETTING &&
+			enum chanmode_type cmt = network_chanmode_type(mode[i], c->state->info);
+			if ((cmt == CHANMODE_OPT_SETTING || cmt == CHANMODE_SETTING) &&
 				channel_mode_option(ch, mode[i])) {
 				l->args[4+j] = g_strdup(channel_mode_option(ch, mode[i]));
 				j++;
diff --git a/libirc/state.c b/libirc/state.c
index e1d46cf..bd7cfb9 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -957,13 +957,16 @@ static int channel_state_change_mode(struct irc_network_state *s, struct network
 
 			g_free(channel_mode_option(c, mode));
 			channel_mode_option(c, mode) = g_strdup(opt_arg);
+			modes_set_mode(c->modes, mode);
 
 			return 1;
 		} else {
 			g_free(channel_mode_option(c, mode));
 			channel_mode_option(c, mode) = NULL;
+			modes_unset_mode(c->modes, mode);
 
-			return 0;
+			/* A setting has its argument even when it is being unset */
+			return (cmt == CHANMODE_SETTING)?1:0;
 		}
 	} else if (is_prefix_mode(info, mode)) {
 		struct channel_nick *n;
@@ -976,7 +979,7 @@ static int channel_state_change_mode(struct irc_network_state *s, struct network
 		n = find_channel_nick(c, opt_arg);
 		if (!n) {
 			network_state_log(LOG_WARNING, s, "Can't set mode %c%c on nick %s on channel %s, because nick does not exist!", set?'+':'-', mode, opt_arg, c->name);
-			return -1;
+			return 1;
 		}
 		if (set) {
 			modes_set_mode(n->modes, mode);
@@ -1119,15 +1122,16 @@ static void handle_nick(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_umodeis(struct irc_network_state *s, const struct irc_line *l)
 {
-	if (!string2mode(l->args[1], s->me.modes)) {
+	if (!string2mode(l->args[2], s->me.modes)) {
 		network_state_log(LOG_WARNING, s,
-						  "Invalid MODE change %s for user", l->args[1]);
+						  "Invalid MODE change %s for user", l->args[2]);
 	}
 }
 
 static void handle_324(struct irc_network_state *s, const struct irc_line *l)
 {
 	struct irc_channel_state *ch = find_channel(s, l->args[2]);
+	int i, arg = 4;
 
 	if (ch == NULL) {
 		network_state_log(LOG_WARNING, s,
@@ -1140,6 +1144,24 @@ static void handle_324(struct irc_network_state *s, const struct irc_line *l)
 						  "Invalid MODE change %s for channel %s", l->args[3], l->args[2]);
 	}
 
+	/* Forget settings that have gone, update those that have a value here */
+	for (i = 0; i < MAXMODES; i++) {
+		if (!ch->modes[i]) {
+			g_free(ch->chanmode_option[i]);
+			ch->chanmode_option[i] = NULL;
+		}
+	}
+
+	for (i = 0; l->args[3][i] != '\0' && l->args[arg] != NULL; i++) {
+		enum chanmode_type cmt = network_chanmode_type(l->args[3][i], s->info);
+
+		if (cmt == CHANMODE_SETTING || cmt == CHANMODE_OPT_SETTING) {
+			g_free(channel_mode_option(ch, l->args[3][i]));
+			channel_mode_option(ch, l->args[3][i]) = g_strdup(l->args[arg]);
+			arg++;
+		}
+	}
+
 	ch->mode_received = TRUE;
 }
 
@@ -1202,7 +1224,7 @@ static struct irc_command {
 	{ "001", 1, handle_001 },
 	{ "004", 5, handle_004 },
 	{ "005", 3, handle_005 },
-	{ "221", 1, handle_umodeis },
+	{ "221", 2, handle_umodeis },
 	{ "302", 2, handle_302 },
 	{ "324", 3, handle_324 },
 	{ "329", 3, handle_329 },
-- 
2.43.0


From 0939363b7c48b30338b1886fb299ad42331fb181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:59 +0000
Subject: [PATCH 10/67] fix: malformed USERHOST replies and NICK changes to a
 nick that is still remembered

---
 libirc/state.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index bd7cfb9..b177833 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1111,11 +1111,21 @@ static void handle_nick(struct irc_network_state *s, const struct irc_line *l)
 
 	CHECK_ORIGIN(s, l, "NICK");
 
+	if (l->args[1][0] == '\0') {
+		network_state_log(LOG_WARNING, s, "Ignoring change to empty nick");
+		return;
+	}
+
 	nick = line_get_nick(l);
 	nn = find_add_network_nick(s, nick);
 	g_free(nick);
 
 	if (nn != NULL) {
+		/* If we still remember somebody else by the new nick, they're gone */
+		struct network_nick *old = find_network_nick(s, l->args[1]);
+		if (old != NULL && old != nn && old != &s->me)
+			free_network_nick(s, old);
+
 		network_nick_set_nick(nn, l->args[1]);
 	}
 }
@@ -1181,7 +1191,7 @@ static void handle_329(struct irc_network_state *s, const struct irc_line *l)
 static void handle_302(struct irc_network_state *s, const struct irc_line *l)
 {
 	int i;
-	gchar **users = g_strsplit(g_strstrip(l->args[2]), " ", 0);
+	gchar **users = g_strsplit(l->args[2], " ", 0);
 	if (users == NULL) {
 		network_state_log(LOG_ERROR, s, "Unable to split user list (%s)",
 						  l->args[2]);
@@ -1191,10 +1201,13 @@ static void handle_302(struct irc_network_state *s, const struct irc_line *l)
 	for (i = 0; users[i]; i++) {
 		/* We got a USERHOST response, split it into nick and user@host, and check the nick */
 		gchar** tmp302 = g_strsplit(users[i], "=", 2);
-		if (g_strv_length(tmp302) > 1) {
+		/* IRC operators are marked with a * after their nick */
+		if (tmp302[0] != NULL && g_str_has_suffix(tmp302[0], "*"))
+			tmp302[0][strlen(tmp302[0])-1] = '\0';
+		if (g_strv_length(tmp302) > 1 && tmp302[0][0] != '\0' &&
+			tmp302[1][0] != '\0') {
 			char *hm;
 			struct network_nick *nn;
-			/* FIXME: Strip *'s from the end of tmp302[0]*/
 			nn = find_add_network_nick(s, tmp302[0]);
 			hm = g_strdup_printf("%s!%s", tmp302[0], tmp302[1]+1);
 			network_nick_set_hostmask(nn, hm);
-- 
2.43.0


From aba96a8f14a9faaf08027bfd544850ebc35a4ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:28 +0000
Subject: [PATCH 11/67] fix: an empty ban, exception or invite list reply
 empties the list

---
 libirc/state.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libirc/state.c b/libirc/state.c
index b177833..97f224e 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -757,6 +757,10 @@ static void handle_end_invitelist(struct irc_network_state *s, const struct irc_
 		return;
 	}
 
+	/* No entries at all means that the list is empty */
+	if (!c->invitelist_started)
+		free_nicklist(&channel_mode_nicklist(c, 'I'));
+
 	c->invitelist_started = FALSE;
 	channel_mode_nicklist_present(c,'I') = TRUE;
 }
@@ -791,6 +795,10 @@ static void handle_end_exceptlist(struct irc_network_state *s, const struct irc_
 			"Can't end exceptlist for %s: channel not found", l->args[2]);
 		return;
 	}
+	/* No entries at all means that the list is empty */
+	if (!c->exceptlist_started)
+		free_nicklist(&channel_mode_nicklist(c, 'e'));
+
 	c->exceptlist_started = FALSE;
 	channel_mode_nicklist_present(c, 'e') = TRUE;
 }
@@ -830,6 +838,10 @@ static void handle_end_banlist(struct irc_network_state *s, const struct irc_lin
 		return;
 	}
 
+	/* No entries at all means that the list is empty */
+	if (!c->banlist_started)
+		free_nicklist(&channel_mode_nicklist(c, 'b'));
+
 	c->banlist_started = FALSE;
 	channel_mode_nicklist_present(c,'b') = TRUE;
 }
-- 
2.43.0


From 47e7c3471c63040f8440b50c383eb80b8901d1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:03 +0000
Subject: [PATCH 12/67] fix: keep our own hostmask in step with the nick given
 in the welcome reply

---
 libirc/state.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 97f224e..72a9eb0 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1085,8 +1085,7 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_001(struct irc_network_state *s, const struct irc_line *l)
 {
-	g_free(s->me.nick);
-	s->me.nick = g_strdup(l->args[1]);
+	network_nick_set_nick(&s->me, l->args[1]);
 }
 
 static void handle_004(struct irc_network_state *s, const struct irc_line *l)
-- 
2.43.0


From 2d57909d821d663d34c9f9e6027a6ab5fbfaafad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:32 +0000
Subject: [PATCH 13/67] fix: keep the last argument in one piece when it
 contains spaces

A line received without a colon keeps WITHOUT_COLON when its text is
replaced (timestamps in replayed messages), and commands such as MODE never
got one, so an argument with spaces was sent as several arguments.
---
 libirc/line.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libirc/line.c b/libirc/line.c
index de65fa8..b6bad91 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -199,7 +199,14 @@ static gboolean requires_colon(const struct irc_line *l)
 
 	if (l->has_endcolon == WITH_COLON)
 		return TRUE;
-	else if (l->has_endcolon == WITHOUT_COLON)
+
+	/* An argument with spaces in it would become several arguments, unless
+	 * the colon is already there (see client_send_nameslist()). */
+	if (l->args[l->argc-1][0] != ':' &&
+		strchr(l->args[l->argc-1], ' ') != NULL)
+		return TRUE;
+
+	if (l->has_endcolon == WITHOUT_COLON)
 		return FALSE;
 
 	g_assert(l->args[0]);
-- 
2.43.0


From 7af1c4319aa971af2f86d42832bcc5ac83d50fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:34 +0000
Subject: [PATCH 14/67] fix: count the origin in the length of a line

line_add_arg() let lines with an origin grow beyond 512 bytes. A name that
does not fit on a NAMES line of its own is left out rather than asserted on.
---
 libirc/client.c | 6 +++++-
 libirc/line.c   | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/libirc/client.c b/libirc/client.c
index 383e469..3402056 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -760,7 +760,11 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 						mode, ch->name, NULL);
 			l->has_endcolon = WITHOUT_COLON;
 			tmp = g_strdup_printf(":%s", arg);
-			g_assert(line_add_arg(l, tmp));
+			if (!line_add_arg(l, tmp)) {
+				/* Doesn't fit on a line of its own */
+				free_line(l);
+				l = NULL;
+			}
 			g_free(tmp);
 		}
 
diff --git a/libirc/line.c b/libirc/line.c
index b6bad91..d459077 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -430,6 +430,9 @@ static int line_len(const struct irc_line *l)
 	len = 4; /* \r\n for end of line, possibly colon before last argument and
 				colon at start of the line */
 
+	if (l->origin != NULL)
+		len += strlen(l->origin) + 1;
+
 	for (i = 0; i < l->argc; i++)
 		len += strlen(l->args[i]) + 1;
 
-- 
2.43.0


From 6dedfa0828a9f35c922d47e520abeaba22f85976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:35 +0000
Subject: [PATCH 15/67] fix: free the line when it can't be converted for
 sending

---
 libirc/line.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/line.c b/libirc/line.c
index d459077..c21ef0d 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -161,9 +161,9 @@ GIOStatus irc_send_line(GIOChannel *c, GIConv iconv,
 	raw = irc_line_string_nl(l);
 	if (iconv != (GIConv)-1) {
 		cvrt = g_convert_with_iconv(raw, -1, iconv, NULL, NULL, error);
+		g_free(raw);
 		if (cvrt == NULL)
 			return G_IO_STATUS_ERROR;
-		g_free(raw);
 	} else {
 		cvrt = raw;
 	}
-- 
2.43.0


From 361de901bf02e9c1658cc36abc57ac2cfbb3b705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:34 +0000
Subject: [PATCH 16/67] fix: don't look past the arguments of TOPIC when
 recording the query

---
 libirc/redirect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index 929ae2f..2d7d1aa 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -606,7 +606,7 @@ static int handle_default(const struct irc_line *l, struct query_stack *stack,
 
 static int handle_topic(const struct irc_line *l, struct query_stack *stack, void *userdata, struct query *q)
 {
-	if (l->args[2] != NULL)
+	if (l->argc > 2)
 		return 0;
 	return handle_default(l,stack,userdata,q);
 }
-- 
2.43.0


From 907180c78a861b084eb39b1f8ee9b27d5080a82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:09 +0000
Subject: [PATCH 17/67] fix: the port in a server URL ends where the path
 begins

---
 libirc/url.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libirc/url.c b/libirc/url.c
index 566847b..f7f31a8 100644
--- a/libirc/url.c
+++ b/libirc/url.c
@@ -52,7 +52,10 @@ gboolean irc_parse_url(const char *url, char **server, char **port, gboolean *ss
 	q = strchr(url, '/');
 	p = strchr(url, ':');
 	if (p != NULL && (q == NULL || p < q)) {
-		*port = g_strdup(p+1);
+		if (q != NULL)
+			*port = g_strndup(p+1, q-p-1);
+		else
+			*port = g_strdup(p+1);
 		*server = g_strndup(url, p-url);
 		return TRUE;
 	}
-- 
2.43.0


From 6478befff1f169a1662a8b0cef93337d9cb270b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:20 +0000
Subject: [PATCH 18/67] fix: order filters whose priorities are far apart

---
 src/hooks.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hooks.c b/src/hooks.c
index 32e454b..bbbf700 100644
--- a/src/hooks.c
+++ b/src/hooks.c
@@ -31,7 +31,9 @@ static gint filter_cmp(gconstpointer _a, gconstpointer _b)
 	struct filter_data *a = (struct filter_data *)_a;
 	struct filter_data *b = (struct filter_data *)_b;
 
-	return a->priority - b->priority;
+	if (a->priority < b->priority)
+		return -1;
+	return a->priority > b->priority;
 }
 
 static GList *add_filter_ex(GList *class, const char *name, server_filter_function f, void *userdata, int prio)
-- 
2.43.0


From f8edac1ff8b349f2595cc5f01f8f0ed6bb74b6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:44 +0000
Subject: [PATCH 19/67] build: use the gnu89 dialect, whose comments may start
 with //

---
 configure.ac | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configure.ac b/configure.ac
index 70e6993..54f6d83 100644
--- a/configure.ac
+++ b/configure.ac
@@ -26,7 +26,7 @@ AC_PROG_INSTALL
 AC_PATH_PROG(IRCDTORTURE,ircdtorture)
 
 if test "$GCC" = "yes"; then
-	CFLAGS="$CFLAGS -ansi -Wall"
+	CFLAGS="$CFLAGS -std=gnu89 -Wall"
 	DYNAMIC="-rdynamic"
 fi
 AC_SUBST(GCC)
-- 
2.43.0


From 4dbb7875f77bd9d095be814fb58332c68f97f009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:06 +0000
Subject: [PATCH 20/67] fix: replace the host mask in WHO, WHOIS and USERHOST
 replies without looking past their arguments

---
 src/client.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/client.c b/src/client.c
index 3f7d920..f1c7f47 100644
--- a/src/client.c
+++ b/src/client.c
@@ -368,23 +368,27 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 	}
 	switch (irc_line_respcode(l)) {
 		case RPL_USERHOST:
-		if (strstr(l->args[2], old->hostname)) {
+		if (l->argc > 2 && strstr(l->args[2], old->hostname)) {
 			int i;
-			gchar **users = g_strsplit(g_strstrip(l->args[2]), " ", 0);
+			gchar **users;
+			ret = linedup(l);
+			users = g_strsplit(g_strstrip(ret->args[2]), " ", 0);
 			for (i = 0; users[i]; i++) {
 				gchar** tmp302 = g_strsplit(users[i], "=", 2);
-				if (g_strv_length(tmp302) > 1) {
-					/* FIXME: strip *'s from the end of tmp302[0] */
+				if (g_strv_length(tmp302) > 1 && tmp302[1][0] != '\0') {
+					/* The nick of an operator is followed by a * */
+					gboolean oper = g_str_has_suffix(tmp302[0], "*");
+					if (oper)
+						tmp302[0][strlen(tmp302[0])-1] = '\0';
 					if (!irccmp(info, tmp302[0], old->nick)) {
 						g_free(users[i]);
-						users[i] = g_strdup_printf("%s=%c%s@%s",
-								tmp302[0], tmp302[1][0],
+						users[i] = g_strdup_printf("%s%s=%c%s@%s",
+								tmp302[0], oper?"*":"", tmp302[1][0],
 								new->username, new->hostname);
 					}
 				}
 				g_strfreev(tmp302);
 			}
-			ret = linedup(l);
 			g_free(ret->args[2]);
 			ret->args[2] = g_strjoinv(" ", users);
 			g_strfreev(users);
@@ -392,7 +396,7 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 		}
 		break;
 		case RPL_WHOREPLY:
-		if (l->argc >= 6) {
+		if (l->argc > 6) {
 			if (!irccmp(info, l->args[6], old->nick)) {
 				ret = linedup(l);
 				g_free(ret->args[4]);
@@ -405,7 +409,7 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 		break;
 		case RPL_WHOISUSER:
 		case RPL_WHOWASUSER:
-		if (l->argc >= 4) {
+		if (l->argc > 4) {
 			if (!irccmp(info, l->args[2], old->nick)) {
 				ret = linedup(l);
 				g_free(ret->args[4]);
-- 
2.43.0


From e182497a9c4df0f45c16783f7e8050e3f8dfa5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:00 +0000
Subject: [PATCH 21/67] fix: don't forward CTCP messages to a network that
 isn't connected, nor look for the target of a PRIVMSG without one

---
 src/client.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/client.c b/src/client.c
index f1c7f47..d33ece6 100644
--- a/src/client.c
+++ b/src/client.c
@@ -94,17 +94,19 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 	} else if (!base_strcmp(l->args[0], "CTRLPROXY")) {
 		admin_process_command(c, l, 1);
 	} else if (c->network->global->config->admin_user != NULL &&
-			   !base_strcmp(l->args[0], "PRIVMSG") &&
+			   !base_strcmp(l->args[0], "PRIVMSG") && l->argc > 1 &&
 			   !base_strcmp(l->args[1], c->network->global->config->admin_user)) {
 		admin_process_command(c, l, 2);
-	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
+	} else if (c->network->external_state != NULL &&
+			!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
 			l->args[2][0] == '\001' &&
 			base_strncmp(l->args[2], "\001ACTION", 7) != 0) {
 		ctcp_client_request_record(c, l);
 
 		/* send off to server */
 		network_forward_line(c->network, c, l, TRUE);
-	} else if (!base_strcmp(l->args[0], "NOTICE") && l->argc > 2 &&
+	} else if (c->network->external_state != NULL &&
+			!base_strcmp(l->args[0], "NOTICE") && l->argc > 2 &&
 			l->args[2][0] == '\001') {
 		network_forward_line(c->network, c, l, TRUE);
 	} else if (!base_strcmp(l->args[0], "")) {
-- 
2.43.0


From 0b20203dfeca643512ead90d102ff67c244552ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:00 +0000
Subject: [PATCH 22/67] fix: leave lines without a text alone when prefixing
 the time

---
 libirc/line.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libirc/line.c b/libirc/line.c
index c21ef0d..6d2cd1a 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -466,6 +466,10 @@ gboolean line_prefix_time(struct irc_line *l, time_t t)
 	char *tmp;
 	gboolean action = FALSE;
 
+	if (l->argc < 3) {
+		return FALSE;
+	}
+
 	if (l->args[2][0] == '\001') { /* CTCP */
 		/* Let's not touch any CTCP requests but actions */
 		if (strncmp(l->args[2]+1, "ACTION", strlen("ACTION")) != 0) {
-- 
2.43.0


From a445f084fdb000a68134c9a31132a7327fbd7513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:29 +0000
Subject: [PATCH 23/67] fix: ignore empty CTCP requests, free the nick of
 unexpected CTCP replies

---
 src/ctcp.c          | 8 ++++++++
 src/ctcp_redirect.c | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/ctcp.c b/src/ctcp.c
index 01b3fa2..2696b04 100644
--- a/src/ctcp.c
+++ b/src/ctcp.c
@@ -195,6 +195,14 @@ gboolean ctcp_process_request (struct irc_network *n, const struct irc_line *l)
 	*t = '\0';
 
 	args = g_strsplit(data, " ", 0);
+	if (args[0] == NULL) {
+		g_strfreev(args);
+		g_free(data);
+		network_log(LOG_WARNING, n, "Empty CTCP request from %s!", h.nick);
+		g_free(h.nick);
+		return FALSE;
+	}
+
 	for (gl = cmds; gl; gl = gl->next) {
 		struct ctcp_handler *hl = gl->data;
 
diff --git a/src/ctcp_redirect.c b/src/ctcp_redirect.c
index 37c7931..e6180b6 100644
--- a/src/ctcp_redirect.c
+++ b/src/ctcp_redirect.c
@@ -124,6 +124,7 @@ gboolean ctcp_network_redirect_response(struct irc_network *n, const struct irc_
 	/* otherwise, inform user */
 	network_log(LOG_WARNING, n, "Don't know where to send unknown CTCP reply '%s'", command);
 
+	g_free(nick);
 	g_free(command);
 
 	return TRUE;
-- 
2.43.0


From 530f799e5ab756630950994d583da189cf45e485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:11 +0000
Subject: [PATCH 24/67] fix: send the port of a SOCKS reply in network byte
 order only once

---
 src/listener.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/listener.c b/src/listener.c
index 0dd2133..e591fc9 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -131,13 +131,13 @@ gboolean default_socks_connect_fqdn (struct pending_client *cl, const char *host
 			atyp = ATYP_IPV4;
 			data = (gchar *)&name4->sin_addr;
 			len = 4;
-			port = name4->sin_port;
+			port = ntohs(name4->sin_port);
 		} else if (name != NULL && name->sa_family == AF_INET6) {
 			struct sockaddr_in6 *name6 = (struct sockaddr_in6 *)name;
 			atyp = ATYP_IPV6;
 			data = (gchar *)&name6->sin6_addr;
 			len = 16;
-			port = name6->sin6_port;
+			port = ntohs(name6->sin6_port);
 		} else {
 			network_log(LOG_ERROR, result, "Unable to obtain local address for connection to server");
 			return listener_socks_error(cl, REP_NET_UNREACHABLE);
-- 
2.43.0


From fdc2a6737acec80df22df1342087fd0f6886f3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:11 +0000
Subject: [PATCH 25/67] fix: don't crash on a PASS without argument or an allow
 rule when a client gives no user name

---
 src/listener.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/listener.c b/src/listener.c
index e591fc9..56b0d87 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -55,6 +55,8 @@ static gboolean listener_check_username_password(struct irc_listener *listener,
 {
 	GList *gl;
 
+	g_assert(password != NULL);
+
 	if (listener->config != NULL) {
 		for (gl = listener->config->allow_rules; gl; gl = gl->next)
 		{
@@ -63,7 +65,7 @@ static gboolean listener_check_username_password(struct irc_listener *listener,
 			if (r->password == NULL || r->username == NULL)
 				continue;
 
-			if (strcmp(r->username, username))
+			if (username == NULL || strcmp(r->username, username))
 				continue;
 
 			if (strcmp(r->password, password))
@@ -200,6 +202,14 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 		gboolean authenticated = FALSE;
 		char *actual_password;
 
+		if (l->args[1] == NULL) {
+			irc_sendf(pc->connection, listener->iconv, NULL,
+					  ":%s %d %s PASS :Not enough parameters",
+					  get_my_hostname(), ERR_NEEDMOREPARAMS, "*");
+			g_io_channel_flush(pc->connection, NULL);
+			return TRUE;
+		}
+
 		if (strchr(l->args[1], ':') != NULL) {
 			char *p = strchr(l->args[1], ':');
 			actual_password = g_strndup(l->args[1], p-l->args[1]);
-- 
2.43.0


From 8b954478744eeb8cd81860e52bd2dfb3a228182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:11 +0000
Subject: [PATCH 26/67] fix: don't abort a SOCKS negotiation while looking
 whether GSSAPI is available

---
 libirc/listener.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/libirc/listener.c b/libirc/listener.c
index 529f536..7695a1c 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -634,7 +634,6 @@ static gboolean gssapi_acceptable (struct pending_client *pc)
 	if (GSS_ERROR(major_status)) {
 		log_gssapi(l, LOG_ERROR, "importing principal name",
 				   major_status, minor_status);
-		gssapi_fail(pc);
 		return FALSE;
 	}
 
@@ -645,7 +644,6 @@ static gboolean gssapi_acceptable (struct pending_client *pc)
 	if (GSS_ERROR(major_status)) {
 		log_gssapi(l, LOG_ERROR, "acquiring service credentials",
 				   major_status, minor_status);
-		gssapi_fail(pc);
 
 		return FALSE;
 	}
-- 
2.43.0


From 44c6adf5b179e6c8023a6baa7d7bec4919b9e4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:12 +0000
Subject: [PATCH 27/67] fix: don't lose the first character of a first line
 that arrives in pieces

---
 libirc/listener.c | 31 ++++++++++++++++++++++---------
 libirc/listener.h |  3 +++
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/libirc/listener.c b/libirc/listener.c
index 7695a1c..8c9c520 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -164,12 +164,20 @@ static gboolean handle_client_detect(GIOChannel *ioc, struct pending_client *pc)
 	gchar header[2];
 	GError *error = NULL;
 
-	status = g_io_channel_read_chars(ioc, header, 1, &read, &error);
+	if (pc->first_char != '\0') {
+		/* Still waiting for the rest of the first line */
+		header[0] = pc->first_char;
+	} else {
+		status = g_io_channel_read_chars(ioc, header, 1, &read, &error);
 
-	if (status != G_IO_STATUS_NORMAL && status != G_IO_STATUS_AGAIN) {
-		if (error != NULL)
-			g_error_free(error);
-		return FALSE;
+		if (status == G_IO_STATUS_AGAIN)
+			return TRUE;
+
+		if (status != G_IO_STATUS_NORMAL) {
+			if (error != NULL)
+				g_error_free(error);
+			return FALSE;
+		}
 	}
 
 	if (header[0] == SOCKS_VERSION) {
@@ -185,17 +193,22 @@ static gboolean handle_client_detect(GIOChannel *ioc, struct pending_client *pc)
 		gboolean ret;
 		gsize in_len;
 
-		pc->type = CLIENT_TYPE_REGULAR;
-
 		g_assert(ioc != NULL);
 
 		status = g_io_channel_read_line(ioc, &raw, &in_len, NULL, &error);
+		if (status == G_IO_STATUS_AGAIN) {
+			pc->first_char = header[0];
+			return TRUE;
+		}
 		if (status != G_IO_STATUS_NORMAL) {
 			g_free(raw);
-			g_error_free(error);
-			return status;
+			if (error != NULL)
+				g_error_free(error);
+			return FALSE;
 		}
 
+		pc->type = CLIENT_TYPE_REGULAR;
+
 		complete = g_malloc(in_len+2);
 		complete[0] = header[0];
 		memcpy(complete+1, raw, in_len);
diff --git a/libirc/listener.h b/libirc/listener.h
index 3efb6b1..17b1524 100644
--- a/libirc/listener.h
+++ b/libirc/listener.h
@@ -90,6 +90,9 @@ struct pending_client {
 	/** The type of client. */
 	enum client_type type;
 
+	/** First character received, while the rest of its line is on its way. */
+	gchar first_char;
+
 	gint watch_id;
 	struct sockaddr *clientname;
 	socklen_t clientname_len;
-- 
2.43.0


From 4445f45b57b86a61894015aab63a57e8c3fc36f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:12 +0000
Subject: [PATCH 28/67] fix: treat SOCKS lengths as unsigned, refuse short
 reads and disconnect refused SOCKS users

---
 libirc/listener.c | 63 ++++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/libirc/listener.c b/libirc/listener.c
index 8c9c520..7a55b25 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -561,13 +561,12 @@ static gboolean on_socks_pass_accepted(struct pending_client *cl, gboolean accep
 static gboolean pass_handle_data(struct pending_client *cl)
 {
 	gchar header[2];
-	gsize read;
-	gboolean accepted;
+	gsize read, len;
 	GIOStatus status;
 	gchar uname[0x100], pass[0x100];
 
 	status = g_io_channel_read_chars(cl->connection, header, 2, &read, NULL);
-	if (status != G_IO_STATUS_NORMAL) {
+	if (status != G_IO_STATUS_NORMAL || read != 2) {
 		return FALSE;
 	}
 
@@ -578,29 +577,30 @@ static gboolean pass_handle_data(struct pending_client *cl)
 	 	return listener_socks_error(cl, REP_GENERAL_FAILURE);
 	}
 
-	status = g_io_channel_read_chars(cl->connection, uname, header[1], &read,
-									 NULL);
-	if (status != G_IO_STATUS_NORMAL) {
+	len = (guint8)header[1];
+	status = g_io_channel_read_chars(cl->connection, uname, len, &read, NULL);
+	if (status != G_IO_STATUS_NORMAL || read != len) {
 		return FALSE;
 	}
 
-	uname[(guint8)header[1]] = '\0';
+	uname[len] = '\0';
 
 	status = g_io_channel_read_chars(cl->connection, header, 1, &read, NULL);
-	if (status != G_IO_STATUS_NORMAL) {
+	if (status != G_IO_STATUS_NORMAL || read != 1) {
 		return FALSE;
 	}
 
-	status = g_io_channel_read_chars(cl->connection, pass, header[0], &read, NULL);
-	if (status != G_IO_STATUS_NORMAL) {
+	len = (guint8)header[0];
+	status = g_io_channel_read_chars(cl->connection, pass, len, &read, NULL);
+	if (status != G_IO_STATUS_NORMAL || read != len) {
 		return FALSE;
 	}
 
-	pass[(guint8)header[0]] = '\0';
+	pass[len] = '\0';
 
-	accepted = cl->listener->ops->socks_auth_simple(cl, uname, pass,
-													on_socks_pass_accepted);
-	return TRUE;
+	/* A client that was refused has to be disconnected (RFC 1929) */
+	return cl->listener->ops->socks_auth_simple(cl, uname, pass,
+												on_socks_pass_accepted);
 }
 
 #ifdef HAVE_GSSAPI
@@ -812,21 +812,22 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 		int i;
 		gchar header[2];
 		gchar methods[0x100];
-		gsize read;
+		gsize read, num_methods;
 		status = g_io_channel_read_chars(ioc, header, 1, &read, NULL);
-		if (status != G_IO_STATUS_NORMAL) {
+		if (status != G_IO_STATUS_NORMAL || read != 1) {
 			return FALSE;
 		}
 
 		/* None by default */
 		cl->socks.method = NULL;
 
-		status = g_io_channel_read_chars(ioc, methods, header[0], &read, NULL);
-		if (status != G_IO_STATUS_NORMAL) {
+		num_methods = (guint8)header[0];
+		status = g_io_channel_read_chars(ioc, methods, num_methods, &read, NULL);
+		if (status != G_IO_STATUS_NORMAL || read != num_methods) {
 			return FALSE;
 		}
 
-		for (i = 0; i < header[0]; i++) {
+		for (i = 0; i < num_methods; i++) {
 			int j;
 			for (j = 0; socks_methods[j].id != -1; j++)
 			{
@@ -868,7 +869,7 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 		gsize read;
 
 		status = g_io_channel_read_chars(ioc, header, 4, &read, NULL);
-		if (status != G_IO_STATUS_NORMAL) {
+		if (status != G_IO_STATUS_NORMAL || read != 4) {
 			return FALSE;
 		}
 
@@ -899,12 +900,24 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 				{
 					char hostname[0x100];
 					guint16 port;
+					gsize len;
 					status = g_io_channel_read_chars(ioc, header, 1, &read, NULL);
-					status = g_io_channel_read_chars(ioc, hostname, header[0], &read, NULL);
-					hostname[(guint8)header[0]] = '\0';
-
-					status = g_io_channel_read_chars(ioc, header, 2, &read, NULL);
-					port = ntohs(*(guint16 *)header);
+					if (status != G_IO_STATUS_NORMAL || read != 1) {
+						return FALSE;
+					}
+
+					len = (guint8)header[0];
+					status = g_io_channel_read_chars(ioc, hostname, len, &read, NULL);
+					if (status != G_IO_STATUS_NORMAL || read != len) {
+						return FALSE;
+					}
+					hostname[len] = '\0';
+
+					status = g_io_channel_read_chars(ioc, (gchar *)&port, 2, &read, NULL);
+					if (status != G_IO_STATUS_NORMAL || read != 2) {
+						return FALSE;
+					}
+					port = ntohs(port);
 
 					if (cl->listener->ops->socks_connect_fqdn == NULL)
 						return listener_socks_error(cl, REP_ATYP_NOT_SUPPORTED);
-- 
2.43.0


From 60e70b76ecc4b14513c958efb294e1b0562b25b5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:55:37 +0000
Subject: [PATCH 29/67] fix: ignore empty lines from clients that haven't
 registered yet

---
 libirc/client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/client.c b/libirc/client.c
index 3402056..00408c1 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -268,7 +268,7 @@ static gboolean on_transport_receive_line(struct irc_transport *transport,
 	struct irc_client *client = transport->userdata;
 
 	/* Silently drop empty messages */
-	if (l == NULL || l->argc == 0) {
+	if (l == NULL || l->argc == 0 || l->args[0][0] == '\0') {
 		return TRUE;
 	}
 
-- 
2.43.0


From f4ac1eaa4616167097e46f8991093705e5c64543 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:55:37 +0000
Subject: [PATCH 30/67] fix: don't leak login details that are sent twice

---
 libirc/client.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libirc/client.c b/libirc/client.c
index 00408c1..5b43739 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -313,6 +313,7 @@ static gboolean process_from_pending_client(struct irc_client *client,
 			return TRUE;
 		}
 
+		g_free(client->login_details->nick);
 		client->login_details->nick = g_strdup(l->args[1]);
 	} else if (!base_strcmp(l->args[0], "USER")) {
 
@@ -322,11 +323,16 @@ static gboolean process_from_pending_client(struct irc_client *client,
 			return TRUE;
 		}
 
+		g_free(client->login_details->username);
 		client->login_details->username = g_strdup(l->args[1]);
+		g_free(client->login_details->mode);
 		client->login_details->mode = g_strdup(l->args[2]);
+		g_free(client->login_details->unused);
 		client->login_details->unused = g_strdup(l->args[3]);
+		g_free(client->login_details->realname);
 		client->login_details->realname = g_strdup(l->args[4]);
 	} else if (!base_strcmp(l->args[0], "PASS")) {
+		g_free(client->login_details->password);
 		client->login_details->password = g_strdup(l->args[1]);
 	} else if (!base_strcmp(l->args[0], "CONNECT")) {
 		if (l->argc < 2) {
-- 
2.43.0


From d5983c1c9df2c1117eaed403bcbd5afc42ed9886 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:55:37 +0000
Subject: [PATCH 31/67] fix: name the target when telling a client its user
 modes

---
 libirc/client.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libirc/client.c b/libirc/client.c
index 5b43739..5d5a916 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -662,7 +662,8 @@ gboolean client_send_state(struct irc_client *c, struct irc_network_state *state
 
 	mode = mode2string(state->me.modes);
 	if (mode != NULL) {
-		ret = client_send_args_ex(c, state->me.nick, "MODE", mode, NULL);
+		ret = client_send_args_ex(c, client_get_own_hostmask(c), "MODE",
+					  state->me.nick, mode, NULL);
 	}
 	g_free(mode);
 
-- 
2.43.0


From ac4e5f18304c844910411aa78c2a167251e7db28 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:55:37 +0000
Subject: [PATCH 32/67] fix: keep track of all members sent to a client, tell
 the channel is public when unknown

---
 libirc/client.c | 63 ++++++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 5d5a916..426603f 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -728,14 +728,25 @@ gboolean client_send_topic(struct irc_client *c, struct irc_channel_state *ch,
 gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *ch)
 {
 	GList *nl;
-	gboolean ret;
-	struct irc_line *l = NULL;
+	gboolean ret = TRUE;
+	/* The channel is public until the server told otherwise */
+	char mode[2] = { ch->mode != 0?ch->mode:'=', 0 };
+	size_t room;
+	GString *names;
 
 	g_assert(c != NULL);
 	g_assert(ch != NULL);
 
+	/* Origin, numeric, target, mode, channel name, colons and \r\n */
+	room = strlen(":") + strlen(" 353 ") +
+		(c->default_origin != NULL?strlen(c->default_origin):0) +
+		strlen(client_get_default_target(c)) + strlen(" = ") +
+		strlen(ch->name) + strlen(" :\r\n");
+	room = (room < IRC_MAXLINELEN)?IRC_MAXLINELEN - room:0;
+
+	names = g_string_new(NULL);
+
 	for (nl = ch->nicks; nl; nl = nl->next) {
-		char mode[2] = { ch->mode, 0 };
 		char *arg;
 		struct channel_nick *n = (struct channel_nick *)nl->data;
 		char prefix;
@@ -753,41 +764,35 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 			arg = g_strdup_printf("%c%s", prefix, n->global_nick->nick);
 		}
 
-		ret = TRUE;
-
-		if (l == NULL || !line_add_arg(l, arg)) {
-			char *tmp;
-			if (l != NULL) {
-				ret = client_send_line(c, l, NULL);
-				free_line(l);
-			}
+		if (names->len > 0 && names->len + 1 + strlen(arg) > room) {
+			ret = client_send_response(c, RPL_NAMREPLY, mode, ch->name,
+						   names->str, NULL);
+			g_string_truncate(names, 0);
+		}
 
-			l = irc_parse_line_args(c->default_origin, "353",
-						client_get_default_target(c),
-						mode, ch->name, NULL);
-			l->has_endcolon = WITHOUT_COLON;
-			tmp = g_strdup_printf(":%s", arg);
-			if (!line_add_arg(l, tmp)) {
-				/* Doesn't fit on a line of its own */
-				free_line(l);
-				l = NULL;
-			}
-			g_free(tmp);
+		/* Leave out names that don't fit on a line of their own */
+		if (strlen(arg) <= room) {
+			if (names->len > 0)
+				g_string_append_c(names, ' ');
+			g_string_append(names, arg);
 		}
 
 		g_free(arg);
 
 		if (!ret) {
-			return FALSE;
+			break;
 		}
 	}
 
-	if (l != NULL) {
-		ret = client_send_line(c, l, NULL);
-		free_line(l);
-		if (!ret) {
-			return FALSE;
-		}
+	if (ret && names->len > 0) {
+		ret = client_send_response(c, RPL_NAMREPLY, mode, ch->name,
+					   names->str, NULL);
+	}
+
+	g_string_free(names, TRUE);
+
+	if (!ret) {
+		return FALSE;
 	}
 
 	return client_send_response(c, RPL_ENDOFNAMES, ch->name, "End of /NAMES list",
-- 
2.43.0


From ae2a27f2b44e0ae76476004c2a63a00392bf2ea6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:55:37 +0000
Subject: [PATCH 33/67] fix: send the state to all clients, even if one fails

---
 libirc/client.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 426603f..1c5cf56 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -810,14 +810,16 @@ gboolean clients_send_state(GList *clients, struct irc_network_state *s)
 {
 	GList *gl;
 
+	gboolean ret = TRUE;
+
 	for (gl = clients; gl; gl = gl->next) {
 		struct irc_client *c = gl->data;
 		if (!client_send_state(c, s)) {
-			return FALSE;
+			ret = FALSE;
 		}
 	}
 
-	return TRUE;
+	return ret;
 }
 
 gboolean client_send_banlist(struct irc_client *client, struct irc_channel_state *channel)
-- 
2.43.0


From 97ce31d6a620152a59aa2544da12e5edb658d93b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:55:37 +0000
Subject: [PATCH 34/67] fix: answer with a channel's modes even if there are
 none

---
 libirc/client.c | 53 ++++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 1c5cf56..c20c2f2 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -846,34 +846,37 @@ gboolean client_send_banlist(struct irc_client *client, struct irc_channel_state
 gboolean client_send_channel_mode(struct irc_client *c, struct irc_channel_state *ch)
 {
 	char *mode;
-	mode = mode2string(ch->modes);
 	gboolean ret;
+	struct irc_line *l;
+	int i, j = 0;
 
-	if (mode != NULL) {
-		struct irc_line *l;
-		int i, j = 0;
-		l = g_new0(struct irc_line, 1);
-		l->args = g_new0(char *, 260);
-		l->origin = g_strdup(c->default_origin);
-		l->args[0] = g_strdup_printf("%03d", RPL_CHANNELMODEIS);
-		l->args[1] = g_strdup(client_get_default_target(c));
-		l->args[2] = g_strdup(ch->name);
-		l->args[3] = mode;
-		for (i = 0; mode[i]; i++) {
-			enum chanmode_type cmt = network_chanmode_type(mode[i], c->state->info);
-			if ((cmt == CHANMODE_OPT_SETTING || cmt == CHANMODE_SETTING) &&
-				channel_mode_option(ch, mode[i])) {
-				l->args[4+j] = g_strdup(channel_mode_option(ch, mode[i]));
-				j++;
-			}
-			l->args[4+j] = NULL;
-		}
-		l->argc = 4+j;
-		ret = client_send_line(c, l, NULL);
-		free_line(l);
-		if (!ret) {
-			return FALSE;
+	mode = mode2string(ch->modes);
+	if (mode == NULL) {
+		/* No modes set */
+		mode = g_strdup("+");
+	}
+
+	l = g_new0(struct irc_line, 1);
+	l->args = g_new0(char *, 260);
+	l->origin = g_strdup(c->default_origin);
+	l->args[0] = g_strdup_printf("%03d", RPL_CHANNELMODEIS);
+	l->args[1] = g_strdup(client_get_default_target(c));
+	l->args[2] = g_strdup(ch->name);
+	l->args[3] = mode;
+	for (i = 0; mode[i]; i++) {
+		enum chanmode_type cmt = network_chanmode_type(mode[i], c->state->info);
+		if ((cmt == CHANMODE_OPT_SETTING || cmt == CHANMODE_SETTING) &&
+			channel_mode_option(ch, mode[i])) {
+			l->args[4+j] = g_strdup(channel_mode_option(ch, mode[i]));
+			j++;
 		}
+		l->args[4+j] = NULL;
+	}
+	l->argc = 4+j;
+	ret = client_send_line(c, l, NULL);
+	free_line(l);
+	if (!ret) {
+		return FALSE;
 	}
 
 	if (ch->creation_time > 0) {
-- 
2.43.0


From a6ea8bb798fc3280f320fa3cb37350db61983eba Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:55:37 +0000
Subject: [PATCH 35/67] fix: send a netsplit to all clients, even if one fails

---
 libirc/client.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index c20c2f2..037a4ff 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -905,14 +905,16 @@ gboolean clients_send_netsplit(GList *clients, const char *my_name,
 			   const char *lost_server)
 {
 	GList *gl;
+	gboolean ret = TRUE;
+
 	for (gl = clients; gl; gl = gl->next) {
 		struct irc_client *c = gl->data;
 		if (!client_send_netsplit(c, my_name, lost_server)) {
-			return FALSE;
+			ret = FALSE;
 		}
 	}
 
-	return FALSE;
+	return ret;
 }
 
 gboolean client_send_nick_quit(struct irc_client *c, struct network_nick *gn,
-- 
2.43.0


From cd0b854ad0f723e972b0be5683c58fdc1ed24dfa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:23:03 +0000
Subject: [PATCH 36/67] fix: watch a full connection once, don't lose track of
 the watch

---
 libirc/transport_ioc.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 76baedd..184ceda 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -174,7 +174,7 @@ static gboolean irc_transport_iochannel_send_line(struct irc_transport *transpor
 		backend_data->outgoing_id = g_io_add_watch(backend_data->incoming, G_IO_OUT,
 										transport_send_queue, transport);
 		g_queue_push_tail(backend_data->pending_lines, linedup(l));
-		break;
+		return TRUE;
 	case G_IO_STATUS_EOF:
 		transport->callbacks->hangup(transport);
 		return FALSE;
@@ -338,7 +338,6 @@ struct irc_transport *irc_transport_new_iochannel(GIOChannel *iochannel)
 static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 									  void *_transport)
 {
-	gboolean ret = FALSE;
 	struct irc_transport *transport = _transport;
 	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
 	GIOStatus status;
@@ -347,7 +346,7 @@ static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 
 	status = g_io_channel_flush(backend_data->incoming, NULL);
 	if (status == G_IO_STATUS_AGAIN)
-		ret = TRUE;
+		return TRUE;
 
 	g_assert(backend_data->pending_lines != NULL);
 
@@ -397,11 +396,10 @@ static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 		free_line(l);
 	}
 
-	if (!ret)
-		backend_data->outgoing_id = 0;
+	backend_data->outgoing_id = 0;
 
-	if (!ret && backend_data->pending_disconnect)
+	if (backend_data->pending_disconnect)
 		really_disconnect(backend_data);
 
-	return ret;
+	return FALSE;
 }
-- 
2.43.0


From e99688d06f1b23c50c96a1f54247945acb06efae Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:23:03 +0000
Subject: [PATCH 37/67] fix: don't reuse a freed error when sending queued
 lines

---
 libirc/transport_ioc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 184ceda..6fb62c7 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -364,7 +364,7 @@ static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 			return TRUE;
 		case G_IO_STATUS_ERROR:
 			transport->callbacks->log(transport, l, error);
-			g_error_free(error);
+			g_clear_error(&error);
 			break;
 		case G_IO_STATUS_EOF:
 			backend_data->outgoing_id = 0;
@@ -390,7 +390,7 @@ static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 			break;
 		case G_IO_STATUS_ERROR:
 			transport->callbacks->log(transport, l, error);
-			g_error_free(error);
+			g_clear_error(&error);
 			break;
 		}
 		free_line(l);
-- 
2.43.0


From 0f6a5db0a45ea863e5310c633bf190dec3607490 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:23:03 +0000
Subject: [PATCH 38/67] fix: don't write to a transport that was freed with
 lines queued

---
 libirc/transport_ioc.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 6fb62c7..64eecbe 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -46,12 +46,21 @@ static void free_pending_line(void *_line, void *userdata)
 	free_line((struct irc_line *)_line);
 }
 
+static void really_disconnect(struct irc_transport_data_iochannel *backend_data);
+
 static void irc_transport_iochannel_free_data(void *data)
 {
 	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)data;
 
 	g_assert(backend_data->pending_disconnect);
 
+	/* Lines may still be queued, but they can no longer be sent, and the
+	 * other side can't be waited for */
+	if (backend_data->incoming != NULL) {
+		g_io_channel_shutdown(backend_data->incoming, FALSE, NULL);
+		really_disconnect(backend_data);
+	}
+
 	if (backend_data->outgoing_iconv != (GIConv)-1)
 		g_iconv_close(backend_data->outgoing_iconv);
 	if (backend_data->incoming_iconv != (GIConv)-1)
@@ -135,6 +144,7 @@ static void really_disconnect(struct irc_transport_data_iochannel *backend_data)
 	if (backend_data->outgoing_id)
 		g_source_remove(backend_data->outgoing_id);
 
+	backend_data->outgoing_id = 0;
 	backend_data->incoming = NULL;
 }
 
-- 
2.43.0


From 45dadd9ecbad51e0b7b9e632379fc264d37c82e8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:23:03 +0000
Subject: [PATCH 39/67] fix: don't process lines that are received after
 disconnecting

---
 libirc/transport_ioc.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 64eecbe..875fd3c 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -140,10 +140,12 @@ static void really_disconnect(struct irc_transport_data_iochannel *backend_data)
 {
 	g_io_channel_unref(backend_data->incoming);
 
-	g_source_remove(backend_data->incoming_id);
+	if (backend_data->incoming_id)
+		g_source_remove(backend_data->incoming_id);
 	if (backend_data->outgoing_id)
 		g_source_remove(backend_data->outgoing_id);
 
+	backend_data->incoming_id = 0;
 	backend_data->outgoing_id = 0;
 	backend_data->incoming = NULL;
 }
@@ -154,8 +156,13 @@ static void irc_transport_iochannel_disconnect(void *data)
 
 	backend_data->pending_disconnect = TRUE;
 
-	if (backend_data->outgoing_id == 0)
+	if (backend_data->outgoing_id == 0) {
 		really_disconnect(backend_data);
+	} else if (backend_data->incoming_id != 0) {
+		/* Only send what is queued */
+		g_source_remove(backend_data->incoming_id);
+		backend_data->incoming_id = 0;
+	}
 }
 
 static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
@@ -285,7 +292,7 @@ static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
 			ret &= transport->callbacks->recv(transport, l);
 			free_line(l);
 
-			if (!ret)
+			if (!ret || backend_data->pending_disconnect)
 				return FALSE;
 		}
 
-- 
2.43.0


From 515db78b1d4b5307d98696a7005ec08cee252453 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:23:03 +0000
Subject: [PATCH 40/67] fix: don't leak lines that can't be converted

---
 libirc/transport_ioc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 875fd3c..345504f 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -296,6 +296,9 @@ static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
 				return FALSE;
 		}
 
+		if (l != NULL)
+			free_line(l);
+
 		ret &= handle_recv_status(transport, status, error);
 		if (error != NULL)
 			g_error_free(error);
-- 
2.43.0


From 9069e6c04ce19da7595c197be9de6c7d6b02c1bf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:23:03 +0000
Subject: [PATCH 41/67] fix: leave the character set alone if the new one can't
 be set

---
 libirc/transport_ioc.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 345504f..69d817e 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -100,34 +100,31 @@ static char *irc_transport_iochannel_get_peer_name(void *data)
 
 static gboolean irc_transport_iochannel_set_charset(struct irc_transport *transport, const char *name)
 {
-	GIConv tmp;
+	GIConv tmp, out;
 	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
 
 	if (name != NULL) {
-		tmp = g_iconv_open(name, "UTF-8");
+		out = g_iconv_open(name, "UTF-8");
 
-		if (tmp == (GIConv)-1) {
+		if (out == (GIConv)-1) {
 			return FALSE;
 		}
-	} else {
-		tmp = (GIConv)-1;
-	}
-	
-	if (backend_data->outgoing_iconv != (GIConv)-1)
-		g_iconv_close(backend_data->outgoing_iconv);
 
-	backend_data->outgoing_iconv = tmp;
-
-	if (name != NULL) {
 		tmp = g_iconv_open("UTF-8", name);
 
 		if (tmp == (GIConv)-1) {
+			g_iconv_close(out);
 			return FALSE;
 		}
 	} else {
-		tmp = (GIConv)-1;
+		out = tmp = (GIConv)-1;
 	}
 
+	if (backend_data->outgoing_iconv != (GIConv)-1)
+		g_iconv_close(backend_data->outgoing_iconv);
+
+	backend_data->outgoing_iconv = out;
+
 	if (backend_data->incoming_iconv != (GIConv)-1)
 		g_iconv_close(backend_data->incoming_iconv);
 
-- 
2.43.0


From 8ec2bfd205ded43630b68c9506c61649139e96dd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:23:26 +0000
Subject: [PATCH 42/67] fix: don't lose the end of long lines when a connection
 is full

---
 libirc/line.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libirc/line.c b/libirc/line.c
index 6d2cd1a..577cbb7 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -155,6 +155,7 @@ GIOStatus irc_send_line(GIOChannel *c, GIConv iconv,
 	char *raw, *cvrt = NULL;
 	GIOStatus ret;
 	gsize bytes_written = 0;
+	gsize needed;
 
 	g_assert(c);
 
@@ -167,6 +168,11 @@ GIOStatus irc_send_line(GIOChannel *c, GIConv iconv,
 	} else {
 		cvrt = raw;
 	}
+	/* A line that doesn't fit in the buffer could be written in part */
+	needed = strlen(cvrt) + 16;
+	if (g_io_channel_get_buffer_size(c) < needed)
+		g_io_channel_set_buffer_size(c, needed);
+
 	ret = g_io_channel_write_chars(c, cvrt, -1, &bytes_written, error);
 	g_free(cvrt);
 
-- 
2.43.0


From ae0e69ada664c7810d4463c664e47ad95ab2e48f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:34:01 +0000
Subject: [PATCH 43/67] fix: only end lines at newlines

---
 libirc/listener.c      | 1 +
 libirc/transport_ioc.c | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/libirc/listener.c b/libirc/listener.c
index 7a55b25..f8a04b6 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -316,6 +316,7 @@ struct pending_client *listener_new_pending_client(struct irc_listener *listener
 
 	g_io_channel_set_close_on_unref(c, TRUE);
 	g_io_channel_set_encoding(c, NULL, NULL);
+	g_io_channel_set_line_term(c, "\n", 1);
 	g_io_channel_set_flags(c, G_IO_FLAG_NONBLOCK, NULL);
 	pc = g_new0(struct pending_client, 1);
 #ifdef HAVE_GSSAPI
diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 69d817e..7146c78 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -349,6 +349,9 @@ struct irc_transport *irc_transport_new_iochannel(GIOChannel *iochannel)
 	backend_data->outgoing_iconv = backend_data->incoming_iconv = (GIConv)-1;
 	g_io_channel_ref(backend_data->incoming);
 
+	/* Without this, GLib also ends lines at NULs and U+2029 */
+	g_io_channel_set_line_term(backend_data->incoming, "\n", 1);
+
 	return ret;
 }
 
-- 
2.43.0


From 5d16f4bc15a14660ac22cfbe914ee957a37abe7b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:36:15 +0000
Subject: [PATCH 44/67] fix: only end lines in the linestack's files at
 newlines

---
 libirc/linestack.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 873f9e4..4479e6b 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -124,6 +124,7 @@ struct linestack_context *create_linestack(const char *data_dir,
 	g_free(data_file);
 
 	g_io_channel_set_encoding(data->line_file, NULL, NULL);
+	g_io_channel_set_line_term(data->line_file, "\n", 1);
 
 	index_file = g_build_filename(data_dir, "index", NULL);
 	g_assert(index_file != NULL);
@@ -271,6 +272,7 @@ struct irc_network_state *linestack_get_state(
 	g_free(data_file);
 
 	g_io_channel_set_encoding(state_file, NULL, NULL);
+	g_io_channel_set_line_term(state_file, "\n", 1);
 
 	ret = network_state_init("", "", "");
 	if (!marshall_network_state(MARSHALL_PULL, state_file, ret)) {
-- 
2.43.0


From 0b803e6488f498654c1067b4321eed7b33a824fa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:36:15 +0000
Subject: [PATCH 45/67] fix: don't overwrite the first state of a reopened
 linestack

---
 libirc/linestack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 4479e6b..492f979 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -194,7 +194,7 @@ struct linestack_context *create_linestack(const char *data_dir,
 		g_dir_close(dir);
 	}
 
-	if (!file_insert_state(data, state, 0)) {
+	if (!file_insert_state(data, state, data->count)) {
 		log_global(LOG_WARNING, "Unable to insert state");
 		g_free(data);
 		return NULL;
-- 
2.43.0


From 7f1bb4ae17aa6558eb0af541bd0f0c7c74af3657 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:36:15 +0000
Subject: [PATCH 46/67] fix: store states in the linestack after the lines they
 include

---
 libirc/linestack.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 492f979..bc62816 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -511,7 +511,6 @@ gboolean linestack_insert_line(struct linestack_context *nd,
 	gboolean needed = FALSE;
 	GError *error = NULL;
 	GIOStatus status;
-	gboolean ret;
 
 	if (nd == NULL) return TRUE;
 
@@ -540,11 +539,6 @@ gboolean linestack_insert_line(struct linestack_context *nd,
 		g_assert(strchr(l->args[i], '\r') == NULL);
 	}
 
-	if (nd->count >= nd->last_line_with_state + STATE_DUMP_INTERVAL) {
-		ret = file_insert_state(nd, state, nd->count);
-		if (ret == FALSE)
-			return FALSE;
-	}
 
 	if (!write_index_entry(nd->index_file,
 					  g_io_channel_tell_position(nd->line_file),
@@ -561,6 +555,11 @@ gboolean linestack_insert_line(struct linestack_context *nd,
 	}
 
 	nd->count++;
+
+	/* The state already includes the line that was just written */
+	if (nd->count >= nd->last_line_with_state + STATE_DUMP_INTERVAL)
+		return file_insert_state(nd, state, nd->count);
+
 	return TRUE;
 }
 
-- 
2.43.0


From 6517e2c99d2e40393b7185d14f27cd6628522d91 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:36:34 +0000
Subject: [PATCH 47/67] fix: get the state at the start of a linestack, survive
 missing entries

---
 libirc/linestack.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index bc62816..ead3628 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -233,7 +233,13 @@ struct irc_network_state *linestack_get_state(
 	status = g_io_channel_flush(nd->index_file, &error);
 	LF_CHECK_IO_STATUS(status);
 
-	if (to_index != NULL) {
+	if (to_index != NULL && *to_index > nd->count) {
+		log_global(LOG_WARNING, "Entry %"PRIi64" is not in the linestack",
+				   *to_index);
+		return NULL;
+	} else if (to_index != NULL && *to_index == 0) {
+		state_index = 0;
+	} else if (to_index != NULL) {
 		t = (*to_index)-1;
 		status = g_io_channel_seek_position(nd->index_file,
 			t * INDEX_RECORD_SIZE + sizeof(guint64) + sizeof(time_t),
@@ -318,8 +324,8 @@ gboolean linestack_read_entry(struct linestack_context *nd,
 									 sizeof(guint64), NULL, &error);
 	if (status != G_IO_STATUS_NORMAL) {
 		log_global(LOG_WARNING, "reading line %"PRIi64" in index failed: %s", i,
-				   error->message);
-		g_error_free(error);
+				   error != NULL?error->message:"Unexpected end of file");
+		if (error != NULL) g_error_free(error);
 		return FALSE;
 	}
 
@@ -327,8 +333,8 @@ gboolean linestack_read_entry(struct linestack_context *nd,
 									 sizeof(time_t), NULL, &error);
 	if (status != G_IO_STATUS_NORMAL) {
 		log_global(LOG_WARNING, "reading time %"PRIi64" in index failed: %s", i,
-				   error->message);
-		g_error_free(error);
+				   error != NULL?error->message:"Unexpected end of file");
+		if (error != NULL) g_error_free(error);
 		return FALSE;
 	}
 
@@ -342,16 +348,17 @@ gboolean linestack_read_entry(struct linestack_context *nd,
 	}
 
 	status = g_io_channel_read_line(nd->line_file, &raw, NULL, NULL, &error);
-	if (status == G_IO_STATUS_ERROR) {
-		log_global(LOG_WARNING, "read_line() failed: %s", error->message);
-		g_error_free(error);
+	if (status != G_IO_STATUS_NORMAL) {
+		log_global(LOG_WARNING, "read_line() failed: %s",
+				   error != NULL?error->message:"Unexpected end of file");
+		if (error != NULL) g_error_free(error);
 		return FALSE;
 	}
 
 	*line = irc_parse_line(raw);
 	g_free(raw);
 
-	return TRUE;
+	return *line != NULL;
 }
 
 gboolean linestack_traverse(struct linestack_context *nd,
-- 
2.43.0


From 4d80894e24879dcc3d342fae8b3de78ca121a1b5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:37:28 +0000
Subject: [PATCH 48/67] fix: keep all of a channel's data in the linestack's
 states

---
 libirc/linestack.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index ead3628..7a5f16d 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -687,7 +687,7 @@ gboolean linestack_replay(struct linestack_context *ctx,
 }
 
 
-#define marshall_new(m,t) if ((m) == MARSHALL_PULL) *(t) = g_malloc(sizeof(**t));
+#define marshall_new(m,t) if ((m) == MARSHALL_PULL) *(t) = g_malloc0(sizeof(**t));
 
 static const char tabs[10] = {'\t', '\t', '\t', '\t', '\t',
 			       '\t', '\t', '\t', '\t', '\t' };
@@ -829,7 +829,7 @@ static gboolean marshall_char(struct irc_network_state *nst, const char *name, i
 static gboolean marshall_int(struct irc_network_state *nst, const char *name, int level, enum marshall_mode m, GIOChannel *t, int *n)
 {
 	if (m == MARSHALL_PUSH) {
-		char tmp[10];
+		char tmp[30];
 		GError *error = NULL;
 		GIOStatus status;
 		g_snprintf(tmp, sizeof(tmp), "%d", *n);
@@ -991,10 +991,14 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	ret &= marshall_string(nst, "topic", level+1, m, t, &(*c)->topic);
 	ret &= marshall_string(nst, "topic_set_by", level+1, m, t, &(*c)->topic_set_by);
 	ret &= marshall_time(nst, "topic_set_time", level+1, m, t, &(*c)->topic_set_time);
+	ret &= marshall_time(nst, "creation_time", level+1, m, t, &(*c)->creation_time);
+	ret &= marshall_bool(nst, "mode_received", level+1, m, t, &(*c)->mode_received);
 	for (i = 0; i < MAXMODES; i++) {
 		char name[20];
 		g_snprintf(name, sizeof(name), "mode_nicklist[%d]", i);
 		ret &= marshall_GList(nst, name, level+1, m, t, &(*c)->chanmode_nicklist[i], (marshall_fn_t)marshall_nicklist_entry);
+		g_snprintf(name, sizeof(name), "mode_nicklist_present[%d]", i);
+		ret &= marshall_bool(nst, name, level+1, m, t, &(*c)->chanmode_nicklist_present[i]);
 		g_snprintf(name, sizeof(name), "mode_option[%d]", i);
 		ret &= marshall_string(nst, name, level+1, m, t, &(*c)->chanmode_option[i]);
 	}
@@ -1014,7 +1018,7 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 		for (i = 0; i < count; i++) {
 			struct channel_nick *cn;
 			char *nick;
-			char tmp[10];
+			char tmp[20];
 			g_snprintf(tmp, sizeof(tmp), "[%d]", i);
 
 			marshall_struct(t, m, level+2, tmp);
@@ -1032,7 +1036,7 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 		}
 	} else {
 		int count = g_list_length((*c)->nicks);
-		char tmp[10];
+		char tmp[20];
 		int i = 0;
 		GList *l;
 
-- 
2.43.0


From 13b4cb2ac30febf4970cc34b8eccdc512a091c55 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:37:56 +0000
Subject: [PATCH 49/67] fix: notice damaged states in the linestack rather than
 crashing

---
 libirc/linestack.c | 133 +++++++++++++++++++++++++++++----------------
 1 file changed, 87 insertions(+), 46 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 7a5f16d..0bf1018 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -283,6 +283,7 @@ struct irc_network_state *linestack_get_state(
 	ret = network_state_init("", "", "");
 	if (!marshall_network_state(MARSHALL_PULL, state_file, ret)) {
 		g_io_channel_unref(state_file);
+		free_network_state(ret);
 		return NULL;
 	}
 
@@ -736,8 +737,12 @@ static gboolean marshall_get (GIOChannel *t, int level, const char *name, char *
 
 	line[term] = '\0';
 
-	g_assert(strncmp(line, tabs, level) == 0);
-	g_assert(strncmp(line+level, name, strlen(name)) == 0);
+	if (strncmp(line, tabs, level) != 0 ||
+		strncmp(line+level, name, strlen(name)) != 0) {
+		log_global(LOG_ERROR, "Invalid line `%s' in linestack state", line);
+		g_free(line);
+		return FALSE;
+	}
 
 	if (line[level+strlen(name)] == ':') {
 		*value = g_strdup(line+level+strlen(name)+2);
@@ -762,7 +767,10 @@ static gboolean marshall_struct(GIOChannel *t, enum marshall_mode m, int level,
 		char *v;
 		gboolean ret = marshall_get(t, level, name, &v);
 		if (!ret) return FALSE;
-		if (v != NULL) return FALSE;
+		if (v != NULL) {
+			g_free(v);
+			return FALSE;
+		}
 		return TRUE;
 	}
 }
@@ -795,7 +803,7 @@ static gboolean marshall_bool(struct irc_network_state *nst, const char *name,
 		gboolean ret;
 		char *val;
 		ret = marshall_get(t, level, name, &val);
-		if (!ret) return FALSE;
+		if (!ret || val == NULL) return FALSE;
 
 		if (!strcmp(val, "true")) { *n = TRUE; g_free(val); return TRUE; }
 		if (!strcmp(val, "false")) { *n = FALSE; g_free(val); return TRUE; }
@@ -816,7 +824,7 @@ static gboolean marshall_char(struct irc_network_state *nst, const char *name, i
 	} else {
 		char *d;
 		gboolean ret = marshall_get(t, level, name, &d);
-		if (!ret) return FALSE;
+		if (!ret || d == NULL) return FALSE;
 
 		*n = d[0];
 
@@ -838,7 +846,7 @@ static gboolean marshall_int(struct irc_network_state *nst, const char *name, in
 	} else {
 		char *tmp;
 		gboolean ret = marshall_get(t, level, name, &tmp);
-		if (!ret) return FALSE;
+		if (!ret || tmp == NULL) return FALSE;
 
 		*n = atoi(tmp);
 
@@ -860,7 +868,7 @@ static gboolean marshall_time(struct irc_network_state *nst, const char *name, i
 	} else {
 		char *tmp;
 		gboolean ret = marshall_get(t, level, name, &tmp);
-		if (!ret) return FALSE;
+		if (!ret || tmp == NULL) return FALSE;
 
 		*n = strtol(tmp, NULL, 0);
 
@@ -883,7 +891,9 @@ static gboolean marshall_modes(struct irc_network_state *nst, const char *name,
 		char *tmp;
 		gboolean ret = marshall_get(t, level, name, &tmp);
 		if (!ret) return FALSE;
-		string2mode(tmp, n);
+		modes_clear(n);
+		if (tmp != NULL && tmp[0] != '\0')
+			string2mode(tmp, n);
 		g_free(tmp);
 		return TRUE;
 	}
@@ -891,12 +901,13 @@ static gboolean marshall_modes(struct irc_network_state *nst, const char *name,
 
 static gboolean marshall_network_nick (struct irc_network_state *nst, const char *name, int level, enum marshall_mode m, GIOChannel *t, struct network_nick *n)
 {
-	gboolean ret = TRUE;
-	marshall_struct(t, m, level, name);
+	gboolean ret;
+	ret = marshall_struct(t, m, level, name);
 	ret &= marshall_bool(nst, "query", level+1, m, t, &n->query);
 	ret &= marshall_modes(nst, "modes", level+1, m, t, n->modes);
 	ret &= marshall_string(nst, "nick", level+1, m, t, &n->nick);
-	g_assert(n->nick);
+	if (n->nick == NULL)
+		return FALSE;
 	ret &= marshall_string(nst, "fullname", level+1, m, t, &n->fullname);
 	ret &= marshall_string(nst, "username", level+1, m, t, &n->username);
 	ret &= marshall_string(nst, "hostname", level+1, m, t, &n->hostname);
@@ -911,7 +922,11 @@ static gboolean marshall_network_nick (struct irc_network_state *nst, const char
 static gboolean marshall_network_nick_p (struct irc_network_state *nst, const char *name, int level, enum marshall_mode m, GIOChannel *t, struct network_nick **n)
 {
 	marshall_new(m, n);
-	return marshall_network_nick(nst, name, level, m, t, *n);
+	if (marshall_network_nick(nst, name, level, m, t, *n))
+		return TRUE;
+	if (m == MARSHALL_PULL)
+		free_network_nick(NULL, *n);
+	return FALSE;
 }
 
 struct ht_traverse_data
@@ -924,14 +939,16 @@ struct ht_traverse_data
 
 static gboolean marshall_GList (struct irc_network_state *nst, const char *name, int level, enum marshall_mode m, GIOChannel *t, GList **gl, marshall_fn_t marshall_fn)
 {
-	marshall_struct(t, m, level, name);
+	if (m == MARSHALL_PULL)
+		*gl = NULL;
+	if (!marshall_struct(t, m, level, name))
+		return FALSE;
 	if (m == MARSHALL_PULL) {
 		int count;
 		int i;
 
-		marshall_int(nst, "count", level+1, m, t, &count);
-
-		*gl = NULL;
+		if (!marshall_int(nst, "count", level+1, m, t, &count))
+			return FALSE;
 
 		for (i = 0; i < count; i++) {
 			void *v;
@@ -946,7 +963,8 @@ static gboolean marshall_GList (struct irc_network_state *nst, const char *name,
 		int i = 0;
 		GList *l;
 
-		marshall_int(nst, "count", level+1, m, t, &count);
+		if (!marshall_int(nst, "count", level+1, m, t, &count))
+			return FALSE;
 
 		for (l = *gl; l; l = l->next) {
 			char name[20];
@@ -962,24 +980,25 @@ static gboolean marshall_GList (struct irc_network_state *nst, const char *name,
 
 static gboolean marshall_nicklist_entry (struct irc_network_state *nst, const char *name, int level, enum marshall_mode m, GIOChannel *t, struct nicklist_entry **d)
 {
-	gboolean ret = TRUE;
+	gboolean ret;
 	marshall_new(m, d);
-	marshall_struct(t, m, level, name);
+	ret = marshall_struct(t, m, level, name);
 	ret &= marshall_time(nst, "time", level+1, m, t, &(*d)->time_set);
 	ret &= marshall_string(nst, "hostmask", level+1, m, t, &(*d)->hostmask);
 	ret &= marshall_string(nst, "by", level+1, m, t, &(*d)->by);
+	if (!ret && m == MARSHALL_PULL)
+		free_nicklist_entry(*d);
 	return ret;
 }
 
-static gboolean marshall_channel_state (struct irc_network_state *nst,
+static gboolean marshall_channel_data (struct irc_network_state *nst,
 										const char *name, int level,
 										enum marshall_mode m, GIOChannel *t,
 										struct irc_channel_state **c)
 {
 	int i;
-	gboolean ret = TRUE;
-	marshall_new(m, c);
-	marshall_struct(t, m, level, name);
+	gboolean ret;
+	ret = marshall_struct(t, m, level, name);
 
 	ret &= marshall_char(nst, "mode", level+1, m, t, &((*c)->mode));
 	ret &= marshall_modes(nst, "modes", level+1, m, t, (*c)->modes);
@@ -1002,18 +1021,22 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 		g_snprintf(name, sizeof(name), "mode_option[%d]", i);
 		ret &= marshall_string(nst, name, level+1, m, t, &(*c)->chanmode_option[i]);
 	}
-	(*c)->network = nst;
+	if (!ret || (*c)->name == NULL)
+		return FALSE;
 
-	marshall_struct(t, m, level+1, "nicks");
+	if (!marshall_struct(t, m, level+1, "nicks"))
+		return FALSE;
 
 	/* Nicks  */
 	if (m == MARSHALL_PULL) {
 		int count;
 		int i;
 
+		(*c)->network = nst;
 		(*c)->nicks = NULL;
 
-		marshall_int(nst, "count", level+2, m, t, &count);
+		if (!marshall_int(nst, "count", level+2, m, t, &count))
+			return FALSE;
 
 		for (i = 0; i < count; i++) {
 			struct channel_nick *cn;
@@ -1021,18 +1044,20 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 			char tmp[20];
 			g_snprintf(tmp, sizeof(tmp), "[%d]", i);
 
-			marshall_struct(t, m, level+2, tmp);
+			if (!marshall_struct(t, m, level+2, tmp))
+				return FALSE;
 
-			if (!marshall_string(nst, "nick", level+3, m, t, &nick))
+			if (!marshall_string(nst, "nick", level+3, m, t, &nick) ||
+				nick == NULL)
 				return FALSE;
 
 			cn = find_add_channel_nick(*c, nick);
-			g_assert(cn);
+			g_free(nick);
+			if (cn == NULL)
+				return FALSE;
 
 			if (!marshall_modes(nst, "modes", level+3, m, t, cn->modes))
 				return FALSE;
-
-			g_free(nick);
 		}
 	} else {
 		int count = g_list_length((*c)->nicks);
@@ -1040,13 +1065,15 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 		int i = 0;
 		GList *l;
 
-		marshall_int(nst, "count", level+2, m, t, &count);
+		if (!marshall_int(nst, "count", level+2, m, t, &count))
+			return FALSE;
 
 		for (l = (*c)->nicks; l; l = l->next) {
 			struct channel_nick *cn = l->data;
 			g_snprintf(tmp, sizeof(tmp), "[%d]", i);
 
-			marshall_struct(t, m, level+2, tmp);
+			if (!marshall_struct(t, m, level+2, tmp))
+				return FALSE;
 
 			if (!marshall_string(nst, "nick", level+3, m, t, &cn->global_nick->nick))
 				return FALSE;
@@ -1061,22 +1088,33 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	return ret;
 }
 
+static gboolean marshall_channel_state (struct irc_network_state *nst,
+										const char *name, int level,
+										enum marshall_mode m, GIOChannel *t,
+										struct irc_channel_state **c)
+{
+	marshall_new(m, c);
+	if (marshall_channel_data(nst, name, level, m, t, c))
+		return TRUE;
+	if (m == MARSHALL_PULL)
+		free_channel_state(*c);
+	return FALSE;
+}
+
 static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t,
 									   struct irc_network_state *n)
 {
-	gboolean ret = TRUE;
-
 	if (m == MARSHALL_PULL) {
+		g_free(n->me.nick);
+		g_free(n->me.username);
+		g_free(n->me.hostname);
 		g_free(n->me.hostmask);
-		n->me.hostmask = NULL;
+		n->me.nick = n->me.username = n->me.hostname = n->me.hostmask = NULL;
 	}
-	ret &= marshall_network_nick(n, "me", 0, m, t, &n->me);
-	ret &= marshall_GList(n, "nicks", 0, m, t, &n->nicks, (marshall_fn_t)marshall_network_nick_p);
-	ret &= marshall_GList(n, "channels", 0, m, t, &n->channels, (marshall_fn_t)marshall_channel_state);
-
-	g_assert(n->me.nick);
 
-	return ret;
+	return marshall_network_nick(n, "me", 0, m, t, &n->me) &&
+		marshall_GList(n, "nicks", 0, m, t, &n->nicks, (marshall_fn_t)marshall_network_nick_p) &&
+		marshall_GList(n, "channels", 0, m, t, &n->channels, (marshall_fn_t)marshall_channel_state);
 }
 
 static char *state_path(struct linestack_context *lf_data, guint64 state_id)
@@ -1116,14 +1154,17 @@ static gboolean file_insert_state(struct linestack_context *nd,
 
 	g_io_channel_set_encoding(state_file, NULL, NULL);
 
-	nd->last_line_with_state = nd->count;
-
-	marshall_network_state(MARSHALL_PUSH, state_file, (struct irc_network_state *)state);
+	if (!marshall_network_state(MARSHALL_PUSH, state_file, (struct irc_network_state *)state)) {
+		log_global(LOG_ERROR, "Unable to write state to linestack");
+		g_io_channel_unref(state_file);
+		return FALSE;
+	}
 
 	status = g_io_channel_flush(state_file, &error);
+	g_io_channel_unref(state_file);
 	LF_CHECK_IO_STATUS(status);
 
-	g_io_channel_unref(state_file);
+	nd->last_line_with_state = nd->count;
 
 	return TRUE;
 }
-- 
2.43.0


From 44142898bf1c7af348afe5c3dd7b2cf40d521c1f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:38:19 +0000
Subject: [PATCH 50/67] fix: keep what the server supports in the linestack's
 states

---
 libirc/linestack.c | 41 +++++++++++++++++++++++++++++++++++++++--
 libirc/linestack.h |  4 ++++
 src/network.c      |  4 ++++
 3 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 0bf1018..318af4d 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -77,7 +77,6 @@ static gboolean file_insert_state(struct linestack_context *ctx,
 							  const struct irc_network_state *state,
 							  guint64 state_id);
 
-
 static char *state_path(struct linestack_context *lf_data, guint64 state_id);
 
 static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t,
@@ -571,6 +570,14 @@ gboolean linestack_insert_line(struct linestack_context *nd,
 	return TRUE;
 }
 
+gboolean linestack_insert_state(struct linestack_context *nd,
+								const struct irc_network_state *state)
+{
+	if (nd == NULL) return TRUE;
+
+	return file_insert_state(nd, state, nd->count);
+}
+
 struct send_line_privdata {
 	int time_offset;
 	struct irc_client *client;
@@ -1101,6 +1108,35 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	return FALSE;
 }
 
+/* The interpretation of lines depends on what the server supports */
+static gboolean marshall_network_info(enum marshall_mode m, GIOChannel *t,
+									  struct irc_network_state *n)
+{
+	char *tmp;
+
+	if (m == MARSHALL_PUSH) {
+		GError *error = NULL;
+		GIOStatus status;
+		tmp = network_info_string(n->info);
+		status = marshall_set(t, 0, "info", tmp, &error);
+		g_free(tmp);
+		return status == G_IO_STATUS_NORMAL;
+	} else {
+		char **params;
+		int i;
+
+		if (!marshall_get(t, 0, "info", &tmp) || tmp == NULL)
+			return FALSE;
+
+		params = g_strsplit(tmp, " ", 0);
+		for (i = 0; params[i] != NULL; i++)
+			network_info_parse(n->info, params[i]);
+		g_strfreev(params);
+		g_free(tmp);
+		return TRUE;
+	}
+}
+
 static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t,
 									   struct irc_network_state *n)
 {
@@ -1112,7 +1148,8 @@ static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t,
 		n->me.nick = n->me.username = n->me.hostname = n->me.hostmask = NULL;
 	}
 
-	return marshall_network_nick(n, "me", 0, m, t, &n->me) &&
+	return marshall_network_info(m, t, n) &&
+		marshall_network_nick(n, "me", 0, m, t, &n->me) &&
 		marshall_GList(n, "nicks", 0, m, t, &n->nicks, (marshall_fn_t)marshall_network_nick_p) &&
 		marshall_GList(n, "channels", 0, m, t, &n->channels, (marshall_fn_t)marshall_channel_state);
 }
diff --git a/libirc/linestack.h b/libirc/linestack.h
index f91fdd1..8e3de19 100644
--- a/libirc/linestack.h
+++ b/libirc/linestack.h
@@ -93,6 +93,10 @@ G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT gboolean linestack_insert_line(
 		enum data_direction dir,
 		const struct irc_network_state *);
 
+/* Store the current state, which isn't a result of the lines inserted */
+G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT gboolean linestack_insert_state(
+		struct linestack_context *,
+		const struct irc_network_state *);
 G_MODULE_EXPORT void linestack_free_marker(linestack_marker );
 G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT linestack_marker linestack_get_marker(struct linestack_context *);
 
diff --git a/src/network.c b/src/network.c
index 3658a1e..d40ba0d 100644
--- a/src/network.c
+++ b/src/network.c
@@ -153,6 +153,10 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 		network_update_isupport(n->info, n->external_state->info);
 
+		/* Lines are only stored from here on */
+		if (!linestack_insert_state(n->linestack, n->external_state))
+			network_log(LOG_WARNING, n, "Unable to write state to linestack.");
+
 		nickserv_identify_me(n, n->external_state->me.nick);
 
 		clients_send_state(n->clients, n->external_state);
-- 
2.43.0


From db4b0dbfda81b86b82c8797d62c5d15ba2925ead Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:38:19 +0000
Subject: [PATCH 51/67] fix: replay all lines from the state they were received
 in

---
 src/repl_backends.c | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/repl_backends.c b/src/repl_backends.c
index 3c69940..e3a2364 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -34,6 +34,9 @@ static gboolean check_highlight(struct irc_line *l, time_t t, void *userdata)
 		base_strcmp(l->args[0], "NOTICE") != 0)
 		return TRUE;
 
+	if (l->argc <= 2)
+		return TRUE;
+
 	for (i = 0; matches && matches[i]; i++) {
 		if (strstr(l->args[2], matches[i]) != NULL) {
 			return client_send_line(c, l, NULL);
@@ -75,18 +78,25 @@ static void lastdisconnect_mark(struct irc_client *c, void *userdata)
 							 linestack_get_marker(c->network->linestack));
 }
 
-static void lastdisconnect_replicate(struct irc_client *c)
+/* Bring a client to the state at a marker, and from there to the current
+ * state by sending it all lines since. */
+static void replicate_from(struct irc_client *c, linestack_marker lm)
 {
-	linestack_marker lm = g_hash_table_lookup(lastdisconnect_backlog, c->network);
 	struct irc_network_state *ns;
+	guint64 start = 0;
 
-	if (c->network->linestack == NULL)
-		return;
+	if (lm == NULL)
+		lm = &start;
 
 	ns = linestack_get_state(c->network->linestack, lm);
-	if (ns != NULL) {
-		client_send_state(c, ns);
+	if (ns == NULL) {
+		/* The marker may be from before the last reconnect */
+		if (c->network->external_state)
+			client_send_state(c, c->network->external_state);
+		return;
 	}
+
+	client_send_state(c, ns);
 	free_network_state(ns);
 
 	linestack_send(c->network->linestack, lm, NULL, c, FALSE,
@@ -94,6 +104,14 @@ static void lastdisconnect_replicate(struct irc_client *c)
 				   c->network->global->config->report_time_offset);
 }
 
+static void lastdisconnect_replicate(struct irc_client *c)
+{
+	if (c->network->linestack == NULL)
+		return;
+
+	replicate_from(c, g_hash_table_lookup(lastdisconnect_backlog, c->network));
+}
+
 static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum data_direction dir, void *userdata)
 {
 	if(dir != TO_SERVER) return TRUE;
@@ -110,22 +128,10 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 
 static void simple_replicate(struct irc_client *c)
 {
-	linestack_marker m;
-	struct irc_network_state *ns;
-
 	if (c->network->linestack == NULL)
 		return;
 
-	m = g_hash_table_lookup(simple_backlog, c->network);
-	ns = linestack_get_state(c->network->linestack, m);
-	if (ns) {
-		client_send_state(c, ns);
-	}
-	free_network_state(ns);
-
-	linestack_send(c->network->linestack, m, NULL, c, FALSE,
-				   c->network->global->config->report_time != REPORT_TIME_NEVER,
-				   c->network->global->config->report_time_offset);
+	replicate_from(c, g_hash_table_lookup(simple_backlog, c->network));
 }
 
 static const struct replication_backend backends[] = {
-- 
2.43.0


From 5d965afb2df3157e4a6bf1d893d82d419a35f752 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:38:19 +0000
Subject: [PATCH 52/67] fix: log in once, not for every MOTD requested

---
 src/network.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index d40ba0d..8ffd170 100644
--- a/src/network.c
+++ b/src/network.c
@@ -136,7 +136,8 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 					l->args[2], tmp);
 		network_nick_set_nick(&n->external_state->me, tmp);
 		g_free(tmp);
-	} else if (response == RPL_ENDOFMOTD || response == ERR_NOMOTD) {
+	} else if ((response == RPL_ENDOFMOTD || response == ERR_NOMOTD) &&
+			  n->connection.state == NETWORK_CONNECTION_STATE_LOGIN_SENT) {
 		int i;
 		GList *gl;
 		n->connection.state = NETWORK_CONNECTION_STATE_MOTD_RECVD;
-- 
2.43.0


From 5bd49a6b76b0ffab9a3dcdc67e95e0ed69618f50 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:42:29 +0000
Subject: [PATCH 53/67] fix: keep the time topics were set at when replaying
 lines

---
 libirc/linestack.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 318af4d..7e5f966 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -682,7 +682,13 @@ gboolean linestack_send_object(struct linestack_context *ctx, const char *obj, l
 static gboolean replay_line(struct irc_line *l, time_t t, void *state)
 {
 	struct irc_network_state *st = state;
+	struct irc_channel_state *c;
 	state_handle_data(st, l);
+
+	/* The topic was set when the line was received, rather than now */
+	if (!base_strcmp(l->args[0], "TOPIC") && l->argc > 2 &&
+		(c = find_channel(st, l->args[1])) != NULL)
+		c->topic_set_time = t;
 	return TRUE;
 }
 
@@ -734,7 +740,7 @@ static GIOStatus marshall_set (GIOChannel *t, int level, const char *name, const
 
 static gboolean marshall_get (GIOChannel *t, int level, const char *name, char **value)
 {
-	char *line;
+	char *line, *rest;
 	GIOStatus status;
 	GError *error = NULL;
 	gsize term;
@@ -751,10 +757,16 @@ static gboolean marshall_get (GIOChannel *t, int level, const char *name, char *
 		return FALSE;
 	}
 
-	if (line[level+strlen(name)] == ':') {
-		*value = g_strdup(line+level+strlen(name)+2);
-	} else {
+	rest = line+level+strlen(name);
+
+	if (rest[0] == '\0') {
 		*value = NULL;
+	} else if (rest[0] == ':' && rest[1] == ' ') {
+		*value = g_strdup(rest+2);
+	} else {
+		log_global(LOG_ERROR, "Invalid line `%s' in linestack state", line);
+		g_free(line);
+		return FALSE;
 	}
 
 	g_free(line);
-- 
2.43.0


From cb7ca2a556b91675da77044f2a35b41dc6d1d3da Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:49:51 +0000
Subject: [PATCH 54/67] fix: remember that the case mapping isn't known in the
 linestack

---
 libirc/linestack.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 7e5f966..e60b51b 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -1130,6 +1130,12 @@ static gboolean marshall_network_info(enum marshall_mode m, GIOChannel *t,
 		GError *error = NULL;
 		GIOStatus status;
 		tmp = network_info_string(n->info);
+		if (n->info->casemapping == CASEMAP_UNKNOWN) {
+			/* Not the same as the default that is announced */
+			char *known = tmp;
+			tmp = g_strdup_printf("%s CASEMAPPING", known);
+			g_free(known);
+		}
 		status = marshall_set(t, 0, "info", tmp, &error);
 		g_free(tmp);
 		return status == G_IO_STATUS_NORMAL;
-- 
2.43.0


From fea1a238b506089d252dd93eed8cdb99534e2560 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:57:17 +0000
Subject: [PATCH 55/67] fix: keep pinging servers

---
 libirc/connection.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index 27348a5..73abd5b 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -395,18 +395,22 @@ static gboolean bindsock(struct irc_network *s,
  * Ping the network.
  *
  * @param server network to ping
- * @param ping_source GSource id of the ping event
+ * @return Whether to keep pinging
  */
-static void ping_server(struct irc_network *server, gboolean ping_source)
+static gboolean ping_server(struct irc_network *server)
 {
 	gint silent_time = time(NULL) - server->connection.last_line_recvd;
 	if (silent_time > MAX_SILENT_TIME) {
 		network_report_disconnect(server, "Ping timeout (%d seconds)",
 								  silent_time);
+		/* This removes the event for a connection that was lost */
 		reconnect(server);
+		return FALSE;
 	} else if (silent_time > MIN_SILENT_TIME) {
 		network_send_args(server, "PING", "ctrlproxy", NULL);
 	}
+
+	return TRUE;
 }
 
 static gboolean connect_current_tcp_server(struct irc_network *s)
-- 
2.43.0


From 3e427d29bfdb0cd2a136152dcfaeeb72b92fc367 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:57:17 +0000
Subject: [PATCH 56/67] fix: don't leak sockets and addresses that couldn't be
 connected to

---
 libirc/connection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libirc/connection.c b/libirc/connection.c
index 73abd5b..bb2baf1 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -479,6 +479,7 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 			bindsock(s, sock, res, nc->type_settings.tcp.default_bind_address, NULL);
 
 		ioc = g_io_channel_unix_new(sock);
+		g_io_channel_set_close_on_unref(ioc, TRUE);
 		g_io_channel_set_flags(ioc, G_IO_FLAG_NONBLOCK, NULL);
 
 		if (connect(sock, res->ai_addr, res->ai_addrlen) < 0) {
@@ -500,6 +501,7 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 
 	if (!res || !ioc) {
 		network_log(LOG_ERROR, s, "Unable to connect: %s", strerror(errno));
+		freeaddrinfo(addrinfo);
 		return FALSE;
 	}
 
-- 
2.43.0


From 2e213e3eae7e1a022222f6e58380415aae1149e3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:57:17 +0000
Subject: [PATCH 57/67] fix: don't connect twice to a network that is waiting
 to reconnect

---
 libirc/connection.c | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index bb2baf1..c4774ba 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -549,6 +549,16 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 	return TRUE;
 }
 
+static void schedule_reconnect(struct irc_network *server)
+{
+	server->connection.state = NETWORK_CONNECTION_STATE_RECONNECT_PENDING;
+	network_log(LOG_INFO, server, "Reconnecting in %d seconds",
+				server->reconnect_interval);
+	server->reconnect_id = g_timeout_add(1000 *
+							server->reconnect_interval,
+							(GSourceFunc) delayed_connect_server, server);
+}
+
 static void reconnect(struct irc_network *server)
 {
 	struct network_config *nc = server->private_data;
@@ -566,12 +576,7 @@ static void reconnect(struct irc_network *server)
 	if (nc->type == NETWORK_TCP ||
 		nc->type == NETWORK_IOCHANNEL ||
 		nc->type == NETWORK_PROGRAM) {
-		server->connection.state = NETWORK_CONNECTION_STATE_RECONNECT_PENDING;
-		network_log(LOG_INFO, server, "Reconnecting in %d seconds",
-					server->reconnect_interval);
-		server->reconnect_id = g_timeout_add(1000 *
-								server->reconnect_interval,
-								(GSourceFunc) delayed_connect_server, server);
+		schedule_reconnect(server);
 	} else {
 		connect_server(server);
 	}
@@ -881,11 +886,28 @@ struct irc_network *irc_network_new(const struct irc_network_callbacks *callback
  */
 gboolean connect_network(struct irc_network *s)
 {
+	gboolean pending, ret;
+
 	g_assert(s);
 	g_assert(s->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED ||
 			 s->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING);
 
-	return connect_server(s);
+	/* Don't connect again later */
+	pending = (s->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING);
+	if (pending) {
+		g_source_remove(s->reconnect_id);
+		s->reconnect_id = 0;
+		s->connection.state = NETWORK_CONNECTION_STATE_NOT_CONNECTED;
+	}
+
+	ret = connect_server(s);
+
+	/* .. unless this didn't work */
+	if (!ret && pending &&
+		s->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED)
+		schedule_reconnect(s);
+
+	return ret;
 }
 
 static void free_network(struct irc_network *s)
-- 
2.43.0


From a98db7c2b43aed20a3080f40d5e39324d472fcd9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:00:04 +0000
Subject: [PATCH 58/67] fix: don't send (null)_ or nothing at all while logging
 in

---
 src/network.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/network.c b/src/network.c
index 8ffd170..c619aca 100644
--- a/src/network.c
+++ b/src/network.c
@@ -130,10 +130,11 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 		network_log(LOG_ERROR, n, "error: %s", l->args[1]);
 	} else if (response == ERR_NICKNAMEINUSE &&
 			  n->connection.state == NETWORK_CONNECTION_STATE_LOGIN_SENT){
-		char *tmp = g_strdup_printf("%s_", l->args[2]);
+		const char *nick = l->argc > 2?l->args[2]:n->external_state->me.nick;
+		char *tmp = g_strdup_printf("%s_", nick);
 		network_send_args(n, "NICK", tmp, NULL);
 		network_log(LOG_WARNING, n, "%s was already in use, trying %s",
-					l->args[2], tmp);
+					nick, tmp);
 		network_nick_set_nick(&n->external_state->me, tmp);
 		g_free(tmp);
 	} else if ((response == RPL_ENDOFMOTD || response == ERR_NOMOTD) &&
@@ -166,7 +167,8 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 		for (i = 0; nc->autocmd && nc->autocmd[i]; i++) {
 			struct irc_line *l = irc_parse_line(nc->autocmd[i]);
-			network_send_line(n, NULL, l);
+			if (l != NULL && l->argc > 0)
+				network_send_line(n, NULL, l);
 			free_line(l);
 		}
 
-- 
2.43.0


From 2fe6050b84624f3471cd4c2e5f4a7d8a44234093 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:00:04 +0000
Subject: [PATCH 59/67] fix: log in when no linestack can be created

---
 libirc/connection.c |  3 ++-
 src/repl_backends.c | 11 +++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index c4774ba..ce94a57 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -53,7 +53,8 @@ static void server_send_login (struct irc_network *s)
 	network_state_set_log_fn(s->external_state, state_log_helper, s);
 	if (s->callbacks->state_set)
 		s->callbacks->state_set(s);
-	g_assert(s->linestack != NULL);
+	if (s->linestack == NULL)
+		network_log(LOG_WARNING, s, "No linestack, not keeping backlog");
 
 	if (login_details->password != NULL) {
 		network_send_args(s, "PASS", login_details->password, NULL);
diff --git a/src/repl_backends.c b/src/repl_backends.c
index e3a2364..be7dcf2 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -85,6 +85,11 @@ static void replicate_from(struct irc_client *c, linestack_marker lm)
 	struct irc_network_state *ns;
 	guint64 start = 0;
 
+	if (c->network->linestack == NULL) {
+		none_replicate(c);
+		return;
+	}
+
 	if (lm == NULL)
 		lm = &start;
 
@@ -106,9 +111,6 @@ static void replicate_from(struct irc_client *c, linestack_marker lm)
 
 static void lastdisconnect_replicate(struct irc_client *c)
 {
-	if (c->network->linestack == NULL)
-		return;
-
 	replicate_from(c, g_hash_table_lookup(lastdisconnect_backlog, c->network));
 }
 
@@ -128,9 +130,6 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 
 static void simple_replicate(struct irc_client *c)
 {
-	if (c->network->linestack == NULL)
-		return;
-
 	replicate_from(c, g_hash_table_lookup(simple_backlog, c->network));
 }
 
-- 
2.43.0


From 8aa1c3d64d144534533c245c68dd70e6f4c0fd61 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:00:04 +0000
Subject: [PATCH 60/67] fix: try again when no SSL connection can be set up

---
 libirc/connection.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index ce94a57..358d3d6 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -31,6 +31,7 @@ static gboolean delayed_connect_server(struct irc_network *s);
 static gboolean connect_server(struct irc_network *s);
 static gboolean close_server(struct irc_network *s);
 static void reconnect(struct irc_network *server);
+static void free_tcp_names(struct irc_network *n);
 static gboolean server_finish_connect(GIOChannel *ioc, GIOCondition cond,
 				      void *data);
 
@@ -419,7 +420,7 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 	struct addrinfo *res;
 	int sock = -1;
 	struct tcp_server_config *cs;
-	GIOChannel *ioc = NULL;
+	GIOChannel *ioc = NULL, *sock_ioc;
 	struct addrinfo hints;
 	struct addrinfo *addrinfo = NULL;
 	int error;
@@ -521,13 +522,18 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 		g_io_channel_set_close_on_unref(ioc, TRUE);
 		g_io_channel_set_flags(ioc, G_IO_FLAG_NONBLOCK, NULL);
 
+		sock_ioc = ioc;
 		ioc = ssl_wrap_iochannel (ioc, SSL_TYPE_CLIENT,
 								 s->connection.data.tcp.current_server->host,
 								 s->ssl_credentials
 								 );
 		if (!ioc) {
 			network_report_disconnect(s, "Couldn't connect via server %s:%s", cs->host, cs->port);
-			reconnect(s);
+			g_io_channel_unref(sock_ioc);
+			free_tcp_names(s);
+			/* Unless there already is another attempt scheduled */
+			if (s->connection.state != NETWORK_CONNECTION_STATE_RECONNECT_PENDING)
+				reconnect(s);
 			return FALSE;
 		}
 #else
-- 
2.43.0


From 6ab13539e9f401a46618af1ad2a9915c10ae9d05 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:54:20 +0000
Subject: [PATCH 61/67] fix: load the key of each channel from the keys file,
 rather than the nick and password of the network

---
 src/settings.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 86641bd..0ac26a4 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -658,11 +658,11 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 	for (gl = channel_keys; gl; gl = gl->next) {
 		struct keyfile_entry *ke = gl->data;
 
-		if (!strcasecmp(ke->network, n->name)) {
-			struct channel_config *cc = config_find_add_channel(n, n->nick);
+		if (ke->network == NULL || !strcasecmp(ke->network, n->name)) {
+			struct channel_config *cc = config_find_add_channel(n, ke->nick);
 
 			g_free(cc->key);
-			cc->key = g_strdup(n->password);
+			cc->key = g_strdup(ke->pass);
 		}
 	}
 
-- 
2.43.0


From 613fae2718fca5dea53d67dd8be04a4b91e5e272 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:54:20 +0000
Subject: [PATCH 62/67] fix: save channel keys in the directory the
 configuration is saved to, and don't keep keys that were removed

---
 src/settings.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 0ac26a4..ea7ecd5 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -353,6 +353,7 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 static void config_save_networks(struct ctrlproxy_config *cfg, const char *config_dir, GList *networks)
 {
 	char *networksdir = g_build_filename(config_dir, "networks", NULL);
+	char *filename;
 	GList *gl;
 	GList *channel_keys = NULL;
 
@@ -372,19 +373,15 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 
 	config_cleanup_networks_dir(cfg);
 
+	filename = g_build_filename(config_dir, "keys", NULL);
 	if (channel_keys != NULL) {
-		char *filename = g_build_filename(cfg->config_dir, "keys",
-									  NULL);
 		keyfile_write_file(channel_keys, CHANNEL_KEY_FILE_HEADER, filename);
-		g_free(filename);
-
-		while (channel_keys) {
-			g_free(channel_keys->data);
-			channel_keys = channel_keys->next;
-		}
-
+		g_list_foreach(channel_keys, (GFunc)g_free, NULL);
 		g_list_free(channel_keys);
+	} else {
+		g_unlink(filename);
 	}
+	g_free(filename);
 
 	g_free(networksdir);
 }
-- 
2.43.0


From 18937723c984ced60876ede57e6e164a228071b3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:54:20 +0000
Subject: [PATCH 63/67] fix: don't connect to networks at startup that are no
 longer marked for it

---
 src/settings.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/settings.c b/src/settings.c
index ea7ecd5..22a7f47 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -495,6 +495,8 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 
 	if (i > 0)
 		g_key_file_set_string_list(cfg->keyfile, "global", "autoconnect", (const gchar **)list, i);
+	else
+		g_key_file_remove_key(cfg->keyfile, "global", "autoconnect", NULL);
 
 	g_free(list);
 
-- 
2.43.0


From a0f4edc9388055e297b2ff09cb00eeb09028f131 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:54:20 +0000
Subject: [PATCH 64/67] fix: replace all of the old contents of key files, and
 write all of the new

---
 src/keyfile.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/keyfile.c b/src/keyfile.c
index 22a67e3..b5e403f 100644
--- a/src/keyfile.c
+++ b/src/keyfile.c
@@ -84,20 +84,39 @@ gboolean keyfile_read_file(const char *filename, char commentchar, GList **nicks
 	return TRUE;
 }
 
+static gboolean write_all(int fd, const char *data)
+{
+	size_t left = strlen(data);
+
+	while (left > 0) {
+		ssize_t n = write(fd, data, left);
+
+		if (n < 0) {
+			if (errno == EINTR)
+				continue;
+			return FALSE;
+		}
+		data += n;
+		left -= n;
+	}
+
+	return TRUE;
+}
+
 gboolean keyfile_write_file(GList *nicks, const char *header,
 							const char *filename)
 {
 	GList *gl;
 	int fd;
 
-	fd = open(filename, O_WRONLY | O_CREAT, 0600);
+	fd = open(filename, O_WRONLY | O_CREAT | O_TRUNC, 0600);
 
 	if (fd == -1) {
 		log_global(LOG_WARNING, "Unable to write nickserv file `%s': %s", filename, strerror(errno));
 		return FALSE;
 	}
 
-	if (write(fd, header, strlen(header)) < 0) {
+	if (!write_all(fd, header)) {
 		log_global(LOG_WARNING, "error writing file header: %s", strerror(errno));
 		close(fd);
 		return FALSE;
@@ -108,7 +127,7 @@ gboolean keyfile_write_file(GList *nicks, const char *header,
 		char *line;
 
 		line = g_strdup_printf("%s\t%s\t%s\n", n->nick, n->pass, n->network?n->network:"*");
-		if (write(fd, line, strlen(line)) < 0) {
+		if (!write_all(fd, line)) {
 			log_global(LOG_WARNING, "error writing line `%s': %s", line, strerror(errno));
 			g_free(line);
 			close(fd);
-- 
2.43.0


From d21d1111cb712c160112693a5cf72b254dea9ebb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:54:20 +0000
Subject: [PATCH 65/67] fix: don't crash on messages to NickServ without text

---
 src/nickserv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nickserv.c b/src/nickserv.c
index b335e47..eebb3c5 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -125,7 +125,7 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 	static char *nickattempt = NULL;
 
 	/* User has changed his/her nick. Check whether this nick needs to be identified */
-	if (dir == FROM_SERVER && !irccmp(n->info, l->args[0], "NICK") &&
+	if (dir == FROM_SERVER && l->argc > 1 && !irccmp(n->info, l->args[0], "NICK") &&
 	   nickattempt && !irccmp(n->info, nickattempt, l->args[1])) {
 		nickserv_identify_me(n, l->args[1]);
 	}
@@ -138,21 +138,21 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 		nickattempt = g_strdup(l->args[1]);
 	}
 
-	if (dir == TO_SERVER &&
+	if (dir == TO_SERVER && l->argc > 2 &&
 		(!irccmp(n->info, l->args[0], "PRIVMSG") || !irccmp(n->info, l->args[0], "NOTICE")) &&
 		(!irccmp(n->info, l->args[1], nickserv_nick(n)) &&
 		 !ircncmp(n->info, l->args[2], "IDENTIFY ", strlen("IDENTIFY ")))) {
 			cache_nickserv_pass(n, l->args[2] + strlen("IDENTIFY "));
 	}
 
-	if (dir == TO_SERVER &&
+	if (dir == TO_SERVER && l->argc > 2 &&
 		!irccmp(n->info, l->args[0], "NS") &&
 		!irccmp(n->info, l->args[1], "IDENTIFY")) {
 		cache_nickserv_pass(n, l->args[2]);
 	}
 
 	/* If we receive a nick-already-in-use message, ghost the current user */
-	if (dir == FROM_SERVER && atol(l->args[0]) == ERR_NICKNAMEINUSE) {
+	if (dir == FROM_SERVER && nickattempt && atol(l->args[0]) == ERR_NICKNAMEINUSE) {
 		const char *pass = nickserv_find_nick(n, nickattempt);
 		if (nickattempt && pass) {
 			const char *nickserv_n = nickserv_nick(n);
-- 
2.43.0


From df3d45dbc487384caa87663f808e39eb38567131 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:54:37 +0000
Subject: [PATCH 66/67] fix: use the NickServ password that was learned for a
 network rather than one for any network

---
 src/nickserv.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/nickserv.c b/src/nickserv.c
index eebb3c5..ea04356 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -35,6 +35,7 @@
 
 const char *nickserv_find_nick(struct irc_network *n, const char *nick)
 {
+	const char *pass = NULL;
 	GList *gl;
 	for (gl = n->global->nickserv_nicks; gl; gl = gl->next) {
 		struct keyfile_entry *e = gl->data;
@@ -43,15 +44,16 @@ const char *nickserv_find_nick(struct irc_network *n, const char *nick)
 			continue;
 		}
 
-		if (e->network == NULL) {
+		/* Passwords for this network in particular come first */
+		if (e->network != NULL && !strcasecmp(e->network, n->name)) {
 			return e->pass;
 		}
-		if (!strcasecmp(e->network, n->name)) {
-			return e->pass;
+		if (e->network == NULL && pass == NULL) {
+			pass = e->pass;
 		}
 	}
 
-	return NULL;
+	return pass;
 }
 
 const char *nickserv_nick(struct irc_network *n)
@@ -87,22 +89,23 @@ void nickserv_identify_me(struct irc_network *network, char *nick)
 static void cache_nickserv_pass(struct irc_network *n, const char *newpass)
 {
 	struct keyfile_entry *e = NULL;
+	const char *pass;
 	GList *gl;
 
 	if (!n->global->config->learn_nickserv) {
 		return;
 	}
 
+	pass = nickserv_find_nick(n, n->external_state->me.nick);
+	if (pass != NULL && !strcmp(pass, newpass)) {
+		return;
+	}
+
 	for (gl = n->global->nickserv_nicks; gl; gl = gl->next) {
 		e = gl->data;
 
 		if (e->network && !strcasecmp(e->network, n->name) &&
-			!strcasecmp(e->nick, n->external_state->me.nick)) {
-			break;
-		}
-
-		if (!e->network && !irccmp(n->external_state->info, e->nick, n->external_state->me.nick) &&
-			!strcmp(e->pass, newpass)) {
+			!irccmp(n->info, e->nick, n->external_state->me.nick)) {
 			break;
 		}
 	}
@@ -114,10 +117,9 @@ static void cache_nickserv_pass(struct irc_network *n, const char *newpass)
 		n->global->nickserv_nicks = g_list_prepend(n->global->nickserv_nicks, e);
 	}
 
-	if (e->pass == NULL || strcmp(e->pass, newpass) != 0) {
-		e->pass = g_strdup(newpass);
-		network_log(LOG_INFO, n, "Caching NickServ password for nick %s", e->nick);
-	}
+	g_free(e->pass);
+	e->pass = g_strdup(newpass);
+	network_log(LOG_INFO, n, "Caching NickServ password for nick %s", e->nick);
 }
 
 static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum data_direction dir, void *userdata)
-- 
2.43.0


From 8ea9a813b917c7fc7d5e19eb332b8faff1d29693 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:01:19 +0000
Subject: [PATCH 67/67] fix: read key files with keys that aren't in UTF-8

---
 src/keyfile.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keyfile.c b/src/keyfile.c
index b5e403f..a4a4524 100644
--- a/src/keyfile.c
+++ b/src/keyfile.c
@@ -42,6 +42,9 @@ gboolean keyfile_read_file(const char *filename, char commentchar, GList **nicks
 		return FALSE;
 	}
 
+	/* Passwords and keys can be in any encoding */
+	g_io_channel_set_encoding(gio, NULL, NULL);
+
 	while (G_IO_STATUS_NORMAL == g_io_channel_read_line(gio, &ret, &nr, &term, NULL))
 	{
 		char **parts;
-- 
2.43.0

