From 663722b231eaa8bbe35a38ac7bbe7f6012c908ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 001/130] fix: TOPIC for a channel the user is not on crashed
 the proxy

---
 libirc/state.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libirc/state.c b/libirc/state.c
index e5088be..9a96f59 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -611,6 +611,12 @@ static void handle_topic(struct irc_network_state *s, const struct irc_line *l)
 
 	CHECK_ORIGIN(s, l, "TOPIC");
 
+	if (c == NULL) {
+		network_state_log(LOG_WARNING, s,
+					"Can't set topic for unknown channel '%s'!", l->args[1]);
+		return;
+	}
+
 	if (c->topic != NULL) {
 		g_free(c->topic);
 	}
-- 
2.43.0


From 4c93a65b79fa07f6b72aa7e69f1fe3e6a5d6a207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 002/130] fix: RPL_NOTOPIC looked up the channel under the
 user's nick

---
 libirc/state.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 9a96f59..75aca2e 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -659,7 +659,7 @@ static void handle_333(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_no_topic(struct irc_network_state *s, const struct irc_line *l)
 {
-	struct irc_channel_state *c = find_channel(s, l->args[1]);
+	struct irc_channel_state *c = find_channel(s, l->args[2]);
 
 	if (c == NULL) {
 		network_state_log(LOG_WARNING, s,
@@ -1194,7 +1194,7 @@ static struct irc_command {
 	{ "329", 3, handle_329 },
 	{ "332", 3, handle_332 },
 	{ "333", 3, handle_333 },
-	{ "331", 1, handle_no_topic },
+	{ "331", 2, handle_no_topic },
 	{ "353", 4, handle_namreply },
 	{ "366", 2, handle_end_names },
 	{ "367", 2, handle_banlist_entry },
-- 
2.43.0


From 232ce0f7aa8b25b21cd18abd22d82b80f705605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 003/130] fix: truncated 333, 346, 348 and 367 replies crashed
 the proxy

---
 libirc/state.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 75aca2e..9a83c40 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -654,6 +654,7 @@ static void handle_333(struct irc_network_state *s, const struct irc_line *l)
 	}
 
 	c->topic_set_time = strtol(l->args[4], NULL, 0);
+	g_free(c->topic_set_by);
 	c->topic_set_by = g_strdup(l->args[3]);
 }
 
@@ -1193,15 +1194,15 @@ static struct irc_command {
 	{ "324", 3, handle_324 },
 	{ "329", 3, handle_329 },
 	{ "332", 3, handle_332 },
-	{ "333", 3, handle_333 },
+	{ "333", 4, handle_333 },
 	{ "331", 2, handle_no_topic },
 	{ "353", 4, handle_namreply },
 	{ "366", 2, handle_end_names },
-	{ "367", 2, handle_banlist_entry },
+	{ "367", 3, handle_banlist_entry },
 	{ "368", 2, handle_end_banlist },
-	{ "346", 2, handle_invitelist_entry },
+	{ "346", 3, handle_invitelist_entry },
 	{ "347", 2, handle_end_invitelist },
-	{ "348", 2, handle_exceptlist_entry },
+	{ "348", 3, handle_exceptlist_entry },
 	{ "349", 2, handle_end_exceptlist },
 	{ "352", 8, handle_whoreply },
 	{ "315", 1, handle_end_who },
-- 
2.43.0


From 04049788f90ae5209548a7bb7862f2ca89493d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 004/130] fix: unsetting a channel key shifted the arguments of
 the remaining modes

---
 libirc/state.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libirc/state.c b/libirc/state.c
index 9a83c40..1638009 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -948,13 +948,17 @@ static int channel_state_change_mode(struct irc_network_state *s, struct network
 
 			g_free(channel_mode_option(c, mode));
 			channel_mode_option(c, mode) = g_strdup(opt_arg);
+			modes_change_mode(c->modes, TRUE, mode);
 
 			return 1;
 		} else {
 			g_free(channel_mode_option(c, mode));
 			channel_mode_option(c, mode) = NULL;
+			modes_change_mode(c->modes, FALSE, mode);
 
-			return 0;
+			/* Settings always take an argument, optional settings only
+			 * when they are being set. */
+			return (cmt == CHANMODE_SETTING)?1:0;
 		}
 	} else if (is_prefix_mode(info, mode)) {
 		struct channel_nick *n;
-- 
2.43.0


From dc809e3c6b0e0abc10cb50bd20b9edea36aa1c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 005/130] fix: a channel MODE without origin aborted the proxy

---
 libirc/state.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 1638009..4580886 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1011,9 +1011,13 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 			return;
 		}
 
-		by_name = line_get_nick(l);
-		by = find_network_nick(s, by_name);
-		g_free(by_name);
+		if (l->origin != NULL) {
+			by_name = line_get_nick(l);
+			by = find_network_nick(s, by_name);
+			g_free(by_name);
+		} else {
+			by = NULL;
+		}
 
 		for(i = 0; l->args[2][i]; i++) {
 			switch(l->args[2][i]) {
-- 
2.43.0


From 15d4de4572974378d151605ccf49e0740d567e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 006/130] fix: the nick assigned in the welcome message did not
 reach the own hostmask

---
 libirc/state.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 4580886..a002114 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1065,8 +1065,7 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_001(struct irc_network_state *s, const struct irc_line *l)
 {
-	g_free(s->me.nick);
-	s->me.nick = g_strdup(l->args[1]);
+	network_nick_set_nick(&s->me, l->args[1]);
 }
 
 static void handle_004(struct irc_network_state *s, const struct irc_line *l)
-- 
2.43.0


From e51cf6fdec8cb58e3562281f469de48719a62430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 007/130] fix: RPL_UMODEIS cleared the user modes instead of
 setting them

---
 libirc/state.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index a002114..40ce339 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1113,9 +1113,9 @@ static void handle_nick(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_umodeis(struct irc_network_state *s, const struct irc_line *l)
 {
-	if (!string2mode(l->args[1], s->me.modes)) {
+	if (!string2mode(l->args[2], s->me.modes)) {
 		network_state_log(LOG_WARNING, s,
-						  "Invalid MODE change %s for user", l->args[1]);
+						  "Invalid MODE change %s for user", l->args[2]);
 	}
 }
 
@@ -1196,7 +1196,7 @@ static struct irc_command {
 	{ "001", 1, handle_001 },
 	{ "004", 5, handle_004 },
 	{ "005", 3, handle_005 },
-	{ "221", 1, handle_umodeis },
+	{ "221", 2, handle_umodeis },
 	{ "302", 2, handle_302 },
 	{ "324", 3, handle_324 },
 	{ "329", 3, handle_329 },
-- 
2.43.0


From 65d4fa58e04689d658a19c4c46366b75625e71bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 008/130] fix: an incomplete hostmask left a nick without a
 name and crashed the proxy

---
 libirc/state.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 40ce339..af74663 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -124,20 +124,21 @@ gboolean network_nick_set_hostmask(struct network_nick *n, const char *hm)
 	if (n->hostmask && !strcmp(n->hostmask, hm))
 		return TRUE;
 
-	g_free(n->hostmask);
-	g_free(n->nick); n->nick = NULL;
-	g_free(n->username); n->username = NULL;
-	g_free(n->hostname); n->hostname = NULL;
-	n->hostmask = g_strdup(hm);
-
 	t = strchr(hm, '!');
 	if (!t)
 		return FALSE;
-	n->nick = g_strndup(hm, t-hm);
 
 	u = strchr(t, '@');
 	if (!u)
 		return FALSE;
+
+	g_free(n->hostmask);
+	g_free(n->nick); n->nick = NULL;
+	g_free(n->username); n->username = NULL;
+	g_free(n->hostname); n->hostname = NULL;
+	n->hostmask = g_strdup(hm);
+
+	n->nick = g_strndup(hm, t-hm);
 	n->username = g_strndup(t+1, u-t-1);
 
 	n->hostname = g_strdup(u+1);
-- 
2.43.0


From 14ec01c0301790af1e7f559b72cbf43d6d846d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 009/130] fix: JOIN of others for channels the user is not on,
 and odd nicks, upset the state

---
 libirc/state.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/libirc/state.c b/libirc/state.c
index af74663..f734127 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -398,7 +398,6 @@ struct network_nick *find_add_network_nick(struct irc_network_state *n,
 	/* create one, if it doesn't exist */
 	nd = g_new0(struct network_nick,1);
 	g_assert(nd != NULL);
-	g_assert(!is_prefix(name[0], n->info));
 	nd->nick = g_strdup(name);
 	nd->hops = -1;
 
@@ -463,6 +462,12 @@ static void handle_join(struct irc_network_state *s, const struct irc_line *l)
 
 	g_assert(nick != NULL);
 
+	if (nick[0] == '\0' || (is_prefix(nick[0], s->info) && nick[1] == '\0')) {
+		network_state_log(LOG_WARNING, s, "Received JOIN line without nick");
+		g_free(nick);
+		return;
+	}
+
 	channels = g_strsplit(l->args[1], ",", 0);
 	if (channels == NULL) {
 		network_state_log(LOG_ERROR, s, "Unable to split channel list (%s)",
@@ -471,6 +476,14 @@ static void handle_join(struct irc_network_state *s, const struct irc_line *l)
 	}
 
 	for (i = 0; channels[i]; i++) {
+		/* Only the user itself can join a channel that isn't known yet */
+		if (irccmp(s->info, nick, s->me.nick) != 0 &&
+			find_channel(s, channels[i]) == NULL) {
+			network_state_log(LOG_WARNING, s,
+					"%s joins unknown channel %s", nick, channels[i]);
+			continue;
+		}
+
 		/* Someone is joining a channel the user is on */
 		c = find_add_channel(s, channels[i]);
 		g_assert(s->channels != NULL);
-- 
2.43.0


From 9895c03b4512f6aea442f6de702bb3787aa26d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 010/130] fix: USERHOST replies: operator mark, empty entries
 and trailing blanks

---
 libirc/state.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index f734127..d33a4af 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1167,7 +1167,7 @@ static void handle_329(struct irc_network_state *s, const struct irc_line *l)
 static void handle_302(struct irc_network_state *s, const struct irc_line *l)
 {
 	int i;
-	gchar **users = g_strsplit(g_strstrip(l->args[2]), " ", 0);
+	gchar **users = g_strsplit(l->args[2], " ", 0);
 	if (users == NULL) {
 		network_state_log(LOG_ERROR, s, "Unable to split user list (%s)",
 						  l->args[2]);
@@ -1177,10 +1177,12 @@ static void handle_302(struct irc_network_state *s, const struct irc_line *l)
 	for (i = 0; users[i]; i++) {
 		/* We got a USERHOST response, split it into nick and user@host, and check the nick */
 		gchar** tmp302 = g_strsplit(users[i], "=", 2);
-		if (g_strv_length(tmp302) > 1) {
+		if (g_strv_length(tmp302) > 1 && tmp302[1][0] != '\0') {
 			char *hm;
 			struct network_nick *nn;
-			/* FIXME: Strip *'s from the end of tmp302[0]*/
+			/* Operators are marked with a trailing asterisk */
+			if (g_str_has_suffix(tmp302[0], "*"))
+				tmp302[0][strlen(tmp302[0])-1] = '\0';
 			nn = find_add_network_nick(s, tmp302[0]);
 			hm = g_strdup_printf("%s!%s", tmp302[0], tmp302[1]+1);
 			network_nick_set_hostmask(nn, hm);
-- 
2.43.0


From 94117c0ef5a2967db5160cb6a5d32dc8df5f2412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 011/130] fix: the parameters of channel modes were neither
 kept nor told to clients

---
 libirc/client.c |  4 +++-
 libirc/state.c  | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/libirc/client.c b/libirc/client.c
index 78d2c86..cb47eea 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -842,7 +842,9 @@ gboolean client_send_channel_mode(struct irc_client *c, struct irc_channel_state
 		l->args[2] = g_strdup(ch->name);
 		l->args[3] = mode;
 		for (i = 0; mode[i]; i++) {
-			if (network_chanmode_type(mode[i], c->state->info) == CHANMODE_OPT_SETTING &&
+			enum chanmode_type cmt = network_chanmode_type(mode[i], ch->network->info);
+
+			if ((cmt == CHANMODE_OPT_SETTING || cmt == CHANMODE_SETTING) &&
 				channel_mode_option(ch, mode[i])) {
 				l->args[4+j] = g_strdup(channel_mode_option(ch, mode[i]));
 				j++;
diff --git a/libirc/state.c b/libirc/state.c
index d33a4af..ebf32f6 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1136,6 +1136,8 @@ static void handle_umodeis(struct irc_network_state *s, const struct irc_line *l
 static void handle_324(struct irc_network_state *s, const struct irc_line *l)
 {
 	struct irc_channel_state *ch = find_channel(s, l->args[2]);
+	int i, arg = 4;
+	const char *m;
 
 	if (ch == NULL) {
 		network_state_log(LOG_WARNING, s,
@@ -1148,6 +1150,23 @@ static void handle_324(struct irc_network_state *s, const struct irc_line *l)
 						  "Invalid MODE change %s for channel %s", l->args[3], l->args[2]);
 	}
 
+	/* The reply replaces everything known about the modes, including
+	 * their parameters. */
+	for (i = 0; i < MAXMODES; i++) {
+		g_free(ch->chanmode_option[i]);
+		ch->chanmode_option[i] = NULL;
+	}
+
+	for (m = l->args[3]; *m; m++) {
+		enum chanmode_type cmt = network_chanmode_type(*m, s->info);
+
+		if ((cmt == CHANMODE_OPT_SETTING || cmt == CHANMODE_SETTING) &&
+			channel_mode_option(ch, *m) == NULL && l->args[arg] != NULL) {
+			channel_mode_option(ch, *m) = g_strdup(l->args[arg]);
+			arg++;
+		}
+	}
+
 	ch->mode_received = TRUE;
 }
 
-- 
2.43.0


From 3e1102509e22b18099129eb8034a6fc52ae5feb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 012/130] fix: rewriting truncated lookup replies read beyond
 their arguments

---
 src/client.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/client.c b/src/client.c
index 3f7d920..a92b1c5 100644
--- a/src/client.c
+++ b/src/client.c
@@ -368,17 +368,21 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 	}
 	switch (irc_line_respcode(l)) {
 		case RPL_USERHOST:
-		if (strstr(l->args[2], old->hostname)) {
+		if (l->argc > 2 && strstr(l->args[2], old->hostname)) {
 			int i;
-			gchar **users = g_strsplit(g_strstrip(l->args[2]), " ", 0);
+			gchar **users = g_strsplit(l->args[2], " ", 0);
 			for (i = 0; users[i]; i++) {
 				gchar** tmp302 = g_strsplit(users[i], "=", 2);
-				if (g_strv_length(tmp302) > 1) {
-					/* FIXME: strip *'s from the end of tmp302[0] */
+				if (g_strv_length(tmp302) > 1 && tmp302[1][0] != '\0') {
+					gboolean is_oper = g_str_has_suffix(tmp302[0], "*");
+
+					if (is_oper)
+						tmp302[0][strlen(tmp302[0])-1] = '\0';
+
 					if (!irccmp(info, tmp302[0], old->nick)) {
 						g_free(users[i]);
-						users[i] = g_strdup_printf("%s=%c%s@%s",
-								tmp302[0], tmp302[1][0],
+						users[i] = g_strdup_printf("%s%s=%c%s@%s",
+								tmp302[0], is_oper?"*":"", tmp302[1][0],
 								new->username, new->hostname);
 					}
 				}
@@ -392,7 +396,7 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 		}
 		break;
 		case RPL_WHOREPLY:
-		if (l->argc >= 6) {
+		if (l->argc > 6) {
 			if (!irccmp(info, l->args[6], old->nick)) {
 				ret = linedup(l);
 				g_free(ret->args[4]);
@@ -405,7 +409,7 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 		break;
 		case RPL_WHOISUSER:
 		case RPL_WHOWASUSER:
-		if (l->argc >= 4) {
+		if (l->argc > 4) {
 			if (!irccmp(info, l->args[2], old->nick)) {
 				ret = linedup(l);
 				g_free(ret->args[4]);
-- 
2.43.0


From e1fb62ad0a43f45e06b6c5684f62edb87e5bd177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 013/130] fix: replies redirected to one client showed the
 server's identity of the user

---
 src/client.c    | 2 +-
 src/internals.h | 1 +
 src/redirect.c  | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client.c b/src/client.c
index a92b1c5..9f95938 100644
--- a/src/client.c
+++ b/src/client.c
@@ -427,7 +427,7 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
  * Forward a server line to a client.
  * This will optionally make sure the local hostmask is sent.
  */
-static gboolean client_forward_from_server(struct irc_client *c, const struct irc_line *l)
+gboolean client_forward_from_server(struct irc_client *c, const struct irc_line *l)
 {
 	struct irc_line *nl;
 	gboolean ret;
diff --git a/src/internals.h b/src/internals.h
index 1da1693..f40b329 100644
--- a/src/internals.h
+++ b/src/internals.h
@@ -108,6 +108,7 @@ G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT struct irc_line *irc_line_replace_host
 										   const struct network_nick *,
 										   const struct network_nick *);
 
+G_MODULE_EXPORT gboolean client_forward_from_server(struct irc_client *c, const struct irc_line *l);
 G_MODULE_EXPORT void clients_send(GList *clients, const struct irc_line *, const struct irc_client *exception);
 G_MODULE_EXPORT void clients_send_args_ex(GList *clients, const char *hostmask, ...);
 
diff --git a/src/redirect.c b/src/redirect.c
index 7a05cb4..d63cdf3 100644
--- a/src/redirect.c
+++ b/src/redirect.c
@@ -90,7 +90,7 @@ gboolean redirect_response(struct query_stack *stack,
 
 	c = (struct irc_client *)query_stack_match_response(stack, l);
 	if (c != NULL) {
-		client_send_line(c, l, NULL);
+		client_forward_from_server(c, l);
 		return TRUE;
 	}
 
-- 
2.43.0


From 965b3829f350582aef22f0c2f4d46411a18400eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 014/130] fix: ADMIN, LUSERS and TRACE queries stayed
 outstanding after their final reply

---
 libirc/redirect.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index 929ae2f..1ca4571 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -137,8 +137,8 @@ static struct query queries[] = {
 		{ RPL_TRACELINK, RPL_TRACECONNECTING,
 		  RPL_TRACEUNKNOWN, RPL_TRACEUSER, RPL_TRACECLASS,
 		  RPL_TRACEHANDSHAKE, RPL_TRACEOPERATOR,
-		  RPL_TRACESERVER, RPL_TRACENEWTYPE, 0 },
-		{ RPL_TRYAGAIN, 0 },
+		  RPL_TRACESERVER, RPL_TRACENEWTYPE, RPL_TRACELOG, 0 },
+		{ RPL_TRACEEND, RPL_TRYAGAIN, 0 },
 		{ ERR_NOSUCHSERVER, 0 },
 		handle_default
 	},
@@ -337,8 +337,8 @@ static struct query queries[] = {
  /* LUSERS [ <mask> [ <target> ] ] */
 	{ "LUSERS",
 		{ RPL_LUSERCLIENT, RPL_LUSEROP, RPL_LUSERUNKNOWN, RPL_LUSERCHANNELS,
-			RPL_LUSERME, RPL_STATSTLINE, 0 },
-		{ RPL_TRYAGAIN, 0 },
+			RPL_STATSTLINE, 0 },
+		{ RPL_LUSERME, RPL_TRYAGAIN, 0 },
 		{ ERR_NOSUCHSERVER, 0 },
 		handle_default
 	},
@@ -353,9 +353,8 @@ static struct query queries[] = {
 
  /* ADMIN [ <target> ] */
 	{ "ADMIN",
-		{ RPL_ADMINME, RPL_ADMINLOC2, RPL_ADMINLOC1,
-			RPL_ADMINLOC3, 0 },
-		{ RPL_TRYAGAIN, 0 },
+		{ RPL_ADMINME, RPL_ADMINLOC2, RPL_ADMINLOC1, 0 },
+		{ RPL_ADMINLOC3, RPL_TRYAGAIN, 0 },
 		{ ERR_NOSUCHSERVER, 0 },
 		handle_default
 	},
-- 
2.43.0


From 76c37ddde9e99c80669aee449f0c6cc602b93fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 015/130] fix: adding the time to a message without text
 crashed the proxy

---
 libirc/line.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libirc/line.c b/libirc/line.c
index de65fa8..eb5d20c 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -456,6 +456,10 @@ gboolean line_prefix_time(struct irc_line *l, time_t t)
 	char *tmp;
 	gboolean action = FALSE;
 
+	if (l->argc < 3) {
+		return FALSE;
+	}
+
 	if (l->args[2][0] == '\001') { /* CTCP */
 		/* Let's not touch any CTCP requests but actions */
 		if (strncmp(l->args[2]+1, "ACTION", strlen("ACTION")) != 0) {
-- 
2.43.0


From 4c2507da5cf015901d928b7b94662cd8694fdca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 016/130] fix: a message of one word was split in two when the
 time was added to it

---
 libirc/line.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libirc/line.c b/libirc/line.c
index eb5d20c..d2c960e 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -479,6 +479,8 @@ gboolean line_prefix_time(struct irc_line *l, time_t t)
 	}
 	g_free(l->args[2]);
 	l->args[2] = tmp;
+	/* There is a space in there now */
+	l->has_endcolon = WITH_COLON;
 
 	return TRUE;
 }
-- 
2.43.0


From 3f760140df8252aab3227b922d09ac046c2b3961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 017/130] fix: empty CTCP requests and CTCP messages without
 origin crashed the proxy

---
 src/ctcp.c          | 13 +++++++++++++
 src/ctcp_redirect.c |  8 +++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/ctcp.c b/src/ctcp.c
index 01b3fa2..6702525 100644
--- a/src/ctcp.c
+++ b/src/ctcp.c
@@ -181,6 +181,11 @@ gboolean ctcp_process_request (struct irc_network *n, const struct irc_line *l)
 	gboolean ret = FALSE;
 	struct ctcp_handle h;
 
+	if (l->origin == NULL) {
+		network_log(LOG_WARNING, n, "CTCP request without origin!");
+		return FALSE;
+	}
+
 	h.network = n;
 	h.nick = line_get_nick(l);
 
@@ -195,6 +200,14 @@ gboolean ctcp_process_request (struct irc_network *n, const struct irc_line *l)
 	*t = '\0';
 
 	args = g_strsplit(data, " ", 0);
+	if (args[0] == NULL) {
+		network_log(LOG_WARNING, n, "Empty CTCP request from %s!", h.nick);
+		g_strfreev(args);
+		g_free(data);
+		g_free(h.nick);
+		return FALSE;
+	}
+
 	for (gl = cmds; gl; gl = gl->next) {
 		struct ctcp_handler *hl = gl->data;
 
diff --git a/src/ctcp_redirect.c b/src/ctcp_redirect.c
index 37c7931..3961d21 100644
--- a/src/ctcp_redirect.c
+++ b/src/ctcp_redirect.c
@@ -83,8 +83,14 @@ gboolean ctcp_network_redirect_response(struct irc_network *n, const struct irc_
 {
 	GList *gl;
 	char *nick;
+	char *command;
 
-	char *command = get_ctcp_command(l->args[2]);
+	if (l->origin == NULL) {
+		network_log(LOG_WARNING, n, "CTCP reply without origin");
+		return FALSE;
+	}
+
+	command = get_ctcp_command(l->args[2]);
 
 	nick = line_get_nick(l);
 
-- 
2.43.0


From 3dbf68efd825b6f5d9b57ebaaa7d34620dad455b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 018/130] fix: CTCP replies were matched against clients that
 were already freed

---
 src/client.c        |  2 ++
 src/ctcp.h          |  1 +
 src/ctcp_redirect.c | 22 ++++++++++++++++++++++
 3 files changed, 25 insertions(+)

diff --git a/src/client.c b/src/client.c
index 9f95938..1bc8003 100644
--- a/src/client.c
+++ b/src/client.c
@@ -268,6 +268,8 @@ static void handle_client_disconnect(struct irc_client *c)
 		d->hook(c, d->userdata);
 	}
 
+	ctcp_client_forget(c);
+
 	if (c->network != NULL) {
 		c->network->clients = g_list_remove(c->network->clients, c);
 	}
diff --git a/src/ctcp.h b/src/ctcp.h
index 7113c43..1283ad5 100644
--- a/src/ctcp.h
+++ b/src/ctcp.h
@@ -36,6 +36,7 @@ struct ctcp_handler {
 
 gboolean ctcp_network_redirect_response(struct irc_network *, const struct irc_line *);
 gboolean ctcp_client_request_record(struct irc_client *, struct irc_line *);
+void ctcp_client_forget(struct irc_client *);
 gboolean ctcp_process_request(struct irc_network *, const struct irc_line *);
 G_MODULE_EXPORT void ctcp_register_handler(const struct ctcp_handler *);
 G_MODULE_EXPORT G_GNUC_NULL_TERMINATED void ctcp_send(struct irc_network *, const char *, ...);
diff --git a/src/ctcp_redirect.c b/src/ctcp_redirect.c
index 3961d21..39a24d2 100644
--- a/src/ctcp_redirect.c
+++ b/src/ctcp_redirect.c
@@ -79,6 +79,28 @@ gboolean ctcp_client_request_record (struct irc_client *c, struct irc_line *l)
 	return TRUE;
 }
 
+/**
+ * Forget about the CTCP requests made by a client that has gone away.
+ */
+void ctcp_client_forget(struct irc_client *c)
+{
+	GList *gl, *next;
+
+	for (gl = ctcp_request_queue; gl; gl = next) {
+		struct ctcp_request *req = gl->data;
+
+		next = gl->next;
+
+		if (req->client != c)
+			continue;
+
+		ctcp_request_queue = g_list_delete_link(ctcp_request_queue, gl);
+		g_free(req->command);
+		g_free(req->destination);
+		g_free(req);
+	}
+}
+
 gboolean ctcp_network_redirect_response(struct irc_network *n, const struct irc_line *l)
 {
 	GList *gl;
-- 
2.43.0


From 9bb7907b13a141828bf45b396b5a9bc7d8eeb879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 019/130] fix: CTCP messages sent while there is no server
 connection crashed the proxy

---
 src/client.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client.c b/src/client.c
index 1bc8003..a3f455f 100644
--- a/src/client.c
+++ b/src/client.c
@@ -97,14 +97,16 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 			   !base_strcmp(l->args[0], "PRIVMSG") &&
 			   !base_strcmp(l->args[1], c->network->global->config->admin_user)) {
 		admin_process_command(c, l, 2);
-	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
+	} else if (c->network->queries != NULL &&
+			!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
 			l->args[2][0] == '\001' &&
 			base_strncmp(l->args[2], "\001ACTION", 7) != 0) {
 		ctcp_client_request_record(c, l);
 
 		/* send off to server */
 		network_forward_line(c->network, c, l, TRUE);
-	} else if (!base_strcmp(l->args[0], "NOTICE") && l->argc > 2 &&
+	} else if (c->network->queries != NULL &&
+			!base_strcmp(l->args[0], "NOTICE") && l->argc > 2 &&
 			l->args[2][0] == '\001') {
 		network_forward_line(c->network, c, l, TRUE);
 	} else if (!base_strcmp(l->args[0], "")) {
-- 
2.43.0


From 9bf3c8f14481cd23c98a724ecdd2b0ab5eade375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:19 +0000
Subject: [PATCH 020/130] fix: commands sent in one packet with the password
 were handled without a network

---
 libirc/transport_ioc.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 76baedd..7fbf216 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -32,6 +32,7 @@ struct irc_transport_data_iochannel {
 	gboolean pending_disconnect;
 	gint incoming_id;
 	gint outgoing_id;
+	guint buffered_id;
 	GIConv incoming_iconv;
 	GIConv outgoing_iconv;
 	GQueue *pending_lines;
@@ -134,6 +135,9 @@ static void really_disconnect(struct irc_transport_data_iochannel *backend_data)
 	g_source_remove(backend_data->incoming_id);
 	if (backend_data->outgoing_id)
 		g_source_remove(backend_data->outgoing_id);
+	if (backend_data->buffered_id)
+		g_source_remove(backend_data->buffered_id);
+	backend_data->buffered_id = 0;
 
 	backend_data->incoming = NULL;
 }
@@ -210,6 +214,22 @@ static gboolean irc_transport_iochannel_send_line(struct irc_transport *transpor
 
 }
 
+/* Handle lines that were already read from the socket by the previous user of
+ * the channel, no event will be triggered for those. */
+static gboolean handle_transport_buffered(gpointer _transport)
+{
+	struct irc_transport *transport = _transport;
+	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
+
+	backend_data->buffered_id = 0;
+
+	handle_transport_receive(backend_data->incoming,
+			  g_io_channel_get_buffer_condition(backend_data->incoming) & G_IO_IN,
+			  transport);
+
+	return FALSE;
+}
+
 static void irc_transport_iochannel_activate(struct irc_transport *transport)
 {
 	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
@@ -217,9 +237,10 @@ static void irc_transport_iochannel_activate(struct irc_transport *transport)
 							backend_data->incoming, G_IO_IN | G_IO_HUP,
 							handle_transport_receive, transport);
 
-	handle_transport_receive(backend_data->incoming,
-			  g_io_channel_get_buffer_condition(backend_data->incoming) & G_IO_IN,
-			  transport);
+	/* The user of the transport isn't completely set up yet at this point */
+	if (g_io_channel_get_buffer_condition(backend_data->incoming) & G_IO_IN)
+		backend_data->buffered_id = g_idle_add_full(G_PRIORITY_DEFAULT,
+				handle_transport_buffered, transport, NULL);
 }
 
 
-- 
2.43.0


From 1fc39c2a6ac72dfc35df445d033bcc64b8bd563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:02 +0000
Subject: [PATCH 021/130] fix: the first line of a client was damaged when it
 arrived in pieces

---
 libirc/listener.c | 41 +++++++++++++++++++++++++++++------------
 libirc/listener.h |  4 ++++
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/libirc/listener.c b/libirc/listener.c
index 529f536..85dcc10 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -161,18 +161,24 @@ static gboolean handle_client_detect(GIOChannel *ioc, struct pending_client *pc)
 {
 	GIOStatus status;
 	gsize read;
-	gchar header[2];
 	GError *error = NULL;
 
-	status = g_io_channel_read_chars(ioc, header, 1, &read, &error);
+	if (!pc->first_byte_received) {
+		status = g_io_channel_read_chars(ioc, &pc->first_byte, 1, &read, &error);
 
-	if (status != G_IO_STATUS_NORMAL && status != G_IO_STATUS_AGAIN) {
-		if (error != NULL)
-			g_error_free(error);
-		return FALSE;
+		if (status == G_IO_STATUS_AGAIN)
+			return TRUE;
+
+		if (status != G_IO_STATUS_NORMAL) {
+			if (error != NULL)
+				g_error_free(error);
+			return FALSE;
+		}
+
+		pc->first_byte_received = TRUE;
 	}
 
-	if (header[0] == SOCKS_VERSION) {
+	if (pc->first_byte == SOCKS_VERSION) {
 		listener_log(LOG_TRACE, pc->listener, "Detected SOCKS.");
 		pc->type = CLIENT_TYPE_SOCKS;
 		pc->socks.state = SOCKS_STATE_NEW;
@@ -185,19 +191,26 @@ static gboolean handle_client_detect(GIOChannel *ioc, struct pending_client *pc)
 		gboolean ret;
 		gsize in_len;
 
-		pc->type = CLIENT_TYPE_REGULAR;
-
 		g_assert(ioc != NULL);
 
 		status = g_io_channel_read_line(ioc, &raw, &in_len, NULL, &error);
+		if (status == G_IO_STATUS_AGAIN) {
+			/* The rest of the line is yet to arrive */
+			g_free(raw);
+			return TRUE;
+		}
+
 		if (status != G_IO_STATUS_NORMAL) {
 			g_free(raw);
-			g_error_free(error);
-			return status;
+			if (error != NULL)
+				g_error_free(error);
+			return FALSE;
 		}
 
+		pc->type = CLIENT_TYPE_REGULAR;
+
 		complete = g_malloc(in_len+2);
-		complete[0] = header[0];
+		complete[0] = pc->first_byte;
 		memcpy(complete+1, raw, in_len);
 		complete[in_len+1] = '\0';
 		g_free(raw);
@@ -240,6 +253,10 @@ static gboolean handle_client_receive(GIOChannel *c, GIOCondition condition, gpo
 				kill_pending_client(pc);
 				return FALSE;
 			}
+		}
+
+		if (pc->type == CLIENT_TYPE_UNKNOWN) {
+			/* Not enough data yet */
 		} else if (pc->type == CLIENT_TYPE_REGULAR) {
 			GIOStatus status;
 			GError *error = NULL;
diff --git a/libirc/listener.h b/libirc/listener.h
index 3efb6b1..6668a2e 100644
--- a/libirc/listener.h
+++ b/libirc/listener.h
@@ -90,6 +90,10 @@ struct pending_client {
 	/** The type of client. */
 	enum client_type type;
 
+	/** First byte received, used to detect the type of client. */
+	gchar first_byte;
+	gboolean first_byte_received;
+
 	gint watch_id;
 	struct sockaddr *clientname;
 	socklen_t clientname_len;
-- 
2.43.0


From 1ad464c8617ee86929cdf8c8531cf921a330d1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:12 +0000
Subject: [PATCH 022/130] fix: PASS crashed the proxy when the listener has
 allow rules

---
 src/listener.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/listener.c b/src/listener.c
index 0dd2133..818e3c2 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -63,6 +63,10 @@ static gboolean listener_check_username_password(struct irc_listener *listener,
 			if (r->password == NULL || r->username == NULL)
 				continue;
 
+			/* No user name is given with PASS */
+			if (username == NULL)
+				continue;
+
 			if (strcmp(r->username, username))
 				continue;
 
-- 
2.43.0


From 505a029e47847b57ed7320e9c0a3090d1fad1602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:12 +0000
Subject: [PATCH 023/130] fix: PASS without a password crashed the proxy

---
 src/listener.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/listener.c b/src/listener.c
index 818e3c2..a58896d 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -204,6 +204,14 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 		gboolean authenticated = FALSE;
 		char *actual_password;
 
+		if (l->argc < 2) {
+			irc_sendf(pc->connection, listener->iconv, NULL,
+					  ":%s %d %s %s :Not enough parameters",
+					  get_my_hostname(), ERR_NEEDMOREPARAMS, "*", l->args[0]);
+			g_io_channel_flush(pc->connection, NULL);
+			return TRUE;
+		}
+
 		if (strchr(l->args[1], ':') != NULL) {
 			char *p = strchr(l->args[1], ':');
 			actual_password = g_strndup(l->args[1], p-l->args[1]);
-- 
2.43.0


From 72881db013411c64658de737978f26117a03e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 024/130] fix: SOCKS messages arriving in pieces or with long
 fields were misread

---
 libirc/listener.c | 117 ++++++++++++++++++++++++++++++++--------------
 libirc/listener.h |   3 ++
 2 files changed, 86 insertions(+), 34 deletions(-)

diff --git a/libirc/listener.c b/libirc/listener.c
index 85dcc10..4b352c5 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -285,7 +285,16 @@ static gboolean handle_client_receive(GIOChannel *c, GIOCondition condition, gpo
 				return FALSE;
 			}
 		} else if (pc->type == CLIENT_TYPE_SOCKS) {
-			gboolean ret = handle_client_socks_data(c, pc);
+			gboolean ret;
+			enum socks_state state;
+
+			/* The messages that follow may have been read already */
+			do {
+				state = pc->socks.state;
+				ret = handle_client_socks_data(c, pc);
+			} while (ret && state != pc->socks.state &&
+					 g_io_channel_get_buffer_condition(c) & G_IO_IN);
+
 			if (!ret)
 				kill_pending_client(pc);
 			return ret;
@@ -562,45 +571,68 @@ static gboolean on_socks_pass_accepted(struct pending_client *cl, gboolean accep
 	}
 }
 
+/* Make sure the first len bytes of the current message are available.
+ * Returns G_IO_STATUS_AGAIN if some of them are yet to arrive. */
+static GIOStatus socks_receive(struct pending_client *cl, gsize len)
+{
+	g_assert(len <= sizeof(cl->socks.data));
+
+	while (cl->socks.data_len < len) {
+		gsize read = 0;
+		GIOStatus status;
+
+		status = g_io_channel_read_chars(cl->connection,
+								 (gchar *)cl->socks.data + cl->socks.data_len,
+								 len - cl->socks.data_len, &read, NULL);
+		cl->socks.data_len += read;
+		if (status != G_IO_STATUS_NORMAL)
+			return status;
+	}
+
+	return G_IO_STATUS_NORMAL;
+}
+
 static gboolean pass_handle_data(struct pending_client *cl)
 {
-	gchar header[2];
-	gsize read;
 	gboolean accepted;
 	GIOStatus status;
+	guint8 *data = cl->socks.data;
+	gsize uname_len, pass_len;
 	gchar uname[0x100], pass[0x100];
 
-	status = g_io_channel_read_chars(cl->connection, header, 2, &read, NULL);
+	status = socks_receive(cl, 2);
 	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
+		return (status == G_IO_STATUS_AGAIN);
 	}
 
-	if (header[0] != SOCKS_VERSION && header[0] != 0x1) {
+	if (data[0] != SOCKS_VERSION && data[0] != 0x1) {
 		listener_log(LOG_WARNING, cl->listener,
 					 "Client suddenly changed socks uname/pwd version to %x",
-					 header[0]);
+					 data[0]);
 	 	return listener_socks_error(cl, REP_GENERAL_FAILURE);
 	}
 
-	status = g_io_channel_read_chars(cl->connection, uname, header[1], &read,
-									 NULL);
+	uname_len = data[1];
+
+	status = socks_receive(cl, 2 + uname_len + 1);
 	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
+		return (status == G_IO_STATUS_AGAIN);
 	}
 
-	uname[(guint8)header[1]] = '\0';
+	pass_len = data[2 + uname_len];
 
-	status = g_io_channel_read_chars(cl->connection, header, 1, &read, NULL);
+	status = socks_receive(cl, 2 + uname_len + 1 + pass_len);
 	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
+		return (status == G_IO_STATUS_AGAIN);
 	}
 
-	status = g_io_channel_read_chars(cl->connection, pass, header[0], &read, NULL);
-	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
-	}
+	memcpy(uname, data + 2, uname_len);
+	uname[uname_len] = '\0';
+
+	memcpy(pass, data + 2 + uname_len + 1, pass_len);
+	pass[pass_len] = '\0';
 
-	pass[(guint8)header[0]] = '\0';
+	cl->socks.data_len = 0;
 
 	accepted = cl->listener->ops->socks_auth_simple(cl, uname, pass,
 													on_socks_pass_accepted);
@@ -817,26 +849,30 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 	if (cl->socks.state == SOCKS_STATE_NEW) {
 		int i;
 		gchar header[2];
-		gchar methods[0x100];
+		int num_methods;
 		gsize read;
-		status = g_io_channel_read_chars(ioc, header, 1, &read, NULL);
+		status = socks_receive(cl, 1);
 		if (status != G_IO_STATUS_NORMAL) {
-			return FALSE;
+			return (status == G_IO_STATUS_AGAIN);
 		}
 
+		num_methods = cl->socks.data[0];
+
 		/* None by default */
 		cl->socks.method = NULL;
 
-		status = g_io_channel_read_chars(ioc, methods, header[0], &read, NULL);
+		status = socks_receive(cl, 1 + num_methods);
 		if (status != G_IO_STATUS_NORMAL) {
-			return FALSE;
+			return (status == G_IO_STATUS_AGAIN);
 		}
 
-		for (i = 0; i < header[0]; i++) {
+		cl->socks.data_len = 0;
+
+		for (i = 0; i < num_methods; i++) {
 			int j;
 			for (j = 0; socks_methods[j].id != -1; j++)
 			{
-				if (socks_methods[j].id == methods[i] &&
+				if (socks_methods[j].id == cl->socks.data[1 + i] &&
 					socks_methods[j].acceptable != NULL &&
 					socks_methods[j].acceptable(cl)) {
 					cl->socks.method = &socks_methods[j];
@@ -870,12 +906,11 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 	} else if (cl->socks.state == SOCKS_STATE_AUTH) {
 		return cl->socks.method->handle_data(cl);
 	} else if (cl->socks.state == SOCKS_STATE_NORMAL) {
-		gchar header[4];
-		gsize read;
+		guint8 *header = cl->socks.data;
 
-		status = g_io_channel_read_chars(ioc, header, 4, &read, NULL);
+		status = socks_receive(cl, 4);
 		if (status != G_IO_STATUS_NORMAL) {
-			return FALSE;
+			return (status == G_IO_STATUS_AGAIN);
 		}
 
 		if (header[0] != SOCKS_VERSION) {
@@ -904,13 +939,27 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 			case ATYP_FQDN:
 				{
 					char hostname[0x100];
+					gsize hostname_len;
 					guint16 port;
-					status = g_io_channel_read_chars(ioc, header, 1, &read, NULL);
-					status = g_io_channel_read_chars(ioc, hostname, header[0], &read, NULL);
-					hostname[(guint8)header[0]] = '\0';
 
-					status = g_io_channel_read_chars(ioc, header, 2, &read, NULL);
-					port = ntohs(*(guint16 *)header);
+					status = socks_receive(cl, 5);
+					if (status != G_IO_STATUS_NORMAL) {
+						return (status == G_IO_STATUS_AGAIN);
+					}
+
+					hostname_len = header[4];
+
+					status = socks_receive(cl, 5 + hostname_len + 2);
+					if (status != G_IO_STATUS_NORMAL) {
+						return (status == G_IO_STATUS_AGAIN);
+					}
+
+					memcpy(hostname, header + 5, hostname_len);
+					hostname[hostname_len] = '\0';
+
+					port = (header[5 + hostname_len] << 8) | header[5 + hostname_len + 1];
+
+					cl->socks.data_len = 0;
 
 					if (cl->listener->ops->socks_connect_fqdn == NULL)
 						return listener_socks_error(cl, REP_ATYP_NOT_SUPPORTED);
diff --git a/libirc/listener.h b/libirc/listener.h
index 6668a2e..470fe3c 100644
--- a/libirc/listener.h
+++ b/libirc/listener.h
@@ -108,6 +108,9 @@ struct pending_client {
 		struct socks_method *method;
 		enum socks_state state;
 		void *method_data;
+		/** The part of the current message received so far. */
+		guint8 data[0x210];
+		gsize data_len;
 	} socks;
 
 	/** Private data. */
-- 
2.43.0


From a096a494053030887f240c881832a94d8fc19993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:57 +0000
Subject: [PATCH 025/130] fix: mode changes following one for an unknown nick
 were ignored

---
 libirc/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/state.c b/libirc/state.c
index ebf32f6..c3398d8 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -985,7 +985,7 @@ static int channel_state_change_mode(struct irc_network_state *s, struct network
 		n = find_channel_nick(c, opt_arg);
 		if (!n) {
 			network_state_log(LOG_WARNING, s, "Can't set mode %c%c on nick %s on channel %s, because nick does not exist!", set?'+':'-', mode, opt_arg, c->name);
-			return -1;
+			return 1;
 		}
 		if (set) {
 			modes_set_mode(n->modes, mode);
-- 
2.43.0


From 39fc3b7e0a08a82331b4421c4f8b91d5ca58ba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:15 +0000
Subject: [PATCH 026/130] fix: a line from the server with just an origin
 aborted the proxy

---
 libirc/connection.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libirc/connection.c b/libirc/connection.c
index 27348a5..253f55a 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -137,6 +137,11 @@ static gboolean on_transport_recv(struct irc_transport *transport,
 							  const struct irc_line *line)
 {
 	struct irc_network *server = transport->userdata;
+
+	/* Silently ignore lines that can not be parsed */
+	if (line == NULL)
+		return TRUE;
+
 	return server->callbacks->process_from_server(server, line);
 }
 
-- 
2.43.0


From 10e1715550cd9e55c0442720124c080c64e7a7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:50 +0000
Subject: [PATCH 027/130] fix: TOPIC without a channel read beyond the
 arguments of the line

A line of one word has just that word and the end marker; the query
recorder looked at the third argument regardless.
---
 libirc/redirect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index 1ca4571..a783018 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -605,7 +605,7 @@ static int handle_default(const struct irc_line *l, struct query_stack *stack,
 
 static int handle_topic(const struct irc_line *l, struct query_stack *stack, void *userdata, struct query *q)
 {
-	if (l->args[2] != NULL)
+	if (l->argc > 2)
 		return 0;
 	return handle_default(l,stack,userdata,q);
 }
-- 
2.43.0


From 9f223adb74c9106e64af1b1967b6937bd336afb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:50 +0000
Subject: [PATCH 028/130] fix: PRIVMSG without a target crashed the proxy when
 admin-user is set

---
 src/client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.c b/src/client.c
index a3f455f..a76d3b2 100644
--- a/src/client.c
+++ b/src/client.c
@@ -94,7 +94,7 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 	} else if (!base_strcmp(l->args[0], "CTRLPROXY")) {
 		admin_process_command(c, l, 1);
 	} else if (c->network->global->config->admin_user != NULL &&
-			   !base_strcmp(l->args[0], "PRIVMSG") &&
+			   !base_strcmp(l->args[0], "PRIVMSG") && l->argc > 1 &&
 			   !base_strcmp(l->args[1], c->network->global->config->admin_user)) {
 		admin_process_command(c, l, 2);
 	} else if (c->network->queries != NULL &&
-- 
2.43.0


From 534d8c14fd3f367376fee93e65cde55d7bec22d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:45 +0000
Subject: [PATCH 029/130] fix: nick changes of the user were shown under the
 identity the server knows

The network state is updated before the line is passed on, so that the old
nick in the origin did not match the nick of the network any more.
---
 src/client.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client.c b/src/client.c
index a76d3b2..dc14c42 100644
--- a/src/client.c
+++ b/src/client.c
@@ -364,7 +364,10 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 	}
 
 	/* Replace lines "faked" to be from the user itself */
-	if (l->origin != NULL && line_from_nick(info, l, old->nick)) {
+	/* (a nick change has been applied to the network already, but not yet
+	 * to the client) */
+	if (l->origin != NULL && (line_from_nick(info, l, old->nick) ||
+		(!base_strcmp(l->args[0], "NICK") && line_from_nick(info, l, new->nick)))) {
 		ret = linedup(l);
 		g_free(ret->origin);
 		ret->origin = g_strdup(new->hostmask);
-- 
2.43.0


From 88eaf4ef79bcee4c21d6fd41fc7e0f8d3ac7be2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:23 +0000
Subject: [PATCH 030/130] fix: every MOTD reply was treated as another login

When a client asked for the message of the day, its end made the proxy
send the connect commands, rejoin the configured channels and send the
whole state to all clients once more.
---
 src/network.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index 3658a1e..2118b69 100644
--- a/src/network.c
+++ b/src/network.c
@@ -136,7 +136,8 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 					l->args[2], tmp);
 		network_nick_set_nick(&n->external_state->me, tmp);
 		g_free(tmp);
-	} else if (response == RPL_ENDOFMOTD || response == ERR_NOMOTD) {
+	} else if ((response == RPL_ENDOFMOTD || response == ERR_NOMOTD) &&
+			   n->connection.state != NETWORK_CONNECTION_STATE_MOTD_RECVD) {
 		int i;
 		GList *gl;
 		n->connection.state = NETWORK_CONNECTION_STATE_MOTD_RECVD;
-- 
2.43.0


From e1b6a4571a776cf3998db13955406ad59ff9ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 031/130] fix: NickServ password learning crashed on commands
 lacking arguments

---
 src/nickserv.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/nickserv.c b/src/nickserv.c
index b335e47..e8c21ee 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -126,35 +126,37 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 
 	/* User has changed his/her nick. Check whether this nick needs to be identified */
 	if (dir == FROM_SERVER && !irccmp(n->info, l->args[0], "NICK") &&
-	   nickattempt && !irccmp(n->info, nickattempt, l->args[1])) {
+	   l->argc > 1 && nickattempt && !irccmp(n->info, nickattempt, l->args[1])) {
 		nickserv_identify_me(n, l->args[1]);
 	}
 
 	/* Keep track of the last nick that the user tried to take */
-	if (dir == TO_SERVER && !irccmp(n->info, l->args[0], "NICK")) {
+	if (dir == TO_SERVER && !irccmp(n->info, l->args[0], "NICK") &&
+		l->argc > 1) {
 		if (nickattempt) {
 			g_free(nickattempt);
 		}
 		nickattempt = g_strdup(l->args[1]);
 	}
 
-	if (dir == TO_SERVER &&
+	if (dir == TO_SERVER && l->argc > 2 &&
 		(!irccmp(n->info, l->args[0], "PRIVMSG") || !irccmp(n->info, l->args[0], "NOTICE")) &&
 		(!irccmp(n->info, l->args[1], nickserv_nick(n)) &&
 		 !ircncmp(n->info, l->args[2], "IDENTIFY ", strlen("IDENTIFY ")))) {
 			cache_nickserv_pass(n, l->args[2] + strlen("IDENTIFY "));
 	}
 
-	if (dir == TO_SERVER &&
+	if (dir == TO_SERVER && l->argc > 2 &&
 		!irccmp(n->info, l->args[0], "NS") &&
 		!irccmp(n->info, l->args[1], "IDENTIFY")) {
 		cache_nickserv_pass(n, l->args[2]);
 	}
 
 	/* If we receive a nick-already-in-use message, ghost the current user */
-	if (dir == FROM_SERVER && atol(l->args[0]) == ERR_NICKNAMEINUSE) {
+	if (dir == FROM_SERVER && nickattempt &&
+		atol(l->args[0]) == ERR_NICKNAMEINUSE) {
 		const char *pass = nickserv_find_nick(n, nickattempt);
-		if (nickattempt && pass) {
+		if (pass) {
 			const char *nickserv_n = nickserv_nick(n);
 			char *raw;
 
-- 
2.43.0


From d7c1c36a3cd11d86d0d97e86d1231d697bbd27f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:01 +0000
Subject: [PATCH 032/130] build: compile as gnu89 instead of strict C90, so
 that // comments are accepted

---
 configure.ac | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configure.ac b/configure.ac
index 70e6993..54f6d83 100644
--- a/configure.ac
+++ b/configure.ac
@@ -26,7 +26,7 @@ AC_PROG_INSTALL
 AC_PATH_PROG(IRCDTORTURE,ircdtorture)
 
 if test "$GCC" = "yes"; then
-	CFLAGS="$CFLAGS -ansi -Wall"
+	CFLAGS="$CFLAGS -std=gnu89 -Wall"
 	DYNAMIC="-rdynamic"
 fi
 AC_SUBST(GCC)
-- 
2.43.0


From bf37712addb4d1e47b9b564cc0becaef27dcf288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:57 +0000
Subject: [PATCH 033/130] fix: the user modes told to clients lacked the nick
 they apply to

---
 libirc/client.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libirc/client.c b/libirc/client.c
index cb47eea..941adfb 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -656,7 +656,8 @@ gboolean client_send_state(struct irc_client *c, struct irc_network_state *state
 
 	mode = mode2string(state->me.modes);
 	if (mode != NULL) {
-		ret = client_send_args_ex(c, state->me.nick, "MODE", mode, NULL);
+		ret = client_send_args_ex(c, state->me.nick, "MODE", state->me.nick,
+					  mode, NULL);
 	}
 	g_free(mode);
 
-- 
2.43.0


From b02d860f535a48ff0dc7b905d7b11d2b2866b8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:57 +0000
Subject: [PATCH 034/130] fix: NAMES for clients were malformed before the
 server had sent any

---
 libirc/client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/client.c b/libirc/client.c
index 941adfb..b3d7f89 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -729,7 +729,7 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 	g_assert(ch != NULL);
 
 	for (nl = ch->nicks; nl; nl = nl->next) {
-		char mode[2] = { ch->mode, 0 };
+		char mode[2] = { ch->mode ? ch->mode : '=', 0 };
 		char *arg;
 		struct channel_nick *n = (struct channel_nick *)nl->data;
 		char prefix;
-- 
2.43.0


From 4b65514bbf3a7cbc789d3049f748e89a067f65de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:20 +0000
Subject: [PATCH 035/130] fix: the proxy took the features it announced to a
 client for a single one

---
 src/client.c | 56 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/src/client.c b/src/client.c
index dc14c42..06d795c 100644
--- a/src/client.c
+++ b/src/client.c
@@ -136,6 +136,53 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 	return TRUE;
 }
 
+/**
+ * Tell a client about the features of its network, one per argument.
+ *
+ * @param client Client to talk to.
+ */
+static void client_send_features(struct irc_client *client)
+{
+	char *features = network_generate_feature_string(client->network);
+	char **tokens = g_strsplit(features, " ", 0);
+	const char *trailer = "are supported on this server";
+	struct irc_line *l = NULL;
+	int i, len = 0;
+
+	for (i = 0; tokens[i]; i++) {
+		if (tokens[i][0] == '\0') {
+			continue;
+		}
+
+		/* Continue on another line if this one is full */
+		if (l != NULL && (l->argc > 14 ||
+				  len + strlen(tokens[i]) + 1 > IRC_MAXLINELEN / 2)) {
+			line_add_arg(l, trailer);
+			client_send_line(client, l, NULL);
+			free_line(l);
+			l = NULL;
+		}
+
+		if (l == NULL) {
+			l = irc_parse_line_args(client->default_origin, "005",
+						client_get_default_target(client), NULL);
+			len = 0;
+		}
+
+		line_add_arg(l, tokens[i]);
+		len += strlen(tokens[i]) + 1;
+	}
+
+	if (l != NULL) {
+		line_add_arg(l, trailer);
+		client_send_line(client, l, NULL);
+		free_line(l);
+	}
+
+	g_strfreev(tokens);
+	g_free(features);
+}
+
 /**
  * Send welcome information to a client, optionally disconnecting
  * the client if it isn't welcome.
@@ -145,7 +192,7 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
  */
 static gboolean welcome_client(struct irc_client *client)
 {
-	char *features, *tmp;
+	char *tmp;
 	struct network_config *nc;
 
 	g_assert(client != NULL);
@@ -170,12 +217,7 @@ static gboolean welcome_client(struct irc_client *client)
 		 (client->network->external_state != NULL && client->network->info->supported_channel_modes)?client->network->info->supported_channel_modes:ALLMODES,
 		 NULL);
 
-	features = network_generate_feature_string(client->network);
-
-	client_send_response(client, RPL_BOUNCE, features,
-						 "are supported on this server", NULL);
-
-	g_free(features);
+	client_send_features(client);
 
 	if (client->network->external_state != NULL) {
 		client_send_luserchannels(client, g_list_length(client->network->external_state->channels));
-- 
2.43.0


From 93898db056bd7f38ddc21284a19e3a24383f2019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:08 +0000
Subject: [PATCH 036/130] fix: NAMES lists for clients were misread by the
 proxy itself, losing their first member

---
 libirc/client.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index b3d7f89..7c6aaaf 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -723,6 +723,7 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 {
 	GList *nl;
 	gboolean ret;
+	size_t len = 0;
 	struct irc_line *l = NULL;
 
 	g_assert(c != NULL);
@@ -749,7 +750,12 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 
 		ret = TRUE;
 
-		if (l == NULL || !line_add_arg(l, arg)) {
+		if (l != NULL && len + strlen(arg) + 1 <= IRC_MAXLINELEN) {
+			char *tmp = g_strdup_printf("%s %s", l->args[l->argc-1], arg);
+			g_free(l->args[l->argc-1]);
+			l->args[l->argc-1] = tmp;
+			len += strlen(arg) + 1;
+		} else {
 			char *tmp;
 			if (l != NULL) {
 				ret = client_send_line(c, l, NULL);
@@ -758,10 +764,10 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 
 			l = irc_parse_line_args(c->default_origin, "353",
 						client_get_default_target(c),
-						mode, ch->name, NULL);
-			l->has_endcolon = WITHOUT_COLON;
-			tmp = g_strdup_printf(":%s", arg);
-			g_assert(line_add_arg(l, tmp));
+						mode, ch->name, arg, NULL);
+			l->has_endcolon = WITH_COLON;
+			tmp = irc_line_string_nl(l);
+			len = strlen(tmp);
 			g_free(tmp);
 		}
 
-- 
2.43.0


From d7877bbb39e147cc9b53f27d6eb063c79c09b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:03 +0000
Subject: [PATCH 037/130] fix: announcing a lost connection to clients never
 ended for nicks that could not be removed

---
 libirc/client.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 7c6aaaf..00a0903 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -926,6 +926,7 @@ gboolean client_send_netsplit(struct irc_client *c, const char *my_name,
 			  const char *lost_server)
 {
 	struct irc_network_state *s = c->state;
+	GList *nicks, *gl;
 	char *reason;
 	gboolean ret = TRUE;
 
@@ -936,22 +937,19 @@ gboolean client_send_netsplit(struct irc_client *c, const char *my_name,
 	/* Spoof a netsplit */
 	reason = g_strdup_printf("%s %s", my_name, lost_server);
 
-	while (s->nicks != NULL) {
-		GList *gl = s->nicks;
+	nicks = g_list_copy(s->nicks);
+	for (gl = nicks; gl != NULL; gl = gl->next) {
 		struct network_nick *gn = gl->data;
 
-		/* Skip self */
-		if (gn == &s->me) {
-			gl = gl->next;
-			if (gl == NULL)
-				break;
-			gn = gl->data;
-		}
+		/* Skip self and those that are gone already */
+		if (gn == &s->me || g_list_find(s->nicks, gn) == NULL)
+			continue;
 		ret = client_send_nick_quit(c, gn, reason);
 		if (!ret) {
 			break;
 		}
 	}
+	g_list_free(nicks);
 
 	g_free(reason);
 
-- 
2.43.0


From 7b93c507a3cdab77aa31f1285fd5e4c1e136d39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:04 +0000
Subject: [PATCH 038/130] fix: a client that could not be written to kept the
 others from hearing about a lost connection

---
 libirc/client.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 00a0903..46e0cb2 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -800,15 +800,16 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 gboolean clients_send_state(GList *clients, struct irc_network_state *s)
 {
 	GList *gl;
+	gboolean ret = TRUE;
 
 	for (gl = clients; gl; gl = gl->next) {
 		struct irc_client *c = gl->data;
 		if (!client_send_state(c, s)) {
-			return FALSE;
+			ret = FALSE;
 		}
 	}
 
-	return TRUE;
+	return ret;
 }
 
 gboolean client_send_banlist(struct irc_client *client, struct irc_channel_state *channel)
@@ -892,14 +893,16 @@ gboolean clients_send_netsplit(GList *clients, const char *my_name,
 			   const char *lost_server)
 {
 	GList *gl;
+	gboolean ret = TRUE;
+
 	for (gl = clients; gl; gl = gl->next) {
 		struct irc_client *c = gl->data;
 		if (!client_send_netsplit(c, my_name, lost_server)) {
-			return FALSE;
+			ret = FALSE;
 		}
 	}
 
-	return FALSE;
+	return ret;
 }
 
 gboolean client_send_nick_quit(struct irc_client *c, struct network_nick *gn,
-- 
2.43.0


From 9b3ddb12a01c0dda876d12b016f87fa59a86dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:46 +0000
Subject: [PATCH 039/130] fix: capabilities advertised without their value
 crashed the proxy

---
 libirc/isupport.c | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/libirc/isupport.c b/libirc/isupport.c
index b4656a8..1bc89de 100644
--- a/libirc/isupport.c
+++ b/libirc/isupport.c
@@ -380,8 +380,17 @@ static void check_chanmodes_inconsistency(struct irc_network_info *info)
 }
 
 
+/* Capabilities that mean nothing without a value */
+static const char *valued_capabilities[] = {
+	"CASEMAPPING", "NICKLEN", "MAXNICKLEN", "USERLEN", "HOSTLEN",
+	"CHANNELLEN", "MAXCHANNELLEN", "AWAYLEN", "KICKLEN", "TOPICLEN",
+	"WATCH", "MAXPARA", "MAXCHANNELS", "MAXTARGETS", "MAXBANS", "MODES",
+	"KEYLEN", "CHANTYPES", "CHANMODES", "ELIST", "PREFIX", NULL
+};
+
 void network_info_parse(struct irc_network_info *info, const char *parameter)
 {
+	int i;
 	char *sep;
 	char *key, *val;
 
@@ -395,6 +404,17 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		val = g_strdup(sep+1);
 	}
 
+	if (val == NULL) {
+		for (i = 0; valued_capabilities[i]; i++) {
+			if (!base_strcmp(key, valued_capabilities[i])) {
+				network_info_log(LOG_WARNING, info,
+								 "Missing value for 005 parameter `%s'", key);
+				g_free(key);
+				return;
+			}
+		}
+	}
+
 	if (!base_strcmp(key, "CASEMAPPING")) {
 		if (!base_strcmp(val, "rfc1459")) {
 			info->casemapping = CASEMAP_RFC1459;
@@ -497,13 +517,13 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		g_free(info->chantypes);
 		info->chantypes = g_strdup(val);
 	} else if (!base_strcmp(key, "CHANMODES")) {
-		g_strfreev(info->chanmodes);
-		info->chanmodes_a = info->chanmodes_b =
-			info->chanmodes_c = info->chanmodes_d = NULL;
-		info->chanmodes = g_strsplit(val, ",", 4);
-		if (g_strv_length(info->chanmodes) != 4) {
-			network_info_log(LOG_WARNING, info, "Expected 4-tuple for CHANMODES, received tuple was of size %d", g_strv_length(info->chanmodes));
+		char **parts = g_strsplit(val, ",", 4);
+		if (g_strv_length(parts) != 4) {
+			network_info_log(LOG_WARNING, info, "Expected 4-tuple for CHANMODES, received tuple was of size %d", g_strv_length(parts));
+			g_strfreev(parts);
 		} else {
+			g_strfreev(info->chanmodes);
+			info->chanmodes = parts;
 			info->chanmodes_a = info->chanmodes[0];
 			info->chanmodes_b = info->chanmodes[1];
 			info->chanmodes_c = info->chanmodes[2];
@@ -531,7 +551,6 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		else
 			info->invex_mode = val[0];
 	} else if (!base_strcmp(key, "ELIST")) {
-		int i;
 		for (i = 0; val[i]; i++) {
 			switch (val[i]) {
 			case 'M': info->elist_mask_search = TRUE; break;
@@ -561,9 +580,9 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 			info->extban_supported = g_strdup("cqr");
 		} else {
 			char **parts = g_strsplit(val, ",", 2);
-			info->extban_prefix = parts[0];
-			info->extban_supported = parts[1];
-			g_free(parts);
+			info->extban_prefix = g_strdup(parts[0]);
+			info->extban_supported = (parts[0] != NULL)?g_strdup(parts[1]):NULL;
+			g_strfreev(parts);
 		}
 	} else if (!base_strcmp(key, "MAXLIST")) {
 		g_free(info->maxlist);
-- 
2.43.0


From 276d7307c7b25ae7836fe75e62924964080daf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:47 +0000
Subject: [PATCH 040/130] fix: ELIST kept searches of earlier advertisements,
 EXTBAN without types was shown as (null)

---
 libirc/isupport.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libirc/isupport.c b/libirc/isupport.c
index 1bc89de..34c0c6a 100644
--- a/libirc/isupport.c
+++ b/libirc/isupport.c
@@ -325,7 +325,8 @@ char *network_info_string(struct irc_network_info *info)
 
 	if (info->extban_prefix != NULL) {
 		fs = g_list_append(fs, g_strdup_printf("EXTBAN=%s,%s",
-						   info->extban_prefix, info->extban_supported));
+						   info->extban_prefix,
+						   (info->extban_supported != NULL)?info->extban_supported:""));
 	}
 
 	if (info->deaf_mode != '\0') {
@@ -551,6 +552,9 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		else
 			info->invex_mode = val[0];
 	} else if (!base_strcmp(key, "ELIST")) {
+		info->elist_mask_search = info->elist_inverse_mask_search =
+			info->elist_topic_search = info->elist_usercount_search =
+			info->elist_creation_time_search = FALSE;
 		for (i = 0; val[i]; i++) {
 			switch (val[i]) {
 			case 'M': info->elist_mask_search = TRUE; break;
-- 
2.43.0


From e06c7f64b342cb38b6383362b68e587147269b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:06 +0000
Subject: [PATCH 041/130] fix: backlog positions of an earlier connection or
 before the first line gave clients a wrong state or none

---
 libirc/linestack.c  | 34 +++++++++++++++++++++++++---------
 src/repl_backends.c |  8 ++++++++
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 873f9e4..be7c042 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -44,9 +44,16 @@ struct linestack_context
 	GIOChannel *index_file;
 	int count;
 	int last_line_with_state;
-
+	guint64 id;
 };
 
+/* A marker is a line number followed by the id of the linestack it was taken
+ * in. Markers taken in an earlier linestack stand for the start. */
+static guint64 marker_position(struct linestack_context *nd, linestack_marker lm)
+{
+	return (lm[1] == nd->id)?lm[0]:0;
+}
+
 /* Index file format
  * 8 bytes - offset of line
  * 8 bytes - current time
@@ -96,6 +103,7 @@ struct linestack_context *create_linestack(const char *data_dir,
 										   const struct irc_network_state *state)
 {
 	struct linestack_context *data = g_new0(struct linestack_context, 1);
+	static guint64 last_id = 0;
 	char *data_file;
 	char *index_file, *state_file;
 	GError *error = NULL;
@@ -103,6 +111,8 @@ struct linestack_context *create_linestack(const char *data_dir,
 	GDir *dir;
 	const char *mode;
 
+	data->id = ++last_id;
+
 	g_mkdir(data_dir, 0700);
 	data_file = g_build_filename(data_dir, "lines", NULL);
 	g_assert(data_file != NULL);
@@ -214,7 +224,7 @@ struct irc_network_state *linestack_get_state(
 {
 	struct irc_network_state *ret;
 	gint64 t;
-	guint64 state_index;
+	guint64 state_index, from_index[2];
 	GError *error = NULL;
 	GIOStatus status;
 	char *data_file;
@@ -232,8 +242,10 @@ struct irc_network_state *linestack_get_state(
 	status = g_io_channel_flush(nd->index_file, &error);
 	LF_CHECK_IO_STATUS(status);
 
-	if (to_index != NULL) {
-		t = (*to_index)-1;
+	if (to_index != NULL && marker_position(nd, to_index) == 0) {
+		state_index = 0;
+	} else if (to_index != NULL) {
+		t = marker_position(nd, to_index)-1;
 		status = g_io_channel_seek_position(nd->index_file,
 			t * INDEX_RECORD_SIZE + sizeof(guint64) + sizeof(time_t),
 			G_SEEK_SET, &error);
@@ -278,7 +290,10 @@ struct irc_network_state *linestack_get_state(
 		return NULL;
 	}
 
-	if (!linestack_replay(nd, &state_index, to_index, ret)) {
+	from_index[0] = state_index;
+	from_index[1] = nd->id;
+
+	if (!linestack_replay(nd, from_index, to_index, ret)) {
 		g_io_channel_unref(state_file);
 		free_network_state(ret);
 		return NULL;
@@ -375,13 +390,13 @@ gboolean linestack_traverse(struct linestack_context *nd,
 	if (lm_from == NULL) {
 		start_index = 0;
 	} else {
-		start_index = *lm_from;
+		start_index = marker_position(nd, lm_from);
 	}
 
 	if (lm_to == NULL) {
 		end_index = nd->count;
 	} else {
-		end_index = *((guint64 *)lm_to);
+		end_index = marker_position(nd, lm_to);
 	}
 
 	for (i = start_index; i < end_index; i++) {
@@ -463,8 +478,9 @@ linestack_marker linestack_get_marker(struct linestack_context *nd)
 	if (nd == NULL)
 		return NULL;
 
-	pos = g_new0(guint64, 1);
-	(*pos) = nd->count;
+	pos = g_new0(guint64, 2);
+	pos[0] = nd->count;
+	pos[1] = nd->id;
 	return pos;
 }
 
diff --git a/src/repl_backends.c b/src/repl_backends.c
index 3c69940..44350a9 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -78,11 +78,15 @@ static void lastdisconnect_mark(struct irc_client *c, void *userdata)
 static void lastdisconnect_replicate(struct irc_client *c)
 {
 	linestack_marker lm = g_hash_table_lookup(lastdisconnect_backlog, c->network);
+	guint64 start[2] = { 0, 0 };
 	struct irc_network_state *ns;
 
 	if (c->network->linestack == NULL)
 		return;
 
+	if (lm == NULL)
+		lm = start;
+
 	ns = linestack_get_state(c->network->linestack, lm);
 	if (ns != NULL) {
 		client_send_state(c, ns);
@@ -111,12 +115,16 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 static void simple_replicate(struct irc_client *c)
 {
 	linestack_marker m;
+	guint64 start[2] = { 0, 0 };
 	struct irc_network_state *ns;
 
 	if (c->network->linestack == NULL)
 		return;
 
 	m = g_hash_table_lookup(simple_backlog, c->network);
+	if (m == NULL)
+		m = start;
+
 	ns = linestack_get_state(c->network->linestack, m);
 	if (ns) {
 		client_send_state(c, ns);
-- 
2.43.0


From 8fcb818b5558bd0e3cbe2cab373fba69a370b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:28 +0000
Subject: [PATCH 042/130] fix: states kept with the history lacked the server's
 capabilities and parts of the channels

---
 libirc/linestack.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index be7c042..3a1d980 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -695,7 +695,7 @@ gboolean linestack_replay(struct linestack_context *ctx,
 }
 
 
-#define marshall_new(m,t) if ((m) == MARSHALL_PULL) *(t) = g_malloc(sizeof(**t));
+#define marshall_new(m,t) if ((m) == MARSHALL_PULL) *(t) = g_malloc0(sizeof(**t));
 
 static const char tabs[10] = {'\t', '\t', '\t', '\t', '\t',
 			       '\t', '\t', '\t', '\t', '\t' };
@@ -910,6 +910,7 @@ static gboolean marshall_network_nick (struct irc_network_state *nst, const char
 	ret &= marshall_string(nst, "hostname", level+1, m, t, &n->hostname);
 	ret &= marshall_string(nst, "hostmask", level+1, m, t, &n->hostmask);
 	ret &= marshall_string(nst, "server", level+1, m, t, &n->server);
+	ret &= marshall_int(nst, "hops", level+1, m, t, &n->hops);
 	if (m == MARSHALL_PULL)
 		n->channel_nicks = NULL;
 	return ret;
@@ -999,10 +1000,14 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	ret &= marshall_string(nst, "topic", level+1, m, t, &(*c)->topic);
 	ret &= marshall_string(nst, "topic_set_by", level+1, m, t, &(*c)->topic_set_by);
 	ret &= marshall_time(nst, "topic_set_time", level+1, m, t, &(*c)->topic_set_time);
+	ret &= marshall_time(nst, "creation_time", level+1, m, t, &(*c)->creation_time);
+	ret &= marshall_bool(nst, "mode_received", level+1, m, t, &(*c)->mode_received);
 	for (i = 0; i < MAXMODES; i++) {
 		char name[20];
 		g_snprintf(name, sizeof(name), "mode_nicklist[%d]", i);
 		ret &= marshall_GList(nst, name, level+1, m, t, &(*c)->chanmode_nicklist[i], (marshall_fn_t)marshall_nicklist_entry);
+		g_snprintf(name, sizeof(name), "mode_present[%d]", i);
+		ret &= marshall_bool(nst, name, level+1, m, t, &(*c)->chanmode_nicklist_present[i]);
 		g_snprintf(name, sizeof(name), "mode_option[%d]", i);
 		ret &= marshall_string(nst, name, level+1, m, t, &(*c)->chanmode_option[i]);
 	}
@@ -1065,6 +1070,30 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	return ret;
 }
 
+/* What the server supports decides how its lines have to be read */
+static gboolean marshall_features(struct irc_network_state *nst, int level, enum marshall_mode m, GIOChannel *t)
+{
+	char *features = NULL;
+	int casemapping = nst->info->casemapping;
+	gboolean ret;
+
+	if (m == MARSHALL_PUSH)
+		features = network_info_string(nst->info);
+	ret = marshall_string(nst, "features", level, m, t, &features);
+	if (m == MARSHALL_PULL && ret && features != NULL) {
+		char **parts = g_strsplit(features, " ", 0);
+		int i;
+		for (i = 0; parts[i]; i++)
+			network_info_parse(nst->info, parts[i]);
+		g_strfreev(parts);
+	}
+	g_free(features);
+	/* Not in the list if it isn't known */
+	ret &= marshall_int(nst, "casemapping", level, m, t, &casemapping);
+	nst->info->casemapping = casemapping;
+	return ret;
+}
+
 static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t,
 									   struct irc_network_state *n)
 {
@@ -1074,7 +1103,9 @@ static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t,
 		g_free(n->me.hostmask);
 		n->me.hostmask = NULL;
 	}
+	ret &= marshall_features(n, 0, m, t);
 	ret &= marshall_network_nick(n, "me", 0, m, t, &n->me);
+	ret &= marshall_bool(n, "is_away", 0, m, t, &n->is_away);
 	ret &= marshall_GList(n, "nicks", 0, m, t, &n->nicks, (marshall_fn_t)marshall_network_nick_p);
 	ret &= marshall_GList(n, "channels", 0, m, t, &n->channels, (marshall_fn_t)marshall_channel_state);
 
-- 
2.43.0


From 334778ceb169ac010ab8d62ee3dcb55296b09d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:28 +0000
Subject: [PATCH 043/130] fix: the state at the start of the history missed
 what happened during login

---
 libirc/connection.c | 2 --
 src/network.c       | 5 +++++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index 253f55a..715a9b8 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -53,8 +53,6 @@ static void server_send_login (struct irc_network *s)
 	network_state_set_log_fn(s->external_state, state_log_helper, s);
 	if (s->callbacks->state_set)
 		s->callbacks->state_set(s);
-	g_assert(s->linestack != NULL);
-
 	if (login_details->password != NULL) {
 		network_send_args(s, "PASS", login_details->password, NULL);
 	}
diff --git a/src/network.c b/src/network.c
index 2118b69..4a62ac6 100644
--- a/src/network.c
+++ b/src/network.c
@@ -154,6 +154,11 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 		network_update_isupport(n->info, n->external_state->info);
 
+		/* The history starts here, what happened during login isn't in it */
+		if (n->linestack != NULL)
+			free_linestack_context(n->linestack);
+		n->linestack = new_linestack(n, n->global->config->linestack_dir);
+
 		nickserv_identify_me(n, n->external_state->me.nick);
 
 		clients_send_state(n->clients, n->external_state);
-- 
2.43.0


From dc1d5399c7784f2d97fa29e593d9d513aa6740ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:52 +0000
Subject: [PATCH 044/130] fix: lines with a Unicode paragraph separator were
 cut in two

---
 libirc/linestack.c     | 2 ++
 libirc/listener.c      | 1 +
 libirc/transport_ioc.c | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 3a1d980..72c45c7 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -134,6 +134,7 @@ struct linestack_context *create_linestack(const char *data_dir,
 	g_free(data_file);
 
 	g_io_channel_set_encoding(data->line_file, NULL, NULL);
+	g_io_channel_set_line_term(data->line_file, "\n", 1);
 
 	index_file = g_build_filename(data_dir, "index", NULL);
 	g_assert(index_file != NULL);
@@ -283,6 +284,7 @@ struct irc_network_state *linestack_get_state(
 	g_free(data_file);
 
 	g_io_channel_set_encoding(state_file, NULL, NULL);
+	g_io_channel_set_line_term(state_file, "\n", 1);
 
 	ret = network_state_init("", "", "");
 	if (!marshall_network_state(MARSHALL_PULL, state_file, ret)) {
diff --git a/libirc/listener.c b/libirc/listener.c
index 4b352c5..7568b50 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -330,6 +330,7 @@ struct pending_client *listener_new_pending_client(struct irc_listener *listener
 	g_io_channel_set_close_on_unref(c, TRUE);
 	g_io_channel_set_encoding(c, NULL, NULL);
 	g_io_channel_set_flags(c, G_IO_FLAG_NONBLOCK, NULL);
+	g_io_channel_set_line_term(c, "\n", 1);
 	pc = g_new0(struct pending_client, 1);
 #ifdef HAVE_GSSAPI
 	pc->authn_name = GSS_C_NO_NAME;
diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 7fbf216..3295c41 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -352,6 +352,8 @@ struct irc_transport *irc_transport_new_iochannel(GIOChannel *iochannel)
 	backend_data->pending_lines = g_queue_new();
 	backend_data->outgoing_iconv = backend_data->incoming_iconv = (GIConv)-1;
 	g_io_channel_ref(backend_data->incoming);
+	/* By default Unicode paragraph separators end lines as well */
+	g_io_channel_set_line_term(iochannel, "\n", 1);
 
 	return ret;
 }
-- 
2.43.0


From 0bb0a437fb6c4ebdf9ee8112b6e2421a04ba5570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:32 +0000
Subject: [PATCH 045/130] fix: the line after an empty first line of a client
 was swallowed

---
 libirc/listener.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libirc/listener.c b/libirc/listener.c
index 7568b50..6d97bf2 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -183,6 +183,10 @@ static gboolean handle_client_detect(GIOChannel *ioc, struct pending_client *pc)
 		pc->type = CLIENT_TYPE_SOCKS;
 		pc->socks.state = SOCKS_STATE_NEW;
 		return TRUE;
+	} else if (pc->first_byte == '\n') {
+		/* An empty line, the next line doesn't belong to it */
+		pc->type = CLIENT_TYPE_REGULAR;
+		return TRUE;
 	} else {
 		struct irc_line *l = NULL;
 		gchar *raw = NULL, *cvrt = NULL;
-- 
2.43.0


From a3b025c8a9a303a9d6d94bac2ff19e01a11e4d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:32 +0000
Subject: [PATCH 046/130] fix: listeners with a list of users but no password
 let everybody in

---
 src/listener.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/listener.c b/src/listener.c
index a58896d..8d670b9 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -85,6 +85,10 @@ static gboolean listener_check_username_password(struct irc_listener *listener,
 		return (strcmp(listener->global->config->password, password) == 0);
 	}
 
+	/* Only the users listed are allowed */
+	if (listener->config != NULL && listener->config->allow_rules != NULL)
+		return FALSE;
+
 	listener_log(LOG_WARNING, listener, "No password set, allowing client _without_ authentication!");
 	return TRUE;
 }
-- 
2.43.0


From 8b4a74a3f418949e793b7a8e9c0c0f6c24af5e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:32 +0000
Subject: [PATCH 047/130] fix: SOCKS clients hung when they tried another
 password right after a wrong one

---
 libirc/listener.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libirc/listener.c b/libirc/listener.c
index 6d97bf2..a198ed4 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -290,13 +290,11 @@ static gboolean handle_client_receive(GIOChannel *c, GIOCondition condition, gpo
 			}
 		} else if (pc->type == CLIENT_TYPE_SOCKS) {
 			gboolean ret;
-			enum socks_state state;
 
 			/* The messages that follow may have been read already */
 			do {
-				state = pc->socks.state;
 				ret = handle_client_socks_data(c, pc);
-			} while (ret && state != pc->socks.state &&
+			} while (ret &&
 					 g_io_channel_get_buffer_condition(c) & G_IO_IN);
 
 			if (!ret)
-- 
2.43.0


From 9a6004444d32105fc42c80fd7500981e45d8b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:32 +0000
Subject: [PATCH 048/130] fix: SOCKS replies were written through a misaligned
 pointer

---
 libirc/listener.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libirc/listener.c b/libirc/listener.c
index a198ed4..36bbe42 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -513,7 +513,8 @@ gboolean listener_socks_reply(struct pending_client *pc, guint8 err, guint8 atyp
 	header[2] = 0x0; /* Reserved */
 	header[3] = atyp;
 	memcpy(header+4, data, data_len);
-	*((guint16 *)(header+4+data_len)) = htons(port);
+	header[4+data_len] = (port >> 8) & 0xff;
+	header[4+data_len+1] = port & 0xff;
 
 	status = g_io_channel_write_chars(pc->connection, header,
 									  6 + data_len, &read, NULL);
-- 
2.43.0


From 090223e0d337519c3b57786da11cb9d998b04aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:35 +0000
Subject: [PATCH 049/130] fix: clients could register with an empty nick or one
 with blanks

---
 libirc/client.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libirc/client.c b/libirc/client.c
index 46e0cb2..8c9a60a 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -307,7 +307,8 @@ static gboolean process_from_pending_client(struct irc_client *client,
 					    const struct irc_line *l)
 {
 	if (!base_strcmp(l->args[0], "NICK")) {
-		if (l->argc < 2) {
+		if (l->argc < 2 || l->args[1][0] == '\0' ||
+			strchr(l->args[1], ' ') != NULL) {
 			client_send_response(client, ERR_NEEDMOREPARAMS,
 					     l->args[0], "Not enough parameters", NULL);
 			return TRUE;
-- 
2.43.0


From 13d06831a5ee848c7340b4f64532e1d2a9e359b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:21 +0000
Subject: [PATCH 050/130] fix: the proxy used all of the CPU while a peer
 accepted no data

---
 libirc/transport_ioc.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 3295c41..26da267 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -22,6 +22,7 @@
 #include "line.h"
 #include "util.h"
 #include <glib.h>
+#include <glib-unix.h>
 #include <sys/socket.h>
 #include <ctype.h>
 #include <fcntl.h>
@@ -152,8 +153,18 @@ static void irc_transport_iochannel_disconnect(void *data)
 		really_disconnect(backend_data);
 }
 
-static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
-									  void *_transport);
+static gboolean transport_send_queue(gint fd, GIOCondition cond,
+									  gpointer _transport);
+
+/* A watch on the channel would fire all the time, as there is usually still
+ * room in the buffer of the channel. */
+static gint watch_writable(struct irc_transport *transport)
+{
+	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
+
+	return g_unix_fd_add(g_io_channel_unix_get_fd(backend_data->incoming),
+						 G_IO_OUT, transport_send_queue, transport);
+}
 
 static gboolean irc_transport_iochannel_send_line(struct irc_transport *transport, const struct irc_line *l, GError **error)
 {
@@ -175,8 +186,7 @@ static gboolean irc_transport_iochannel_send_line(struct irc_transport *transpor
 
 	switch (status) {
 	case G_IO_STATUS_AGAIN:
-		backend_data->outgoing_id = g_io_add_watch(backend_data->incoming, G_IO_OUT,
-										transport_send_queue, transport);
+		backend_data->outgoing_id = watch_writable(transport);
 		g_queue_push_tail(backend_data->pending_lines, linedup(l));
 		break;
 	case G_IO_STATUS_EOF:
@@ -200,8 +210,7 @@ static gboolean irc_transport_iochannel_send_line(struct irc_transport *transpor
 	case G_IO_STATUS_NORMAL:
 		break;
 	case G_IO_STATUS_AGAIN:
-		backend_data->outgoing_id = g_io_add_watch(backend_data->incoming, G_IO_OUT,
-										transport_send_queue, transport);
+		backend_data->outgoing_id = watch_writable(transport);
 		break;
 	case G_IO_STATUS_ERROR:
 		transport->callbacks->log(transport, l, *error);
@@ -358,15 +367,15 @@ struct irc_transport *irc_transport_new_iochannel(GIOChannel *iochannel)
 	return ret;
 }
 
-static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
-									  void *_transport)
+static gboolean transport_send_queue(gint fd, GIOCondition cond,
+									  gpointer _transport)
 {
 	gboolean ret = FALSE;
 	struct irc_transport *transport = _transport;
 	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
 	GIOStatus status;
 
-	g_assert(ioc == backend_data->incoming);
+	g_assert(backend_data->incoming != NULL);
 
 	status = g_io_channel_flush(backend_data->incoming, NULL);
 	if (status == G_IO_STATUS_AGAIN)
-- 
2.43.0


From 9d8551a544d83266d25f2a53f8cecd54e1b9c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:40 +0000
Subject: [PATCH 051/130] fix: a connection closed while it accepted no data
 was used after it was freed

---
 libirc/transport_ioc.c | 61 ++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 26da267..abf320a 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -48,23 +48,6 @@ static void free_pending_line(void *_line, void *userdata)
 	free_line((struct irc_line *)_line);
 }
 
-static void irc_transport_iochannel_free_data(void *data)
-{
-	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)data;
-
-	g_assert(backend_data->pending_disconnect);
-
-	if (backend_data->outgoing_iconv != (GIConv)-1)
-		g_iconv_close(backend_data->outgoing_iconv);
-	if (backend_data->incoming_iconv != (GIConv)-1)
-		g_iconv_close(backend_data->incoming_iconv);
-
-	g_queue_foreach(backend_data->pending_lines, free_pending_line, NULL);
-	g_queue_free(backend_data->pending_lines);
-
-	g_free(backend_data);
-}
-
 static char *irc_transport_iochannel_get_peer_name(void *data)
 {
 	int fd;
@@ -129,26 +112,58 @@ static gboolean irc_transport_iochannel_set_charset(struct irc_transport *transp
 	return TRUE;
 }
 
-static void really_disconnect(struct irc_transport_data_iochannel *backend_data)
+static void stop_receiving(struct irc_transport_data_iochannel *backend_data)
 {
-	g_io_channel_unref(backend_data->incoming);
-
-	g_source_remove(backend_data->incoming_id);
-	if (backend_data->outgoing_id)
-		g_source_remove(backend_data->outgoing_id);
+	if (backend_data->incoming_id)
+		g_source_remove(backend_data->incoming_id);
+	backend_data->incoming_id = 0;
 	if (backend_data->buffered_id)
 		g_source_remove(backend_data->buffered_id);
 	backend_data->buffered_id = 0;
+}
 
+static void really_disconnect(struct irc_transport_data_iochannel *backend_data)
+{
+	stop_receiving(backend_data);
+	if (backend_data->outgoing_id)
+		g_source_remove(backend_data->outgoing_id);
+	backend_data->outgoing_id = 0;
+
+	g_io_channel_unref(backend_data->incoming);
 	backend_data->incoming = NULL;
 }
 
+static void irc_transport_iochannel_free_data(void *data)
+{
+	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)data;
+
+	g_assert(backend_data->pending_disconnect);
+
+	/* Some lines could not be sent before the disconnect */
+	if (backend_data->incoming != NULL)
+		really_disconnect(backend_data);
+
+	if (backend_data->outgoing_iconv != (GIConv)-1)
+		g_iconv_close(backend_data->outgoing_iconv);
+	if (backend_data->incoming_iconv != (GIConv)-1)
+		g_iconv_close(backend_data->incoming_iconv);
+
+	g_queue_foreach(backend_data->pending_lines, free_pending_line, NULL);
+	g_queue_free(backend_data->pending_lines);
+
+	g_free(backend_data);
+}
+
 static void irc_transport_iochannel_disconnect(void *data)
 {
 	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)data;
 
 	backend_data->pending_disconnect = TRUE;
 
+	/* Nothing can be done for lines that are still received from now on, while
+	 * those that weren't sent yet should still be */
+	stop_receiving(backend_data);
+
 	if (backend_data->outgoing_id == 0)
 		really_disconnect(backend_data);
 }
-- 
2.43.0


From 71afe4ad3ee5938556285eccac150f8e981f696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:40 +0000
Subject: [PATCH 052/130] fix: long lines were cut off when the peer accepted
 no data

---
 libirc/line.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libirc/line.c b/libirc/line.c
index d2c960e..ca9f863 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -161,12 +161,18 @@ GIOStatus irc_send_line(GIOChannel *c, GIConv iconv,
 	raw = irc_line_string_nl(l);
 	if (iconv != (GIConv)-1) {
 		cvrt = g_convert_with_iconv(raw, -1, iconv, NULL, NULL, error);
+		g_free(raw);
 		if (cvrt == NULL)
 			return G_IO_STATUS_ERROR;
-		g_free(raw);
 	} else {
 		cvrt = raw;
 	}
+
+	/* When nothing can be written now the whole line has to fit in the buffer,
+	 * what doesn't would be lost */
+	g_io_channel_set_buffer_size(c, MAX(g_io_channel_get_buffer_size(c),
+										2 * strlen(cvrt) + 1024));
+
 	ret = g_io_channel_write_chars(c, cvrt, -1, &bytes_written, error);
 	g_free(cvrt);
 
-- 
2.43.0


From 8018877c222829c3fb9dd77f24e96951d6b1db1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:40 +0000
Subject: [PATCH 053/130] fix: lines for a slow peer were lost after one that
 could not be converted

---
 libirc/transport_ioc.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index abf320a..1ba801e 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -385,7 +385,6 @@ struct irc_transport *irc_transport_new_iochannel(GIOChannel *iochannel)
 static gboolean transport_send_queue(gint fd, GIOCondition cond,
 									  gpointer _transport)
 {
-	gboolean ret = FALSE;
 	struct irc_transport *transport = _transport;
 	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
 	GIOStatus status;
@@ -394,7 +393,7 @@ static gboolean transport_send_queue(gint fd, GIOCondition cond,
 
 	status = g_io_channel_flush(backend_data->incoming, NULL);
 	if (status == G_IO_STATUS_AGAIN)
-		ret = TRUE;
+		return TRUE;
 
 	g_assert(backend_data->pending_lines != NULL);
 
@@ -412,7 +411,7 @@ static gboolean transport_send_queue(gint fd, GIOCondition cond,
 			return TRUE;
 		case G_IO_STATUS_ERROR:
 			transport->callbacks->log(transport, l, error);
-			g_error_free(error);
+			g_clear_error(&error);
 			break;
 		case G_IO_STATUS_EOF:
 			backend_data->outgoing_id = 0;
@@ -444,11 +443,10 @@ static gboolean transport_send_queue(gint fd, GIOCondition cond,
 		free_line(l);
 	}
 
-	if (!ret)
-		backend_data->outgoing_id = 0;
+	backend_data->outgoing_id = 0;
 
-	if (!ret && backend_data->pending_disconnect)
+	if (backend_data->pending_disconnect)
 		really_disconnect(backend_data);
 
-	return ret;
+	return FALSE;
 }
-- 
2.43.0


From bdfa7121bc9876ee767fe07761a090ef8fdb3e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:29 +0000
Subject: [PATCH 054/130] fix: a line in the wrong character set held up those
 received after it

---
 libirc/transport_ioc.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 1ba801e..990b578 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -278,7 +278,8 @@ static gboolean handle_recv_status(struct irc_transport *transport, GIOStatus st
 
 	if (status != G_IO_STATUS_AGAIN) {
 		if (error->domain == G_CONVERT_ERROR &&
-			error->code == G_CONVERT_ERROR_ILLEGAL_SEQUENCE) {
+			(error->code == G_CONVERT_ERROR_ILLEGAL_SEQUENCE ||
+			 error->code == G_CONVERT_ERROR_PARTIAL_INPUT)) {
 			transport->callbacks->charset_error(transport,
 												error->message);
 		} else {
@@ -315,9 +316,17 @@ static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
 		gboolean ret = TRUE;
 		
 		while ((status = irc_recv_line(c, backend_data->incoming_iconv, &error,
-									   &l)) == G_IO_STATUS_NORMAL) {
-
-			ret &= transport->callbacks->recv(transport, l);
+									   &l)) == G_IO_STATUS_NORMAL ||
+			   (status == G_IO_STATUS_ERROR &&
+				error->domain == G_CONVERT_ERROR)) {
+
+			if (status == G_IO_STATUS_NORMAL) {
+				ret &= transport->callbacks->recv(transport, l);
+			} else {
+				/* This line is of no use, but others may be waiting already */
+				ret &= handle_recv_status(transport, status, error);
+				g_clear_error(&error);
+			}
 			free_line(l);
 
 			if (!ret)
-- 
2.43.0


From ab5c4d97d7ad928db626540b461c33e5f767ff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:48 +0000
Subject: [PATCH 055/130] fix: comparing the first characters of names looked
 at the one behind them

---
 libirc/util.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libirc/util.c b/libirc/util.c
index b139315..24a859b 100644
--- a/libirc/util.c
+++ b/libirc/util.c
@@ -64,6 +64,9 @@ static inline int str_cmphelper(const char *a, const char *b, size_t len, char s
 			break;
 	}
 
+	if (i >= len)
+		return 0;
+
 	return a[i]-b[i];
 }
 
-- 
2.43.0


From 33dc5987243c06afa2d3e1a5b285dc52f92e205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:48 +0000
Subject: [PATCH 056/130] fix: NickServ passwords were kept by nick without
 regard for the case mapping of the network

---
 src/nickserv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nickserv.c b/src/nickserv.c
index e8c21ee..1f800cf 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -97,7 +97,7 @@ static void cache_nickserv_pass(struct irc_network *n, const char *newpass)
 		e = gl->data;
 
 		if (e->network && !strcasecmp(e->network, n->name) &&
-			!strcasecmp(e->nick, n->external_state->me.nick)) {
+			!irccmp(n->external_state->info, e->nick, n->external_state->me.nick)) {
 			break;
 		}
 
-- 
2.43.0


From a6c908b966b5df1b9a21f735c8690e1220af2ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:48 +0000
Subject: [PATCH 057/130] fix: looking up the history of a channel or nick
 depended on how it was spelled

---
 libirc/linestack.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 72c45c7..86332c2 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -45,6 +45,8 @@ struct linestack_context
 	int count;
 	int last_line_with_state;
 	guint64 id;
+	/* How names are compared on the network */
+	struct irc_network_info names;
 };
 
 /* A marker is a line number followed by the id of the linestack it was taken
@@ -112,6 +114,7 @@ struct linestack_context *create_linestack(const char *data_dir,
 	const char *mode;
 
 	data->id = ++last_id;
+	data->names.casemapping = state->info->casemapping;
 
 	g_mkdir(data_dir, 0700);
 	data_file = g_build_filename(data_dir, "lines", NULL);
@@ -422,6 +425,7 @@ gboolean linestack_traverse(struct linestack_context *nd,
 struct traverse_object_data {
 	linestack_traverse_fn handler;
 	const char *object;
+	const struct irc_network_info *names;
 	void *userdata;
 };
 
@@ -434,13 +438,13 @@ static gboolean traverse_object_handler(struct irc_line *l, time_t t, void *stat
 		return TRUE;
 
 	if (strchr(l->args[1], ',') == NULL) {
-		if (!strcmp(l->args[1], d->object))
+		if (!irccmp(d->names, l->args[1], d->object))
 			ret &= d->handler(l, t, d->userdata);
 	} else {
 		int i;
 		char **channels = g_strsplit(l->args[1], ",", 0);
 		for (i = 0; channels[i]; i++) {
-			if (!strcmp(channels[i], d->object)) {
+			if (!irccmp(d->names, channels[i], d->object)) {
 				gboolean ret = d->handler(l, t, d->userdata);
 				g_strfreev(channels);
 				return ret;
@@ -463,6 +467,7 @@ gboolean linestack_traverse_object(
 	g_assert(ctx != NULL);
 
 	d.object = obj;
+	d.names = &ctx->names;
 	d.userdata = userdata;
 	d.handler = hl;
 
-- 
2.43.0


From 063bb140a090981b129084f055c89be706ac7846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:01 +0000
Subject: [PATCH 058/130] fix: clients were told only a few of the capabilities
 of the server, or those of an earlier one

---
 src/network.c | 51 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/network.c b/src/network.c
index 4a62ac6..1ffd448 100644
--- a/src/network.c
+++ b/src/network.c
@@ -33,34 +33,36 @@
 static gboolean network_update_isupport(struct irc_network_info *net_info,
 										struct irc_network_info *remote_info)
 {
-	if (remote_info->name != NULL) {
-		g_free(net_info->name);
-		net_info->name = g_strdup(remote_info->name);
+	struct irc_network_info *info, tmp;
+	char *features = network_info_string(remote_info);
+	char **tokens = g_strsplit(features, " ", 0);
+	int i;
+
+	info = network_info_init();
+	for (i = 0; tokens[i]; i++) {
+		if (tokens[i][0] != '\0')
+			network_info_parse(info, tokens[i]);
 	}
+	g_strfreev(tokens);
+	g_free(features);
 
-	if (remote_info->prefix != NULL) {
-		g_free(net_info->prefix);
-		net_info->prefix = g_strdup(remote_info->prefix);
-	}
+	info->supported_user_modes = g_strdup(remote_info->supported_user_modes);
+	info->supported_channel_modes = g_strdup(remote_info->supported_channel_modes);
 
-	if (remote_info->chantypes != NULL) {
-		g_free(net_info->chantypes);
-		net_info->chantypes = g_strdup(remote_info->chantypes);
-	}
+	/* Extended NAMES replies aren't understood by the proxy itself */
+	info->namesx = info->uhnames = FALSE;
 
-	if (remote_info->casemapping != CASEMAP_UNKNOWN) {
-		net_info->casemapping = remote_info->casemapping;
-	}
+	/* These depend on the proxy rather than on the server */
+	g_free(info->charset);
+	info->charset = g_strdup(net_info->charset);
+	g_free(info->ircd);
+	info->ircd = g_strdup(net_info->ircd);
+	info->forced_nick_changes = net_info->forced_nick_changes;
 
-	if (remote_info->supported_user_modes != NULL) {
-		g_free(net_info->supported_user_modes);
-		net_info->supported_user_modes = g_strdup(remote_info->supported_user_modes);
-	}
-
-	if (remote_info->supported_channel_modes != NULL) {
-		g_free(net_info->supported_channel_modes);
-		net_info->supported_channel_modes = g_strdup(remote_info->supported_channel_modes);
-	}
+	tmp = *net_info;
+	*net_info = *info;
+	*info = tmp;
+	free_network_info(info);
 
 	return TRUE;
 }
@@ -128,6 +130,9 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 		return TRUE;
 	} else if (!base_strcmp(l->args[0], "ERROR")) {
 		network_log(LOG_ERROR, n, "error: %s", l->args[1]);
+	} else if (response == RPL_BOUNCE &&
+			   n->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD) {
+		network_update_isupport(n->info, n->external_state->info);
 	} else if (response == ERR_NICKNAMEINUSE &&
 			  n->connection.state == NETWORK_CONNECTION_STATE_LOGIN_SENT){
 		char *tmp = g_strdup_printf("%s_", l->args[2]);
-- 
2.43.0


From 7dbae7dba3661f7d30dff53037deb08b8aaf7e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:01 +0000
Subject: [PATCH 059/130] fix: the character set of the clients was used for
 the server

---
 src/network.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/network.c b/src/network.c
index 1ffd448..ec80d59 100644
--- a/src/network.c
+++ b/src/network.c
@@ -150,9 +150,9 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 		/* Always save networks we've successfully connected to. */
 		nc->implicit = 0;
 
-		if (!network_set_charset(n, get_charset(n->info))) {
+		if (!network_set_charset(n, get_charset(n->external_state->info))) {
 			network_log(LOG_WARNING, n, "Error setting charset %s",
-				get_charset(n->info));
+				get_charset(n->external_state->info));
 		}
 
 		network_log(LOG_INFO, n, "Successfully logged in");
-- 
2.43.0


From b0aeb4a78e4935d685fba24d31f3af9e965b9584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:01 +0000
Subject: [PATCH 060/130] fix: SILENCE without a limit kept the limit
 advertised before

---
 libirc/isupport.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/libirc/isupport.c b/libirc/isupport.c
index 34c0c6a..9f29084 100644
--- a/libirc/isupport.c
+++ b/libirc/isupport.c
@@ -509,11 +509,8 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 	} else if (!base_strcmp(key, "KEYLEN")) {
 		info->keylen = atoi(val);
 	} else if (!base_strcmp(key, "SILENCE")) {
-		if (val) {
-			info->silence_limit = atoi(val);
-			info->silence = TRUE;
-		} else
-			info->silence = TRUE;
+		info->silence_limit = (val != NULL)?atoi(val):0;
+		info->silence = TRUE;
 	} else if (!base_strcmp(key, "CHANTYPES")) {
 		g_free(info->chantypes);
 		info->chantypes = g_strdup(val);
-- 
2.43.0


From 6b82aa0f57f904419e414a5f94c609a1fbc59cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:47 +0000
Subject: [PATCH 061/130] fix: remains of earlier contents stayed at the end of
 the NickServ password file

---
 src/keyfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keyfile.c b/src/keyfile.c
index 22a67e3..3a63af5 100644
--- a/src/keyfile.c
+++ b/src/keyfile.c
@@ -90,7 +90,7 @@ gboolean keyfile_write_file(GList *nicks, const char *header,
 	GList *gl;
 	int fd;
 
-	fd = open(filename, O_WRONLY | O_CREAT, 0600);
+	fd = open(filename, O_WRONLY | O_CREAT | O_TRUNC, 0600);
 
 	if (fd == -1) {
 		log_global(LOG_WARNING, "Unable to write nickserv file `%s': %s", filename, strerror(errno));
-- 
2.43.0


From a7baa71c0e4f5bcf80003ffefe3d2528c9bbaddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:47 +0000
Subject: [PATCH 062/130] fix: NickServ passwords not in UTF-8 kept those after
 them from being loaded

---
 src/keyfile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keyfile.c b/src/keyfile.c
index 3a63af5..c629fff 100644
--- a/src/keyfile.c
+++ b/src/keyfile.c
@@ -42,6 +42,10 @@ gboolean keyfile_read_file(const char *filename, char commentchar, GList **nicks
 		return FALSE;
 	}
 
+	/* Nicks and passwords can be in any character set */
+	g_io_channel_set_encoding(gio, NULL, NULL);
+	g_io_channel_set_line_term(gio, "\n", 1);
+
 	while (G_IO_STATUS_NORMAL == g_io_channel_read_line(gio, &ret, &nr, &term, NULL))
 	{
 		char **parts;
-- 
2.43.0


From e873b78f975c4ebf3a5830f5a2819c442972fb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:47 +0000
Subject: [PATCH 063/130] fix: the NickServ password for all networks was used
 rather than the one for the network

---
 src/nickserv.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nickserv.c b/src/nickserv.c
index 1f800cf..98a1c74 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -36,6 +36,8 @@
 const char *nickserv_find_nick(struct irc_network *n, const char *nick)
 {
 	GList *gl;
+	const char *any_network = NULL;
+
 	for (gl = n->global->nickserv_nicks; gl; gl = gl->next) {
 		struct keyfile_entry *e = gl->data;
 
@@ -44,14 +46,17 @@ const char *nickserv_find_nick(struct irc_network *n, const char *nick)
 		}
 
 		if (e->network == NULL) {
-			return e->pass;
+			if (any_network == NULL)
+				any_network = e->pass;
+			continue;
 		}
 		if (!strcasecmp(e->network, n->name)) {
 			return e->pass;
 		}
 	}
 
-	return NULL;
+	/* A password for this network comes before one for all networks */
+	return any_network;
 }
 
 const char *nickserv_nick(struct irc_network *n)
-- 
2.43.0


From 467267e5057e6319f36aa4326f796609e9da2361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:47 +0000
Subject: [PATCH 064/130] fix: the user was identified when others took a nick,
 and not when no client was attached

---
 src/network.c  | 11 +++++++++++
 src/nickserv.c |  6 ------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/network.c b/src/network.c
index ec80d59..c25e7ab 100644
--- a/src/network.c
+++ b/src/network.c
@@ -93,6 +93,7 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 	struct irc_line *lc;
 	struct network_config *nc = n->private_data;
 	int response;
+	gboolean own_nick;
 
 	g_assert(n != NULL);
 	g_assert(l != NULL);
@@ -117,6 +118,9 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 	g_assert(n->external_state != NULL);
 
+	own_nick = !base_strcmp(l->args[0], "NICK") && l->argc > 1 && l->origin != NULL &&
+		line_from_nick(n->external_state->info, l, n->external_state->me.nick);
+
 	state_handle_data(n->external_state, l);
 
 	g_assert(l->args[0]);
@@ -186,6 +190,13 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 		}
 	}
 
+	/* The new nick may have to be identified as well, whoever else took a
+	 * nick or is on another network must not be mistaken for the user */
+	if (own_nick && !strcmp(l->args[1], n->external_state->me.nick) &&
+		n->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD) {
+		nickserv_identify_me(n, n->external_state->me.nick);
+	}
+
 	if (n->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD) {
 		gboolean linestack_store = TRUE;
 		if (irc_line_respcode(l)) {
diff --git a/src/nickserv.c b/src/nickserv.c
index 98a1c74..58fbf1d 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -129,12 +129,6 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 {
 	static char *nickattempt = NULL;
 
-	/* User has changed his/her nick. Check whether this nick needs to be identified */
-	if (dir == FROM_SERVER && !irccmp(n->info, l->args[0], "NICK") &&
-	   l->argc > 1 && nickattempt && !irccmp(n->info, nickattempt, l->args[1])) {
-		nickserv_identify_me(n, l->args[1]);
-	}
-
 	/* Keep track of the last nick that the user tried to take */
 	if (dir == TO_SERVER && !irccmp(n->info, l->args[0], "NICK") &&
 		l->argc > 1) {
-- 
2.43.0


From 28da95c521c993b1ade49dc88060ea605a2f98ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:34 +0000
Subject: [PATCH 065/130] fix: messages without text crashed the proxy when
 looking for those that match

---
 src/repl_backends.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/repl_backends.c b/src/repl_backends.c
index 44350a9..ebaee02 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -34,6 +34,9 @@ static gboolean check_highlight(struct irc_line *l, time_t t, void *userdata)
 		base_strcmp(l->args[0], "NOTICE") != 0)
 		return TRUE;
 
+	if (l->argc <= 2)
+		return TRUE;
+
 	for (i = 0; matches && matches[i]; i++) {
 		if (strstr(l->args[2], matches[i]) != NULL) {
 			return client_send_line(c, l, NULL);
-- 
2.43.0


From b59ef0512197c94061fdb6c8cd4402797d7eddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:34 +0000
Subject: [PATCH 066/130] fix: the time was missing from the messages that
 match

---
 src/repl_backends.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/repl_backends.c b/src/repl_backends.c
index ebaee02..23d77d0 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -39,6 +39,9 @@ static gboolean check_highlight(struct irc_line *l, time_t t, void *userdata)
 
 	for (i = 0; matches && matches[i]; i++) {
 		if (strstr(l->args[2], matches[i]) != NULL) {
+			struct ctrlproxy_config *config = c->network->global->config;
+			if (config->report_time != REPORT_TIME_NEVER)
+				line_prefix_time(l, t + config->report_time_offset);
 			return client_send_line(c, l, NULL);
 		}
 	}
-- 
2.43.0


From b765b000e20f46bb5b3742583b7fd881db37bf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:00 +0000
Subject: [PATCH 067/130] fix: closing a connection that never became a client
 counted as the loss of a client

---
 src/client.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/client.c b/src/client.c
index 06d795c..d8134c5 100644
--- a/src/client.c
+++ b/src/client.c
@@ -307,9 +307,12 @@ static void handle_client_disconnect(struct irc_client *c)
 {
 	GList *l;
 
-	for (l = lose_client_hooks; l; l = l->next) {
-		struct lose_client_hook_data *d = (struct lose_client_hook_data *)l->data;
-		d->hook(c, d->userdata);
+	/* A connection that never became a client isn't lost either */
+	if (c->network != NULL && g_list_find(c->network->clients, c) != NULL) {
+		for (l = lose_client_hooks; l; l = l->next) {
+			struct lose_client_hook_data *d = (struct lose_client_hook_data *)l->data;
+			d->hook(c, d->userdata);
+		}
 	}
 
 	ctcp_client_forget(c);
-- 
2.43.0


From e92e0ab97c4b32307f52ff7437f173636d7917d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:20 +0000
Subject: [PATCH 068/130] fix: messages sent by the proxy itself counted as
 said by the user for the simple backlog

---
 src/internals.h     |  2 ++
 src/network.c       |  2 ++
 src/repl_backends.c | 24 ++++++++++++++++--------
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/internals.h b/src/internals.h
index f40b329..58832ab 100644
--- a/src/internals.h
+++ b/src/internals.h
@@ -136,6 +136,8 @@ void client_replicate(struct irc_client *);
 
 gboolean init_replication(void);
 
+void repl_note_own_line(struct irc_network *n, const struct irc_line *l);
+
 /* main.c */
 void free_global(struct global *);
 void config_load_notify(struct global *global);
diff --git a/src/network.c b/src/network.c
index c25e7ab..57606fb 100644
--- a/src/network.c
+++ b/src/network.c
@@ -580,6 +580,8 @@ gboolean network_forward_line(struct irc_network *s, struct irc_client *c,
 		}
 	}
 
+	repl_note_own_line(s, l);
+
 	return network_send_line(s, NULL, l);
 }
 
diff --git a/src/repl_backends.c b/src/repl_backends.c
index 23d77d0..fde8e7b 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -18,6 +18,7 @@
 */
 
 #include "ctrlproxy.h"
+#include "internals.h"
 #include <string.h>
 
 static char **matches = NULL;
@@ -104,18 +105,26 @@ static void lastdisconnect_replicate(struct irc_client *c)
 				   c->network->global->config->report_time_offset);
 }
 
-static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum data_direction dir, void *userdata)
+/**
+ * Remember the place in the history where the user last said something.
+ *
+ * @param n Network the user talks on
+ * @param l Line sent by one of the clients of the user
+ */
+void repl_note_own_line(struct irc_network *n, const struct irc_line *l)
 {
-	if(dir != TO_SERVER) return TRUE;
+	if (simple_backlog == NULL || n->linestack == NULL)
+		return;
 
 	if (base_strcmp(l->args[0], "PRIVMSG") &&
-		base_strcmp(l->args[0], "NOTICE")) return TRUE;
+		base_strcmp(l->args[0], "NOTICE")) return;
 
-	if (n->linestack != NULL)
-		g_hash_table_replace(simple_backlog, irc_network_ref(n),
-							 linestack_get_marker(n->linestack));
+	/* Requests and replies made by the client rather than the user */
+	if (l->argc > 2 && l->args[2][0] == '\001' &&
+		base_strncmp(l->args[2], "\001ACTION", 7) != 0) return;
 
-	return TRUE;
+	g_hash_table_replace(simple_backlog, irc_network_ref(n),
+						 linestack_get_marker(n->linestack));
 }
 
 static void simple_replicate(struct irc_client *c)
@@ -174,7 +183,6 @@ gboolean init_replication(void)
 	simple_backlog = g_hash_table_new_full(NULL, NULL,
 		(GDestroyNotify)irc_network_unref,
 		(GDestroyNotify)linestack_free_marker);
-	add_server_filter("repl_simple", log_data, NULL, 200);
 
 	return TRUE;
 }
-- 
2.43.0


From 9f8a454f87e56bd7fcc8bb3b0b1509379be32639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:21 +0000
Subject: [PATCH 069/130] fix: states read back from the history had topics set
 at the time of reading

---
 libirc/linestack.c |  2 +-
 libirc/state.c     | 16 +++++++++++++---
 libirc/state.h     |  2 ++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 86332c2..51c7146 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -689,7 +689,7 @@ gboolean linestack_send_object(struct linestack_context *ctx, const char *obj, l
 static gboolean replay_line(struct irc_line *l, time_t t, void *state)
 {
 	struct irc_network_state *st = state;
-	state_handle_data(st, l);
+	state_handle_data_at(st, l, t);
 	return TRUE;
 }
 
diff --git a/libirc/state.c b/libirc/state.c
index c3398d8..02b5632 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -20,6 +20,9 @@
 #include "internals.h"
 #include "irc.h"
 
+/* When the line being handled was received */
+static time_t line_time;
+
 enum mode_type { REMOVE = 0, ADD = 1 };
 
 #define CHECK_ORIGIN(s, l, name) \
@@ -638,7 +641,7 @@ static void handle_topic(struct irc_network_state *s, const struct irc_line *l)
 		g_free(c->topic_set_by);
 	}
 	c->topic = g_strdup(l->args[2]);
-	c->topic_set_time = time(NULL);
+	c->topic_set_time = line_time;
 	c->topic_set_by = line_get_nick(l);
 }
 
@@ -882,7 +885,7 @@ static void handle_whoreply(struct irc_network_state *s, const struct irc_line *
 	g_free(cn->last_flags);
 	cn->last_flags = g_strdup(l->args[7]);
 
-	cn->last_update = time(NULL);
+	cn->last_update = line_time;
 }
 
 static void handle_end_who(struct irc_network_state *s, const struct irc_line *l)
@@ -944,7 +947,7 @@ static int channel_state_change_mode(struct irc_network_state *s, struct network
 		if (channel_mode_nicklist_present(c, mode)) {
 			if (set) {
 				nicklist_add_entry(&channel_mode_nicklist(c, mode), opt_arg,
-								   by?by->nick:NULL, time(NULL));
+								   by?by->nick:NULL, line_time);
 			} else {
 				if (!nicklist_remove_entry(&channel_mode_nicklist(c, mode), opt_arg))  {
 					network_state_log(LOG_WARNING, s, "Unable to remove nonpresent %c MODE entry '%s' on %s", mode, opt_arg, c->name);
@@ -1254,9 +1257,16 @@ static struct irc_command {
 };
 
 gboolean state_handle_data(struct irc_network_state *s, const struct irc_line *l)
+{
+	return state_handle_data_at(s, l, time(NULL));
+}
+
+gboolean state_handle_data_at(struct irc_network_state *s, const struct irc_line *l, time_t t)
 {
 	int i,j;
 
+	line_time = t;
+
 	if (s == NULL || l == NULL || l->args == NULL || l->args[0] == NULL)
 		return FALSE;
 
diff --git a/libirc/state.h b/libirc/state.h
index 496fd34..c6f1c7f 100644
--- a/libirc/state.h
+++ b/libirc/state.h
@@ -135,6 +135,8 @@ struct irc_network_state
 G_GNUC_WARN_UNUSED_RESULT G_GNUC_MALLOC G_MODULE_EXPORT struct irc_network_state *network_state_init(const char *nick, const char *username, const char *hostname);
 G_MODULE_EXPORT void free_network_state(struct irc_network_state *);
 G_MODULE_EXPORT gboolean state_handle_data(struct irc_network_state *s, const struct irc_line *l);
+/** Handle a line received at an earlier time */
+G_MODULE_EXPORT gboolean state_handle_data_at(struct irc_network_state *s, const struct irc_line *l, time_t t);
 
 G_MODULE_EXPORT struct irc_channel_state *find_channel(struct irc_network_state *st, const char *name);
 G_MODULE_EXPORT struct channel_nick *find_channel_nick(struct irc_channel_state *c, const char *name);
-- 
2.43.0


From 0660e4d85fcb65f5ea61bd41df6a57c14bcd3b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:35 +0000
Subject: [PATCH 070/130] fix: NAMES, TOPIC and WHO were answered from memory
 before everything had been received

---
 libirc/state.c |  5 +++--
 libirc/state.h |  1 +
 src/cache.c    | 15 +++++++++++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 02b5632..d4bd485 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -726,9 +726,10 @@ static void handle_namreply(struct irc_network_state *s, const struct irc_line *
 static void handle_end_names(struct irc_network_state *s, const struct irc_line *l)
 {
 	struct irc_channel_state *c = find_channel(s, l->args[2]);
-	if (c != NULL)
+	if (c != NULL) {
 		c->namreply_started = FALSE;
-	else
+		c->namreply_received = TRUE;
+	} else
 		network_state_log(LOG_WARNING, s,
 				  "Can't end /NAMES command for %s: channel not found",
 				  l->args[2]);
diff --git a/libirc/state.h b/libirc/state.h
index c6f1c7f..58334ad 100644
--- a/libirc/state.h
+++ b/libirc/state.h
@@ -97,6 +97,7 @@ struct irc_channel_state {
 	irc_modes_t modes;
 	time_t creation_time;
 	gboolean namreply_started;
+	gboolean namreply_received; /* whether a complete list of names was received */
 	gboolean banlist_started;
 	gboolean invitelist_started;
 	gboolean exceptlist_started;
diff --git a/src/cache.c b/src/cache.c
index 5c71f1c..21a3c5f 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -107,6 +107,11 @@ static gboolean client_try_cache_topic(struct irc_client *c,
 		return FALSE;
 	}
 
+	/* The topic (if there is one) is sent before the names when joining */
+	if (!ch->namreply_received) {
+		return FALSE;
+	}
+
 	client_send_topic(c, ch, TRUE);
 
 	return TRUE;
@@ -164,6 +169,11 @@ static gboolean client_try_cache_who(struct irc_client *c, struct irc_network_st
 		return FALSE;
 	}
 
+	/* Only if all the names are known */
+	if (!ch->namreply_received || ch->namreply_started) {
+		return FALSE;
+	}
+
 	now = time(NULL);
 
 	/* Check that the cache data hasn't expired yet */
@@ -226,6 +236,11 @@ static gboolean client_try_cache_names(struct irc_client *c,
 		return FALSE;
 	}
 
+	/* Only if all the names are known */
+	if (!ch->namreply_received || ch->namreply_started) {
+		return FALSE;
+	}
+
 	client_send_nameslist(c, ch);
 
 	return TRUE;
-- 
2.43.0


From 6c42af1ea14d534f772d27ecc3fe3fb01a9e4f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:35 +0000
Subject: [PATCH 071/130] fix: ban lists were answered from memory without
 being known, or before a query for other lists was forwarded

---
 src/cache.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/cache.c b/src/cache.c
index 21a3c5f..22affde 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -29,8 +29,6 @@ static gboolean client_try_cache_mode(struct irc_client *c,
 				      struct irc_line *l,
 				      const struct cache_settings *settings)
 {
-	int i;
-	char m;
 	struct irc_channel_state *ch;
 
 	g_assert(l != NULL);
@@ -54,13 +52,16 @@ static gboolean client_try_cache_mode(struct irc_client *c,
 			return FALSE;
 		}
 
-		for (i = 0; (m = l->args[2][i]); i++) {
-			switch (m) {
-			case 'b': client_send_banlist(c, ch); break;
-			default: return FALSE;
-			}
+		if (strcmp(l->args[2], "b") != 0) {
+			return FALSE;
+		}
+
+		if (!channel_mode_nicklist_present(ch, 'b') || ch->banlist_started) {
+			return FALSE;
 		}
 
+		client_send_banlist(c, ch);
+
 		return TRUE;
 	/* Queries in the form MODE #channel */
 	} else if (l->argc == 2) {
-- 
2.43.0


From 0e9be66760e5be9b0f5cdc642e488fe512e52938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:35 +0000
Subject: [PATCH 072/130] fix: no answer to a query for the modes of a channel
 without any

---
 libirc/client.c | 54 +++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 8c9a60a..860c9aa 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -837,35 +837,37 @@ gboolean client_send_banlist(struct irc_client *client, struct irc_channel_state
 gboolean client_send_channel_mode(struct irc_client *c, struct irc_channel_state *ch)
 {
 	char *mode;
-	mode = mode2string(ch->modes);
 	gboolean ret;
+	struct irc_line *l;
+	int i, j = 0;
 
-	if (mode != NULL) {
-		struct irc_line *l;
-		int i, j = 0;
-		l = g_new0(struct irc_line, 1);
-		l->args = g_new0(char *, 260);
-		l->origin = g_strdup(c->default_origin);
-		l->args[0] = g_strdup_printf("%03d", RPL_CHANNELMODEIS);
-		l->args[1] = g_strdup(client_get_default_target(c));
-		l->args[2] = g_strdup(ch->name);
-		l->args[3] = mode;
-		for (i = 0; mode[i]; i++) {
-			enum chanmode_type cmt = network_chanmode_type(mode[i], ch->network->info);
-
-			if ((cmt == CHANMODE_OPT_SETTING || cmt == CHANMODE_SETTING) &&
-				channel_mode_option(ch, mode[i])) {
-				l->args[4+j] = g_strdup(channel_mode_option(ch, mode[i]));
-				j++;
-			}
-			l->args[4+j] = NULL;
-		}
-		l->argc = 4+j;
-		ret = client_send_line(c, l, NULL);
-		free_line(l);
-		if (!ret) {
-			return FALSE;
+	mode = mode2string(ch->modes);
+	if (mode == NULL) {
+		mode = g_strdup("+");
+	}
+
+	l = g_new0(struct irc_line, 1);
+	l->args = g_new0(char *, 260);
+	l->origin = g_strdup(c->default_origin);
+	l->args[0] = g_strdup_printf("%03d", RPL_CHANNELMODEIS);
+	l->args[1] = g_strdup(client_get_default_target(c));
+	l->args[2] = g_strdup(ch->name);
+	l->args[3] = mode;
+	for (i = 0; mode[i]; i++) {
+		enum chanmode_type cmt = network_chanmode_type(mode[i], ch->network->info);
+
+		if ((cmt == CHANMODE_OPT_SETTING || cmt == CHANMODE_SETTING) &&
+			channel_mode_option(ch, mode[i])) {
+			l->args[4+j] = g_strdup(channel_mode_option(ch, mode[i]));
+			j++;
 		}
+		l->args[4+j] = NULL;
+	}
+	l->argc = 4+j;
+	ret = client_send_line(c, l, NULL);
+	free_line(l);
+	if (!ret) {
+		return FALSE;
 	}
 
 	if (ch->creation_time > 0) {
-- 
2.43.0


From d3ac3b7af8a4f2ed700bff40d06f4f36bccfb5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:35 +0000
Subject: [PATCH 073/130] fix: a topic that had been removed was reported as an
 empty one

---
 libirc/client.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 860c9aa..9178c1b 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -696,7 +696,8 @@ gboolean client_send_topic(struct irc_client *c, struct irc_channel_state *ch,
 					   gboolean explicit)
 {
 	gboolean ret;
-	if (ch->topic) {
+	gboolean has_topic = (ch->topic != NULL && ch->topic[0] != '\0');
+	if (has_topic) {
 		if (!client_send_response(c, RPL_TOPIC, ch->name, ch->topic, NULL)) {
 			return FALSE;
 		}
@@ -707,7 +708,7 @@ gboolean client_send_topic(struct irc_client *c, struct irc_channel_state *ch,
 		}
 	}
 
-	if (ch->topic_set_time != 0 && ch->topic_set_by != NULL) {
+	if (has_topic && ch->topic_set_time != 0 && ch->topic_set_by != NULL) {
 		char *tmp = g_strdup_printf("%ld", ch->topic_set_time);
 		ret = client_send_response(c, RPL_TOPICWHOTIME, ch->name, ch->topic_set_by,
 							 tmp, NULL);
-- 
2.43.0


From 8574ada9e856a954cf4e1ab0cf1650dbd7682936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:35 +0000
Subject: [PATCH 074/130] fix: WHO was answered from memory with real names and
 channel modes that had changed since

---
 libirc/state.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index d4bd485..c127d7f 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -858,13 +858,11 @@ static void handle_whoreply(struct irc_network_state *s, const struct irc_line *
 	nn->hops = strtol(l->args[8], &fullname, 10);
 	g_assert(fullname);
 
-	if (nn->fullname == NULL) {
-		if (fullname[0] == ' ')
-			fullname++;
+	if (fullname[0] == ' ')
+		fullname++;
 
-		g_free(nn->fullname);
-		nn->fullname = g_strdup(fullname);
-	}
+	g_free(nn->fullname);
+	nn->fullname = g_strdup(fullname);
 
 	g_free(nn->server);
 	nn->server = g_strdup(l->args[5]);
@@ -996,6 +994,8 @@ static int channel_state_change_mode(struct irc_network_state *s, struct network
 		} else {
 			modes_unset_mode(n->modes, mode);
 		}
+		/* What WHO said about this nick is no longer true */
+		n->last_update = 0;
 		return 1;
 	} else if (cmt == CHANMODE_BOOL) {
 		modes_change_mode(c->modes, set, mode);
-- 
2.43.0


From 0599b144d4ac6b54cbe4e509bf8bd4af0bac0c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:35 +0000
Subject: [PATCH 075/130] fix: lines in a list of names could be longer than an
 IRC line may be

---
 libirc/client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/client.c b/libirc/client.c
index 9178c1b..6455278 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -752,7 +752,7 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 
 		ret = TRUE;
 
-		if (l != NULL && len + strlen(arg) + 1 <= IRC_MAXLINELEN) {
+		if (l != NULL && len + strlen(arg) + 1 <= IRC_MAXLINELEN - 2) {
 			char *tmp = g_strdup_printf("%s %s", l->args[l->argc-1], arg);
 			g_free(l->args[l->argc-1]);
 			l->args[l->argc-1] = tmp;
-- 
2.43.0


From 50fe7c8ac15a9b5cdf77e728aa9024ab589c9c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:35 +0000
Subject: [PATCH 076/130] fix: an empty ban, exception or invitation list left
 the entries that were known before

---
 libirc/state.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libirc/state.c b/libirc/state.c
index c127d7f..5943e28 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -766,6 +766,9 @@ static void handle_end_invitelist(struct irc_network_state *s, const struct irc_
 		return;
 	}
 
+	if (!c->invitelist_started) {
+		free_nicklist(&channel_mode_nicklist(c, 'I'));
+	}
 	c->invitelist_started = FALSE;
 	channel_mode_nicklist_present(c,'I') = TRUE;
 }
@@ -800,6 +803,9 @@ static void handle_end_exceptlist(struct irc_network_state *s, const struct irc_
 			"Can't end exceptlist for %s: channel not found", l->args[2]);
 		return;
 	}
+	if (!c->exceptlist_started) {
+		free_nicklist(&channel_mode_nicklist(c, 'e'));
+	}
 	c->exceptlist_started = FALSE;
 	channel_mode_nicklist_present(c, 'e') = TRUE;
 }
@@ -839,6 +845,9 @@ static void handle_end_banlist(struct irc_network_state *s, const struct irc_lin
 		return;
 	}
 
+	if (!c->banlist_started) {
+		free_nicklist(&channel_mode_nicklist(c, 'b'));
+	}
 	c->banlist_started = FALSE;
 	channel_mode_nicklist_present(c,'b') = TRUE;
 }
-- 
2.43.0


From f29853daf9f80aa5604f0ff2e425285b703ffa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:07 +0000
Subject: [PATCH 077/130] fix: channel modes were answered from memory without
 parameters that were not known

---
 src/cache.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cache.c b/src/cache.c
index 22affde..737e749 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -30,6 +30,7 @@ static gboolean client_try_cache_mode(struct irc_client *c,
 				      const struct cache_settings *settings)
 {
 	struct irc_channel_state *ch;
+	int i;
 
 	g_assert(l != NULL);
 	g_assert(c != NULL);
@@ -74,6 +75,17 @@ static gboolean client_try_cache_mode(struct irc_client *c,
 		    return FALSE;
 		}
 
+		/* Not all servers tell everyone the parameters of all modes */
+		for (i = 0; i < MAXMODES; i++) {
+			enum chanmode_type cmt = network_chanmode_type(i, net->info);
+
+			if (ch->modes[i] && (cmt == CHANMODE_SETTING ||
+								 cmt == CHANMODE_OPT_SETTING) &&
+				channel_mode_option(ch, i) == NULL) {
+				return FALSE;
+			}
+		}
+
 		client_send_channel_mode(c, ch);
 
 		return TRUE;
-- 
2.43.0


From 65a758c5920c24a342a6b1f7ca65d749120be303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:29 +0000
Subject: [PATCH 078/130] fix: a server that could not be reached at once was
 tried forever instead of the next one

---
 libirc/connection.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index 715a9b8..f14adc0 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -845,8 +845,16 @@ static gboolean connect_server(struct irc_network *s)
 static gboolean delayed_connect_server(struct irc_network *s)
 {
 	g_assert(s);
-	connect_server(s);
-	return (s->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING);
+
+	/* This timer goes away, whatever happens */
+	s->reconnect_id = 0;
+	s->connection.state = NETWORK_CONNECTION_STATE_NOT_CONNECTED;
+
+	if (!connect_server(s) &&
+		s->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED)
+		reconnect(s);
+
+	return FALSE;
 }
 
 struct irc_network *irc_network_new(const struct irc_network_callbacks *callbacks, void *private_data)
-- 
2.43.0


From 9a339f2fb769cfe05451f6b40e1d5bd1b006549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:29 +0000
Subject: [PATCH 079/130] fix: probing a silent server could stop, as it was
 left undefined whether to go on

---
 libirc/connection.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index f14adc0..39c523a 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -398,18 +398,21 @@ static gboolean bindsock(struct irc_network *s,
  * Ping the network.
  *
  * @param server network to ping
- * @param ping_source GSource id of the ping event
+ * @return Whether to keep pinging
  */
-static void ping_server(struct irc_network *server, gboolean ping_source)
+static gboolean ping_server(struct irc_network *server)
 {
 	gint silent_time = time(NULL) - server->connection.last_line_recvd;
 	if (silent_time > MAX_SILENT_TIME) {
 		network_report_disconnect(server, "Ping timeout (%d seconds)",
 								  silent_time);
+		/* This removes the ping event */
 		reconnect(server);
 	} else if (silent_time > MIN_SILENT_TIME) {
 		network_send_args(server, "PING", "ctrlproxy", NULL);
 	}
+
+	return TRUE;
 }
 
 static gboolean connect_current_tcp_server(struct irc_network *s)
-- 
2.43.0


From 099508ce2968662944e74bb27e9cb3e8ad2c6959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:29 +0000
Subject: [PATCH 080/130] fix: a refusal during login that did not name the
 nick was answered with a nick called (null)_

---
 src/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index 57606fb..ec293ad 100644
--- a/src/network.c
+++ b/src/network.c
@@ -137,7 +137,7 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 	} else if (response == RPL_BOUNCE &&
 			   n->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD) {
 		network_update_isupport(n->info, n->external_state->info);
-	} else if (response == ERR_NICKNAMEINUSE &&
+	} else if (response == ERR_NICKNAMEINUSE && l->argc > 2 &&
 			  n->connection.state == NETWORK_CONNECTION_STATE_LOGIN_SENT){
 		char *tmp = g_strdup_printf("%s_", l->args[2]);
 		network_send_args(n, "NICK", tmp, NULL);
-- 
2.43.0


From e8947214383131001ab4747ae1cbda7b3df251cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:29 +0000
Subject: [PATCH 081/130] fix: every refused connection to a server leaked a
 file descriptor

---
 libirc/connection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libirc/connection.c b/libirc/connection.c
index 39c523a..26a7594 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -489,6 +489,7 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 				break;
 			}
 			g_io_channel_unref(ioc);
+			close(sock);
 			ioc = NULL;
 			continue;
 		}
@@ -502,6 +503,7 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 
 	if (!res || !ioc) {
 		network_log(LOG_ERROR, s, "Unable to connect: %s", strerror(errno));
+		freeaddrinfo(addrinfo);
 		return FALSE;
 	}
 
-- 
2.43.0


From b65b88913a7e278f795d21bc6311b85af9ad5629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:19 +0000
Subject: [PATCH 082/130] fix: the clients were miscounted when comparing with
 the limit for auto-away

A client that joined was counted twice, so that it ended the absence when
there were no more clients than allowed. One that left was still counted,
so that the user was not marked away when the last client left. Being away
already or not being logged in yet wasn't considered either.
---
 src/auto_away.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/auto_away.c b/src/auto_away.c
index ba6c10d..8e9f793 100644
--- a/src/auto_away.c
+++ b/src/auto_away.c
@@ -91,7 +91,9 @@ static gboolean new_client(struct irc_client *c, void *userdata)
 {
 	struct auto_away_data *d = userdata;
 
-	if (d->config->client_limit >= 0 && d->config->client_limit < g_list_length(c->network->clients)+1)
+	/* This client is one of those of the network already */
+	if (c->network->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
+		d->config->client_limit >= 0 && d->config->client_limit < g_list_length(c->network->clients))
 		network_send_args(c->network, "AWAY", NULL);
 
 	return TRUE;
@@ -101,7 +103,10 @@ static void lose_client(struct irc_client *c, void *userdata)
 {
 	struct auto_away_data *d = userdata;
 
-	if (d->config->client_limit >= 0 && d->config->client_limit >= g_list_length(c->network->clients))
+	/* This client still is one of those of the network */
+	if (c->network->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
+		c->network->external_state != NULL && !c->network->external_state->is_away &&
+		d->config->client_limit >= 0 && d->config->client_limit + 1 >= g_list_length(c->network->clients))
 		network_send_args(c->network, "AWAY",
 								  d->config->message != NULL?d->config->message:"Auto Away",
 								  NULL);
-- 
2.43.0


From d8b0e8cc71641686da23d46d268d51bb4c0713c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:19 +0000
Subject: [PATCH 083/130] fix: answers the proxy itself gives to CTCP requests
 ended auto-away

---
 src/auto_away.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auto_away.c b/src/auto_away.c
index 8e9f793..3125ebb 100644
--- a/src/auto_away.c
+++ b/src/auto_away.c
@@ -73,7 +73,8 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l,
 		d->last_message = time(NULL);
 	}
 
-	if (dir == TO_SERVER &&
+	/* Without clients it's the proxy that is talking, not the user */
+	if (dir == TO_SERVER && n->clients != NULL &&
 	   (!base_strcmp(l->args[0], "PRIVMSG") ||
 		!base_strcmp(l->args[0], "NOTICE"))) {
 		d->last_message = time(NULL);
-- 
2.43.0


From 386cb9cc7c83a387aa65293d8f1b41fa5cd9902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:03 +0000
Subject: [PATCH 084/130] fix: stored channel keys were lost, and crashed the
 proxy for networks without a nick

Loading the keys file looked up a channel named after the nick of the
network and gave it the password of the network as key.
---
 src/settings.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 86641bd..6a75ef9 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -658,11 +658,11 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 	for (gl = channel_keys; gl; gl = gl->next) {
 		struct keyfile_entry *ke = gl->data;
 
-		if (!strcasecmp(ke->network, n->name)) {
-			struct channel_config *cc = config_find_add_channel(n, n->nick);
+		if (ke->network != NULL && !strcasecmp(ke->network, n->name)) {
+			struct channel_config *cc = config_find_add_channel(n, ke->nick);
 
 			g_free(cc->key);
-			cc->key = g_strdup(n->password);
+			cc->key = g_strdup(ke->pass);
 		}
 	}
 
-- 
2.43.0


From 91868e057907727cb4a9cdf288afb9398d302d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:03 +0000
Subject: [PATCH 085/130] fix: channel keys came back after the last of them
 had been removed

---
 src/settings.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 6a75ef9..1d81c9d 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -355,6 +355,7 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 	char *networksdir = g_build_filename(config_dir, "networks", NULL);
 	GList *gl;
 	GList *channel_keys = NULL;
+	char *keys_file;
 
 	for (gl = networks; gl; gl = gl->next) {
 		struct network_config *n = gl->data;
@@ -372,20 +373,20 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 
 	config_cleanup_networks_dir(cfg);
 
-	if (channel_keys != NULL) {
-		char *filename = g_build_filename(cfg->config_dir, "keys",
-									  NULL);
-		keyfile_write_file(channel_keys, CHANNEL_KEY_FILE_HEADER, filename);
-		g_free(filename);
+	keys_file = g_build_filename(config_dir, "keys", NULL);
 
-		while (channel_keys) {
-			g_free(channel_keys->data);
-			channel_keys = channel_keys->next;
-		}
+	if (channel_keys != NULL) {
+		keyfile_write_file(channel_keys, CHANNEL_KEY_FILE_HEADER, keys_file);
 
+		g_list_foreach(channel_keys, (GFunc)g_free, NULL);
 		g_list_free(channel_keys);
+	} else {
+		/* Don't leave the keys of an earlier configuration around */
+		g_unlink(keys_file);
 	}
 
+	g_free(keys_file);
+
 	g_free(networksdir);
 }
 
-- 
2.43.0


From 94096eae20c025eb9b6d0b3217eb57b81b9bc570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:03 +0000
Subject: [PATCH 086/130] fix: saving lost renamed networks and those with
 their own file when saving elsewhere

A network with its own file was written to the file it was loaded from.
After a rename that file was removed right away as it did not belong to
any network anymore, and SAVECONFIG to another directory did not write it
there at all. The group of a renamed network in the main file stayed
behind.
---
 src/settings.c | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 1d81c9d..d1d5860 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -44,7 +44,7 @@
 
 static GList *known_keys = NULL;
 
-static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg);
+static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg, const char *networksdir);
 static void config_save_log(struct log_file_config *data,
 							struct ctrlproxy_config *config);
 static void config_save_auto_away(struct auto_away_config *d,
@@ -187,6 +187,11 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 	if (n->keyfile == NULL) {
 		n->keyfile = cfg->keyfile;
 		n->groupname = g_strdup(n->name);
+	} else if (n->filename == NULL && strcmp(n->groupname, n->name) != 0) {
+		/* Renamed since it was loaded or saved */
+		g_key_file_remove_group(n->keyfile, n->groupname, NULL);
+		g_free(n->groupname);
+		n->groupname = g_strdup(n->name);
 	}
 
 	kf = n->keyfile;
@@ -266,7 +271,11 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 	g_free(autojoin_list);
 
 	if (n->filename != NULL) {
-		g_key_file_save_to_file(kf, n->filename, NULL);
+		/* The network may have been renamed since it was loaded and the
+		 * configuration may be saved in another directory */
+		char *filename = g_build_filename(dir, n->name, NULL);
+		g_key_file_save_to_file(kf, filename, NULL);
+		g_free(filename);
 	}
 }
 
@@ -371,7 +380,7 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 			config_save_network(cfg, networksdir, n, &channel_keys);
 	}
 
-	config_cleanup_networks_dir(cfg);
+	config_cleanup_networks_dir(cfg, networksdir);
 
 	keys_file = g_build_filename(config_dir, "keys", NULL);
 
@@ -964,9 +973,21 @@ void config_del_network(struct ctrlproxy_config *cfg, const char *name)
 
 #define IS_SPECIAL_FILE(name) (name[0] == '.' || name[strlen(name)-1] == '~')
 
-static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg)
+static gboolean config_has_network_file(struct ctrlproxy_config *cfg, const char *name)
+{
+	GList *gl;
+
+	for (gl = cfg->networks; gl; gl = gl->next) {
+		struct network_config *nc = gl->data;
+		if (nc->filename != NULL && !strcmp(nc->name, name))
+			return TRUE;
+	}
+
+	return FALSE;
+}
+
+static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg, const char *networksdir)
 {
-	char *networksdir = g_build_filename(cfg->config_dir, "networks", NULL);
 	GDir *dir;
 	const char *name;
 
@@ -977,7 +998,7 @@ static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg)
 
 	while ((name = g_dir_read_name(dir))) {
 		char *path;
-		if (IS_SPECIAL_FILE(name) || config_find_network(cfg, name)) {
+		if (IS_SPECIAL_FILE(name) || config_has_network_file(cfg, name)) {
 			continue;
 		}
 
@@ -986,8 +1007,6 @@ static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg)
 		g_free(path);
 	}
 
-	g_free(networksdir);
-
 	g_dir_close(dir);
 }
 
-- 
2.43.0


From d9e86e31c71623e37a6864b9b35d0dd533060137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:03 +0000
Subject: [PATCH 087/130] fix: deleted networks came back when the
 configuration was loaded again

---
 src/settings.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/settings.c b/src/settings.c
index d1d5860..bbaa772 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -968,7 +968,16 @@ struct network_config *config_find_network(struct ctrlproxy_config *cfg,
 
 void config_del_network(struct ctrlproxy_config *cfg, const char *name)
 {
-	cfg->networks = g_list_remove(cfg->networks, config_find_network(cfg, name));
+	struct network_config *nc = config_find_network(cfg, name);
+
+	if (nc == NULL)
+		return;
+
+	/* Networks with their own file have it removed when saving */
+	if (nc->groupname != NULL && nc->filename == NULL)
+		g_key_file_remove_group(cfg->keyfile, nc->groupname, NULL);
+
+	cfg->networks = g_list_remove(cfg->networks, nc);
 }
 
 #define IS_SPECIAL_FILE(name) (name[0] == '.' || name[strlen(name)-1] == '~')
-- 
2.43.0


From a2d8cdbc769e69765f652c74fc91912859e92e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:03 +0000
Subject: [PATCH 088/130] fix: networks connected to again after the last of
 them had been disconnected

The list of networks to connect to was left alone when it became empty.
It also named implicitly created networks, which are not saved and came
back with the wrong port.
---
 src/settings.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/settings.c b/src/settings.c
index bbaa772..2b0eb17 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -500,7 +500,7 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 	for (gl = cfg->networks; gl; gl = gl->next) {
 		struct network_config *nc = gl->data;
 
-		if (nc->autoconnect) {
+		if (nc->autoconnect && !nc->implicit) {
 			list[i] = nc->name;
 			i++;
 		}
@@ -508,6 +508,8 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 
 	if (i > 0)
 		g_key_file_set_string_list(cfg->keyfile, "global", "autoconnect", (const gchar **)list, i);
+	else
+		g_key_file_remove_key(cfg->keyfile, "global", "autoconnect", NULL);
 
 	g_free(list);
 
-- 
2.43.0


From 9faf34f71980e989055befc7741eaff16a7b86cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:49 +0000
Subject: [PATCH 089/130] fix: settings that had been unset came back when the
 configuration was loaded again

---
 src/settings.c | 50 +++++++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 2b0eb17..71b0918 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -146,6 +146,14 @@ gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **error
 	return TRUE;
 }
 
+static void config_save_string(GKeyFile *kf, const char *group, const char *key, const char *value)
+{
+	if (value != NULL)
+		g_key_file_set_string(kf, group, key, value);
+	else
+		g_key_file_remove_key(kf, group, key, NULL);
+}
+
 static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, const char *groupname)
 {
 	GList *gl;
@@ -217,8 +225,12 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 
 	if (n->queue_speed)
 		g_key_file_set_integer(kf, n->groupname, "queue-speed", n->queue_speed);
+	else
+		g_key_file_remove_key(kf, n->groupname, "queue-speed", NULL);
 	if (n->reconnect_interval != -1)
 		g_key_file_set_integer(kf, n->groupname, "reconnect-interval", n->reconnect_interval);
+	else
+		g_key_file_remove_key(kf, n->groupname, "reconnect-interval", NULL);
 
 	switch(n->type) {
 	case NETWORK_VIRTUAL:
@@ -287,12 +299,13 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 	GError *error = NULL;
 	gboolean empty = TRUE;
 
-	if (cfg->password != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "password", cfg->password);
+	config_save_string(cfg->keyfile, "global", "password", cfg->password);
 
 	if (cfg->auto_listener) {
 		g_key_file_set_boolean(cfg->keyfile, "global", "listener-auto", cfg->auto_listener);
 		g_key_file_set_integer(cfg->keyfile, "global", "listener-autoport", cfg->listener_autoport);
+	} else {
+		g_key_file_remove_key(cfg->keyfile, "global", "listener-auto", NULL);
 	}
 
 	filename = g_build_filename(path, "listener", NULL);
@@ -304,17 +317,14 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 
 		if (l->is_default) {
 			g_key_file_set_string(cfg->keyfile, "global", "port", l->port);
-			if (l->address != NULL)
-				g_key_file_set_string(cfg->keyfile, "global", "bind", l->address);
+			config_save_string(cfg->keyfile, "global", "bind", l->address);
 			if (l->password != NULL)
 				g_key_file_set_string(cfg->keyfile, "global", "password", l->password);
 
 			if (g_key_file_has_key(cfg->keyfile, "global", "ssl", NULL) || l->ssl)
 				g_key_file_set_boolean(cfg->keyfile, "global", "ssl", l->ssl);
 
-			if (l->network != NULL)
-				g_key_file_set_string(cfg->keyfile, "global", "default-network",
-								  l->network);
+			config_save_string(cfg->keyfile, "global", "default-network", l->network);
 			cfg->default_listener = l;
 		} else {
 			char *tmp;
@@ -422,8 +432,7 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 		cfg->keyfile = g_key_file_new();
 
 	g_key_file_set_boolean(cfg->keyfile, "global", "autosave", cfg->autosave);
-	if (cfg->admin_user != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "admin-user", cfg->admin_user);
+	config_save_string(cfg->keyfile, "global", "admin-user", cfg->admin_user);
 
 	if (g_key_file_has_key(cfg->keyfile, "global", "admin-log", NULL) ||
 		!cfg->admin_log)
@@ -447,13 +456,9 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 	if (g_key_file_has_key(cfg->keyfile, "global", "create-implicit", NULL) || !cfg->create_implicit)
 		g_key_file_set_boolean(cfg->keyfile, "global", "create-implicit", cfg->create_implicit);
 
-	if (cfg->client_charset != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "default-client-charset", cfg->client_charset);
-
-	if (cfg->replication)
-		g_key_file_set_string(cfg->keyfile, "global", "replication", cfg->replication);
-	if (cfg->motd_file != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "motd-file", cfg->motd_file);
+	config_save_string(cfg->keyfile, "global", "default-client-charset", cfg->client_charset);
+	config_save_string(cfg->keyfile, "global", "replication", cfg->replication);
+	config_save_string(cfg->keyfile, "global", "motd-file", cfg->motd_file);
 
 	switch (cfg->report_time) {
 	case REPORT_TIME_ALWAYS:
@@ -1215,20 +1220,19 @@ static void config_save_auto_away(struct auto_away_config *d, struct ctrlproxy_c
 		g_key_file_set_boolean(kf, "global", "auto-away-enable", d->enabled);
 	}
 
-	if (d->message != NULL) {
-		g_key_file_set_string(kf, "global", "auto-away-message", d->message);
-	}
-
-	if (d->nick != NULL) {
-		g_key_file_set_string(kf, "global", "auto-away-nick", d->nick);
-	}
+	config_save_string(kf, "global", "auto-away-message", d->message);
+	config_save_string(kf, "global", "auto-away-nick", d->nick);
 
 	if (d->client_limit != -1) {
 		g_key_file_set_integer(kf, "global", "auto-away-client-limit", d->client_limit);
+	} else {
+		g_key_file_remove_key(kf, "global", "auto-away-client-limit", NULL);
 	}
 
 	if (d->max_idle_time != -1) {
 		g_key_file_set_integer(kf, "global", "auto-away-time", d->max_idle_time);
+	} else {
+		g_key_file_remove_key(kf, "global", "auto-away-time", NULL);
 	}
 }
 
-- 
2.43.0


From 9087f665ed4c9bce601a08be35a3b574aeef8851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:49 +0000
Subject: [PATCH 090/130] fix: the password of networks was not saved

---
 src/settings.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/settings.c b/src/settings.c
index 71b0918..9f6bdb4 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -216,6 +216,9 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 		g_key_file_set_string(kf, n->groupname, "username", n->username);
 	else
 		g_key_file_remove_key(kf, n->groupname, "username", NULL);
+	config_save_string(kf, n->groupname, "password", n->password);
+	if (n->ignore_first_nick || g_key_file_has_key(kf, n->groupname, "ignore_first_nick", NULL))
+		g_key_file_set_boolean(kf, n->groupname, "ignore_first_nick", n->ignore_first_nick);
 	if (n->autocmd != NULL) {
 		g_key_file_set_string_list(kf, n->groupname, "autocmd", (const char *const*)n->autocmd,
 							   g_strv_length(n->autocmd));
-- 
2.43.0


From bb24d8e12788774b445946810e3d5dc0234ac7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:49 +0000
Subject: [PATCH 091/130] fix: the users allowed to use a listener were lost
 when saving

After saving and loading the configuration again the listener let
everybody in.
---
 src/settings.c | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 9f6bdb4..2cbb0e1 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -302,6 +302,8 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 	GError *error = NULL;
 	gboolean empty = TRUE;
 
+	g_key_file_remove_group(cfg->keyfile, "socks", NULL);
+
 	config_save_string(cfg->keyfile, "global", "password", cfg->password);
 
 	if (cfg->auto_listener) {
@@ -318,7 +320,31 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 	for (gl = cfg->listeners; gl; gl = gl->next) {
 		struct listener_config *l = gl->data;
 
-		if (l->is_default) {
+		if (l->allow_rules != NULL) {
+			GList *rl;
+			int i = 0;
+			gchar **allows = g_new0(gchar *, g_list_length(l->allow_rules)+1);
+
+			for (rl = l->allow_rules; rl; rl = rl->next) {
+				struct allow_rule *r = rl->data;
+
+				if (r->password != NULL)
+					allows[i++] = g_strdup_printf("%s:%s", r->username, r->password);
+				else
+					allows[i++] = g_strdup(r->username);
+			}
+
+			g_key_file_set_string_list(cfg->keyfile, "socks", "allow", (const gchar **)allows, i);
+			g_strfreev(allows);
+
+			g_key_file_set_string(cfg->keyfile, "socks", "port", l->port);
+			config_save_string(cfg->keyfile, "socks", "bind", l->address);
+			config_save_string(cfg->keyfile, "socks", "password", l->password);
+			config_save_string(cfg->keyfile, "socks", "default-network", l->network);
+
+			if (l->is_default)
+				cfg->default_listener = l;
+		} else if (l->is_default) {
 			g_key_file_set_string(cfg->keyfile, "global", "port", l->port);
 			config_save_string(cfg->keyfile, "global", "bind", l->address);
 			if (l->password != NULL)
@@ -830,9 +856,19 @@ static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
 
 	g_key_file_remove_key(kf, "socks", "port", NULL);
 
+	l->address = g_key_file_get_string(kf, "socks", "bind", NULL);
+	l->password = g_key_file_get_string(kf, "socks", "password", NULL);
+	l->network = g_key_file_get_string(kf, "socks", "default-network", NULL);
+
 	for (i = 0; i < size; i++) {
-		struct allow_rule *r = g_new0(struct allow_rule, 1);
-		char **parts = g_strsplit(allows[i], ":", 2);
+		struct allow_rule *r;
+		char **parts;
+
+		if (allows[i][0] == '\0')
+			continue;
+
+		r = g_new0(struct allow_rule, 1);
+		parts = g_strsplit(allows[i], ":", 2);
 
 		r->username = parts[0];
 		r->password = parts[1];
-- 
2.43.0


From 991e2dcf13114a12d2944f8bb1778c4525fccad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:49 +0000
Subject: [PATCH 092/130] fix: custom logging was switched off by saving the
 configuration

---
 src/settings.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/settings.c b/src/settings.c
index 2cbb0e1..7aa9006 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1115,7 +1115,7 @@ static void config_load_networks(struct ctrlproxy_config *cfg, GList *channel_ke
 }
 
 #define FETCH_SETTING(data, kf, section, prefix, name) (data)->name = g_key_file_get_string((kf), (section), prefix #name, NULL)
-#define STORE_SETTING(data, kf, section, prefix, name) g_key_file_set_string((kf), (section), prefix #name, (data)->name)
+#define STORE_SETTING(data, kf, section, prefix, name) config_save_string((kf), (section), prefix #name, (data)->name)
 
 static void config_save_log(struct log_file_config *data,
 							struct ctrlproxy_config *config)
@@ -1135,6 +1135,7 @@ static void config_save_log(struct log_file_config *data,
 			g_key_file_set_string(config->keyfile, "global", "logfile", data->logfilename);
 		}
 	} else {
+		g_key_file_set_string(config->keyfile, "global", "logging", "custom");
 		STORE_SETTING(data, config->keyfile, "global", "", logfilename);
 		STORE_SETTING(data, config->keyfile, "global", "log-format-", nickchange);
 		STORE_SETTING(data, config->keyfile, "global", "log-format-", topic);
-- 
2.43.0


From 8b76e17862e23e5aab418bc9e48ee0e483509e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:10 +0000
Subject: [PATCH 093/130] fix: saving cut off the configuration at the first
 text that isn't UTF-8

---
 src/settings.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/settings.c b/src/settings.c
index 7aa9006..9ae8f4c 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -137,6 +137,9 @@ gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **error
 		return FALSE;
 	}
 
+	/* Names and texts can be in any character set */
+	g_io_channel_set_encoding(gio, NULL, NULL);
+
 	g_io_channel_write_chars(gio, data, length, &nr, error);
 
 	g_free(data);
-- 
2.43.0


From 479889c83f216939806ebfdb5ce0f699485d74e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:45 +0000
Subject: [PATCH 094/130] fix: the proxy crashed on or forgot texts in its
 configuration that aren't UTF-8

Channel names, real names and the like come from IRC and can be in any
character set; the proxy itself writes them to its configuration.
---
 src/settings.c | 183 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 132 insertions(+), 51 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 9ae8f4c..f24e443 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -122,6 +122,87 @@ void config_register_known_key(char *name)
 
 
 
+static void config_unescape(GString *dest, const char **from)
+{
+	const char *p = *from;
+
+	if (*p != '\\' || p[1] == '\0') {
+		g_string_append_c(dest, *p);
+		return;
+	}
+
+	switch (p[1]) {
+	case 's': g_string_append_c(dest, ' '); break;
+	case 'n': g_string_append_c(dest, '\n'); break;
+	case 't': g_string_append_c(dest, '\t'); break;
+	case 'r': g_string_append_c(dest, '\r'); break;
+	default: g_string_append_c(dest, p[1]); break;
+	}
+
+	(*from)++;
+}
+
+/**
+ * Retrieve a string from a key file, also if it isn't in UTF-8: names and texts
+ * can be in any character set.
+ */
+static char *config_get_string(GKeyFile *kf, const char *group, const char *key, GError **error)
+{
+	char *ret = g_key_file_get_string(kf, group, key, NULL), *value;
+	const char *p;
+	GString *str;
+
+	if (ret != NULL)
+		return ret;
+
+	value = g_key_file_get_value(kf, group, key, error);
+	if (value == NULL)
+		return NULL;
+
+	str = g_string_new(NULL);
+	for (p = value; *p != '\0'; p++)
+		config_unescape(str, &p);
+	g_free(value);
+
+	return g_string_free(str, FALSE);
+}
+
+static char **config_get_string_list(GKeyFile *kf, const char *group, const char *key, gsize *size, GError **error)
+{
+	char **ret = g_key_file_get_string_list(kf, group, key, size, NULL), *value;
+	const char *p;
+	GString *str;
+	GPtrArray *list;
+
+	if (ret != NULL)
+		return ret;
+
+	*size = 0;
+	value = g_key_file_get_value(kf, group, key, error);
+	if (value == NULL)
+		return NULL;
+
+	list = g_ptr_array_new();
+	str = g_string_new(NULL);
+	for (p = value; *p != '\0'; p++) {
+		if (*p == ';') {
+			g_ptr_array_add(list, g_strdup(str->str));
+			g_string_truncate(str, 0);
+		} else {
+			config_unescape(str, &p);
+		}
+	}
+	if (str->len > 0)
+		g_ptr_array_add(list, g_strdup(str->str));
+	g_string_free(str, TRUE);
+	g_free(value);
+
+	*size = list->len;
+	g_ptr_array_add(list, NULL);
+
+	return (char **)g_ptr_array_free(list, FALSE);
+}
+
 gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **error)
 {
 	gsize length, nr;
@@ -561,7 +642,7 @@ static void config_load_channel(struct network_config *n, GKeyFile *kf, const ch
 
 	ch->name = g_strdup(name);
 	if (g_key_file_has_key(kf, name, "key", NULL))
-		ch->key = g_key_file_get_string(kf, name, "key", NULL);
+		ch->key = config_get_string(kf, name, "key", NULL);
 
 	if (g_key_file_has_key(kf, name, "autojoin", NULL))
 		ch->autojoin = g_key_file_get_boolean(kf, name, "autojoin", NULL);
@@ -575,7 +656,7 @@ static void config_load_servers(struct network_config *n)
 	char **servers;
 	int i;
 
-	servers = g_key_file_get_string_list(n->keyfile, n->groupname, "servers", &size, NULL);
+	servers = config_get_string_list(n->keyfile, n->groupname, "servers", &size, NULL);
 
 	if (!servers) {
 		return;
@@ -589,11 +670,11 @@ static void config_load_servers(struct network_config *n)
 			continue;
 		}
 
-		s->password = g_key_file_get_string(n->keyfile, servers[i], "password", NULL);
+		s->password = config_get_string(n->keyfile, servers[i], "password", NULL);
 		if (g_key_file_has_key(n->keyfile, servers[i], "ssl", NULL))
 			s->ssl = g_key_file_get_boolean(n->keyfile, servers[i], "ssl", NULL);
 
-		s->bind_address = g_key_file_get_string(n->keyfile, servers[i], "bind", NULL);
+		s->bind_address = config_get_string(n->keyfile, servers[i], "bind", NULL);
 
 		n->type_settings.tcp.servers = g_list_append(n->type_settings.tcp.servers, s);
 
@@ -638,14 +719,14 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 
 	if (g_key_file_has_key(kf, groupname, "fullname", NULL)) {
 		g_free(n->fullname);
-		n->fullname = g_key_file_get_string(kf, groupname, "fullname", NULL);
+		n->fullname = config_get_string(kf, groupname, "fullname", NULL);
 		if (!strcmp(n->fullname, "") || n->fullname[0] == ' ')
 			log_global(LOG_WARNING, "Invalid fullname `%s' set for network `%s'", n->fullname, n->name);
 	}
 
 	if (g_key_file_has_key(kf, groupname, "nick", NULL)) {
 		g_free(n->nick);
-		n->nick = g_key_file_get_string(kf, groupname, "nick", NULL);
+		n->nick = config_get_string(kf, groupname, "nick", NULL);
 		if (!strcmp(n->nick, "") || n->nick[0] == ' ')
 			log_global(LOG_WARNING, "Invalid nick name `%s' set for `%s'", n->nick, n->name);
 	}
@@ -660,7 +741,7 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 
 	if (g_key_file_has_key(kf, groupname, "username", NULL)) {
 		g_free(n->username);
-		n->username = g_key_file_get_string(kf, groupname, "username", NULL);
+		n->username = config_get_string(kf, groupname, "username", NULL);
 		if (!strcmp(n->username, "") || n->username[0] == ' ')
 			log_global(LOG_WARNING, "Invalid username `%s' set for network `%s'", n->username, n->name);
 	}
@@ -671,12 +752,12 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 
 	if (g_key_file_has_key(kf, groupname, "password", NULL)) {
 		g_free(n->password);
-		n->password = g_key_file_get_string(kf, groupname, "password", NULL);
+		n->password = config_get_string(kf, groupname, "password", NULL);
 	}
 
 	if (g_key_file_has_key(kf, groupname, "autocmd", NULL)) {
 		g_strfreev(n->autocmd);
-		n->autocmd = g_key_file_get_string_list(n->keyfile, groupname, "autocmd", &size, NULL);
+		n->autocmd = config_get_string_list(n->keyfile, groupname, "autocmd", &size, NULL);
 	}
 
 	n->name = g_strdup(networkname);
@@ -690,14 +771,14 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 
 	switch (n->type) {
 	case NETWORK_TCP:
-		n->type_settings.tcp.default_bind_address = g_key_file_get_string(kf, groupname, "bind", NULL);
+		n->type_settings.tcp.default_bind_address = config_get_string(kf, groupname, "bind", NULL);
 		config_load_servers(n);
 		break;
 	case NETWORK_PROGRAM:
-		n->type_settings.program_location = g_key_file_get_string(kf, groupname, "program", NULL);
+		n->type_settings.program_location = config_get_string(kf, groupname, "program", NULL);
 		break;
 	case NETWORK_VIRTUAL:
-		n->type_settings.virtual_name = g_key_file_get_string(kf, groupname, "virtual", NULL);
+		n->type_settings.virtual_name = config_get_string(kf, groupname, "virtual", NULL);
 		break;
 	case NETWORK_IOCHANNEL:
 		/* Don't store */
@@ -718,7 +799,7 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 	if (g_key_file_has_key(n->keyfile, groupname, "autojoin", NULL)) {
 		char **autojoin_channels;
 		gsize i;
-		autojoin_channels = g_key_file_get_string_list(n->keyfile, groupname, "autojoin", &size, NULL);
+		autojoin_channels = config_get_string_list(n->keyfile, groupname, "autojoin", &size, NULL);
 		for (i = 0; i < size; i++) {
 			struct channel_config *cc = config_find_add_channel(n, autojoin_channels[i]);
 
@@ -834,7 +915,7 @@ static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
 	GKeyFile *kf = cfg->keyfile;
 	struct listener_config *l;
 
-	allows = g_key_file_get_string_list(kf, "socks", "allow", &size, NULL);
+	allows = config_get_string_list(kf, "socks", "allow", &size, NULL);
 
 	if (allows == NULL) {
 		return;
@@ -845,7 +926,7 @@ static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
 	l = g_new0(struct listener_config, 1);
 
 	if (g_key_file_has_key(kf, "socks", "port", NULL)) {
-		l->port = g_key_file_get_string(kf, "socks", "port", NULL);
+		l->port = config_get_string(kf, "socks", "port", NULL);
 	} else {
 		l->port = g_strdup_printf("%d", DEFAULT_SOCKS_PORT);
 	}
@@ -859,9 +940,9 @@ static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
 
 	g_key_file_remove_key(kf, "socks", "port", NULL);
 
-	l->address = g_key_file_get_string(kf, "socks", "bind", NULL);
-	l->password = g_key_file_get_string(kf, "socks", "password", NULL);
-	l->network = g_key_file_get_string(kf, "socks", "default-network", NULL);
+	l->address = config_get_string(kf, "socks", "bind", NULL);
+	l->password = config_get_string(kf, "socks", "password", NULL);
+	l->network = config_get_string(kf, "socks", "default-network", NULL);
 
 	for (i = 0; i < size; i++) {
 		struct allow_rule *r;
@@ -898,10 +979,10 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 
 	if (g_key_file_has_key(cfg->keyfile, "listener", "password", NULL)) {
 		g_key_file_set_string(cfg->keyfile, "global", "password",
-							  g_key_file_get_string(cfg->keyfile, "listener", "password", NULL));
+							  config_get_string(cfg->keyfile, "listener", "password", NULL));
 		g_key_file_remove_key(cfg->keyfile, "listener", "password", NULL);
 	}
-	cfg->password = g_key_file_get_string(cfg->keyfile, "global", "password", NULL);
+	cfg->password = config_get_string(cfg->keyfile, "global", "password", NULL);
 
 	if (g_key_file_has_key(cfg->keyfile, "global", "listener-auto", NULL)) {
 		cfg->auto_listener = g_key_file_get_boolean(cfg->keyfile, "global", "listener-auto", NULL);
@@ -919,9 +1000,9 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 
 	if (g_key_file_has_key(cfg->keyfile, "global", "port", NULL)) {
 		struct listener_config *l = g_new0(struct listener_config, 1);
-		l->port = g_key_file_get_string(cfg->keyfile, "global", "port", NULL);
-		l->password = g_key_file_get_string(cfg->keyfile, "global", "password", NULL);
-		l->address = g_key_file_get_string(cfg->keyfile, "global", "bind", NULL);
+		l->port = config_get_string(cfg->keyfile, "global", "port", NULL);
+		l->password = config_get_string(cfg->keyfile, "global", "password", NULL);
+		l->address = config_get_string(cfg->keyfile, "global", "bind", NULL);
 		l->ssl = g_key_file_has_key(cfg->keyfile, "global", "ssl", NULL) &&
 				 g_key_file_get_boolean(cfg->keyfile, "global", "ssl", NULL);
 
@@ -929,16 +1010,16 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 		if (l->ssl) {
 			l->ssl_credentials = ssl_create_server_credentials(cfg->config_dir, cfg->keyfile, "global");
 			if (g_key_file_has_key(cfg->keyfile, "global", "certfile", NULL)) {
-				l->certfile = g_key_file_get_string(cfg->keyfile, "global", "certfile", NULL);
+				l->certfile = config_get_string(cfg->keyfile, "global", "certfile", NULL);
 			}
 			if (g_key_file_has_key(cfg->keyfile, "global", "keyfile", NULL)) {
-				l->keyfile = g_key_file_get_string(cfg->keyfile, "global", "keyfile", NULL);
+				l->keyfile = config_get_string(cfg->keyfile, "global", "keyfile", NULL);
 			}
 		}
 #endif
 		l->is_default = TRUE;
 
-		l->network = g_key_file_get_string(cfg->keyfile, "global", "default-network", NULL);
+		l->network = config_get_string(cfg->keyfile, "global", "default-network", NULL);
 
 		cfg->listeners = g_list_append(cfg->listeners, l);
 	}
@@ -974,7 +1055,7 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 			l->address = NULL;
 		}
 
-		l->password = g_key_file_get_string(kf, groups[i], "password", NULL);
+		l->password = config_get_string(kf, groups[i], "password", NULL);
 
 		if (g_key_file_has_key(kf, groups[i], "ssl", NULL))
 			l->ssl = g_key_file_get_boolean(kf, groups[i], "ssl", NULL);
@@ -983,16 +1064,16 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 		if (l->ssl) {
 			l->ssl_credentials = ssl_create_server_credentials(cfg->config_dir, kf, groups[i]);
 			if (g_key_file_has_key(kf, groups[i], "certfile", NULL)) {
-				l->certfile = g_key_file_get_string(kf, groups[i], "certfile", NULL);
+				l->certfile = config_get_string(kf, groups[i], "certfile", NULL);
 			}
 			if (g_key_file_has_key(kf, groups[i], "keyfile", NULL)) {
-				l->keyfile = g_key_file_get_string(kf, groups[i], "keyfile", NULL);
+				l->keyfile = config_get_string(kf, groups[i], "keyfile", NULL);
 			}
 		}
 #endif
 
 		if (g_key_file_has_key(kf, groups[i], "network", NULL)) {
-			l->network = g_key_file_get_string(kf, groups[i], "network", NULL);
+			l->network = config_get_string(kf, groups[i], "network", NULL);
 		}
 
 		cfg->listeners = g_list_append(cfg->listeners, l);
@@ -1117,7 +1198,7 @@ static void config_load_networks(struct ctrlproxy_config *cfg, GList *channel_ke
 	g_strfreev(groups);
 }
 
-#define FETCH_SETTING(data, kf, section, prefix, name) (data)->name = g_key_file_get_string((kf), (section), prefix #name, NULL)
+#define FETCH_SETTING(data, kf, section, prefix, name) (data)->name = config_get_string((kf), (section), prefix #name, NULL)
 #define STORE_SETTING(data, kf, section, prefix, name) config_save_string((kf), (section), prefix #name, (data)->name)
 
 static void config_save_log(struct log_file_config *data,
@@ -1161,7 +1242,7 @@ static void config_load_log(struct ctrlproxy_config *config)
 	char *logging = NULL;
 
 	if (g_key_file_has_key(kf, "global", "logging", NULL)) {
-		logging = g_key_file_get_string(kf, "global", "logging", NULL);
+		logging = config_get_string(kf, "global", "logging", NULL);
 	}
 
 	if (g_key_file_has_group(kf, "log-custom")) {
@@ -1223,12 +1304,12 @@ static void config_load_log(struct ctrlproxy_config *config)
 		data->nickchange = "%h:%M -!- %n is now known as %r";
 
 		if (g_key_file_has_key(kf, "global", "logfile", NULL)) {
-			data->logfilename= g_key_file_get_string(kf, "global", "logfile", NULL);
+			data->logfilename= config_get_string(kf, "global", "logfile", NULL);
 		} else if (g_key_file_has_key(kf, "global", "logdir", NULL)) {
-			data->logbasedir = g_key_file_get_string(kf, "global", "logdir", NULL);
+			data->logbasedir = config_get_string(kf, "global", "logdir", NULL);
 			data->logfilename = g_strdup_printf("%s/%%N/%%@", data->logbasedir);
 		} else if (g_key_file_has_key(kf, "log-irssi", "logfile", NULL)) {
-			data->logbasedir = g_key_file_get_string(kf, "log-irssi", "logfile", NULL);
+			data->logbasedir = config_get_string(kf, "log-irssi", "logfile", NULL);
 			data->logfilename = g_strdup_printf("%s/%%N/%%@", data->logbasedir);
 		} else {
 			data->logbasedir = g_build_filename(config->config_dir,
@@ -1283,8 +1364,8 @@ static void config_load_auto_away(struct auto_away_config *d, GKeyFile *kf)
 {
 	if (g_key_file_has_group(kf, "auto-away")) {
 		d->enabled = TRUE;
-		d->message = g_key_file_get_string(kf, "auto-away", "message", NULL);
-		d->nick = g_key_file_get_string(kf, "auto-away", "nick", NULL);
+		d->message = config_get_string(kf, "auto-away", "message", NULL);
+		d->nick = config_get_string(kf, "auto-away", "nick", NULL);
 		if (g_key_file_has_key(kf, "auto-away", "client_limit", NULL)) {
 			d->client_limit = g_key_file_get_integer(kf, "auto-away", "client_limit", NULL);
 			if (g_key_file_has_key(kf, "auto-away", "only_noclient", NULL))
@@ -1305,8 +1386,8 @@ static void config_load_auto_away(struct auto_away_config *d, GKeyFile *kf)
 	} else {
 		if (g_key_file_has_key(kf, "global", "auto-away-enable", NULL))
 			d->enabled = g_key_file_get_boolean(kf, "global", "auto-away-enable", NULL);
-		d->message = g_key_file_get_string(kf, "global", "auto-away-message", NULL);
-		d->nick = g_key_file_get_string(kf, "global", "auto-away-nick", NULL);
+		d->message = config_get_string(kf, "global", "auto-away-message", NULL);
+		d->nick = config_get_string(kf, "global", "auto-away-nick", NULL);
 		if (g_key_file_has_key(kf, "global", "auto-away-client-limit", NULL)) {
 			d->client_limit = g_key_file_get_integer(kf, "global", "auto-away-client-limit", NULL);
 		} else
@@ -1368,7 +1449,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	if (g_key_file_has_key(kf, "global", "keytab", NULL)) {
 		char *keytab;
-		keytab = g_key_file_get_string(kf, "global", "keytab", NULL);
+		keytab = config_get_string(kf, "global", "keytab", NULL);
 #ifdef HAVE_GSSKRB5_REGISTER_ACCEPTOR_IDENTITY
 		gsskrb5_register_acceptor_identity(keytab);
 #endif
@@ -1382,10 +1463,10 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	}
 
 
-	cfg->replication = g_key_file_get_string(kf, "global", "replication", NULL);
+	cfg->replication = config_get_string(kf, "global", "replication", NULL);
 
 	if (g_key_file_has_key(kf, "global", "report-time", NULL)) {
-		char *setting = g_key_file_get_string(kf, "global", "report-time", NULL);
+		char *setting = config_get_string(kf, "global", "report-time", NULL);
 		if (!strcasecmp(setting, "never") || !strcasecmp(setting, "false")) {
 			cfg->report_time = REPORT_TIME_NEVER;
 		} else if (!strcasecmp(setting, "always")) {
@@ -1405,7 +1486,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	}
 
 	if (g_key_file_has_key(kf, "global", "motd-file", NULL)) {
-		cfg->motd_file = g_key_file_get_string(kf, "global", "motd-file", NULL);
+		cfg->motd_file = config_get_string(kf, "global", "motd-file", NULL);
 	} else if (from_source) {
 		cfg->motd_file = g_strdup("motd");
 	} else {
@@ -1413,13 +1494,13 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	}
 
 	if (g_key_file_has_key(kf, "client", "charset", NULL)) {
-		cfg->client_charset = g_key_file_get_string(kf, "client", "charset", NULL);
+		cfg->client_charset = config_get_string(kf, "client", "charset", NULL);
 		g_key_file_remove_key(cfg->keyfile, "client", "charset", NULL); /* deprecated */
 	} else if (g_key_file_has_key(kf, "global", "client-charset", NULL)) {
-		cfg->client_charset = g_key_file_get_string(kf, "global", "client-charset", NULL);
+		cfg->client_charset = config_get_string(kf, "global", "client-charset", NULL);
 		g_key_file_remove_key(cfg->keyfile, "global", "client-charset", NULL); /* deprecated */
 	} else if (g_key_file_has_key(kf, "global", "default-client-charset", NULL)) {
-		cfg->client_charset = g_key_file_get_string(kf, "global", "default-client-charset", NULL);
+		cfg->client_charset = config_get_string(kf, "global", "default-client-charset", NULL);
 	} else {
 		cfg->client_charset = NULL;
 	}
@@ -1444,7 +1525,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	if (g_key_file_has_key(kf, "global", "default-username", NULL)) {
 		g_free(cfg->default_username);
-		cfg->default_username = g_key_file_get_string(kf, "global", "default-username", NULL);
+		cfg->default_username = config_get_string(kf, "global", "default-username", NULL);
 		if (!strcmp(cfg->default_username, "") || cfg->default_username[0] == ' ') {
 			log_global(LOG_WARNING, "Invalid default username `%s' set", cfg->default_username);
 		}
@@ -1452,7 +1533,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	if (g_key_file_has_key(kf, "global", "default-fullname", NULL)) {
 		g_free(cfg->default_realname);
-		cfg->default_realname = g_key_file_get_string(kf, "global", "default-fullname", NULL);
+		cfg->default_realname = config_get_string(kf, "global", "default-fullname", NULL);
 		if (!strcmp(cfg->default_realname, "") || cfg->default_realname[0] == ' ') {
 			log_global(LOG_WARNING, "Invalid default fullname `%s' set", cfg->default_realname);
 		}
@@ -1460,7 +1541,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	if (g_key_file_has_key(kf, "global", "default-nick", NULL)) {
 		g_free(cfg->default_nick);
-		cfg->default_nick = g_key_file_get_string(kf, "global", "default-nick", NULL);
+		cfg->default_nick = config_get_string(kf, "global", "default-nick", NULL);
 		if (!strcmp(cfg->default_nick, "") || cfg->default_nick[0] == ' ') {
 			log_global(LOG_WARNING, "Invalid nick name `%s' set", cfg->default_nick);
 		}
@@ -1480,7 +1561,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	}
 
 	if (g_key_file_has_key(kf, "global", "admin-user", NULL)) {
-		cfg->admin_user = g_key_file_get_string(kf, "global", "admin-user", NULL);
+		cfg->admin_user = config_get_string(kf, "global", "admin-user", NULL);
 	}
 
 	cfg->admin_log = TRUE;
@@ -1526,7 +1607,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	g_strfreev(keys);
 
 	size = 0;
-	autoconnect_list = g_key_file_get_string_list(kf, "global", "autoconnect", &size, NULL);
+	autoconnect_list = config_get_string_list(kf, "global", "autoconnect", &size, NULL);
 
 	for (i = 0; i < size; i++) {
 		struct network_config *nc = find_create_network_config(cfg, autoconnect_list[i]);
-- 
2.43.0


From c798d11a866e101317c65755bfd95696aa3de59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:34 +0000
Subject: [PATCH 095/130] fix: servers to connect to at startup were used
 twice, lost when saving or preferred to networks

They were added to the configuration under their URL, twice, which crashed
the proxy when the configuration was freed. Groups named like an URL are
skipped when loading, so channels and the like were not kept. A network
with such a server was preferred to one of that name.
---
 src/settings.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index f24e443..b875be1 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -44,6 +44,8 @@
 
 static GList *known_keys = NULL;
 
+struct network_config *config_find_network(struct ctrlproxy_config *cfg,
+										   const char *name);
 static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg, const char *networksdir);
 static void config_save_log(struct log_file_config *data,
 							struct ctrlproxy_config *config);
@@ -855,14 +857,15 @@ static struct network_config *find_create_network_config(struct ctrlproxy_config
 	struct network_config *nc;
 	struct tcp_server_config *tc;
 
+	/* A server of another network may have the same name */
+	nc = config_find_network(cfg, name);
+	if (nc != NULL)
+		return nc;
+
 	for (gl = cfg->networks; gl; gl = gl->next) {
 		GList *gl1;
 		nc = gl->data;
 
-		if (strcasecmp(nc->name, name) == 0) {
-			return nc;
-		}
-
 		if (nc->type != NETWORK_TCP) {
 			continue;
 		}
@@ -889,21 +892,20 @@ static struct network_config *find_create_network_config(struct ctrlproxy_config
 		}
 	}
 
-	nc = network_config_init(cfg);
-	nc->name = g_strdup(name);
-	nc->autoconnect = FALSE;
-	nc->reconnect_interval = -1;
-	nc->type = NETWORK_TCP;
 	tc = g_new0(struct tcp_server_config, 1);
 	if (!irc_parse_url(name, &tc->host, &tc->port, &tc->ssl)) {
 		log_global(LOG_ERROR, "Error parsing server URL %s", name);
 		g_free(tc);
-		free_config(cfg);
 		return NULL;
 	}
-	nc->type_settings.tcp.servers = g_list_append(nc->type_settings.tcp.servers, tc);
 
-	cfg->networks = g_list_append(cfg->networks, nc);
+	/* URLs can't be used as name, they name servers in the configuration file */
+	nc = network_config_init(cfg);
+	nc->name = g_strdup(config_find_network(cfg, tc->host) == NULL?tc->host:name);
+	nc->autoconnect = FALSE;
+	nc->reconnect_interval = -1;
+	nc->type = NETWORK_TCP;
+	nc->type_settings.tcp.servers = g_list_append(nc->type_settings.tcp.servers, tc);
 
 	return nc;
 }
@@ -1612,8 +1614,8 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	for (i = 0; i < size; i++) {
 		struct network_config *nc = find_create_network_config(cfg, autoconnect_list[i]);
 
-		g_assert(nc);
-		nc->autoconnect = TRUE;
+		if (nc != NULL)
+			nc->autoconnect = TRUE;
 	}
 
 	g_strfreev(autoconnect_list);
-- 
2.43.0


From b394a8e7ec335845db3e31a06fa988e9b313b410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:15 +0000
Subject: [PATCH 096/130] fix: commands on the admin socket used an undefined
 current network

---
 src/admin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/admin.c b/src/admin.c
index a750e9e..9bd89eb 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1789,6 +1789,7 @@ static gboolean handle_client_data(GIOChannel *channel,
 
 	ah.global = _global;
 	ah.client = NULL;
+	ah.network = NULL;
 	ah.user_data = channel;
 	ah.send_fn = iochannel_admin_out;
 
-- 
2.43.0


From bbcd4b699989a7b67d7fcb03fe734e31eec2b262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:15 +0000
Subject: [PATCH 097/130] fix: SET and ECHO crashed on or printed (null) for
 settings that aren't set and missing arguments

---
 src/admin.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 9bd89eb..6f8ec94 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -707,7 +707,7 @@ static void cmd_charset(admin_handle h, const char * const *args, void *userdata
 
 static void cmd_echo(admin_handle h, const char * const *args, void *userdata)
 {
-	admin_out(h, "%s", args[1]);
+	admin_out(h, "%s", args[1] != NULL?args[1]:"");
 }
 
 static gint cmp_cmd(gconstpointer a, gconstpointer b)
@@ -1679,7 +1679,7 @@ static void cmd_set(admin_handle h, const char * const *args, void *userdata)
 		for (i = 0; settings[i].name != NULL; i++) {
 			tmp = settings[i].get(h);
 			if (tmp == NULL) {
-				admin_out(h, "%s is not set", settings[i]);
+				admin_out(h, "%s is not set", settings[i].name);
 			} else {
 				admin_out(h, "%s = %s", settings[i].name, tmp);
 			}
@@ -1692,7 +1692,11 @@ static void cmd_set(admin_handle h, const char * const *args, void *userdata)
 					settings[i].set(h, args[2]);
 				} else {
 					tmp = settings[i].get(h);
-					admin_out(h, "%s", tmp);
+					if (tmp == NULL) {
+						admin_out(h, "%s is not set", settings[i].name);
+					} else {
+						admin_out(h, "%s", tmp);
+					}
 					g_free(tmp);
 				}
 				return;
-- 
2.43.0


From 6176d4a7ca46643bc4e0683e6a1908090e5b9054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:15 +0000
Subject: [PATCH 098/130] fix: UNSET crashed the proxy for most settings

---
 src/admin.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 6f8ec94..a418ee2 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1120,6 +1120,11 @@ static gboolean motd_file_set(admin_handle h, const char *name)
 {
 	struct global *g = admin_get_global(h);
 
+	if (name == NULL) {
+		admin_out(h, "motd-file can't be unset.");
+		return FALSE;
+	}
+
 	if (!g_file_test(name, G_FILE_TEST_EXISTS)) {
 		admin_out(h, "%s: file does not exist", name);
 		return FALSE;
@@ -1194,6 +1199,11 @@ static gboolean report_time_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
+	if (value == NULL) {
+		admin_out(h, "report-time can't be unset.");
+		return FALSE;
+	}
+
 	if (!strcasecmp(value, "never") || !strcasecmp(value, "false")) {
 		g->config->report_time = REPORT_TIME_NEVER;
 	} else if (!strcasecmp(value, "always")) {
@@ -1219,7 +1229,7 @@ static gboolean replication_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	if (repl_find_backend(value) == NULL) {
+	if (value != NULL && repl_find_backend(value) == NULL) {
 		admin_out(h, "No such replication backend `%s'", value);
 		return FALSE;
 	}
@@ -1242,7 +1252,7 @@ static gboolean admin_user_set(admin_handle h, const char *value)
 	struct global *g = admin_get_global(h);
 
 	g_free(g->config->admin_user);
-	if (strlen(value) == 0) {
+	if (value != NULL && strlen(value) == 0) {
 		/* FIXME: Check whether value is a somewhat valid IRC nick? */
 		g->config->admin_user = g_strdup(value);
 	} else {
@@ -1406,6 +1416,11 @@ static gboolean port_set(admin_handle h, const char *value)
 	/* FIXME: What if there is no default listener ? */
 	/* FIXME: Check that value is a valid service name or port number */
 
+	if (value == NULL) {
+		admin_out(h, "port can't be unset.");
+		return FALSE;
+	}
+
 	for (gl = g->config->listeners; gl; gl = gl->next) {
 		struct listener_config *l = gl->data;
 
@@ -1551,7 +1566,7 @@ static char *default_nick_get(admin_handle h)
 static gboolean default_nick_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
-	if (strlen(value) == 0) {
+	if (value == NULL || strlen(value) == 0) {
 		admin_out(h, "Nick name can't be empty.");
 		return FALSE;
 	}
@@ -1579,7 +1594,7 @@ static char *default_username_get(admin_handle h)
 static gboolean default_username_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
-	if (strlen(value) == 0) {
+	if (value == NULL || strlen(value) == 0) {
 		admin_out(h, "Username can't be empty.");
 		return FALSE;
 	}
@@ -1608,7 +1623,7 @@ static gboolean default_fullname_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	if (strlen(value) == 0) {
+	if (value == NULL || strlen(value) == 0) {
 		admin_out(h, "Fullname can't be empty");
 		return FALSE;
 	}
@@ -1666,8 +1681,11 @@ static void cmd_unset(admin_handle h, const char * const *args, void *userdata)
 	for (i = 0; settings[i].name; i++) {
 		if (!strcasecmp(settings[i].name, args[1])) {
 			settings[i].set(h, NULL);
+			return;
 		}
 	}
+
+	admin_out(h, "Unknown setting `%s'", args[1]);
 }
 
 static void cmd_set(admin_handle h, const char * const *args, void *userdata)
-- 
2.43.0


From eb09bf843179d8e2ac991f66674f9a20d1d5bd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:15 +0000
Subject: [PATCH 099/130] fix: setting admin-user unset it

---
 src/admin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/admin.c b/src/admin.c
index a418ee2..f2ced38 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1252,7 +1252,7 @@ static gboolean admin_user_set(admin_handle h, const char *value)
 	struct global *g = admin_get_global(h);
 
 	g_free(g->config->admin_user);
-	if (value != NULL && strlen(value) == 0) {
+	if (value != NULL && strlen(value) != 0) {
 		/* FIXME: Check whether value is a somewhat valid IRC nick? */
 		g->config->admin_user = g_strdup(value);
 	} else {
-- 
2.43.0


From 3ea265c6357fcc042c0fe17e890a95538de55281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:15 +0000
Subject: [PATCH 100/130] fix: SET used only the first word of a value

---
 src/admin.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/admin.c b/src/admin.c
index f2ced38..ee0dc9f 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1707,7 +1707,10 @@ static void cmd_set(admin_handle h, const char * const *args, void *userdata)
 		for (i = 0; settings[i].name; i++) {
 			if (!strcasecmp(settings[i].name, args[1])) {
 				if (args[2] != NULL) {
-					settings[i].set(h, args[2]);
+					/* Values can contain spaces */
+					tmp = g_strjoinv(" ", (char **)args+2);
+					settings[i].set(h, tmp);
+					g_free(tmp);
 				} else {
 					tmp = settings[i].get(h);
 					if (tmp == NULL) {
-- 
2.43.0


From 56fb89a7f3b229526f6acc6184849feda5a4b4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:15 +0000
Subject: [PATCH 101/130] fix: an old or unset password was still accepted
 until the configuration was loaded again

---
 src/admin.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/admin.c b/src/admin.c
index ee0dc9f..ae16051 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1497,7 +1497,11 @@ static gboolean password_set(admin_handle h, const char *value)
 		struct listener_config *l = gl->data;
 
 		if (l->is_default) {
+			g_free(l->password);
 			l->password = g_strdup(value);
+			/* Used by listeners without a password of their own */
+			g_free(g->config->password);
+			g->config->password = g_strdup(value);
 			return TRUE;
 		}
 	}
-- 
2.43.0


From 30e2264bd5b30804cd1e91c53c5b13fc6acbe4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:15 +0000
Subject: [PATCH 102/130] fix: STOPLISTENER used memory it had freed

---
 src/admin.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index ae16051..beb3b45 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1060,7 +1060,7 @@ static void cmd_start_listener(admin_handle h, const char * const *args, void *u
 
 static void cmd_stop_listener(admin_handle h, const char * const *args, void *userdata)
 {
-	GList *gl;
+	GList *gl, *next;
 	char *b, *p;
 	int i = 0;
 
@@ -1078,9 +1078,11 @@ static void cmd_stop_listener(admin_handle h, const char * const *args, void *us
 		b = NULL;
 	}
 
-	for (gl = admin_get_global(h)->listeners; gl; gl = gl->next) {
+	for (gl = admin_get_global(h)->listeners; gl; gl = next) {
 		struct irc_listener *l = gl->data;
 
+		next = gl->next;
+
 		if (b && l->config->address == NULL) {
 			continue;
 		}
-- 
2.43.0


From fe6d9b87f1dd83f2cf11542e75be8c9eb67cbd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:15 +0000
Subject: [PATCH 103/130] fix: a network deleted after it had been renamed
 stayed in the configuration

---
 src/admin.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/admin.c b/src/admin.c
index beb3b45..2a1f7dd 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -373,6 +373,7 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 								  const char *newname)
 {
 	struct irc_network *n;
+	struct network_config *nc;
 
 	n = find_network(admin_get_global(h)->networks, oldname);
 
@@ -388,6 +389,10 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 
 	g_free(n->name);
 	n->name = g_strdup(newname);
+
+	nc = n->private_data;
+	g_free(nc->name);
+	nc->name = g_strdup(newname);
 }
 
 static void del_network_helper(admin_handle h, const char *name)
-- 
2.43.0


From 06ceb714f1ead368e64b4fd9f569fb862b46da92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:32 +0000
Subject: [PATCH 104/130] fix: commands without arguments crashed the proxy on
 the administration network

Messages of the user to themselves were not recognised either.
---
 src/admin.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 2a1f7dd..1f883c9 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -823,12 +823,21 @@ static gboolean admin_net_init(struct irc_network *n)
 
 static gboolean admin_to_server (struct irc_network *n, struct irc_client *c, const struct irc_line *l)
 {
-	if (!base_strcmp(l->args[0], "PRIVMSG") ||
+	if (l->args[1] == NULL &&
+		(!base_strcmp(l->args[0], "PRIVMSG") ||
+		 !base_strcmp(l->args[0], "NOTICE") ||
+		 !base_strcmp(l->args[0], "WHO") ||
+		 !base_strcmp(l->args[0], "JOIN") ||
+		 !base_strcmp(l->args[0], "PART") ||
+		 !base_strcmp(l->args[0], "WHOIS"))) {
+		virtual_network_recv_response(n, ERR_NEEDMOREPARAMS, l->args[0], "Not enough params", NULL);
+		return TRUE;
+	} else if (!base_strcmp(l->args[0], "PRIVMSG") ||
 		!base_strcmp(l->args[0], "NOTICE")) {
 		struct admin_handle ah;
 
-		if (irccmp(n->external_state->info, l->args[0], n->external_state->me.nick) == 0) {
-			virtual_network_recv_args(n, n->external_state->me.hostmask, l->args[0], l->args[1], NULL);
+		if (irccmp(n->external_state->info, l->args[1], n->external_state->me.nick) == 0) {
+			virtual_network_recv_args(n, n->external_state->me.hostmask, l->args[0], l->args[1], l->args[2], NULL);
 			return TRUE;
 		}
 
-- 
2.43.0


From 826d60158c143a984926e00706250a90ea28f154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:32 +0000
Subject: [PATCH 105/130] fix: ECHO repeated only the first word of its text

---
 src/admin.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/admin.c b/src/admin.c
index 1f883c9..3d2b1c1 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -712,7 +712,9 @@ static void cmd_charset(admin_handle h, const char * const *args, void *userdata
 
 static void cmd_echo(admin_handle h, const char * const *args, void *userdata)
 {
-	admin_out(h, "%s", args[1] != NULL?args[1]:"");
+	char *text = g_strjoinv(" ", (char **)args+1);
+	admin_out(h, "%s", text);
+	g_free(text);
 }
 
 static gint cmp_cmd(gconstpointer a, gconstpointer b)
-- 
2.43.0


From 6a54379b25a53d2d0e38a5559f389f0798ab82f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:32 +0000
Subject: [PATCH 106/130] fix: networks could be given names that can't be kept
 in the configuration

The name global even replaced the global settings.
---
 src/admin.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/admin.c b/src/admin.c
index 3d2b1c1..591c844 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -350,11 +350,37 @@ static void cmd_save_config (admin_handle h, const char * const *args, void *use
 	admin_out(h, "Configuration saved in %s", adm_dir);
 }
 
+/* The configuration has groups and files named after networks */
+static gboolean valid_network_name(const char *name)
+{
+	const char *reserved[] = { "global", "listener", "socks",
+		"auto-away", "log-irssi", "log-custom", NULL };
+	int i;
+
+	for (i = 0; reserved[i] != NULL; i++) {
+		if (!strcasecmp(name, reserved[i]))
+			return FALSE;
+	}
+
+	for (i = 0; name[i] != '\0'; i++) {
+		if (g_ascii_iscntrl(name[i]))
+			return FALSE;
+	}
+
+	return i > 0 && strchr("#&.", name[0]) == NULL && name[i-1] != '~' &&
+		strpbrk(name, "[]/") == NULL;
+}
+
 static void add_network_helper(admin_handle h, const char *name)
 {
 	struct network_config *nc;
 	struct irc_network *n;
 
+	if (!valid_network_name(name)) {
+		admin_out(h, "Invalid network name `%s'", name);
+		return;
+	}
+
 	if (find_network(admin_get_global(h)->networks, name) != NULL) {
 		admin_out(h, "Network with name `%s' already exists", name);
 		return;
@@ -382,6 +408,11 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 		return;
 	}
 
+	if (!valid_network_name(newname)) {
+		admin_out(h, "Invalid network name `%s'", newname);
+		return;
+	}
+
 	if (find_network(admin_get_global(h)->networks, newname) != NULL) {
 		admin_out(h, "Network with name `%s' already exists", newname);
 		return;
-- 
2.43.0


From ffbcb4c0f62b932c1e3fc2301fdbcc3f273c0b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:58 +0000
Subject: [PATCH 107/130] fix: the settings of a server used more than once
 were lost when loading the configuration

---
 src/settings.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/settings.c b/src/settings.c
index b875be1..eab8311 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -679,7 +679,26 @@ static void config_load_servers(struct network_config *n)
 		s->bind_address = config_get_string(n->keyfile, servers[i], "bind", NULL);
 
 		n->type_settings.tcp.servers = g_list_append(n->type_settings.tcp.servers, s);
+	}
+
+	g_strfreev(servers);
+}
+
+/* The settings of servers are written again when saving. They may be shared,
+ * so this is only possible once all networks have been loaded. */
+static void config_forget_servers(struct network_config *n)
+{
+	gsize size;
+	char **servers;
+	int i;
+
+	servers = config_get_string_list(n->keyfile, n->groupname, "servers", &size, NULL);
+
+	if (!servers) {
+		return;
+	}
 
+	for (i = 0; i < size; i++) {
 		g_key_file_remove_group(n->keyfile, servers[i], NULL);
 	}
 
@@ -1159,6 +1178,7 @@ static void config_load_networks(struct ctrlproxy_config *cfg, GList *channel_ke
 	char **groups;
 	gsize size, i;
 	struct network_config *n;
+	GList *gl;
 
 	/* Load networks from files */
 
@@ -1198,6 +1218,10 @@ static void config_load_networks(struct ctrlproxy_config *cfg, GList *channel_ke
 	}
 
 	g_strfreev(groups);
+
+	for (gl = cfg->networks; gl; gl = gl->next) {
+		config_forget_servers(gl->data);
+	}
 }
 
 #define FETCH_SETTING(data, kf, section, prefix, name) (data)->name = config_get_string((kf), (section), prefix #name, NULL)
-- 
2.43.0


From 83b3a8831e1206cfb0ecba950bf5fccac5aa7026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:28 +0000
Subject: [PATCH 108/130] fix: logging mode changes with long parameters wrote
 behind the end of a buffer

---
 src/log_subst.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/log_subst.c b/src/log_subst.c
index 154b65e..02d2898 100644
--- a/src/log_subst.c
+++ b/src/log_subst.c
@@ -149,15 +149,11 @@ static char *get_identifier(struct subst_context *subst_ctx, const struct irc_li
 
 static char *get_modechanges(struct subst_context *subst_ctx, const struct irc_line *line, gboolean case_sensitive)
 {
-	char buf[512] = "";
-	int i;
-
-	for (i = 3 ; i < line->argc && line->args[i] != NULL; i++) {
-		if (i > 3) strncat(buf, " ", sizeof(buf)-1);
-		strncat(buf, line->args[i], sizeof(buf)-1);
-	}
+	/* args is NULL-terminated */
+	if (line->argc <= 3)
+		return g_strdup("");
 
-	return g_strdup(buf);
+	return g_strjoinv(" ", line->args+3);
 }
 
 static struct log_mapping mappings[] = {
-- 
2.43.0


From 608c108484c985e4d000e02e181f732876734e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:28 +0000
Subject: [PATCH 109/130] fix: logging lines without parameters crashed the
 proxy

---
 src/log_custom.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/log_custom.c b/src/log_custom.c
index 441d592..f9c6c56 100644
--- a/src/log_custom.c
+++ b/src/log_custom.c
@@ -215,9 +215,11 @@ static gboolean log_custom_data(struct irc_network *network,
 	 * - log to channel only (KICK, PART, JOIN, TOPIC) (channel_only)
 	 */
 
-	if (dir == FROM_SERVER && !base_strcmp(l->args[0], "JOIN")) {
+	if (dir == FROM_SERVER && !base_strcmp(l->args[0], "JOIN") &&
+		l->args[1] != NULL) {
 		file_write_target(data, network, data->config->join, l);
-	} else if (dir == FROM_SERVER && !base_strcmp(l->args[0], "PART")) {
+	} else if (dir == FROM_SERVER && !base_strcmp(l->args[0], "PART") &&
+			   l->args[1] != NULL) {
 		file_write_channel_only(data, network, data->config->part, l);
 	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->args[2] != NULL) {
 		if (l->args[2][0] == '\001') {
@@ -232,7 +234,7 @@ static gboolean log_custom_data(struct irc_network *network,
 		} else {
 			file_write_target(data, network, data->config->msg, l);
 		}
-	} else if (!base_strcmp(l->args[0], "NOTICE")) {
+	} else if (!base_strcmp(l->args[0], "NOTICE") && l->args[1] != NULL) {
 		file_write_target(data, network, data->config->notice, l);
 	} else if (!base_strcmp(l->args[0], "MODE") && l->args[1] != NULL &&
 			  is_channelname(l->args[1], network_get_info(network)) &&
-- 
2.43.0


From 65ba3fa4fe502bd0284ef54241d54932daa220ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:28 +0000
Subject: [PATCH 110/130] fix: the last character of actions without a closing
 delimiter was not logged

---
 src/log_custom.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/log_custom.c b/src/log_custom.c
index f9c6c56..3297abb 100644
--- a/src/log_custom.c
+++ b/src/log_custom.c
@@ -223,13 +223,19 @@ static gboolean log_custom_data(struct irc_network *network,
 		file_write_channel_only(data, network, data->config->part, l);
 	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->args[2] != NULL) {
 		if (l->args[2][0] == '\001') {
-			l->args[2][strlen(l->args[2])-1] = '\0';
+			size_t len = strlen(l->args[2]);
+			/* The closing delimiter is sometimes left out */
+			gboolean closed = len > 1 && l->args[2][len-1] == '\001';
+
+			if (closed)
+				l->args[2][len-1] = '\0';
 			if (!g_ascii_strncasecmp(l->args[2], "\001ACTION ", 8)) {
 				l->args[2]+=8;
 				file_write_target(data, network, data->config->action, l);
 				l->args[2]-=8;
 			}
-			l->args[2][strlen(l->args[2])] = '\001';
+			if (closed)
+				l->args[2][len-1] = '\001';
 			/* Ignore all other ctcp messages */
 		} else {
 			file_write_target(data, network, data->config->msg, l);
-- 
2.43.0


From 2936a162f7569bd3f1cf3da2348747bb0b852ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:28 +0000
Subject: [PATCH 111/130] fix: the text of messages was not logged when the
 command was not in upper case

---
 src/log_subst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_subst.c b/src/log_subst.c
index 02d2898..a872345 100644
--- a/src/log_subst.c
+++ b/src/log_subst.c
@@ -218,7 +218,7 @@ static char *find_mapping(struct subst_context *subst_ctx,
 {
 	int i;
 	for (i = 0; mappings[i].subst; i++) {
-		if (mappings[i].command && strcmp(mappings[i].command, l->args[0]))
+		if (mappings[i].command && base_strcmp(mappings[i].command, l->args[0]))
 			continue;
 
 		if (mappings[i].subst != c)
-- 
2.43.0


From 0f55d1ff780c8e46c2b38b560685a7e077fe47ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:28 +0000
Subject: [PATCH 112/130] fix: the reason of kicks was missing from irssi style
 logs

---
 src/settings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/settings.c b/src/settings.c
index eab8311..598964c 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1324,7 +1324,7 @@ static void config_load_log(struct ctrlproxy_config *config)
 		data->action = "%h:%M  * %n %m";
 		data->mode = "%h:%M -!- mode/%t [%p %c] by %n";
 		data->quit = "%h:%M -!- %n [%u] has quit [%m]";
-		data->kick = "%h:%M -!- %t has been kicked by %n [%m]";
+		data->kick = "%h:%M -!- %t has been kicked by %n [%r]";
 		data->topic = "%h:%M -!- %n has changed the topic to %t";
 		data->notopic = "%h:%M -!- %n has removed the topic";
 		data->nickchange = "%h:%M -!- %n is now known as %r";
-- 
2.43.0


From c2fc1f563411f0dcf05368b5c1bb0cc03ce4f296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:28 +0000
Subject: [PATCH 113/130] fix: kicks from several channels were logged once for
 every pair of them

---
 src/log_custom.c | 30 +-----------------------------
 1 file changed, 1 insertion(+), 29 deletions(-)

diff --git a/src/log_custom.c b/src/log_custom.c
index 3297abb..b3348b2 100644
--- a/src/log_custom.c
+++ b/src/log_custom.c
@@ -250,35 +250,7 @@ static gboolean log_custom_data(struct irc_network *network,
 		file_write_channel_query(data, network, data->config->quit, l);
 	} else if (!base_strcmp(l->args[0], "KICK") && l->args[1] != NULL &&
 			   l->args[2] != NULL && dir == FROM_SERVER) {
-		if (strchr(l->args[1], ',') == NULL) {
-			file_write_channel_only(data, network, data->config->kick, l);
-		} else {
-			char *channels = g_strdup(l->args[1]);
-			char *nicks = g_strdup(l->args[1]);
-			char *p,*n; gboolean cont = TRUE;
-			char *_nick;
-
-			p = channels;
-			_nick = nicks;
-			while (cont) {
-				n = strchr(p, ',');
-
-				if (n == NULL)
-					cont = FALSE;
-				else
-					*n = '\0';
-
-				file_write_channel_only(data, network, data->config->kick, l);
-
-				p = n+1;
-				_nick = strchr(_nick, ',');
-				if (!_nick)break;
-				_nick++;
-			}
-
-			g_free(channels);
-			g_free(nicks);
-		}
+		file_write_channel_only(data, network, data->config->kick, l);
 	} else if (!base_strcmp(l->args[0], "TOPIC") && dir == FROM_SERVER &&
 		l->args[1] != NULL) {
 		if (l->args[2] != NULL) {
-- 
2.43.0


From 943a84f29315a8d6b408a6b8f911caf100b1c608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:28 +0000
Subject: [PATCH 114/130] fix: reopening the logs crashed the proxy when one of
 them could not be opened

---
 src/log_support.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/log_support.c b/src/log_support.c
index 0956505..8af213d 100644
--- a/src/log_support.c
+++ b/src/log_support.c
@@ -57,7 +57,8 @@ static gboolean eval_remove(gpointer key, gpointer value, gpointer user_data)
 	struct log_support_context *ctx = user_data;
 
 	if (fi->last_used < time(NULL) - CLEANUP_THRESHOLD) {
-		ctx->num_opened--;
+		if (fi->file != NULL)
+			ctx->num_opened--;
 		g_assert(ctx->num_opened >= 0);
 		return TRUE;
 	}
@@ -73,8 +74,12 @@ void log_support_cleanup(struct log_support_context *ctx)
 static gboolean unconditional_remove(gpointer key, gpointer value,
 									 gpointer user_data)
 {
+	struct log_file_info *fi = value;
 	struct log_support_context *ctx = user_data;
-	ctx->num_opened--;
+
+	/* Some may never have been opened successfully */
+	if (fi->file != NULL)
+		ctx->num_opened--;
 	g_assert(ctx->num_opened >= 0);
 	return TRUE;
 }
-- 
2.43.0


From ee8dfa8bed623625e981f72c021ae775a8335ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:28 +0000
Subject: [PATCH 115/130] fix: logging the name of the server crashed the proxy
 for built-in networks

---
 src/log_subst.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/log_subst.c b/src/log_subst.c
index a872345..9f82612 100644
--- a/src/log_subst.c
+++ b/src/log_subst.c
@@ -95,6 +95,9 @@ static char *get_user(struct subst_context *subst_ctx, const struct irc_line *li
 			user++;
 	}
 
+	if (user == NULL)
+		return g_strdup("");
+
 	if (case_sensitive)
 		return g_ascii_strdown(user, -1);
 	else
@@ -131,7 +134,10 @@ static char *get_network(struct subst_context *subst_ctx, const struct irc_line
 
 static char *get_server(struct subst_context *subst_ctx, const struct irc_line *line, gboolean case_sensitive)
 {
-	if (subst_ctx->network->connection.data.tcp.current_server)
+	struct network_config *nc = subst_ctx->network->private_data;
+
+	if (nc->type == NETWORK_TCP &&
+		subst_ctx->network->connection.data.tcp.current_server)
 		return g_strdup(subst_ctx->network->connection.data.tcp.current_server->host);
 	return g_strdup("");
 }
-- 
2.43.0


From 79eeac8515cfeb88a6fdc7e981a450872bf1549f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:57 +0000
Subject: [PATCH 116/130] fix: the log file used for a conversation depended on
 how its name was spelled

---
 src/log_custom.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/log_custom.c b/src/log_custom.c
index b3348b2..a5b3f26 100644
--- a/src/log_custom.c
+++ b/src/log_custom.c
@@ -91,6 +91,27 @@ static void file_write_line(struct log_custom_data *data, struct irc_network *ne
 	g_free(n);
 }
 
+/* The same conversation has one file, however its name was spelled */
+static const char *conversation_name(struct irc_network *network,
+				     const char *name)
+{
+	struct irc_channel_state *cs;
+	struct network_nick *nn;
+
+	if (network->external_state == NULL)
+		return name;
+
+	cs = find_channel(network->external_state, name);
+	if (cs != NULL)
+		return cs->name;
+
+	nn = find_network_nick(network->external_state, name);
+	if (nn != NULL)
+		return nn->nick;
+
+	return name;
+}
+
 static void file_write_line_target(struct log_custom_data *data,
 				   struct irc_network *network, const char *fmt,
 				   const struct irc_line *l, const char *t)
@@ -100,11 +121,13 @@ static void file_write_line_target(struct log_custom_data *data,
 		int i;
 
 		for (i = 0; channels[i]; i++) {
-			file_write_line(data, network, fmt, l, channels[i]);
+			file_write_line(data, network, fmt, l,
+					conversation_name(network, channels[i]));
 		}
 		g_strfreev(channels);
 	} else {
-		file_write_line(data, network, fmt, l, t);
+		file_write_line(data, network, fmt, l,
+				conversation_name(network, t));
 	}
 }
 
-- 
2.43.0


From 90cf3a23e366aa45a51be83f97a2abd2727e1838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:50 +0000
Subject: [PATCH 117/130] fix: messages without parameters crashed the proxy
 when logging

---
 src/log_custom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_custom.c b/src/log_custom.c
index a5b3f26..a074cb1 100644
--- a/src/log_custom.c
+++ b/src/log_custom.c
@@ -244,7 +244,7 @@ static gboolean log_custom_data(struct irc_network *network,
 	} else if (dir == FROM_SERVER && !base_strcmp(l->args[0], "PART") &&
 			   l->args[1] != NULL) {
 		file_write_channel_only(data, network, data->config->part, l);
-	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->args[2] != NULL) {
+	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2) {
 		if (l->args[2][0] == '\001') {
 			size_t len = strlen(l->args[2]);
 			/* The closing delimiter is sometimes left out */
-- 
2.43.0


From 8277728ac91252b372c95dd62e3a6f6a1c910508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:24 +0000
Subject: [PATCH 118/130] fix: the daemon crashed when an instance rejected a
 password

---
 daemon/backend.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/daemon/backend.c b/daemon/backend.c
index d1fa6de..930eeb6 100644
--- a/daemon/backend.c
+++ b/daemon/backend.c
@@ -47,17 +47,17 @@ static gboolean daemon_backend_recv(struct irc_transport *transport, const struc
 			ok = TRUE;
 		} else {
 			char *msg = g_strdup_printf("Unexpected response %s", line->args[0]);
-			if (!backend->callbacks->error(backend, msg))
-				return FALSE;
+			backend->callbacks->error(backend, msg);
 			g_free(msg);
-			ok = FALSE;
+			return FALSE;
 		}
+		backend->authenticated = ok;
 		if (backend->pass_check_cb != NULL) {
 			backend->pass_check_cb(backend, ok);
 			backend->pass_check_cb = NULL;
 		}
-		backend->authenticated = ok;
-		return TRUE;
+		/* The transport is gone if the password wasn't accepted */
+		return ok;
 	} else {
 		return backend->callbacks->recv(backend, line);
 	}
-- 
2.43.0


From 5439d4f55df6ddb3cbeb02c8a701619ef205e244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:24 +0000
Subject: [PATCH 119/130] fix: responses of instances without parameters
 crashed the daemon

---
 daemon/backend.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/daemon/backend.c b/daemon/backend.c
index 930eeb6..03911c2 100644
--- a/daemon/backend.c
+++ b/daemon/backend.c
@@ -41,12 +41,14 @@ static gboolean daemon_backend_recv(struct irc_transport *transport, const struc
 		gboolean ok;
 		if (irc_line_respcode(line) == ERR_PASSWDMISMATCH) {
 			ok = FALSE;
-		} else if (!strcmp(line->args[0], "NOTICE") &&
+		} else if (line->argc > 2 &&
+				   !strcmp(line->args[0], "NOTICE") &&
 				   !strcmp(line->args[1], "AUTH") &&
 				   !strcmp(line->args[2], "PASS OK")) {
 			ok = TRUE;
 		} else {
-			char *msg = g_strdup_printf("Unexpected response %s", line->args[0]);
+			char *msg = g_strdup_printf("Unexpected response %s",
+										line->argc > 0?line->args[0]:"");
 			backend->callbacks->error(backend, msg);
 			g_free(msg);
 			return FALSE;
-- 
2.43.0


From 97ac84d754aab302a4363f433655533903f2efa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:24 +0000
Subject: [PATCH 120/130] fix: errors while sending lines crashed the daemon

---
 daemon/backend.c |  7 ++++++-
 daemon/main.c    | 10 +++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/daemon/backend.c b/daemon/backend.c
index 03911c2..b19e771 100644
--- a/daemon/backend.c
+++ b/daemon/backend.c
@@ -77,9 +77,14 @@ static void charset_error_not_called(struct irc_transport *transport, const char
 	g_assert_not_reached();
 }
 
+static void log_transport_error(struct irc_transport *transport, const struct irc_line *l, const GError *error)
+{
+	/* The connection is closed once the end of what can be read is reached */
+}
+
 static const struct irc_transport_callbacks daemon_backend_callbacks = {
 	.hangup = irc_transport_disconnect,
-	.log = NULL,
+	.log = log_transport_error,
 	.disconnect = on_daemon_backend_disconnect,
 	.recv = daemon_backend_recv,
 	.charset_error = charset_error_not_called,
diff --git a/daemon/main.c b/daemon/main.c
index 655caf9..85d7888 100644
--- a/daemon/main.c
+++ b/daemon/main.c
@@ -197,9 +197,17 @@ static gboolean daemon_client_error(struct irc_transport *transport, const char
 	return FALSE;
 }
 
+static void daemon_client_log(struct irc_transport *transport, const struct irc_line *l, const GError *error)
+{
+	struct daemon_client *cd = transport->userdata;
+
+	listener_log(LOG_WARNING, cd->listener, "Unable to send line to %s: %s", cd->description,
+				 error->message);
+}
+
 static const struct irc_transport_callbacks daemon_client_callbacks = {
 	.hangup = irc_transport_disconnect,
-	.log = NULL,
+	.log = daemon_client_log,
 	.disconnect = on_daemon_client_disconnect,
 	.recv = daemon_client_recv,
 	.charset_error = charset_error_not_called,
-- 
2.43.0


From 5a9c79568feacd4f8ffd6edce32013475ee6c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:24 +0000
Subject: [PATCH 121/130] fix: the daemon could not start instances of users
 without a system account

---
 daemon/user.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/user.c b/daemon/user.c
index 93d6476..9bf6ec6 100644
--- a/daemon/user.c
+++ b/daemon/user.c
@@ -85,6 +85,11 @@ struct spawn_data {
 static void user_setup(gpointer user_data)
 {
 	struct spawn_data *data = user_data;
+
+	/* Not a system user */
+	if (data->user->uid == (uid_t)-1)
+		return;
+
 	if (setuid(data->user->uid) < 0) {
 		listener_log(LOG_WARNING, data->listener, "Unable to change effective user id to %s (%d): %s",
 					 data->user->username, data->user->uid,
-- 
2.43.0


From cd5d7a6903e376ba028dca826ce15b767940a758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:24 +0000
Subject: [PATCH 122/130] fix: the daemon crashed when an instance exited after
 its client had gone

---
 daemon/user.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/daemon/user.c b/daemon/user.c
index 9bf6ec6..e372599 100644
--- a/daemon/user.c
+++ b/daemon/user.c
@@ -98,19 +98,23 @@ static void user_setup(gpointer user_data)
 	}	
 }
 
+/* The user may be gone by the time the instance exits */
+struct daemon_child {
+	char *configdir;
+	struct irc_listener *listener;
+};
+
 static void daemon_user_exits(GPid pid, gint status, gpointer data)
 {
-	struct daemon_user *user = (struct daemon_user *)data;
+	struct daemon_child *child = (struct daemon_child *)data;
 
-	listener_log((status == 0)?LOG_INFO:LOG_WARNING, user->listener,
+	listener_log((status == 0)?LOG_INFO:LOG_WARNING, child->listener,
 					 "ctrlproxy instance for '%s' exited with status %d",
-					 user->configdir, status);
-
-	user->last_status = status;
+					 child->configdir, status);
 
 	g_spawn_close_pid(pid);
-	user->pid = -1;
-	user->child_watch = -1;
+	g_free(child->configdir);
+	g_free(child);
 }
 
 
@@ -118,6 +122,7 @@ gboolean daemon_user_start(struct daemon_user *user, const char *ctrlproxy_path,
 {
 	GError *error = NULL;
 	struct spawn_data spawn_data;
+	struct daemon_child *child;
 	char **command;
 	int child_stdin, child_stdout, child_stderr;
 	spawn_data.listener = l;
@@ -147,7 +152,10 @@ gboolean daemon_user_start(struct daemon_user *user, const char *ctrlproxy_path,
 
 	listener_log(LOG_INFO, l, "Launched new ctrlproxy instance for %s at %s",
 				 user->username, user->configdir);
-	user->child_watch = g_child_watch_add(user->pid, daemon_user_exits, user);
+	child = g_new0(struct daemon_child, 1);
+	child->configdir = g_strdup(user->configdir);
+	child->listener = l;
+	user->child_watch = g_child_watch_add(user->pid, daemon_user_exits, child);
 
 	/* FIXME: What if the process hasn't started up completely while we try to
 	 * connect to the socket? */
-- 
2.43.0


From 4ff94fc40340cf475f5dfbd589e2afc8cc5691e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:24 +0000
Subject: [PATCH 123/130] fix: clients could make the daemon use directories
 outside of the configuration directory

---
 daemon/user.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/daemon/user.c b/daemon/user.c
index e372599..3ff9a18 100644
--- a/daemon/user.c
+++ b/daemon/user.c
@@ -53,6 +53,12 @@ struct daemon_user *get_daemon_user(struct ctrlproxyd_config *config, const char
 	struct daemon_user *user = g_new0(struct daemon_user, 1);
 	struct passwd *pwd;
 
+	/* The name is used as part of a path */
+	if (username[0] == '\0' || username[0] == '.' || strchr(username, '/') != NULL) {
+		g_free(user);
+		return NULL;
+	}
+
 	user->username = g_strdup(username);
 	user->child_watch = -1;
 
@@ -173,6 +179,8 @@ void foreach_daemon_user(struct ctrlproxyd_config *config, struct irc_listener *
 		setpwent();
 		while ((pwent = getpwent()) != NULL) {
 			user = get_daemon_user(config, pwent->pw_name);
+			if (user == NULL)
+				continue;
 			fn(user, config->ctrlproxy_path, listener);
 		}
 		endpwent();
@@ -183,6 +191,8 @@ void foreach_daemon_user(struct ctrlproxyd_config *config, struct irc_listener *
 			return;
 		while ((name = g_dir_read_name(dir)) != NULL) {
 			user = get_daemon_user(config, name);
+			if (user == NULL)
+				continue;
 			fn(user, config->ctrlproxy_path, listener);
 		}
 		g_dir_close(dir);
-- 
2.43.0


From 1a9a03836f8b648b7a61cedbbb5b473c2c00978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:24 +0000
Subject: [PATCH 124/130] fix: long user names made the daemon connect to
 another socket

---
 daemon/backend.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/backend.c b/daemon/backend.c
index b19e771..bb210f4 100644
--- a/daemon/backend.c
+++ b/daemon/backend.c
@@ -101,6 +101,11 @@ struct daemon_backend *daemon_backend_open(const char *socketpath,
 	struct sockaddr_un un;
 	GIOChannel *ch;
 
+	if (strlen(socketpath) >= sizeof(un.sun_path)) {
+		listener_log(LOG_INFO, listener, "unable to connect to %s: path too long", socketpath);
+		return NULL;
+	}
+
 	sock = socket(PF_UNIX, SOCK_STREAM, 0);
 
 	un.sun_family = AF_UNIX;
-- 
2.43.0


From 023cac5d7c2520f78e5fbdb75ac61ec435aacdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:24 +0000
Subject: [PATCH 125/130] fix: the reply of the daemon to SOCKS clients was
 malformed

---
 daemon/main.c     | 4 ++--
 libirc/listener.c | 2 +-
 libirc/listener.h | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/daemon/main.c b/daemon/main.c
index 85d7888..e77a6d2 100644
--- a/daemon/main.c
+++ b/daemon/main.c
@@ -343,9 +343,9 @@ static gboolean daemon_socks_connect_fqdn (struct pending_client *cl, const char
 	g_assert(strlen(hostname) < 0x100);
 
 	data[0] = strlen(hostname);
-	strncpy(data+1, hostname, data[0]);
+	memcpy(data+1, hostname, strlen(hostname));
 
-	listener_socks_reply(cl, REP_OK, ATYP_FQDN, strlen(hostname)+2, data, port);
+	listener_socks_reply(cl, REP_OK, ATYP_FQDN, strlen(hostname)+1, data, port);
 	return FALSE;
 }
 
diff --git a/libirc/listener.c b/libirc/listener.c
index 36bbe42..4668a1b 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -502,7 +502,7 @@ gboolean listener_start_tcp(struct irc_listener *l, const char *address, const c
  *  - support for ident method
  */
 
-gboolean listener_socks_reply(struct pending_client *pc, guint8 err, guint8 atyp, guint8 data_len, gchar *data, guint16 port)
+gboolean listener_socks_reply(struct pending_client *pc, guint8 err, guint8 atyp, gsize data_len, gchar *data, guint16 port)
 {
 	gchar *header = g_new0(gchar, 7 + data_len);
 	GIOStatus status;
diff --git a/libirc/listener.h b/libirc/listener.h
index 470fe3c..8c4ae0c 100644
--- a/libirc/listener.h
+++ b/libirc/listener.h
@@ -133,7 +133,7 @@ G_MODULE_EXPORT void listener_add_iochannel(struct irc_listener *l, GIOChannel *
 G_MODULE_EXPORT void listener_log(enum log_level l, const struct irc_listener *listener,
 				 const char *fmt, ...);
 G_MODULE_EXPORT gboolean listener_socks_error(struct pending_client *pc, guint8 err);
-G_MODULE_EXPORT gboolean listener_socks_reply(struct pending_client *pc, guint8 err, guint8 atyp, guint8 data_len, gchar *data, guint16 port);
+G_MODULE_EXPORT gboolean listener_socks_reply(struct pending_client *pc, guint8 err, guint8 atyp, gsize data_len, gchar *data, guint16 port);
 G_MODULE_EXPORT struct pending_client *listener_new_pending_client(struct irc_listener *listener, GIOChannel *c);
 
 #ifdef HAVE_GSSAPI
-- 
2.43.0


From 8168be5d39160ea29cc5c7655cf9302d21dc9cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:06 +0000
Subject: [PATCH 126/130] fix: clients of the daemon that went away before
 their password was checked crashed it

---
 daemon/client.c   |  6 ++++++
 daemon/main.c     | 35 +++++++++++++++++++++++++++++------
 libirc/listener.c | 26 ++++++++++++++++++++------
 libirc/listener.h |  4 ++++
 4 files changed, 59 insertions(+), 12 deletions(-)

diff --git a/daemon/client.c b/daemon/client.c
index b4b04cc..c918272 100644
--- a/daemon/client.c
+++ b/daemon/client.c
@@ -38,6 +38,12 @@ void daemon_client_kill(struct daemon_client *dc)
 
 	dc->freed = TRUE;
 
+	if (dc->pending_client != NULL) {
+		dc->pending_client->private_data = NULL;
+		listener_kill_pending_client(dc->pending_client);
+		dc->pending_client = NULL;
+	}
+
 	if (dc->backend != NULL) {
 		daemon_backend_kill(dc->backend);
 	}
diff --git a/daemon/main.c b/daemon/main.c
index e77a6d2..ef7e621 100644
--- a/daemon/main.c
+++ b/daemon/main.c
@@ -283,14 +283,16 @@ static gboolean daemon_client_connect_backend(struct daemon_client *cd, struct p
 	cd->user = get_daemon_user(cd->config, username);
 	if (cd->user == NULL) {
 		listener_log(LOG_INFO, cd->listener, "Unable to find user %s", username);
-		irc_sendf(cl->connection, cl->listener->iconv, NULL, "ERROR :Unknown user %s", username);
+		if (cl->type == CLIENT_TYPE_REGULAR)
+			irc_sendf(cl->connection, cl->listener->iconv, NULL, "ERROR :Unknown user %s", username);
 		return FALSE;
 	}
 
 	if (!daemon_user_running(cd->user)) {
 		if (!daemon_user_start(cd->user, cd->config->ctrlproxy_path, cd->listener)) {
-			irc_sendf(cl->connection, cl->listener->iconv, NULL, "ERROR :Unable to start ctrlproxy for %s",
-					  cd->user->username);
+			if (cl->type == CLIENT_TYPE_REGULAR)
+				irc_sendf(cl->connection, cl->listener->iconv, NULL, "ERROR :Unable to start ctrlproxy for %s",
+						  cd->user->username);
 			return FALSE;
 		}
 	}
@@ -306,7 +308,8 @@ static void daemon_backend_pass_checked(struct daemon_backend *backend, gboolean
 {
 	struct daemon_client *cd = backend->userdata;
 
-	cd->socks_accept_fn(cd->pending_client, accepted);
+	if (!cd->socks_accept_fn(cd->pending_client, accepted))
+		daemon_client_kill(cd);
 }
 
 
@@ -323,6 +326,14 @@ static gboolean daemon_socks_auth_simple(struct pending_client *cl, const char *
 	return daemon_backend_authenticate(cd->backend, password, daemon_backend_pass_checked);
 }
 
+/* From now on the connection is taken care of by the transport */
+static void daemon_client_set_transport(struct daemon_client *cd, struct pending_client *pc)
+{
+	cd->client_transport = irc_transport_new_iochannel(pc->connection);
+	cd->pending_client = NULL;
+	pc->private_data = NULL;
+}
+
 static gboolean daemon_socks_connect_fqdn (struct pending_client *cl, const char *hostname, uint16_t port)
 {
 	struct daemon_client *cd = cl->private_data;
@@ -334,7 +345,7 @@ static gboolean daemon_socks_connect_fqdn (struct pending_client *cl, const char
 	cd->description = g_io_channel_ip_get_description(cl->connection);
 	listener_log(LOG_INFO, cl->listener, "Accepted new socks client %s for user %s", cd->description, cd->user->username);
 
-	cd->client_transport = irc_transport_new_iochannel(cl->connection);
+	daemon_client_set_transport(cd, cl);
 	irc_transport_set_callbacks(cd->client_transport, &daemon_client_callbacks, cd);
 
 	snprintf(portstr, sizeof(portstr), "%d", port);
@@ -397,7 +408,7 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 		cd->description = g_io_channel_ip_get_description(pc->connection);
 		listener_log(LOG_INFO, pc->listener, "Accepted new client %s for user %s", cd->description, cd->user->username);
 
-		cd->client_transport = irc_transport_new_iochannel(pc->connection);
+		daemon_client_set_transport(cd, pc);
 
 		daemon_backend_authenticate(cd->backend, cd->login_details->password, plain_handle_auth_finish);
 
@@ -409,6 +420,17 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 	return TRUE;
 }
 
+static void daemon_free_client(struct pending_client *pc)
+{
+	struct daemon_client *cd = pc->private_data;
+
+	if (cd == NULL)
+		return;
+
+	cd->pending_client = NULL;
+	daemon_client_kill(cd);
+}
+
 static void daemon_new_client(struct pending_client *pc)
 {
 	struct daemon_client *cd = g_new0(struct daemon_client, 1);
@@ -422,6 +444,7 @@ static void daemon_new_client(struct pending_client *pc)
 
 struct irc_listener_ops daemon_ops = {
 	.new_client = daemon_new_client,
+	.free_client = daemon_free_client,
 	.socks_auth_simple = daemon_socks_auth_simple,
 	.socks_connect_fqdn = daemon_socks_connect_fqdn,
 #ifdef HAVE_GSSAPI
diff --git a/libirc/listener.c b/libirc/listener.c
index 4668a1b..0371a3d 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -51,12 +51,15 @@ static gboolean handle_client_detect(GIOChannel *ioc,
 static gboolean handle_client_socks_data(GIOChannel *ioc,
 										 struct pending_client *cl);
 
-static gboolean kill_pending_client(struct pending_client *pc)
+gboolean listener_kill_pending_client(struct pending_client *pc)
 {
 #ifdef HAVE_GSSAPI
 	guint32 major_status, minor_status;
 #endif
 
+	if (pc->listener->ops->free_client)
+		pc->listener->ops->free_client(pc);
+
 	pc->listener->pending = g_list_remove(pc->listener->pending, pc);
 
 	g_source_remove(pc->watch_id);
@@ -254,7 +257,7 @@ static gboolean handle_client_receive(GIOChannel *c, GIOCondition condition, gpo
 	if (condition & G_IO_IN) {
 		if (pc->type == CLIENT_TYPE_UNKNOWN) {
 			if (!handle_client_detect(c, pc)) {
-				kill_pending_client(pc);
+				listener_kill_pending_client(pc);
 				return FALSE;
 			}
 		}
@@ -277,13 +280,13 @@ static gboolean handle_client_receive(GIOChannel *c, GIOCondition condition, gpo
 				free_line(l);
 
 				if (!ret) {
-					kill_pending_client(pc);
+					listener_kill_pending_client(pc);
 					return FALSE;
 				}
 			}
 
 			if (status != G_IO_STATUS_AGAIN) {
-				kill_pending_client(pc);
+				listener_kill_pending_client(pc);
 				if (error != NULL)
 					g_error_free(error);
 				return FALSE;
@@ -298,7 +301,7 @@ static gboolean handle_client_receive(GIOChannel *c, GIOCondition condition, gpo
 					 g_io_channel_get_buffer_condition(c) & G_IO_IN);
 
 			if (!ret)
-				kill_pending_client(pc);
+				listener_kill_pending_client(pc);
 			return ret;
 		} else if (pc->type == CLIENT_TYPE_QUASSEL) {
 			/* TODO: Quassel */
@@ -308,7 +311,7 @@ static gboolean handle_client_receive(GIOChannel *c, GIOCondition condition, gpo
 	}
 
 	if (condition & G_IO_HUP) {
-		kill_pending_client(pc);
+		listener_kill_pending_client(pc);
 		return FALSE;
 	}
 
@@ -571,6 +574,7 @@ static gboolean on_socks_pass_accepted(struct pending_client *cl, gboolean accep
 		cl->socks.state = SOCKS_STATE_NORMAL;
 		return TRUE;
 	} else {
+		cl->socks.state = SOCKS_STATE_AUTH;
 		return FALSE;
 	}
 }
@@ -638,8 +642,15 @@ static gboolean pass_handle_data(struct pending_client *cl)
 
 	cl->socks.data_len = 0;
 
+	cl->socks.state = SOCKS_STATE_AUTH_PENDING;
+
 	accepted = cl->listener->ops->socks_auth_simple(cl, uname, pass,
 													on_socks_pass_accepted);
+	if (!accepted && cl->socks.state == SOCKS_STATE_AUTH_PENDING) {
+		/* Could not be checked */
+		return on_socks_pass_accepted(cl, FALSE);
+	}
+
 	return TRUE;
 }
 
@@ -909,6 +920,9 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 		}
 	} else if (cl->socks.state == SOCKS_STATE_AUTH) {
 		return cl->socks.method->handle_data(cl);
+	} else if (cl->socks.state == SOCKS_STATE_AUTH_PENDING) {
+		/* The client has to wait for the outcome */
+		return FALSE;
 	} else if (cl->socks.state == SOCKS_STATE_NORMAL) {
 		guint8 *header = cl->socks.data;
 
diff --git a/libirc/listener.h b/libirc/listener.h
index 8c4ae0c..6addbe5 100644
--- a/libirc/listener.h
+++ b/libirc/listener.h
@@ -27,6 +27,8 @@ struct pending_client;
 struct irc_listener_ops {
 	/* Signal a new client has connected. */
 	void (*new_client) (struct pending_client *pc);
+	/* Signal a pending client is about to go away */
+	void (*free_client) (struct pending_client *pc);
 	/* Forward line from unaccepted pending client */
 	gboolean (*handle_client_line) (struct pending_client *pc, const struct irc_line *l);
 	/* Check authentication + authorization of a socks client by password */
@@ -71,6 +73,7 @@ enum socks_state {
 	SOCKS_UNKNOWN = 0,
 	SOCKS_STATE_NEW = 1,
 	SOCKS_STATE_AUTH,
+	SOCKS_STATE_AUTH_PENDING,
 	SOCKS_STATE_NORMAL
 };
 
@@ -134,6 +137,7 @@ G_MODULE_EXPORT void listener_log(enum log_level l, const struct irc_listener *l
 				 const char *fmt, ...);
 G_MODULE_EXPORT gboolean listener_socks_error(struct pending_client *pc, guint8 err);
 G_MODULE_EXPORT gboolean listener_socks_reply(struct pending_client *pc, guint8 err, guint8 atyp, gsize data_len, gchar *data, guint16 port);
+G_MODULE_EXPORT gboolean listener_kill_pending_client(struct pending_client *pc);
 G_MODULE_EXPORT struct pending_client *listener_new_pending_client(struct irc_listener *listener, GIOChannel *c);
 
 #ifdef HAVE_GSSAPI
-- 
2.43.0


From a31ebfa6f1e4dc1566abc1bedfb80bc77b2dacd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:46 +0000
Subject: [PATCH 127/130] fix: the daemon never closed its connections to
 instances

---
 daemon/backend.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/backend.c b/daemon/backend.c
index bb210f4..0fa07aa 100644
--- a/daemon/backend.c
+++ b/daemon/backend.c
@@ -120,6 +120,7 @@ struct daemon_backend *daemon_backend_open(const char *socketpath,
 	backend = g_new0(struct daemon_backend, 1);
 	ch = g_io_channel_unix_new(sock);
 
+	g_io_channel_set_close_on_unref(ch, TRUE);
 	g_io_channel_set_encoding(ch, NULL, NULL);
 	g_io_channel_set_flags(ch, G_IO_FLAG_NONBLOCK, NULL);
 
-- 
2.43.0


From 58b0f0c760e82033e8e97f103078e62274cf4d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:06 +0000
Subject: [PATCH 128/130] fix: CONNECT without parameters made the daemon read
 behind the end of an array

---
 daemon/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/main.c b/daemon/main.c
index ef7e621..f1c0cd3 100644
--- a/daemon/main.c
+++ b/daemon/main.c
@@ -385,7 +385,7 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 		cd->login_details->password = g_strdup(l->args[1]);
 	} else if (!base_strcmp(l->args[0], "CONNECT")) {
 		cd->servername = g_strdup(l->args[1]);
-		cd->servicename = g_strdup(l->args[2]);
+		cd->servicename = g_strdup(l->argc > 2?l->args[2]:NULL);
 	} else if (!base_strcmp(l->args[0], "USER") && l->argc > 4) {
 		cd->login_details->username = g_strdup(l->args[1]);
 		cd->login_details->mode = g_strdup(l->args[2]);
-- 
2.43.0


From 972a828b3e4abeac521652b4c3069ce4428603e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:06 +0000
Subject: [PATCH 129/130] fix: lines with nothing but an origin crashed the
 daemon

---
 libirc/transport_ioc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 990b578..9eef7e4 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -321,7 +321,9 @@ static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
 				error->domain == G_CONVERT_ERROR)) {
 
 			if (status == G_IO_STATUS_NORMAL) {
-				ret &= transport->callbacks->recv(transport, l);
+				/* There is nothing to handle in lines with just an origin */
+				if (l != NULL)
+					ret &= transport->callbacks->recv(transport, l);
 			} else {
 				/* This line is of no use, but others may be waiting already */
 				ret &= handle_recv_status(transport, status, error);
-- 
2.43.0


From 85d3c39538e55825ec9c3751d563f7e28ec01dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:11 +0000
Subject: [PATCH 130/130] fix: connecting to a network with an empty nick, user
 name or full name crashed the proxy

---
 src/network.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/network.c b/src/network.c
index ec293ad..6d492ee 100644
--- a/src/network.c
+++ b/src/network.c
@@ -349,16 +349,18 @@ static struct irc_login_details *get_login_details(struct irc_network *s)
 	struct irc_login_details *ret = g_new0(struct irc_login_details, 1);
 	struct network_config *nc = s->private_data;
 
-	if (nc->username != NULL)
+	if (nc->username != NULL && strlen(nc->username) > 0)
 		ret->username = g_strdup(nc->username);
-	else if (nc->global->default_username != NULL)
+	else if (nc->global->default_username != NULL &&
+			 strlen(nc->global->default_username) > 0)
 		ret->username = g_strdup(nc->global->default_username);
 	else
 		ret->username = g_strdup(g_get_user_name());
 
-	if (nc->fullname != NULL)
+	if (nc->fullname != NULL && strlen(nc->fullname) > 0)
 		ret->realname = g_strdup(nc->fullname);
-	else if (nc->global->default_realname != NULL) {
+	else if (nc->global->default_realname != NULL &&
+			 strlen(nc->global->default_realname) > 0) {
 		ret->realname = g_strdup(nc->global->default_realname);
 	} else {
 		ret->realname = g_strdup(g_get_real_name());
@@ -369,9 +371,10 @@ static struct irc_login_details *get_login_details(struct irc_network *s)
 		}
 	}
 
-	if (nc->nick != NULL)
+	if (nc->nick != NULL && strlen(nc->nick) > 0)
 		ret->nick = g_strdup(nc->nick);
-	else if (nc->global->default_nick != NULL)
+	else if (nc->global->default_nick != NULL &&
+			 strlen(nc->global->default_nick) > 0)
 		ret->nick = g_strdup(nc->global->default_nick);
 	else
 		ret->nick = g_strdup(g_get_user_name());
-- 
2.43.0

