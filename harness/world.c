/*
 * The whole proxy as one deterministic object.
 *
 * The parent reads "new" and forks; the child runs one scenario: it executes one command per line and answers
 * each with one JSON line, until "end".  If the child dies the parent reports how. See README in this directory.
 */
#define _GNU_SOURCE
#include "internals.h"
#include "irc.h"
#include "os.h"
#include "url.h"
#include "keyfile.h"
#include "transport.h"
#include <sys/un.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <poll.h>
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strdup

extern struct global *my_global;
extern char my_hostname[];
extern enum log_level current_log_level;
extern gboolean no_log_timestamp;

/* main.c is not linked: its one exported service */
static struct { hup_handler_fn fn; void *userdata; } hups[64];
static int nhups;
#ifdef DWORLD
/* the front end has its own */
int ctrlproxyd_main(int argc, char **argv);
#define register_hup_handler unused_register_hup_handler
#endif
void register_hup_handler(hup_handler_fn fn, void *userdata)
{
	g_assert(nhups < 64);
	hups[nhups].fn = fn; hups[nhups++].userdata = userdata;
}

/* ---------- JSON output ---------- */
static GString *out;
static gboolean need_comma;

static void j_raw(const char *s) { g_string_append(out, s); }
static void j_strn(const char *s, gsize n)
{
	gsize i;
	g_string_append_c(out, '"');
	for (i = 0; i < n; i++) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { g_string_append_c(out, '\\'); g_string_append_c(out, c); }
		else if (c < 32 || c > 126) g_string_append_printf(out, "\\u%04x", c);
		else g_string_append_c(out, c);
	}
	g_string_append_c(out, '"');
}
static void j_str(const char *s) { if (s == NULL) j_raw("null"); else j_strn(s, strlen(s)); }
static void j_sep(void) { if (need_comma) g_string_append_c(out, ','); need_comma = TRUE; }
static void j_key(const char *k) { j_sep(); j_str(k); g_string_append_c(out, ':'); }
static void j_open(char c) { g_string_append_c(out, c); need_comma = FALSE; }
static void j_close(char c) { g_string_append_c(out, c); need_comma = TRUE; }
static void j_kstr(const char *k, const char *v) { j_key(k); j_str(v); }
static void j_kint(const char *k, long v) { j_key(k); g_string_append_printf(out, "%ld", v); }
static void j_item(const char *v) { j_sep(); j_str(v); }
static void j_flush(int fd)
{
	gsize done = 0;
	ssize_t (*w)(int, const void *, size_t) = write;
	g_string_append_c(out, '\n');
	while (done < out->len) {
		ssize_t n = w(fd, out->str + done, out->len - done);
		if (n <= 0) _exit(97);
		done += n;
	}
	g_string_truncate(out, 0);
	need_comma = FALSE;
}

/* ---------- peers ---------- */
struct peer {
	char *name;
	int fd, codefd;
	gboolean closed, hold;
	GString *in;
};
static GPtrArray *peers;
static int nserver;
static GString *events;     /* extra events of this step, already JSON objects, comma separated */

static void ev_begin(void) { if (events->len) g_string_append_c(events, ','); }

static struct peer *peer_new(const char *name, int fd)
{
	struct peer *p = g_new0(struct peer, 1);
	p->name = g_strdup(name); p->fd = fd; p->in = g_string_new("");
	p->codefd = -1;
	g_ptr_array_add(peers, p);
	fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
	return p;
}
static struct peer *peer_get(const char *name)
{
	guint i;
	for (i = 0; i < peers->len; i++) {
		struct peer *p = g_ptr_array_index(peers, i);
		if (!strcmp(p->name, name)) return p;
	}
	return NULL;
}
static void on_connect(int port, int fd, int pending)
{
	char name[32];
	struct peer *p;
	snprintf(name, sizeof(name), "s%d", ++nserver);
	p = peer_new(name, fd);
	p->codefd = os_code_fd_of_peer(fd);
	p->hold = pending;
	ev_begin();
	g_string_append_printf(events, "{\"acc\":\"%s\",\"port\":%d,\"pending\":%d}", name, port, pending);
}

/* instances of users, played by the driver: sockets it listens on */
static struct { char *name; int fd; } inst[64];
static int ninst, nback;

static gboolean drain(void)
{
	static char buf[65536];
	gboolean any = FALSE;
	guint i;
	int k;
	for (k = 0; k < ninst; k++) {
		int fd = inst[k].fd < 0 ? -1 : accept(inst[k].fd, NULL, NULL);
		if (fd >= 0) {
			char name[32];
			snprintf(name, sizeof(name), "b%d", ++nback);
			peer_new(name, fd)->codefd = os_last_unix;
			any = TRUE;
			ev_begin();
			g_string_append_printf(events, "{\"acc\":\"%s\",\"inst\":\"%s\"}", name, inst[k].name);
		}
	}
	for (i = 0; i < peers->len; i++) {
		struct peer *p = g_ptr_array_index(peers, i);
		ssize_t n;
		if (p->closed) continue;
		if (p->hold) {
			/* not established yet; was it given up? */
			struct pollfd pf = { p->fd, 0, 0 };
			if (poll(&pf, 1, 0) > 0 && (pf.revents & (POLLHUP | POLLERR))) {
				p->closed = TRUE;
				any = TRUE;
				ev_begin();
				g_string_append_printf(events, "{\"closed\":\"%s\"}", p->name);
				os_forget(p->fd);
				close(p->fd);
			}
			continue;
		}
		while ((n = recv(p->fd, buf, sizeof(buf), MSG_DONTWAIT)) > 0) {
			g_string_append_len(p->in, buf, n);
			any = TRUE;
		}
		if (n == 0 || (n < 0 && errno != EAGAIN)) {
			p->closed = TRUE;
			any = TRUE;
			ev_begin();
			g_string_append_printf(events, "{\"closed\":\"%s\"}", p->name);
			os_forget(p->fd);
			close(p->fd);
		}
	}
	return any;
}

static gboolean spun;
static gboolean is_eventfd(int fd)
{
	char p[64], t[64];
	ssize_t r;
	sprintf(p, "/proc/self/fd/%d", fd);
	r = readlink(p, t, sizeof(t) - 1);
	if (r < 0) return FALSE;
	t[r] = 0;
	return strstr(t, "eventfd") != NULL;
}

/* One turn of the main loop as g_main_loop_run() would do it; FALSE if it would block. */
static gboolean one_iteration(void)
{
	GMainContext *c = g_main_context_default();
	static GPollFD *fds;
	static gint alloc;
	gint prio, timeout, n, i, ready = 0;
	gboolean prepared;
	if (!g_main_context_acquire(c)) abort();
	prepared = g_main_context_prepare(c, &prio);
	while ((n = g_main_context_query(c, prio, &timeout, fds, alloc)) > alloc) {
		fds = g_renew(GPollFD, fds, n);
		alloc = n;
	}
	for (i = 0; i < n; i++) fds[i].revents = 0;
	if (n > 0) ready = g_poll(fds, n, 0);
	/* GLib signals its own wakeup descriptor whenever it dispatches a watch, which is no event. */
	for (i = 0; i < n; i++)
		if (fds[i].revents && is_eventfd(fds[i].fd)) ready--;
	if (!prepared && timeout != 0 && ready <= 0) {
		g_main_context_release(c);
		return FALSE;
	}
	g_main_context_check(c, prio, fds, n);
	g_main_context_dispatch(c);
	g_main_context_release(c);
	return TRUE;
}

static void settle(void)
{
	int n = 0, idle = 0;
	do {
		idle = 1;
		while (one_iteration()) {
			idle = 0;
			if (++n > 20000) { spun = TRUE; return; }
		}
		if (drain()) idle = 0;
	} while (!idle);
}

static void report(void)
{
	guint i;
	gboolean first = TRUE;
	if (spun) { j_kint("spin", 1); spun = FALSE; }
	if (events->len) {
		j_key("ev"); g_string_append_c(out, '[');
		g_string_append_len(out, events->str, events->len);
		g_string_append_c(out, ']');
		g_string_truncate(events, 0);
	}
	for (i = 0; i < peers->len; i++) {
		struct peer *p = g_ptr_array_index(peers, i);
		if (p->in->len == 0) continue;
		if (first) { j_key("io"); j_open('{'); first = FALSE; }
		j_key(p->name); j_strn(p->in->str, p->in->len);
		g_string_truncate(p->in, 0);
	}
	if (!first) j_close('}');
}

/* ---------- projections of the state ---------- */
static void d_modes(const char *key, const gboolean *modes)
{
	char buf[MAXMODES + 1]; int i, n = 0;
	for (i = 0; i < MAXMODES; i++) if (modes[i]) buf[n++] = i;
	buf[n] = 0;
	j_kstr(key, buf);
}

static void d_nick(const struct network_nick *n)
{
	GList *gl;
	j_kstr("nick", n->nick); j_kstr("user", n->username); j_kstr("host", n->hostname);
	j_kstr("real", n->fullname); j_kstr("mask", n->hostmask);
	j_kint("query", n->query); j_kstr("server", n->server); j_kint("hops", n->hops);
	d_modes("modes", n->modes);
	j_key("chans"); j_open('[');
	for (gl = n->channel_nicks; gl; gl = gl->next) {
		struct channel_nick *cn = gl->data;
		j_item(cn->channel->name);
	}
	j_close(']');
}

static void d_state(const struct irc_network_state *s)
{
	GList *gl, *g2;
	int i;
	j_open('{');
	j_key("me"); j_open('{'); d_nick(&s->me); j_close('}');
	j_kint("away", s->is_away);
	j_key("chans"); j_open('[');
	for (gl = s->channels; gl; gl = gl->next) {
		struct irc_channel_state *c = gl->data;
		j_sep(); j_open('{');
		j_kstr("name", c->name); j_kstr("topic", c->topic); j_kstr("topic_by", c->topic_set_by);
		j_kint("topic_at", c->topic_set_time); j_kint("created", c->creation_time);
		{ char m[2] = { c->mode, 0 }; j_kstr("mode", m); }
		d_modes("modes", c->modes);
		j_kint("mode_received", c->mode_received);
		j_kint("names_started", c->namreply_started);
		j_key("opts"); j_open('{');
		for (i = 0; i < MAXMODES; i++) if (c->chanmode_option[i]) {
			char k[2] = { i, 0 };
			j_kstr(k, c->chanmode_option[i]);
		}
		j_close('}');
		j_key("lists"); j_open('{');
		for (i = 0; i < MAXMODES; i++) if (c->chanmode_nicklist[i]) {
			char k[2] = { i, 0 };
			j_key(k); j_open('[');
			for (g2 = c->chanmode_nicklist[i]; g2; g2 = g2->next) {
				struct nicklist_entry *e = g2->data;
				j_sep(); j_open('[');
				j_item(e->hostmask); j_item(e->by);
				g_string_append_printf(out, ",%ld", (long)e->time_set);
				j_close(']');
			}
			j_close(']');
		}
		j_close('}');
		j_key("listp"); {
			char buf[MAXMODES + 1]; int n = 0;
			for (i = 0; i < MAXMODES; i++) if (c->chanmode_nicklist_present[i]) buf[n++] = i;
			buf[n] = 0; j_str(buf);
		}
		j_key("nicks"); j_open('[');
		for (g2 = c->nicks; g2; g2 = g2->next) {
			struct channel_nick *cn = g2->data;
			j_sep(); j_open('{');
			j_kstr("nick", cn->global_nick->nick);
			d_modes("modes", cn->modes);
			j_kstr("flags", cn->last_flags);
			j_kint("me", cn->global_nick == &s->me);
			j_close('}');
		}
		j_close(']');
		j_close('}');
	}
	j_close(']');
	j_key("nicks"); j_open('[');
	for (gl = s->nicks; gl; gl = gl->next) {
		j_sep(); j_open('{'); d_nick(gl->data); j_close('}');
	}
	j_close(']');
	j_close('}');
}

static void d_info(const struct irc_network_info *i)
{
	int k;
	j_open('{');
	j_kstr("name", i->name); j_kstr("server", i->server); j_kint("casemapping", i->casemapping);
	j_kstr("prefix", i->prefix); j_kstr("chantypes", i->chantypes); j_kstr("charset", i->charset);
	j_kstr("umodes", i->supported_user_modes); j_kstr("cmodes", i->supported_channel_modes);
	j_key("chanmodes");
	if (i->chanmodes == NULL) j_raw("null");
	else { j_open('['); for (k = 0; i->chanmodes[k] && k < 4; k++) j_item(i->chanmodes[k]); j_close(']'); }
	j_kstr("chanlimit", i->chanlimit); j_kstr("maxlist", i->maxlist); j_kstr("idchan", i->idchan);
	j_kint("excepts", i->excepts_mode); j_kint("invex", i->invex_mode); j_kint("deaf", i->deaf_mode);
	j_kstr("statusmsg", i->statusmsg);
	j_kint("keylen", i->keylen); j_kint("channellen", i->channellen); j_kint("awaylen", i->awaylen);
	j_kint("kicklen", i->kicklen); j_kint("maxtargets", i->maxtargets); j_kint("nicklen", i->nicklen);
	j_kint("userlen", i->userlen); j_kint("hostlen", i->hostlen); j_kint("maxchannels", i->maxchannels);
	j_kint("topiclen", i->topiclen); j_kint("maxbans", i->maxbans); j_kint("maxmodes", i->maxmodes);
	j_kint("silence", i->silence); j_kint("silence_limit", i->silence_limit); j_kint("maxpara", i->maxpara);
	j_kint("watch", i->watch); j_kint("wallchops", i->wallchops); j_kint("wallvoices", i->wallvoices);
	j_kint("safelist", i->safelist); j_kint("namesx", i->namesx); j_kint("uhnames", i->uhnames);
	j_kint("knock", i->knock); j_kint("whox", i->whox); j_kint("callerid", i->callerid);
	j_kstr("extban_prefix", i->extban_prefix); j_kstr("extban", i->extban_supported);
	j_kint("forced_nick", i->forced_nick_changes);
	j_kint("elist", (i->elist_mask_search?1:0)|(i->elist_inverse_mask_search?2:0)|(i->elist_usercount_search?4:0)
		|(i->elist_creation_time_search?8:0)|(i->elist_topic_search?16:0));
	j_close('}');
}

static void d_config(const struct ctrlproxy_config *c)
{
	GList *gl, *g2;
	int i;
	j_open('{');
	j_kint("autosave", c->autosave); j_kstr("motd_file", c->motd_file); j_kstr("password", c->password);
	j_kstr("default_nick", c->default_nick); j_kstr("default_username", c->default_username);
	j_kstr("default_realname", c->default_realname); j_kint("create_implicit", c->create_implicit != 0);
	j_kstr("replication", c->replication); j_kstr("client_charset", c->client_charset);
	j_kint("admin_log", c->admin_log != 0); j_kstr("admin_user", c->admin_user);
	j_kint("report_time", c->report_time); j_kint("report_time_offset", c->report_time_offset);
	j_kint("max_who_age", c->cache.max_who_age); j_kint("auto_listener", c->auto_listener != 0);
	j_kint("listener_autoport", c->listener_autoport); j_kint("learn_nickserv", c->learn_nickserv != 0);
	j_kint("learn_network_name", c->learn_network_name != 0);
	j_key("auto_away"); j_open('{');
	j_kint("enabled", c->auto_away.enabled != 0); j_kint("time", c->auto_away.max_idle_time);
	j_kint("limit", c->auto_away.client_limit); j_kstr("message", c->auto_away.message); j_kstr("nick", c->auto_away.nick);
	j_close('}');
	j_key("log");
	if (c->log_file == NULL) j_raw("null");
	else {
		const struct log_file_config *l = c->log_file;
		j_open('{');
		j_kint("irssi", l->is_irssi != 0); j_kstr("basedir", l->logbasedir); j_kstr("filename", l->logfilename);
		j_kstr("nickchange", l->nickchange); j_kstr("join", l->join); j_kstr("part", l->part);
		j_kstr("topic", l->topic); j_kstr("notopic", l->notopic); j_kstr("msg", l->msg); j_kstr("action", l->action);
		j_kstr("kick", l->kick); j_kstr("mode", l->mode); j_kstr("quit", l->quit); j_kstr("notice", l->notice);
		j_close('}');
	}
	j_key("networks"); j_open('[');
	for (gl = c->networks; gl; gl = gl->next) {
		struct network_config *n = gl->data;
		j_sep(); j_open('{');
		j_kstr("name", n->name); j_kstr("nick", n->nick); j_kstr("fullname", n->fullname);
		j_kstr("username", n->username); j_kstr("password", n->password);
		j_kint("implicit", n->implicit != 0); j_kint("autoconnect", n->autoconnect != 0);
		j_kint("ignore_first_nick", n->ignore_first_nick != 0); j_kint("disable_cache", n->disable_cache != 0);
		j_kint("queue_speed", n->queue_speed); j_kint("reconnect_interval", (int)n->reconnect_interval);
		j_kint("type", n->type);
		j_key("channels"); j_open('[');
		for (g2 = n->channels; g2; g2 = g2->next) {
			struct channel_config *cc = g2->data;
			j_sep(); j_open('{');
			j_kstr("name", cc->name); j_kstr("key", cc->key); j_kint("autojoin", cc->autojoin != 0);
			j_close('}');
		}
		j_close(']');
		j_key("autocmd"); j_open('[');
		for (i = 0; n->autocmd && n->autocmd[i]; i++) j_item(n->autocmd[i]);
		j_close(']');
		if (n->type == NETWORK_TCP) {
			j_kstr("bind", n->type_settings.tcp.default_bind_address);
			j_key("servers"); j_open('[');
			for (g2 = n->type_settings.tcp.servers; g2; g2 = g2->next) {
				struct tcp_server_config *t = g2->data;
				j_sep(); j_open('{');
				j_kstr("host", t->host); j_kstr("port", t->port); j_kstr("bind", t->bind_address);
				j_kint("ssl", t->ssl != 0); j_kstr("password", t->password);
				j_close('}');
			}
			j_close(']');
		} else if (n->type == NETWORK_PROGRAM) j_kstr("program", n->type_settings.program_location);
		else if (n->type == NETWORK_VIRTUAL) j_kstr("virtual", n->type_settings.virtual_name);
		j_close('}');
	}
	j_close(']');
	j_key("listeners"); j_open('[');
	for (gl = c->listeners; gl; gl = gl->next) {
		struct listener_config *l = gl->data;
		j_sep(); j_open('{');
		j_kstr("port", l->port); j_kstr("address", l->address); j_kstr("password", l->password);
		j_kstr("network", l->network); j_kint("ssl", l->ssl != 0); j_kint("default", l->is_default != 0);
		j_key("allow"); j_open('[');
		for (g2 = l->allow_rules; g2; g2 = g2->next) {
			struct allow_rule *r = g2->data;
			j_sep(); j_open('['); j_item(r->username); j_item(r->password); j_close(']');
		}
		j_close(']');
		j_close('}');
	}
	j_close(']');
	j_close('}');
}

static void d_networks(void)
{
	GList *gl, *g2;
	j_open('[');
	for (gl = my_global->networks; gl; gl = gl->next) {
		struct irc_network *n = gl->data;
		struct network_config *nc = n->private_data;
		j_sep(); j_open('{');
		j_kstr("name", n->name); j_kint("conn", n->connection.state); j_kint("timer", n->reconnect_id != 0);
		j_kint("transport", nc->type == NETWORK_TCP && n->connection.transport != NULL);
		j_kint("state", n->external_state != NULL);
		if (nc->type == NETWORK_TCP) {
			struct tcp_server_config *t = n->connection.data.tcp.current_server;
			j_kint("server", t ? g_list_index(nc->type_settings.tcp.servers, t) + 1 : 0);
			j_kint("pinger", n->connection.data.tcp.ping_id != 0);
		}
		j_kstr("nick", n->external_state ? n->external_state->me.nick : NULL);
		j_key("clients"); j_open('[');
		for (g2 = n->clients; g2; g2 = g2->next) {
			struct irc_client *c = g2->data;
			j_item(c->state && c->state->me.nick ? c->state->me.nick : "");
		}
		j_close(']');
		j_close('}');
	}
	j_close(']');
}

static void d_line(const struct irc_line *l)
{
	size_t i;
	if (l == NULL) { j_raw("null"); return; }
	j_open('{');
	j_kstr("origin", l->origin);
	j_kint("argc", l->argc);
	j_key("args"); j_open('[');
	for (i = 0; i < l->argc; i++) j_item(l->args[i]);
	j_close(']');
	j_close('}');
}

/* ---------- recording filters and hooks ---------- */
struct flt { char *name; char kind; GSList *veto; gboolean all; };
static GSList *flts;
static gboolean flt_fn(struct irc_network *n, const struct irc_line *l, enum data_direction dir, void *ud)
{
	struct flt *f = ud;
	GSList *s;
	gboolean ok = !f->all;
	char *raw = irc_line_string(l);
	GString *save = out; gboolean nc = need_comma;
	for (s = f->veto; s && ok; s = s->next) {
		int i;
		for (i = 0; i < (int)l->argc; i++) if (!strcmp(l->args[i], s->data)) ok = FALSE;
	}
	out = events; ev_begin(); need_comma = FALSE;
	j_open('{'); j_kstr("flt", f->name); { char k[2] = { f->kind, 0 }; j_kstr("kind", k); }
	j_kint("dir", dir); j_kstr("net", n->name); j_kstr("line", raw); j_kint("ok", ok);
	j_close('}');
	out = save; need_comma = nc;
	free(raw);
	return ok;
}
static gboolean nch_fn(struct irc_client *c, void *ud)
{
	struct flt *f = ud;
	const char *nick = c->state && c->state->me.nick ? c->state->me.nick : "";
	GSList *s;
	gboolean ok = !f->all;
	GString *save = out; gboolean nc = need_comma;
	for (s = f->veto; s && ok; s = s->next) if (!strcmp(nick, s->data)) ok = FALSE;
	out = events; ev_begin(); need_comma = FALSE;
	j_open('{'); j_kstr("hook", f->name); j_kstr("nick", nick); j_kint("ok", ok); j_close('}');
	out = save; need_comma = nc;
	return ok;
}
static void lch_fn(struct irc_client *c, void *ud)
{
	struct flt *f = ud;
	const char *nick = c->state && c->state->me.nick ? c->state->me.nick : "";
	GString *save = out; gboolean nc = need_comma;
	out = events; ev_begin(); need_comma = FALSE;
	j_open('{'); j_kstr("lost", f->name); j_kstr("nick", nick); j_close('}');
	out = save; need_comma = nc;
}

/* ---------- linestack ---------- */
static GHashTable *markers;
static gboolean trav_fn(struct irc_line *l, time_t t, void *ud)
{
	char *raw = irc_line_string(l);
	(void)ud;
	j_sep(); j_open('[');
	g_string_append_printf(out, "%ld", (long)t); need_comma = TRUE;
	j_item(raw);
	j_close(']');
	free(raw);
	return TRUE;
}

/* ---------- commands ---------- */
static char **argv_; static int argc_;
static char *unpct(const char *s, gsize *len)
{
	GString *g = g_string_new("");
	for (; *s; s++) {
		if (*s == '%' && g_ascii_isxdigit(s[1]) && g_ascii_isxdigit(s[2])) {
			g_string_append_c(g, g_ascii_xdigit_value(s[1]) * 16 + g_ascii_xdigit_value(s[2]));
			s += 2;
		} else g_string_append_c(g, *s);
	}
	if (len) *len = g->len;
	return g_string_free(g, FALSE);
}
static const char *A(int i) { return i < argc_ ? argv_[i] : ""; }
static gsize lens[640];

static struct irc_network *net(const char *name)
{
	return find_network(my_global->networks, name);
}

static void op_init(const char *dir, gboolean listen_first)
{
	(void)listen_first;
	my_global = load_global(dir, FALSE);
	if (my_global == NULL) { j_kint("failed", 1); return; }
	start_unix_domain_socket_listener(my_global);
	start_admin_socket(my_global);
	autoconnect_networks(my_global->networks);
	if (!init_listeners(my_global)) j_kint("nolisten", 1);
	if (my_global->config->auto_away.enabled)
		auto_away_add(my_global, &my_global->config->auto_away);
}

static void op_save(void)
{
	/* what main.c does for SIGUSR1 */
	config_save_notify(my_global, my_global->config->config_dir);
	global_update_config(my_global);
	save_configuration(my_global->config, my_global->config->config_dir);
	nickserv_save(my_global, my_global->config->config_dir);
}

static void op_quit(void)
{
	/* main.c's clean_exit */
	char *path;
	kill_pending_clients("Server exiting");
	path = my_global->config->config_dir;
	config_save_notify(my_global, path);
	if (my_global->config->autosave) {
		save_configuration(my_global->config, path);
		nickserv_save(my_global, path);
	}
	stop_unix_domain_socket_listener(my_global);
	stop_admin_socket(my_global);
	fini_listeners(my_global);
	free_global(my_global);
	my_global = NULL;
	/* the process ends here: what it had registered is gone */
	del_log_filter("log_custom");
	nhups = 0;
}

static int unix_connect(const char *path)
{
	struct sockaddr_un un;
	int fd = socket(AF_UNIX, SOCK_STREAM, 0);
	memset(&un, 0, sizeof(un));
	un.sun_family = AF_UNIX;
	strncpy(un.sun_path, path, sizeof(un.sun_path) - 1);
	if (connect(fd, (struct sockaddr *)&un, sizeof(un)) < 0) { close(fd); return -1; }
	return fd;
}

static void connected(const char *name, int fd)
{
	if (fd < 0) { j_kint("refused", 1); return; }
	os_last_accepted = -1;
	{
		struct peer *p = peer_new(name, fd);
		settle();
		p->codefd = os_last_accepted;
	}
}

static void op_listen(const char *name, const char *path)
{
	struct sockaddr_un un;
	int fd = socket(AF_UNIX, SOCK_STREAM, 0);
	memset(&un, 0, sizeof(un));
	un.sun_family = AF_UNIX;
	strncpy(un.sun_path, path, sizeof(un.sun_path) - 1);
	if (bind(fd, (struct sockaddr *)&un, sizeof(un)) < 0 || listen(fd, 64) < 0) { j_kint("failed", errno); close(fd); return; }
	fcntl(fd, F_SETFL, O_NONBLOCK);
	inst[ninst].name = g_strdup(name); inst[ninst++].fd = fd;
}

static gboolean execute(char *line);
static void answered(void)
{
	settle();
	report();
	j_kint("t", (long)(os_now - 1000000000));
	j_close('}');
	j_flush(3);
}

#ifdef DWORLD
static char *read_line(void);
static int running;
/* the front end hands over to its main loop: that's the driver, until it says "quit" */
void g_main_loop_run(GMainLoop *l)
{
	char *line;
	running = 1;
	answered();
	while ((line = read_line()) && strcmp(line, "quit")) {
		alarm(20);
		if (!execute(line)) _exit(0);
		alarm(0);
	}
	running = 0;
	alarm(20);
	j_open('{');
}
int gethostname(char *name, size_t len) { strncpy(name, "proxy.host", len); return 0; }
#endif

static gboolean execute(char *line)
{
	char **parts = g_strsplit(line, " ", 620);
	const char *op;
	int i;
	gboolean more = TRUE;
	argc_ = g_strv_length(parts);
	argv_ = g_new0(char *, argc_ + 1);
	for (i = 0; i < argc_; i++) argv_[i] = unpct(parts[i], &lens[i]);
	op = A(0);
	j_open('{');
	if (!strcmp(op, "end")) more = FALSE;
	else if (!strcmp(op, "init")) op_init(A(1), FALSE);
	else if (!strcmp(op, "quit")) op_quit();
	else if (!strcmp(op, "save")) op_save();
	else if (!strcmp(op, "hup")) {
		int i;
		for (i = 0; i < nhups; i++) hups[i].fn(hups[i].userdata);
	}
	else if (!strcmp(op, "now")) os_now = atol(A(1));
	else if (!strcmp(op, "port")) {
		const char *m = A(2);
		os_set_port_mode(atoi(A(1)), !strcmp(m, "refuse") ? PORT_REFUSE : !strcmp(m, "pending") ? PORT_PENDING :
			!strcmp(m, "nolookup") ? PORT_NOLOOKUP : PORT_OK);
	}
	else if (!strcmp(op, "cconn")) connected(A(1), os_connect_to(atoi(A(2))));
	else if (!strcmp(op, "listen")) op_listen(A(1), A(2));
	else if (!strcmp(op, "unlisten")) {
		for (i = 0; i < ninst; i++) if (inst[i].fd >= 0 && !strcmp(inst[i].name, A(1))) { close(inst[i].fd); inst[i].fd = -1; }
	}
#ifdef DWORLD
	else if (!strcmp(op, "daemon")) {
		char *av[] = { "ctrlproxyd", "-F", "-c", (char *)A(1), NULL };
		int r;
		static gboolean again;
		g_assert(!running && !again);
		again = TRUE;
		{
			char **mine = argv_; int n = argc_;
			r = ctrlproxyd_main(4, av);
			argv_ = mine; argc_ = n;
		}
		j_kint("exit", r);
	}
	else if (!strcmp(op, "reap")) {
		/* until every process started by the code has ended */
		siginfo_t si;
		int n = 0;
		while (waitid(P_ALL, 0, &si, WEXITED | WNOWAIT) == 0 && n++ < 200) { usleep(1000); settle(); }
		j_kint("waited", n);
	}
#endif
	else if (!strcmp(op, "uconn")) connected(A(1), unix_connect(A(2)));
	else if (!strcmp(op, "send") || !strcmp(op, "sendraw")) {
		struct peer *p = peer_get(A(1));
		gsize done = 0, n = lens[2];
		if (p == NULL || p->closed) j_kint("nopeer", 1);
		else while (done < n) {
			ssize_t w = send(p->fd, A(2) + done, n - done, MSG_NOSIGNAL | MSG_DONTWAIT);
			if (w < 0) {
				if (errno == EAGAIN) { settle(); if (p->closed) break; continue; }
				j_kint("sendfail", 1); break;
			}
			done += w;
		}
	}
	else if (!strcmp(op, "close")) {
		struct peer *p = peer_get(A(1));
		if (p && !p->closed) { drain(); if (p->codefd >= 0) os_stall(p->codefd, 0); os_forget(p->fd); if (!p->closed) { close(p->fd); p->closed = TRUE; } }
	}
	else if (!strcmp(op, "finish")) {
		struct peer *p = peer_get(A(1));
		if (p == NULL || p->closed) j_kint("nopeer", 1);
		else if (!strcmp(A(2), "ok")) { os_connect_succeed(p->fd); p->hold = FALSE; }
		else { p->closed = TRUE; os_connect_fail(p->fd); }
	}
	else if (!strcmp(op, "tick")) {
		long n = atol(A(1));
		while (n-- > 0) { os_now++; settle(); if (spun) break; }
	}
	else if (!strcmp(op, "plan")) {
		struct peer *p = peer_get(A(1));
		int plan[256], n = 0;
		char **v = g_strsplit(A(2), ",", 250);
		for (i = 0; v[i]; i++) plan[n++] = atoi(v[i]);
		if (p && p->codefd >= 0) os_write_plan(p->codefd, plan, n); else j_kint("nopeer", 1);
		g_strfreev(v);
	}
	else if (!strcmp(op, "stall")) {
		struct peer *p = peer_get(A(1));
		if (p && p->codefd >= 0) os_stall(p->codefd, atoi(A(2))); else j_kint("nopeer", 1);
	}
	else if (!strcmp(op, "dump")) {
		struct irc_network *n = net(A(1));
		j_key("st");
		if (n == NULL || n->external_state == NULL) j_raw("null"); else d_state(n->external_state);
		need_comma = TRUE;
	}
	else if (!strcmp(op, "info")) {
		struct irc_network *n = net(A(1));
		j_key("info");
		if (n == NULL || n->external_state == NULL) j_raw("null"); else d_info(n->external_state->info);
		need_comma = TRUE;
		j_key("netinfo");
		if (n == NULL) j_raw("null"); else d_info(n->info);
		need_comma = TRUE;
		if (n) { char *f = network_generate_feature_string(n); j_kstr("feature", f); g_free(f); }
	}
	else if (!strcmp(op, "nets")) { j_key("nets"); d_networks(); need_comma = TRUE; }
	else if (!strcmp(op, "cfg")) { j_key("cfg"); d_config(my_global->config); need_comma = TRUE; }
	else if (!strcmp(op, "loadcfg")) {
		struct ctrlproxy_config *c = load_configuration(A(1), FALSE);
		j_key("cfg");
		if (c == NULL) j_raw("null"); else d_config(c);
		need_comma = TRUE;
	}
	else if (!strcmp(op, "nickserv")) {
		GList *gl;
		j_key("entries"); j_open('[');
		for (gl = my_global->nickserv_nicks; gl; gl = gl->next) {
			struct keyfile_entry *e = gl->data;
			j_sep(); j_open('['); j_item(e->network); j_item(e->nick); j_item(e->pass); j_close(']');
		}
		j_close(']');
	}
	else if (!strcmp(op, "addflt") || !strcmp(op, "addnch") || !strcmp(op, "addlch")) {
		/* addflt name server|log priority veto... ; addnch name veto... */
		struct flt *f = g_new0(struct flt, 1);
		int first = !strcmp(op, "addflt") ? 4 : 2;
		f->name = g_strdup(A(1));
		f->kind = A(2)[0];
		for (i = first; i < argc_; i++) {
			if (!strcmp(A(i), "*")) f->all = TRUE;
			else f->veto = g_slist_append(f->veto, g_strdup(A(i)));
		}
		flts = g_slist_append(flts, f);
		if (!strcmp(op, "addnch")) add_new_client_hook(f->name, nch_fn, f);
		else if (!strcmp(op, "addlch")) add_lose_client_hook(f->name, lch_fn, f);
		else if (f->kind == 'l') add_log_filter(f->name, flt_fn, f, atoi(A(3)));
		else add_server_filter(f->name, flt_fn, f, atoi(A(3)));
	}
	else if (!strcmp(op, "delflt")) { if (A(2)[0] == 'l') del_log_filter(A(1)); else del_server_filter(A(1)); }
	else if (!strcmp(op, "delnch")) del_new_client_hook(A(1));
	else if (!strcmp(op, "dellch")) del_lose_client_hook(A(1));
	else if (!strcmp(op, "mark")) {
		struct irc_network *n = net(A(1));
		if (n == NULL || n->linestack == NULL) j_kint("none", 1);
		else g_hash_table_insert(markers, g_strdup(A(2)), linestack_get_marker(n->linestack));
	}
	else if (!strcmp(op, "trav")) {
		/* trav net from|- to|- [object] */
		struct irc_network *n = net(A(1));
		linestack_marker f = strcmp(A(2), "-") ? g_hash_table_lookup(markers, A(2)) : NULL;
		linestack_marker t = strcmp(A(3), "-") ? g_hash_table_lookup(markers, A(3)) : NULL;
		gboolean ok;
		if (n == NULL || n->linestack == NULL) j_kint("none", 1);
		else {
			j_key("lines"); j_open('[');
			if (argc_ > 4) ok = linestack_traverse_object(n->linestack, A(4), f, t, trav_fn, NULL);
			else ok = linestack_traverse(n->linestack, f, t, trav_fn, NULL);
			j_close(']');
			j_kint("ok", ok);
		}
	}
	else if (!strcmp(op, "lstate")) {
		struct irc_network *n = net(A(1));
		linestack_marker f = strcmp(A(2), "-") ? g_hash_table_lookup(markers, A(2)) : NULL;
		if (n == NULL || n->linestack == NULL) j_kint("none", 1);
		else {
			struct irc_network_state *s = linestack_get_state(n->linestack, f);
			j_key("st");
			if (s == NULL) j_raw("null"); else d_state(s);
			need_comma = TRUE;
			if (s) free_network_state(s);
		}
	}
	else if (!strcmp(op, "cmp")) {
		/* cmp mapping a b n : sign of irccmp and ircncmp */
		struct irc_network_info *info = network_info_init();
		int m = atoi(A(1)), r;
		/* the operands in exactly sized buffers, so that an access beyond them is seen */
		char *a = g_strdup(A(2)), *b = g_strdup(A(3));
		info->casemapping = m;
		j_key("r"); j_open('[');
		r = irccmp(info, a, b); j_sep(); g_string_append_printf(out, "%d", (r > 0) - (r < 0));
		for (i = 4; i < argc_; i++) {
			r = ircncmp(info, a, b, atoi(A(i)));
			j_sep(); g_string_append_printf(out, "%d", (r > 0) - (r < 0));
		}
		j_close(']');
		g_free(a); g_free(b);
		free_network_info(info);
	}
	else if (!strcmp(op, "cmpset")) {
		/* cmpset MAPPING a b1 n1 b2 n2 ... : is a the same name as b1, b2... (first n characters, all if negative) */
		struct irc_network_info *info = network_info_init();
		char *a = g_strdup(A(2));
		if (A(1)[0]) {
			char *t = g_strdup_printf("CASEMAPPING=%s", A(1));
			network_info_parse(info, t);
			g_free(t);
		}
		j_key("r"); j_open('[');
		for (i = 3; i + 1 < argc_; i += 2) {
			char *b = g_strdup(A(i));
			int n = atoi(A(i + 1));
			j_sep(); g_string_append_printf(out, "%d", (n < 0 ? irccmp(info, a, b) : ircncmp(info, a, b, n)) == 0);
			g_free(b);
		}
		j_close(']');
		g_free(a);
		free_network_info(info);
	}
	else if (!strcmp(op, "isup")) {
		/* isup tok tok... : network_info after parsing the tokens, and the string generated */
		struct irc_network_info *info = network_info_init();
		char *f;
		for (i = 1; i < argc_; i++) { char *t = g_strdup(A(i)); network_info_parse(info, t); g_free(t); }
		j_key("info"); d_info(info); need_comma = TRUE;
		f = network_info_string(info);
		j_kstr("feature", f);
		g_free(f);
		/* what follows from them: the class of every letter as a channel mode, the mark of every status,
		 * the status of every mark, the characters channel names begin with */
		{
			GString *cls = g_string_new(NULL), *mark = g_string_new(NULL), *status = g_string_new(NULL), *chan = g_string_new(NULL);
			int c;
			for (c = 33; c < 127; c++) {
				char name[3] = { c, 'x', 0 };
				if (g_ascii_isalpha(c)) {
					char x = get_prefix_by_mode(c, info);
					g_string_append_c(cls, '0' + network_chanmode_type(c, info));
					if (x != ' ') g_string_append_printf(mark, "%c%c", c, x);
				} else if (is_prefix(c, info)) g_string_append_printf(status, "%c%c", c, get_mode_by_prefix(c, info));
				if (is_channelname(name, info)) g_string_append_c(chan, c);
			}
			j_kstr("cls", cls->str); j_kstr("mark", mark->str); j_kstr("status", status->str); j_kstr("chan", chan->str);
			g_string_free(cls, TRUE); g_string_free(mark, TRUE); g_string_free(status, TRUE); g_string_free(chan, TRUE);
		}
		free_network_info(info);
	}
	else if (!strcmp(op, "parse")) {
		struct irc_line *l = irc_parse_line(A(1));
		j_key("line"); d_line(l); need_comma = TRUE;
		if (l) { char *s = irc_line_string(l); struct irc_line *l2;
			j_kstr("str", s); l2 = irc_parse_line(s); j_key("line2"); d_line(l2); need_comma = TRUE;
			g_free(s); free_line(l2); free_line(l); }
	}
	else if (!strcmp(op, "url")) {
		char *h = NULL, *p = NULL; gboolean ssl = FALSE;
		gboolean ok = irc_parse_url(A(1), &h, &p, &ssl);
		j_kint("ok", ok);
		if (ok) { char *u; j_kstr("host", h); j_kstr("port", p); j_kint("ssl", ssl != 0);
			u = irc_create_url(h, p, ssl); j_kstr("url", u); }
	}
	else if (!strcmp(op, "hostmask")) {
		/* hostmask casemap oldnick!user@host newnick!user@host LINE */
		struct irc_network_info *info = network_info_init();
		struct irc_network_state *o = network_state_init("x", "x", "x"), *n = network_state_init("x", "x", "x");
		struct irc_line *l, *r; char *before, *after;
		info->casemapping = atoi(A(1));
		network_nick_set_hostmask(&o->me, A(2)); network_nick_set_hostmask(&n->me, A(3));
		l = irc_parse_line(A(4));
		before = irc_line_string(l);
		r = irc_line_replace_hostmask(l, info, &o->me, &n->me);
		after = irc_line_string(l);
		j_kint("mutated", strcmp(before, after) != 0);
		j_key("line"); d_line(r ? r : l); need_comma = TRUE;
		j_kint("changed", r != NULL);
	}
	else j_kint("unknown", 1);

	answered();
	for (i = 0; i < argc_; i++) g_free(argv_[i]);
	g_free(argv_);
	g_strfreev(parts);
	return more;
}

/* ---------- the two processes ---------- */
static char *read_line(void)
{
	static char *buf; static gsize cap;
	gsize n = 0;
	static char ib[65536]; static int ip, il;
	for (;;) {
		if (ip == il) {
			il = read(0, ib, sizeof(ib)); ip = 0;
			if (il <= 0) { il = ip = 0; return NULL; }
		}
		if (n + 1 >= cap) { cap = cap ? cap * 2 : 4096; buf = realloc(buf, cap); }
		if (ib[ip] == '\n') { ip++; buf[n] = 0; return buf; }
		buf[n++] = ib[ip++];
	}
}

int main(int argc, char **argv)
{
	char *l;
	(void)argc; (void)argv;
	signal(SIGPIPE, SIG_IGN);
	if (dup2(1, 3) < 0) return 98;
	dup2(2, 1);
	out = g_string_new(""); events = g_string_new("");
	peers = g_ptr_array_new();
	markers = g_hash_table_new(g_str_hash, g_str_equal);
	os_on_connect = on_connect;
	strcpy(my_hostname, "proxy.host");
	current_log_level = getenv("WORLD_LOG") ? atoi(getenv("WORLD_LOG")) : LOG_INFO;
	no_log_timestamp = TRUE;
	init_log(NULL);
	init_plugins("/nonexistent");
	init_admin();
	init_nickserv();
	init_replication();
	setenv("TZ", "UTC", 1); tzset();

	while ((l = read_line())) {
		pid_t pid;
		int st;
		if (strcmp(l, "new")) continue;
		pid = fork();
		if (pid == 0) {
			struct rlimit rl = { 0, 0 };
			setrlimit(RLIMIT_CORE, &rl);
			rl.rlim_cur = rl.rlim_max = 64 << 20;
			setrlimit(RLIMIT_FSIZE, &rl);
			g_string_append(out, "{\"new\":1}"); j_flush(3);
			while ((l = read_line())) {
				gboolean more;
				alarm(20);
				more = execute(l);
				alarm(0);
				if (!more) break;
			}
			_exit(0);
		}
		waitpid(pid, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) g_string_append(out, "{\"done\":0}");
		else if (WIFEXITED(st)) g_string_append_printf(out, "{\"died\":%d}", WEXITSTATUS(st));
		else g_string_append_printf(out, "{\"died\":%d}", -WTERMSIG(st));
		j_flush(3);
	}
	return 0;
}
