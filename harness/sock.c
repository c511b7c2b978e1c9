/* Clients of the daemon (src/daemon.c): D04 robustness of the command socket, D05 typing on request, D13 reports to listeners. */
#include "dmn.h"
#ifdef TEXT
#include "keynames.h"
#else
const struct keycode_table_ent keycode_table[256];
#endif
#ifndef NTOK
#define NTOK 2
#endif
/* ---- stand-ins: configurations, keyboards, devices */
struct device device_table[MAX_DEVICES]; size_t device_table_sz;
#define NK 4
static struct mk { struct keyboard *k; } mk_[NK]; static int nmk, parses, evals[NK], evalbad[NK]; static char evald[NK][16];
static int led[MAX_DEVICES];
int config_parse(struct config *c, const char *path) { parses++; c->nr_layers = 5; c->layer_indicator = strstr(path, "/b.conf") != 0;
	strcpy(c->layers[0].name, "main"); c->layers[0].type = LT_LAYOUT; memset(c->layers[1].name, 'n', MAX_LAYER_NAME_LEN); c->layers[1].name[MAX_LAYER_NAME_LEN] = 0; memset(c->layers[2].name, 'd', MAX_LAYER_NAME_LEN); c->layers[2].name[MAX_LAYER_NAME_LEN] = 0; c->layers[2].type = LT_LAYOUT;
	strcpy(c->layers[3].name, "a+b"); c->layers[3].type = LT_COMPOSITE; strcpy(c->layers[4].name, "nav"); return 0; }
int config_check_match(struct config *c, const char *id, uint8_t flags) { return (id[0] == 'b') == c->layer_indicator ? 2 : 0; }
struct keyboard *new_keyboard(struct config *c, const struct output *o) { struct keyboard *k = calloc(1, sizeof *k); kse_check(nmk < NK, "one keyboard per configuration"); mk_[nmk++].k = k; k->output = *o; k->original_config = c; memcpy(&k->config, c, sizeof *c); k->layer_state[0].active = 1; return k; }
long kbd_process_events(struct keyboard *k, const struct key_event *e, size_t n) { return 0; }
int kbd_eval(struct keyboard *k, const char *s) { int i; for (i = 0; mk_[i].k != k; i++); evals[i]++; strncpy(evald[i], s, 15); if (evalbad[i]) { strcpy(errstr, "bad binding"); return -1; } return 0; }
int device_grab(struct device *d) { d->grabbed = 1; return 0; }
int device_ungrab(struct device *d) { return 0; }
void device_set_led(const struct device *d, int l, int s) { kse_check(l == 1, "the indicator is the caps lock led"); led[d - device_table] = s; }
void evloop_add_fd(int fd) { kse_check(fd == IPCFD, "clients are awaited"); }
static int (*handler)(struct event *ev); static long now_ = 1000; static void (*script)(void);
int evloop(int (*h)(struct event *ev)) { handler = h; script(); kse_cover("end"); kse_end(); return 0; }
static void call(struct event *e) { e->timestamp = now_ += 5; handler(e); }
static void add(const char *id) { struct device *d = &device_table[device_table_sz++]; memset(d, 0, sizeof *d); strcpy(d->id, id); d->capabilities = CAP_KEYBOARD; d->fd = 10 + (int)device_table_sz; struct event e = { .type = EV_DEV_ADD, .dev = d }; call(&e); }
static struct ipc_message rq[NCON];
static struct con *client(void) { struct con *c = &con[c_next]; c->in = (void *)&rq[c_next]; c_waiting = 1; struct event e = { .type = EV_FD_ACTIVITY, .fd = IPCFD }; call(&e); kse_check(!c_waiting, "clients are served"); return c; }
static void start(void (*s)(void)) { script = s; cd_n = 2; cd_name[0] = "a.conf"; cd_name[1] = "b.conf"; cd_type[0] = cd_type[1] = DT_REG; for (int i = 0; i < NCON; i++) { con[i].out_fail = -1; con[i].in_n = sizeof rq[0]; } char *a[] = {"keyd", 0}; run_daemon(1, a); }
#ifndef TEXT
/* ---- D04: every client gets one reply, whatever it sends */
static int mparses, mexecs, mbad; static char mtext[8]; static size_t mlen, mto;
int macro_parse(char *s, struct macro *m) { mparses++; mlen = strlen(s); strncpy(mtext, s, 7); if (mbad) { strcpy(errstr, "bad macro"); return -1; } m->sz = 77; return 0; }
void macro_execute(void (*o)(uint8_t, uint8_t), const struct macro *m, size_t t) { kse_check(m->sz == 77, "the macro given is run"); mexecs++; mto = t; o(KEYD_A, 1); o(KEYD_A, 0); }
int parse_key_sequence(const char *s, uint8_t *c, uint8_t *m) { if (s[0] >= 'a') { *c = s[0]; *m = 0; return 0; } return -1; }
int unicode_lookup_index(uint32_t c) { return -1; }
void unicode_get_sequence(int i, uint8_t c[4]) {}
int utf8_read_char(const char *s, uint32_t *c) { *c = (unsigned char)*s; return !!*s; }
static void robust(void) {
	add("a1"); add("b1"); 
	for (int n = 0; n < NCL; n++) {
		struct ipc_message *m = &rq[c_next]; struct con *c = &con[c_next]; int fault = n == 0 ? (int)kse_choose(5, "fault") : 0;
		m->type = (unsigned)kse_sym(32, "type"); m->timeout = (uint32_t)kse_sym(32, "timeout"); 
		static const unsigned short sz[] = {0, 1, 3, 4095, 4096}; int k = (int)kse_choose(6, "size"); if (k < 5) m->sz = sz[k]; else { m->sz = kse_sym(64, "huge"); kse_assume(m->sz > 4096); }
		memset(m->data, 'x', sizeof m->data); m->data[0] = 'a'; m->data[1] = '='; m->data[2] = 'b'; int nl = (k == 2 || k == 3) && kse_choose(2, "newlines") ? 2 : 0; for (int i = 1; i <= nl; i++) m->data[m->sz - i] = '\n';
		c_chunk = 0; c_wchunk = 0; size_t got = sizeof *m; int fails = -1;
		if (fault == 1) { static const unsigned short cut[] = {0, 4, sizeof *m - 1}; got = cut[kse_choose(3, "cut")]; c->eof = (int)kse_choose(3, "ends"); kse_cover("cut"); } /* closes, resets or stalls */
		else if (fault == 2) { c_chunk = 1500; c_wchunk = 1500; kse_cover("pieces"); } else if (fault == 3) { static const unsigned short lim[] = {0, 7}; c->out_fail = lim[kse_choose(2, "limit")]; kse_cover("deaf"); } else if (fault == 4) mbad = evalbad[0] = evalbad[1] = 1;
		if (fault != 4) { mbad = 0; evalbad[0] = fault != 0; evalbad[1] = 0; }
		c->in_n = got; int p0 = parses, e0 = evals[0], e1 = evals[1], mp = mparses, mx = mexecs, v0 = v_n, k0 = nmk; 
		unsigned t = m->type; uint32_t to = m->timeout; kse_assume(nmk + 2 <= NK); size_t z = m->sz; client();
		int acted = parses != p0 || evals[0] != e0 || evals[1] != e1 || mparses != mp || mexecs != mx || v_n != v0;
		if (got < sizeof *m) { kse_check(!c->open && c->closes == 1 && !c->out_n, "a client which does not say what it wants is dropped"); kse_check(!acted, "and nothing is done for it"); continue; }
		int listens = z < 4096 && to <= 1000000 && t == IPC_LAYER_LISTEN;
		kse_check(c->open == listens, "connections are closed once served, listeners are kept"); kse_check(c->closes == !listens, "once"); if (listens) { kse_check(!acted, "listening has no other effect"); kse_cover("listening"); continue; }
		int ok; const char *why = "";
		if (z >= 4096 || to > 1000000) { ok = 0; kse_check(!acted, "oversized requests and pauses are refused"); kse_cover("oversized"); }
		else switch (t) {
		case IPC_MACRO: ok = !mbad; why = "bad macro"; kse_check(mparses == mp + 1 && mexecs == mx + ok, "a macro is run once, if valid"); kse_check(mlen == z - nl && (!mlen || mtext[0] == 'a'), "it is the text sent, without the newlines at its end"); if (ok) kse_check(mto == to && v_n == v0 + 2, "with the pauses asked for"); kse_check(evals[0] == e0 && parses == p0, "and that is all"); kse_cover("macro"); break;
		case IPC_INPUT: { int ch = z == 3 && nl ? 3 : z ? 1 : 0; ok = z <= 1 || z == 3 && nl; kse_check(v_n == v0 + 2 * ch, "text is typed up to what cannot be typed"); kse_check(c_slept == ch * (int)(to / 1000), "with the pauses asked for"); c_slept = 0; kse_check(mparses == mp && evals[0] == e0 && parses == p0, "and that is all"); kse_cover("input"); break; }
		case IPC_RELOAD: ok = 1; kse_check(parses == p0 + 2 && nmk == k0 + 2, "the configurations are read again"); kse_cover("reload"); break;
		case IPC_BIND: ok = 0; for (int i = nmk - 2; i < nmk; i++) { if (i < 2 ? !evalbad[i] : 1) ok = 1; kse_check(evald[i][0] == (z ? 'a' : 0) && strlen(evald[i]) == (z < 15 ? z : 15), "as sent"); } kse_check(evals[nmk - 1] == (nmk == 2 ? e1 : 0) + 1 || nmk > 2, "every configuration is given the binding"); why = "bad binding"; kse_check(mparses == mp && parses == p0 && v_n == v0, "and that is all"); kse_cover("bind"); break;
		default: ok = 0; kse_check(!acted, "other requests are refused"); kse_cover("unknown"); break;
		}
		if (fault == 3) { kse_check(c->out_n <= c->out_fail, "the reply is lost"); continue; }
		kse_check(c->replies == 1 && c->out_n == (int)sizeof c_reply, "every request is answered once"); kse_check(c->type == (ok ? IPC_SUCCESS : IPC_FAIL), "by whether it succeeded");
		if (ok) kse_check(!c_reply.sz, "success needs no words"); else { kse_check(c_reply.sz > 0 && c_reply.sz < sizeof c_reply.data && c_reply.data[c_reply.sz] == 0 && strlen(c_reply.data) == c_reply.sz, "failure is explained"); if (*why) kse_check(!strcmp(c_reply.data, why), "by the reason"); }
		if (!ok) kse_cover("refused"); else kse_cover("done");
	}
	/* keyd goes on working */
	struct device_event de = { .type = DEV_KEY, .code = KEYD_A, .pressed = 1 }; struct event e = { .type = EV_DEV_EVENT, .dev = &device_table[0], .devev = &de }; call(&e);
	kse_check(cd_open == 0, "directories are closed");
}
/* ---- D13 */
#define EXP 400
static struct ls { int c, n, dead, lim, lazy; char s[EXP]; } ls_[NCON]; static int nls; static unsigned char on_[2][8]; static int act_ = -1, layout_[2];
static void say(struct ls *l, const char *s) { if (l->dead) return; int n = (int)strlen(s); kse_check(l->n + n < EXP, "room"); memcpy(l->s + l->n, s, n); l->n += n; if (l->lim >= 0 && l->n > l->lim) { l->dead = 1; l->n = l->lim; kse_cover("dropped"); } }
static void lcheck(void) { for (int i = 0; i < nls; i++) { struct ls *l = &ls_[i]; struct con *c = &con[l->c]; kse_check(c->out_n == l->n, "a listener is told every change since it came, and before that the layers then active"); for (int k = 0; k < l->n; k++) kse_check(c->out[k] == (unsigned char)l->s[k], "in these words"); if (l->lazy && c->open) continue; if (l->dead) kse_check(!c->open && c->closes == 1, "a listener which does not read is dropped"); else kse_check(c->open && !c->closes, "the others are kept"); kse_check(c->sndto, "a listener which does not read cannot stall the daemon"); } }
static struct ls *listen_(int lim) { struct ls *l = &ls_[nls++]; l->c = c_next; l->lim = lim; rq[c_next].type = IPC_LAYER_LISTEN; con[c_next].out_fail = lim; 
	if (act_ >= 0) { struct config *f = &mk_[act_].k->config; char b[80]; snprintf(b, sizeof b, "/%s\n", f->layers[layout_[act_]].name); say(l, b); l->lazy = l->dead; /* that its first words are lost may be noticed with the next change only */ for (int i = 1; i < 5; i++) if (f->layers[i].type != LT_LAYOUT && on_[act_][i]) { snprintf(b, sizeof b, "+%s\n", f->layers[i].name); say(l, b); } }
	client(); kse_check(!con[l->c].open || con[l->c].cloexec, "commands run by keyd do not keep the connection of a listener open"); return l; }
static void change(int kb, int layer) {
	struct keyboard *k = mk_[kb].k; struct config *f = &k->config; char b[80]; int st;
	if (f->layers[layer].type == LT_LAYOUT) { st = 1; on_[kb][2] = layer == 2; layout_[kb] = layer; snprintf(b, sizeof b, "/%s\n", f->layers[layer].name); k->layer_state[2].active = layer == 2; }
	else { st = on_[kb][layer] ^= 1; k->layer_state[layer].active = st; snprintf(b, sizeof b, "%c%s\n", st ? '+' : '-', f->layers[layer].name); }
	for (int i = 0; i < nls; i++) say(&ls_[i], b), ls_[i].lazy = 0;
	k->output.on_layer_change(k, &f->layers[layer], st);
	if (f->layer_indicator) { int any = on_[kb][1] | on_[kb][3] | on_[kb][4]; for (size_t i = 0; i < device_table_sz; i++) if (device_table[i].data == k) kse_check(led[i] == any, "the indicator is lit while a layer is active"); kse_cover("indicator"); }
	for (size_t i = 0; i < device_table_sz; i++) if (device_table[i].data != k) kse_check(led[i] == -1 || device_table[i].data == mk_[1].k, "only leds of its own keyboards are used");
}
static void used(int d) { struct device_event de = { .type = DEV_KEY, .code = KEYD_A, .pressed = 1 }; struct event e = { .type = EV_DEV_EVENT, .dev = &device_table[d], .devev = &de }; call(&e); act_ = device_table[d].data == mk_[0].k ? 0 : 1; }
static void listeners_(void) {
	add("a1"); add("b1"); add("b2"); for (int i = 0; i < 3; i++) led[i] = -1; kse_check(device_table[0].data == mk_[0].k && device_table[2].data == mk_[1].k, "set up");
	for (int n = 0; n < NEV; n++) {
		switch (kse_choose(4, "happens")) {
		case 0: if (nls < 3) { static const signed char lim[] = {-1, 0, 20, 70}; int k = (int)kse_choose(4, "reads"); listen_(lim[k]); kse_cover("listener"); } break;
		case 1: { int kb = (int)kse_choose(2, "keyboard"), ly = (int)kse_choose(5, "layer"); change(kb, ly); kse_cover("change"); break; }
		case 2: used((int)kse_choose(2, "device") * 2); break;
		case 3: rq[c_next].type = IPC_BIND; client(); kse_cover("other"); break;
		}
		lcheck();
	}
}
static void many(void) {
	add("a1"); int n = 30 + (int)kse_choose(5, "listeners"); for (int i = 0; i < n; i++) { if (i < 32) listen_(-1); else { rq[c_next].type = IPC_LAYER_LISTEN; struct con *c = client(); kse_check(!c->open && c->closes == 1, "listeners in excess are sent away"); kse_cover("excess"); } }
	int m = n < 32 ? n : 32, b = (int)kse_choose(3, "broken"); b = b == 0 ? 0 : b == 1 ? m - 1 : 7; change(0, 4); lcheck(); ls_[b].lim = con[ls_[b].c].out_fail = ls_[b].n; if (kse_choose(2, "two")) { ls_[8].lim = con[ls_[8].c].out_fail = ls_[8].n; }
	change(0, 4); lcheck(); struct ls *l = listen_(-1); kse_check(con[l->c].open, "a place freed can be used"); change(0, 1); lcheck();
}
#else
/* ---- D05 */
static struct { int c, s, k; } want[64]; static int nw;
static void w(int c, int s) { want[nw].c = c; want[nw].s = s; nw++; } static void tap(int c) { w(c, 1); w(c, 0); }
#ifdef COMPOSE
#include "compose.h"
static const int rows[] = {0, 35, 36, 1296, NCOMPOSE - 1};
#else
static const int rows[] = {0}; static const unsigned cps[] = {0x80};
#endif
static int enc(unsigned c, char *p) { if (c < 0x80) { p[0] = c; return 1; } if (c < 0x800) { p[0] = 0xc0 | c >> 6; p[1] = 0x80 | (c & 63); return 2; } if (c < 0x10000) { p[0] = 0xe0 | c >> 12; p[1] = 0x80 | (c >> 6 & 63); p[2] = 0x80 | (c & 63); return 3; } p[0] = 0xf0 | c >> 18; p[1] = 0x80 | (c >> 12 & 63); p[2] = 0x80 | (c >> 6 & 63); p[3] = 0x80 | (c & 63); return 4; }
static const struct { const char *s; int idx; } uni[] = { {"\xc3\xa9", -2}, {"\xe2\x82\xac", -2}, {"\xf0\x9f\x98\x80", -2}, {"\xf4\x8f\xbf\xbf", -1}, {"\xff", -1} };
static int ascii(int ch) { /* type one ascii character; 0: cannot */
	if (ch == ' ') { tap(KEYD_SPACE); return 1; } if (ch == '\n') { tap(KEYD_ENTER); return 1; } if (ch == '\t') { tap(KEYD_TAB); return 1; }
	for (int i = 0; i < NKEYNAMES; i++) {
		const char *n = key_names[i].name, *a = key_names[i].alt, *s = key_names[i].shifted;
		if ((n && n[0] == ch && !n[1]) || (a && a[0] == ch && !a[1])) { tap(key_names[i].code); return 1; }
		if (s && s[0] == ch && !s[1]) { w(KEYD_LEFTSHIFT, 1); tap(key_names[i].code); w(KEYD_LEFTSHIFT, 0); return 1; }
	}
	return 0;
}
static int b36(int d) { static const unsigned char k[] = {11, 2, 3, 4, 5, 6, 7, 8, 9, 10, 30, 48, 46, 32, 18, 33, 34, 35, 23, 36, 37, 38, 50, 49, 24, 25, 16, 19, 31, 20, 22, 47, 17, 45, 21, 44}; return k[d]; }
static void compose(int idx) { tap(KEYD_CANCEL); tap(b36(idx / 1296)); tap(b36(idx / 36 % 36)); tap(b36(idx % 36)); }
static void wcheck(void) { kse_check(v_n == nw, "exactly the keys of the text are struck"); for (int i = 0; i < nw && i < v_n; i++) kse_check(v_log[i].kind == want[i].k && v_log[i].a == want[i].c && v_log[i].b == want[i].s, "in order, pressed and released"); kse_check(!v_anydown(), "and none is left down"); }
static void text(void) {
	struct ipc_message *m = &rq[0]; m->type = IPC_INPUT; static const unsigned tos[] = {0, 3000, 1000000, 1000001}; m->timeout = tos[kse_choose(4, "timeout")]; char *p = m->data; int ok = 1, chars = 0;
	for (int i = 0; i < NTOK && ok; i++) {
		const int NU = 1 + sizeof uni / sizeof *uni; int k = (int)kse_choose(NU + sizeof rows / sizeof *rows, "kind");
		if (!k) { int c = (int)kse_sym(7, "char"); kse_assume(c != 0); *p++ = c; if (!ascii(c)) { ok = 0; kse_cover("untypable"); } else { chars++; kse_cover("ascii"); } }
		else if (k >= NU) { kse_assume(i == NTOK - 1); int r = rows[k - NU]; p += enc(cps[r], p); compose(r); chars++; kse_cover("composed"); }
		else { strcpy(p, uni[k - 1].s); p += strlen(p); int idx = -1; if (uni[k - 1].idx == -2) { uint32_t cp; utf8_read_char(uni[k - 1].s, &cp); idx = unicode_lookup_index(cp); kse_check(idx >= 0, "shipped characters are known"); } if (idx < 0) { ok = 0; kse_cover("unknown"); } else { compose(idx); chars++; kse_cover("composed"); } }
	}
	m->sz = p - m->data; *p = 'q'; uint32_t to = m->timeout; 
	if (to > 1000000) nw = 0, ok = 0, chars = 0;
	client(); wcheck(); kse_check(con[0].replies == 1 && con[0].type == (ok ? IPC_SUCCESS : IPC_FAIL), "the client is told whether it could be typed"); kse_check(c_slept == (int)(to / 1000) * chars, "with the pauses asked for");
}
static int letter(int c) { return c == 0 ? KEYD_X : c == 1 ? KEYD_Y : KEYD_Z; }
static void macros(void) {
	struct ipc_message *m = &rq[0]; m->type = IPC_MACRO; static const unsigned tos[] = {0, 3000}; m->timeout = tos[kse_choose(2, "timeout")]; char *p = m->data; int pause = 0, bad = 0;
	for (int i = 0; i < NTOK; i++) {
		if (i) *p++ = ' '; int k = (int)kse_choose(9, "token"), c = k < 6 ? (int)kse_choose(3, "letter") : 0;
		switch (k) {
		case 0: p += sprintf(p, "C-%c", 'x' + c); if (!bad) { w(KEYD_LEFTCTRL, 1); tap(letter(c)); w(KEYD_LEFTCTRL, 0); } break;
		case 1: p += sprintf(p, "leftshift+%c", 'x' + c); if (!bad) { w(KEYD_LEFTSHIFT, 1); w(letter(c), 1); w(KEYD_LEFTSHIFT, 0); w(letter(c), 0); } kse_cover("group"); break;
		case 2: p += sprintf(p, "%c", 'x' + c); if (!bad) tap(letter(c)); break;
		case 3: p += sprintf(p, "%dms", 5 + c); if (!bad) pause += 5 + c; break;
		case 4: p += sprintf(p, "%cQ\xc3\xa9", 'x' + c); if (!bad) { tap(letter(c)); w(KEYD_LEFTSHIFT, 1); tap(KEYD_Q); w(KEYD_LEFTSHIFT, 0); compose(unicode_lookup_index(0xe9)); } kse_cover("text"); break;
		case 5: p += sprintf(p, "%c+11ms+leftalt", 'x' + c); if (!bad) { w(letter(c), 1); w(KEYD_LEFTALT, 1); w(letter(c), 0); w(KEYD_LEFTALT, 0); pause += 11; } break;
		case 6: p += sprintf(p, "scrollup"); if (!bad) { want[nw].k = V_SCROLL; w(0, 1); } kse_cover("wheel"); break;
		case 7: p += sprintf(p, "a+bogus"); bad = 1; break;
		case 8: p += sprintf(p, "enter"); if (!bad) tap(KEYD_ENTER); break;
		}
	}
	if (bad) { nw = pause = 0; memset(want, 0, sizeof want); kse_cover("invalid"); } else kse_cover("typed"); int t0 = m->timeout ? (int)kse_choose(3, "newline") : 0; for (int i = 0; i < t0; i++) *p++ = '\n'; m->sz = p - m->data; *p = 'q'; int to = m->timeout;
	client(); wcheck(); kse_check(con[0].replies == 1 && con[0].type == (bad ? IPC_FAIL : IPC_SUCCESS), "the client is told whether it was valid"); kse_check(to && !bad ? c_slept > pause && c_slept <= pause + to / 1000 * (nw + 3 * NTOK + 3) : c_slept == pause, "with the pauses asked for");
}
#endif
void harness_main(void) { start(MODE); }
