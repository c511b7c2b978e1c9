/* Minimal C library for symbolic execution. Compiled only for kse, never for replay (which uses the real libc). */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <limits.h>
typedef unsigned char uc;
void *malloc(size_t); void *calloc(size_t,size_t); void free(void*); void *memcpy(void*,const void*,size_t); void *memset(void*,int,size_t);
static int rt_errno; int *__errno_location(void) { return &rt_errno; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(uc)*a - (int)(uc)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (int)(uc)*a - (int)(uc)*b : 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { while (*a && lc((uc)*a) == lc((uc)*b)) { a++; b++; } return lc((uc)*a) - lc((uc)*b); }
int strncasecmp(const char *a, const char *b, size_t n) { while (n && *a && lc((uc)*a) == lc((uc)*b)) { a++; b++; n--; } return n ? lc((uc)*a) - lc((uc)*b) : 0; }
int memcmp(const void *a, const void *b, size_t n) { const uc *x = a, *y = b; for (; n; n--, x++, y++) if (*x != *y) return *x < *y ? -1 : 1; return 0; }
void *memchr(const void *a, int c, size_t n) { const uc *x = a; for (; n; n--, x++) if (*x == (uc)c) return (void *)x; return 0; }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *stpcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d + i - 1; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); while (n-- && *s) *e++ = *s++; *e = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
static int in(const char *set, char c) { for (; *set; set++) if (*set == c) return 1; return 0; }
size_t strspn(const char *s, const char *set) { size_t n = 0; while (s[n] && in(set, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *set) { size_t n = 0; while (s[n] && !in(set, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *set) { s += strcspn(s, set); return *s ? (char *)s : 0; }
char *strtok_r(char *s, const char *d, char **sv) {
	if (!s) s = *sv; if (!s) return 0;
	s += strspn(s, d); if (!*s) { *sv = s; return 0; }
	char *e = s + strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = e;
	return s;
}
char *__strtok_r(char *s, const char *d, char **sv) { return strtok_r(s, d, sv); }
static char *tok_sv; char *strtok(char *s, const char *d) { return strtok_r(s, d, &tok_sv); }
char *strsep(char **sp, const char *d) { char *s = *sp; if (!s) return 0; char *e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); memcpy(r, s, n); return r; }
char *__strdup(const char *s) { return strdup(s); }
char *strerror(int e) { (void)e; return "error"; }
static int sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static unsigned long conv(const char *s, char **end, int base, int *negp) {
	const char *s0 = s; while (sp((uc)*s)) s++;
	int neg = 0; if (*s == '-') { neg = 1; s++; } else if (*s == '+') s++;
	if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { s += 2; base = 16; } else if (base == 0) base = s[0] == '0' ? 8 : 10;
	unsigned long v = 0; int any = 0, ovf = 0;
	for (;; s++) {
		int c = (uc)*s, d; if (c >= '0' && c <= '9') d = c - '0'; else if (lc(c) >= 'a' && lc(c) <= 'z') d = lc(c) - 'a' + 10; else break;
		if (d >= base) break; any = 1;
		if (v > (ULONG_MAX - d) / base) ovf = 1; else v = v * base + d;
	}
	if (end) *end = (char *)(any ? s : s0);
	*negp = neg | (ovf << 1); return v;
}
long strtol(const char *s, char **e, int b) { int f; unsigned long v = conv(s, e, b, &f); if ((f & 2) || v > (unsigned long)LONG_MAX + (f & 1)) return f & 1 ? LONG_MIN : LONG_MAX; return f & 1 ? -(long)v : (long)v; }
unsigned long strtoul(const char *s, char **e, int b) { int f; unsigned long v = conv(s, e, b, &f); if (f & 2) return ULONG_MAX; return f & 1 ? -v : v; }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return lc(c); }
int isspace(int c) { return sp(c); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return lc(c) >= 'a' && lc(c) <= 'z'; }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (lc(c) >= 'a' && lc(c) <= 'f'); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int iscntrl(int c) { return c < 32 || c == 127; }
#define U 256
#define BT(c) (unsigned short)( ((c)>='A'&&(c)<='Z'?U:0) | ((c)>='a'&&(c)<='z'?512:0) | (((c)>='A'&&(c)<='Z')||((c)>='a'&&(c)<='z')?1024:0) | ((c)>='0'&&(c)<='9'?2048:0) | (((c)>='0'&&(c)<='9')||((c)>='A'&&(c)<='F')||((c)>='a'&&(c)<='f')?4096:0) | ((c)==' '||((c)>=9&&(c)<=13)?8192:0) | ((c)>=32&&(c)<127?16384:0) | ((c)>32&&(c)<127?32768:0) | ((c)==' '||(c)==9?1:0) | ((c)>=0&&((c)<32||(c)==127)?2:0) | ((c)>32&&(c)<127&&!(((c)>='A'&&(c)<='Z')||((c)>='a'&&(c)<='z')||((c)>='0'&&(c)<='9'))?4:0) | (((c)>='A'&&(c)<='Z')||((c)>='a'&&(c)<='z')||((c)>='0'&&(c)<='9')?8:0) )
#define B1(c) BT(c)
#define B4(c) B1(c),B1((c)+1),B1((c)+2),B1((c)+3)
#define B16(c) B4(c),B4((c)+4),B4((c)+8),B4((c)+12)
#define B64(c) B16(c),B16((c)+16),B16((c)+32),B16((c)+48)
static const unsigned short ctab[384] = { B64(-128), B64(-64), B64(0), B64(64), B64(128), B64(192) };
static const unsigned short *ctabp; const unsigned short **__ctype_b_loc(void) { ctabp = ctab + 128; return &ctabp; }
static int lowt[384], upt[384]; static int *lowp, *upp;
const int **__ctype_tolower_loc(void) { if (!lowp) { for (int i = 0; i < 384; i++) lowt[i] = lc(i - 128); lowp = lowt + 128; } return (const int **)&lowp; }
const int **__ctype_toupper_loc(void) { if (!upp) { for (int i = 0; i < 384; i++) upt[i] = toupper(i - 128); upp = upt + 128; } return (const int **)&upp; }

/* formatted output: flags 0 - + space, width, precision, l h z j; conversions d i u x X o c s p % */
struct out { char *b; size_t n, cap; };
static void oc(struct out *o, char c) { if (o->n + 1 < o->cap) o->b[o->n] = c; o->n++; }
int vsnprintf(char *b, size_t cap, const char *f, va_list ap) {
	struct out o = { b, 0, cap };
	for (; *f; f++) {
		if (*f != '%') { oc(&o, *f); continue; }
		f++; int left = 0, zero = 0, plus = 0, w = 0, prec = -1, lng = 0;
		for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ' || *f == '#') ; else break; }
		if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = 1; w = -w; } f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0';
		if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
		while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'h') { if (*f == 'h') lng--; else lng += 1; f++; }
		char tmp[32]; const char *s = tmp; size_t l = 0; char sign = 0;
		switch (*f) {
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
			unsigned long v; unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
			if (*f == 'd' || *f == 'i') { long x = lng > 0 ? va_arg(ap, long) : (long)va_arg(ap, int); if (lng == -1) x = (short)x; if (lng == -2) x = (signed char)x; if (x < 0) { sign = '-'; v = -(unsigned long)x; } else { v = x; if (plus) sign = '+'; } }
			else { v = lng > 0 || *f == 'p' ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; if (lng == -2) v = (uc)v; }
			int i = 31; do { unsigned d = v % base; tmp[i--] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; v /= base; } while (v);
			s = tmp + i + 1; l = 31 - i;
			size_t min = prec > 0 ? prec : 0, tot = (l > min ? l : min) + (sign ? 1 : 0);
			if (!left && !(zero && prec < 0)) for (size_t k = tot; k < (size_t)w; k++) oc(&o, ' ');
			if (sign) oc(&o, sign);
			if (!left && zero && prec < 0) for (size_t k = tot; k < (size_t)w; k++) oc(&o, '0');
			for (size_t k = l; k < min; k++) oc(&o, '0');
			for (size_t k = 0; k < l; k++) oc(&o, s[k]);
			if (left) for (size_t k = tot; k < (size_t)w; k++) oc(&o, ' ');
			break; }
		case 'c': { char c = (char)va_arg(ap, int); if (!left) for (int k = 1; k < w; k++) oc(&o, ' '); oc(&o, c); if (left) for (int k = 1; k < w; k++) oc(&o, ' '); break; }
		case 's': { s = va_arg(ap, const char *); if (!s) s = "(null)"; l = prec >= 0 ? strnlen(s, prec) : strlen(s);
			if (!left) for (size_t k = l; k < (size_t)w; k++) oc(&o, ' '); for (size_t k = 0; k < l; k++) oc(&o, s[k]); if (left) for (size_t k = l; k < (size_t)w; k++) oc(&o, ' '); break; }
		case '%': oc(&o, '%'); break;
		default: oc(&o, '%'); oc(&o, *f); break;
		}
	}
	if (cap) b[o.n < cap ? o.n : cap - 1] = 0;
	return (int)o.n;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 30, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, 1 << 30, f, ap); }
/* output streams are discarded */
int printf(const char *f, ...) { return 0; }
int fprintf(void *s, const char *f, ...) { return 0; }
int vfprintf(void *s, const char *f, va_list ap) { return 0; }
int vprintf(const char *f, va_list ap) { return 0; }
int puts(const char *s) { return 0; }
int putchar(int c) { return c; }
int fputs(const char *s, void *f) { return 0; }
int fputc(int c, void *f) { return c; }
int fflush(void *f) { return 0; }
size_t fwrite(const void *p, size_t a, size_t b, void *f) { return b; }
void perror(const char *s) { }
char *getenv(const char *n) { return 0; }
int isatty(int fd) { return 0; }
char *dirname(char *p) { /* glibc semantics */
	static char dot[] = "."; char *e, *s; if (!p || !*p) return dot; e = p + strlen(p); while (e > p + 1 && e[-1] == '/') e--; s = e; while (s > p && s[-1] != '/') s--; if (s == p) { return dot; }
	while (s > p + 1 && s[-1] == '/') s--; *s = 0; return p; }
char *__xpg_basename(char *p) { static char dot[] = "."; if (!p || !*p) return dot; char *e = p + strlen(p); while (e > p + 1 && e[-1] == '/') *--e = 0; char *s = e; while (s > p && s[-1] != '/') s--; return *s ? s : p; }
/* less common functions */
void *memmove(void *d, const void *s, size_t n);
void *realloc(void *p, size_t n);
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
void bcopy(const void *s, void *d, size_t n) { memmove(d, s, n); }
void bzero(void *d, size_t n) { memset(d, 0, n); }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void *memrchr(const void *s, int c, size_t n) { const unsigned char *p = s; while (n--) if (p[n] == (unsigned char)c) return (void *)(p + n); return 0; }
void *rawmemchr(const void *s, int c) { const unsigned char *p = s; while (*p != (unsigned char)c) p++; return (void *)p; }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
size_t strlcpy(char *d, const char *s, size_t n) { size_t l = strlen(s); if (n) { size_t k = l < n - 1 ? l : n - 1; memcpy(d, s, k); d[k] = 0; } return l; }
size_t strlcat(char *d, const char *s, size_t n) { size_t l = strnlen(d, n); if (l == n) return n + strlen(s); return l + strlcpy(d + l, s, n - l); }
char *strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *r = malloc(l + 1); memcpy(r, s, l); r[l] = 0; return r; }
int vasprintf(char **r, const char *f, va_list ap) { char b[4096]; int n = vsnprintf(b, sizeof b, f, ap); *r = malloc(n + 1); memcpy(*r, b, n + 1); return n; }
int asprintf(char **r, const char *f, ...) { va_list ap; va_start(ap, f); int n = vasprintf(r, f, ap); va_end(ap); return n; }
void qsort(void *b, size_t n, size_t z, int (*cmp)(const void *, const void *)) { char *p = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j && cmp(p + (j - 1) * z, p + j * z) > 0; j--) for (size_t k = 0; k < z; k++) { char c = p[(j - 1) * z + k]; p[(j - 1) * z + k] = p[j * z + k]; p[j * z + k] = c; } }
void *bsearch(const void *key, const void *b, size_t n, size_t z, int (*cmp)(const void *, const void *)) { size_t l = 0, u = n; while (l < u) { size_t i = (l + u) / 2; const void *p = (const char *)b + i * z; int c = cmp(key, p); if (c < 0) u = i; else if (c > 0) l = i + 1; else return (void *)p; } return 0; }
int vsscanf(const char *s, const char *f, va_list ap) { /* %d %i %u %x (hh, h, l, ll, z), %s, %c, %n, %[...], widths, * */
	const char *s0 = s; int n = 0;
	for (; *f; f++) {
		if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
		if (*f != '%') { if (*s != *f) return !*s && !n ? -1 : n; s++; continue; }
		f++; if (*f == '%') { while (isspace((unsigned char)*s)) s++; if (*s != '%') return n; s++; continue; }
		int skip = 0, w = 0, len = 0, h = 0; if (*f == '*') { skip = 1; f++; } while (isdigit((unsigned char)*f)) w = w * 10 + *f++ - '0'; while (*f == 'h') { h++; f++; } while (*f == 'l' || *f == 'z' || *f == 'j') { len++; f++; }
		if (*f == 'n') { *va_arg(ap, int *) = (int)(s - s0); continue; }
		if (*f != 'c' && *f != '[') while (isspace((unsigned char)*s)) s++;
		if (!*s) return n ? n : -1;
		if (*f == 'd' || *f == 'u' || *f == 'i' || *f == 'x' || *f == 'X') {
			int base = *f == 'd' || *f == 'u' ? 10 : *f == 'i' ? 0 : 16; char b[32]; int k = 0; while (k < 31 && (!w || k < w) && (isalnum((unsigned char)s[k]) || s[k] == '-' || s[k] == '+')) { b[k] = s[k]; k++; } b[k] = 0; char *e; long v = *f == 'd' || *f == 'i' ? strtol(b, &e, base) : (long)strtoul(b, &e, base); if (e == b) return n; s += e - b;
			if (!skip) { n++; if (len) *va_arg(ap, long *) = v; else if (h == 1) *va_arg(ap, short *) = v; else if (h == 2) *va_arg(ap, char *) = v; else *va_arg(ap, int *) = v; } continue; }
		char *d = skip ? 0 : va_arg(ap, char *); int k = 0;
		if (*f == 'c') { if (!w) w = 1; while (k < w && s[k]) { if (d) d[k] = s[k]; k++; } if (k < w) return n; }
		else if (*f == 's') { while (s[k] && (!w || k < w) && !isspace((unsigned char)s[k])) { if (d) d[k] = s[k]; k++; } if (d) d[k] = 0; }
		else { int neg = *++f == '^'; if (neg) f++; const char *set = f; do f++; while (*f != ']'); for (; s[k] && (!w || k < w); k++) { int in = 0; for (const char *q = set; q < f; q++) if (q + 2 < f && q[1] == '-') { in |= s[k] >= q[0] && s[k] <= q[2]; q += 2; } else in |= s[k] == *q; if (in == neg) break; if (d) d[k] = s[k]; } if (!k) return n; if (d) d[k] = 0; }
		s += k; if (!skip) n++;
	}
	return n;
}
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int n = vsscanf(s, f, ap); va_end(ap); return n; }
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int n = vsscanf(s, f, ap); va_end(ap); return n; }
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int n = vsscanf(s, f, ap); va_end(ap); return n; }
void *reallocarray(void *p, size_t a, size_t b) { return realloc(p, a * b); }
