/* strict minimal JSON parser: calls cb(path, type, text) for every scalar;
 * returns 0 only for one well-formed document followed by whitespace/NUL */
#ifndef VF_JSON_H
#define VF_JSON_H
#include <string.h>
#include <ctype.h>
#include <stdio.h>
typedef void (*js_cb)(void *arg, const char *path, char type, const char *val);
struct js { const char *p; char path[256]; js_cb cb; void *arg; int depth; };
static void js_ws(struct js *j) { while (*j->p == ' ' || *j->p == '\t' || *j->p == '\n' || *j->p == '\r') j->p++; }
static int js_str(struct js *j, char *out, size_t n)
{
	size_t l = 0;
	if (*j->p++ != '"') return -1;
	while (*j->p != '"') {
		unsigned char c = (unsigned char)*j->p;
		if (c < 0x20) return -1;
		if (c == '\\') {
			j->p++;
			if (!strchr("\"\\/bfnrtu", *j->p) || !*j->p) return -1;
			if (*j->p == 'u') { int i; for (i = 0; i < 4; i++) if (!isxdigit((unsigned char)*++j->p)) return -1; }
		}
		if (l + 1 < n) out[l++] = *j->p;
		j->p++;
	}
	out[l] = 0;
	j->p++;
	return 0;
}
static int js_val(struct js *j)
{
	char buf[300];
	size_t pl = strlen(j->path);
	if (++j->depth > 32) return -1;
	js_ws(j);
	if (*j->p == '{') {
		char seen[64][48]; int ns = 0, i;
		j->p++; js_ws(j);
		if (*j->p == '}') { j->p++; j->depth--; return 0; }
		for (;;) {
			js_ws(j);
			if (js_str(j, buf, sizeof(buf))) return -1;
			for (i = 0; i < ns; i++) if (!strcmp(seen[i], buf)) return -2; /* duplicate key */
			if (ns < 64) snprintf(seen[ns++], 48, "%.47s", buf);
			js_ws(j);
			if (*j->p++ != ':') return -1;
			snprintf(j->path + pl, sizeof(j->path) - pl, "%s%.60s", pl ? "." : "", buf);
			if (js_val(j)) return -1;
			j->path[pl] = 0;
			js_ws(j);
			if (*j->p == ',') { j->p++; continue; }
			if (*j->p == '}') { j->p++; break; }
			return -1;
		}
	} else if (*j->p == '[') {
		j->p++; js_ws(j);
		if (*j->p == ']') { j->p++; j->depth--; return 0; }
		for (;;) {
			if (js_val(j)) return -1;
			js_ws(j);
			if (*j->p == ',') { j->p++; continue; }
			if (*j->p == ']') { j->p++; break; }
			return -1;
		}
	} else if (*j->p == '"') {
		if (js_str(j, buf, sizeof(buf))) return -1;
		if (j->cb) j->cb(j->arg, j->path, 's', buf);
	} else if (*j->p == '-' || isdigit((unsigned char)*j->p)) {
		size_t l = 0;
		const char *s = j->p;
		if (*s == '-') s++;
		if (!isdigit((unsigned char)*s)) return -1;
		if (*s == '0' && isdigit((unsigned char)s[1])) return -1;
		while (isdigit((unsigned char)*s)) s++;
		l = (size_t)(s - j->p);
		if (l >= sizeof(buf)) return -1;
		memcpy(buf, j->p, l); buf[l] = 0;
		j->p = s;
		if (j->cb) j->cb(j->arg, j->path, 'n', buf);
	} else if (!strncmp(j->p, "true", 4)) { j->p += 4; if (j->cb) j->cb(j->arg, j->path, 'b', "true"); }
	else if (!strncmp(j->p, "false", 5)) { j->p += 5; if (j->cb) j->cb(j->arg, j->path, 'b', "false"); }
	else if (!strncmp(j->p, "null", 4)) { j->p += 4; if (j->cb) j->cb(j->arg, j->path, '0', "null"); }
	else return -1;
	j->depth--;
	return 0;
}
static int js_parse(const char *s, js_cb cb, void *arg)
{
	struct js j = { s, "", cb, arg, 0 };
	if (js_val(&j)) return -1;
	js_ws(&j);
	return *j.p ? -1 : 0;
}
#endif
