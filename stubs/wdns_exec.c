/* Executable stand-in for the parts of libwdns that dnstable uses. */
#include <ctype.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include "wdns.h"

wdns_res wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz)
{
	size_t avail = p < eop ? (size_t)(eop - p) : 0, n = 0;
	for (;;) {
		if (n >= avail) return wdns_res_out_of_bounds;
		uint8_t c = p[n];
		if (c > 63) return wdns_res_invalid_length_octet;
		if (n + 1 + c > WDNS_MAXLEN_NAME) return wdns_res_name_overflow;
		n += 1 + c;
		if (c == 0) { *sz = n; return wdns_res_success; }
	}
}
wdns_res wdns_reverse_name(const uint8_t *name, size_t len, uint8_t *rev)
{
	size_t n = 0, w = len;
	/* the real function relies on a well-formed name of exactly this length */
#define VP_PRE(c) do { if (!(c)) { fprintf(stderr, "VP-FAIL: wdns_reverse_name called with a malformed name\n"); abort(); } } while (0)
	VP_PRE(len > 0 && len <= WDNS_MAXLEN_NAME);
	while (n < len && name[n] != 0) {
		size_t l = 1u + name[n];
		VP_PRE(name[n] <= 63 && n + l < len);
		n += l;
	}
	VP_PRE(n == len - 1);
	w = len - 1;
	rev[len - 1] = 0;
	for (n = 0; name[n] != 0; n += 1u + name[n]) {
		w -= 1u + name[n];
		memcpy(rev + w, name + n, 1u + name[n]);
	}
	return wdns_res_success;
}
wdns_res wdns_str_to_name_case(const char *s, wdns_name_t *name)
{
	uint8_t b[256]; size_t n = 0, lab = 0;
	name->data = NULL; name->len = 0;
	if (*s == 0) return wdns_res_parse_error;
	if (strcmp(s, ".") == 0) { b[n++] = 0; goto ok; }
	lab = n++;
	for (;;) {
		unsigned char c = *s++;
		if (c == '.' || c == 0) {
			size_t l = n - lab - 1;
			if (l == 0 || l > 63) return wdns_res_parse_error;
			b[lab] = l;
			if (n >= 255) return wdns_res_name_overflow;
			if (c == 0 || *s == 0) { b[n++] = 0; goto ok; }
			lab = n++;
			continue;
		}
		if (c == '\\') {
			if (isdigit((unsigned char)s[0]) && isdigit((unsigned char)s[1]) && isdigit((unsigned char)s[2])) {
				int v = (s[0] - '0') * 100 + (s[1] - '0') * 10 + (s[2] - '0');
				if (v > 255) return wdns_res_parse_error;
				c = v; s += 3;
			} else if (*s) c = *s++;
			else return wdns_res_parse_error;
		}
		if (n >= 254) return wdns_res_name_overflow;
		b[n++] = c;
	}
ok:
	name->data = malloc(n); name->len = n; memcpy(name->data, b, n);
	return wdns_res_success;
}
void wdns_downcase_name(wdns_name_t *name)
{
	for (size_t i = 0; i < name->len; ) {
		size_t l = name->data[i++];
		for (; l > 0 && i < name->len; l--, i++) if (name->data[i] >= 'A' && name->data[i] <= 'Z') name->data[i] += 32;
	}
}
wdns_res wdns_str_to_name(const char *s, wdns_name_t *name)
{
	wdns_res r = wdns_str_to_name_case(s, name);
	if (r == wdns_res_success) wdns_downcase_name(name);
	return r;
}
size_t wdns_domain_to_str(const uint8_t *src, size_t len, char *dst)
{
	size_t n = 0, w = 0;
	while (n < len && src[n] != 0) {
		size_t l = src[n++];
		for (; l > 0 && n < len; l--, n++) {
			uint8_t c = src[n];
			if (c == '.' || c == '\\') { dst[w++] = '\\'; dst[w++] = c; }
			else if (c >= '!' && c <= '~') dst[w++] = c;
			else { dst[w++] = '\\'; dst[w++] = '0' + c / 100; dst[w++] = '0' + c / 10 % 10; dst[w++] = '0' + c % 10; }
		}
		dst[w++] = '.';
	}
	if (w == 0) dst[w++] = '.';
	dst[w] = 0;
	return w + 1;
}
char *wdns_rdata_to_str(const uint8_t *rd, uint16_t len, uint16_t type, uint16_t cls)
{
	(void)cls;
	char *o = malloc(5u * len + 32), *p = o;
	if (type == WDNS_TYPE_TXT) {
		/* bytes as they are, to exercise quoting by the caller; NUL as \000 */
		*p++ = '"';
		for (unsigned i = 0; i < len; i++) {
			if (rd[i] == '"' || rd[i] == '\\') { *p++ = '\\'; *p++ = rd[i]; }
			else if (rd[i] == 0 || rd[i] >= 0x7f) p += sprintf(p, "\\%03u", rd[i]);
			else *p++ = rd[i];
		}
		*p++ = '"'; *p = 0;
		return o;
	}
	p += sprintf(p, "\\# %u ", len);
	for (unsigned i = 0; i < len; i++) p += sprintf(p, "%02X", rd[i]);
	return o;
}
static const struct { uint16_t t; const char *s; } types[] = {
	{1,"A"},{2,"NS"},{5,"CNAME"},{6,"SOA"},{12,"PTR"},{15,"MX"},{16,"TXT"},{17,"RP"},{28,"AAAA"},{30,"NXT"},{33,"SRV"},{39,"DNAME"},
	{43,"DS"},{46,"RRSIG"},{47,"NSEC"},{48,"DNSKEY"},{50,"NSEC3"},{51,"NSEC3PARAM"},{64,"SVCB"},{65,"HTTPS"},{257,"CAA"},{32769,"DLV"},
};
const char *wdns_rrtype_to_str(uint16_t t)
{
	for (size_t i = 0; i < sizeof(types) / sizeof(types[0]); i++) if (types[i].t == t) return types[i].s;
	return NULL;
}
uint16_t wdns_str_to_rrtype(const char *s)
{
	for (size_t i = 0; i < sizeof(types) / sizeof(types[0]); i++) if (strcasecmp(types[i].s, s) == 0) return types[i].t;
	if (strncasecmp(s, "TYPE", 4) == 0) {
		char *e; unsigned long v = strtoul(s + 4, &e, 10);
		if (s[4] && *e == 0 && v <= 65535) return v;
	}
	return 0;
}
