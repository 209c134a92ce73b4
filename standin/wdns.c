/* Stand-in for libwdns: names, type mnemonics and rdata presentation. */
#define _GNU_SOURCE
#include "wdns.h"
#include <arpa/inet.h>
#include <assert.h>
#include <ctype.h>
#include <stdlib.h>
#include <string.h>

size_t wdns_domain_to_str(const uint8_t *src, size_t n, char *dst) {
	size_t i = 0;
	char *d = dst;
	while (i < n && src[i] != 0) {
		unsigned l = src[i++];
		while (l-- && i < n) {
			uint8_t c = src[i++];
			if (c == '.' || c == '\\') { *d++ = '\\'; *d++ = (char)c; }
			else if (c >= '!' && c <= '~') *d++ = (char)c;
			else d += sprintf(d, "\\%03u", c);
		}
		*d++ = '.';
	}
	if (i == 0) *d++ = '.';
	*d = 0;
	return i + 1;
}
wdns_res wdns_str_to_name_case(const char *s, wdns_name_t *name) {
	uint8_t buf[256]; size_t n = 0, lenpos = 0, lab = 0;
	name->data = NULL; name->len = 0;
	if (s[0] == 0) return wdns_res_parse_error;
	if (!strcmp(s, ".")) { name->data = calloc(1, 1); name->len = 1; return wdns_res_success; }
	lenpos = n++; lab = 0;
	while (*s) {
		uint8_t c = (uint8_t)*s++;
		if (c == '.') {
			if (lab == 0) return wdns_res_parse_error;
			buf[lenpos] = (uint8_t)lab;
			if (n >= 255) return wdns_res_name_overflow;
			lenpos = n++; lab = 0;
			continue;
		}
		if (c == '\\') {
			if (isdigit((uint8_t)s[0])) {
				if (!isdigit((uint8_t)s[1]) || !isdigit((uint8_t)s[2])) return wdns_res_parse_error;
				int v = (s[0] - '0') * 100 + (s[1] - '0') * 10 + s[2] - '0';
				if (v > 255) return wdns_res_parse_error;
				c = (uint8_t)v; s += 3;
			} else if (*s) c = (uint8_t)*s++;
			else return wdns_res_parse_error;
		}
		if (++lab > 63) return wdns_res_name_len;
		if (n >= 255) return wdns_res_name_overflow;
		buf[n++] = c;
	}
	if (lab) {
		buf[lenpos] = (uint8_t)lab;
		if (n >= 255) return wdns_res_name_overflow;
		buf[n++] = 0;
	} else buf[lenpos] = 0;
	name->data = malloc(n);
	memcpy(name->data, buf, n);
	name->len = (uint8_t)n;
	return wdns_res_success;
}
void wdns_downcase_name(wdns_name_t *name) {
	for (unsigned i = 0; i < name->len; i++)
		if (name->data[i] >= 'A' && name->data[i] <= 'Z') name->data[i] |= 0x20;
}
wdns_res wdns_str_to_name(const char *s, wdns_name_t *name) {
	wdns_res r = wdns_str_to_name_case(s, name);
	if (r == wdns_res_success) wdns_downcase_name(name);
	return r;
}
wdns_res wdns_reverse_name(const uint8_t *name, size_t len, uint8_t *rev) {
	size_t i = 0;
	uint8_t *o;
	memset(rev, 0, len);
	o = rev + len - 1;
	while (name[i] != 0) {
		size_t l = name[i] + 1u;
		if (i + l > len - 1) return wdns_res_parse_error;
		o -= l;
		memcpy(o, name + i, l);
		i += l;
	}
	return wdns_res_success;
}
wdns_res wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz) {
	const uint8_t *s = p;
	while (p < eop) {
		unsigned l = *p++;
		if (l == 0) { *sz = (size_t)(p - s); return wdns_res_success; }
		if (l > 63) return wdns_res_invalid_length_octet;
		if (l > (size_t)(eop - p)) return wdns_res_overflow;
		p += l;
	}
	return wdns_res_overflow;
}
static const struct { uint16_t t; const char *s; } types[] = {
	{1,"A"},{2,"NS"},{3,"MD"},{4,"MF"},{5,"CNAME"},{6,"SOA"},{7,"MB"},{8,"MG"},{9,"MR"},{10,"NULL"},{11,"WKS"},
	{12,"PTR"},{13,"HINFO"},{14,"MINFO"},{15,"MX"},{16,"TXT"},{17,"RP"},{18,"AFSDB"},{19,"X25"},{20,"ISDN"},{21,"RT"},
	{22,"NSAP"},{23,"NSAP-PTR"},{24,"SIG"},{25,"KEY"},{26,"PX"},{27,"GPOS"},{28,"AAAA"},{29,"LOC"},{30,"NXT"},{31,"EID"},
	{32,"NIMLOC"},{33,"SRV"},{34,"ATMA"},{35,"NAPTR"},{36,"KX"},{37,"CERT"},{38,"A6"},{39,"DNAME"},{40,"SINK"},{41,"OPT"},
	{42,"APL"},{43,"DS"},{44,"SSHFP"},{45,"IPSECKEY"},{46,"RRSIG"},{47,"NSEC"},{48,"DNSKEY"},{49,"DHCID"},{50,"NSEC3"},
	{51,"NSEC3PARAM"},{52,"TLSA"},{53,"SMIMEA"},{55,"HIP"},{56,"NINFO"},{57,"RKEY"},{58,"TALINK"},{59,"CDS"},{60,"CDNSKEY"},
	{61,"OPENPGPKEY"},{62,"CSYNC"},{63,"ZONEMD"},{64,"SVCB"},{65,"HTTPS"},{99,"SPF"},{100,"UINFO"},{101,"UID"},{102,"GID"},
	{103,"UNSPEC"},{104,"NID"},{105,"L32"},{106,"L64"},{107,"LP"},{108,"EUI48"},{109,"EUI64"},{249,"TKEY"},{250,"TSIG"},
	{251,"IXFR"},{252,"AXFR"},{253,"MAILB"},{254,"MAILA"},{255,"ANY"},{256,"URI"},{257,"CAA"},{258,"AVC"},{32768,"TA"},{32769,"DLV"},
};
const char *wdns_rrtype_to_str(uint16_t t) {
	static const char *all[65536]; static int done;
	if (!done) { for (size_t i = sizeof types / sizeof *types; i-- > 0; ) all[types[i].t] = types[i].s; done = 1; }
	return all[t];
}
uint16_t wdns_str_to_rrtype(const char *s) {
	for (size_t i = 0; i < sizeof types / sizeof *types; i++) if (!strcasecmp(types[i].s, s)) return types[i].t;
	if (!strncasecmp(s, "TYPE", 4) && isdigit((uint8_t)s[4])) {
		char *e; unsigned long v = strtoul(s + 4, &e, 10);
		if (*e == 0 && v <= 65535) return (uint16_t)v;
	}
	return 0;
}
struct out { char *s; size_t n, cap; };
static void put(struct out *o, const char *s) {
	size_t l = strlen(s);
	if (o->n + l + 1 > o->cap) { o->cap = (o->n + l + 1) * 2; o->s = realloc(o->s, o->cap); }
	memcpy(o->s + o->n, s, l + 1); o->n += l;
}
static int put_name(struct out *o, const uint8_t **p, const uint8_t *e) {
	size_t l; char b[WDNS_PRESLEN_NAME];
	if (wdns_len_uname(*p, e, &l) != wdns_res_success || l > 255) return 0;
	wdns_domain_to_str(*p, l, b); put(o, b); *p += l;
	return 1;
}
static int put_str(struct out *o, const uint8_t **p, const uint8_t *e) {
	if (*p >= e) return 0;
	unsigned l = *(*p)++;
	if (l > (size_t)(e - *p)) return 0;
	put(o, "\"");
	while (l--) {
		uint8_t c = *(*p)++; char b[8];
		if (c == '"') put(o, "\\\""); else if (c == '\\') put(o, "\\\\");
		else { snprintf(b, sizeof b, c >= ' ' && c <= '~' ? "%c" : "\\%03u", c); put(o, b); }
	}
	put(o, "\"");
	return 1;
}
static int num(struct out *o, const uint8_t **p, const uint8_t *e, int w) {
	uint32_t v = 0; char b[16];
	if (e - *p < w) return 0;
	for (int i = 0; i < w; i++) v = v << 8 | *(*p)++;
	snprintf(b, sizeof b, "%u", v); put(o, b);
	return 1;
}
#define SP put(o, " ")
static int known(struct out *o, const uint8_t *p, const uint8_t *e, uint16_t t) {
	char b[64];
	switch (t) {
	case 1: if (e - p != 4) return 0; inet_ntop(AF_INET, p, b, sizeof b); put(o, b); return 1;
	case 28: if (e - p != 16) return 0; inet_ntop(AF_INET6, p, b, sizeof b); put(o, b); return 1;
	case 2: case 5: case 12: case 39: return put_name(o, &p, e) && p == e;
	case 15: if (!num(o, &p, e, 2)) return 0; SP; return put_name(o, &p, e) && p == e;
	case 17: if (!put_name(o, &p, e)) return 0; SP; return put_name(o, &p, e) && p == e;
	case 33: if (!num(o, &p, e, 2)) return 0; SP; if (!num(o, &p, e, 2)) return 0; SP; if (!num(o, &p, e, 2)) return 0; SP;
		return put_name(o, &p, e) && p == e;
	case 6: if (!put_name(o, &p, e)) return 0; SP; if (!put_name(o, &p, e)) return 0;
		for (int i = 0; i < 5; i++) { SP; if (!num(o, &p, e, 4)) return 0; }
		return p == e;
	case 16: case 99: if (p == e) return 0;
		while (p < e) { if (!put_str(o, &p, e)) return 0; if (p < e) SP; }
		return 1;
	case 64: case 65:
		if (!num(o, &p, e, 2)) return 0; SP; if (!put_name(o, &p, e)) return 0;
		while (e - p >= 4) {
			unsigned k = p[0] << 8 | p[1], l = p[2] << 8 | p[3]; p += 4;
			if (l > (size_t)(e - p)) return 0;
			static const char *const kn[] = {"mandatory","alpn","no-default-alpn","port","ipv4hint","ech","ipv6hint"};
			SP;
			if (k == 1) {
				put(o, "alpn=\""); const uint8_t *q = p, *qe = p + l; int first = 1;
				while (q < qe) { unsigned n = *q++; if (n > (size_t)(qe - q)) return 0; if (!first) put(o, ","); first = 0;
					for (unsigned i = 0; i < n; i++) { b[0] = (char)*q++; b[1] = 0; put(o, b); } }
				put(o, "\"");
			} else if (k == 4) { put(o, "ipv4hint="); for (unsigned i = 0; i + 4 <= l; i += 4) { if (i) put(o, ","); inet_ntop(AF_INET, p + i, b, sizeof b); put(o, b); } }
			else if (k == 6) { put(o, "ipv6hint="); for (unsigned i = 0; i + 16 <= l; i += 16) { if (i) put(o, ","); inet_ntop(AF_INET6, p + i, b, sizeof b); put(o, b); } }
			else if (k == 3 && l == 2) { snprintf(b, sizeof b, "port=%u", p[0] << 8 | p[1]); put(o, b); }
			else { if (k < 7) put(o, kn[k]); else { snprintf(b, sizeof b, "key%u", k); put(o, b); }
				if (l) { put(o, "=\""); for (unsigned i = 0; i < l; i++) { snprintf(b, sizeof b, "\\%03u", p[i]); put(o, b); } put(o, "\""); } }
			p += l;
		}
		return p == e;
	}
	return 0;
}
char *wdns_rdata_to_str(const uint8_t *rd, uint16_t n, uint16_t t, uint16_t c) {
	struct out o = {0}; (void)c;
	put(&o, "");
	if (known(&o, rd, rd + n, t)) return o.s;
	char b[16];
	o.n = 0; o.s[0] = 0;
	snprintf(b, sizeof b, "\\# %u", n); put(&o, b);
	if (n) { put(&o, " "); static const char h[] = "0123456789ABCDEF"; o.s = realloc(o.s, o.n + 2 * (size_t)n + 1); for (unsigned i = 0; i < n; i++) { o.s[o.n++] = h[rd[i] >> 4]; o.s[o.n++] = h[rd[i] & 15]; } o.s[o.n] = 0; }
	return o.s;
}
/* Only the NSEC3 form used by tests/test-bitmaps.c: "1 0 0 - - TYPE..." is needed upstream; it returns
 * the RFC 4034 bitmap of the listed types after the 6 fixed octets. */
wdns_res wdns_str_to_rdata(const char *s, uint16_t t, uint16_t c, uint8_t **rd, size_t *n) {
	(void)c;
	if (t != WDNS_TYPE_NSEC3) return wdns_res_parse_error;
	static uint8_t bits[65536 / 8];
	memset(bits, 0, sizeof bits);
	char *d = strdup(s), *sv = NULL; int i = 0; wdns_res res = wdns_res_success;
	for (char *w = strtok_r(d, " ", &sv); w; w = strtok_r(NULL, " ", &sv), i++) {
		if (i < 5) continue;
		uint16_t ty = wdns_str_to_rrtype(w);
		if (!ty) res = wdns_res_parse_error;
		bits[ty / 8] |= 0x80 >> (ty % 8);
	}
	free(d);
	if (res) return res;
	uint8_t *o = malloc(6 + 256 * 34); size_t p = 0;
	o[p++] = 1; o[p++] = 0; o[p++] = 0; o[p++] = 0; o[p++] = 0; o[p++] = 0;
	for (int w = 0; w < 256; w++) {
		int last = -1;
		for (int j = 0; j < 32; j++) if (bits[w * 32 + j]) last = j;
		if (last < 0) continue;
		o[p++] = (uint8_t)w; o[p++] = (uint8_t)(last + 1); memcpy(o + p, bits + w * 32, last + 1); p += last + 1;
	}
	*rd = o; *n = p;
	return wdns_res_success;
}
