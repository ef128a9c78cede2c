// locsim - the reference model: what a database has to answer
#pragma once
#include "seam.h"
#include <algorithm>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <set>
#include <unordered_map>

typedef unsigned __int128 u128;

static inline u128 ones(int n) { return n >= 128 ? ~(u128)0 : (((u128)1 << n) - 1); }  // lowest n bits
static inline u128 mask_of(int plen) { return plen <= 0 ? 0 : ~ones(128 - plen); }

static inline u128 from_in6(const struct in6_addr* a) {
	u128 r = 0;
	for (int i = 0; i < 16; i++) r = (r << 8) | a->s6_addr[i];
	return r;
}
static inline struct in6_addr to_in6(u128 v) {
	struct in6_addr a;
	for (int i = 15; i >= 0; i--) { a.s6_addr[i] = (uint8_t)v; v >>= 8; }
	return a;
}

static const u128 V4BASE = (u128)0xffff << 32;
static inline bool is_v4(u128 a) { return (a >> 32) == 0xffff; }
static inline int fam_of(u128 first, int plen) { return plen >= 96 && is_v4(first) ? 4 : 6; }

static inline std::string addr_str(u128 a) {
	char b[64];
	if (is_v4(a)) {
		struct in_addr x; x.s_addr = htonl((uint32_t)a);
		inet_ntop(AF_INET, &x, b, sizeof(b));
	} else {
		struct in6_addr x = to_in6(a);
		inet_ntop(AF_INET6, &x, b, sizeof(b));
	}
	return b;
}

struct Net {
	u128 first = 0;
	int plen = 0;       // raw prefix, IPv4 is 96..128
	bool operator<(const Net& o) const { return first != o.first ? first < o.first : plen < o.plen; }
	bool operator==(const Net& o) const { return first == o.first && plen == o.plen; }
	u128 last() const { return first | ~mask_of(plen); }
	int family() const { return fam_of(first, plen); }
	bool contains(u128 a) const { return (a & mask_of(plen)) == first; }
	bool contains(const Net& o) const { return o.plen >= plen && contains(o.first); }
	std::string str() const {
		return addr_str(first) + "/" + std::to_string(family() == 4 ? plen - 96 : plen);
	}
};

static inline bool parse_addr(const std::string& s, u128* out) {
	struct in6_addr a6; struct in_addr a4;
	if (inet_pton(AF_INET, s.c_str(), &a4) == 1) { *out = V4BASE | ntohl(a4.s_addr); return true; }
	if (inet_pton(AF_INET6, s.c_str(), &a6) == 1) { *out = from_in6(&a6); return true; }
	return false;
}
static inline bool parse_net(const std::string& s, Net* n) {
	size_t i = s.find('/');
	if (i == std::string::npos) return false;
	u128 a;
	std::string h = s.substr(0, i);
	if (!parse_addr(h, &a)) return false;
	int p = atoi(s.c_str() + i + 1);
	if (h.find(':') == std::string::npos) p += 96;
	if (p < 0 || p > 128) return false;
	n->plen = p;
	n->first = a & mask_of(p);
	return true;
}

struct Props {
	std::string cc;
	uint32_t asn = 0;
	uint32_t flags = 0;
	bool operator==(const Props& o) const { return cc == o.cc && asn == o.asn && flags == o.flags; }
	bool operator!=(const Props& o) const { return !(*this == o); }
	std::string str() const { return (cc.empty() ? "--" : cc) + "/AS" + std::to_string(asn) + "/" + std::to_string(flags); }
};

struct Entry { Net net; Props p; };

struct NetHash { size_t operator()(const Net& n) const { return (size_t)mix64((uint64_t)n.first ^ (uint64_t)(n.first >> 64) * 31, n.plen); } };

struct NetModel {
	std::unordered_map<Net, Props, NetHash> nets;
	int plens[129] = {0};

	bool add(const Net& n, const Props& p) {
		if (!nets.emplace(n, p).second) return false;
		plens[n.plen]++;
		return true;
	}
	void clear() { nets.clear(); memset(plens, 0, sizeof(plens)); }

	// The most specific network that contains this address
	bool lpm(u128 a, Entry* out) const {
		int lo = is_v4(a) ? 96 : 0;
		for (int p = 128; p >= lo; p--) {
			if (!plens[p]) continue;
			Net k; k.first = a & mask_of(p); k.plen = p;
			auto i = nets.find(k);
			if (i != nets.end()) { out->net = k; out->p = i->second; return true; }
		}
		return false;
	}
	// Is the address part of any network with a country code?
	bool covered(u128 a) const {
		int lo = is_v4(a) ? 96 : 0;
		for (int p = 128; p >= lo; p--) {
			if (!plens[p]) continue;
			Net k; k.first = a & mask_of(p); k.plen = p;
			auto i = nets.find(k);
			if (i != nets.end() && !i->second.cc.empty()) return true;
		}
		return false;
	}
	// Has this network been added, or is it the union of two halves for which this is true?
	bool legit(const Net& n, const Props& p) const {
		auto i = nets.find(n);
		if (i != nets.end() && i->second == p) return true;
		if (n.plen >= 128) return false;
		Net a = n, b = n;
		a.plen++; b.plen++;
		b.first |= (u128)1 << (128 - b.plen);
		return legit(a, p) && legit(b, p);
	}
	std::vector<Entry> sorted() const {
		std::vector<Entry> v;
		for (auto& i : nets) v.push_back({i.first, i.second});
		std::sort(v.begin(), v.end(), [](const Entry& a, const Entry& b) { return a.net < b.net; });
		return v;
	}
};

struct DbModel {
	NetModel nets;
	std::map<uint32_t, std::string> ases;
	struct Country { std::string cont, name; };
	std::map<std::string, Country> countries;
	std::string vendor, description, license;
	int64_t created_lo = 0, created_hi = 0;
	std::vector<int> keys;     // ids of the keys it was signed with, by slot (-1: none)
	bool big = false;
};

struct Filter {
	int family = 0;            // 0, 4, 6
	std::vector<std::string> countries;
	std::vector<uint32_t> asns;
	uint32_t flags = 0;
	bool any() const { return !countries.empty() || !asns.empty() || flags; }
	bool match(int fam, const Props& p) const {
		if (family && family != fam) return false;
		if (!any()) return true;
		if (std::find(countries.begin(), countries.end(), p.cc) != countries.end()) return true;
		if (std::find(asns.begin(), asns.end(), p.asn) != asns.end()) return true;
		return (p.flags & flags) != 0;
	}
};
