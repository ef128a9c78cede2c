// Generates plans: one seed is one sequence of operations and faults
#include "world.h"
#include <functional>
#include <cstdlib>
using std::string; using std::vector; using std::to_string;

namespace {

struct Gen {
	Rng r;
	bool thorough;
	vector<string> p;          // the plan
	explicit Gen(uint64_t seed, bool t) : r(seed), thorough(t) {}

	void add(const string& s) { p.push_back(s); }
	string num(uint64_t n) { return to_string(n); }
	string rnd() { return to_string(r.next() >> 1); }
	string buf() { static const char* b[] = {"-1", "-1", "-1", "0", "1", "64", "512", "4096", "65536", "100000"}; return b[r.below(10)]; }

	// --- Networks
	vector<string> ccs = {"DE", "FR", "US", "GB", "JP", "CH", "AT", "IT"};
	int values = 3;            // how many different values there are
	Props props() {
		Props x;
		if (values <= 1) { x.cc = "DE"; x.asn = 1; return x; }
		x.cc = r.chance(15) ? "" : ccs[r.below(std::min<size_t>(values, ccs.size()))];
		x.asn = r.chance(30) ? 0 : 1 + r.below(values);
		if (r.chance(3)) x.asn = r.chance(50) ? 0xffffffffu : 0x80000000u + r.below(10);
		if (r.chance(20)) x.flags = 1u << r.below(4);
		if (r.chance(4)) x.flags = r.below(16);
		return x;
	}
	bool avoid64 = false;      // no IPv6 networks around ::/64
	bool ok(const Net& n) {
		if (!avoid64 || n.family() == 4) return true;
		Net z; z.first = 0; z.plen = 64;
		return !z.contains(n) && !n.contains(z);
	}
	u128 rand128() { return ((u128)r.next() << 64) | r.next(); }
	Net net(u128 a, int plen) { Net n; n.plen = plen; n.first = a & mask_of(plen); return n; }

	Net rand_base(int fam) {
		if (fam == 4) {
			switch (r.below(8)) {
				case 0: return net(V4BASE, 96 + r.below(33));
				case 1: return net(V4BASE | 0xffffffffu, 96 + r.below(33));
				case 2: return net(V4BASE | 0x7fffffffu, 96 + r.below(33));
				case 3: return net(V4BASE | 0x80000000u, 96 + r.below(33));
				case 4: return net(V4BASE | (uint32_t)r.next(), 96 + r.below(33));
				default: return net(V4BASE | (0x0a000000u + (uint32_t)r.below(1u << 24)), 96 + 8 + r.below(25));
			}
		}
		switch (r.below(9)) {
			case 0: return net(0, r.below(129));
			case 1: return net(~(u128)0, r.below(129));
			case 2: return net(((u128)0x20010db8 << 96) | r.below(16), 32 + r.below(97));
			case 3: return net(rand128(), r.below(129));
			case 4: return net(((u128)1 << 127) - 1 + r.below(2), r.below(129));
			case 5: return net(V4BASE - 1 + 0, 64 + r.below(65));
			default: return net(((u128)0x2a00 << 112) | ((u128)r.below(1u << 20) << 92) | (rand128() >> 64), 12 + r.below(60));
		}
	}
	Net away64(int fam) {
		bool a = avoid64;
		Net n;
		avoid64 = true;
		do n = rand_base(fam); while (!ok(n));
		avoid64 = a;
		return n;
	}
	// Adds nets around a base: chains, siblings, neighbours
	void cluster(vector<Entry>* out, int fam) {
		Net b = rand_base(fam);
		int lo = fam == 4 ? 96 : 0;
		Props bp = props();
		out->push_back({b, bp});
		int k = r.below(9);
		Net cur = b;
		for (int i = 0; i < k; i++) {
			Entry e; e.p = r.chance(45) ? bp : props();
			switch (r.below(7)) {
				case 0: // a subnet of the current one
				case 1: {
					int np = cur.plen + 1 + r.below(r.chance(60) ? 2 : 24);
					if (np > 128) np = 128;
					e.net = net(cur.first | (r.chance(30) ? 0 : r.chance(30) ? ~mask_of(cur.plen) : (rand128() & ~mask_of(cur.plen))), np);
					break;
				}
				case 2: // the sibling
					if (cur.plen <= lo) continue;
					e.net = net(cur.first ^ ((u128)1 << (128 - cur.plen)), cur.plen);
					break;
				case 3: // what encloses it
					if (cur.plen <= lo) continue;
					e.net = net(cur.first, std::max<int>(lo, cur.plen - 1 - r.below(4)));
					break;
				case 4: // next to it
					if (cur.last() == ~(u128)0 || (fam == 4 && cur.last() == (V4BASE | 0xffffffffu))) continue;
					e.net = net(cur.last() + 1, std::min<int>(128, std::max<int>(lo, cur.plen + (int)r.below(5) - 2)));
					break;
				case 5: // before it
					if (cur.first == 0 || (fam == 4 && cur.first == V4BASE)) continue;
					e.net = net(cur.first - 1, std::min<int>(128, std::max<int>(lo, cur.plen + (int)r.below(5) - 2)));
					break;
				case 6: { // both halves
					if (cur.plen >= 128) continue;
					Entry h; h.p = e.p; h.net = net(cur.first, cur.plen + 1);
					out->push_back(h);
					e.net = net(cur.last(), cur.plen + 1);
					if (r.chance(20)) e.p = props();
					break;
				}
			}
			if (fam == 4 && !is_v4(e.net.first)) continue;
			out->push_back(e);
			if (r.chance(60)) cur = e.net;
			if (r.chance(30)) bp = e.p;
		}
	}
	// All networks of a small prefix, so that a lot of merging takes place
	void dense(vector<Entry>* out, int fam) {
		Net b = fam == 4 ? net(V4BASE | (0xc0000200u), 96 + (r.chance(30) ? 28 : 24)) : net((u128)0x20010db8 << 96, r.chance(50) ? 32 : 120);
		if (r.chance(20)) b = fam == 4 ? net(V4BASE | 0xffffff00u, 96 + 28) : net(~(u128)0, 124);
		int depth = 2 + r.below(thorough ? 5 : 4);
		int sv = values; values = 1 + r.below(3);
		for (int l = 0; l <= depth && b.plen + l <= 128; l++)
			for (int i = 0; i < (1 << l); i++) {
				if (!r.chance(l == depth ? 80 : 25)) continue;
				Net n; n.plen = b.plen + l; n.first = b.first | ((u128)i << (128 - n.plen));
				out->push_back({n, props()});
			}
		values = sv;
	}
	// Every prefix length along a single path
	void path(vector<Entry>* out, int fam) {
		u128 a = fam == 4 ? V4BASE | (uint32_t)(r.chance(30) ? 0xffffffffu : r.chance(30) ? 0 : r.next()) : (r.chance(20) ? ~(u128)0 : r.chance(30) ? (u128)1 << 127 : rand128());
		int lo = fam == 4 ? 96 : 0, step = 1 + r.below(r.chance(50) ? 1 : 9), sib = r.chance(40) ? 100 : 30;
		if (sib == 100) { if (r.chance(60)) step = 1; values = std::max(values, 3); }
		for (int l = lo + r.below(sib == 100 ? 2 : 8); l <= 128; l += step) {
			out->push_back({net(a, l), props()});
			// and some siblings which hang around
			if (l > lo && r.chance(sib)) out->push_back({net(a ^ ((u128)1 << (128 - l)), l), props()});
		}
	}
	vector<Entry> networks(int clusters) {
		vector<Entry> v;
		values = 1 + r.below(5);
		int fams = r.below(5);     // 0: v4 only, 1: v6 only, others both
		for (int i = 0; i < clusters; i++) {
			int fam = fams == 0 ? 4 : fams == 1 ? 6 : r.chance(50) ? 4 : 6;
			int k = r.below(10);
			if (k < 6) cluster(&v, fam);
			else if (k < 8) dense(&v, fam);
			else if (k < 9) path(&v, fam);
			else v.push_back({rand_base(fam), props()});
		}
		if (r.chance(8)) v.push_back({net(V4BASE, 96), props()});
		if (r.chance(8)) v.push_back({net(0, 0), props()});
		vector<Entry> o;
		for (auto& e : v) if (ok(e.net)) o.push_back(e);
		// any order
		switch (r.below(4)) {
			case 0: std::stable_sort(o.begin(), o.end(), [](const Entry& a, const Entry& b) { return a.net < b.net; }); break;
			case 1: std::stable_sort(o.begin(), o.end(), [](const Entry& a, const Entry& b) { return b.net < a.net; }); break;
			case 2: std::stable_sort(o.begin(), o.end(), [](const Entry& a, const Entry& b) { return a.net.plen > b.net.plen; }); break;
			default: for (size_t i = 0; i < o.size(); i++) std::swap(o[i], o[i + r.below(o.size() - i)]);
		}
		return o;
	}
	string pstr(const Props& x) { return (x.cc.empty() ? "~" : x.cc) + " " + num(x.asn) + " " + num(x.flags); }
	vector<Entry> last_nets;
	void emit_nets(const string& w, int clusters) {
		last_nets = networks(clusters);
		vector<Entry> held;
		for (auto& e : last_nets) {
			bool h = r.chance(6);
			add("wnet " + w + " " + e.net.str() + " " + pstr(e.p) + (h ? " h" : ""));
			if (h) held.push_back(e);
		}
		for (auto& e : held) if (r.chance(60)) { Props x = props(); add("wmod " + w + " " + e.net.str() + " " + pstr(x)); }
	}

	// --- Catalogue
	vector<string> pool;
	string text() {
		if (!pool.empty() && r.chance(35)) {
			string s = pool[r.below(pool.size())];
			if (s[0] == '@') return s;
			string d = str_decode(s);
			if (d.size() > 2 && r.chance(40)) return str_encode(r.chance(50) ? d.substr(0, d.size() - 1) : d.substr(1));  // a prefix or suffix
			return s;
		}
		string s;
		int k = r.below(20);
		if (k == 0) return "%";
		if (k == 1) s = "@" + num(r.below(5000)) + "," + num(r.below(1000));
		else if (k == 2 && r.chance(thorough ? 40 : 12)) s = "@" + num(20000 + r.below(600000)) + "," + num(r.below(1000));
		else {
			string d; size_t n = 1 + r.below(r.chance(80) ? 24 : 300);
			for (size_t i = 0; i < n; i++) d += r.chance(4) ? (char)(128 + r.below(128)) : (char)(33 + r.below(94));
			if (r.chance(20)) d = "Deutsche Telekom AG";
			s = str_encode(d);
		}
		pool.push_back(s);
		return s;
	}
	vector<uint32_t> asns; vector<string> codes;
	void emit_catalogue(const string& w, int n) {
		vector<string> ops;
		std::map<uint32_t, string> as; std::map<string, string> cs;
		for (int i = 0; i < n; i++) {
			if (r.chance(60)) {
				uint32_t x = r.chance(60) ? 1 + r.below(60) : r.chance(80) ? (uint32_t)r.next() : r.chance(50) ? 0xffffffffu : 0x7fffffffu + r.below(3);
				if (!as.count(x)) as[x] = r.chance(8) ? "~" : text();
				ops.push_back("was " + w + " " + num(x) + " " + as[x]);
				asns.push_back(x);
			} else {
				string c; c += (char)('A' + r.below(23)); c += (char)('A' + r.below(26));
				if (!cs.count(c)) {
					static const char* cont[] = {"EU", "AS", "NA", "SA", "AF", "OC", "AN", "~"};
					cs[c] = string(cont[r.below(8)]) + " " + (r.chance(8) ? "~" : text());
				}
				ops.push_back("wcc " + w + " " + c + " " + cs[c]);
				codes.push_back(c);
			}
		}
		for (size_t i = 0; i < ops.size(); i++) std::swap(ops[i], ops[i + r.below(ops.size() - i)]);
		for (auto& s : ops) add(s);
	}
	void emit_meta(const string& w, int chance) {
		for (const char* k : {"v", "d", "l"}) while (r.chance(chance)) { add("wmeta " + w + " " + k + " " + text()); if (r.chance(70)) break; }
	}
	// More text than fits into a block of the string pool, in one or many pieces
	void emit_long(const string& w) {
		int k = r.below(3);
		if (k == 0) add("wmeta " + w + " d @" + num(520000 + r.below(900000)) + "," + num(r.below(1000)));
		else for (int i = 0, n = k == 1 ? 2 + r.below(3) : 20; i < n; i++) {
			uint32_t x = 100000 + r.below(1000000);
			asns.push_back(x);
			add("was " + w + " " + num(x) + " @" + num(k == 1 ? 150000 + r.below(250000) : 25000 + r.below(8000)) + "," + num(r.below(100000)));
		}
	}
	string key() { static const char* k[] = {"0", "0", "0", "1", "1", "2", "3"}; return k[r.below(7)]; }
	void emit_wnew(const string& w, int signed_chance) {
		if (!r.chance(signed_chance)) { add("wnew " + w + " -1 -1"); return; }
		int k = r.below(10);
		if (k < 4) add("wnew " + w + " " + key() + " -1");
		else if (k < 6) add("wnew " + w + " -1 " + key());
		else add("wnew " + w + " " + key() + " " + key());
	}
	void head(int leak) { add("run seed=" + num(r.below(1u << 30)) + " leak=" + num(leak) + " rel=" + num(r.below(1u << 30))); }

	// --- Faults
	void attach(size_t i, const string& f) {
		if (p[i].find(" ! ") == string::npos) p[i] += " !";
		p[i] += " " + f;
	}
	string short_faults(long writes, int n) {
		string s;
		for (int i = 0; i < n; i++) s += (s.empty() ? "" : " ") + string("write:") + num(1 + r.below(std::max<long>(writes, 1))) + ":short";
		return s;
	}
};

struct Counts : vector<vector<long>> { vector<vector<Contexts>> from; };

string join(const vector<string>& v) { string s; for (auto& x : v) s += x + "\n"; return s; }

// Runs the plan without any faults to learn how many calls each operation makes
bool calibrate(Gen& g, Counts* c) {
	bool v = verbose;
	if (getenv("LOCSIM_NOCAL")) return false;
	verbose = false;
	sim_record_contexts = true;
	RunResult res = run_plan(plan_parse(join(g.p)));
	sim_record_contexts = false;
	verbose = v;
	c->assign(res.counts.begin(), res.counts.end());
	c->resize(g.p.size(), vector<long>(F_KINDS));
	c->from = res.contexts;
	c->from.resize(g.p.size());
	return !res.violated;
}

string pick_arg(Rng& r, FaultKind k) {
	switch (k) {
		case F_ALLOC: return r.chance(70) ? "1" : "s";
		case F_WRITE: { static const char* a[] = {"EIO", "ENOSPC", "EINTR", "short", "torn", "s"}; return a[r.below(6)]; }
		case F_READ: { static const char* a[] = {"EIO", "s", "EINTR", "short"}; return a[r.below(4)]; }
		case F_CRYPTO: return r.chance(80) ? "1" : "s";
		case F_SEEK: case F_LSEEK: return r.chance(75) ? "EIO" : "s";
		case F_CLOSE: return "EIO";
		default: return "ENOMEM";
	}
}

// A fault of one of these kinds, somewhere in operation i
bool random_fault(Gen& g, const Counts& c, size_t i, const vector<FaultKind>& kinds) {
	vector<FaultKind> possible;
	for (auto k : kinds) if (c[i][k] > 0) possible.push_back(k);
	if (possible.empty()) return false;
	// not only the most frequent kind
	FaultKind k = possible[g.r.below(possible.size())];
	long n = c[i][k], nth = 1 + g.r.below(n);
	if (g.r.chance(15)) nth = n;
	if (g.r.chance(10)) nth = 1;
	// Most calls come from a few places, but all of the places matter
	if (g.r.chance(60) && i < c.from.size() && (size_t)k < c.from[i].size() && !c.from[i][k].empty()) nth = g.r.pick(g.r.pick(c.from[i][k]));
	g.attach(i, string(fault_names[k]) + ":" + to_string(nth) + ":" + pick_arg(g.r, k));
	return true;
}

size_t find_op(const Gen& g, const string& prefix, size_t from = 0) {
	for (size_t i = from; i < g.p.size(); i++) if (g.p[i].compare(0, prefix.size(), prefix) == 0) return i;
	return (size_t)-1;
}

void c01(Gen& g) {
	g.head(0);
	g.emit_wnew("W", 4);
	int big = g.r.chance(g.thorough ? 6 : 3);
	g.emit_nets("W", big ? 4 : 1 + g.r.below(g.r.chance(15) ? 14 : 5));
	if (big) {
		static const char* k[] = {"v4", "v6", "v6deep", "v4seq"};
		g.add(string("wbulk W ") + k[g.r.below(4)] + " " + g.rnd() + " " + g.num(800 + g.r.below(4000)));
	}
	if (g.r.chance(10)) g.emit_catalogue("W", 4);
	int writes = 1 + g.r.below(3);
	for (int i = 0; i < writes; i++) g.add("wwrite W F" + g.num(i) + " " + g.buf());
	if (g.r.chance(30)) g.add("wfree W");
	Counts c;
	size_t base = g.p.size();
	if (g.r.chance(60)) {
		if (!calibrate(g, &c)) return;
		for (size_t i = 0; i < base; i++) if (g.p[i].compare(0, 6, "wwrite") == 0) {
			if (g.r.chance(50)) g.attach(i, g.short_faults(c[i][F_WRITE], 1 + g.r.below(6)));
			if (g.r.chance(50)) random_fault(g, c, i, {F_WRITE, F_SEEK, F_ALLOC, F_CLOSE});
			else if (g.r.chance(15)) g.attach(i, "full:" + g.num(g.r.below(8000)) + ":1");
		}
		g.add("wwrite W F9 " + g.buf());
	}
	for (size_t i = 0; i < g.p.size(); i++) if (g.p[i].compare(0, 6, "wwrite") == 0) {
		string f = g.p[i].substr(9, 2);
		if (g.r.chance(60)) g.add("full " + f + " l");
		else { g.add("dopen D" + f + " " + f + " " + g.buf()); g.add("lookall D" + f + " 3000 " + g.rnd()); }
	}
}

// The time zone must not matter
void zone(Gen& g) {
	static const vector<string> Z = {"UTC0", "X-5:30", "X12", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "L-10:30D-11,M10.1.0,M4.1.0", "Y-14"};
	if (g.r.chance(40)) g.add("tz " + g.r.pick(Z));
}

void c02(Gen& g) {
	g.head(0);
	zone(g);
	g.emit_wnew("W", 4);
	if (g.r.chance(20)) g.add("clkset " + g.num(g.r.chance(20) ? g.r.below(100) : g.r.chance(30) ? 4102444800ull + g.r.below(1u << 30) : 1000000000 + g.r.below(1u << 30)));
	g.emit_meta("W", 55);
	if (g.r.chance(4)) g.add("wbulk W as " + g.rnd() + " " + g.num(500 + g.r.below(g.thorough ? 6000 : 3000)));
	g.emit_catalogue("W", g.r.chance(10) ? 0 : 1 + g.r.below(g.r.chance(15) ? 200 : 25));
	g.emit_meta("W", 20);
	if (g.r.below(1000) < 12) g.emit_long("W");
	if (g.r.chance(30)) g.emit_nets("W", 1);
	int rounds = 1 + g.r.below(3);
	for (int i = 0; i < rounds; i++) {
		if (i && g.r.chance(60)) { g.emit_catalogue("W", 1 + g.r.below(6)); g.emit_meta("W", 30); }
		if (g.r.chance(30)) g.add("clk " + g.num(g.r.below(100000)));
		g.add("wwrite W F" + g.num(i) + " " + g.buf());
	}
	Counts c;
	if (g.r.chance(50)) {
		if (!calibrate(g, &c)) return;
		for (size_t i = 0; i < g.p.size(); i++) {
			if (g.p[i].compare(0, 6, "wwrite") == 0) {
				if (g.r.chance(50)) g.attach(i, g.short_faults(c[i][F_WRITE], 1 + g.r.below(5)));
				if (g.r.chance(40)) random_fault(g, c, i, {F_WRITE, F_SEEK, F_CLOSE, F_READ});
			}
		}
		g.add("wwrite W F9 " + g.buf());
	}
	for (size_t i = 0; i < g.p.size(); i++) if (g.p[i].compare(0, 6, "wwrite") == 0) g.add("full " + g.p[i].substr(9, 2) + " c");
}

string filter(Gen& g, bool must) {
	string c = "~", a = "~", f = "0";
	do {
		if (g.r.chance(45)) { c = g.r.pick(g.ccs); if (g.r.chance(40)) c += "," + g.r.pick(g.ccs); }
		if (g.r.chance(35)) { a = g.num(1 + g.r.below(5)); while (g.r.chance(40)) a += "," + g.num(1 + g.r.below(9)); }
		if (g.r.chance(25)) f = g.num(1 + g.r.below(15));
	} while (must && c == "~" && a == "~" && f == "0");
	return c + " " + a + " " + f;
}
string family(Gen& g) { static const char* f[] = {"0", "0", "4", "6"}; return f[g.r.below(4)]; }

// A database, and several enumerators that run interleaved
void enums(Gen& g, const string& modes, bool catalogue) {
	g.head(0);
	g.emit_wnew("W", 0);
	bool big = g.r.chance(g.thorough ? 5 : 2);
	g.emit_nets("W", 1 + g.r.below(g.r.chance(15) ? 12 : 5));
	if (big) {
		static const char* k[] = {"v4", "v6", "v4seq", "v4seq"};
		g.add(string("wbulk W ") + k[g.r.below(4)] + " " + g.rnd() + " " + g.num(modes.find('f') == string::npos ? 300 + g.r.below(2500) : 100 + g.r.below(300)));
	}
	if (catalogue) g.emit_catalogue("W", g.r.below(30));
	g.add("wwrite W F -1");
	g.add("dopen D F " + g.buf());
	if (g.r.chance(20)) g.add("wfree W");
	if (g.r.chance(20)) g.add("ffree F");
	int n = 1 + g.r.below(5), made = 0;
	vector<int> live;
	int steps = 10 + g.r.below(60);
	for (int s = 0; s < steps; s++) {
		if ((made < n && g.r.chance(35)) || !made) {
			string m(1, modes[g.r.below(modes.size())]);
			string t = "~";
			if (m == "a" && g.r.chance(60)) {
				static const char* q[] = {"a", "telekom", "AG", "E", "deutsche%20telekom", "zz", "%"};
				t = q[g.r.below(7)];
				if (!g.pool.empty() && g.r.chance(40)) { string d = g.r.pick(g.pool); if (d[0] != '@' && d != "%") { d = str_decode(d); t = str_encode(d.substr(g.r.below(d.size()), 1 + g.r.below(5))); } }
			}
			string fl = (m == "n" || m == "f") && g.r.chance(65) ? filter(g, true) : "~ ~ 0";
			g.add("enew E" + g.num(made) + " D " + m + " " + (m == "a" || m == "c" ? "0" : family(g)) + " " + fl + " " + t);
			live.push_back(made++);
		} else if (!live.empty() && g.r.chance(70)) {
			g.add("enext E" + g.num(live[g.r.below(live.size())]) + " " + g.num(1 + g.r.below(g.r.chance(70) ? 4 : 60)));
		} else if (!live.empty() && g.r.chance(15)) {
			size_t k = g.r.below(live.size());
			g.add("efree E" + g.num(live[k]));
			live.erase(live.begin() + k);
		} else {
			Net x = g.last_nets.empty() ? g.rand_base(4) : g.r.pick(g.last_nets).net;
			if (!g.avoid64 || true) g.add("look D " + addr_str(g.r.chance(50) ? x.first : x.last()));
			if (catalogue && g.r.chance(20)) g.add("cat D");
		}
	}
	for (int k : live) if (g.r.chance(85)) g.add("enext E" + g.num(k) + " 1000000");
}
void c03(Gen& g) { g.avoid64 = g.r.chance(50); enums(g, g.avoid64 ? "nnfbac" : "nnac", true); }
void c04(Gen& g) { g.avoid64 = true; enums(g, g.r.chance(60) ? "f" : "ffffnb", false); }
void c05(Gen& g) { g.avoid64 = true; enums(g, g.r.chance(60) ? "b" : "bbbbfn", false); }

void c06(Gen& g) {
	g.head(0);
	g.emit_wnew("W", 80);
	g.emit_meta("W", 40);
	g.emit_nets("W", 1 + g.r.below(4));
	if (g.r.chance(2)) g.add("wbulk W v4 " + g.rnd() + " " + g.num(1500 + g.r.below(4000)));
	g.emit_catalogue("W", g.r.below(12));
	int rounds = 1 + g.r.below(4);
	for (int i = 0; i < rounds; i++) g.add("wwrite W F" + g.num(i) + " " + g.buf());
	Counts c;
	if (!calibrate(g, &c)) return;
	for (size_t i = 0; i < g.p.size(); i++) if (g.p[i].compare(0, 6, "wwrite") == 0) {
		int k = g.r.below(12);
		if (k == 0) continue;
		if (k == 1) g.attach(i, "full:" + g.num(g.r.below(4200 + 4096 * 6)) + ":1");
		else if (k == 2) g.attach(i, g.short_faults(c[i][F_WRITE], 1 + g.r.below(8)));
		else random_fault(g, c, i, {F_WRITE, F_WRITE, F_SEEK, F_CLOSE, F_READ, F_CRYPTO, F_ALLOC});
		if (g.r.chance(25)) random_fault(g, c, i, {F_WRITE, F_READ, F_SEEK, F_CRYPTO});
	}
	if (g.r.chance(10)) { size_t i = find_op(g, "wnew"); random_fault(g, c, i, {F_ALLOC, F_READ, F_CRYPTO}); }
	vector<string> files;
	for (auto& s : g.p) if (s.compare(0, 6, "wwrite") == 0) files.push_back(s.substr(9, 2));
	g.add("wwrite W F9 -1");
	files.push_back("F9");
	for (auto& f : files) g.add("full " + f + " lcev");
}

string damage(Gen& g, const string& from, const string& to, bool hostile) {
	string s = "dmg " + from + " " + to + " ";
	auto val = [&]() -> string {
		switch (g.r.below(8)) {
			case 0: return "0"; case 1: return "4294967295"; case 2: return "2147483647"; case 3: return "2147483648";
			case 4: return g.num(g.r.below(64)); case 5: return g.num(4294967295u - g.r.below(64)); case 6: return g.num(g.r.below(20000));
			default: return g.num(g.r.below(4294967296ull));
		}
	};
	int k = g.r.below(hostile ? 21 : 12);
	switch (k) {
		case 0: return s + "flip " + g.num(g.r.below(4200)) + " " + g.num(g.r.below(255));
		case 1: return s + "flip " + g.rnd() + " " + g.num(g.r.below(255));
		case 2: return s + "trunc " + g.rnd();
		case 3: return s + "cut " + g.num(1 + g.r.below(g.r.chance(50) ? 16 : 5000));
		case 4: return s + "extend " + g.num(1 + g.r.below(5000)) + " " + g.rnd() + " " + g.num(g.r.below(2));
		case 5: return s + "zero " + g.rnd() + " " + g.num(1 + g.r.below(4096));
		case 6: return s + "rand " + g.rnd() + " " + g.num(1 + g.r.below(600)) + " " + g.rnd();
		case 7: return s + "secflip " + g.num(g.r.below(5)) + " " + g.rnd() + " " + g.num(g.r.below(255));
		case 8: return s + "siglen " + g.num(g.r.below(2)) + " " + g.num(g.r.chance(30) ? 0 : g.r.chance(30) ? 65535 : g.r.chance(40) ? 2049 : g.r.below(3000));
		case 9: return s + "swapsig";
		case 10: return s + "hdr " + g.num(g.r.below(13)) + " " + val();
		case 11: return s + "sec " + g.num(g.r.below(5)) + " " + g.rnd() + " " + val();
		case 12: return s + "hdr " + g.num(g.r.below(13)) + " " + val();
		case 13: return s + "hdrsize " + g.num(g.r.below(13)) + " " + g.num((uint32_t)(g.r.range(-40, 40)));
		case 14: return s + "node " + g.rnd() + " " + g.num(g.r.below(3)) + " " + (g.r.chance(60) ? g.num(g.r.below(100000)) : val());
		case 15: return s + "mesh " + g.rnd() + " " + g.num(g.r.below(2));
		case 16: return s + "chain " + g.num(g.r.chance(60) ? 120 + g.r.below(40) : 1 + g.r.below(g.r.chance(90) ? 2000 : 60000)) + " " + g.num(g.r.below(16));
		case 17: return s + "poolend " + g.num(g.r.below(2));
		case 18: return s + "random " + g.rnd() + " " + g.rnd() + " " + g.num(g.r.below(2));
		case 19: return s + "cutfile " + g.num(g.r.below(5000));
		default: return s + "sec " + g.num(1 + g.r.below(4)) + " " + g.rnd() + " " + val();
	}
}

void c07(Gen& g) {
	g.head(0);
	g.emit_wnew("W", 92);
	g.emit_meta("W", 30);
	g.emit_nets("W", 1 + g.r.below(2));
	g.emit_catalogue("W", g.r.below(6));
	if (g.r.chance(3)) g.add("wbulk W v6 " + g.rnd() + " " + g.num(1000 + g.r.below(3000)));
	g.add("wwrite W F0 " + g.buf());
	vector<string> files = {"F0"};
	if (g.r.chance(30)) { // a second one which is slightly different
		if (g.r.chance(50)) g.add("clk " + g.num(g.r.below(3)));
		else g.add("was W " + g.num(g.r.below(70)) + " " + g.text());
		g.add("wwrite W F1 " + g.buf());
		files.push_back("F1");
	}
	int n = 1 + g.r.below(4), id = 2;
	for (int i = 0; i < n; i++) {
		string t = "F" + g.num(id++), from = g.r.pick(files);
		if (files.size() > 1 && g.r.chance(25)) g.add("dmg F0 " + t + " splice F1 " + (g.r.chance(40) ? string("68 4 ") : g.r.chance(50) ? string("72 4096 ") : g.num(g.r.below(9000)) + " " + g.num(1 + g.r.below(5000))));
		else if (g.r.chance(15)) { static const char* m[] = {"prefix", "torn", "lost", "pages", "len"}; g.add("crash " + files[0] + " " + t + " " + g.rnd() + " " + m[g.r.below(5)] + " " + g.rnd()); }
		else g.add(damage(g, from, t, false));
		files.push_back(t);
	}
	int d = 0;
	for (auto& f : files) {
		if (!g.r.chance(f == "F0" ? 100 : 85)) continue;
		string D = "D" + g.num(d++);
		g.add("dopen " + D + " " + f + " " + g.buf() + (g.r.chance(20) ? " keep" : ""));
		int m = 1 + g.r.below(4);
		for (int i = 0; i < m; i++) {
			if (g.r.chance(15)) g.add("suse " + D + " " + g.rnd() + " " + g.num(g.r.below(3000)));
			if (g.r.chance(10)) g.add("ffree " + f);
			g.add("verify " + D + " " + g.num(g.r.below(4)));
		}
	}
	size_t before = g.p.size();
	(void)before;
	Counts c;
	if (g.r.chance(60)) {
		if (!calibrate(g, &c)) return;
		vector<string> again;
		for (size_t i = 0; i < g.p.size(); i++) if (g.p[i].compare(0, 6, "verify") == 0 && g.r.chance(35)) {
			string plain = g.p[i];
			if (random_fault(g, c, i, {F_READ, F_READ, F_CRYPTO, F_SEEK, F_FDOPEN, F_ALLOC})) {
				if (g.r.chance(25)) random_fault(g, c, i, {F_READ, F_CRYPTO});
				again.push_back(plain);
			}
		}
		for (auto& s : again) g.add(s);
	}
}

void small_db(Gen& g, const string& w, const string& f) {
	g.emit_nets(w, g.r.below(4));
	g.emit_catalogue(w, g.r.below(12));
	g.emit_meta(w, 40);
	g.add("wwrite " + w + " " + f + " -1");
}

void c08(Gen& g) {
	g.head(1);
	g.emit_wnew("W", 25);
	if (g.r.chance(4)) g.add("wbulk W v4 " + g.rnd() + " " + g.num(200 + g.r.below(1500)));
	small_db(g, "W", "F0");
	int n = 1 + g.r.below(5), id = 1;
	vector<string> files = {"F0"};
	for (int i = 0; i < n; i++) {
		string from = g.r.chance(60) ? "F0" : g.r.pick(files), t = "F" + g.num(id++);
		if (g.r.chance(12)) { static const char* m[] = {"prefix", "torn", "lost", "pages", "len"}; g.add("crash F0 " + t + " " + g.rnd() + " " + m[g.r.below(5)] + " " + g.rnd()); }
		else g.add(damage(g, from, t, true));
		files.push_back(t);
	}
	int d = 0;
	for (auto& f : files) {
		if (f == "F0" && g.r.chance(80)) continue;
		string D = "D" + g.num(d++);
		g.add("dopen " + D + " " + f + " " + g.buf());
		if (g.r.chance(60)) g.add("poke " + D + " " + g.rnd());
		else {
			string E = "E" + D;
			g.add("enew " + E + " " + D + " " + string(1, "nfbac"[g.r.below(5)]) + " " + family(g) + " " + filter(g, false) + " " + (g.r.chance(30) ? "a" : "~"));
			for (int k = 0; k < 3; k++) { g.add("enext " + E + " " + g.num(1 + g.r.below(2000))); g.add("poke " + D + " " + g.rnd()); }
			if (g.r.chance(50)) g.add("dfree " + D);
			g.add("enext " + E + " 5000");
		}
	}
	if (g.r.chance(20)) {
		Counts c;
		if (!calibrate(g, &c)) return;
		for (size_t i = 0; i < g.p.size(); i++) if ((g.p[i].compare(0, 5, "dopen") == 0 || g.p[i].compare(0, 4, "poke") == 0) && g.r.chance(50))
			random_fault(g, c, i, {F_READ, F_LSEEK, F_MMAP, F_MADVISE, F_DUP, F_ALLOC});
	}
}

// Many different things, each of which may fail
void mixed_ops(Gen& g, int dbs, bool lifecycle) {
	int id = 0;
	vector<string> D, E, O;
	for (int i = 0; i < dbs; i++) { D.push_back("D" + g.num(i)); g.add("dopen D" + g.num(i) + " F" + g.num(i) + " " + g.buf() + (g.r.chance(25) ? " keep" : "")); }
	int steps = 8 + g.r.below(lifecycle ? 60 : 25);
	for (int s = 0; s < steps; s++) {
		string d = g.r.pick(D);
		switch (g.r.below(lifecycle ? 26 : 15)) {
			case 0: case 1: {
				Net x = g.last_nets.empty() ? g.rand_base(4) : g.r.pick(g.last_nets).net;
				string o = "O" + g.num(id++);
				g.add("look " + d + " " + addr_str(x.first) + (g.r.chance(60) ? " keep " + o : ""));
				O.push_back(o);
				break;
			}
			case 2: { string o = "O" + g.num(id++); g.add("getas " + d + " " + g.num(g.asns.empty() ? 1 : g.r.pick(g.asns)) + " keep " + o); O.push_back(o); break; }
			case 3: { string o = "O" + g.num(id++); g.add("getcc " + d + " " + (g.codes.empty() ? string("DE") : g.r.pick(g.codes)) + " keep " + o); O.push_back(o); break; }
			case 4: case 5: case 6: {
				string e = "E" + g.num(id++);
				char m = g.avoid64 ? "nnffbac"[g.r.below(7)] : "nac"[g.r.below(3)];
				g.add("enew " + e + " " + d + " " + string(1, m) + " " + (m == 'a' || m == 'c' ? "0" : family(g)) + " " + (m == 'n' || m == 'f' ? filter(g, false) : "~ ~ 0") + " " + (m == 'a' && g.r.chance(40) ? "a" : "~"));
				E.push_back(e);
				break;
			}
			case 7: case 8: case 9: if (!E.empty()) g.add("enext " + g.r.pick(E) + " " + g.num(1 + g.r.below(g.r.chance(50) ? 5 : 500))); break;
			case 10: g.add("verify " + d + " " + g.num(g.r.below(4))); break;
			case 11: g.add("lookall " + d + " 40 " + g.rnd()); break;
			case 12: g.add("nalg " + g.away64(g.r.chance(50) ? 4 : 6).str() + " " + g.rnd() + " " + g.num(g.r.below(6))); break;
			case 13:
				if (g.r.chance(50)) g.add("olist " + g.rnd() + " " + g.num(g.r.below(80)));
				else g.add("lists " + g.rnd() + " " + g.num(g.r.chance(10) ? 1000 + g.r.below(3000) : g.r.below(80)) + " " + g.num(g.r.chance(20) ? 3000 : 1 + g.r.below(40)));
				break;
			case 14: if (!O.empty()) g.add("oread " + g.r.pick(O)); else g.add("cat " + d); break;
			case 15: case 16: g.add("dfree " + d); break;
			case 17: g.add("dref " + d); break;
			case 18: if (!E.empty()) g.add("efree " + g.r.pick(E)); break;
			case 19: if (!E.empty()) g.add("eref " + g.r.pick(E)); break;
			case 20: if (!O.empty()) g.add((g.r.chance(50) ? "ofree " : "oread ") + g.r.pick(O)); break;
			case 21: if (!O.empty()) g.add("oref " + g.r.pick(O)); break;
			case 22: g.add("suse " + d + " " + g.rnd() + " " + g.num(g.r.below(2000))); g.add("sclose " + d); break;
			case 23: g.add("ffree F" + g.num(g.r.below(dbs))); break;
			case 24: if (g.r.chance(30)) g.add("wfree W"); else g.add("wref W"); break;
			case 25: g.add(g.r.chance(60) ? "ctxfree" : "ctxnew"); break;
		}
	}
	for (auto& o : O) if (g.r.chance(70)) g.add("oread " + o);
	for (auto& e : E) if (g.r.chance(60)) g.add("enext " + e + " 100000");
	g.add("ctxnew");
}

void c09(Gen& g) {
	g.head(1);
	g.avoid64 = g.r.chance(70);
	g.emit_wnew("W", 30);
	g.emit_meta("W", 40);
	g.emit_nets("W", 1 + g.r.below(3));
	g.emit_catalogue("W", g.r.below(14));
	// Strings which make the pool grow while it is being written
	bool longstr = g.r.below(1000) < 20;
	if (longstr) g.emit_long("W");
	g.add("wwrite W F0 " + g.buf());
	size_t w_end = g.p.size();
	mixed_ops(g, 1, false);
	Counts c;
	if (!calibrate(g, &c)) return;
	vector<std::pair<size_t, string>> retry;
	if (longstr && g.r.chance(80)) {
		string plain = g.p[w_end - 1];
		if (random_fault(g, c, w_end - 1, {F_ALLOC})) retry.push_back({w_end - 1, plain});
	}
	int n = 1 + g.r.below(g.r.chance(70) ? 3 : 10);
	vector<FaultKind> kinds = {F_ALLOC, F_ALLOC, F_ALLOC, F_MMAP, F_DUP, F_FDOPEN, F_LSEEK, F_MADVISE, F_READ, F_SEEK, F_CRYPTO, F_WRITE, F_CLOSE};
	for (int i = 0; i < n; i++) {
		size_t k = 1 + g.r.below(g.p.size() - 1);
		string plain = g.p[k];
		if (plain.find(" ! ") != string::npos) continue;
		if (random_fault(g, c, k, kinds)) {
			if (g.r.chance(20)) random_fault(g, c, k, kinds);
			retry.push_back({k, plain});
		}
	}
	// and again, this time without the fault
	std::sort(retry.begin(), retry.end());
	for (size_t i = retry.size(); i-- > 0;) if (g.r.chance(80)) g.p.insert(g.p.begin() + retry[i].first + 1, retry[i].second);
	g.add("wwrite W F8 -1");
	g.add("full F8 lcev");
	g.add("full F0 lce");
}

void c10(Gen& g) {
	g.head(1);
	g.avoid64 = g.r.chance(70);
	g.emit_wnew("W", 30);
	int dbs = 1 + g.r.below(3);
	for (int i = 0; i < dbs; i++) {
		if (i) { g.add("wfree W"); g.emit_wnew("W", 20); }
		small_db(g, "W", "F" + g.num(i));
	}
	mixed_ops(g, dbs, true);
}

// --- DNS
struct Dns {
	string b;
	void u16(unsigned v) { b += (char)(v >> 8); b += (char)v; }
	void u32(uint32_t v) { u16(v >> 16); u16(v & 0xffff); }
	void name(const string& n) {
		size_t p = 0;
		while (p < n.size()) { size_t q = n.find('.', p); if (q == string::npos) q = n.size(); b += (char)(q - p); b += n.substr(p, q - p); p = q + 1; }
		b += '\0';
	}
};
string hex(const string& s) { string o; char t[4]; for (unsigned char c : s) { snprintf(t, sizeof(t), "%02x", c); o += t; } return o.empty() ? "-" : o; }

string timestamp(Gen& g) {
	time_t t;
	switch (g.r.below(6)) {
		case 0: t = g.r.below(100000); break;
		case 1: t = 2147483647ll - 2 + g.r.below(5); break;
		case 2: t = 4102444800ll + g.r.below(1u << 31); break;
		default: t = 1500000000 + g.r.below(400000000);
	}
	struct tm tm; gmtime_r(&t, &tm);
	char b[64]; strftime(b, sizeof(b), "%a, %d %b %Y %H:%M:%S GMT", &tm);
	return b;
}

void c11(Gen& g) {
	g.head(0);
	zone(g);
	int n = 1 + g.r.below(6);
	for (int q = 0; q < n; q++) {
		unsigned version = g.r.chance(90) ? 1 : g.r.below(4);
		string qname = "_v" + g.num(version) + "._db.location.ipfire.org";
		string ts = timestamp(g);
		if (g.r.chance(30)) switch (g.r.below(10)) {
			case 0: ts = ""; break;
			case 1: ts.resize(g.r.below(ts.size())); break;
			case 2: ts += "x"; break;
			case 3: ts = ts + " " + timestamp(g); break;
			case 4: ts[g.r.below(ts.size())] = (char)g.r.next(); break;
			case 5: ts = string(g.r.below(255), 'A'); break;
			case 6: ts = string(255, ' '); break;
			case 7: ts += '\0'; break;
			case 8: ts.insert(g.r.below(ts.size()), 1, '\0'); break;
			case 9: ts = "v=spf1 -all"; break;
		}
		if (ts.size() > 255) ts.resize(255);
		Dns d;
		int cn = g.r.chance(30) ? 1 + g.r.below(4) : 0;
		vector<int> types;
		for (int i = 0; i < cn; i++) types.push_back(5);
		types.push_back(16);
		if (g.r.chance(20)) types.push_back(g.r.chance(50) ? 16 : 46);
		if (g.r.chance(10)) types.insert(types.begin() + g.r.below(types.size()), g.r.chance(50) ? 1 : 2);
		if (g.r.chance(6)) types = {1};
		if (g.r.chance(4)) types = {};
		if (g.r.chance(3)) types = {5};
		d.u16(g.r.next()); d.u16(0x8180); d.u16(1); d.u16(types.size()); d.u16(0); d.u16(0);
		d.name(qname); d.u16(16); d.u16(1);
		vector<size_t> lens;
		string owner = qname;
		for (int t : types) {
			if (g.r.chance(60)) d.u16(0xc00c); else d.name(owner);
			d.u16(t); d.u16(1); d.u32(g.r.below(100000));
			Dns rd;
			if (t == 5) { if (g.r.chance(40)) rd.u16(0xc00c + (g.r.chance(50) ? 3 : 0)); else { owner = "v" + g.num(g.r.below(1000)) + ".example.org"; rd.name(owner); } }
			else if (t == 16) {
				if (g.r.chance(8)) { size_t k = g.r.below(ts.size() + 1); rd.b += (char)k; rd.b += ts.substr(0, k); rd.b += (char)(ts.size() - k); rd.b += ts.substr(k); }
				else { rd.b += (char)ts.size(); rd.b += ts; }
				if (g.r.chance(4)) { rd.b[0] = (char)g.r.next(); }
				ts = timestamp(g);
			}
			else for (int i = 0, m = g.r.below(40); i < m; i++) rd.b += (char)g.r.next();
			lens.push_back(d.b.size());
			d.u16(rd.b.size());
			d.b += rd.b;
		}
		// Damage
		if (g.r.chance(35)) {
			int m = 1 + g.r.below(3);
			for (int i = 0; i < m; i++) switch (g.r.below(8)) {
				case 0: d.b[g.r.below(d.b.size())] = (char)g.r.next(); break;
				case 1: d.b[g.r.below(d.b.size())] ^= 1 << g.r.below(8); break;
				case 2: if (!lens.empty()) { size_t o = g.r.pick(lens); if (o + 1 < d.b.size()) { unsigned v = g.r.chance(30) ? 0 : g.r.chance(30) ? 0xffff : g.r.chance(50) ? 2 : g.r.below(600); d.b[o] = (char)(v >> 8); d.b[o + 1] = (char)v; } } break;
				case 3: if (!lens.empty()) { size_t o = g.r.pick(lens); if (o + 2 < d.b.size()) d.b[o + 2] = (char)(g.r.chance(50) ? 0 : g.r.next()); } break;
				case 4: for (size_t o = 12; o + 1 < d.b.size(); o++) if (g.r.chance(1)) { d.b[o] = (char)0xc0; d.b[o + 1] = (char)g.r.next(); } break;
				case 5: if (d.b.size() > 8) d.b[7] = (char)g.r.below(6); break;
				case 6: d.b += string(g.r.below(80), (char)g.r.next()); break;
				case 7: if (d.b.size() > 40) d.b.erase(12 + g.r.below(d.b.size() - 13), 1 + g.r.below(4)); break;
			}
		}
		string full = d.b;
		long result = full.size();
		int init = 0, he = 0;
		if (g.r.chance(30)) switch (g.r.below(6)) {
			case 0: case 1: case 2: result = g.r.below(full.size() + 1); break;      // cut off; what follows is left over from earlier
			case 3: result = -1; he = g.r.below(5); break;
			case 4: init = -1; break;
			case 5: while (full.size() < 700) full += (char)g.r.next(); result = 513 + g.r.below(full.size() - 512); break;
		}
		g.add("dns " + g.num(version) + " " + to_string(init) + " " + to_string(result) + " " + g.num(he) + " 0 " + hex(full));
	}
	if (g.r.chance(15)) {
		Counts c;
		if (!calibrate(g, &c)) return;
		size_t k = 1 + g.r.below(g.p.size() - 1);
		random_fault(g, c, k, {F_ALLOC});
	}
}

} // namespace

string gen_plan(const string& prop, uint64_t seed, bool thorough) {
	Gen g(seed, thorough);
	if (prop == "C01") c01(g);
	else if (prop == "C02") c02(g);
	else if (prop == "C03") c03(g);
	else if (prop == "C04") c04(g);
	else if (prop == "C05") c05(g);
	else if (prop == "C06") c06(g);
	else if (prop == "C07") c07(g);
	else if (prop == "C08") c08(g);
	else if (prop == "C09") c09(g);
	else if (prop == "C10") c10(g);
	else if (prop == "C11") c11(g);
	return join(g.p);
}
