#include "world.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <functional>
#include <sstream>
#include <sys/socket.h>
#include <syslog.h>
#include <openssl/evp.h>
#include <arpa/nameser.h>
#include <resolv.h>

extern "C" {
#include <libloc/libloc.h>
#include <libloc/as.h>
#include <libloc/as-list.h>
#include <libloc/country.h>
#include <libloc/country-list.h>
#include <libloc/database.h>
#include <libloc/network.h>
#include <libloc/network-list.h>
#include <libloc/resolv.h>
#include <libloc/writer.h>
}
#include "keys.inc"
using std::string; using std::vector; using std::map; using std::shared_ptr;

// ---------------------------------------------------------------------------
// Plans as text
static vector<string> split(const string& s, char sep) {
	vector<string> v; string cur;
	for (char c : s) { if (c == sep) { v.push_back(cur); cur.clear(); } else cur += c; }
	v.push_back(cur);
	return v;
}

Op op(const string& line) {
	Op o; std::istringstream in(line); string t; bool f = false;
	while (in >> t) {
		if (t == "!") { f = true; continue; }
		if (!f) { o.a.push_back(t); continue; }
		auto p = split(t, ':');
		if (p.size() != 3) continue;
		for (int k = 0; k < F_KINDS; k++) if (p[0] == fault_names[k]) {
			Fault x; x.kind = (FaultKind)k; x.nth = atol(p[1].c_str()); x.arg = p[2];
			o.faults.push_back(x);
		}
	}
	return o;
}

Plan plan_parse(const string& text) {
	Plan p;
	for (auto& l : split(text, '\n')) {
		if (l.empty() || l[0] == '#') continue;
		Op o = op(l);
		if (!o.a.empty()) p.push_back(o);
	}
	return p;
}

string plan_str(const Plan& p) {
	string s;
	for (auto& o : p) {
		for (size_t i = 0; i < o.a.size(); i++) s += (i ? " " : "") + o.a[i];
		if (!o.faults.empty()) {
			s += " !";
			for (auto& f : o.faults) s += string(" ") + fault_names[f.kind] + ":" + std::to_string(f.nth) + ":" + f.arg;
		}
		s += "\n";
	}
	return s;
}

string str_encode(const string& s) {
	if (s.empty()) return "%";
	string r; char b[8];
	for (unsigned char c : s) {
		if (isalnum(c) || c == '-' || c == '.' || c == ',') r += c;
		else { snprintf(b, sizeof(b), "%%%02x", c); r += b; }
	}
	return r;
}

// Also understands @length,seed for long ones
string str_decode(const string& s) {
	if (s == "%") return "";
	if (s[0] == '@') {
		auto p = split(s.substr(1), ',');
		size_t n = atol(p[0].c_str());
		Rng r(p.size() > 1 ? atol(p[1].c_str()) : 1);
		string o;
		while (o.size() < n) o += "abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ"[r.below(53)];
		return o;
	}
	string r;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == '%' && i + 2 < s.size() + 0 && isxdigit(s[i + 1]) && isxdigit(s[i + 2])) {
			r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2;
		} else r += s[i];
	}
	return r;
}

// ---------------------------------------------------------------------------
struct FileState {
	shared_ptr<SimFile> f;
	shared_ptr<DbModel> model;   // set if the content is a complete database
	size_t damaged_from = 0;
};

struct Image { string masked; vector<std::pair<int, string>> sigs; bool maybe = false; };

static const size_t HDR = 8, SIG1L = HDR + 60, SIG2L = HDR + 62, SIG1 = HDR + 64, SIG2 = SIG1 + 2048, HDR_END = HDR + 4192;

static string masked(string b) {
	for (size_t i = SIG1L; i < SIG1L + 4 && i < b.size(); i++) b[i] = 0;
	for (size_t i = SIG1; i < SIG1 + 4096 && i < b.size(); i++) b[i] = 0;
	return b;
}
static bool slot(const string& b, int i, string* out) {
	if (b.size() < HDR_END) return false;
	size_t lo = i ? SIG2L : SIG1L, so = i ? SIG2 : SIG1;
	size_t n = ((unsigned char)b[lo] << 8) | (unsigned char)b[lo + 1];
	if (!n || n > 2048) return false;
	*out = b.substr(so, n);
	return true;
}

struct WriterH {
	struct loc_writer* w = nullptr;
	int refs = 1;
	DbModel m;
	map<Net, struct loc_network*> held;
	vector<int> keys = {-1, -1};
	bool frozen = false;    // a write has been attempted
};

struct DbH {
	struct loc_database* db = nullptr;
	int refs = 1;
	shared_ptr<DbModel> model;
	string bytes;           // content when it was opened
	FILE* stream = nullptr; // the caller's own stream, if he has kept it open
	vector<Entry> all; bool have_all = false;
};

struct EnumH {
	struct loc_database_enumerator* e = nullptr;
	shared_ptr<DbModel> model;
	shared_ptr<vector<Entry>> all;
	string mode;            // n, f, b, a, c
	Filter f;
	string text; bool has_text = false;
	vector<Entry> got;
	size_t pos = 0;
	bool tainted = false, ended = false;
};

struct ObjH {
	struct loc_network* n = nullptr;
	struct loc_as* as = nullptr;
	struct loc_country* c = nullptr;
	struct loc_network_list* l = nullptr;
	Entry ne; uint32_t asn = 0; string s1, s2, s3;
	int refs = 1;
};

template <class L, class O> struct ListApi;
struct World {
	struct loc_ctx* ctx = nullptr;
	map<string, WriterH> w;
	map<string, FileState> f;
	map<string, DbH> d;
	map<string, EnumH> e;
	map<string, ObjH> o;
	vector<Image> images;
	RunResult* res = nullptr;
	Op* cur = nullptr;
	bool leakcheck = false;
	uint64_t relseed = 1;
	string cur_outcome;

	void checked(size_t n = 1) { res->checks += n; }
	bool have(const string& k, const char* what);

	void run_op(Op& o);
	// operations
	void op_wnew(Op&); void op_wmeta(Op&); void op_was(Op&); void op_wcc(Op&); void op_wnet(Op&); void op_wmod(Op&);
	void op_wbulk(Op&); void op_wwrite(Op&); void op_wfree(Op&);
	void op_dopen(Op&); void op_look(Op&); void op_lookall(Op&); void op_cat(Op&); void op_getas(Op&); void op_getcc(Op&); void op_meta(Op&);
	void op_verify(Op&); void op_dfree(Op&); void op_poke(Op&); void op_full(Op&);
	void op_enew(Op&); void op_enext(Op&); void op_efree(Op&);
	void op_oread(Op&); void op_ofree(Op&); void op_dmg(Op&); void op_crash(Op&); void op_nalg(Op&); void op_lists(Op&);
	template <class L, class O> void list_life(Rng& r, const ListApi<L, O>& A, size_t steps, unsigned space); void op_nlist(Op&); void op_dns(Op&);
	void op_ffree(Op&); void op_objlists(Op&); void op_suse(Op&); void op_sclose(Op&);

	int open_db(FileState& fs, struct loc_database** db, long buf, FILE** keep = nullptr);
	void check_lookup(struct loc_database* db, const DbModel& m, u128 a, bool by_string);
	void check_lookups(struct loc_database* db, const DbModel& m, size_t max, uint64_t seed);
	void check_catalogue(struct loc_database* db, const DbModel& m, bool created);
	void check_enum_all(struct loc_database* db, const DbModel& m, vector<Entry>* out);
	void check_verify(struct loc_database* db, const string& bytes, const DbModel* m, int key);
	int expect_verify(const string& bytes, int key);
	void check_flat(EnumH& e, bool complete);
	void check_bogons(EnumH& e, bool complete);
	void check_as_enum(struct loc_database* db, const DbModel& m);
	void enum_step(EnumH& e, size_t steps);
	void finish_enum(EnumH& e);
	void release_all();
	void error_ok(const char* what, int r);
};

static size_t log_count;
static void log_cb(struct loc_ctx*, void*, int prio, const char* file, int line, const char* fn, const char* fmt, va_list ap) {
	char buf[512];
	vsnprintf(buf, sizeof(buf), fmt, ap);
	log_count++;
	if (verbose) printf("  log[%d]: %s", prio, buf);
}

// An operation reported an error: only acceptable if a fault has been injected into it
void World::error_ok(const char* what, int r) {
	if (!sim_error_fault_fired())
		violation("err", "%s failed (%d, errno %d) although nothing went wrong", what, r, errno);
	res->error_returns++;
	cur_outcome = "error";
}

static Entry read_network(struct loc_network* n) {
	Entry e;
	e.net.first = from_in6(loc_network_get_first_address(n));
	int fam = loc_network_address_family(n);
	e.net.plen = (int)loc_network_prefix(n) + (fam == AF_INET ? 96 : 0);
	const char* cc = loc_network_get_country_code(n);
	e.p.cc = cc ? cc : "";
	e.p.asn = loc_network_get_asn(n);
	for (int i = 0; i < 16; i++) if (loc_network_has_flag(n, 1u << i)) e.p.flags |= 1u << i;
	if ((fam == AF_INET ? 4 : 6) != e.net.family())
		violation("net", "network %s says that its family is %d", e.net.str().c_str(), fam);
	if (from_in6(loc_network_get_last_address(n)) != e.net.last())
		violation("net", "network %s has a wrong last address", e.net.str().c_str());
	return e;
}

static Props parse_props(const string& cc, const string& asn, const string& flags) {
	Props p;
	if (cc != "~") p.cc = cc;
	p.asn = strtoul(asn.c_str(), nullptr, 10);
	p.flags = strtoul(flags.c_str(), nullptr, 10);
	return p;
}

static FILE* key_stream(const char* text, shared_ptr<SimFile>* keep) {
	*keep = sim_file_new();
	(*keep)->set(text);
	return sim_stream(keep->get(), "r", -1);
}

// ---------------------------------------------------------------------------
// Writer
void World::op_wnew(Op& o) {   // wnew W key1 key2
	if (w.count(o.a[1])) return;
	WriterH h;
	shared_ptr<SimFile> k1, k2;
	FILE *f1 = nullptr, *f2 = nullptr;
	h.keys = {atoi(o.a[2].c_str()), atoi(o.a[3].c_str())};
	if (h.keys[0] >= 0) f1 = key_stream(private_keys[h.keys[0]], &k1);
	if (h.keys[1] >= 0) f2 = key_stream(private_keys[h.keys[1]], &k2);
	int r = loc_writer_new(ctx, &h.w, f1, f2);
	if (f1) sim_stream_close(f1);
	if (f2) sim_stream_close(f2);
	event("wnew %d", r);
	if (r) { error_ok("loc_writer_new", r); return; }
	w[o.a[1]] = h;
}

void World::op_wmeta(Op& o) {   // wmeta W v|d|l STR
	if (!w.count(o.a[1])) return;
	WriterH& h = w[o.a[1]];
	string s = str_decode(o.a[3]);
	string& m = o.a[2] == "v" ? h.m.vendor : o.a[2] == "d" ? h.m.description : h.m.license;
	int r = o.a[2] == "v" ? loc_writer_set_vendor(h.w, s.c_str())
		: o.a[2] == "d" ? loc_writer_set_description(h.w, s.c_str()) : loc_writer_set_license(h.w, s.c_str());
	event("wmeta %d", !!r);
	if (r) error_ok("setting metadata", r); else m = s;
	const char* back = o.a[2] == "v" ? loc_writer_get_vendor(h.w)
		: o.a[2] == "d" ? loc_writer_get_description(h.w) : loc_writer_get_license(h.w);
	if (!back || m != back) violation("meta", "writer returned metadata '%.40s' instead of '%.40s'", back ? back : "(null)", m.c_str());
	checked();
}

void World::op_was(Op& o) {   // was W num STR|~
	if (!w.count(o.a[1])) return;
	WriterH& h = w[o.a[1]];
	uint32_t n = strtoul(o.a[2].c_str(), nullptr, 10);
	struct loc_as* as = nullptr;
	int r = loc_writer_add_as(h.w, &as, n);
	event("was %d", !!r);
	if (r) { error_ok("loc_writer_add_as", r); return; }
	bool fresh = h.m.ases.emplace(n, "").second;
	if (o.a[3] != "~") {
		string s = str_decode(o.a[3]);
		r = loc_as_set_name(as, s.c_str());
		if (r) error_ok("loc_as_set_name", r);
		else if (fresh) h.m.ases[n] = s;
	}
	loc_as_unref(as);
}

void World::op_wcc(Op& o) {   // wcc W CODE CONT|~ STR|~
	if (!w.count(o.a[1])) return;
	WriterH& h = w[o.a[1]];
	struct loc_country* c = nullptr;
	int r = loc_writer_add_country(h.w, &c, o.a[2].c_str());
	event("wcc %d", !!r);
	if (r) { error_ok("loc_writer_add_country", r); return; }
	bool fresh = h.m.countries.emplace(o.a[2], DbModel::Country()).second;
	auto& m = h.m.countries[o.a[2]];
	if (o.a[3] != "~") {
		r = loc_country_set_continent_code(c, o.a[3].c_str());
		if (r) error_ok("loc_country_set_continent_code", r);
		else if (fresh) m.cont = o.a[3];
	}
	if (o.a[4] != "~") {
		string s = str_decode(o.a[4]);
		r = loc_country_set_name(c, s.c_str());
		if (r) error_ok("loc_country_set_name", r);
		else if (fresh) m.name = s;
	}
	loc_country_unref(c);
}

static void set_props(struct loc_network* n, const Props& p) {
	int r = loc_network_set_country_code(n, p.cc.c_str());
	if (r) violation("err", "loc_network_set_country_code(%s) failed", p.cc.c_str());
	loc_network_set_asn(n, p.asn);
	if (p.flags) loc_network_set_flag(n, p.flags);
}

void World::op_wnet(Op& o) {   // wnet W NET CC|~ ASN FLAGS [h]
	if (!w.count(o.a[1])) return;
	WriterH& h = w[o.a[1]];
	Net net;
	if (!parse_net(o.a[2], &net)) return;
	// Only new networks that do not enclose any others may be added once the tree has been optimised
	if (h.frozen) return;
	Props p = parse_props(o.a[3], o.a[4], o.a[5]);
	struct loc_network* n = nullptr;
	int r = loc_writer_add_network(h.w, &n, o.a[2].c_str());
	event("wnet %d", !!r);
	bool exists = h.m.nets.nets.count(net);
	if (r) {
		if (!exists) error_ok("loc_writer_add_network", r);
		return;
	}
	if (exists) violation("dup", "network %s could be added twice", net.str().c_str());
	set_props(n, p);
	h.m.nets.add(net, p);
	if (o.a.size() > 6 && o.a[6] == "h") h.held[net] = n;
	else loc_network_unref(n);
}

void World::op_wmod(Op& o) {   // wmod W NET CC ASN FLAGS - changes a network which is part of the writer already
	if (!w.count(o.a[1])) return;
	WriterH& h = w[o.a[1]];
	Net net;
	if (h.frozen || !parse_net(o.a[2], &net) || !h.held.count(net)) return;
	Props p = parse_props(o.a[3], o.a[4], o.a[5]);
	p.flags |= h.m.nets.nets[net].flags;
	set_props(h.held[net], p);
	h.m.nets.nets[net] = p;
	event("wmod");
}

// Many networks at once: wbulk W kind seed count
void World::op_wbulk(Op& o) {
	if (!w.count(o.a[1])) return;
	WriterH& h = w[o.a[1]];
	if (h.frozen) return;
	const string& kind = o.a[2];
	Rng r(strtoull(o.a[3].c_str(), nullptr, 10));
	size_t n = atol(o.a[4].c_str());
	h.m.big = true;
	static const char* ccs[] = {"DE", "FR", "US", "GB", "JP", ""};
	if (kind == "as") {
		for (size_t i = 0; i < n; i++) {
			uint32_t num = 1 + r.below(1u << 20);
			string name = "Network Operator " + std::to_string(r.below(n * 2)) + string(r.below(40), 'x');
			struct loc_as* as = nullptr;
			if (h.m.ases.count(num)) continue;
			int e = loc_writer_add_as(h.w, &as, num);
			if (e) { error_ok("loc_writer_add_as", e); return; }
			h.m.ases[num] = "";
			if (loc_as_set_name(as, name.c_str()) == 0) h.m.ases[num] = name;
			else if (!sim_error_fault_fired()) violation("err", "loc_as_set_name failed");
			loc_as_unref(as);
		}
		event("wbulk as");
		return;
	}
	u128 base = kind == "v6" ? (u128)0x2a00 << 112 : V4BASE | (0x0a000000u);
	for (size_t i = 0; i < n; i++) {
		Net net; Props p;
		if (kind == "v4seq") { net.plen = 96 + 24; net.first = V4BASE | (0x0a000000u + ((uint32_t)i << 8)); }
		else if (kind == "v6") { net.plen = 32 + r.below(33); net.first = base | ((u128)r.next() << 64); }
		else if (kind == "v6deep") { net.plen = 1 + r.below(128); net.first = ((u128)0x20010db8 << 96) | (u128)r.below(256); }
		else { net.plen = 96 + 12 + r.below(21); net.first = base | r.below(1 << 24); }
		net.first &= mask_of(net.plen);
		p.cc = ccs[r.below(6)];
		p.asn = r.below(4);
		p.flags = r.chance(10) ? 1u << r.below(4) : 0;
		if (kind == "v4seq") { p.cc = ccs[(i >> 4) % 3]; p.asn = (i >> 5) % 2; p.flags = 0; }
		if (h.m.nets.nets.count(net)) continue;
		struct loc_network* x = nullptr;
		int e = loc_writer_add_network(h.w, &x, net.str().c_str());
		if (e) { error_ok("loc_writer_add_network", e); return; }
		set_props(x, p);
		loc_network_unref(x);
		h.m.nets.add(net, p);
	}
	event("wbulk %zu", n);
}

void World::op_wwrite(Op& o) {   // wwrite W F bufsize
	if (!w.count(o.a[1])) return;
	WriterH& h = w[o.a[1]];
	FileState fs;
	fs.f = sim_file_new();
	SimFile* sf = fs.f.get();
	sf->logging = true;
	for (auto& x : o.faults) if (x.kind == F_FULL) sf->capacity = x.nth;
	FILE* s = sim_stream(sf, "w+", atol(o.a[3].c_str()));
	h.frozen = true;
	for (auto& x : h.held) loc_network_unref(x.second);
	h.held.clear();
	auto secs = [](int64_t ns) { return ns / 1000000000ll - (ns < 0 && ns % 1000000000ll ? 1 : 0); };
	int64_t t0 = secs(sim_clock_ns());
	int r = loc_writer_write(h.w, s, LOC_DATABASE_VERSION_UNSET);
	int64_t t1 = secs(sim_clock_ns());
	int c = sim_stream_close(s);
	sf->logging = false;
	sf->capacity = -1;
	event("wwrite %d %d", !!r, c);
	if (r || c) {
		error_ok("writing the database", r ? r : c);
	} else {
		auto m = std::make_shared<DbModel>(h.m);
		m->created_lo = t0; m->created_hi = t1;
		m->keys = h.keys;
		fs.model = m;
	}
	{
		string b = sf->bytes();
		event("wrote %zu bytes", b.size());
		Image im;
		im.masked = masked(b);
		for (int i = 0; i < 2; i++) {
			string sg;
			bool got = slot(b, i, &sg);
			if (h.keys[i] >= 0) im.sigs.push_back({h.keys[i], got ? sg : string()});
		}
		im.maybe = r || c;      // might be complete, or not
		images.push_back(im);
	}
	f[o.a[2]] = fs;
}

void World::op_wfree(Op& o) {
	auto i = w.find(o.a[1]);
	if (i == w.end()) return;
	for (auto& x : i->second.held) loc_network_unref(x.second);
	loc_writer_unref(i->second.w);
	w.erase(i);
	event("wfree");
}

// ---------------------------------------------------------------------------
// Databases
int World::open_db(FileState& fs, struct loc_database** db, long buf, FILE** keep) {
	FILE* s = sim_stream(fs.f.get(), "r", buf);
	int r = loc_database_new(ctx, db, s);
	if (keep && !r) *keep = s;
	else sim_stream_close(s);
	return r;
}

void World::op_dopen(Op& o) {   // dopen D F bufsize [keep]
	if (d.count(o.a[1]) || !f.count(o.a[2])) return;
	FileState& fs = f[o.a[2]];
	DbH h;
	int r = open_db(fs, &h.db, atol(o.a[3].c_str()), o.a.size() > 4 ? &h.stream : nullptr);
	event("dopen %d", !!r);
	if (r) {
		if (fs.model) error_ok("opening the database", r);
		cur_outcome = "error";
		return;
	}
	h.model = fs.model;
	h.bytes = fs.f->bytes();
	d[o.a[1]] = h;
}

void World::op_ffree(Op& o) { f.erase(o.a[1]); event("ffree"); }

// The caller carries on using his stream: suse D offset length, sclose D
void World::op_suse(Op& o) {
	auto i = d.find(o.a[1]);
	if (i == d.end() || !i->second.stream) return;
	DbH& h = i->second;
	size_t off = strtoul(o.a[2].c_str(), nullptr, 10) % (h.bytes.size() + 1), len = strtoul(o.a[3].c_str(), nullptr, 10);
	string b(len, 0);
	fseek(h.stream, off, SEEK_SET);
	size_t n = fread(&b[0], 1, len, h.stream);
	event("suse %zu", n);
}

void World::op_sclose(Op& o) {
	auto i = d.find(o.a[1]);
	if (i == d.end() || !i->second.stream) return;
	sim_stream_close(i->second.stream);
	i->second.stream = nullptr;
	event("sclose");
}

void World::op_dfree(Op& o) {
	auto i = d.find(o.a[1]);
	if (i == d.end()) return;
	loc_database_unref(i->second.db);
	event("dfree");
	if (--i->second.refs <= 0) {
		if (i->second.stream) sim_stream_close(i->second.stream);
		d.erase(i);
	}
}

void World::check_lookup(struct loc_database* db, const DbModel& m, u128 a, bool by_string) {
	struct loc_network* n = nullptr;
	struct in6_addr in = to_in6(a);
	int r = by_string ? loc_database_lookup_from_string(db, addr_str(a).c_str(), &n) : loc_database_lookup(db, &in, &n);
	if (r) {
		event("look error");
		if (n) violation("look", "lookup of %s failed, but returned a network", addr_str(a).c_str());
		error_ok(("lookup of " + addr_str(a)).c_str(), r);
		return;
	}
	Entry want;
	bool found = m.nets.lpm(a, &want);
	if (!n) {
		if (found) violation("look", "lookup of %s found nothing, expected %s %s", addr_str(a).c_str(), want.net.str().c_str(), want.p.str().c_str());
		checked();
		return;
	}
	Entry got = read_network(n);
	loc_network_unref(n);
	if (!found) violation("look", "lookup of %s found %s %s, but there is no such network", addr_str(a).c_str(), got.net.str().c_str(), got.p.str().c_str());
	if (!got.net.contains(a) || (is_v4(a) ? 4 : 6) != got.net.family())
		violation("look", "lookup of %s returned %s which does not contain it", addr_str(a).c_str(), got.net.str().c_str());
	if (got.p != want.p)
		violation("look", "lookup of %s returned %s %s, expected the properties of %s %s", addr_str(a).c_str(),
			got.net.str().c_str(), got.p.str().c_str(), want.net.str().c_str(), want.p.str().c_str());
	checked();
}

static void add_points(std::set<u128>* s, const Net& n) {
	u128 a = n.first, b = n.last();
	int v4 = n.family() == 4;
	s->insert(a); s->insert(b);
	if (a != 0 && !(v4 && a == V4BASE)) s->insert(a - 1);
	if (b != ~(u128)0 && !(v4 && b == (V4BASE | 0xffffffffu))) s->insert(b + 1);
}

static vector<u128> points_of(const DbModel& m, size_t max, uint64_t seed) {
	std::set<u128> s;
	for (auto& i : m.nets.nets) add_points(&s, i.first);
	s.insert(0); s.insert(1); s.insert(~(u128)0); s.insert(V4BASE); s.insert(V4BASE | 0xffffffffu); s.insert(V4BASE - 1); s.insert((V4BASE | 0xffffffffu) + 1);
	vector<u128> v(s.begin(), s.end());
	Rng r(seed);
	auto es = m.nets.sorted();
	for (int i = 0; i < 8; i++) {
		v.push_back(((u128)r.next() << 64) | r.next());
		v.push_back(V4BASE | (uint32_t)r.next());
		if (!es.empty()) { auto& e = es[r.below(es.size())]; v.push_back(e.net.first | ((((u128)r.next() << 64) | r.next()) & ~mask_of(e.net.plen))); }
	}
	if (v.size() > max) {
		for (size_t i = 0; i < max; i++) std::swap(v[i], v[i + r.below(v.size() - i)]);
		v.resize(max);
	}
	return v;
}

void World::check_lookups(struct loc_database* db, const DbModel& m, size_t max, uint64_t seed) {
	size_t k = 0;
	for (u128 a : points_of(m, max, seed)) check_lookup(db, m, a, (k++ & 1));
	event("lookups %zu", k);
}

void World::op_look(Op& o) {   // look D ADDR [keep O]
	if (!d.count(o.a[1])) return;
	DbH& h = d[o.a[1]];
	u128 a;
	if (!parse_addr(o.a[2], &a)) return;
	if (o.a.size() > 4 && o.a[3] == "keep") {
		if (this->o.count(o.a[4])) return;
		struct loc_network* n = nullptr;
		int r = loc_database_lookup_from_string(h.db, o.a[2].c_str(), &n);
		event("look %d %d", !!r, !!n);
		if (r) { if (h.model) error_ok("lookup", r); return; }
		if (!n) return;
		ObjH x; x.n = n; x.ne = read_network(n);
		this->o[o.a[4]] = x;
		return;
	}
	if (h.model) check_lookup(h.db, *h.model, a, true);
}

void World::op_lookall(Op& o) {   // lookall D max seed
	if (!d.count(o.a[1]) || !d[o.a[1]].model) return;
	DbH& h = d[o.a[1]];
	check_lookups(h.db, *h.model, atol(o.a[2].c_str()), strtoull(o.a[3].c_str(), nullptr, 10));
}

static string cstr(const char* s) { return s ? s : ""; }

void World::check_catalogue(struct loc_database* db, const DbModel& m, bool created) {
	const char* v = loc_database_get_vendor(db);
	const char* de = loc_database_get_description(db);
	const char* li = loc_database_get_license(db);
	if (!v || m.vendor != v) violation("cat", "vendor is '%.60s', expected '%.60s'", cstr(v).c_str(), m.vendor.c_str());
	if (!de || m.description != de) violation("cat", "description is '%.60s', expected '%.60s'", cstr(de).c_str(), m.description.c_str());
	if (!li || m.license != li) violation("cat", "license is '%.60s', expected '%.60s'", cstr(li).c_str(), m.license.c_str());
	int64_t t = loc_database_created_at(db);
	if (created && (t < m.created_lo || t > m.created_hi))
		violation("cat", "created at %lld, expected %lld..%lld", (long long)t, (long long)m.created_lo, (long long)m.created_hi);
	checked(4);
	if (loc_database_count_as(db) != m.ases.size())
		violation("cat", "database has %zu ASes, expected %zu", loc_database_count_as(db), m.ases.size());
	// ASes and their missing neighbours
	std::set<uint32_t> nums = {0, 1, 0xffffffffu, 0x80000000u, 0x7fffffffu};
	size_t k = 0, every = m.ases.size() / 400 + 1;
	for (auto& i : m.ases) {
		if (k++ % every) continue;
		nums.insert(i.first); nums.insert(i.first - 1); nums.insert(i.first + 1);
	}
	for (uint32_t n : nums) {
		struct loc_as* as = nullptr;
		errno = 0;
		int r = loc_database_get_as(db, &as, n);
		int e = errno;
		auto i = m.ases.find(n);
		if (r) {
			if (as) violation("cat", "AS%u failed, but an object was returned", n);
			// 'Not found' is reported as ENOENT, everything else is an error
			if (i != m.ases.end() || e != ENOENT) { error_ok(("getting AS" + std::to_string(n)).c_str(), r); continue; }
			checked();
			continue;
		}
		if (i == m.ases.end()) {
			if (as) violation("cat", "AS%u was found, but has never been added", n);
			continue;
		}
		if (!as) violation("cat", "AS%u was not found", n);
		uint32_t gn = loc_as_get_number(as);
		string name = cstr(loc_as_get_name(as));
		loc_as_unref(as);
		if (gn != n || name != i->second)
			violation("cat", "AS%u came back as AS%u '%.60s', expected '%.60s'", n, gn, name.c_str(), i->second.c_str());
		checked();
	}
	// Countries
	std::set<string> codes = {"AA", "WW", "WZ", "ZZ", "MM"};
	for (auto& i : m.countries) {
		codes.insert(i.first);
		string s = i.first;
		if (s[1] > 'A') { s[1]--; codes.insert(s); s[1]++; }
		if (s[1] < 'Z') { s[1]++; codes.insert(s); s[1]--; }
		if (s[0] < 'W') { s[0]++; codes.insert(s); }
	}
	for (auto& c : codes) {
		struct loc_country* x = nullptr;
		int r = loc_database_get_country(db, &x, c.c_str());
		auto i = m.countries.find(c);
		if (r) {
			if (x) violation("cat", "country %s failed, but an object was returned", c.c_str());
			// A country which does not exist is not an error
			error_ok(("getting country " + c).c_str(), r);
			continue;
		}
		if (i == m.countries.end()) {
			if (x) violation("cat", "country %s was found, but has never been added", c.c_str());
			checked();
			continue;
		}
		if (!x) violation("cat", "country %s was not found", c.c_str());
		string code = cstr(loc_country_get_code(x)), cont = cstr(loc_country_get_continent_code(x)), name = cstr(loc_country_get_name(x));
		loc_country_unref(x);
		if (code != c || cont != i->second.cont || name != i->second.name)
			violation("cat", "country %s came back as %s/%s/'%.40s', expected %s/'%.40s'", c.c_str(), code.c_str(), cont.c_str(), name.c_str(),
				i->second.cont.c_str(), i->second.name.c_str());
		checked();
	}
	event("cat %zu %zu", m.ases.size(), m.countries.size());
}

void World::op_cat(Op& o) {
	if (!d.count(o.a[1]) || !d[o.a[1]].model) return;
	check_catalogue(d[o.a[1]].db, *d[o.a[1]].model, true);
}

void World::op_getas(Op& o) {   // getas D num keep O
	if (!d.count(o.a[1])) return;
	struct loc_as* as = nullptr;
	uint32_t n = strtoul(o.a[2].c_str(), nullptr, 10);
	errno = 0;
	int r = loc_database_get_as(d[o.a[1]].db, &as, n);
	int e = errno;
	event("getas %d", !!r);
	auto& m = d[o.a[1]].model;
	if (r) { if (m && (m->ases.count(n) || e != ENOENT)) error_ok("getting an AS", r); return; }
	if (!as) return;
	if (this->o.count(o.a[4])) { loc_as_unref(as); return; }
	ObjH x; x.as = as; x.asn = n;
	x.s1 = m ? m->ases[n] : cstr(loc_as_get_name(as));
	this->o[o.a[4]] = x;
}

void World::op_getcc(Op& o) {   // getcc D CC keep O
	if (!d.count(o.a[1])) return;
	struct loc_country* c = nullptr;
	int r = loc_database_get_country(d[o.a[1]].db, &c, o.a[2].c_str());
	event("getcc %d", !!r);
	auto& m = d[o.a[1]].model;
	if (r) { if (m && loc_country_code_is_valid(o.a[2].c_str())) error_ok("getting a country", r); return; }
	if (!c) return;
	if (this->o.count(o.a[4])) { loc_country_unref(c); return; }
	ObjH x; x.c = c;
	x.s1 = o.a[2]; x.s2 = m ? m->countries[o.a[2]].cont : cstr(loc_country_get_continent_code(c));
	x.s3 = m ? m->countries[o.a[2]].name : cstr(loc_country_get_name(c));
	this->o[o.a[4]] = x;
}

void World::op_meta(Op& o) {
	if (!d.count(o.a[1]) || !d[o.a[1]].model) return;
	DbH& h = d[o.a[1]];
	if (h.model->vendor != cstr(loc_database_get_vendor(h.db)) || h.model->description != cstr(loc_database_get_description(h.db))
			|| h.model->license != cstr(loc_database_get_license(h.db)))
		violation("cat", "metadata has changed");
	checked(3);
}

// Objects which are kept
void World::op_oread(Op& o) {
	auto i = this->o.find(o.a[1]);
	if (i == this->o.end()) return;
	ObjH& x = i->second;
	if (x.n) {
		Entry e = read_network(x.n);
		if (!(e.net == x.ne.net) || e.p != x.ne.p) violation("obj", "network %s has changed into %s", x.ne.net.str().c_str(), e.net.str().c_str());
		const char* s = loc_network_str(x.n);
		if (!s || x.ne.net.str() != s) violation("obj", "network %s is being printed as %s", x.ne.net.str().c_str(), s ? s : "(null)");
		string f1 = cstr(loc_network_format_first_address(x.n));
		string l1 = cstr(loc_network_format_last_address(x.n));
		if (f1 != addr_str(x.ne.net.first) || l1 != addr_str(x.ne.net.last()))
			violation("obj", "network %s goes from %s to %s", s, f1.c_str(), l1.c_str());
	}
	if (x.as && (loc_as_get_number(x.as) != x.asn || cstr(loc_as_get_name(x.as)) != x.s1)) violation("obj", "AS%u has changed", x.asn);
	if (x.c && (cstr(loc_country_get_code(x.c)) != x.s1 || cstr(loc_country_get_continent_code(x.c)) != x.s2 || cstr(loc_country_get_name(x.c)) != x.s3))
		violation("obj", "country %s has changed", x.s1.c_str());
	event("oread");
	checked();
}

void World::op_ofree(Op& o) {
	auto i = this->o.find(o.a[1]);
	if (i == this->o.end()) return;
	ObjH& x = i->second;
	if (x.n) loc_network_unref(x.n);
	if (x.as) loc_as_unref(x.as);
	if (x.c) loc_country_unref(x.c);
	if (x.l) loc_network_list_unref(x.l);
	event("ofree");
	if (--x.refs <= 0) this->o.erase(i);
}

// ---------------------------------------------------------------------------
// Verification
int World::expect_verify(const string& bytes, int key) {   // 0: no, 1: yes, 2: either
	int result = 0;
	string mk = masked(bytes);
	for (auto& im : images) {
		if (im.masked != mk) continue;
		for (int i = 0; i < 2; i++) {
			string s;
			if (!slot(bytes, i, &s)) continue;
			for (auto& sg : im.sigs) if (sg.first == key && sg.second == s) { if (!im.maybe) return 1; result = 2; }
		}
	}
	return result;
}

void World::check_verify(struct loc_database* db, const string& bytes, const DbModel* m, int key) {
	shared_ptr<SimFile> kf;
	FILE* k = key_stream(public_keys[key], &kf);
	int r = loc_database_verify(db, k);
	sim_stream_close(k);
	int expect = expect_verify(bytes, key);
	event("verify %d %d", !!r, expect);
	if (r == 0 && !expect)
		violation("verify", "the signature was accepted with key %d although the file is not what was signed with that key", key);
	if (r && expect == 1 && !sim_error_fault_fired())
		violation("verify", "an intact and correctly signed file was rejected with key %d (%d)", key, r);
	if (r && expect) { res->error_returns++; cur_outcome = "error"; }
	checked();
}

void World::op_verify(Op& o) {   // verify D key
	if (!d.count(o.a[1])) return;
	DbH& h = d[o.a[1]];
	check_verify(h.db, h.bytes, h.model.get(), atoi(o.a[2].c_str()));
}

// ---------------------------------------------------------------------------
// Enumerators
static int make_enumerator(struct loc_ctx* ctx, struct loc_database* db, EnumH* e, World* w) {
	enum loc_database_enumerator_mode mode = LOC_DB_ENUMERATE_NETWORKS;
	int flags = 0;
	if (e->mode == "f") flags = LOC_DB_ENUMERATOR_FLAGS_FLATTEN;
	if (e->mode == "b") mode = LOC_DB_ENUMERATE_BOGONS;
	if (e->mode == "a") mode = LOC_DB_ENUMERATE_ASES;
	if (e->mode == "c") mode = LOC_DB_ENUMERATE_COUNTRIES;
	int r = loc_database_enumerator_new(&e->e, db, mode, flags);
	if (r) return r;
	struct loc_country_list* cl = nullptr;
	struct loc_as_list* al = nullptr;
	if (e->f.family) loc_database_enumerator_set_family(e->e, e->f.family == 4 ? AF_INET : AF_INET6);
	if (!e->f.countries.empty()) {
		r = loc_country_list_new(ctx, &cl);
		if (r) goto ERROR;
		for (auto& c : e->f.countries) {
			struct loc_country* x = nullptr;
			r = loc_country_new(ctx, &x, c.c_str());
			if (r) goto ERROR;
			r = loc_country_list_append(cl, x);
			loc_country_unref(x);
			if (r) goto ERROR;
		}
		r = loc_database_enumerator_set_countries(e->e, cl);
		if (r) goto ERROR;
		struct loc_country_list* back = loc_database_enumerator_get_countries(e->e);
		if (back) loc_country_list_unref(back);
	}
	if (!e->f.asns.empty()) {
		r = loc_as_list_new(ctx, &al);
		if (r) goto ERROR;
		for (auto n : e->f.asns) {
			struct loc_as* x = nullptr;
			r = loc_as_new(ctx, &x, n);
			if (r) goto ERROR;
			r = loc_as_list_append(al, x);
			loc_as_unref(x);
			if (r) goto ERROR;
		}
		r = loc_database_enumerator_set_asns(e->e, al);
		if (r) goto ERROR;
		struct loc_as_list* back = loc_database_enumerator_get_asns(e->e);
		if (back) loc_as_list_unref(back);
	}
	for (int i = 0; i < 4; i++) if (e->f.flags & (1u << i)) loc_database_enumerator_set_flag(e->e, (enum loc_network_flags)(1u << i));
	if (e->has_text) {
		r = loc_database_enumerator_set_string(e->e, e->text.c_str());
		if (r) goto ERROR;
	}
	r = 0;
ERROR:
	if (cl) loc_country_list_unref(cl);
	if (al) loc_as_list_unref(al);
	if (r) { loc_database_enumerator_unref(e->e); e->e = nullptr; }
	return r;
}

// Everything, in one go: this is what all other enumerations are being compared with
void World::check_enum_all(struct loc_database* db, const DbModel& m, vector<Entry>* out) {
	struct loc_database_enumerator* e = nullptr;
	int r = loc_database_enumerator_new(&e, db, LOC_DB_ENUMERATE_NETWORKS, 0);
	if (r) { error_ok("creating an enumerator", r); return; }
	NetModel nm;
	out->clear();
	while (1) {
		struct loc_network* n = nullptr;
		r = loc_database_enumerator_next_network(e, &n);
		if (r) { loc_database_enumerator_unref(e); error_ok("enumerating networks", r); return; }
		if (!n) break;
		Entry x = read_network(n);
		loc_network_unref(n);
		if (!out->empty() && !(out->back().net < x.net))
			violation("enum", "%s was enumerated after %s", x.net.str().c_str(), out->back().net.str().c_str());
		if (!m.nets.legit(x.net, x.p))
			violation("enum", "%s %s was enumerated, but cannot be derived from what was written", x.net.str().c_str(), x.p.str().c_str());
		nm.add(x.net, x.p);
		out->push_back(x);
		if (out->size() > m.nets.nets.size() * 2 + 16) violation("enum", "enumeration does not end");
	}
	loc_database_enumerator_unref(e);
	// Nothing may be missing
	for (u128 a : points_of(m, m.big ? 4000 : 100000, 5)) {
		Entry x, y;
		bool fx = nm.lpm(a, &x), fy = m.nets.lpm(a, &y);
		if (fx != fy || (fx && x.p != y.p))
			violation("enum", "enumerated networks do not describe %s correctly: got %s, expected %s", addr_str(a).c_str(),
				fx ? (x.net.str() + " " + x.p.str()).c_str() : "nothing", fy ? (y.net.str() + " " + y.p.str()).c_str() : "nothing");
		checked();
	}
	event("enumall %zu", out->size());
}

// Flattening and searching for bogons is only specified outside of the range that holds IPv4
static bool around64(const NetModel& m) {
	for (auto& i : m.nets) {
		if (i.first.family() == 4) continue;
		if ((i.first.first >> 64) == 0) return true;      // starts in ::/64, hence inside or enclosing
	}
	return false;
}

void World::op_enew(Op& o) {   // enew E D mode family countries asns flags text
	if (e.count(o.a[1]) || !d.count(o.a[2])) return;
	DbH& h = d[o.a[2]];
	EnumH x;
	x.mode = o.a[3];
	x.f.family = atoi(o.a[4].c_str());
	if (o.a[5] != "~") x.f.countries = split(o.a[5], ',');
	if (o.a[6] != "~") for (auto& s : split(o.a[6], ',')) x.f.asns.push_back(strtoul(s.c_str(), nullptr, 10));
	x.f.flags = strtoul(o.a[7].c_str(), nullptr, 10);
	if (o.a[8] != "~") { x.has_text = true; x.text = str_decode(o.a[8]); }
	x.model = h.model;
	if (x.model && (x.mode == "f" || x.mode == "b") && around64(x.model->nets)) x.model = nullptr;
	if (x.mode == "b" && x.f.any()) x.model = nullptr;
	int r = make_enumerator(ctx, h.db, &x, this);
	event("enew %d", !!r);
	if (r) { if (x.model) error_ok("creating an enumerator", r); cur_outcome = "error"; return; }
	if (x.model && x.mode == "n") {
		if (!h.have_all) {
			// without any faults
			sim_op_end();
			sim_op_begin(nullptr);
			check_enum_all(h.db, *h.model, &h.all);
			h.have_all = true;
		}
		x.all = std::make_shared<vector<Entry>>();
		for (auto& en : h.all) if (x.f.match(en.net.family(), en.p)) x.all->push_back(en);
	}
	e[o.a[1]] = x;
}

static string lower(string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }

void World::enum_step(EnumH& h, size_t steps) {
	while (steps-- && !h.ended) {
		if (h.mode == "a") {
			struct loc_as* as = nullptr;
			int r = loc_database_enumerator_next_as(h.e, &as);
			if (r) { if (h.model) error_ok("enumerating ASes", r); h.tainted = true; cur_outcome = "error"; event("next error"); return; }
			if (!as) { h.ended = true; }
			if (h.model && !h.tainted) {
				// the next one that matches
				size_t k = 0; const std::pair<const uint32_t, string>* want = nullptr;
				for (auto& i : h.model->ases) {
					if (h.has_text && lower(i.second).find(lower(h.text)) == string::npos) continue;
					if (k++ == h.pos) { want = &i; break; }
				}
				if (!as && want) violation("enum", "AS%u is missing in the enumeration", want->first);
				if (as && !want) violation("enum", "AS%u was enumerated unexpectedly", loc_as_get_number(as));
				if (as && (loc_as_get_number(as) != want->first || cstr(loc_as_get_name(as)) != want->second))
					violation("enum", "enumerated AS%u instead of AS%u", loc_as_get_number(as), want->first);
				checked();
			}
			if (as) loc_as_unref(as);
		} else if (h.mode == "c") {
			struct loc_country* c = nullptr;
			int r = loc_database_enumerator_next_country(h.e, &c);
			if (r) { if (h.model) error_ok("enumerating countries", r); h.tainted = true; cur_outcome = "error"; event("next error"); return; }
			if (!c) h.ended = true;
			if (h.model && !h.tainted) {
				auto i = h.model->countries.begin();
				size_t k = 0;
				while (k < h.pos && i != h.model->countries.end()) { ++i; ++k; }
				if (!c && i != h.model->countries.end()) violation("enum", "country %s is missing in the enumeration", i->first.c_str());
				if (c && i == h.model->countries.end()) violation("enum", "country %s was enumerated unexpectedly", loc_country_get_code(c));
				if (c && (i->first != loc_country_get_code(c) || i->second.name != cstr(loc_country_get_name(c))))
					violation("enum", "enumerated country %s instead of %s", loc_country_get_code(c), i->first.c_str());
				checked();
			}
			if (c) loc_country_unref(c);
		} else {
			struct loc_network* n = nullptr;
			int r = loc_database_enumerator_next_network(h.e, &n);
			if (r) {
				if (h.model) error_ok("enumerating networks", r);
				h.tainted = true; cur_outcome = "error"; event("next error");
				return;
			}
			if (!n) h.ended = true;
			if (n && h.model) {
				Entry x = read_network(n);
				loc_network_unref(n);
				if (!h.tainted) {
					h.got.push_back(x);
					if (h.mode == "n") {
						if (h.pos >= h.all->size()) violation("enum", "%s was enumerated unexpectedly", x.net.str().c_str());
						Entry& want = (*h.all)[h.pos];
						if (!(want.net == x.net) || want.p != x.p)
							violation("enum", "enumerated %s %s instead of %s %s", x.net.str().c_str(), x.p.str().c_str(), want.net.str().c_str(), want.p.str().c_str());
						checked();
					}
					if (h.got.size() > 400000) violation("enum", "enumeration does not end");
				}
			} else if (n) {
				// touch everything there is
				loc_network_str(n); loc_network_get_country_code(n); loc_network_get_asn(n);
				loc_network_unref(n);
			} else if (h.model && !h.tainted) {
				if (h.mode == "n" && h.pos < h.all->size())
					violation("enum", "%s is missing in the enumeration", (*h.all)[h.pos].net.str().c_str());
				if (h.mode == "f") check_flat(h, true);
				if (h.mode == "b") check_bogons(h, true);
			}
		}
		h.pos++;
	}
}

void World::op_enext(Op& o) {   // enext E steps
	auto i = e.find(o.a[1]);
	if (i == e.end()) return;
	enum_step(i->second, atol(o.a[2].c_str()));
	event("enext %zu %d", i->second.pos, i->second.ended);
}

void World::finish_enum(EnumH& h) {
	if (h.model && !h.tainted && !h.ended) {
		if (h.mode == "f") check_flat(h, false);
		if (h.mode == "b") check_bogons(h, false);
	}
}

void World::op_efree(Op& o) {
	auto i = e.find(o.a[1]);
	if (i == e.end()) return;
	finish_enum(i->second);
	loc_database_enumerator_unref(i->second.e);
	e.erase(i);
	event("efree");
}

// Cuts a family's address space at all given bounds and calls back for each piece
static void pieces(const std::set<u128>& starts, int fam, const std::function<void(u128)>& cb) {
	for (u128 a : starts) {
		if ((fam == 4) != is_v4(a)) continue;
		cb(a);
	}
}

static void add_starts(std::set<u128>* s, const Net& n) {
	s->insert(n.first);
	if (n.last() != ~(u128)0) s->insert(n.last() + 1);
}

// Sorted, non-overlapping networks: which one contains the address?
static const Entry* find_in(const vector<Entry>& v, u128 a) {
	size_t lo = 0, hi = v.size();
	while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].net.first <= a) lo = m + 1; else hi = m; }
	if (!lo) return nullptr;
	const Entry* e = &v[lo - 1];
	return e->net.contains(a) ? e : nullptr;
}

static void disjoint(vector<Entry>& v, const char* what) {
	std::sort(v.begin(), v.end(), [](const Entry& a, const Entry& b) { return a.net < b.net; });
	for (size_t i = 1; i < v.size(); i++)
		if (v[i - 1].net.last() >= v[i].net.first)
			violation(what, "%s overlaps with %s", v[i - 1].net.str().c_str(), v[i].net.str().c_str());
}

void World::check_flat(EnumH& h, bool complete) {
	const NetModel& m = h.model->nets;
	for (int fam : {4, 6}) {
		vector<Entry> v;
		for (auto& x : h.got) if (x.net.family() == fam) v.push_back(x);
		disjoint(v, "flat");
		std::set<u128> st;
		for (auto& i : m.nets) if (i.first.family() == fam) add_starts(&st, i.first);
		for (auto& x : v) add_starts(&st, x.net);
		st.insert(fam == 4 ? V4BASE : 0);
		pieces(st, fam, [&](u128 a) {
			Entry want;
			bool w = m.lpm(a, &want) && h.f.match(fam, want.p);
			const Entry* g = find_in(v, a);
			if (g && !w) violation("flat", "%s is part of %s, but does not match", addr_str(a).c_str(), g->net.str().c_str());
			if (g && g->p != want.p) violation("flat", "%s is part of %s %s, but belongs to %s %s", addr_str(a).c_str(), g->net.str().c_str(),
				g->p.str().c_str(), want.net.str().c_str(), want.p.str().c_str());
			if (!g && w && complete) violation("flat", "%s (%s %s) is missing", addr_str(a).c_str(), want.net.str().c_str(), want.p.str().c_str());
			checked();
		});
	}
	event("flat %zu", h.got.size());
}

void World::check_bogons(EnumH& h, bool complete) {
	const NetModel& m = h.model->nets;
	for (int fam : {4, 6}) {
		vector<Entry> v;
		for (auto& x : h.got) if (x.net.family() == fam) v.push_back(x);
		if (h.f.family && h.f.family != fam) {
			if (!v.empty()) violation("bogon", "%s is of the wrong family", v[0].net.str().c_str());
			continue;
		}
		bool any = false;
		for (auto& i : m.nets) if (i.first.family() == fam && !i.second.cc.empty()) any = true;
		if (!any) continue;
		disjoint(v, "bogon");
		std::set<u128> st;
		for (auto& i : m.nets) if (i.first.family() == fam) add_starts(&st, i.first);
		for (auto& x : v) add_starts(&st, x.net);
		st.insert(fam == 4 ? V4BASE : 0);
		if (fam == 6) st.insert((V4BASE | 0xffffffffu) + 1);
		pieces(st, fam, [&](u128 a) {
			bool w = !m.covered(a);
			const Entry* g = find_in(v, a);
			if (g && !w) violation("bogon", "%s is part of %s, but is no bogon", addr_str(a).c_str(), g->net.str().c_str());
			if (!g && w && complete) violation("bogon", "%s is a bogon, but is missing", addr_str(a).c_str());
			checked();
		});
	}
	event("bogons %zu", h.got.size());
}

// ---------------------------------------------------------------------------
// Everything that can be asked: full F what, where what is any of l(ookups) c(atalogue) e(numeration) v(erify) f(latten) b(ogons)
void World::op_full(Op& o) {
	if (!f.count(o.a[1])) return;
	FileState& fs = f[o.a[1]];
	if (!fs.model) return;
	struct loc_database* db = nullptr;
	int r = open_db(fs, &db, -1);
	if (r) { error_ok("opening the database", r); return; }
	const DbModel& m = *fs.model;
	string bytes = fs.f->bytes();
	for (char c : o.a[2]) {
		if (c == 'l') check_lookups(db, m, m.big ? 3000 : 100000, 7);
		if (c == 'c') check_catalogue(db, m, true);
		if (c == 'e') { vector<Entry> v; check_enum_all(db, m, &v); check_as_enum(db, m); }
		if (c == 'v') for (int k = 0; k < 4; k++) {
			// whatever it has been signed with has to work, even if it did not end up in the file
			shared_ptr<SimFile> kf;
			FILE* s = key_stream(public_keys[k], &kf);
			int v = loc_database_verify(db, s);
			sim_stream_close(s);
			bool want = m.keys[0] == k || m.keys[1] == k;
			if (want && v && !sim_error_fault_fired()) violation("verify", "database signed with key %d could not be verified (%d)", k, v);
			if (!want && !v) violation("verify", "database not signed with key %d could be verified with it", k);
			checked();
		}
		if ((c == 'f' || c == 'b') && !around64(m.nets)) {
			EnumH x; x.mode = string(1, c); x.model = fs.model;
			r = make_enumerator(ctx, db, &x, this);
			if (r) { error_ok("creating an enumerator", r); continue; }
			enum_step(x, 1000000);
			loc_database_enumerator_unref(x.e);
		}
	}
	loc_database_unref(db);
	event("full");
}

void World::check_as_enum(struct loc_database* db, const DbModel& m) {
	for (const char* mode : {"a", "c"}) {
		EnumH x; x.mode = mode; x.model = std::make_shared<DbModel>();
		x.model->ases = m.ases; x.model->countries = m.countries;
		if (m.ases.size() > 600 && x.mode == "a") continue;
		int r = make_enumerator(ctx, db, &x, this);
		if (r) { error_ok("creating an enumerator", r); continue; }
		enum_step(x, 1000000);
		loc_database_enumerator_unref(x.e);
	}
}

// Uses everything there is on a database of which nothing is known: poke D seed
void World::op_poke(Op& o) {
	if (!d.count(o.a[1])) return;
	struct loc_database* db = d[o.a[1]].db;
	Rng r(strtoull(o.a[2].c_str(), nullptr, 10));
	size_t sum = 0;
	for (const char* s : {loc_database_get_vendor(db), loc_database_get_description(db), loc_database_get_license(db)})
		if (s) sum += strlen(s);
	loc_database_created_at(db);
	loc_database_count_as(db);
	for (int i = 0; i < 40; i++) {
		u128 a = r.chance(50) ? V4BASE | (uint32_t)r.next() : ((u128)r.next() << 64) | r.next();
		if (r.chance(20)) a = r.chance(50) ? ~(u128)0 : 0;
		if (r.chance(20)) a = ((u128)0x20010db8 << 96) | r.below(4);
		if (r.chance(20)) a = V4BASE | (0x0a000000u + (uint32_t)r.below(1 << 20));
		struct in6_addr in = to_in6(a);
		struct loc_network* n = nullptr;
		int e = loc_database_lookup(db, &in, &n);
		if (!e && n) { const char* s = loc_network_str(n); sum += s ? strlen(s) : 0; sum += strlen(loc_network_get_country_code(n)); loc_network_unref(n); }
	}
	for (int i = 0; i < 30; i++) {
		struct loc_as* as = nullptr;
		if (loc_database_get_as(db, &as, r.chance(50) ? r.below(100) : r.next()) == 0 && as) { sum += cstr(loc_as_get_name(as)).size(); loc_as_unref(as); }
		struct loc_country* c = nullptr;
		char cc[3] = {(char)('A' + r.below(23)), (char)('A' + r.below(26)), 0};
		if (loc_database_get_country(db, &c, cc) == 0 && c) {
			sum += cstr(loc_country_get_name(c)).size() + cstr(loc_country_get_code(c)).size() + cstr(loc_country_get_continent_code(c)).size();
			loc_country_unref(c);
		}
	}
	for (const char* mode : {"n", "f", "b", "a", "c"}) {
		EnumH x; x.mode = mode;
		if (r.chance(30)) x.f.family = r.chance(50) ? 4 : 6;
		if (r.chance(30)) x.f.countries = {"DE", "FR"};
		if (r.chance(30)) x.f.asns = {1, 2};
		if (r.chance(30)) x.f.flags = 1 + r.below(15);
		if (r.chance(30)) { x.has_text = true; x.text = "a"; }
		if (make_enumerator(ctx, db, &x, this)) continue;
		size_t limit = 20000;
		// some carry on after an error
		while (!x.ended && limit--) { size_t before = x.pos; enum_step(x, 1); if (x.pos == before && r.chance(40)) break; }
		loc_database_enumerator_unref(x.e);
	}
	shared_ptr<SimFile> kf;
	FILE* k = key_stream(public_keys[r.below(4)], &kf);
	int v = loc_database_verify(db, k);
	sim_stream_close(k);
	event("poke %zu %d", sum, !!v);
	checked();
}

// ---------------------------------------------------------------------------
// Damage: dmg F G kind a b
static void put32(string& b, size_t o, uint32_t v) {
	for (int i = 0; i < 4; i++) if (o + i < b.size()) b[o + i] = (char)(v >> (24 - 8 * i));
}
static uint32_t get32(const string& b, size_t o) {
	uint32_t v = 0;
	for (int i = 0; i < 4; i++) v = (v << 8) | (o + i < b.size() ? (unsigned char)b[o + i] : 0);
	return v;
}

void World::op_dmg(Op& o) {
	if (!f.count(o.a[1])) return;
	string b = f[o.a[1]].f->bytes(), before = b;
	const string& k = o.a[3];
	uint64_t x = o.a.size() > 4 ? strtoull(o.a[4].c_str(), nullptr, 10) : 0;
	uint64_t y = o.a.size() > 5 ? strtoull(o.a[5].c_str(), nullptr, 10) : 0;
	uint64_t z = o.a.size() > 6 ? strtoull(o.a[6].c_str(), nullptr, 10) : 0;
	// sections: as, tree, networks, countries, pool
	static const size_t so[5] = {HDR + 20, HDR + 36, HDR + 28, HDR + 44, HDR + 52};
	if (k == "flip") { if (!b.empty()) b[x % b.size()] ^= (char)(1 + y % 255); }
	else if (k == "trunc") b.resize(b.size() ? x % b.size() : 0);
	else if (k == "cut") b.resize(b.size() > x ? b.size() - x : 0);
	else if (k == "extend") { Rng r(y); for (uint64_t i = 0; i < x; i++) b += (char)(z ? r.next() : 0); }
	else if (k == "zero") for (uint64_t i = x % (b.size() + 1); i < b.size() && i < x % (b.size() + 1) + y; i++) b[i] = 0;
	else if (k == "rand") { Rng r(z); for (uint64_t i = x % (b.size() + 1), n = 0; i < b.size() && n < y; i++, n++) b[i] = (char)r.next(); }
	else if (k == "set32") put32(b, x, (uint32_t)y);
	else if (k == "hdr") put32(b, HDR + 8 + 4 * (x % 13), (uint32_t)y);
	else if (k == "hdrsize") put32(b, HDR + 8 + 4 * (x % 13), (uint32_t)(b.size() + (int64_t)(int32_t)y));
	else if (k == "siglen") { size_t p = x & 1 ? SIG2L : SIG1L; if (b.size() > p + 1) { b[p] = (char)(y >> 8); b[p + 1] = (char)y; } }
	else if (k == "swapsig") {
		if (b.size() >= HDR_END) {
			std::swap(b[SIG1L], b[SIG2L]); std::swap(b[SIG1L + 1], b[SIG2L + 1]);
			for (int i = 0; i < 2048; i++) std::swap(b[SIG1 + i], b[SIG2 + i]);
		}
	}
	else if (k == "cutfile") b.resize(std::min<size_t>(b.size(), x));
	else if (k == "sec") {   // sec section byteoffset value: changes a word in a section
		uint32_t off = get32(b, so[x % 5]), len = get32(b, so[x % 5] + 4);
		if (len >= 4) put32(b, off + (y % (len / 4)) * 4, (uint32_t)z);
	}
	else if (k == "secflip") {
		uint32_t off = get32(b, so[x % 5]), len = get32(b, so[x % 5] + 4);
		if (len && off + y % len < b.size()) b[off + y % len] ^= (char)(1 + z % 255);
	}
	else if (k == "node") {  // node n field value: rewires the tree
		uint32_t off = get32(b, so[1]), len = get32(b, so[1] + 4);
		uint32_t nn = len / 12;
		if (nn) put32(b, off + (x % nn) * 12 + (y % 3) * 4, (uint32_t)(z < 1000000 ? z % (nn + 2) : z));
	}
	else if (k == "mesh") {  // rewires all nodes at random
		uint32_t off = get32(b, so[1]), len = get32(b, so[1] + 4);
		uint32_t nn = len / 12, wn = get32(b, so[2] + 4) / 12;
		Rng r(x);
		for (uint32_t i = 0; i < nn; i++) {
			if (r.chance(70)) put32(b, off + i * 12, r.below(nn + (y ? 3 : 0)));
			if (r.chance(70)) put32(b, off + i * 12 + 4, r.below(nn + (y ? 3 : 0)));
			if (r.chance(70)) put32(b, off + i * 12 + 8, r.chance(30) ? 0xffffffffu : (uint32_t)r.below(wn + (y ? 2 : 0)));
		}
	}
	else if (k == "chain") {  // a tree that is deeper than any address: turns nodes into one long chain
		uint32_t off = get32(b, so[1]);
		uint32_t nn = (uint32_t)(x ? x : 200);
		if (b.size() > off + (size_t)nn * 12 || off + (size_t)nn * 12 < (8u << 20)) {
			if (b.size() < off + (size_t)nn * 12) b.resize(off + (size_t)nn * 12);
			put32(b, so[1] + 4, nn * 12);
			for (uint32_t i = 0; i < nn; i++) {
				uint32_t next = i + 1 < nn ? i + 1 : (y & 4 ? 1 : 0);
				put32(b, off + i * 12, y & 1 ? (y & 8 ? next : 0) : next);
				put32(b, off + i * 12 + 4, y & 1 ? next : (y & 8 ? next : 0));
				put32(b, off + i * 12 + 8, (y & 2) ? 0 : 0xffffffffu);
			}
		}
	}
	else if (k == "poolend") { // no terminator at the end of the strings
		uint32_t off = get32(b, so[4]), len = get32(b, so[4] + 4);
		if (len && off + len <= b.size()) for (uint32_t i = 0; i < std::min<uint32_t>(len, 64); i++) b[off + len - 1 - i] = 'A';
		if (x) b.resize(std::min<size_t>(b.size(), off + len));
	}
	else if (k == "splice" && f.count(o.a[4])) {  // splice other offset length
		string c = f[o.a[4]].f->bytes();
		for (uint64_t i = y; i < y + z && i < b.size() && i < c.size(); i++) b[i] = c[i];
	}
	else if (k == "random") { Rng r(x); b.resize(y % 20000); for (auto& ch : b) ch = (char)r.next(); if (z) memcpy(&b[0], "LOCDBXX\1", std::min<size_t>(8, b.size())); }
	FileState fs;
	fs.f = sim_file_new();
	fs.f->set(b);
	if (b == before) fs.model = f[o.a[1]].model;
	event("dmg %zu %d", b.size(), b == before);
	f[o.a[2]] = fs;
}

// What is on disk if the machine died while F was written: crash F G n mode seed
void World::op_crash(Op& o) {
	if (!f.count(o.a[1])) return;
	SimFile* s = f[o.a[1]].f.get();
	if (s->log.empty()) return;
	size_t n = strtoul(o.a[3].c_str(), nullptr, 10) % (s->log.size() + 1);
	const string& mode = o.a[4];
	Rng r(strtoull(o.a[5].c_str(), nullptr, 10));
	string b;
	auto apply = [&](const LogRec& l, size_t from, size_t len) {
		if (!len) return;
		if (b.size() < l.off + from + len) b.resize(l.off + from + len);
		b.replace(l.off + from, len, l.data, from, len);
	};
	for (size_t i = 0; i < (mode == "lost" || mode == "pages" ? s->log.size() : n); i++) {
		const LogRec& l = s->log[i];
		if (mode == "lost" && i >= n && r.chance(40)) continue;        // writes may reach the disk in any order
		if (mode == "pages") {                                          // or in units of pages
			size_t p = 0;
			while (p < l.data.size()) {
				size_t q = std::min(l.data.size(), p + (4096 - (l.off + p) % 4096));
				if (i < n || !r.chance(30)) apply(l, p, q - p);
				p = q;
			}
			continue;
		}
		apply(l, 0, l.data.size());
	}
	if (mode == "torn" && n < s->log.size()) apply(s->log[n], 0, r.below(s->log[n].data.size() + 1));
	if (mode == "len") b.resize(std::max(b.size(), s->size()));   // the length is there, the data is not
	FileState fs;
	fs.f = sim_file_new();
	fs.f->set(b);
	if (f[o.a[1]].model && b == s->bytes()) fs.model = f[o.a[1]].model;
	event("crash %zu", b.size());
	f[o.a[2]] = fs;
}

// ---------------------------------------------------------------------------
// Networks and lists on their own: nalg NET seed count
void World::op_nalg(Op& o) {
	Net net;
	if (!parse_net(o.a[1], &net)) return;
	Rng r(strtoull(o.a[2].c_str(), nullptr, 10));
	size_t cnt = atol(o.a[3].c_str());
	Props p; p.cc = "DE"; p.asn = 1234; p.flags = 2;
	struct loc_network* n = nullptr;
	int e = loc_network_new_from_string(ctx, &n, o.a[1].c_str());
	if (e) { error_ok("loc_network_new_from_string", e); return; }
	set_props(n, p);
	// Subnets
	if (net.plen < 128) {
		struct loc_network *a = nullptr, *b = nullptr;
		e = loc_network_subnets(n, &a, &b);
		if (e) {
			if (a || b) violation("alg", "subnets failed, but returned something");
			error_ok("loc_network_subnets", e);
		} else {
			Entry x = read_network(a), y = read_network(b);
			if (x.net.plen != net.plen + 1 || y.net.plen != net.plen + 1 || x.net.first != net.first || y.net.last() != net.last()
				|| x.net.last() + 1 != y.net.first || x.p != p || y.p != p)
				violation("alg", "subnets of %s are %s and %s", net.str().c_str(), x.net.str().c_str(), y.net.str().c_str());
			loc_network_unref(a); loc_network_unref(b);
		}
	}
	// Reverse pointer
	char* rp = loc_network_reverse_pointer(n, nullptr);
	bool sup = net.family() == 4 ? (net.plen - 96) % 8 == 0 : net.plen % 4 == 0;
	if (rp) {
		if (!sup) violation("alg", "%s must not have a reverse pointer", net.str().c_str());
		string want;
		if (net.family() == 6) {
			want = "ip6.arpa.";
			for (int i = 0; i < net.plen / 4; i++) { char c[3] = {"0123456789abcdef"[(unsigned)((net.first >> (124 - 4 * i)) & 15)], '.', 0}; want = c + want; }
			if (net.plen < 128) want = "*." + want;
		} else {
			want = "in-addr.arpa.";
			for (int i = 0; i < (net.plen - 96) / 8; i++) want = std::to_string((unsigned)((net.first >> (24 - 8 * i)) & 255)) + "." + want;
			if (net.plen < 128) want = "*." + want;
		}
		if (want != rp) violation("alg", "reverse pointer of %s is %s", net.str().c_str(), rp);
		extern void sim_free_from_harness(void*);
		sim_free_from_harness(rp);
	} else if (sup) error_ok("loc_network_reverse_pointer", 0);
	// Exclude a list of subnets
	struct loc_network_list* l = nullptr;
	e = loc_network_list_new(ctx, &l);
	if (e) error_ok("loc_network_list_new", e);
	else {
		vector<Net> ex;
		for (size_t i = 0; i < cnt && net.plen < 128; i++) {
			Net s; s.plen = net.plen + 1 + r.below(std::min<int>(128 - net.plen, 10));
			s.first = (net.first | ((((u128)r.next() << 64) | r.next()) & ~mask_of(net.plen))) & mask_of(s.plen);
			struct loc_network* x = nullptr;
			e = loc_network_new_from_string(ctx, &x, s.str().c_str());
			if (e) { error_ok("loc_network_new_from_string", e); continue; }
			size_t size = loc_network_list_size(l);
			e = loc_network_list_push(l, x);
			loc_network_unref(x);
			if (e) {
				error_ok("loc_network_list_push", e);
				if (loc_network_list_size(l) != size) violation("alg", "list has changed although nothing was added");
				continue;
			}
			if (std::find(ex.begin(), ex.end(), s) == ex.end()) ex.push_back(s);
		}
		if (loc_network_list_size(l) != ex.size()) violation("alg", "list has %zu elements, expected %zu", loc_network_list_size(l), ex.size());
		for (size_t i = 0; i < ex.size(); i++) {
			struct loc_network* x = loc_network_list_get(l, i);
			if (!x) violation("alg", "element %zu is missing", i);
			Entry y = read_network(x);
			if (std::find(ex.begin(), ex.end(), y.net) == ex.end()) violation("alg", "list contains %s", y.net.str().c_str());
			if (!loc_network_list_contains(l, x)) violation("alg", "list does not contain its own element");
			loc_network_unref(x);
		}
		struct loc_network_list* res = loc_network_exclude_list(n, l);
		if (!res) error_ok("loc_network_exclude_list", 0);
		else {
			vector<Entry> v;
			for (size_t i = 0; i < loc_network_list_size(res); i++) {
				struct loc_network* x = loc_network_list_get(res, i);
				v.push_back(read_network(x));
				loc_network_unref(x);
			}
			if (!ex.empty()) {
				disjoint(v, "alg");
				std::set<u128> st;
				for (auto& x : v) { add_starts(&st, x.net); if (!net.contains(x.net)) violation("alg", "%s is not part of %s", x.net.str().c_str(), net.str().c_str()); }
				for (auto& x : ex) add_starts(&st, x);
				st.insert(net.first);
				for (u128 a : st) {
					if (!net.contains(a)) continue;
					bool out = false;
					for (auto& x : ex) out |= x.contains(a);
					if (!!find_in(v, a) == out) violation("alg", "%s is %s %s without %zu subnets", addr_str(a).c_str(), out ? "still part of" : "missing in", net.str().c_str(), ex.size());
					checked();
				}
			}
			// take it apart from both ends
			while (!loc_network_list_empty(res)) {
				struct loc_network* x = r.chance(50) ? loc_network_list_pop(res) : loc_network_list_pop_first(res);
				if (!x) violation("alg", "could not pop from a list which is not empty");
				loc_network_unref(x);
			}
			struct loc_network* none = loc_network_list_pop_first(res);
			if (none) violation("alg", "popped something from an empty list");
			e = loc_network_list_merge(res, l);
			if (e) error_ok("loc_network_list_merge", e);
			else if (loc_network_list_size(res) != ex.size()) violation("alg", "merged list has %zu elements", loc_network_list_size(res));
			loc_network_list_unref(res);
		}
		loc_network_list_unref(l);
	}
	Entry back = read_network(n);
	if (!(back.net == net) || back.p != p) violation("alg", "%s has changed", net.str().c_str());
	loc_network_unref(n);
	event("nalg");
}

// Lists of ASes and countries: olist seed count
void World::op_objlists(Op& o) {
	Rng r(strtoull(o.a[1].c_str(), nullptr, 10));
	size_t cnt = atol(o.a[2].c_str());
	struct loc_as_list* al = nullptr;
	std::set<uint32_t> want;
	int e = loc_as_list_new(ctx, &al);
	if (e) error_ok("loc_as_list_new", e);
	else {
		for (size_t i = 0; i < cnt; i++) {
			uint32_t n = r.below(cnt * 2) + 1;
			struct loc_as* as = nullptr;
			e = loc_as_new(ctx, &as, n);
			if (e) { error_ok("loc_as_new", e); continue; }
			e = loc_as_list_append(al, as);
			loc_as_unref(as);
			if (e) error_ok("loc_as_list_append", e); else want.insert(n);
		}
		loc_as_list_sort(al);
		if (loc_as_list_size(al) != want.size()) violation("list", "AS list has %zu elements, expected %zu", loc_as_list_size(al), want.size());
		size_t k = 0;
		for (uint32_t n : want) {
			struct loc_as* as = loc_as_list_get(al, k++);
			if (!as || loc_as_get_number(as) != n) violation("list", "AS list does not contain AS%u where it should be", n);
			loc_as_unref(as);
		}
		for (size_t i = 0; i < 20; i++) {
			uint32_t n = r.below(cnt * 2) + 1;
			if (!!loc_as_list_contains_number(al, n) != !!want.count(n) && !sim_error_fault_fired()) violation("list", "AS list is wrong about AS%u", n);
		}
		loc_as_list_unref(al);
	}
	struct loc_country_list* cl = nullptr;
	std::set<string> wc;
	e = loc_country_list_new(ctx, &cl);
	if (e) error_ok("loc_country_list_new", e);
	else {
		for (size_t i = 0; i < cnt; i++) {
			string c; c += (char)('A' + r.below(23)); c += (char)('A' + r.below(26));
			struct loc_country* x = nullptr;
			e = loc_country_new(ctx, &x, c.c_str());
			if (e) { error_ok("loc_country_new", e); continue; }
			e = loc_country_list_append(cl, x);
			loc_country_unref(x);
			if (e) error_ok("loc_country_list_append", e); else wc.insert(c);
		}
		loc_country_list_sort(cl);
		if (loc_country_list_size(cl) != wc.size()) violation("list", "country list has %zu elements, expected %zu", loc_country_list_size(cl), wc.size());
		size_t k = 0;
		for (auto& c : wc) {
			struct loc_country* x = loc_country_list_get(cl, k++);
			if (!x || c != loc_country_get_code(x)) violation("list", "country list does not contain %s where it should be", c.c_str());
			loc_country_unref(x);
		}
		for (size_t i = 0; i < 10; i++) {
			string c; c += (char)('A' + r.below(23)); c += (char)('A' + r.below(26));
			if (!!loc_country_list_contains_code(cl, c.c_str()) != !!wc.count(c) && !sim_error_fault_fired()) violation("list", "country list is wrong about %s", c.c_str());
		}
		loc_country_list_unref(cl);
	}
	event("olist %zu %zu", want.size(), wc.size());
	checked();
}

// One list of any kind against a set: everything the list functions may do to it, in any order. The elements which
// were taken from the list must survive it.
template <class L, class O> struct ListApi {
	const char* what;
	int (*create)(struct loc_ctx*, L**); L* (*ref)(L*); L* (*unref)(L*); size_t (*size)(L*); int (*empty)(L*); void (*clear)(L*);
	O* (*get)(L*, size_t); int (*add)(L*, O*); int (*contains)(L*, O*); O* (*oref)(O*); O* (*ounref)(O*);
	void (*sort)(L*); O* (*pop)(L*); O* (*pop_first)(L*);
	std::function<int(struct loc_ctx*, O**, unsigned)> make;	// the k-th of the possible elements, which are in order
	std::function<bool(O*, unsigned)> is;
};
template <class L, class O> void World::list_life(Rng& r, const ListApi<L, O>& A, size_t steps, unsigned space) {
	L* l = nullptr;
	int e = A.create(ctx, &l);
	if (e) { error_ok(A.what, e); return; }
	vector<unsigned> want;
	int refs = 1;
	vector<std::pair<O*, unsigned>> kept;
	auto fail = [&](const char* why) { violation("list", "%s: %s", A.what, why); };
	for (size_t s = 0; s < steps; s++) {
		unsigned k = r.below(space);
		auto it = std::find(want.begin(), want.end(), k);
		bool has = it != want.end();
		switch (r.below(12)) {
			case 0: case 1: case 2: case 3: case 4: {
				O* x = nullptr;
				if ((e = A.make(ctx, &x, k))) { error_ok(A.what, e); break; }
				if (!!A.contains(l, x) != has) fail("contains what it should not, or not what it should");
				e = A.add(l, x);
				if (e) error_ok(A.what, e);
				else if (!has) { want.push_back(k); if (!A.sort) std::sort(want.begin(), want.end()); }
				if (r.chance(30)) kept.push_back({x, k}); else A.ounref(x);
				break;
			}
			case 5: case 6: {
				size_t i = r.below(want.size() + 2);
				O* x = A.get(l, i);
				if (!!x != (i < want.size())) fail("an element is missing or too many");
				if (x && !A.is(x, want[i])) fail("an element is wrong");
				if (x) { if (r.chance(50)) kept.push_back({x, want[i]}); else A.ounref(x); }
				break;
			}
			case 7: if (A.ref(l) != l) fail("a reference is another object"); refs++; break;
			case 8: if (refs > 1) { if (A.unref(l) != l) fail("the list is gone too early"); refs--; } break;
			case 9:
				if (r.below(steps / 8 + 1)) break;
				A.clear(l);
				want.clear();
				break;
			case 10:
				if (A.sort) { if (!want.empty()) { A.sort(l); std::sort(want.begin(), want.end()); } }
				else {
					bool first = r.chance(50);
					O* x = first ? A.pop_first(l) : A.pop(l);
					if (!!x != !want.empty()) fail("pop is wrong about the list being empty");
					if (!x) break;
					unsigned w = first ? want.front() : want.back();
					if (!A.is(x, w)) fail("another element was popped");
					want.erase(first ? want.begin() : want.end() - 1);
					kept.push_back({x, w});
				}
				break;
			case 11: if (!kept.empty()) { size_t i = r.below(kept.size()); if (!A.is(kept[i].first, kept[i].second)) fail("an element has changed"); A.ounref(kept[i].first); kept.erase(kept.begin() + i); } break;
		}
		if (A.size(l) != want.size() || !!A.empty(l) != want.empty()) fail("wrong size");
	}
	for (size_t i = 0; i < want.size(); i++) {
		O* x = A.get(l, i);
		if (!x || !A.is(x, want[i])) fail("an element is wrong at the end");
		A.ounref(x);
	}
	while (refs--) { if (A.unref(l) != (refs ? l : nullptr)) fail("unref is wrong about the list being gone"); }
	for (auto& x : kept) { if (!A.is(x.first, x.second)) fail("an element has changed with its list gone"); A.ounref(x.first); }
	event("list %s %zu", A.what, want.size());
	checked();
}
void World::op_lists(Op& o) {
	Rng r(strtoull(o.a[1].c_str(), nullptr, 10));
	size_t steps = atol(o.a[2].c_str());
	unsigned space = std::max(1l, atol(o.a[3].c_str()));
	uint32_t base = r.next();
	switch (r.below(3)) {
		case 0: list_life<loc_as_list, loc_as>(r, {"AS list", loc_as_list_new, loc_as_list_ref, loc_as_list_unref, loc_as_list_size, loc_as_list_empty,
			loc_as_list_clear, loc_as_list_get, loc_as_list_append, loc_as_list_contains, loc_as_ref, loc_as_unref, loc_as_list_sort, nullptr, nullptr,
			[&](struct loc_ctx* c, struct loc_as** x, unsigned k) { return loc_as_new(c, x, base / 2 + k); },
			[&](struct loc_as* x, unsigned k) { return loc_as_get_number(x) == base / 2 + k; }}, steps, space);
			break;
		case 1: {
			auto code = [](unsigned k) { string c; c += (char)('A' + k % 598 / 26); c += (char)('A' + k % 26); return c; };
			space = std::min(space, 598u);
			list_life<loc_country_list, loc_country>(r, {"country list", loc_country_list_new, loc_country_list_ref, loc_country_list_unref, loc_country_list_size, loc_country_list_empty,
			loc_country_list_clear, loc_country_list_get, loc_country_list_append, loc_country_list_contains, loc_country_ref, loc_country_unref, loc_country_list_sort, nullptr, nullptr,
			[&](struct loc_ctx* c, struct loc_country** x, unsigned k) { return loc_country_new(c, x, code(k).c_str()); },
			[&](struct loc_country* x, unsigned k) { return code(k) == loc_country_get_code(x); }}, steps, space);
			break;
		}
		case 2: {
			// Networks in the order of their addresses, every second one inside of the one before it
			auto net = [&](unsigned k) {
				Net n;
				n.first = ((u128)0x2a000000u | base % 0x1000000u) << 96 | (u128)(k / 2) << 66;
				n.plen = k % 2 ? 64 : 62;
				return n;
			};
			list_life<loc_network_list, loc_network>(r, {"network list", loc_network_list_new, loc_network_list_ref, loc_network_list_unref, loc_network_list_size, loc_network_list_empty,
			loc_network_list_clear, loc_network_list_get, loc_network_list_push, loc_network_list_contains, loc_network_ref, loc_network_unref, nullptr, loc_network_list_pop, loc_network_list_pop_first,
			[&](struct loc_ctx* c, struct loc_network** x, unsigned k) { return loc_network_new_from_string(c, x, net(k).str().c_str()); },
			[&](struct loc_network* x, unsigned k) { return read_network(x).net == net(k); }}, steps, space);
			break;
		}
	}
}

// ---------------------------------------------------------------------------
// DNS: dns version init result herrno leftover hex
static bool parse_ts(const string& s, time_t* t) {
	if (s.find('\0') != string::npos) return false;
	struct tm tm;
	memset(&tm, 0, sizeof(tm));
	char* p = strptime(s.c_str(), "%a, %d %b %Y %H:%M:%S GMT", &tm);
	if (!p || *p) return false;
	*t = timegm(&tm);
	return true;
}
static bool canonical_ts(const string& s, time_t t) {
	char b[64]; struct tm tm;
	gmtime_r(&t, &tm);
	strftime(b, sizeof(b), "%a, %d %b %Y %H:%M:%S GMT", &tm);
	return s == b;
}

struct DnsView { bool walk_ok = true; int txt_complete = 0; bool clean = false; string text; };

static bool good_name(const string& m, size_t p) {
	char host[1025];
	const unsigned char* b = (const unsigned char*)m.data();
	return p < m.size() && dn_expand(b, b + m.size(), b + p, host, sizeof(host)) > 0 && strlen(host) < 100;
}

static bool skip_name(const string& m, size_t* p) {
	while (*p < m.size()) {
		unsigned char l = m[*p];
		if (l == 0) { (*p)++; return true; }
		if ((l & 0xc0) == 0xc0) { if (*p + 2 > m.size()) return false; *p += 2; return true; }
		if (l & 0xc0) return false;
		*p += 1 + l;
	}
	return false;
}

static DnsView view_reply(const string& m) {
	DnsView v;
	auto u16 = [&](size_t p) { return ((unsigned char)m[p] << 8) | (unsigned char)m[p + 1]; };
	size_t p = 12;
	if (m.size() < 12 || !skip_name(m, &p) || p + 4 > m.size()) { v.walk_ok = false; return v; }
	bool names = good_name(m, 12);
	bool qok = u16(p) == 16 && u16(p + 2) == 1 && u16(4) == 1;
	p += 4;
	int n = 0, an = u16(6);
	bool only_cname = true, done = false;
	while (p < m.size()) {
		names = names && good_name(m, p);
		if (!skip_name(m, &p) || p + 10 > m.size()) { v.walk_ok = false; return v; }
		int type = u16(p), cls = u16(p + 2), len = u16(p + 8);
		p += 10;
		if (p + len > m.size()) { v.walk_ok = false; return v; }
		n++;
		if (type == 16) {
			v.txt_complete++;
			if (!done && only_cname && cls == 1 && len >= 1 && (unsigned char)m[p] == len - 1 && len > 1) { v.clean = qok; v.text = m.substr(p + 1, len - 1); }
			else v.clean = false;
			done = true;
		} else if (type != 5) { only_cname = false; if (!done) v.clean = false; }
		else if (done) v.clean = false;
		else { size_t q = p; names = names && good_name(m, p) && skip_name(m, &q) && q == p + len; }
		p += len;
	}
	if (!names || n != an || p != m.size()) v.clean = false;
	return v;
}

void World::op_dns(Op& o) {
	unsigned version = atoi(o.a[1].c_str());
	string raw;
	for (size_t i = 0; i + 1 < o.a[6].size(); i += 2) raw += (char)strtol(o.a[6].substr(i, 2).c_str(), nullptr, 16);
	dns = DnsScript();
	dns.init_result = atoi(o.a[2].c_str());
	dns.herrno = atoi(o.a[4].c_str());
	int result = atoi(o.a[3].c_str());    // -1, or how many bytes of the reply count
	dns.reply = raw;
	dns.result = result;
	time_t t = -12345;
	int r = loc_discover_latest_version(ctx, version, &t);
	event("dns %d %lld", !!r, r ? 0ll : (long long)t);
	if (dns.init_result || result < 0) {
		if (!r) violation("dns", "discovered %lld although the query has failed", (long long)t);
		checked();
		return;
	}
	if (!dns.queries) violation("dns", "no query has been sent");
	if (dns.type != 16 || dns.cls != 1) violation("dns", "query was of type %d, class %d", dns.type, dns.cls);
	string want = "_v" + std::to_string(version) + "._db.location.ipfire.org";
	if (dns.name != want && dns.name != want + ".") violation("dns", "queried %s instead of %s", dns.name.c_str(), want.c_str());
	string m = raw.substr(0, std::min<size_t>(raw.size(), (size_t)result));
	if (r == 0) {
		// Must be in the reply
		bool found = false;
		for (size_t i = 12; i < m.size() && !found; i++) {
			size_t len = (unsigned char)m[i];
			time_t x;
			if (len && i + 1 + len <= m.size() && parse_ts(m.substr(i + 1, len), &x) && x == t) found = true;
			// some have split it into several strings
			string cat; size_t q = i;
			for (int k = 0; k < 4 && q < m.size() && !found; k++) {
				size_t l2 = (unsigned char)m[q];
				if (q + 1 + l2 > m.size()) break;
				cat += m.substr(q + 1, l2);
				q += 1 + l2;
				if (parse_ts(cat, &x) && x == t) found = true;
			}
		}
		if (!found) violation("dns", "discovered %lld which is not part of the reply", (long long)t);
	}
	if (result > 512) { checked(); return; }   // truncated unless the buffer has been larger
	DnsView v = view_reply(m);
	time_t x;
	if (r == 0 && !v.txt_complete) violation("dns", "discovered %lld although there is no complete TXT record", (long long)t);
	if (v.clean && v.walk_ok && parse_ts(v.text, &x)) {
		if (r == 0 && t != x) violation("dns", "discovered %lld, but %lld has been published", (long long)t, (long long)x);
		if (r && canonical_ts(v.text, x)) violation("dns", "could not discover %lld from a well-formed reply", (long long)x);
	}
	if (v.clean && v.walk_ok && !parse_ts(v.text, &x) && r == 0) violation("dns", "'%.60s' was taken as a timestamp", v.text.c_str());
	checked();
}

// ---------------------------------------------------------------------------
extern "C" void sim_free(void*);
void sim_free_from_harness(void* p) { sim_free(p); }

void World::run_op(Op& o) {
	const string& n = o.a[0];
	auto need = [&](size_t k) { return o.a.size() >= k; };
	if (n == "wnew" && need(4)) op_wnew(o);
	else if (n == "wmeta" && need(4)) op_wmeta(o);
	else if (n == "was" && need(4)) op_was(o);
	else if (n == "wcc" && need(5)) op_wcc(o);
	else if (n == "wnet" && need(6)) op_wnet(o);
	else if (n == "wmod" && need(6)) op_wmod(o);
	else if (n == "wbulk" && need(5)) op_wbulk(o);
	else if (n == "wwrite" && need(4)) op_wwrite(o);
	else if (n == "wfree" && need(2)) op_wfree(o);
	else if (n == "wref" && need(2)) { auto i = w.find(o.a[1]); if (i != w.end()) { loc_writer_ref(i->second.w); loc_writer_unref(i->second.w); } }
	else if (n == "dopen" && need(4)) op_dopen(o);
	else if (n == "dref" && need(2)) { auto i = d.find(o.a[1]); if (i != d.end()) { loc_database_ref(i->second.db); i->second.refs++; } }
	else if (n == "dfree" && need(2)) op_dfree(o);
	else if (n == "ffree" && need(2)) op_ffree(o);
	else if (n == "suse" && need(4)) op_suse(o);
	else if (n == "sclose" && need(2)) op_sclose(o);
	else if (n == "look" && need(3)) op_look(o);
	else if (n == "lookall" && need(4)) op_lookall(o);
	else if (n == "cat" && need(2)) op_cat(o);
	else if (n == "getas" && need(5)) op_getas(o);
	else if (n == "getcc" && need(5)) op_getcc(o);
	else if (n == "meta" && need(2)) op_meta(o);
	else if (n == "verify" && need(3)) op_verify(o);
	else if (n == "full" && need(3)) op_full(o);
	else if (n == "poke" && need(3)) op_poke(o);
	else if (n == "enew" && need(9)) op_enew(o);
	else if (n == "enext" && need(3)) op_enext(o);
	else if (n == "eref" && need(2)) { auto i = e.find(o.a[1]); if (i != e.end()) { loc_database_enumerator_ref(i->second.e); loc_database_enumerator_unref(i->second.e); } }
	else if (n == "efree" && need(2)) op_efree(o);
	else if (n == "oread" && need(2)) op_oread(o);
	else if (n == "oref" && need(2)) {
		auto i = this->o.find(o.a[1]);
		if (i != this->o.end()) {
			if (i->second.n) loc_network_ref(i->second.n);
			if (i->second.as) loc_as_ref(i->second.as);
			if (i->second.c) loc_country_ref(i->second.c);
			i->second.refs++;
		}
	}
	else if (n == "ofree" && need(2)) op_ofree(o);
	else if (n == "dmg" && need(4)) op_dmg(o);
	else if (n == "crash" && need(6)) op_crash(o);
	else if (n == "nalg" && need(4)) op_nalg(o);
	else if (n == "olist" && need(3)) op_objlists(o);
	else if (n == "lists" && need(4)) op_lists(o);
	else if (n == "dns" && need(7)) op_dns(o);
	else if (n == "clk" && need(2)) sim_clock_add(atoll(o.a[1].c_str()) * 1000000000ll);
	else if (n == "clkset" && need(2)) sim_clock_set(atoll(o.a[1].c_str()) * 1000000000ll + 123456789ll);
	else if (n == "tz" && need(2)) { setenv("TZ", o.a[1].c_str(), 1); tzset(); }
	else if (n == "ctxfree") { if (ctx) { loc_unref(ctx); ctx = nullptr; } }
	else if (n == "ctxnew") { if (!ctx) { struct loc_ctx* c = nullptr; int r = loc_new(&c); if (r) error_ok("loc_new", r); else { ctx = c; loc_set_log_callback(ctx, log_cb, nullptr); } } }
	else if (n == "log" && need(2)) { if (ctx) loc_set_log_priority(ctx, atoi(o.a[1].c_str())); }
}

void World::release_all() {
	// Everything is released in random order
	vector<std::function<void()>> rel;
	for (auto& i : w) rel.push_back([&i] { for (auto& x : i.second.held) loc_network_unref(x.second); loc_writer_unref(i.second.w); });
	for (auto& i : d) rel.push_back([&i] { for (int k = 0; k < i.second.refs; k++) loc_database_unref(i.second.db); });
	for (auto& i : e) rel.push_back([&i, this] { finish_enum(i.second); loc_database_enumerator_unref(i.second.e); });
	for (auto& i : o) rel.push_back([&i] {
		for (int k = 0; k < i.second.refs; k++) {
			if (i.second.n) loc_network_unref(i.second.n);
			if (i.second.as) loc_as_unref(i.second.as);
			if (i.second.c) loc_country_unref(i.second.c);
		}
	});
	if (ctx) rel.push_back([this] { loc_unref(ctx); ctx = nullptr; });
	Rng r(relseed);
	for (size_t i = 0; i < rel.size(); i++) std::swap(rel[i], rel[i + r.below(rel.size() - i)]);
	for (auto& x : rel) x();
	for (auto& i : d) if (i.second.stream) sim_stream_close(i.second.stream);
	w.clear(); d.clear(); e.clear(); o.clear(); f.clear();
	event("released");
	if (leakcheck) {
		SimLeaks l = sim_live();
		if (l.allocs || l.fds || l.streams || l.maps)
			violation("leak", "after everything has been released, %zu allocation(s) of %zu byte(s), %zu descriptor(s), %zu stream(s) and %zu mapping(s) are left",
				l.allocs, l.bytes, l.fds, l.streams, l.maps);
		checked();
	}
}

RunResult run_plan(const Plan& plan) {
	RunResult res;
	uint64_t seed = 1;
	World* w = new World;
	w->res = &res;
	if (!plan.empty() && plan[0].a[0] == "run") {
		for (size_t i = 1; i < plan[0].a.size(); i++) {
			auto kv = split(plan[0].a[i], '=');
			if (kv.size() < 2) continue;
			if (kv[0] == "seed") seed = strtoull(kv[1].c_str(), nullptr, 10);
			if (kv[0] == "leak") w->leakcheck = atoi(kv[1].c_str());
			if (kv[0] == "rel") w->relseed = strtoull(kv[1].c_str(), nullptr, 10);
		}
	}
	sim_reset(seed);
	setenv("TZ", "UTC0", 1); tzset();
	int64_t t0 = stats.sim_ns;
	log_count = 0;
	try {
		int r = loc_new(&w->ctx);
		if (r) violation("err", "loc_new failed");
		loc_set_log_callback(w->ctx, log_cb, nullptr);
		for (size_t i = 0; i < plan.size(); i++) {
			Op o = plan[i];
			res.counts.push_back(vector<long>(F_KINDS));
			if (o.a[0] == "run") continue;
			static const std::set<string> needs_ctx = {"wnew", "dopen", "dns", "enew", "olist", "lists", "nalg", "full", "poke"};
			if (!w->ctx && needs_ctx.count(o.a[0])) continue;
			if (verbose) { Plan one = {o}; printf("> %s", plan_str(one).c_str()); fflush(stdout); }
			w->cur = &o;
			w->cur_outcome = "ok";
			sim_op_begin(&o.faults);
			w->run_op(o);
			for (int k = 0; k < F_KINDS; k++) res.counts.back()[k] = sim_op_counts()[k];
			if (sim_record_contexts) {
				res.contexts.resize(res.counts.size());
				for (int k = 0; k < F_KINDS; k++) res.contexts.back().push_back(sim_op_contexts(k));
			}
			sim_op_end();
			res.ops++;
			for (auto& f : o.faults) if (f.fired || f.kind == F_FULL)
				res.shapes.insert(o.a[0] + "/" + fault_names[f.kind] + ":" + f.arg + "/" + w->cur_outcome);
		}
		sim_op_begin(nullptr);
		w->release_all();
		sim_op_end();
	} catch (Violation& v) {
		res.violated = true;
		res.msg = v.tag + ": " + v.msg;
		event("VIOLATION %s", res.msg.c_str());
	}
	res.hash = event_hash;
	res.sim_ns = stats.sim_ns - t0;
	if (!res.violated) delete w;
	return res;
}
