// Runs a program in Lua, Python or Perl on top of the bindings and the library, both with their calls into libc redirected to
// the functions below. Which of these fail, and when Lua collects garbage, is decided by the program (that is, by the seed).
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <time.h>

// ---- faults and accounting
struct Fault { std::string kind; long at; bool on; int err; };
static std::vector<Fault> faults;
static std::map<std::string, long> counts;
static std::string fired;
static bool armed;
static std::map<void*, size_t> blocks, maps;
static std::map<FILE*, int> files;
static std::map<int, int> fds;

static int fails(const char* kind) {
	if (!armed) return 0;
	long n = ++counts[kind];
	for (auto& f : faults) {
		if (f.kind != kind || !(n == f.at || (f.on && n > f.at))) continue;
		if (!fired.empty()) fired += ",";
		fired += kind;
		return f.err;
	}
	return 0;
}

static std::string arm(const std::string& spec) {
	faults.clear();
	counts.clear();
	fired.clear();
	size_t i = 0;
	while (i < spec.size()) {
		size_t e = spec.find(' ', i);
		if (e == std::string::npos) e = spec.size();
		std::string w = spec.substr(i, e - i);
		i = e + 1;
		size_t c = w.find(':');
		if (c == std::string::npos) continue;
		Fault f;
		f.kind = w.substr(0, c);
		f.at = atol(w.c_str() + c + 1);
		f.on = w.back() == '+';
		f.err = f.kind == "alloc" || f.kind == "mmap" ? ENOMEM : EMFILE;
		faults.push_back(f);
	}
	armed = true;
	return "";
}

static std::string disarm() {
	armed = false;
	return fired.empty() ? "-" : fired;
}

static std::string live() {
	return std::to_string(blocks.size()) + " " + std::to_string(files.size()) + " " + std::to_string(fds.size()) + " " + std::to_string(maps.size());
}

static void* got(void* p, size_t n) {
	if (p) blocks[p] = n;
	return p;
}

extern "C" {
void* bind_malloc(size_t n) {
	if (int e = fails("alloc")) { errno = e; return NULL; }
	return got(malloc(n), n);
}
void* bind_calloc(size_t a, size_t b) {
	if (int e = fails("alloc")) { errno = e; return NULL; }
	return got(calloc(a, b), a * b);
}
void* bind_realloc(void* p, size_t n) {
	if (int e = fails("alloc")) { errno = e; return NULL; }
	void* q = realloc(p, n);
	if (q || !n) { blocks.erase(p); got(q, n); }
	return q;
}
void* bind_reallocarray(void* p, size_t a, size_t b) {
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	return bind_realloc(p, n);
}
void bind_free(void* p) {
	blocks.erase(p);
	free(p);
}
char* bind_strdup(const char* s) {
	if (int e = fails("alloc")) { errno = e; return NULL; }
	return (char*)got(strdup(s), 1);
}
char* bind_strndup(const char* s, size_t n) {
	if (int e = fails("alloc")) { errno = e; return NULL; }
	return (char*)got(strndup(s, n), 1);
}
int bind_vasprintf(char** out, const char* f, va_list a) {
	if (int e = fails("alloc")) { errno = e; return -1; }
	int r = vasprintf(out, f, a);
	if (r >= 0) got(*out, r + 1);
	return r;
}
int bind_asprintf(char** out, const char* f, ...) {
	va_list a;
	va_start(a, f);
	int r = bind_vasprintf(out, f, a);
	va_end(a);
	return r;
}
FILE* bind_fopen(const char* path, const char* mode) {
	if (int e = fails("fopen")) { errno = e; return NULL; }
	FILE* f = fopen(path, mode);
	if (f) files[f] = -1;
	return f;
}
FILE* bind_fdopen(int fd, const char* mode) {
	if (int e = fails("fdopen")) { errno = e; return NULL; }
	FILE* f = fdopen(fd, mode);
	if (f) {
		files[f] = fd;
		fds.erase(fd);
	}
	return f;
}
int bind_fclose(FILE* f) {
	files.erase(f);
	return fclose(f);
}
int bind_dup(int fd) {
	if (int e = fails("dup")) { errno = e; return -1; }
	int r = dup(fd);
	if (r >= 0) fds[r] = 1;
	return r;
}
int bind_fcntl(int fd, int cmd, ...) {
	va_list a;
	va_start(a, cmd);
	long arg = va_arg(a, long);
	va_end(a);
	bool d = cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC;
	if (d) if (int e = fails("dup")) { errno = e; return -1; }
	int r = fcntl(fd, cmd, arg);
	if (d && r >= 0) fds[r] = 1;
	return r;
}
int bind_close(int fd) {
	fds.erase(fd);
	return close(fd);
}
void* bind_mmap(void* p, size_t n, int prot, int flags, int fd, off_t off) {
	if (int e = fails("mmap")) { errno = e; return MAP_FAILED; }
	void* r = mmap(p, n, prot, flags, fd, off);
	if (r != MAP_FAILED) maps[r] = n;
	return r;
}
FILE* bind_fopen64(const char* path, const char* mode) { return bind_fopen(path, mode); }
int bind_fcntl64(int fd, int cmd, long arg) { return bind_fcntl(fd, cmd, arg); }
void* bind_mmap64(void* p, size_t n, int prot, int flags, int fd, off_t off) { return bind_mmap(p, n, prot, flags, fd, off); }
time_t bind_time(time_t* t) {
	const char* s = getenv("SIMTIME");
	time_t r = s ? atol(s) : 0;
	if (t) *t = r;
	return r;
}
int bind_munmap(void* p, size_t n) {
	maps.erase(p);
	return munmap(p, n);
}
}

static unsigned long rnd_state = 88172645463325252ul;
static unsigned long rnd() {
	rnd_state ^= rnd_state << 13;
	rnd_state ^= rnd_state >> 7;
	rnd_state ^= rnd_state << 17;
	return rnd_state;
}

static void put(const char* s) {
	fputs(s, stdout);
	fputc('\n', stdout);
	fflush(stdout);
}

// ---- the languages: program, driver, mean distance between collections, seed
#if defined(LANG_LUA)
extern "C" {
#include <lua.h>
#include <lauxlib.h>
#include <lualib.h>
int luaopen_location(lua_State*);
}
static long gap = 0;
static unsigned long collections = 0;

static void hook(lua_State* L, lua_Debug*) {
	collections++;
	lua_gc(L, LUA_GCCOLLECT);
	lua_sethook(L, hook, LUA_MASKCOUNT, 1 + rnd() % (2 * gap));
}

// An allocation of an object that fails makes Lua collect garbage right there, and try again (not so that of a buffer: o is zero)
static long until = 0;
static bool again = false;
static long lblocks = 0;
static void* lalloc(void*, void* p, size_t o, size_t n) {
	if (!n) { lblocks -= p != NULL; free(p); return NULL; }
	if (gap && !p && o) {
		if (again) again = false;
		else if (until-- <= 0) {
			until = rnd() % (2 * gap);
			again = true;
			collections++;
			return NULL;
		}
	}
	void* q = realloc(p, n);
	lblocks += q && !p;
	return q;
}
static int l_arm(lua_State* L) { arm(luaL_checkstring(L, 1)); return 0; }
static int l_disarm(lua_State* L) { std::string s = disarm(); lua_pushlstring(L, s.data(), s.size()); return 1; }
static int l_live(lua_State* L) { std::string s = live(); lua_pushlstring(L, s.data(), s.size()); return 1; }
static int l_blocks(lua_State* L) { lua_pushinteger(L, lblocks); return 1; }
static int l_put(lua_State* L) { put(luaL_checkstring(L, 1)); return 0; }

int main(int argc, char** argv) {
	rnd_state ^= strtoul(argv[4], NULL, 10) * 0x9e3779b97f4a7c15ul;
	for (int i = 0; i < 8; i++) rnd();
	lua_State* L = lua_newstate(lalloc, NULL);
	luaL_openlibs(L);
	luaL_requiref(L, "location", luaopen_location, 0);
	lua_pop(L, 1);
	lua_register(L, "arm", l_arm);
	lua_register(L, "disarm", l_disarm);
	lua_register(L, "live", l_live);
	lua_register(L, "put", l_put);
	lua_register(L, "blocks", l_blocks);
	lua_pushstring(L, argv[1]);
	lua_setglobal(L, "PROGRAM");
	std::string before = live();
	if (luaL_loadfile(L, argv[2])) { fprintf(stderr, "%s\n", lua_tostring(L, -1)); return 3; }
	gap = atol(argv[3]);
	if (gap && rnd() % 3 == 0) lua_gc(L, LUA_GCGEN, 0, 0);
	if (gap) lua_sethook(L, hook, LUA_MASKCOUNT, 1 + rnd() % (2 * gap));
	if (lua_pcall(L, 0, 0, 0)) { fprintf(stderr, "%s\n", lua_tostring(L, -1)); return 3; }
	lua_sethook(L, NULL, 0, 0);
	gap = 0;
	lua_close(L);
	put(("END " + before + " | " + live() + " | " + std::to_string(collections)).c_str());
	return 0;
}

#elif defined(LANG_PYTHON)
#define PY_SSIZE_T_CLEAN
#include <Python.h>
PyMODINIT_FUNC PyInit__location(void);
static PyObject* p_arm(PyObject*, PyObject* a) {
	const char* s;
	if (!PyArg_ParseTuple(a, "s", &s)) return NULL;
	arm(s);
	Py_RETURN_NONE;
}
static PyObject* p_disarm(PyObject*, PyObject*) { return PyUnicode_FromString(disarm().c_str()); }
static PyObject* p_live(PyObject*, PyObject*) { return PyUnicode_FromString(live().c_str()); }
static PyObject* p_put(PyObject*, PyObject* a) {
	const char* s;
	if (!PyArg_ParseTuple(a, "s", &s)) return NULL;
	put(s);
	Py_RETURN_NONE;
}
static long pblocks = 0;
static void* pa_malloc(void*, size_t n) { void* p = malloc(n ? n : 1); pblocks += p != NULL; return p; }
static void* pa_calloc(void*, size_t a, size_t b) { void* p = calloc(a ? a : 1, b ? b : 1); pblocks += p != NULL; return p; }
static void* pa_realloc(void*, void* p, size_t n) { void* q = realloc(p, n ? n : 1); pblocks += q && !p; return q; }
static void pa_free(void*, void* p) { pblocks -= p != NULL; free(p); }
static PyObject* p_blocks(PyObject*, PyObject*) { return PyLong_FromLong(pblocks); }
static PyMethodDef methods[] = {
	{ "arm", p_arm, METH_VARARGS, NULL }, { "disarm", p_disarm, METH_NOARGS, NULL },
	{ "live", p_live, METH_NOARGS, NULL }, { "put", p_put, METH_VARARGS, NULL },
	{ "blocks", p_blocks, METH_NOARGS, NULL }, { NULL, NULL, 0, NULL },
};
static PyModuleDef def = { PyModuleDef_HEAD_INIT, "simhost", NULL, -1, methods };
PyMODINIT_FUNC PyInit_simhost(void) { return PyModule_Create(&def); }

int main(int argc, char** argv) {
	PyImport_AppendInittab("_location", PyInit__location);
	PyImport_AppendInittab("simhost", PyInit_simhost);
	PyConfig c;
	PyConfig_InitIsolatedConfig(&c);
	c.site_import = 0;
	c.parse_argv = 0;
	c.write_bytecode = 0;
	c.use_hash_seed = 1;
	c.hash_seed = 0;
	PyPreConfig pre;
	PyPreConfig_InitIsolatedConfig(&pre);
	pre.utf8_mode = 1;
	pre.allocator = PYMEM_ALLOCATOR_MALLOC;
	Py_PreInitialize(&pre);
	PyMemAllocatorEx pa = { NULL, pa_malloc, pa_calloc, pa_realloc, pa_free };
	PyMem_SetAllocator(PYMEM_DOMAIN_RAW, &pa);
	PyMem_SetAllocator(PYMEM_DOMAIN_MEM, &pa);
	PyMem_SetAllocator(PYMEM_DOMAIN_OBJ, &pa);
	PyConfig_SetBytesArgv(&c, argc, argv);
	PyStatus s = Py_InitializeFromConfig(&c);
	if (PyStatus_Exception(s)) { fprintf(stderr, "%s\n", s.err_msg); return 3; }
	FILE* f = fopen(argv[2], "r");
	int r = PyRun_SimpleFileEx(f, argv[2], 1);
	if (r) return 3;
	fflush(stdout);
	_exit(0);
}

#elif defined(LANG_PERL)
#include <EXTERN.h>
#include <perl.h>
#include <XSUB.h>
#undef fopen
extern "C" void boot_Location(pTHX_ CV*);
extern "C" void boot_DynaLoader(pTHX_ CV*);
static PerlInterpreter* my_perl;
static void x_arm(pTHX_ CV* cv) { dXSARGS; PERL_UNUSED_VAR(items); arm(SvPV_nolen(ST(0))); XSRETURN(0); }
static void x_disarm(pTHX_ CV* cv) { dXSARGS; PERL_UNUSED_VAR(items); std::string s = disarm(); ST(0) = sv_2mortal(newSVpvn(s.data(), s.size())); XSRETURN(1); }
static void x_live(pTHX_ CV* cv) { dXSARGS; PERL_UNUSED_VAR(items); std::string s = live(); ST(0) = sv_2mortal(newSVpvn(s.data(), s.size())); XSRETURN(1); }
static void x_put(pTHX_ CV* cv) { dXSARGS; PERL_UNUSED_VAR(items); put(SvPV_nolen(ST(0))); XSRETURN(0); }
static void x_blocks(pTHX_ CV* cv) { dXSARGS; PERL_UNUSED_VAR(items); long n = PL_sv_count; ST(0) = sv_2mortal(newSViv(n)); XSRETURN(1); }
static void xs_init(pTHX) {
	newXS("DynaLoader::boot_DynaLoader", boot_DynaLoader, __FILE__);
	newXS("Location::bootstrap", boot_Location, __FILE__);
	newXS("Sim::arm", x_arm, __FILE__);
	newXS("Sim::disarm", x_disarm, __FILE__);
	newXS("Sim::live", x_live, __FILE__);
	newXS("Sim::put", x_put, __FILE__);
	newXS("Sim::blocks", x_blocks, __FILE__);
}
int main(int argc, char** argv, char** env) {
	PERL_SYS_INIT3(&argc, &argv, &env);
	my_perl = perl_alloc();
	perl_construct(my_perl);
	PL_exit_flags |= PERL_EXIT_DESTRUCT_END;
	char* args[] = { (char*)"", argv[2], argv[1], NULL };
	int r = perl_parse(my_perl, xs_init, 3, args, NULL);
	if (!r) r = perl_run(my_perl);
	fflush(stdout);
	_exit(r ? 3 : 0);
}
#endif
