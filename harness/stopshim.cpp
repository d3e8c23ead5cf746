// LD_PRELOAD: makes one of the files the main program polls for (./stop, ./savejaxconf) appear at its n-th look, on chosen ranks.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
typedef FILE *(*fopen_t)(const char *, const char *);
static int hit (const char *env, int *count) {
	const char *at = getenv(env); ++*count;
	if (at == nullptr) return 0;
	const char *rk = getenv("SHIM_RANK"), *me = getenv("OMPI_COMM_WORLD_RANK");
	if (rk != nullptr && me != nullptr && strcmp(rk, "all") && strcmp(rk, me)) return 0;
	return atoi(at) == *count;
}
static FILE *shim (const char *path, const char *mode, fopen_t real) {
	static int ns = 0, nv = 0;
	if (path && !strcmp(path, "./stop") && hit("SHIM_STOP", &ns)) return real("/dev/null", mode);
	if (path && !strcmp(path, "./savejaxconf") && hit("SHIM_SAVE", &nv)) return real("/dev/null", mode);
	return real(path, mode);
}
extern "C" FILE *fopen (const char *path, const char *mode) { static fopen_t r = (fopen_t) dlsym(RTLD_NEXT, "fopen"); return shim(path, mode, r); }
extern "C" FILE *fopen64 (const char *path, const char *mode) { static fopen_t r = (fopen_t) dlsym(RTLD_NEXT, "fopen64"); return shim(path, mode, r); }
// and the same initial conditions for every run: seeds depend on the rank only
#include <random>
unsigned int std::random_device::_M_getval () { const char *me = getenv("OMPI_COMM_WORLD_RANK"), *s = getenv("SHIM_SEED"); return (s ? atoi(s) : 1)*7919u + (me ? atoi(me) : 0)*104729u + 12345u; }
