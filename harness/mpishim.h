/*
 * PMPI layer around the ghost exchange (persistent requests): an online monitor plus schedule perturbation.
 *   DRV_SHIM=<seed>:<max delay in microseconds>
 * - receive buffers are filled with 0xFF (NaN) when a receive starts, so any read before its completion shows
 * - send buffers are hashed when a send starts and compared when it is waited for (they must not change in flight)
 * - random sleeps before starts and waits, different on every rank, vary which message arrives first
 */
#pragma once
#include <cstdint>
#include <mutex>
#include <unordered_map>
#include <random>
#include <unistd.h>
#include <mpi.h>

namespace shim {
	struct Req { void *buf; size_t bytes; bool send; uint64_t h; bool active; };
	static std::unordered_map<void *, Req> reqs;
	static bool on = false; static int maxus = 0; static std::mt19937_64 gen;
	static long starts = 0, waits = 0, changed = 0, delays = 0; static double bytes = 0;
	static std::string order;	// completion order signature of this rank
	static uint64_t orderHash = 1469598103934665603ull;

	static uint64_t hash (const void *p, size_t n) {
		const unsigned char *c = (const unsigned char *) p; uint64_t h = 1469598103934665603ull, w;
		size_t i = 0;
		for (; i + 8 <= n; i += 8) { memcpy (&w, c+i, 8); h = (h ^ w)*1099511628211ull; h ^= h >> 29; }
		for (; i < n; i++) h = (h ^ c[i])*1099511628211ull;
		return h;
	}
	static void nap () {
		if (maxus <= 0) return;
		if (gen() % 3 == 0) { delays++; usleep (gen() % maxus); }
	}
	static void setup () {
		const char *e = getenv ("DRV_SHIM");
		if (!e) return;
		on = true; long s = atol (e); const char *c = strchr (e, ':'); maxus = c ? atoi (c+1) : 0;
		int r = 0; PMPI_Comm_rank (MPI_COMM_WORLD, &r); gen.seed (s*1000003 + r);
	}
}

extern "C" {
int MPI_Send_init (const void *buf, int count, MPI_Datatype dt, int dest, int tag, MPI_Comm c, MPI_Request *r) {
	int e = PMPI_Send_init (buf, count, dt, dest, tag, c, r);
	if (shim::on) { int s; PMPI_Type_size (dt, &s); shim::reqs[*r] = { (void *) buf, (size_t) s*count, true, 0, false }; }
	return e;
}
int MPI_Recv_init (void *buf, int count, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Request *r) {
	int e = PMPI_Recv_init (buf, count, dt, src, tag, c, r);
	if (shim::on) { int s; PMPI_Type_size (dt, &s); shim::reqs[*r] = { buf, (size_t) s*count, false, 0, false }; }
	return e;
}
int MPI_Start (MPI_Request *r) {
	if (shim::on) {
		auto i = shim::reqs.find (*r);
		if (i != shim::reqs.end()) {
			shim::Req &q = i->second; q.active = true; shim::starts++; shim::bytes += q.bytes;
			if (q.send) { q.h = shim::hash (q.buf, q.bytes); shim::nap(); }
			else memset (q.buf, 0xFF, q.bytes);
		}
	}
	return PMPI_Start (r);
}
int MPI_Wait (MPI_Request *r, MPI_Status *st) {
	void *k = *r;
	if (shim::on) {
		auto i = shim::reqs.find (k);
		if (i != shim::reqs.end() && i->second.active) {
			shim::nap();
			int fl = 0; PMPI_Request_get_status (*r, &fl, MPI_STATUS_IGNORE);
			shim::orderHash = (shim::orderHash ^ (fl + 2*i->second.send))*1099511628211ull;	// was it already there when waited for
		}
	}
	int e = PMPI_Wait (r, st);
	if (shim::on) {
		auto i = shim::reqs.find (k);
		if (i != shim::reqs.end() && i->second.active) {
			shim::Req &q = i->second; q.active = false; shim::waits++;
			if (q.send && shim::hash (q.buf, q.bytes) != q.h) shim::changed++;
		}
	}
	return e;
}
int MPI_Request_free (MPI_Request *r) {
	if (shim::on) shim::reqs.erase (*r);
	return PMPI_Request_free (r);
}
}
