/*
 * Script-driven observer for the jaxions library.
 *
 * Linked against objects compiled from /repo's current sources.  Every rank
 * executes the same script (one command per line) through the library's
 * public API; observations go to a JSON-lines event log (rank 0) and to raw
 * arrays that hold the whole box (each rank writes its slab).  No verdict is
 * made here: the offline monitors in /verif/lib judge the log and the arrays.
 */
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <complex>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <mpi.h>
#include <omp.h>

#include "propagator/propBase.h"
#include "propagator/allProp.h"
#include "energy/energy.h"
#include "energy/dContrast.h"
#include "utils/utils.h"
#include "io/readWrite.h"
#include "comms/comms.h"
#include "map/map.h"
#include "strings/strings.h"
#include "powerCpu.h"
#include "scalar/scalar.h"
#include "scalar/scaleField.h"
#include "scalar/theta2Cmplx.h"
#include "scalar/fourier.h"
#include "spectrum/spectrum.h"
#include "scalar/mendTheta.h"
#include "projector/projector.h"
#include "reducer/reducer.h"
#include "meas/measa.h"
#include "WKB/WKB.h"
#include "gravity/potential.h"
#include "gen/genConf.h"

#include <fftw3-mpi.h>
#include "mpishim.h"

extern std::unique_ptr<PropBase> prop;

extern double msa;	// derived by the command-line parser
static Cosmos   *cosmos = nullptr;
static Scalar   *ax     = nullptr;
static std::map<std::string, Scalar *> slot;
static FILE     *logf_  = nullptr;
static int       lineNo = 0;

static void ev (const std::string &name, const std::string &body) {
	if (commRank() == 0) {
		fprintf (logf_, "{\"ln\":%d,\"ev\":\"%s\"%s%s}\n", lineNo, name.c_str(), body.empty() ? "" : ",", body.c_str());
		fflush (logf_);
	}
}
static std::string num (double x) {
	char b[64];
	if (std::isnan(x)) return "NaN";
	if (std::isinf(x)) return x > 0 ? "Infinity" : "-Infinity";
	snprintf (b, sizeof b, "%.17g", x);
	return b;
}
static std::string jarr (const double *p, size_t n) {
	std::string s = "[";
	for (size_t i = 0; i < n; i++) { if (i) s += ","; s += num(p[i]); }
	return s + "]";
}
static std::string kv (const char *k, double v) { return std::string("\"") + k + "\":" + num(v); }

[[noreturn]] static void die (const std::string &why) {
	fprintf (stderr, "DRV-ERROR line %d rank %d: %s\n", lineNo, commRank(), why.c_str());
	fflush (stderr);
	MPI_Abort (MPI_COMM_WORLD, 77);
	abort();
}

struct Region { char *p; size_t es, n; };	// element size, number of local elements

static Region region (const std::string &w) {
	size_t fs = ax->DataSize(), ps = ax->Precision();
	if (w == "m")    return { (char *) ax->mStart(),  fs, ax->Size() };
	if (w == "v")    return { (char *) ax->vStart(),  fs, ax->Size() };
	if (w == "m2s")  return { (char *) ax->m2Start(), fs, ax->Size() };
	if (w == "m2")   return { (char *) ax->m2Cpu(),   fs, ax->Size() };
	if (w == "m2pad") return { (char *) ax->m2Cpu(),  ps, (ax->Length()+2)*ax->Length()*ax->Depth() };	// real data in padded rows
	if (w.compare (0, 5, "m2red") == 0) { size_t a, b; if (sscanf (w.c_str(), "m2red%zu,%zu", &a, &b) != 2) die ("m2red"); return { (char *) ax->m2Cpu(), ps, a*a*b }; }	// real data of a reduced map
	if (w == "m2r")  return { (char *) ax->m2Cpu(),   ps, ax->Size() };	// real data at the start of m2
	if (w == "m2sr") return { (char *) ax->m2Start(), ps, ax->Size() };
	if (w == "m2h")  return { (char *) ax->m2half(),  ps, ax->Size() };
	if (w == "str")  return { (char *) ax->sData(),   1,  ax->Size() };
	if (w == "m0")   return { (char *) ax->mCpu(),    ps, ax->Surf() };	// 2D map left in the front ghost
	if (w == "m0c")  return { (char *) ax->mCpu(),    fs, ax->Surf() };
	if (w == "mb")   return { (char *) ax->mBackGhost(), ps, ax->Surf() };
	if (w == "mbc")  return { (char *) ax->mBackGhost(), fs, ax->Surf() };
	if (w == "gf1")  return { (char *) ax->mFrontGhost(),  fs, ax->Surf() };
	if (w == "gb1")  return { (char *) ax->mBackGhost(),   fs, ax->Surf() };
	if (w == "g21")  return { (char *) ax->m2FrontGhost(), fs, ax->Surf() };
	if (w == "gfyz") return { (char *) ax->mFrontGhost(),  fs, ax->Length()*ax->Depth() };
	if (w == "gbyz") return { (char *) ax->mBackGhost(),   fs, ax->Length()*ax->Depth() };
	if (w == "gf")   return { (char *) ax->mFrontGhost(), fs, ax->Surf()*ax->getNg() };
	if (w == "gb")   return { (char *) ax->mBackGhost(),  fs, ax->Surf()*ax->getNg() };
	die ("unknown region " + w);
}

static void load (const std::string &w, const std::string &file, size_t off) {
	Region r = region (w);
	int fd = open (file.c_str(), O_RDONLY);
	if (fd < 0) die ("cannot open " + file);
	size_t len = r.es*r.n, done = 0; off += len*(size_t) commRank();
	while (done < len) {
		ssize_t k = pread (fd, r.p + done, len - done, off + done);
		if (k <= 0) die ("short read " + file);
		done += k;
	}
	close (fd);
}

static void dumpTo (const std::string &w, const std::string &file) {
	Region r = region (w);
	int fd = open (file.c_str(), O_WRONLY | O_CREAT, 0644);
	if (fd < 0) die ("cannot create " + file);
	size_t len = r.es*r.n, done = 0, off = len*(size_t) commRank();
	while (done < len) {
		ssize_t k = pwrite (fd, r.p + done, len - done, off + done);
		if (k <= 0) die ("short write " + file);
		done += k;
	}
	close (fd);
}

static double filt (const std::string &name, double x) {
	if (name == "id")  return x;
	if (name == "abs") return fabs(x);
	if (name == "log") return log10(x);
	if (name == "sq")  return x*x;
	die ("unknown filter");
}

static void info () {
	if (ax == nullptr) die ("info: no field");
	std::ostringstream o;
	double z = *ax->zV();
	o << kv("z", z) << "," << kv("R", *ax->RV()) << "," << kv("folded", ax->Folded()) << "," << kv("m2folded", ax->M2Folded()) << "," << kv("field", ax->Field())
	  << "," << kv("m2", ax->m2Status()) << "," << kv("sd", ax->sDStatus()) << "," << kv("mmom", ax->MMomSpace()) << "," << kv("vmom", ax->VMomSpace())
	  << "," << kv("prec", ax->Precision()) << "," << kv("n1", ax->Length()) << "," << kv("lz", ax->Depth()) << "," << kv("tz", ax->TotalDepth())
	  << "," << kv("ng", ax->getNg()) << "," << kv("fsize", ax->DataSize()) << "," << kv("lambdaT", ax->LambdaT()) << "," << kv("L", ax->BckGnd()->PhysSize());
	ev ("info", o.str());
}

template<typename Float, typename Src>
static void doBin (const std::string &what, const std::string &flt, size_t nb, size_t padded, size_t data) {
	Region r = region (what);
	size_t n = data ? ax->Size()/data*padded : ax->Size();
	std::function<double(Src)> f = [&](Src x) -> double { return filt (flt, (double) std::abs(x) * ((flt == "id" || flt == "sq") && std::real(x) < 0 ? -1. : 1.)); };
	#define BINCASE(NB) if (nb == NB) { Binner<NB, Src> b (reinterpret_cast<Src *>(r.p), n, f); if (data) b.setpad (padded, data); b.run(); \
		double *d = (double *) b.data(); ev ("bin", kv("min", b.min()) + "," + kv("max", b.max()) + ",\"bins\":" + jarr (d, NB)); return; }
	BINCASE(7) BINCASE(100) BINCASE(3000)
	die ("bin number not instantiated");
}

static void run (const std::string &cmdline) {
	std::istringstream in (cmdline);
	std::vector<std::string> t; std::string s;
	while (in >> s) t.push_back (s);
	if (t.empty() || t[0][0] == '#') return;
	auto D = [&](size_t i) { if (i >= t.size()) die ("missing argument"); return strtod (t[i].c_str(), nullptr); };
	auto I = [&](size_t i) { if (i >= t.size()) die ("missing argument"); return strtoll (t[i].c_str(), nullptr, 0); };
	const std::string &c = t[0];

	if (c == "mark") { ev ("mark", "\"id\":\"" + t[1] + "\""); return; }
	if (c == "set") {
		const std::string &k = t[1]; double v = D(2);
		if      (k == "L")       cosmos->SetPhysSize (v);
		else if (k == "lambda")  cosmos->SetLambda (v);
		else if (k == "lz2e")    cosmos->SetLamZ2Exp (v);
		else if (k == "indi3")   cosmos->SetIndi3 (v);
		else if (k == "gamma")   cosmos->SetGamma (v);
		else if (k == "dectime") cosmos->SetDecTime (v);
		else if (k == "nqcd")    cosmos->SetQcdExp (v);
		else if (k == "nqcdr")   cosmos->SetQcdExpr (v);
		else if (k == "pot")     cosmos->SetQcdPot ((VqcdType) (int) v);
		else if (k == "frw")     cosmos->SetFrw (v);
		else if (k == "mink")    cosmos->SetMink (v != 0.);
		else if (k == "zth")     cosmos->SetZThRes (v);
		else if (k == "zre")     cosmos->SetZRestore (v);
		else if (k == "wdz")     wDz = v;
		else if (k == "grav")    cosmos->ICData().grav = v;
		else if (k == "icbeta")  cosmos->ICData().beta = v;
		else if (k == "zi")      cosmos->ICData().zi = v;
		else if (k == "extrav")  cosmos->ICData().extrav = v;
		else if (k == "fIndex")  fIndex = (int) v;
		else if (k == "ftype")   fTypeP = (FieldType) (int) v;
		else if (k == "ptype")   pType = (PropType) (int) v;
		else if (k == "threads") omp_set_num_threads ((int) v);
		else die ("unknown set " + k);
		return;
	}
	if (c == "new") {	// new prec N Lz field ltype Ng lowmem z
		int keep = fIndex; fIndex = 0;
		double zi = D(8);
		cosmos->ICData().zi = zi;
		cosmos->ICData().cType = CONF_NONE;
		cosmos->ICData().Nghost = I(6);
		sizeN = I(2); sizeZ = I(3); sPrec = (FieldPrecision) I(1); zGrid = commSize(); zInit = zi; lType = (LambdaType) I(5);
		ax = new Scalar (cosmos, I(2), I(3), (FieldPrecision) I(1), DEV_CPU, zi, I(7) != 0, commSize(), (FieldType) I(4), (LambdaType) I(5), I(6));
		fIndex = keep;
		return;
	}
	if (c == "gen") {	// as the programs do, from the command line
		ax = new Scalar (cosmos, sizeN, sizeZ, sPrec, cDev, zInit, lowmem, zGrid, fTypeP, lType, cosmos->ICData().Nghost);
		return;
	}
	if (c == "read")  { cosmos->ICData().cType = CONF_NONE; fIndex = (int) I(1); readConf (cosmos, &ax, (int) I(1), t.size() > 2 && I(2) != 0); ev ("read", kv ("ok", ax != nullptr)); return; }
	if (c == "write") { if (cosmos->ICData().cType == CONF_NONE) cosmos->ICData().cType = CONF_SMOOTH; writeConf (ax, (int) I(1), t.size() > 2 && I(2) != 0); return; }
	if (c == "del")   { delete ax; ax = nullptr; fftwf_mpi_cleanup(); fftw_mpi_cleanup(); return; }	// lets the next field plan MPI transforms again
	if (c == "store") { slot[t[1]] = ax; return; }
	if (c == "use")   { ax = slot.at(t[1]); return; }
	if (c == "z")     { *ax->zV() = D(1); ax->updateR(); return; }
	if (c == "field") { ax->setField ((FieldType) I(1)); return; }
	if (c == "load")  { load (t[1], t[2], t.size() > 3 ? I(3) : 0); return; }
	if (c == "dump")  { dumpTo (t[1], t[2]); return; }
	if (c == "setfolded") { ax->setFolded (I(1) != 0); return; }
	if (c == "setm2")     { ax->setM2 ((StatusM2) I(1)); return; }
	if (c == "setsd")     { ax->setSD ((StatusSD) I(1)); return; }
	if (c == "fold")   { Folder f (ax); f (FOLD_ALL);   return; }
	if (c == "unfold") { Folder f (ax); f (UNFOLD_ALL); return; }
	if (c == "slice")  { Folder f (ax); f (UNFOLD_SLICE, I(1)); return; }
	if (c == "sliceyz"){ Folder f (ax); f (UNFOLD_SLICEYZ, I(1)); return; }
	if (c == "foldm2")   { Folder f (ax); f (FOLD_M2);   return; }
	if (c == "unfoldm2") { Folder f (ax); f (UNFOLD_M2); return; }
	if (c == "slicem2")  { Folder f (ax); f (UNFOLD_SLICEM2, I(1)); return; }
	if (c == "setm2folded") { ax->setM2Folded (I(1) != 0); return; }
	if (c == "poison") {	// fill ghosts (and m2 if asked) with a value: stale data becomes visible
		double v = t.size() > 1 ? D(1) : NAN;
		auto fill = [&](char *p, size_t bytes) {
			if (ax->Precision() == FIELD_DOUBLE) for (size_t i = 0; i < bytes/8; i++) ((double *) p)[i] = v;
			else for (size_t i = 0; i < bytes/4; i++) ((float *) p)[i] = (float) v;
		};
		size_t g = ax->DataSize()*ax->Surf()*ax->getNg();
		fill ((char *) ax->mFrontGhost(), g);
		fill ((char *) ax->mBackGhost(),  g);
		if (t.size() > 2 && I(2)) fill ((char *) ax->m2Cpu(), ax->DataSize()*ax->eSize());
		return;
	}
	if (c == "info")  { info (); return; }
	if (c == "init")  { pType = (PropType) I(1); Nng = (int) I(2); initPropagator ((PropType) I(1), ax, cosmos->QcdPot(), (int) I(2));
			    if (prop == nullptr) die ("no propagator"); return; }
	if (c == "block") { prop->SetBlockX (I(1)); prop->SetBlockY (I(2)); prop->SetBlockZ (I(3)); prop->UpdateBestBlock(); prop->Tune(); return; }
	if (c == "blockdefault") { prop->InitBlockSize (ax->Length(), ax->Depth(), ax->DataSize(), ax->DataAlign());
			    prop->SetBlockY (ax->Length()*ax->DataSize()/ax->DataAlign()); prop->SetBlockZ (ax->Depth()); prop->UpdateBestBlock(); prop->Tune(); return; }
	if (c == "tune")  { tunePropagator (ax); ev ("tune", kv("bx", prop->BlockX()) + "," + kv("by", prop->BlockY()) + "," + kv("bz", prop->BlockZ()) + "," +
			    kv("tx", prop->TunedBlockX()) + "," + kv("ty", prop->TunedBlockY()) + "," + kv("tz", prop->TunedBlockZ()) + "," + kv("tuned", prop->IsTuned())); return; }
	if (c == "prop")  { long n = t.size() > 2 ? I(2) : 1; for (long i = 0; i < n; i++) propagate (ax, D(1)); return; }
	if (c == "propauto") { long n = I(1); for (long i = 0; i < n; i++) { double z0 = *ax->zV(), d = ax->dzSize(); propagate (ax, d); ev ("auto", kv("z0", z0) + "," + kv("dz", d) + "," + kv("z1", *ax->zV())); } return; }
	if (c == "dzsize") {	// automatic step, at the current time and at the times given
		std::ostringstream o; o << kv("now", ax->dzSize()) << ",\"at\":[";
		for (size_t i = 1; i < t.size(); i++) o << (i > 1 ? "," : "") << num(ax->dzSize(D(i)));
		o << "]"; ev ("dzsize", o.str()); return; }
	if (c == "initgravity") { initGravity (ax); return; }
	if (c == "hybrid") { setHybridMode (I(1) != 0); return; }
	if (c == "gravpot") { calculateGraviPotential (); return; }
	if (c == "exchange") { ax->exchangeGhosts ((FieldIndex) I(1)); return; }
	if (c == "sendghosts") { ax->sendGhosts ((FieldIndex) I(1), COMM_SDRV); ax->sendGhosts ((FieldIndex) I(1), COMM_WAIT); return; }
	if (c == "bg") {	// background functions at the given times, plus the field's own view after moving to that time
		for (size_t i = 1; i < t.size(); i++) {
			double z = D(i); auto *b = cosmos;
			std::ostringstream o;
			o << kv("z", z) << "," << kv("R", b->R(z)) << "," << kv("Rp", b->Rp(z)) << "," << kv("Rpp", b->Rpp(z)) << "," << kv("mA2", b->AxionMass2(z))
			  << "," << kv("mS2", b->SaxionMass2(z)) << "," << kv("lam", b->LambdaP(z)) << "," << kv("dmA2", b->DAxionMass2Dct(z)) << "," << kv("dlog", b->DlogMARDlogct(z));
			if (ax != nullptr) {
				double zo = *ax->zV(); *ax->zV() = z; ax->updateR();
				o << "," << kv("fR", *ax->RV()) << "," << kv("fmA", ax->AxionMass()) << "," << kv("fmA2", ax->AxionMassSq()) << "," << kv("fmS2", ax->SaxionMassSq())
				  << "," << kv("fRpp", ax->Rpp()) << "," << kv("fHub", ax->HubbleConformal()) << "," << kv("fHub2", ax->HubbleMassSq()) << "," << kv("fLam", ax->LambdaP())
				  << "," << kv("fMsa", ax->Msa()) << "," << kv("fdz", ax->dzSize()) << "," << kv("fRct", ax->Rfromct(z)) << "," << kv("fmA2z", ax->AxionMassSq(z))
				  << "," << kv("fmS2z", ax->SaxionMassSq(z)) << "," << kv("fmAz", ax->AxionMass(z)) << "," << kv("fdzz", ax->dzSize(z))
				  << "," << kv("fshift", ax->Saskia()) << "," << kv("fsshift", ax->SaxionShift());
				*ax->zV() = zo; ax->updateR();
				// the explicit-time variants, with the field sitting at another time
				o << "," << kv("omA2", ax->AxionMassSq(z)) << "," << kv("omS2", ax->SaxionMassSq(z)) << "," << kv("oR", ax->Rfromct(z)) << "," << kv("oshift", ax->Saskia(z)) << "," << kv("osshift", ax->SaxionShift(z));
			}
			ev ("bg", o.str());
		}
		return;
	}
	if (c == "imass") {
		ev ("imass", kv("a", D(1)) + "," + kv("b", D(2)) + "," + kv("n", I(3)) + "," + kv("I", ax->IAxionMassSqn (D(1), D(2), I(3))) + "," + kv("II", ax->IIAxionMassSqn (D(1), D(2), I(3))));
		return;
	}
	if (c == "energy") {	// energy maptype shift
		std::vector<double> e (64, -1.e300);
		energy (ax, e.data(), (EnType) I(1), t.size() > 2 ? D(2) : 0.);
		ev ("energy", "\"e\":" + jarr (e.data(), 32));
		return;
	}
	if (c == "cdens") { cDensityMap (ax, t.size() > 1 ? I(1) : 0, t.size() > 2 && I(2)); return; }
	if (c == "strings") {
		StringData d = strings (ax);
		long long loc[3] = { (long long) d.strDen_local, d.strChr_local, (long long) d.wallDn_local }, sum[3];
		MPI_Allreduce (loc, sum, 3, MPI_LONG_LONG, MPI_SUM, MPI_COMM_WORLD);
		ev ("strings", kv("den", d.strDen) + "," + kv("chr", d.strChr) + "," + kv("wall", d.wallDn) + "," + kv("lden", sum[0]) + "," + kv("lchr", sum[1]) + "," + kv("lwall", sum[2]));
		return;
	}
	if (c == "strings2") {
		StringData d = strings2 (ax);
		// position list: unsigned short triples in m2
		size_t n = d.strDen_local;
		std::string f = t[1];
		const unsigned short *p = static_cast<const unsigned short *>(ax->m2Cpu());
		for (int r = 0; r < commSize(); r++) {
			if (r == commRank()) { FILE *h = fopen (f.c_str(), r ? "ab" : "wb"); fwrite (p, 6, n, h); fclose (h); }
			commSync();
		}
		ev ("strings2", kv("den", d.strDen) + "," + kv("chr", d.strChr) + "," + kv("wall", d.wallDn));
		return;
	}
	if (c == "strlen") {
		StringData d = strings (ax);
		StringData l = stringlength (ax, d, (StringMeasureType) I(1));
		ev ("strlen", kv("den", l.strDen) + "," + kv("len", l.strLen) + "," + kv("deng", l.strDeng) + "," + kv("vel", l.strVel) + "," + kv("vel2", l.strVel2) + "," + kv("gam", l.strGam));
		return;
	}
	if (c == "strene") {
		StringEnergyData e = stringenergy (ax);
		ev ("strene", kv("str", e.rho_str) + "," + kv("a", e.rho_a) + "," + kv("s", e.rho_s) + "," + kv("strV", e.rho_str_Vil) + "," + kv("aV", e.rho_a_Vil) + "," + kv("sV", e.rho_s_Vil) + "," + kv("nout", (double) e.nout));
		return;
	}
	if (c == "totheta") { cmplxToTheta (ax, t.size() > 1 ? D(1) : 0., t.size() > 2 && I(2)); return; }
	if (c == "tocmplx") { theta2Cmplx (ax); return; }
	if (c == "tonaxion") { thetaToNaxion (ax); return; }
	if (c == "topaxion") { thetaToPaxion (ax); return; }
	if (c == "mend") { size_t n = mendTheta (ax); ev ("mend", kv ("n", n)); return; }
	if (c == "norm") { normaliseField (ax, (FieldIndex) I(1)); return; }
	if (c == "normcore") { normCoreField (ax); return; }
	if (c == "scale") { scaleField (ax, (FieldIndex) I(1), D(2)); return; }
	if (c == "bin") {	// bin region filter nbins
		bool cplx = region(t[1]).es != (size_t) ax->Precision();
		size_t pl = t.size() > 5 ? I(4) : 0, dl = t.size() > 5 ? I(5) : 0;
		if (ax->Precision() == FIELD_DOUBLE) { if (cplx) doBin<double, std::complex<double>> (t[1], t[2], I(3), pl, dl); else doBin<double, double> (t[1], t[2], I(3), pl, dl); }
		else                                 { if (cplx) doBin<float,  std::complex<float>>  (t[1], t[2], I(3), pl, dl); else doBin<float,  float>  (t[1], t[2], I(3), pl, dl); }
		return;
	}
	if (c == "spec") {	// spec what nbins [arg]
		MeasInfo mi = deninfa; mi.nbinsspec = (int) I(2);
		if (ax->Folded()) { Folder f (ax); f (UNFOLD_ALL); }
		SpecBin b (ax, false, mi);
		const std::string &w = t[1];
		bool g = false;
		if      (w == "nrun")  b.nRun (t.size() > 4 ? (SpectrumMaskType) I(4) : SPMASK_FLAT, (nRunType) I(3));
		else if (w == "nsrun") b.nSRun (t.size() > 4 ? (SpectrumMaskType) I(4) : SPMASK_FLAT, (nRunType) I(3));
		else if (w == "prun")  b.pRun ();
		else if (w == "nmod")  b.nmodRun ();
		else if (w == "avek")  b.avekRun ();
		else die ("unknown spectrum");
		(void) g;
		std::ostringstream o;
		size_t n = b.PowMax();	// number of bins in use
		o << kv("n", n) << ",\"what\":\"" << w << "\"";
		auto put = [&](const char *nm, SpectrumType st) { o << ",\"" << nm << "\":" << jarr (b.data(st), n); };
		put ("K", SPECTRUM_KK); put ("G", SPECTRUM_GG); put ("V", SPECTRUM_VV); put ("VNL", SPECTRUM_VVNL); put ("P", SPECTRUM_P);
		if (w == "nmod") put ("NN", SPECTRUM_NN);
		if (w == "avek") put ("AK", SPECTRUM_AK);
		ev ("spec", o.str());
		return;
	}
	if (c == "masker") {	// masker radius mask out nbins : mask from the defects found before
		MeasInfo mi = deninfa; mi.nbinsspec = (int) I(4);
		SpecBin b (ax, false, mi);
		b.masker (D(1), (SpectrumMaskType) I(2), (StatusM2) I(3));
		std::ostringstream o; o << kv("n", b.PowMax()) << ",\"P\":" << jarr (b.data(SPECTRUM_P), b.PowMax());
		ev ("masker", o.str());
		return;
	}
	if (c == "smooth") {	// smooth length filter : the result stays padded in m2
		MeasInfo mi = deninfa; mi.nbinsspec = -1;
		if (ax->Folded()) { Folder f (ax); f (UNFOLD_ALL); }
		SpecBin b (ax, false, mi);
		b.smoothFourier (D(1), (FilterIndex) I(2));
		return;
	}
	if (c == "sdmask") {	// sdmask prob seed status: mark sites by a hash of their global index
		char *sd = static_cast<char *>(ax->sData()); size_t V = ax->Size(), off = V*commRank();
		for (size_t i = 0; i < V; i++) { uint64_t h = (i+off)*0x9E3779B97F4A7C15ull + (uint64_t) I(2)*0xD1B54A32D192ED03ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; sd[i] = ((h & 1023) < (uint64_t) I(1)) ? STRING_MASK : 0; }
		ax->setSD ((StatusSD) I(3));
		return;
	}
	if (c == "ft") { FTfield f (ax); f ((FieldIndex) I(1), (FFTdir) I(2)); return; }
	if (c == "project") {	// project filter
		std::string fl = t[1];
		projectField (ax, [fl](double x) -> double { return filt (fl, x); });
		return;
	}
	if (c == "reduce") {	// reduce newN newLz fieldindex filter inplace -> becomes current if not in place
		size_t nx = I(1), nz = I(2); int fi = I(3); double cut = D(4); bool ip = I(5) != 0;
		Scalar *r; int keep = fIndex; fIndex = 0;
		if (ax->Precision() == FIELD_DOUBLE)
			r = reduceField (ax, nx, nz, (FieldIndex) fi, [cut](int x, int y, int z, std::complex<double> v) -> std::complex<double> { double k2 = (double) x*x + (double) y*y + (double) z*z; return v*exp(-cut*k2); }, ip);
		else
			r = reduceField (ax, nx, nz, (FieldIndex) fi, [cut](int x, int y, int z, std::complex<float> v) -> std::complex<float> { double k2 = (double) x*x + (double) y*y + (double) z*z; return v*((float) exp(-cut*k2)); }, ip);
		ax = r; fIndex = keep;
		return;
	}
	if (c == "wkb") {	// wkb z1 z2 ... : WKB evolution of the axion field in place
		AxionWKB::WKB w (ax, ax);
		for (size_t i = 1; i < t.size(); i++) { w (D(i)); }
		return;
	}
	if (c == "meas") {	// meas index type
		MeasInfo mi = deninfa; mi.index = (int) I(1); mi.measdata = (MeasureType) I(2);
		MeasData d = Measureme (ax, mi);
		ev ("meas", kv("den", d.str.strDen) + "," + kv("wall", d.str.wallDn) + "," + kv("maxTheta", d.maxTheta));
		return;
	}
	if (c == "params") {
		auto &ic = cosmos->ICData();
		std::ostringstream o;
		o << kv("sizeN", sizeN) << "," << kv("sizeZ", sizeZ) << "," << kv("zGrid", zGrid) << "," << kv("nSteps", nSteps) << "," << kv("dump", dump) << "," << kv("fIndex", fIndex)
		  << "," << kv("zInit", zInit) << "," << kv("zFinl", zFinl) << "," << kv("wDz", wDz) << "," << kv("uwDz", uwDz) << "," << kv("Nng", Nng) << "," << kv("sPrec", sPrec) << "," << kv("lType", lType)
		  << "," << kv("pType", pType) << "," << kv("fTypeP", fTypeP) << "," << kv("lowmem", lowmem) << "," << kv("aMod", aMod)
		  << "," << kv("L", cosmos->PhysSize()) << "," << kv("lambda", cosmos->Lambda()) << "," << kv("lz2e", cosmos->LamZ2Exp()) << "," << kv("indi3", cosmos->Indi3()) << "," << kv("gamma", cosmos->Gamma())
		  << "," << kv("dectime", cosmos->DecTime()) << "," << kv("nqcd", cosmos->QcdExp()) << "," << kv("nqcdr", cosmos->QcdExpr()) << "," << kv("pot", cosmos->QcdPot()) << "," << kv("frw", cosmos->Frw())
		  << "," << kv("mink", cosmos->Mink()) << "," << kv("zth", cosmos->ZThRes()) << "," << kv("zre", cosmos->ZRestore())
		  << "," << kv("zi", ic.zi) << "," << kv("logi", ic.logi) << "," << kv("cType", ic.cType) << "," << kv("kcr", ic.kcr) << "," << kv("kMax", ic.kMax) << "," << kv("siter", ic.siter) << "," << kv("alpha", ic.alpha)
		  << "," << kv("mode0", ic.mode0) << "," << kv("msa", msa) << "," << kv("fA", 0) << "," << kv("smvar", ic.smvarType) << "," << kv("ng", ic.Nghost);
		ev ("params", o.str());
		return;
	}
	if (c == "canary") {	/* deliberate errors, to see that the sanitizers are awake */
		volatile size_t n = 10; char *b = new char[n]; volatile int s = 40; static volatile int sink;
		if (t[1] == "heap")   sink = static_cast<volatile char *> (b)[n];
		if (t[1] == "ub")     sink = 1 << s;
		if (t[1] == "uninit") { if (static_cast<volatile char *> (b)[n-1] == 7) sink = 8; }
		if (t[1] == "race") {
			int sum = 0;
			#pragma omp parallel for
			for (int i = 0; i < 100; i++) sum += i;
			sink = sum;
		}
		delete[] b; return;
	}
	if (c == "sync") { commSync (); return; }
	die ("unknown command " + c);
}

int main (int argc, char *argv[]) {
	const char *script = getenv ("DRV_SCRIPT");
	const char *lg     = getenv ("DRV_LOG");
	if (script == nullptr || lg == nullptr) { fprintf (stderr, "DRV_SCRIPT/DRV_LOG unset\n"); return 78; }
	if (getenv ("DRV_ESTIMATE")) fftplanType = 64;
	Cosmos myCosmos = initAxions (argc, argv);
	cosmos = &myCosmos;
	shim::setup ();
	if (getenv ("DRV_ESTIMATE")) fftplanType = 64;	// FFTW_ESTIMATE
	if (commRank() == 0) logf_ = fopen (lg, "w");
	std::ifstream in (script);
	std::string line;
	while (std::getline (in, line)) { lineNo++; run (line); }
	if (shim::on) {
		long loc[4] = { shim::starts, shim::waits, shim::changed, shim::delays }, sum[4]; double by = 0; unsigned long long oh = shim::orderHash, ox = 0;
		long open = 0, osum = 0; for (auto &q : shim::reqs) open += q.second.active;
		MPI_Allreduce (loc, sum, 4, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
		MPI_Allreduce (&open, &osum, 1, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
		MPI_Allreduce (&shim::bytes, &by, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
		MPI_Allreduce (&oh, &ox, 1, MPI_UNSIGNED_LONG_LONG, MPI_SUM, MPI_COMM_WORLD);
		std::ostringstream o; o << kv("starts", sum[0]) << "," << kv("waits", sum[1]) << "," << kv("changed", sum[2]) << "," << kv("delays", sum[3]) << "," << kv("open", osum) << "," << kv("bytes", by) << ",\"order\":\"" << std::hex << ox << "\"";
		ev ("mpi", o.str());
	}
	ev ("end", "");
	endAxions ();
	if (logf_) fclose (logf_);
	return 0;
}
