/* Scripted driver of the jaxions library.
 *
 *   mpirun -np R jaxdrv SCRIPT OUTPREFIX [jaxions command line ...]
 *
 * It executes the commands of SCRIPT (one per line, the same on every rank) through the public interface of the
 * library and records, on rank 0, one JSON event per command in OUTPREFIX.ndjson.  Arrays go to binary files of
 * little-endian doubles (OUTPREFIX.<tag>.bin), gathered in rank order.  A real number in an event is a pair
 * [hi, lo] of the two signed 32-bit halves of its IEEE-754 representation (see spec/Real64.tla). */
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <sstream>
#include <iostream>
#include <functional>
#include <omp.h>
#include <unistd.h>

#include "drv.h"
#include "utils/utils.h"
#include "comms/comms.h"
#include "scalar/scalar.h"
#include "scalar/scalarField.h"
#include "scalar/folder.h"
#include "scalar/fourier.h"
#include "scalar/mendTheta.h"
#include "scalar/theta2Cmplx.h"
#include "scalar/thetaScalar.h"
#include "propagator/allProp.h"
#include "gravity/potential.h"
#include "WKB/WKB.h"
#include "energy/energy.h"
#include "strings/strings.h"
#include "io/readWrite.h"
#include "fft/fftCode.h"
#include "meas/measa.h"
#include <hdf5.h>

using namespace std;

Cosmos cosmos_;
Scalar *f = nullptr;
map<string, Scalar*> slots;
string prefix;
static FILE *evf = nullptr;
map<string, function<void(Args&)>> &commands() { static map<string, function<void(Args&)>> c; return c; }
map<string, double> vars;

int Rk() { return commRank(); }
int Nr() { return commSize(); }

string J(double d)
{
	int32_t h[2];
	memcpy(h, &d, 8);
	char b[64];
	snprintf(b, 64, "[%d,%d]", h[1], h[0]);
	return b;
}

void emit(const string &line)
{
	if (Rk() == 0) { fputs(line.c_str(), evf); fputc('\n', evf); fflush(evf); }
}

/* Gathers n doubles of every rank in rank order and writes them to OUTPREFIX.tag.bin */
string gatherFile(const string &tag, const vector<double> &mine)
{
	int n = (int) mine.size(), R = Nr();
	vector<int> cnt(R), off(R);
	MPI_Gather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
	size_t tot = 0;
	for (int r = 0; r < R; r++) { off[r] = tot; tot += cnt[r]; }
	vector<double> all(Rk() == 0 ? tot : 0);
	MPI_Gatherv((void*) mine.data(), n, MPI_DOUBLE, all.data(), cnt.data(), off.data(), MPI_DOUBLE, 0, MPI_COMM_WORLD);
	string name = prefix + "." + tag + ".bin";
	if (Rk() == 0) {
		FILE *o = fopen(name.c_str(), "wb");
		fwrite(all.data(), 8, all.size(), o);
		fclose(o);
	}
	return name;
}

double getElem(const void *p, size_t i, size_t prec)
{
	return prec == 8 ? ((const double*) p)[i] : (double) ((const float*) p)[i];
}

void setElem(void *p, size_t i, size_t prec, double x)
{
	if (prec == 8) ((double*) p)[i] = x; else ((float*) p)[i] = (float) x;
}

/* Number of real components per site of the field type now */
size_t comps(Scalar *a) { return a->DataSize()/((size_t) a->Precision()); }

static uint64_t mix(uint64_t x)
{
	x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30))*0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27))*0x94d049bb133111ebull; return x ^ (x >> 31);
}

/* Address of a named buffer and its number of sites */
void *buffer(Scalar *a, const string &w, size_t &sites)
{
	size_t S = a->Surf(), n3 = a->Size(), v3 = a->eSize();
	if (w == "m")   { sites = n3; return a->mStart(); }
	if (w == "v")   { sites = n3; return a->vStart(); }
	if (w == "vc")  { sites = n3; return a->vCpu(); }
	if (w == "m2")  { sites = n3; return a->m2Start(); }
	if (w == "m2c") { sites = n3; return a->m2Cpu(); }
	if (w == "mr")  { sites = n3/comps(a); return a->mStart(); }   // one real number per site, whatever the type
	if (w == "vr")  { sites = n3/comps(a); return a->vStart(); }
	if (w == "er")  { sites = n3/comps(a); return a->m2Cpu(); }    // an energy map
	if (w == "M")   { sites = v3; return a->mCpu(); }        // with both ghost regions
	if (w == "M2")  { sites = v3; return a->m2Cpu(); }
	if (w == "V")   { sites = (a->Field() == FIELD_PAXION) ? v3 : n3 + 2*S; return a->vCpu(); }
	if (w == "mf")  { sites = S*a->getNg(); return a->mFrontGhost(); }
	if (w == "mb")  { sites = S*a->getNg(); return a->mBackGhost(); }
	if (w == "m2f") { sites = S*a->getNg(); return a->m2FrontGhost(); }
	if (w == "vg")  { sites = 2*S; return a->vGhost(); }
	if (w == "slm") { sites = S; return a->mFrontGhost(); }   // where an extracted slice goes
	if (w == "slv") { sites = S; return a->mBackGhost(); }
	if (w == "slm2"){ sites = S; return a->m2FrontGhost(); }
	fprintf(stderr, "drv: unknown buffer %s\n", w.c_str());
	MPI_Abort(MPI_COMM_WORLD, 97);
	return nullptr;
}

string fieldState(Scalar *a)
{
	ostringstream o;
	o << "\"z\":" << J(*a->zV()) << ",\"R\":" << J(*a->RV()) << ",\"ftype\":" << (int) a->Field()
	  << ",\"folded\":" << (a->Folded() ? "true" : "false") << ",\"m2folded\":" << (a->M2Folded() ? "true" : "false")
	  << ",\"mmom\":" << (a->MMomSpace() ? "true" : "false") << ",\"vmom\":" << (a->VMomSpace() ? "true" : "false")
	  << ",\"m2st\":" << (int) a->m2Status() << ",\"sdst\":" << (int) a->sDStatus()
	  << ",\"fsize\":" << a->DataSize() << ",\"shift\":" << a->Shift()
	  << ",\"Lx\":" << a->Length() << ",\"Lz\":" << a->Depth() << ",\"Tz\":" << a->TotalDepth()
	  << ",\"prec\":" << (int) a->Precision() << ",\"Ng\":" << a->getNg()
	  << ",\"ltype\":" << (int) a->LambdaT() << ",\"lowmem\":" << (a->LowMem() ? "true" : "false");
	return o.str();
}

string cosmosState(Cosmos *c)
{
	ostringstream o;
	o << "\"L\":" << J(c->PhysSize()) << ",\"lambda\":" << J(c->Lambda()) << ",\"lz2e\":" << J(c->LamZ2Exp())
	  << ",\"indi3\":" << J(c->Indi3()) << ",\"gamma\":" << J(c->Gamma()) << ",\"dectime\":" << J(c->DecTime())
	  << ",\"nqcd\":" << J(c->QcdExp()) << ",\"nqcdr\":" << J(c->QcdExpr()) << ",\"zthres\":" << J(c->ZThRes())
	  << ",\"zrestore\":" << J(c->ZRestore()) << ",\"frw\":" << J(c->Frw()) << ",\"mink\":" << (c->Mink() ? "true" : "false")
	  << ",\"pot\":" << (int) c->QcdPot() << ",\"grav\":" << J(c->ICData().grav) << ",\"beta\":" << J(c->ICData().beta) << ",\"uec\":" << (c->UeC() ? "true" : "false");
	return o.str();
}

string base(const string &name) { return "{\"e\":\"" + name + "\""; }

static Reg r_init("cosmos", [](Args &a) {        // cosmos key value : sets one background parameter
	string k = a.str(); double x = a.num();
	Cosmos &c = cosmos_;
	if (k == "L") c.SetPhysSize(x); else if (k == "lambda") c.SetLambda(x); else if (k == "lz2e") c.SetLamZ2Exp(x);
	else if (k == "indi3") c.SetIndi3(x); else if (k == "gamma") c.SetGamma(x); else if (k == "dectime") c.SetDecTime(x);
	else if (k == "nqcd") c.SetQcdExp(x); else if (k == "nqcdr") c.SetQcdExpr(x); else if (k == "zthres") c.SetZThRes(x);
	else if (k == "zrestore") c.SetZRestore(x); else if (k == "frw") c.SetFrw(x); else if (k == "pot") c.SetQcdPot((VqcdType) (int) x);
	else if (k == "mink") c.SetMink(x != 0); else if (k == "grav") c.ICData().grav = x; else if (k == "zi") c.ICData().zi = x; else if (k == "beta") c.ICData().beta = x;
	else { fprintf(stderr, "drv: unknown cosmos key %s\n", k.c_str()); MPI_Abort(MPI_COMM_WORLD, 97); }
});

static bool keepic = false;
static Reg r_keepic("keepic", [](Args &) { keepic = true; });

static Reg r_scalar("scalar", [](Args &a) {      // scalar Lx Lz prec ftype ltype lowmem Ng : Lz per rank
	size_t lx = a.num(), lz = a.num(); int prec = a.num(), ft = a.num(), lt = a.num(), lm = a.num(), ng = a.num();
	if (fIndex == -1) fIndex = 0;
	if (!keepic) cosmos_.ICData().cType = CONF_NONE;   // the constructor generates initial conditions otherwise
	f = new Scalar(&cosmos_, lx, lz, prec == 8 ? FIELD_DOUBLE : FIELD_SINGLE, DEV_CPU, cosmos_.ICData().zi, lm != 0, Nr(),
		       (FieldType) ft, (LambdaType) lt, ng);
	emit(base("New") + "," + fieldState(f) + ",\"ranks\":" + to_string(Nr()) + ",\"cosmos\":{" + cosmosState(&cosmos_) + "}}");
});

static Reg r_setz("setz", [](Args &a) { f->setZ(a.num()); f->updateR(); emit(base("SetZ") + "," + fieldState(f) + "}"); });

static Reg r_load("load", [](Args &a) {          // load buffer file : the physical region, global, in lattice order
	string w = a.str(), file = a.str();
	size_t sites; void *p = buffer(f, w, sites);
	size_t n = sites*comps(f), prec = f->Precision();
	vector<double> x(n);
	FILE *in = fopen(file.c_str(), "rb");
	if (!in || fseek(in, (long) (8*n*Rk()), SEEK_SET) || fread(x.data(), 8, n, in) != n) {
		fprintf(stderr, "drv: cannot read %s\n", file.c_str()); MPI_Abort(MPI_COMM_WORLD, 97);
	}
	fclose(in);
	for (size_t i = 0; i < n; i++) setElem(p, i, prec, x[i]);
	for (size_t i = 0; i < n; i++) x[i] = getElem(p, i, prec);
	string file2 = gatherFile(a.tag("load_" + w), x);
	emit(base("Load") + ",\"w\":\"" + w + "\",\"file\":\"" + file2 + "\"}");
});

static Reg r_code("code", [](Args &a) {          // code buffer : element i of rank r gets r*2^20 + i (+ offset), exact in float up to 2^24
	string w = a.str(); double off = a.num();
	size_t sites; void *p = buffer(f, w, sites);
	size_t n = sites*comps(f), prec = f->Precision();
	for (size_t i = 0; i < n; i++) setElem(p, i, prec, off + (double) Rk()*n + i);
	emit(base("Code") + ",\"w\":\"" + w + "\",\"off\":" + to_string((long) off) + ",\"n\":" + to_string(n) + "}");
});

static Reg r_dump("dump", [](Args &a) {          // dump buffer : as it lies in memory, rank after rank
	string w = a.str();
	size_t sites; void *p = buffer(f, w, sites);
	size_t n = sites*comps(f), prec = f->Precision();
	vector<double> x(n);
	for (size_t i = 0; i < n; i++) x[i] = getElem(p, i, prec);
	string file = gatherFile(a.tag("d_" + w), x);
	emit(base("Dump") + ",\"w\":\"" + w + "\",\"n\":" + to_string(n) + ",\"file\":\"" + file + "\"," + fieldState(f) + "}");
});

static Reg r_dumpn("dumpreals", [](Args &a) {    // dumpreals buffer count : count reals per rank from its start
	string w = a.str(); size_t n = a.num();
	size_t sites, prec = f->Precision(); void *p = buffer(f, w, sites);
	vector<double> x(n);
	for (size_t i = 0; i < n; i++) x[i] = getElem(p, i, prec);
	string file = gatherFile(a.tag("d_" + w), x);
	emit(base("Dump") + ",\"w\":\"" + w + "\",\"n\":" + to_string(n) + ",\"file\":\"" + file + "\"," + fieldState(f) + "}");
});

static Reg r_dumps("dumpstr", [](Args &a) {      // dumpstr : the defect map, one byte per site
	size_t n = f->Size();
	vector<double> x(n);
	for (size_t i = 0; i < n; i++) x[i] = ((unsigned char*) f->sData())[i];
	string file = gatherFile(a.tag("d_str"), x);
	emit(base("Dump") + ",\"w\":\"str\",\"n\":" + to_string(n) + ",\"file\":\"" + file + "\"," + fieldState(f) + "}");
});

static Reg r_loads("loadstr", [](Args &a) {
	string file = a.str();
	size_t n = f->Size();
	vector<double> x(n);
	FILE *in = fopen(file.c_str(), "rb");
	if (!in || fseek(in, (long) (8*n*Rk()), SEEK_SET) || fread(x.data(), 8, n, in) != n) MPI_Abort(MPI_COMM_WORLD, 97);
	fclose(in);
	for (size_t i = 0; i < n; i++) ((unsigned char*) f->sData())[i] = (unsigned char) x[i];
	emit(base("LoadStr") + ",\"file\":\"" + gatherFile(a.tag("load_str"), x) + "\"}");
});

static Reg r_fold("fold", [](Args &a) {          // fold op [slice] [nodump]
	string op = a.str();
	Folder munge(f);
	if (op == "fold") munge(FOLD_ALL); else if (op == "unfold") munge(UNFOLD_ALL);
	else if (op == "foldm2") munge(FOLD_M2); else if (op == "unfoldm2") munge(UNFOLD_M2);
	else {
		size_t s = a.num();
		if (op == "slice") munge(UNFOLD_SLICE, s); else if (op == "sliceyz") munge(UNFOLD_SLICEYZ, s);
		else if (op == "slicem2") munge(UNFOLD_SLICEM2, s); else MPI_Abort(MPI_COMM_WORLD, 97);
		emit(base("Slice") + ",\"op\":\"" + op + "\",\"s\":" + to_string(s) + "," + fieldState(f) + "}");
		return;
	}
	emit(base("Fold") + ",\"op\":\"" + op + "\"," + fieldState(f) + "}");
});

static Reg r_ghost("ghosts", [](Args &a) {       // ghosts call field ng : call = ex | ex1 | old | split | dir
	string c = a.str(), w = a.str(); int ng = a.num();
	FieldIndex fi = w == "m" ? FIELD_M : w == "v" ? FIELD_V : FIELD_M2;
	if (c == "ex") f->exchangeGhosts(fi);
	else if (c == "sdrv") { f->sendGhosts2(fi, COMM_SDRV, ng); f->sendGhosts2(fi, COMM_WAIT, ng); }
	else if (c == "split") { f->sendGhosts2(fi, COMM_RECV, ng); f->sendGhosts2(fi, COMM_SEND, ng); f->sendGhosts2(fi, COMM_WAIT, ng); }
	else if (c == "split2") { f->sendGhosts2(fi, COMM_SEND, ng); f->sendGhosts2(fi, COMM_RECV, ng); f->sendGhosts2(fi, COMM_WAIT, ng); }
	else if (c == "stagger") {                   // ranks reach the exchange at different times
		usleep(1000*((Rk()*7 + ng*3) % 5));
		f->sendGhosts2(fi, COMM_SDRV, ng);
		usleep(1000*((Rk()*3 + ng) % 4));
		f->sendGhosts2(fi, COMM_WAIT, ng);
	}
	else if (c == "old") { f->sendGhosts(fi, COMM_SDRV); f->sendGhosts(fi, COMM_WAIT); }
	else MPI_Abort(MPI_COMM_WORLD, 97);
	emit(base("Ghosts") + ",\"call\":\"" + c + "\",\"w\":\"" + w + "\",\"ng\":" + to_string(ng) + "," + fieldState(f) + "}");
});

static Reg r_initprop("initprop", [](Args &a) {  // initprop ptype pot Ng(-1: default)
	int pt = a.num(), pot = a.num(), ng = a.num();
	if (pot < 0) pot = f->BckGnd()->QcdPot();
	initPropagator((PropType) pt, f, (VqcdType) pot, ng);
	emit(base("InitProp") + ",\"ptype\":" + to_string(pt) + ",\"pot\":" + to_string(pot) + ",\"ng\":" + to_string(ng) + "}");
});

static Reg r_resetprop("resetprop", [](Args &) { resetPropagator(f); });

static Reg r_tuneprop("tune", [](Args &) { tunePropagator(f); emit(base("Tune") + "," + fieldState(f) + "}"); });

static Reg r_prop("propagate", [](Args &a) {     // propagate dz n
	double dz = a.num(); int n = a.num(1);
	for (int i = 0; i < n; i++) propagate(f, dz);
	emit(base("Propagate") + ",\"dz\":" + J(dz) + ",\"n\":" + to_string(n) + "," + fieldState(f) + "}");
});

static Reg r_propauto("stepdz", [](Args &a) {    // one step of the size the library chooses
	double dz = f->dzSize();
	propagate(f, dz);
	emit(base("Propagate") + ",\"dz\":" + J(dz) + ",\"n\":1," + fieldState(f) + "}");
});

static Reg r_clock("clock", [](Args &) { emit(base("Clock") + "," + fieldState(f) + ",\"dz\":" + J(f->dzSize()) + "}"); });

static Reg r_bg("background", [](Args &a) {      // background n z1 .. zn : every background function at each time
	int n = a.num();
	for (int i = 0; i < n; i++) {
		double z = a.num();
		f->setZ(z); f->updateR();
		Cosmos *c = &cosmos_;
		ostringstream o;
		o << base("Background") << "," << fieldState(f) << ",\"cR\":" << J(c->R(z)) << ",\"cRp\":" << J(c->Rp(z)) << ",\"cRpp\":" << J(c->Rpp(z))
		  << ",\"am2\":" << J(c->AxionMass2(z)) << ",\"sm2\":" << J(c->SaxionMass2(z)) << ",\"lp\":" << J(c->LambdaP(z))
		  << ",\"dam2\":" << J(c->DAxionMass2Dct(z)) << ",\"dlog\":" << J(c->DlogMARDlogct(z))
		  << ",\"fam\":" << J(f->AxionMass()) << ",\"fam2\":" << J(f->AxionMassSq()) << ",\"fsm2\":" << J(f->SaxionMassSq())
		  << ",\"famz\":" << J(f->AxionMass(z)) << ",\"fam2z\":" << J(f->AxionMassSq(z)) << ",\"fsm2z\":" << J(f->SaxionMassSq(z))
		  << ",\"flp\":" << J(f->LambdaP()) << ",\"fmsa\":" << J(f->Msa()) << ",\"fdz\":" << J(f->dzSize()) << ",\"fdzz\":" << J(f->dzSize(z))
		  << ",\"fsask\":" << J(f->Saskia()) << ",\"fsaskz\":" << J(f->Saskia(z)) << ",\"fshift\":" << J(f->SaxionShift()) << ",\"fshiftz\":" << J(f->SaxionShift(z))
		  << ",\"fRpp\":" << J(f->Rpp()) << ",\"fH2\":" << J(f->HubbleMassSq()) << ",\"fRct\":" << J(f->Rfromct(z))
		  << ",\"delta\":" << J(f->Delta()) << ",\"wdz\":" << J(wDz) << "}";
		emit(o.str());
	}
});

static Reg r_steps("steps", [](Args &a) {        // steps n : advances the time by n steps of the chosen size, nothing else
	int n = a.num();
	string zs, rs;
	for (int i = 0; i < n; i++) {
		f->setZ(*f->zV() + f->dzSize()); f->updateR();
		zs += (i ? "," : "") + J(*f->zV()); rs += (i ? "," : "") + J(*f->RV());
	}
	emit(base("Steps") + ",\"zs\":[" + zs + "],\"rs\":[" + rs + "],\"wdz\":" + J(wDz) + "," + fieldState(f) + "}");
});

static Reg r_iam("massint", [](Args &a) {        // massint z0 z n
	double z0 = a.num(), z = a.num(); int n = a.num();
	emit(base("MassInt") + ",\"z0\":" + J(z0) + ",\"z1\":" + J(z) + ",\"n\":" + to_string(n) + ",\"i\":" + J(f->IAxionMassSqn(z0, z, n)) + "}");
});

static Reg r_cosmosrep("parsed", [](Args &a) {   // what the command line produced
	ostringstream o;
	IcData ic = cosmos_.ICData();
	o << base("Parsed") << "," << cosmosState(&cosmos_) << ",\"sizeN\":" << sizeN << ",\"sizeZ\":" << sizeZ << ",\"zgrid\":" << zGrid
	  << ",\"zInit\":" << J(zInit) << ",\"zFinl\":" << J(zFinl) << ",\"zi\":" << J(ic.zi) << ",\"logi\":" << J(ic.logi) << ",\"wdz\":" << J(wDz)
	  << ",\"ptype\":" << (int) pType << ",\"prec\":" << (int) sPrec << ",\"nng\":" << Nng << ",\"ltype\":" << (int) lType
	  << ",\"lowmem\":" << (lowmem ? "true" : "false") << ",\"ftype\":" << (int) fTypeP << ",\"dump\":" << dump << ",\"steps\":" << nSteps
	  << ",\"kcr\":" << J(ic.kcr) << ",\"mode0\":" << J(ic.mode0) << ",\"siter\":" << ic.siter << ",\"kmax\":" << ic.kMax << "}";
	emit(o.str());
});

static Reg r_setfield("setfield", [](Args &a) { f->setField((FieldType) (int) a.num()); emit(base("SetField") + "," + fieldState(f) + "}"); });
static Reg r_setfolded("setfolded", [](Args &a) { f->setFolded(a.num() != 0); });
static Reg r_m2st("setm2", [](Args &a) { f->setM2((StatusM2) (int) a.num()); });
static Reg r_sdst("setsd", [](Args &a) { f->setSD((StatusSD) (int) a.num()); });

static Reg r_slot("save_as", [](Args &a) { slots[a.str()] = f; });
static Reg r_use("use", [](Args &a) { f = slots[a.str()]; });
static Reg r_del("delete", [](Args &a) { delete f; f = nullptr; });
static Reg r_mark("mark", [](Args &a) { emit(base("Mark") + ",\"name\":\"" + a.str() + "\"}"); });

/* ---- files ---- */
static string Q(const string &s)
{
	string o = "\"";
	for (unsigned char c : s) if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c >= 32 && c < 127) o += c; else o += '?';
	return o + "\"";
}

string globalState()
{
	ostringstream o;
	IcData ic = cosmos_.ICData();
	o << "\"zInit\":" << J(zInit) << ",\"zFinl\":" << J(zFinl) << ",\"nSteps\":" << nSteps << ",\"dump\":" << dump << ",\"findex\":" << fIndex
	  << ",\"cType\":" << (int) cType << ",\"smvar\":" << (int) smvarType << ",\"mode0\":" << J(mode0) << ",\"kmax\":" << kMax << ",\"kcrit\":" << J(kCrit)
	  << ",\"siter\":" << iter << ",\"alpha\":" << J(alpha) << ",\"sprec\":" << (int) sPrec;
	return o.str();
}

static Reg r_outdir("outdir", [](Args &a) { strcpy(outDir, a.str().c_str()); });
static Reg r_global("global", [](Args &a) {      // global key value
	string k = a.str(); double x = a.num();
	if (k == "zinit") zInit = x; else if (k == "zfinl") zFinl = x; else if (k == "nsteps") nSteps = (int) x; else if (k == "dump") dump = (int) x;
	else if (k == "ctype") cType = (ConfType) (int) x; else if (k == "smvar") smvarType = (ConfsubType) (int) x; else if (k == "mode0") mode0 = x;
	else if (k == "kmax") kMax = (size_t) x; else if (k == "kcrit") kCrit = x; else if (k == "siter") iter = (size_t) x; else if (k == "alpha") alpha = x;
	else { fprintf(stderr, "drv: unknown global %s\n", k.c_str()); MPI_Abort(MPI_COMM_WORLD, 97); }
});

static Reg r_wconf("writeconf", [](Args &a) {    // writeconf index restart
	int i = a.num(), rs = a.num();
	writeConf(f, i, rs != 0);
	emit(base("WriteConf") + ",\"index\":" + to_string(i) + ",\"restart\":" + to_string(rs) + "," + fieldState(f) + ",\"cosmos\":{" + cosmosState(&cosmos_) + "},\"glob\":{" + globalState() + "}}");
});

static Reg r_rconf("readconf", [](Args &a) {     // readconf index restart
	int i = a.num(), rs = a.num();
	f = nullptr;
	readConf(&cosmos_, &f, i, rs != 0);
	emit(base("ReadConf") + ",\"ranks\":" + to_string(Nr()) + ",\"wantx\":" + to_string(sizeN) + ",\"wantz\":" + to_string(sizeZ*zGrid) + ",\"index\":" + to_string(i) + ",\"restart\":" + to_string(rs) + "," + fieldState(f) + ",\"cosmos\":{" + cosmosState(&cosmos_) + "},\"glob\":{" + globalState() + "}}");
});

static string attrs_;
static herr_t attrIter(hid_t loc, const char *name, const H5A_info_t *, void *pre)
{
	hid_t at = H5Aopen(loc, name, H5P_DEFAULT), ty = H5Aget_type(at);
	string v;
	if (H5Tget_class(ty) == H5T_STRING) {
		size_t n = H5Tget_size(ty);
		vector<char> b(n + 1, 0);
		H5Aread(at, ty, b.data());
		v = Q(b.data());
	} else if (H5Tget_class(ty) == H5T_FLOAT) {
		double d; H5Aread(at, H5T_NATIVE_DOUBLE, &d); v = J(d);
	} else {
		long long d; H5Aread(at, H5T_NATIVE_LLONG, &d); v = d > 2147483647ll ? Q(to_string(d)) : to_string(d);
	}
	attrs_ += (attrs_.empty() ? "" : ",") + Q(string((const char*) pre) + name) + ":" + v;
	H5Tclose(ty); H5Aclose(at);
	return 0;
}

static string dsets_;
static herr_t objIter(hid_t loc, const char *name, const H5O_info_t *info, void *)
{
	string pre = string(name) == "." ? "/" : "/" + string(name) + "/";
	if (info->type == H5O_TYPE_DATASET) {
		hid_t d = H5Dopen(loc, name, H5P_DEFAULT), sp = H5Dget_space(d), ty = H5Dget_type(d);
		hsize_t dim[8] = {0}; int nd = H5Sget_simple_extent_dims(sp, dim, nullptr);
		string dd;
		for (int i = 0; i < nd; i++) dd += (i ? "," : "") + to_string(dim[i]);
		dsets_ += (dsets_.empty() ? "" : ",") + Q("/" + string(name)) + ":{\"dims\":[" + dd + "],\"bytes\":" + to_string(H5Tget_size(ty)) + "}";
		H5Tclose(ty); H5Sclose(sp); H5Dclose(d);
	}
	hid_t ob = H5Oopen(loc, name, H5P_DEFAULT);
	H5Aiterate(ob, H5_INDEX_NAME, H5_ITER_INC, NULL, (H5A_operator_t) attrIter, (void*) pre.c_str());
	H5Oclose(ob);
	return 0;
}

string h5Path(const string &n) { return n[0] == '/' ? n : string(outDir) + "/" + n; }

static Reg r_h5("h5", [](Args &a) {              // h5 file : every attribute and the shape of every dataset
	string n = a.str();
	MPI_Barrier(MPI_COMM_WORLD);
	attrs_ = dsets_ = "";
	if (Rk() == 0) {
		hid_t fid = H5Fopen(h5Path(n).c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
		if (fid < 0) { emit(base("H5") + ",\"name\":" + Q(n) + ",\"ok\":false}"); }
		else {
			H5Ovisit(fid, H5_INDEX_NAME, H5_ITER_INC, (H5O_iterate_t) objIter, nullptr);
			H5Fclose(fid);
			emit(base("H5") + ",\"name\":" + Q(n) + ",\"ok\":true,\"attrs\":{" + attrs_ + "},\"dsets\":{" + dsets_ + "}}");
		}
	}
	MPI_Barrier(MPI_COMM_WORLD);
});

static Reg r_h5data("h5data", [](Args &a) {      // h5data file dataset
	string n = a.str(), d = a.str(), file;
	MPI_Barrier(MPI_COMM_WORLD);
	size_t cnt = 0; bool ok = false;
	vector<double> x;
	if (Rk() == 0) {
		hid_t fid = H5Fopen(h5Path(n).c_str(), H5F_ACC_RDONLY, H5P_DEFAULT), ds = fid < 0 ? -1 : H5Dopen(fid, d.c_str(), H5P_DEFAULT);
		if (ds >= 0) {
			hid_t sp = H5Dget_space(ds), ty = H5Dget_type(ds);
			size_t sites = H5Sget_simple_extent_npoints(sp), per = 1;
			hid_t mt = H5T_NATIVE_DOUBLE;
			if (H5Tget_class(ty) == H5T_COMPOUND) { per = H5Tget_size(ty)/8; mt = ty; }
			else if (H5Tget_class(ty) == H5T_STRING) { mt = ty; }
			x.resize(sites*per);
			if (mt == ty && per == 1) x.clear();
			else ok = H5Dread(ds, mt, H5S_ALL, H5S_ALL, H5P_DEFAULT, x.data()) >= 0;
			cnt = x.size();
			H5Tclose(ty); H5Sclose(sp); H5Dclose(ds);
		}
		if (fid >= 0) H5Fclose(fid);
	}
	file = gatherFile(a.tag("h5"), x);
	emit(base("H5Data") + ",\"name\":" + Q(n) + ",\"w\":" + Q(d) + ",\"ok\":" + (ok ? "true" : "false") + ",\"n\":" + to_string(cnt) + ",\"file\":\"" + file + "\"}");
});

#include "ops.inc"

#ifdef VERIF_COVERAGE
extern "C" void __gcov_dump(void);
#endif
int main(int argc, char *argv[])
{
	if (argc < 3) { fprintf(stderr, "usage: jaxdrv SCRIPT OUTPREFIX [jaxions arguments]\n"); return 96; }
	string script = argv[1];
	prefix = argv[2];
	vector<char*> av{argv[0]};
	for (int i = 3; i < argc; i++) av.push_back(argv[i]);
	av.push_back(nullptr);
	cosmos_ = initAxions((int) av.size() - 1, av.data());
	if (Rk() == 0) evf = fopen((prefix + ".ndjson").c_str(), "w");
	ifstream in(script);
	string line;
	int ln = 0;
	while (getline(in, line)) {
		ln++;
		Args a(line, ln);
		if (a.t.empty() || a.t[0][0] == '#') continue;
		string c = a.str();
		auto it = commands().find(c);
		if (it == commands().end()) { fprintf(stderr, "drv: unknown command %s\n", c.c_str()); MPI_Abort(MPI_COMM_WORLD, 97); }
		it->second(a);
	}
	emit(base("End") + "}");
	if (evf) fclose(evf);
	fflush(stdout);
	MPI_Barrier(MPI_COMM_WORLD);
	MPI_Finalize();
#ifdef VERIF_COVERAGE
	__gcov_dump();
#endif
	_exit(0);
}
