/* Operations on the whole field */
#include "strings/strings.h"
#include "scalar/normCore.h"
#include "scalar/normField.h"
#include "scalar/scaleField.h"
#include "scalar/thetaNaxion.h"
#include "scalar/thetaPaxion.h"
void ctheta2csaxion(Scalar *axion);   // defined by the reader of configurations

static Reg r_conv("conv", [](Args &a) {          // conv op [arguments]
	string op = a.str(), w = "m";
	double x = 0; bool mod = false; long ret = -1;
	if (op == "cmplx2theta") { x = a.num(); mod = a.num(0) != 0; cmplxToTheta(f, x, mod); }
	else if (op == "mend") ret = mendTheta(f);
	else if (op == "theta2cmplx") theta2Cmplx(f);
	else if (op == "ctheta2cmplx") ctheta2csaxion(f);
	else if (op == "naxion") thetaToNaxion(f);
	else if (op == "paxion") thetaToPaxion(f);
	else if (op == "norm") normaliseField(f, FIELD_M);
	else if (op == "core") normCoreField(f);
	else if (op == "scale") { w = a.str(); x = a.num(); scaleField(f, w == "m" ? FIELD_M : w == "v" ? FIELD_V : FIELD_M2, x); }
	else { fprintf(stderr, "drv: unknown conversion %s\n", op.c_str()); MPI_Abort(MPI_COMM_WORLD, 97); }
	emit(base("Conv") + ",\"op\":" + Q(op) + ",\"x\":" + J(x) + ",\"w\":" + Q(w) + ",\"mod\":" + (mod ? "true" : "false") + ",\"ret\":" + to_string(ret) + "," + fieldState(f) + "}");
});

static string perRank(double x)                // the values of all ranks, as a JSON list
{
	vector<double> all(Nr());
	MPI_Allgather(&x, 1, MPI_DOUBLE, all.data(), 1, MPI_DOUBLE, MPI_COMM_WORLD);
	string o = "[";
	for (size_t i = 0; i < all.size(); i++) o += (i ? "," : "") + to_string((long) all[i]);
	return o + "]";
}

static Reg r_strings("strings", [](Args &a) {    // strings map|coords [length measure bits]
	string how = a.str();
	int meas = a.num(0);
	StringData s = how == "coords" ? strings2(f) : strings(f);
	string co;
	if (how == "coords") {                       // the coordinates of every rank's strings, three numbers each
		const unsigned short *p = (const unsigned short*) (f->LowMem() ? (void*) f->sData() : f->m2Cpu());
		vector<double> x(p, p + 3*s.strDen_local);
		co = ",\"coords\":\"" + gatherFile(a.tag("coords"), x) + "\"";
	}
	StringData t = meas ? stringlength(f, s, (StringMeasureType) meas) : s;
	bool kept = t.strDen == s.strDen && t.strChr == s.strChr && t.wallDn == s.wallDn;
	emit(base("Strings") + ",\"how\":" + Q(how) + ",\"meas\":" + to_string(meas) + ",\"den\":" + to_string((long) s.strDen) + ",\"chr\":" + to_string((long) s.strChr)
	     + ",\"wall\":" + to_string((long) s.wallDn) + ",\"den_local\":" + perRank(s.strDen_local) + ",\"chr_local\":" + perRank(s.strChr_local)
	     + ",\"wall_local\":" + perRank(s.wallDn_local) + ",\"kept\":" + (kept ? "true" : "false")
	     + ",\"len\":" + J(meas ? t.strLen : 0) + ",\"deng\":" + J(meas ? t.strDeng : 0) + ",\"vel\":" + J(meas ? t.strVel : 0)
	     + ",\"vel2\":" + J(meas ? t.strVel2 : 0) + ",\"gam\":" + J(meas ? t.strGam : 0)
	     + ",\"msa2\":" + J(f->SaxionMassSq()) + co + "," + fieldState(f) + "}");
});

#include "energy/energy.h"
static double at(const void *p, size_t i) { return f->Precision() == FIELD_DOUBLE ? ((const double*) p)[i] : ((const float*) p)[i]; }
static Reg r_energy("energy", [](Args &a) {      // energy what [shift] : what = bits total 1, map 2, mask 4
	int what = a.num(); double shift = a.num(0);
	bool hasM2 = f->m2Cpu() != nullptr;
	size_t n = f->Size();
	size_t words = hasM2 ? (f->Field() == FIELD_SAXION || f->Field() == FIELD_PAXION ? 2 : 1)*f->eSize() : 0;
	vector<double> old(words);
	for (size_t i = 0; i < words; i++) old[i] = at(f->m2Cpu(), i);
	double res[32];
	for (double &x : res) x = -12345.;
	energy(f, res, (EnType) what, shift);
	bool same = true, kept = true;
	double root[32];
	memcpy(root, res, sizeof(res));
	MPI_Bcast(root, 32, MPI_DOUBLE, 0, MPI_COMM_WORLD);
	int cnt = f->Field() == FIELD_SAXION ? 23 : 5, ok = memcmp(root, res, cnt*sizeof(double)) == 0, all;
	MPI_Allreduce(&ok, &all, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD); same = all;
	for (size_t i = 0; i < words; i++) { double x = at(f->m2Cpu(), i); if (memcmp(&x, &old[i], sizeof(x))) kept = false; }
	ok = kept; MPI_Allreduce(&ok, &all, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD); kept = all;
	string maps;
	if ((what & 2) && hasM2) {
		vector<double> x(n);
		for (size_t i = 0; i < n; i++) x[i] = at(f->m2Cpu(), i);
		maps = ",\"map1\":\"" + gatherFile(a.tag("map1"), x) + "\"";
		if (words > f->eSize()) {
			for (size_t i = 0; i < n; i++) x[i] = at(f->m2Cpu(), i + f->eSize());
			maps += ",\"map2\":\"" + gatherFile(a.tag("map2"), x) + "\"";
		}
	}
	string r = "[";
	for (int i = 0; i < cnt; i++) r += (i ? "," : "") + J(res[i]);
	emit(base("Energy") + ",\"mask\":" + to_string(what) + ",\"vac\":" + J(shift) + ",\"res\":" + r + "],\"same\":" + (same ? "true" : "false")
	     + ",\"kept\":" + (kept ? "true" : "false") + maps + "," + fieldState(f) + "}");
});

#include "spectrum/spectrum.h"
static string bins(SpecBin &s, SpectrumType t) {
	string r = "[";
	for (size_t i = 0; i < s.PowMax(); i++) r += (i ? "," : "") + J(s.data(t)[i]);
	return r + "]";
}
static bool sameBins(SpecBin &s, SpectrumType t) {
	vector<double> x(s.data(t), s.data(t) + s.PowMax());
	MPI_Bcast(x.data(), x.size(), MPI_DOUBLE, 0, MPI_COMM_WORLD);
	int ok = memcmp(x.data(), s.data(t), x.size()*sizeof(double)) == 0, all;
	MPI_Allreduce(&ok, &all, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
	return all;
}
static void gatherPadded(Args &a, string &out) {  // the rows of m2 are padded for an in-place transform
	size_t n = f->Length(); vector<double> x(f->Size());
	for (size_t i = 0; i < x.size(); i++) x[i] = at(f->m2Cpu(), i/n*(n + 2) + i%n);
	out = gatherFile(a.tag("smooth"), x);
}
static Reg r_spec("spec", [](Args &a) {  // spec axion|saxion MASK WHAT NBINS | spec power|modes|avek 0 0 NBINS | spec smooth FILTER LENGTH NBINS
	string op = a.str(); int mask = a.num(); double what = a.num(); int nb = a.num();
	MeasInfo info; info.nbinsspec = nb;
	SpecBin s(f, a.num(0) != 0, info);
	string out;
	auto add = [&](const char *n, SpectrumType t) { out += string(",\"") + n + "\":" + bins(s, t) + ",\"same" + n + "\":" + (sameBins(s, t) ? "true" : "false"); };
	if (op == "axion" || op == "saxion") {
		if (op == "axion") s.nRun((SpectrumMaskType) mask, (nRunType) (int) what); else s.nSRun((SpectrumMaskType) mask, (nRunType) (int) what);
		add("K", SPECTRUM_KK); add("G", SPECTRUM_GG); add("V", SPECTRUM_VV); add("VNL", SPECTRUM_VVNL);
	}
	if (op == "power") { s.pRun(); add("P", SPECTRUM_P); }
	if (op == "modes") { s.nmodRun(); add("NN", SPECTRUM_NN); }
	if (op == "avek") { s.avekRun(); add("AK", SPECTRUM_AK); }
	if (op == "smooth") { s.smoothFourier(what, (FilterIndex) mask); gatherPadded(a, out); out = ",\"map\":\"" + out + "\""; }
	emit(base("Spec") + ",\"op\":" + Q(op) + ",\"mask\":" + to_string(mask) + ",\"what\":" + to_string((int) what) + ",\"len\":" + J(what)
	     + ",\"bins\":" + to_string(s.PowMax()) + out + "," + fieldState(f) + "}");
});

#include "scalar/fourier.h"
static string asStored(Args &a, const char *tag, const void *p, bool mom, int c) {  // modes if in Fourier space, sites otherwise
	size_t n = mom ? 2*(size_t) (c == 2 ? f->Length() : f->Length()/2 + 1)*(f->Length()/Nr())*f->TotalDepth() : f->Size()*c;
	vector<double> x(n);
	for (size_t i = 0; i < n; i++) x[i] = at(p, i);
	return gatherFile(a.tag(tag), x);
}
static Reg r_ft("ft", [](Args &a) {              // ft m|v|mv fwd|bck
	string w = a.str(), d = a.str();
	FTfield t(f);
	t(w == "m" ? FIELD_M : w == "v" ? FIELD_V : FIELD_MV, d == "fwd" ? FFT_FWD : FFT_BCK);
	int c = comps(f);
	string fm = asStored(a, "fm", f->MMomSpace() && c == 1 ? f->mCpu() : f->mStart(), f->MMomSpace(), c), fv = asStored(a, "fv", f->vCpu(), f->VMomSpace(), c);
	emit(base("Transform") + ",\"w\":" + Q(w) + ",\"dir\":" + Q(d) + ",\"m\":\"" + fm + "\",\"v\":\"" + fv + "\"," + fieldState(f) + "}");
});

#include "meas/measa.h"
static Reg r_measure("measure", [](Args &a) {    // measure index what maps spmask nrt strmeas slice redmap nbins [radii]
	MeasInfo i;
	i.index = a.num(); i.measdata = (MeasureType) (int) a.num(); i.maty = (SliceType) (int) a.num(); i.mask = (SpectrumMaskType) (int) a.num();
	i.nrt = (nRunType) (int) a.num(); i.strmeas = (StringMeasureType) (int) a.num(); i.sliceprint = a.num(); i.redmap = a.num(); i.nbinsspec = a.num();
	i.idxprint = 0; i.rmask = 0; i.cTimesec = 0; i.propstep = 0; i.cummask = 0; i.measCPU = true; i.maskenergyonly = false; i.printconf = PRINTCONF_NONE;
	while (a.more()) i.rmask_tab.push_back(a.num());
	i.i_rmask = i.rmask_tab.size();
	MeasData d = Measureme(f, i);
	emit(base("Measure") + ",\"index\":" + to_string(i.index) + ",\"what\":" + to_string((int) i.measdata) + ",\"maps\":" + to_string((int) i.maty)
	     + ",\"mask\":" + to_string((int) i.mask) + ",\"nrt\":" + to_string((int) i.nrt) + ",\"strmeas\":" + to_string((int) i.strmeas)
	     + ",\"slice\":" + to_string((int) i.sliceprint) + ",\"redmap\":" + to_string(i.redmap) + ",\"nb\":" + to_string(i.nbinsspec)
	     + ",\"maxTheta\":" + J(d.maxTheta) + ",\"eA\":" + J(d.eA) + ",\"eS\":" + J(d.eS) + ",\"den\":" + to_string((long) d.str.strDen)
	     + ",\"chr\":" + to_string((long) d.str.strChr) + ",\"wall\":" + to_string((long) d.str.wallDn)
	     + "," + fieldState(f) + ",\"cosmos\":{" + cosmosState(&cosmos_) + "},\"glob\":{" + globalState() + "}}");
});
static vector<string> names_;
static herr_t nameIter(hid_t, const char *name, const H5O_info_t *info, void *) { if (info->type == H5O_TYPE_DATASET) names_.push_back("/" + string(name)); return 0; }
static Reg r_h5all("h5all", [](Args &a) {        // h5all file : attributes, shapes and contents of everything in it
	string n = a.str(), fs;
	MPI_Barrier(MPI_COMM_WORLD);
	attrs_ = dsets_ = ""; names_.clear();
	bool ok = true;
	if (Rk() == 0) {
		hid_t fid = H5Fopen(h5Path(n).c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
		ok = fid >= 0;
		if (ok) {
			H5Ovisit(fid, H5_INDEX_NAME, H5_ITER_INC, (H5O_iterate_t) objIter, nullptr);
			H5Ovisit(fid, H5_INDEX_NAME, H5_ITER_INC, (H5O_iterate_t) nameIter, nullptr);
		}
		int j = 0;
		for (const string &d : names_) {
			hid_t ds = H5Dopen(fid, d.c_str(), H5P_DEFAULT), sp = H5Dget_space(ds);
			vector<double> x(H5Sget_simple_extent_npoints(sp));
			H5Dread(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, x.data());
			H5Sclose(sp); H5Dclose(ds);
			string file = prefix + "." + a.tag("h5_" + to_string(j++)) + ".bin";
			FILE *o = fopen(file.c_str(), "wb"); fwrite(x.data(), sizeof(double), x.size(), o); fclose(o);
			fs += (fs.empty() ? "" : ",") + Q(d) + ":" + Q(file);
		}
		if (fid >= 0) H5Fclose(fid);
	}
	emit(base("H5All") + ",\"name\":" + Q(n) + ",\"ok\":" + (ok ? "true" : "false") + ",\"attrs\":{" + attrs_ + "},\"dsets\":{" + dsets_ + "},\"files\":{" + fs + "}}");
	MPI_Barrier(MPI_COMM_WORLD);
});

#include "reducer/reducer.h"
static Reg r_reduce("reduce", [](Args &a) {      // reduce mv|m2 newLx newLz inplace ax ay az : filter exp(-ax kx^2 - ay ky^2 - az kz^2)
	string w = a.str(); size_t nl = a.num(), nz = a.num(); bool in = a.num() != 0; double x = a.num(), y = a.num(), z = a.num();
	string was = "," + fieldState(f);
	FieldIndex what = w == "m2" ? FIELD_M2 : FIELD_MV;
	int ox = f->Length(), oz = f->Depth();
	Scalar *o = f->Precision() == FIELD_DOUBLE
		? reduceField(f, nl, nz, what, [=](int p, int q, int r, complex<double> u) -> complex<double> { return u*exp(-x*p*p - y*q*q - z*r*r); }, in)
		: reduceField(f, nl, nz, what, [=](int p, int q, int r, complex<float> u) -> complex<float> { return u*(float) exp(-x*p*p - y*q*q - z*r*r); }, in);
	string out;
	auto add = [&](const char *n, const void *p, size_t k) {
		vector<double> d(k);
		for (size_t i = 0; i < k; i++) d[i] = at(p, i);
		out += string(",\"") + n + "\":\"" + gatherFile(a.tag(n), d) + "\"";
	};
	int c = f->Field() == FIELD_SAXION ? 2 : 1;
	if (w == "m2") add("out_m2", f->m2Cpu(), nl*nl*nz);
	else { add("out_m", o->mStart(), nl*nl*nz*c); add("out_v", o->vStart(), nl*nl*nz*c); }
	emit(base("Reduce") + ",\"w\":" + Q(w) + ",\"newLx\":" + to_string(nl) + ",\"newLz\":" + to_string(nz) + ",\"oldLx\":" + to_string(ox) + ",\"oldLz\":" + to_string(oz)
	     + ",\"inplace\":" + to_string((int) in) + ",\"a\":[" + J(x) + "," + J(y) + "," + J(z) + "],\"gotLx\":" + to_string(w == "m2" ? f->rLength() : o->Length())
	     + ",\"gotLz\":" + to_string(w == "m2" ? f->rDepth() : o->Depth()) + out + "," + fieldState(f) + "}");
	if (!in && w != "m2") delete o;
});

/* ---- initial conditions ---- */
#include "gen/genConf.h"
#include "gen/momConf.h"
#include "gen/smoothXeon.h"
#include "gen/randXeon.h"

static Reg r_genconf("genconf", [](Args &a) {    // genconf key value ...: initial conditions of the given kind
	IcData &ic = cosmos_.ICData();
	ic.cType = CONF_SMOOTH; ic.smvarType = CONF_RAND; ic.kMax = 2; ic.kcr = 1.; ic.mode0 = 0.; ic.alpha = 0.143; ic.siter = 0;
	ic.kickalpha = 0.; ic.extrav = 0.; ic.normcore = false; ic.preprop = false; ic.mocoty = MOM_MEXP2; ic.randommom = true;
	ic.fType = f->Field(); ic.logi = 3.; ic.zi = *f->zV();
	ic.prepcoe = 3.; ic.pregammo = 0.; ic.prelZ2e = 0.; ic.prevtype = V_QCD1_PQ1_RHO;
	while (a.more()) {
		string q = a.str(); double x = a.num();
		if (q == "ctype") ic.cType = (ConfType) (int) x; else if (q == "smvar") ic.smvarType = (ConfsubType) (int) x;
		else if (q == "kmax") ic.kMax = (size_t) x; else if (q == "kcr") ic.kcr = kCrit = x; else if (q == "mode0") ic.mode0 = mode0 = x;
		else if (q == "alpha") ic.alpha = x; else if (q == "siter") ic.siter = (size_t) x; else if (q == "kick") ic.kickalpha = x;
		else if (q == "extrav") ic.extrav = x; else if (q == "normcore") ic.normcore = x != 0; else if (q == "moco") ic.mocoty = (MomConfType) (int) x;
		else if (q == "randommom") ic.randommom = x != 0; else if (q == "ftype") ic.fType = (FieldType) (int) x; else if (q == "logi") ic.logi = x; else if (q == "zi") ic.zi = x;
		else if (q == "preprop") ic.preprop = x != 0; else if (q == "prepcoe") ic.prepcoe = x; else if (q == "pregam") ic.pregammo = x;
		else if (q == "prelz2e") ic.prelZ2e = x; else if (q == "prevtype") ic.prevtype = (VqcdType) (int) x;
		else { fprintf(stderr, "drv: unknown initial condition %s\n", q.c_str()); MPI_Abort(MPI_COMM_WORLD, 97); }
	}
	genConf(&cosmos_, f);
	ostringstream o;
	o << base("GenConf") << ",\"ctype\":" << (int) ic.cType << ",\"smvar\":" << (int) ic.smvarType << ",\"kmax\":" << ic.kMax << ",\"kcr\":" << J(ic.kcr)
	  << ",\"mode0\":" << J(ic.mode0) << ",\"alpha\":" << J(ic.alpha) << ",\"siter\":" << ic.siter << ",\"kick\":" << J(ic.kickalpha)
	  << ",\"normcore\":" << (ic.normcore ? "true" : "false") << ",\"prepcoe\":" << J(ic.prepcoe) << ",\"pregam\":" << J(ic.pregammo) << ",\"prelz2e\":" << J(ic.prelZ2e)
	  << ",\"prevtype\":" << (int) ic.prevtype << ",\"zi\":" << J(ic.zi) << ",\"wdz\":" << J(wDz) << ",\"cosmos\":{" << cosmosState(&cosmos_) << "}," << fieldState(f) << "}";
	emit(o.str());
});

static Reg r_smooth("smooth", [](Args &a) {      // smooth n alpha
	int n = a.num(); double al = a.num();
	smoothXeon(f, n, al);
	emit(base("Smooth") + ",\"n\":" + to_string(n) + ",\"alpha\":" + J(al) + "," + fieldState(f) + "}");
});

static vector<double> modesOf(void *p, size_t n) {
	vector<double> o(2*n);
	for (size_t i = 0; i < 2*n; i++) o[i] = f->Precision() == FIELD_DOUBLE ? ((double *) p)[i] : (double) ((float *) p)[i];
	return o;
}
static Reg r_momconf("momconf", [](Args &a) {    // momconf moco kmax kcrit complex random mode0 [mass2 k0]: random modes drawn into m (and v)
	MomParms mp;
	mp.mocoty = (MomConfType) (int) a.num(); mp.kMax = (size_t) a.num(); mp.kCrt = a.num(); mp.cmplx = a.num() != 0; mp.randommom = a.num() != 0; mode0 = a.num();
	double want0 = mode0;
	mp.mass2 = a.num(1.); mp.k0 = a.num(1.);
	for (int i = 0; i < 2000; i++) mp.mfttab.push_back(1./(1. + 0.1*i*i));
	mp.mp = f->mStart(); mp.vp = f->vStart();
	momConf(f, mp);
	size_t w = mp.cmplx ? f->Length() : f->Length()/2 + 1, n = w*(f->Length()/Nr())*f->TotalDepth();
	string fm = gatherFile("modes", modesOf(f->mStart(), n)), fv = gatherFile("vmodes", modesOf(f->vStart(), mp.mocoty == MOM_MVSINCOS ? n : 0));
	emit(base("MomConf") + ",\"moco\":" + to_string((int) mp.mocoty) + ",\"kmax\":" + to_string(mp.kMax) + ",\"kcrit\":" + J(mp.kCrt) + ",\"cplx\":" + (mp.cmplx ? "true" : "false")
	     + ",\"random\":" + (mp.randommom ? "true" : "false") + ",\"mode0\":" + J(want0) + ",\"file\":" + Q(fm) + ",\"vfile\":" + Q(fv) + "," + fieldState(f) + "}");
});

static Reg r_grav("gravity", [](Args &a) {       // gravity start | init | potential
	string op = a.str();
	if (op == "start") initGravity(f);
	else if (op == "init") { InitGravity(f); tuneGravity(a.num(f->Length()), a.num(f->Length()), a.num(f->Depth())); }
	else {
		calculateGraviPotential();
		string st = fieldState(f);
		if (f->Folded()) { Folder munge(f); f->setM2Folded(true); munge(UNFOLD_M2); }
		size_t n = f->Size(), prec = f->Precision(); void *p = f->m2Start();
		vector<double> x(n);
		for (size_t i = 0; i < n; i++) x[i] = getElem(p, i, prec);
		string file = gatherFile(a.tag("phi"), x);
		emit(base("Potential") + ",\"file\":" + Q(file) + "," + st + "}");
		return;
	}
	emit(base("Gravity") + ",\"op\":" + Q(op) + ",\"beta\":" + J(f->BckGnd()->ICData().beta) + "," + fieldState(f) + "}");
});
static Reg r_wkb("wkb", [](Args &a) {            // wkb time: continue the angle field to a later time
	double to = a.num(0);
	AxionWKB::WKB go(f, f); go(to);
	emit(base("WKB") + ",\"to\":" + J(to) + "," + fieldState(f) + "}");
});

/* ---- what a run of the program left behind ---- */
#include <dirent.h>
#include <fstream>
static void again(const string &cmd) { static int nth = 10000; Args a(cmd, nth++); string c = a.str(); commands().at(c)(a); }
static Reg r_outputs("outputs", [](Args &) {     // every configuration and measurement in the output directory (one process)
	vector<string> n;
	if (DIR *d = opendir(outDir)) {
		while (dirent *e = readdir(d)) if (!strncmp(e->d_name, "axion.", 6)) n.push_back(e->d_name);
		closedir(d);
	}
	sort(n.begin(), n.end());
	string t;
	for (auto &x : n) t += (t.empty() ? "" : ",") + Q(x);
	emit(base("Outputs") + ",\"names\":[" + t + "]}");
	for (auto &x : n) again("h5 " + x);
	for (auto &x : n) if (x.size() == 11) { again("h5data " + x + " /m"); again("h5data " + x + " /v"); }
});
static Reg r_samples("samples", [](Args &a) {    // samples file : its lines of numbers
	ifstream in(a.str());
	string line, rows;
	while (getline(in, line)) {
		istringstream ls(line); string w, c;
		while (ls >> w) c += (c.empty() ? "" : ",") + J(atof(w.c_str()));
		rows += (rows.empty() ? "[" : ",[") + c + "]";
	}
	emit(base("Samples") + ",\"rows\":[" + rows + "]}");
});
