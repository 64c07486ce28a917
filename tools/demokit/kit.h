// Small helpers of the demonstrations: a field of given geometry and background, and comparison.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <complex>
#include <string>
#include <vector>
#include <algorithm>
#include <unistd.h>
#include <mpi.h>
#include "utils/utils.h"
#include "comms/comms.h"
#include "scalar/scalar.h"
#include "scalar/scalarField.h"
#include "scalar/folder.h"
#include "scalar/fourier.h"
#include "scalar/mendTheta.h"
#include "scalar/theta2Cmplx.h"
#include "scalar/thetaScalar.h"
#include "propagator/allProp.h"
#include "energy/energy.h"
#include "strings/strings.h"
#include "io/readWrite.h"
#include "fft/fftCode.h"
#include "meas/measa.h"
using namespace std;
static Cosmos C;
static int failures = 0;
inline void start(vector<string> a) {
	static vector<string> keep = {"demo"}; for (auto &s : a) keep.push_back(s);
	static vector<char*> v; for (auto &s : keep) v.push_back((char*) s.c_str()); v.push_back(nullptr);
	C = initAxions((int) v.size() - 1, v.data());
	C.ICData().cType = CONF_NONE;
	if (fIndex == -1) fIndex = 0;
}
inline vector<string> options(int lx, int lz, int ranks, string prec = "double", int ng = 1) {
	return {"--size", to_string(lx), "--depth", to_string(lz), "--zgrid", to_string(ranks), "--prec", prec, "--device", "cpu", "--prop", "rkn4",
		"--msa", "1.0", "--lsize", "4.0", "--qcd", "4.0", "--zi", "0.5", "--zf", "4.0", "--lap", to_string(ng), "--steps", "1", "--verbose", "0", "--index", "0", "--nologmpi"};
}
inline double frand() { return rand()/(RAND_MAX + 1.0); }
inline void check(const char *what, bool ok) { if (!ok) { failures++; printf("rank %d: %s: wrong\n", commRank(), what); fflush(stdout); } }
inline void near(const char *what, double got, double want, double tol) {
	if (!(fabs(got - want) <= tol)) { failures++; if (failures < 6) printf("rank %d: %s: %.15g instead of %.15g\n", commRank(), what, got, want); fflush(stdout); }
}
inline int finish() {
	int all = 0; MPI_Allreduce(&failures, &all, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
	if (commRank() == 0) { printf(all ? "FAILED\n" : "passed\n"); fflush(stdout); }
	MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize(); _exit(all ? 1 : 0);
}
