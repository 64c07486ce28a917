#pragma once
#include <cstdlib>
#include <cstdio>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <mpi.h>

struct Args {
	std::vector<std::string> t;
	size_t i = 0;
	int line;
	Args(const std::string &l, int ln) : line(ln) { std::istringstream s(l); std::string w; while (s >> w) t.push_back(w); }
	bool more() const { return i < t.size(); }
	std::string str() { if (i >= t.size()) { fprintf(stderr, "drv: line %d: argument missing\n", line); MPI_Abort(MPI_COMM_WORLD, 97); } return t[i++]; }
	std::string str(const std::string &d) { return more() ? t[i++] : d; }
	double num() { return strtod(str().c_str(), nullptr); }
	double num(double d) { return more() ? strtod(t[i++].c_str(), nullptr) : d; }
	std::string tag(const std::string &s) { return s + "." + std::to_string(line); }
};

std::map<std::string, std::function<void(Args&)>> &commands();
struct Reg { Reg(const char *n, std::function<void(Args&)> f) { commands()[n] = f; } };
