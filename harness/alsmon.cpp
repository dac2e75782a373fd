// Driver around the library's public classes: evaluates them on inputs read from
// stdin and prints what they return (hexadecimal floats); the checks judge it.
//   alsmon eq NAME GAMMA|-    one conserved state per line
//   alsmon vol                a program of array operations
#include "alsfvm/equation/equation_list.hpp"
#include "alsfvm/equation/CellComputerFactory.hpp"
#include "alsfvm/equation/EquationParameterFactory.hpp"
#include "alsfvm/simulator/SimulatorParameters.hpp"
#include "alsfvm/equation/euler/EulerParameters.hpp"
#include "alsfvm/volume/Volume.hpp"
#include "alsfvm/volume/VolumeFactory.hpp"
#include "alsfvm/volume/volume_foreach.hpp"
#include "alsfvm/memory/MemoryFactory.hpp"
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <sstream>
using namespace alsfvm;

static void out(double x) { printf("%a ", x); }
template<class T> static void outs(const char* tag, const T& t, size_t n) {
    printf("%s ", tag);
    for (size_t i = 0; i < n; ++i) { out(((const double*) &t)[i]); }
    printf("\n");
}

template<class Eq, int dir> struct Dir {
    static void go(const Eq& eq, const typename Eq::ConservedVariables& u, int nd, int nv) {
        auto x = eq.computeExtra(u);
        typename Eq::AllVariables all(u, x);
        typename Eq::ConservedVariables F;
        eq.template computePointFlux<dir>(all, F);
        printf("dir %d\n", dir);
        outs("flux", F, nv);
        printf("speed "); out(eq.template computeWaveSpeed<dir>(u, x)); printf("\n");
        auto lam = eq.template computeEigenValues<dir>(u);
        outs("eigenvalues", lam, nv);
        auto R = eq.template computeEigenVectorMatrix<dir>(u);
        printf("eigenvectors ");
        for (int i = 0; i < nv; ++i) { for (int j = 0; j < nv; ++j) { out(R(i, j)); } }
        printf("\n");
    }
};

template<class Eq> struct AllOf : public Eq::AllVariables {};

// scalar equations build their "all" state from the value alone
template<class E, int D> static void scalarDir(const E& eq, double v) {
    typename E::ConservedVariables u(v);
    typename E::AllVariables all(v);
    typename E::ConservedVariables F;
    eq.template computePointFlux<D>(all, F);
    printf("dir %d\n", D);
    outs("flux", F, 1);
    printf("speed "); out(eq.template computeWaveSpeed<D>(u, eq.computeExtra(u))); printf("\n");
    auto lam = eq.template computeEigenValues<D>(u);
    outs("eigenvalues", lam, 1);
    auto R = eq.template computeEigenVectorMatrix<D>(u);
    printf("eigenvectors "); out(R(0, 0)); printf("\n");
}

template<class E> static int scalar(const equation::EquationParameters& p) {
    E eq(static_cast<const typename E::Parameters&>(p));
    std::string line;
    while (std::getline(std::cin, line)) {
        double v = strtod(line.c_str(), nullptr);
        typename E::ConservedVariables u(v);
        printf("state\n");
        outs("primitive", eq.computePrimitiveVariables(u), 1);
        outs("conserved", eq.computeConserved(eq.computePrimitiveVariables(u)), 1);
        printf("ok %d\n", int(eq.obeysConstraints(u, eq.computeExtra(u))));
        outs("entropyvariables", eq.computeEntropyVariables(u), 1);
        outs("potential", eq.computeEntropyPotential(u), 1);
        scalarDir<E, 0>(eq, v); scalarDir<E, 1>(eq, v); scalarDir<E, 2>(eq, v);
    }
    return 0;
}

template<int N> static equation::euler::ConservedVariables<N> conserved(const double* a);
template<> equation::euler::ConservedVariables<1> conserved<1>(const double* a) { return equation::euler::ConservedVariables<1>(a[0], rvec1(a[1]), a[2]); }
template<> equation::euler::ConservedVariables<2> conserved<2>(const double* a) { return equation::euler::ConservedVariables<2>(a[0], rvec2(a[1], a[2]), a[3]); }
template<> equation::euler::ConservedVariables<3> conserved<3>(const double* a) { return equation::euler::ConservedVariables<3>(a[0], rvec3(a[1], a[2], a[3]), a[4]); }

template<int N> static int gas(const equation::EquationParameters& p) {
    typedef equation::euler::Euler<N> E;
    E eq(static_cast<const typename E::Parameters&>(p));
    std::string line;
    while (std::getline(std::cin, line)) {
        double a[5]; const char* c = line.c_str(); char* e;
        for (int i = 0; i < N + 2; ++i) { a[i] = strtod(c, &e); c = e; }
        auto u = conserved<N>(a);
        auto x = eq.computeExtra(u);
        printf("state\n");
        printf("extra "); out(x.p); for (int d = 0; d < N; ++d) { out(x.u[d]); } printf("\n");
        auto pr = eq.computePrimitiveVariables(u);
        printf("primitive "); out(pr.rho); for (int d = 0; d < N; ++d) { out(pr.u[d]); } out(pr.p); printf("\n");
        auto back = eq.computeConserved(pr);
        printf("conserved "); out(back.rho); for (int d = 0; d < N; ++d) { out(back.m[d]); } out(back.E); printf("\n");
        printf("ok %d\n", int(eq.obeysConstraints(u, x)));
        outs("entropyvariables", eq.computeEntropyVariables(u), N + 2);
        outs("potential", eq.computeEntropyPotential(u), N);
        Dir<E, 0>::go(eq, u, N, N + 2);
        if constexpr (N > 1) { Dir<E, 1>::go(eq, u, N, N + 2); }
        if constexpr (N > 2) { Dir<E, 2>::go(eq, u, N, N + 2); }
    }
    return 0;
}

static int equationMode(const std::string& name, const std::string& gamma) {
    simulator::SimulatorParameters parameters(name, "cpu");
    auto& p = parameters.getEquationParameters();
    if (gamma != "-") { static_cast<equation::euler::EulerParameters&>(p).setGamma(atof(gamma.c_str())); }
    if (name == "burgers") { return scalar<equation::burgers::Burgers>(p); }
    if (name == "cubic") { return scalar<equation::cubic::Cubic>(p); }
    if (name == "linear") { return scalar<equation::linear::Linear>(p); }
    if (name == "buckleyleverett") { return scalar<equation::buckleyleverett::BuckleyLeverett>(p); }
    if (name == "euler1") { return gas<1>(p); }
    if (name == "euler2") { return gas<2>(p); }
    if (name == "euler3") { return gas<3>(p); }
    return 2;
}

// ---------------------------------------------------------------- arrays
static double value(uint64_t& s) {                // splitmix64, in [-2, 2), the checks do the same
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    z ^= z >> 31;
    return (double)(z >> 11) * (4.0 / 9007199254740992.0) - 2.0;
}

static int volumeMode() {
    std::map<int, std::shared_ptr<volume::Volume>> V;
    auto device = alsfvm::make_shared<DeviceConfiguration>("cpu");
    auto memoryFactory = alsfvm::make_shared<memory::MemoryFactory>(device);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string op; in >> op;
        int a = 0, b = 0, c = 0, d = 0, e = 0; double s, t;
        auto num = [&]() { std::string w; in >> w; return strtod(w.c_str(), nullptr); };
        try {
            if (op == "new") {
                size_t n, nx, ny, nz, g; in >> a >> n >> nx >> ny >> nz >> g;
                std::vector<std::string> names;
                for (size_t i = 0; i < n; ++i) { names.push_back("v" + std::to_string(i)); }
                V[a] = std::make_shared<volume::Volume>(names, memoryFactory, nx, ny, nz, g);
            } else if (op == "instance") { in >> a >> b; V[a] = V[b]->makeInstance();
            } else if (op == "sized") { size_t nx, ny, nz; in >> a >> b >> nx >> ny >> nz; V[a] = V[b]->makeInstance(nx, ny, nz);
            } else if (op == "view") {
                in >> a >> b; std::vector<size_t> comp; std::vector<std::string> names; size_t k;
                while (in >> k) { comp.push_back(k); names.push_back("w" + std::to_string(k)); }
                V[a] = std::make_shared<volume::Volume>(*V[b], comp, names);
            } else if (op == "fill") {
                uint64_t seed; in >> a >> seed;
                for (size_t v = 0; v < V[a]->getNumberOfVariables(); ++v) {
                    auto m = V[a]->getScalarMemoryArea(v);
                    for (size_t i = 0; i < m->getSize(); ++i) { (*m)[i] = value(seed); }
                }
            } else if (op == "add") { in >> a >> b; *V[a] += *V[b];
            } else if (op == "scale") { in >> a; *V[a] *= num();
            } else if (op == "zero") { in >> a; V[a]->makeZero();
            } else if (op == "linear") {
                in >> a; double q[5]; int id[4]; q[0] = num();
                for (int i = 0; i < 4; ++i) { q[i + 1] = num(); in >> id[i]; }
                V[a]->addLinearCombination(q[0], q[1], *V[id[0]], q[2], *V[id[1]], q[3], *V[id[2]], q[4], *V[id[3]]);
            } else if (op == "addpower") { in >> a >> b; V[a]->addPower(*V[b], num());
            } else if (op == "addpowerf") { in >> a >> b; s = num(); t = num(); V[a]->addPower(*V[b], s, t);
            } else if (op == "subpower") { in >> a >> b; V[a]->subtractPower(*V[b], num());
            } else if (op == "copyto") { in >> a >> b; V[a]->copyTo(*V[b]);
            } else if (op == "setvolume") { in >> a >> b; V[a]->setVolume(*V[b]);
            } else if (op == "mem") {       // mem OP a va b vb
                std::string o; in >> o >> a >> c >> b >> d;
                auto& x = *V[a]->getScalarMemoryArea(size_t(c)); const auto& y = *V[b]->getScalarMemoryArea(size_t(d));
                if (o == "+=") { x += y; } else if (o == "-=") { x -= y; } else if (o == "*=") { x *= y; }
                else if (o == "/=") { x /= y; } else if (o == "copy") { x.copyFrom(y); } else { return 2; }
            } else if (op == "mems") {      // mems OP a va scalar
                std::string o; in >> o >> a >> c; s = num();
                auto& x = *V[a]->getScalarMemoryArea(size_t(c));
                if (o == "+=") { x += s; } else if (o == "-=") { x -= s; } else if (o == "*=") { x *= s; }
                else if (o == "/=") { x /= s; } else if (o == "zero") { x.makeZero(); } else { return 2; }
            } else if (op == "set") {       // single cell through the named variable, indexed in 3D
                in >> a >> c >> d >> b >> e; s = num();
                (*V[a])[V[a]->getName(c)](d, b, e) = s;
            } else if (op == "internal") {
                in >> a >> c;
                auto n = V[a]->getInnerSize(); std::vector<double> buf(size_t(n.x) * n.y * n.z + 2, -7.5);
                V[a]->copyInternalCells(c, buf.data(), buf.size() - 2);
                printf("internal"); for (double v : buf) { printf(" %a", v); } printf("\n");
            } else if (op == "hostcopy") {
                in >> a >> c; auto h = V[a]->getScalarMemoryArea(size_t(c))->getHostMemory();
                printf("hostcopy"); for (size_t i = 0; i < h->getSize(); ++i) { printf(" %a", (*h)[i]); } printf("\n");
            } else if (op == "tv") {        // tv a var p  sx sy sz ex ey ez
                ivec3 f, l; int p; in >> a >> c >> p >> f.x >> f.y >> f.z >> l.x >> l.y >> l.z;
                double r = V[a]->getScalarMemoryArea(size_t(c))->getTotalVariation(p, f, l);
                printf("tv %a\n", r);
            } else if (op == "tvdir") {
                ivec3 f, l; int p; in >> a >> c >> d >> p >> f.x >> f.y >> f.z >> l.x >> l.y >> l.z;
                double r = V[a]->getScalarMemoryArea(size_t(c))->getTotalVariation(d, p, f, l);
                printf("tvdir %a\n", r);
            } else if (op == "each") {      // each a  offsets: visited indices in order
                ivec3 f, l; in >> a >> f.x >> f.y >> f.z >> l.x >> l.y >> l.z;
                printf("each"); volume::for_each_cell_index(*V[a], [](size_t i) { printf(" %zu", i); }, f, l); printf("\n");
            } else if (op == "neighbours") {
                ivec3 f, l; in >> a >> d >> f.x >> f.y >> f.z >> l.x >> l.y >> l.z;
                printf("neighbours");
                volume::for_each_cell_index_with_neighbours(size_t(d), *V[a], [](size_t x, size_t y, size_t z) { printf(" %zu %zu %zu", x, y, z); }, f, l);
                printf("\n");
            } else if (op == "shape") {
                in >> a; auto& v = *V[a]; auto n = v.getInnerSize(), g = v.getNumberOfGhostCells(), m = v.getTotalDimensions(), z = v.getSize();
                printf("shape %zu %d %d %d %d %d %d %d %d %d %d %d %d %zu %zu %zu %zu %zu %zu %zu", v.getNumberOfVariables(), n.x, n.y, n.z, g.x, g.y, g.z, m.x, m.y, m.z,
                    z.x, z.y, z.z, v.getDimensions(), v.getNumberOfXCells(), v.getNumberOfYCells(), v.getNumberOfZCells(),
                    v.getTotalNumberOfXCells(), v.getTotalNumberOfYCells(), v.getTotalNumberOfZCells());
                for (size_t i = 0; i < v.getNumberOfVariables(); ++i) {
                    printf(" %s %zu %d", v.getName(i).c_str(), v.getIndexFromName(v.getName(i)), int(v.hasVariable(v.getName(i))));
                }
                printf(" %d\n", int(v.hasVariable("nosuchvariable")));
            } else if (op == "dump") {
                in >> a; printf("dump");
                for (size_t v = 0; v < V[a]->getNumberOfVariables(); ++v) {
                    auto m = V[a]->getScalarMemoryArea(v);
                    for (size_t i = 0; i < m->getSize(); ++i) { printf(" %a", (*m)[i]); }
                }
                printf("\n");
            } else { return 2; }
        } catch (const std::exception& ex) { printf("exception\n"); }
    }
    return 0;
}

int main(int argc, char** argv) {
    if (argc == 4 && std::string(argv[1]) == "eq") { return equationMode(argv[2], argv[3]); }
    if (argc == 2 && std::string(argv[1]) == "vol") { return volumeMode(); }
    return 2;
}
