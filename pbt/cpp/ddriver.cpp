// Executes operation histories on one MDDPackage per case. Text in, binary out.
// Every operation answers with the dense content of its result, obtained by walking the
// diagram itself (not by the package's own read-out, which is a separate operation).
#include "dd/MDDPackage.hpp"
#include <complex>
#include <cstdint>
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

using P = dd::MDDPackage;
using vE = P::vEdge;
using mE = P::mEdge;
using cd = std::complex<double>;

static std::vector<size_t> dims;   // least significant first
static size_t lo = 0, n = 0;       // the registers lo .. lo+n-1 are in use

static cd val(const dd::Complex& c) { return {dd::CTEntry::val(c.real), dd::CTEntry::val(c.img)}; }

static void bad(const std::string& s) { throw std::logic_error("driver: " + s); }

// dense vector over the levels bottom .. level
static std::vector<cd> dense(const vE& e, int level, int bottom) {
  size_t size = 1;
  for (int i = bottom; i <= level; i++) size *= dims[i];
  std::vector<cd> out(size, 0);
  const cd w = val(e.weight);
  if (e.isTerminal()) {
    if (level < bottom) out[0] = w;
    else if (w != cd(0)) bad("non-zero terminal above the bottom of a vector");
    return out;
  }
  if (e.nextNode->varIndx != level) bad("vector node on the wrong level");
  if (e.nextNode->edges.size() != dims[level]) bad("vector node with a wrong number of edges");
  const size_t sub = size / dims[level];
  for (size_t k = 0; k < dims[level]; k++) {
    auto s = dense(e.nextNode->edges[k], level - 1, bottom);
    for (size_t i = 0; i < sub; i++) out[k * sub + i] = w * s[i];
  }
  return out;
}

static std::vector<cd> dense(const mE& e, int level, int bottom) {
  size_t size = 1;
  for (int i = bottom; i <= level; i++) size *= dims[i];
  std::vector<cd> out(size * size, 0);
  const cd w = val(e.weight);
  if (e.isTerminal()) {
    if (level < bottom) out[0] = w;
    else if (w != cd(0)) bad("non-zero terminal above the bottom of a matrix");
    return out;
  }
  if (e.nextNode->varIndx != level) bad("matrix node on the wrong level");
  const size_t d = dims[level];
  if (e.nextNode->edges.size() != d * d) bad("matrix node with a wrong number of edges");
  const size_t sub = size / d;
  for (size_t r = 0; r < d; r++)
    for (size_t c = 0; c < d; c++) {
      auto s = dense(e.nextNode->edges[r * d + c], level - 1, bottom);
      for (size_t i = 0; i < sub; i++)
        for (size_t j = 0; j < sub; j++) out[(r * sub + i) * size + c * sub + j] = w * s[i * sub + j];
    }
  return out;
}

static vE buildV(P& p, const std::vector<cd>& a, size_t off, size_t size, int level, int bottom) {
  if (level < bottom) return a[off] == cd(0) ? vE::zero : vE::terminal(p.complexNumber.lookup(a[off].real(), a[off].imag()));
  std::vector<vE> es;
  const size_t sub = size / dims[level];
  for (size_t k = 0; k < dims[level]; k++) es.push_back(buildV(p, a, off + k * sub, sub, level - 1, bottom));
  return p.makeDDNode(static_cast<dd::QuantumRegister>(level), es);
}

// m is size x size inside a matrix with row length row
static mE buildM(P& p, const std::vector<cd>& a, size_t off, size_t row, size_t size, int level, int bottom) {
  if (level < bottom) return a[off] == cd(0) ? mE::zero : mE::terminal(p.complexNumber.lookup(a[off].real(), a[off].imag()));
  std::vector<mE> es;
  const size_t d = dims[level], sub = size / d;
  for (size_t r = 0; r < d; r++)
    for (size_t c = 0; c < d; c++) es.push_back(buildM(p, a, off + r * sub * row + c * sub, row, sub, level - 1, bottom));
  return p.makeDDNode(static_cast<dd::QuantumRegister>(level), es);
}

static void put(const void* d, size_t k) { if (fwrite(d, 1, k, stdout) != k) exit(3); }
static void answer(char kind, uint64_t node, cd w, const std::vector<cd>& v) {
  put(&kind, 1);
  put(&node, 8);
  double ws[2] = {w.real(), w.imag()};
  put(ws, 16);
  uint32_t k = static_cast<uint32_t>(v.size());
  put(&k, 4);
  if (k) put(v.data(), 16 * k);
}
static void fail(const std::string& s) {
  char kind = 'E';
  put(&kind, 1);
  uint32_t k = static_cast<uint32_t>(s.size());
  put(&k, 4);
  put(s.data(), k);
}

int main() {
  std::ios::sync_with_stdio(false);
  // the package's own printing must not reach the answer channel
  std::ostringstream sink;
  std::cout.rdbuf(sink.rdbuf());
  std::string line;
  std::unique_ptr<P> p;
  std::vector<vE> vs;
  std::vector<mE> ms;
  std::vector<dd::Complex> ns, held;
  while (std::getline(std::cin, line)) {
    sink.str("");
    std::istringstream in(line);
    std::string op;
    in >> op;
    auto u = [&] { long x; in >> x; return x; };
    auto c = [&] { double a, b; in >> a >> b; return cd(a, b); };
    const auto N = static_cast<dd::QuantumRegisterCount>(n);
    auto retV = [&](const vE& e) {
      vs.push_back(e);
      auto d = dense(e, static_cast<int>(lo + n) - 1, static_cast<int>(lo));
      answer('v', reinterpret_cast<uint64_t>(e.nextNode), val(e.weight), d);
    };
    auto retM = [&](const mE& e) {
      ms.push_back(e);
      auto d = dense(e, static_cast<int>(lo + n) - 1, static_cast<int>(lo));
      answer('m', reinterpret_cast<uint64_t>(e.nextNode), val(e.weight), d);
    };
    auto V = [&] { return vs.at(static_cast<size_t>(u())); };
    auto M = [&] { return ms.at(static_cast<size_t>(u())); };
    auto controls = [&] {
      dd::Controls cs;
      for (long k = u(); k > 0; k--) {
        const auto q = static_cast<dd::QuantumRegister>(u());
        const auto l = static_cast<dd::Control::Type>(u());
        cs.insert(dd::Control{q, l});
      }
      return cs;
    };
    const auto S = static_cast<dd::QuantumRegister>(lo);
    try {
      if (op == "new") {
        lo = static_cast<size_t>(u());
        const auto tot = static_cast<size_t>(u());
        dims.clear();
        for (size_t i = 0; i < tot; i++) dims.push_back(static_cast<size_t>(u()));
        n = tot - lo;
        vs.clear(); ms.clear(); ns.clear(); held.clear();
        p = std::make_unique<P>(tot, dims);
        answer('s', 0, 0, {});
      } else if (op == "zero") retV(p->makeZeroState(N, lo));
      else if (op == "basis") {
        std::vector<size_t> s(lo, 0);
        for (size_t i = 0; i < n; i++) s.push_back(static_cast<size_t>(u()));
        retV(p->makeBasisState(N, s, lo));
      } else if (op == "vec") {
        std::vector<cd> a;
        for (long k = u(); k > 0; k--) a.push_back(c());
        retV(buildV(*p, a, 0, a.size(), static_cast<int>(lo + n) - 1, static_cast<int>(lo)));
      } else if (op == "mat") {
        const auto k = static_cast<size_t>(u());
        std::vector<cd> a;
        for (size_t i = 0; i < k * k; i++) a.push_back(c());
        retM(buildM(*p, a, 0, k, k, static_cast<int>(lo + n) - 1, static_cast<int>(lo)));
      } else if (op == "gate") {
        const auto t = static_cast<dd::QuantumRegister>(u());
        const auto cs = controls();
        std::vector<dd::ComplexValue> m;
        for (size_t i = 0; i < dims[static_cast<size_t>(t)] * dims[static_cast<size_t>(t)]; i++) {
          const cd x = c();
          m.push_back({x.real(), x.imag()});
        }
        if (cs.size() == 1) retM(p->makeGateDD(m, N, *cs.begin(), t, lo));
        else if (cs.empty()) retM(p->makeGateDD(m, N, t, lo));
        else retM(p->makeGateDD(m, N, cs, t, lo));
      } else if (op == "ident") retM(lo == 0 ? p->makeIdent(N) : p->makeIdent(S, static_cast<dd::QuantumRegister>(lo + n - 1)));
      else if (op == "identrange") {
        const auto a = static_cast<dd::QuantumRegister>(u()), b = static_cast<dd::QuantumRegister>(u());
        auto e = p->makeIdent(a, b);
        answer('r', reinterpret_cast<uint64_t>(e.nextNode), val(e.weight), dense(e, b, a));
      } else if (op == "cex") {
        const auto lev = static_cast<dd::Control::Type>(u());
        const auto la = static_cast<size_t>(u()), lb = static_cast<size_t>(u());
        const auto cr = static_cast<dd::QuantumRegister>(u()), t = static_cast<dd::QuantumRegister>(u());
        const bool dag = u() != 0;
        double phi; in >> phi;
        retM(p->cex(N, lev, phi, la, lb, cr, t, dag));
      } else if (op == "csum") {
        const auto cr = static_cast<dd::QuantumRegister>(u()), t = static_cast<dd::QuantumRegister>(u());
        const bool dag = u() != 0;
        retM(p->csum(N, cr, t, dag));
      } else if (op == "addv") { auto a = V(), b = V(); retV(p->add(a, b)); }
      else if (op == "addm") { auto a = M(), b = M(); retM(p->add(a, b)); }
      else if (op == "mv") { auto a = M(); auto b = V(); retV(p->multiply(a, b, S)); }
      else if (op == "mm") { auto a = M(), b = M(); retM(p->multiply(a, b, S)); }
      else if (op == "dag") retM(p->conjugateTranspose(M()));
      else if (op == "tr") retM(p->transpose(M()));
      else if (op == "inner") { auto a = V(), b = V(); auto r = p->innerProduct(a, b); answer('s', 0, cd(r.r, r.i), {}); }
      else if (op == "fid") { auto a = V(), b = V(); answer('s', 0, p->fidelity(a, b), {}); }
      else if (op == "readv") {
        auto r = p->getVector(V());
        std::vector<cd> o;
        for (auto& x : r) o.push_back(cd(x));
        answer('r', 0, 0, o);
      } else if (op == "readm") {
        auto r = p->getVectorizedMatrix(M());
        std::vector<cd> o;
        for (auto& x : r) o.push_back(cd(x));
        answer('r', 0, 0, o);
      } else if (op == "atv") {
        auto e = V();
        std::vector<size_t> s;
        for (size_t i = 0; i < n; i++) s.push_back(static_cast<size_t>(u()));
        auto r = p->getValueByPath(e, s);
        answer('s', 0, cd(r.r, r.i), {});
      } else if (op == "atm") {
        auto e = M();
        std::vector<size_t> s, t;
        for (size_t i = 0; i < n; i++) s.push_back(static_cast<size_t>(u()));
        for (size_t i = 0; i < n; i++) t.push_back(static_cast<size_t>(u()));
        auto r = p->getValueByPath(e, s, t);
        answer('s', 0, cd(r.r, r.i), {});
      } else if (op == "countv") { auto e = V(); std::unordered_set<P::vNode*> s; answer('s', 0, p->nodeCount(e, s), {}); }
      else if (op == "countm") { auto e = M(); std::unordered_set<P::mNode*> s; answer('s', 0, p->nodeCount(e, s), {}); }
      else if (op == "num") {        // the number in the table for a value
        const cd x = c();
        ns.push_back(p->complexNumber.lookup(x.real(), x.imag()));
        const auto& e = ns.back();
        auto at = [](dd::CTEntry* q) { return static_cast<double>(reinterpret_cast<uint64_t>(dd::CTEntry::getAlignedPointer(q))); };
        answer('n', 0, val(e), {cd(at(e.real), at(e.img))});
      } else if (op == "numval") answer('n', 0, val(ns.at(static_cast<size_t>(u()))), {});
      else if (op == "numref") { dd::ComplexNumbers::incRef(ns.at(static_cast<size_t>(u()))); answer('s', 0, 0, {}); }
      else if (op == "numderef") { dd::ComplexNumbers::decRef(ns.at(static_cast<size_t>(u()))); answer('s', 0, 0, {}); }
      else if (op == "numgc") { const auto k = p->complexNumber.garbageCollect(u() != 0); answer('s', 0, cd(static_cast<double>(k), static_cast<double>(p->complexNumber.complexTable.getCount())), {}); }
      else if (op == "numfill") {   // many numbers, to make the table grow
        const long k = u(); double a, b; in >> a >> b;
        for (long i = 0; i < k; i++) p->complexNumber.lookup(a + b * static_cast<double>(i), 0.0);
        answer('s', 0, cd(static_cast<double>(p->complexNumber.complexTable.getCount()), 0), {});
      } else if (op == "numop") {
        std::string k; in >> k;
        const auto a = ns.at(static_cast<size_t>(u())), b = ns.at(static_cast<size_t>(u()));
        const long alias = u();
        auto& cn = p->complexNumber;
        const auto before = cn.cacheCount();
        cd r;
        if (k == "conj") r = val(dd::ComplexNumbers::conj(a));
        else if (k == "neg") r = val(dd::ComplexNumbers::neg(a));
        else if (k == "mag") r = dd::ComplexNumbers::mag(a);
        else if (k == "mag2") r = dd::ComplexNumbers::mag2(a);
        else if (k == "arg") r = dd::ComplexNumbers::arg(a);
        else if (k == "eq") r = a.approximatelyEquals(b) ? 1.0 : 0.0;
        else {
          auto go = [&](dd::Complex& o, const dd::Complex& x, const dd::Complex& y) {
            if (k == "add") dd::ComplexNumbers::add(o, x, y);
            else if (k == "sub") dd::ComplexNumbers::sub(o, x, y);
            else if (k == "mul") dd::ComplexNumbers::mul(o, x, y);
            else dd::ComplexNumbers::div(o, x, y);
          };
          dd::Complex o{};
          if (alias == 0) {
            o = k == "add" ? cn.addCached(a, b) : k == "sub" ? cn.subCached(a, b) : k == "mul" ? cn.mulCached(a, b) : cn.divCached(a, b);
          } else if (alias == 1) {
            o = cn.getCached(val(a).real(), val(a).imag());
            go(o, o, b);
          } else {
            o = cn.getCached(val(b).real(), val(b).imag());
            go(o, a, o);
          }
          r = val(o);
          cn.returnToCache(o);
        }
        if (cn.cacheCount() != before) throw std::runtime_error("numbers of the cache are lost");
        answer('n', 0, r, {});
      } else if (op == "ctake") {    // k numbers of the cache at once, with the values a + b i
        const long k = u(); double a, b; in >> a >> b;
        for (long i = 0; i < k; i++) held.push_back(p->complexNumber.getCached(a + b * static_cast<double>(i), -a - b * static_cast<double>(i)));
        answer('s', 0, static_cast<double>(p->complexNumber.cacheCount()), {});
      } else if (op == "cgive") {    // k of the held ones back, each time the one in place x times the number of the held ones
        const long k = u(); double x; in >> x;
        for (long i = 0; i < k && !held.empty(); i++) {
          const auto j = static_cast<size_t>(x * static_cast<double>(held.size() - 1));
          p->complexNumber.returnToCache(held[j]);
          held.erase(held.begin() + static_cast<long>(j));
        }
        answer('s', 0, static_cast<double>(p->complexNumber.cacheCount()), {});
      } else if (op == "ctemp") {    // a number for a moment
        const cd x = c();
        auto t = p->complexNumber.getTemporary(x.real(), x.imag());
        answer('n', 0, val(t), {cd(static_cast<double>(p->complexNumber.cacheCount()))});
      } else if (op == "cvals") {    // values, addresses of the held ones
        std::vector<cd> o;
        for (auto& x : held) { o.push_back(val(x)); o.push_back(cd(static_cast<double>(reinterpret_cast<uint64_t>(x.real)), static_cast<double>(reinterpret_cast<uint64_t>(x.img)))); }
        answer('r', 0, 0, o);
      } else if (op == "spread") {   // vector, then the lines
        auto v = V();
        std::vector<dd::QuantumRegister> ls;
        for (long k = u(); k > 0; k--) ls.push_back(static_cast<dd::QuantumRegister>(u()));
        if (ls.size() == 2) retV(p->spread2(N, ls, v));
        else if (ls.size() == 3) retV(p->spread3(N, ls, v));
        else retV(p->spread5(N, ls, v));
      } else if (op == "repr") {
        const auto i = static_cast<size_t>(u()), tot = static_cast<size_t>(u());
        std::vector<cd> o;
        for (auto x : p->getReprOfIndex(i, tot)) o.push_back(cd(static_cast<double>(x)));
        answer('r', 0, 0, o);
      } else if (op == "kronm") {   // top part x on k registers, y on the lower ones
        const long kx = u(), ky = u();
        std::vector<cd> a, b;
        for (long i = 0; i < kx * kx; i++) a.push_back(c());
        for (long i = 0; i < ky * ky; i++) b.push_back(c());
        size_t s = 1; int lx = 0, ly = 0;
        while (s < static_cast<size_t>(kx)) s *= dims[static_cast<size_t>(lx++)];
        s = 1;
        while (s < static_cast<size_t>(ky)) s *= dims[static_cast<size_t>(ly++)];
        auto x = buildM(*p, a, 0, static_cast<size_t>(kx), static_cast<size_t>(kx), lx - 1, 0);
        auto y = buildM(*p, b, 0, static_cast<size_t>(ky), static_cast<size_t>(ky), ly - 1, 0);
        auto e = p->kronecker(x, y);
        answer('r', reinterpret_cast<uint64_t>(e.nextNode), val(e.weight), dense(e, lx + ly - 1, 0));
      } else if (op == "extend") {   // h identities above, l below
        const long h = u(), l = u(), k = u();
        std::vector<cd> a;
        for (long i = 0; i < k * k; i++) a.push_back(c());
        size_t s = 1; int lx = 0;
        while (s < static_cast<size_t>(k)) s *= dims[static_cast<size_t>(lx++)];
        auto x = buildM(*p, a, 0, static_cast<size_t>(k), static_cast<size_t>(k), lx - 1, 0);
        auto e = p->extend(x, static_cast<dd::QuantumRegister>(h), static_cast<dd::QuantumRegister>(l));
        answer('r', reinterpret_cast<uint64_t>(e.nextNode), val(e.weight), dense(e, lx + static_cast<int>(h + l) - 1, 0));
      } else { fail("unknown op " + op); }
    } catch (const std::exception& ex) {
      fail(ex.what());
    }
    fflush(stdout);
  }
  return 0;
}
