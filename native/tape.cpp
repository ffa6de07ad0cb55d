// Model-based histories on the real tape (bounded supplement; never counted as proof).
// usage: tape SUITE NHIST SEED [only-history]
#include <XAD/ChunkContainer.hpp>
#include <XAD/TapeContainer.hpp>
#include <utility>
#ifndef CHUNK
#define CHUNK 4
#endif
#ifdef SMALL_CHUNK
namespace xad {
template <> struct TapeContainerTraits<double> { typedef ChunkContainer<double, CHUNK> type; };
template <> struct TapeContainerTraits<unsigned> { typedef ChunkContainer<unsigned, CHUNK> type; };
template <> struct TapeContainerTraits<std::pair<unsigned, unsigned>> { typedef ChunkContainer<std::pair<unsigned, unsigned>, CHUNK> type; };
}
#endif
#include "Tape.cpp"
#include <XAD/XAD.hpp>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using std::string;
typedef xad::AReal<double> AD;
typedef xad::Tape<double> Tape;
typedef unsigned slot_t;
static const slot_t NOSLOT = Tape::INVALID_SLOT;

struct Fail { string tags, msg; };
struct Stop {};

static std::map<string, std::map<string, int>> W = {
 // op weights per suite
 {"C06", {{"stmt",30},{"new",6},{"reg",5},{"copy",6},{"move",6},{"asg",5},{"comp",14},{"del",3},{"read",4},{"newrec",1},{"passive",3}}},
 {"C07", {{"stmt",40},{"new",6},{"reg",4},{"copy",3},{"move",2},{"asg",4},{"comp",6},{"del",3},{"seed",14},{"sweep",8},{"clrd",5},{"newrec",1},{"e2e",2}}},
 {"C09", {{"stmt",10},{"new",18},{"reg",12},{"copy",10},{"move",10},{"asg",2},{"del",22},{"seed",3},{"sweep",1},{"newrec",2},{"nestb",3},{"neste",3},{"tmove",1},{"clearall",1},{"outp",3},{"bulkdel",2},{"derreg",4},{"pos",2},{"reset",1}}},
 {"C10", {{"stmt",24},{"new",6},{"reg",4},{"copy",3},{"move",2},{"asg",3},{"comp",4},{"del",4},{"seed",10},{"sweep",1},{"clrd",2},{"pos",12},{"reset",4},{"sweepto",8},{"clrafter",7},{"cb",3},{"newrec",1}}},
 {"C11", {{"stmt",24},{"new",8},{"reg",6},{"copy",3},{"del",6},{"asg",2},{"seed",10},{"sweep",4},{"sweepto",3},{"pos",4},{"cb",9},{"nestb",4},{"neste",4},{"push",4},{"pop",2},{"newrec",1},{"clrd",1},{"clearall",1}}},
 {"C12", {{"stmt",10},{"new",6},{"reg",5},{"del",4},{"seed",4},{"sweep",5},{"sweepto",3},{"pos",3},{"clrd",4},{"err",40},{"newrec",2},{"nestb",2},{"neste",2},{"push",2},{"pop",1},{"cb",1},{"clearall",1}}},
 {"C13", {{"stmt",16},{"new",6},{"reg",5},{"copy",2},{"del",3},{"seed",6},{"sweep",3},{"tmove",10},{"tswitch",8},{"cb",3},{"push",5},{"nestb",2},{"neste",2},{"pos",2},{"newrec",1},{"err",2}}},
 {"C19", {{"stmt",24},{"new",6},{"reg",5},{"copy",2},{"del",4},{"asg",2},{"seed",12},{"sweep",6},{"clrd",8},{"newrec",6},{"clearall",2},{"cb",2},{"nestb",3},{"neste",2},{"pos",2},{"sweepto",3},{"clrafter",2},{"e2e",2},{"getreset",4},{"incr",4}}},
};

struct Stmt { slot_t lhs; std::vector<std::pair<double, slot_t>> ops; int cb; };
struct Var {
    std::unique_ptr<AD> p;
    slot_t slot = NOSLOT;
    double val = 0;
    int level = 0;
    int id = -1;
    int born = 0;  // number of statements when registered
    std::map<int, double> g;  // gradient w.r.t. the variables live at the last newRecording
};
struct Rec { size_t start; bool init; std::set<slot_t> own; bool outerGone; std::set<slot_t> maybeGone; };

struct H;
static int g_alive = 0, g_dbl = 0;
static bool g_echo = false;
struct Cb : xad::CheckpointCallback<Tape> {
    H* h; int id; bool alive = true;
    Cb(H* hh, int i) : h(hh), id(i) { ++g_alive; }
    ~Cb() { if (!alive) ++g_dbl; alive = false; --g_alive; }
    void computeAdjoint(Tape* t) override;
};

struct H {
    std::mt19937 rng;
    string suite;
    std::vector<string> log;
    std::unique_ptr<Tape> tape;
    std::vector<Stmt> st;
    std::map<slot_t, double> adj, mag;
    std::vector<Rec> recs;
    std::vector<Var> pool;
    std::vector<std::unique_ptr<Cb>> cbs;      // inserted callbacks (owned by the harness)
    std::vector<Cb*> pushed;                   // owned by the tape
    std::vector<unsigned> positions;           // valid at the current level
    bool e2e = false;
    int incb = 0;
    bool sawNest = false, sawCb = false, sawReset = false, sawNewRec = false, sawClr = false, sawMove = false;
    long checks = 0;
    bool loose = false;  // a variable registered in a callback outlived it: slots in between were never owned

    int rnd(int n) { return n <= 0 ? 0 : int(rng() % unsigned(n)); }
    double cst() { static const double c[] = {0.5, 1, 1.5, 2, -1, -0.5, 3, 0.25}; return c[rnd(8)]; }
    void L(const string& s) { log.push_back(s); if (g_echo) { printf("%s; ", s.c_str()); fflush(stdout); } }
    void ck(bool ok, const char* tags, const string& m) { ++checks; if (!ok) throw Fail{tags, m}; }
    static bool near(double a, double b, double m) { return a == b || std::fabs(a - b) <= 1e-9 * (m + std::fabs(b)) + 1e-300; }
    Rec& rec() { return recs.back(); }
    string nm(int i) { return "v" + std::to_string(i) + (pool[i].slot == NOSLOT ? "" : "@" + std::to_string(pool[i].slot)); }

    H(const string& s, unsigned seed) : rng(seed), suite(s) {}

    // ---------------------------------------------------------------- model helpers
    void reinit() {  // first access to an adjoint
        if (rec().init) return;
        if (recs.size() == 1) { adj.clear(); mag.clear(); }
        else for (slot_t s : rec().own) { adj.erase(s); mag.erase(s); }
        rec().init = true;
    }
    void reverse(const Stmt& s) {
        if (s.cb >= 0 || s.lhs == NOSLOT) return;
        double a = adj[s.lhs], m = mag[s.lhs];
        adj[s.lhs] = 0; mag[s.lhs] = 0;
        for (auto& o : s.ops) { adj[o.second] += o.first * a; mag[o.second] += std::fabs(o.first) * m; }
    }
    size_t nops() { size_t n = 0; for (auto& s : st) n += s.ops.size(); return n; }
    bool liveSlot(slot_t s, int except) { for (int i = 0; i < int(pool.size()); ++i) if (i != except && pool[i].slot == s) return true; return false; }
    void lhs(slot_t s, std::vector<std::pair<double, slot_t>> ops) { st.push_back(Stmt{s, std::move(ops), -1}); }
    void gotSlot(int i, const char* what) {  // variable i has just been registered by the library
        slot_t s = pool[i].p->getSlot();
        ck(s != NOSLOT, "C06 C09", string(what) + ": the variable is not registered");
        ck(!liveSlot(s, i), "C09 C11", string(what) + ": slot " + std::to_string(s) + " is given out while its owner is live");
        pool[i].slot = s;
        pool[i].level = int(recs.size());
        pool[i].born = int(st.size());
        rec().own.insert(s);
        if (incb && recs.size() == 1) loose = true;
    }
    void counts(const char* tags) {
        ck(tape->getNumStatements() == st.size(), tags, "number of statements is " + std::to_string(tape->getNumStatements()) + ", expected " + std::to_string(st.size()));
        ck(tape->getNumOperations() == nops(), tags, "number of operations is " + std::to_string(tape->getNumOperations()) + ", expected " + std::to_string(nops()));
    }
    void vars(const char* tags) {
        unsigned live = 0; slot_t mx = 0; std::set<slot_t> ss;
        for (auto& v : pool) {
            ck(v.p->getSlot() == v.slot, "C06 C09 C13", "a variable changed its slot from " + std::to_string(int(v.slot)) + " to " + std::to_string(int(v.p->getSlot())));
            ck(v.p->getValue() == v.val, "C06 C07 C09 C10 C11 C12 C13 C19", "a variable has value " + std::to_string(v.p->getValue()) + ", expected " + std::to_string(v.val));
            if (v.slot != NOSLOT) { ++live; ss.insert(v.slot); mx = std::max(mx, v.slot + 1); }
        }
        if (!incb && !rec().outerGone)
            ck(tape->getNumVariables() == live, tags, "number of variables is " + std::to_string(tape->getNumVariables()) + ", expected " + std::to_string(live));
#ifdef XAD_TAPE_REUSE_SLOTS
        if (recs.size() == 1 && !incb && !loose) {
            slot_t lo = 0;
            std::vector<std::pair<slot_t, slot_t>> gaps;
            for (slot_t s : ss) { if (s != lo) gaps.emplace_back(lo, s); lo = s + 1; }
            ck(tape->getNumReusableSlots() == mx - live, "C09", "number of reusable slots is " + std::to_string(tape->getNumReusableSlots()) + ", expected " + std::to_string(mx - live));
            ck(tape->getNumReusableSlotSections() == gaps.size(), "C09", "reusable sections " + tape->getReusableSlotsString() + " expected " + std::to_string(gaps.size()));
            std::ostringstream o;
            for (auto& g : gaps) o << "[" << g.first << ", " << g.second << "), ";
            ck(tape->getReusableSlotsString() == o.str(), "C09", "reusable slots " + tape->getReusableSlotsString() + ", expected " + o.str());
        }
#endif
    }
    bool readable(const Var& v) { return v.slot != NOSLOT && !rec().maybeGone.count(v.slot); }
    void adjoints(const char* tags) {
        for (int i = 0; i < int(pool.size()); ++i) {
            if (!readable(pool[i])) continue;
            double r;
            try { r = tape->derivative(pool[i].slot); }
            catch (xad::OutOfRange&) { ck(false, "C09 C10 C12 C19", "adjoint of live variable " + nm(i) + " is out of range"); return; }
            reinit();
            double e = adj.count(pool[i].slot) ? adj[pool[i].slot] : 0, m = mag.count(pool[i].slot) ? mag[pool[i].slot] : 0;
            ck(near(r, e, m), tags, "adjoint of " + nm(i) + " is " + std::to_string(r) + ", expected " + std::to_string(e));
        }
    }
    string ptags() {  // properties a wrong adjoint after a full sweep speaks about
        string t = "C07";
        if (sawNest || sawCb) t += " C11";
        if (sawReset) t += " C10";
        if (sawNewRec || sawClr) t += " C19";
        if (sawMove) t += " C13";
        if (suite == "C09") t += " C09";
        return t;
    }
    // ---------------------------------------------------------------- pool
    int pick() { return pool.empty() ? -1 : rnd(int(pool.size())); }
    int pickReg() { std::vector<int> c; for (int i = 0; i < int(pool.size()); ++i) if (pool[i].slot != NOSLOT) c.push_back(i); return c.empty() ? -1 : c[rnd(int(c.size()))]; }
    int pickSeed() { std::vector<int> c; for (int i = 0; i < int(pool.size()); ++i) if (readable(pool[i])) c.push_back(i); return c.empty() ? -1 : c[rnd(int(c.size()))]; }
    int add(std::unique_ptr<AD> p, double v) { Var x; x.p = std::move(p); x.val = v; x.level = int(recs.size()); pool.push_back(std::move(x)); return int(pool.size()) - 1; }
    void clampv(int i) { if (std::fabs(pool[i].val) > 4 || (pool[i].val != 0 && std::fabs(pool[i].val) < 0.1)) { double c = cst(); pool[i].p->value() = c; pool[i].val = c; } }
    void destroy(int i) {
        if (pool[i].slot != NOSLOT && pool[i].level < int(recs.size())) { rec().outerGone = true; }
        rec().maybeGone.erase(pool[i].slot);
        pool[i].p.reset();
        pool.erase(pool.begin() + i);
    }
    void destroyLevel(int lev) { for (int i = int(pool.size()) - 1; i >= 0; --i) if (pool[i].level >= lev) destroy(i); }

    // expression shapes: value, per-occurrence factors
    struct Sh { double v; std::vector<std::pair<double, int>> occ; string txt; };
    Sh shape(int k, int a, int b, double c) {
        double x = pool[a].val, y = pool[b].val;
        string A = nm(a), B = nm(b), C = std::to_string(c);
        switch (k) {
        case 0: return {x * y + c, {{y, a}, {x, b}}, A + "*" + B + "+" + C};
        case 1: return {x * x - y * 2.0, {{x, a}, {x, a}, {-2.0, b}}, A + "*" + A + "-" + B + "*2"};
        case 2: return {(x + 1.0) * (y - 3.0), {{y - 3.0, a}, {x + 1.0, b}}, "(" + A + "+1)*(" + B + "-3)"};
        case 3: return {2.0 * x, {{2.0, a}}, "2*" + A};
        case 4: return {x + x + y, {{1, a}, {1, a}, {1, b}}, A + "+" + A + "+" + B};
        case 5: return {-x, {{-1.0, a}}, "-" + A};
        case 6: return {c - x, {{-1.0, a}}, C + "-" + A};
        case 7: return {x * y * c + x, {{y * c, a}, {x * c, b}, {1, a}}, A + "*" + B + "*" + C + "+" + A};
        case 8: return {0.0 * x + y, {{0.0, a}, {1, b}}, "0*" + A + "+" + B};
        default: return {x, {{1, a}}, A};
        }
    }
    template <class F> void withExpr(int k, int a, int b, double c, F f) {
        AD &x = *pool[a].p, &y = *pool[b].p;
        switch (k) {
        case 0: f(x * y + c); break;
        case 1: f(x * x - y * 2.0); break;
        case 2: f((x + 1.0) * (y - 3.0)); break;
        case 3: f(2.0 * x); break;
        case 4: f(x + x + y); break;
        case 5: f(-x); break;
        case 6: f(c - x); break;
        case 7: f(x * y * c + x); break;
        case 8: f(0.0 * x + y); break;
        }
    }
    bool any(const Sh& s) { for (auto& o : s.occ) if (pool[o.second].slot != NOSLOT) return true; return false; }
    std::vector<std::pair<double, slot_t>> opsOf(const Sh& s) {
        std::vector<std::pair<double, slot_t>> r;
        for (auto& o : s.occ) if (pool[o.second].slot != NOSLOT) r.emplace_back(o.first, pool[o.second].slot);
        return r;
    }
    std::map<int, double> gradOf(const Sh& s) {
        std::map<int, double> r;
        for (auto& o : s.occ) for (auto& g : pool[o.second].g) r[g.first] += o.first * g.second;
        return r;
    }
    // unit seed on the last statement and propagate just it
    void probe(slot_t target) {
        if (suite != "C06" || recs.size() > 1 || incb) return;
        tape->clearDerivatives();
        rec().init = false;
        if (rec().maybeGone.count(target)) return;
        tape->setDerivative(target, 1.0);
        reinit();
        adj[target] = 1; mag[target] = 1;
        tape->computeAdjointsTo(tape->getPosition() - 1);
        reverse(st.back());
        adjoints("C06");
    }
    void assign(int t, const Sh& s, bool isNew) {
        auto g = gradOf(s);
        auto ops = opsOf(s);
        bool r = any(s) || pool[t].slot != NOSLOT;
        size_t n0 = st.size();
        if (r) {
            if (pool[t].slot == NOSLOT) gotSlot(t, "assignment");
            lhs(pool[t].slot, ops);
        }
        pool[t].val = s.v;
        pool[t].g = r ? g : std::map<int, double>();
        (void)isNew;
        counts("C06");
        ck(pool[t].p->getValue() == s.v, "C06", "assigned value " + std::to_string(pool[t].p->getValue()) + ", expected " + std::to_string(s.v));
        vars("C06 C09");
        if (st.size() > n0) probe(pool[t].slot);
        clampv(t);
    }
    // ---------------------------------------------------------------- operations
    void opStmt() {
        int a = pick(), b = pick();
        if (a < 0) return;
        int k = rnd(9); double c = cst();
        Sh s = shape(k, a, b, c);
        if (pool.size() < 10 && rnd(3) == 0) {
            std::unique_ptr<AD> p;
            L("new v" + std::to_string(pool.size()) + " = " + s.txt);
            withExpr(k, a, b, c, [&](const auto& e) { p.reset(new AD(e)); });
            int t = add(std::move(p), s.v);
            assign(t, s, true);
        } else {
            int t = pick();
            L(nm(t) + " = " + s.txt);
            withExpr(k, a, b, c, [&](const auto& e) { *pool[t].p = e; });
            assign(t, s, false);
        }
    }
    void opComp() {
        int t = pick(), a = pick();
        if (t < 0) return;
        double x = pool[t].val, y = pool[a].val, c = cst();
        int k = rnd(14);
        Sh s; AD& T = *pool[t].p; AD& A = *pool[a].p;
        bool nostmt = false;
        switch (k) {
        case 0: s = {x + y, {{1, t}, {1, a}}, "+="}; L(nm(t) + "+=" + nm(a)); T += A; break;
        case 1: s = {x - y, {{1, t}, {-1, a}}, "-="}; L(nm(t) + "-=" + nm(a)); T -= A; break;
        case 2: s = {x * y, {{y, t}, {x, a}}, "*="}; L(nm(t) + "*=" + nm(a)); T *= A; break;
        case 3: s = {x * c, {{c, t}}, "*="}; L(nm(t) + "*=c"); T *= c; break;
        case 4: s = {x + c, {}, ""}; nostmt = true; L(nm(t) + "+=c"); T += c; break;
        case 5: s = {x - c, {}, ""}; nostmt = true; L(nm(t) + "-=c"); T -= c; break;
        case 6: s = {x / 2.0, {{0.5, t}}, ""}; L(nm(t) + "/=2"); T /= 2; break;
        case 7: s = {x + 1, {{1, t}}, ""}; L("++" + nm(t)); ++T; break;
        case 8: s = {x - 1, {{1, t}}, ""}; L("--" + nm(t)); --T; break;
        case 9: s = {x + y * 2.0, {{1, t}, {2, a}}, ""}; L(nm(t) + "+=" + nm(a) + "*2"); T += A * 2.0; break;
        case 10: s = {x * (x + y), {{x + y, t}, {x, t}, {x, a}}, ""}; L(nm(t) + "*=(" + nm(t) + "+" + nm(a) + ")"); T *= (T + A); break;
        case 11: { if (y == 0) return; s = {x / y, {{1 / y, t}, {-x / y / y, a}}, "/="}; L(nm(t) + "/=" + nm(a)); T /= A; break; }
        case 12: { if (x == 0) return; s = {x - (x * y), {{1, t}, {-y, t}, {-x, a}}, ""}; L(nm(t) + "-=" + nm(t) + "*" + nm(a)); T -= T * A; break; }
        case 13: s = {x + 3, {}, ""}; nostmt = true; L(nm(t) + "+=3"); T += 3; break;
        }
        if (nostmt) {
            // adding a constant may or may not append a statement: derivative is unchanged either way
            if (tape->getNumStatements() == st.size() + 1 && pool[t].slot != NOSLOT) {
                s.occ.push_back({1, t});
                assign(t, s, false);
            } else {
                pool[t].val = s.v;
                counts("C06");
                vars("C06 C09");
                clampv(t);
            }
        } else assign(t, s, false);
    }
    void opNew() {
        if (pool.size() >= 12) return;
        double c = cst();
        L("new v" + std::to_string(pool.size()) + "(" + std::to_string(c) + ")");
        add(std::unique_ptr<AD>(new AD(c)), c);
        counts("C06"); vars("C09 C06");
    }
    void opReg(bool out) {
        int i = pick();
        if (i < 0) return;
        L(string(out ? "registerOutput " : "registerInput ") + nm(i));
        if (out) tape->registerOutput(*pool[i].p); else tape->registerInput(*pool[i].p);
        if (pool[i].slot == NOSLOT) { gotSlot(i, "register"); lhs(pool[i].slot, {}); pool[i].g.clear(); }
        counts("C06 C09"); vars("C09");
    }
    void opDerReg() {  // access to the derivative of an unregistered variable registers it
        int i = pick();
        if (i < 0 || pool[i].slot != NOSLOT) return;
        L("derivative(" + nm(i) + ")");
        double d = pool[i].p->derivative();
        gotSlot(i, "derivative()");
        reinit();
        adj[pool[i].slot]; 
        lhs(pool[i].slot, {}); pool[i].g.clear();
        if (recs.size() > 1 || incb || rec().own.size()) {} 
        (void)d;
        counts("C06 C09"); vars("C09");
    }
    void opCopy() {
        int a = pick();
        if (a < 0) return;
        Sh s = shape(99, a, a, 0);
        if (pool.size() < 12 && rnd(2)) {
            L("new v" + std::to_string(pool.size()) + "(" + nm(a) + ")");
            int t = add(std::unique_ptr<AD>(new AD(*pool[a].p)), s.v);
            assign(t, s, true);
        } else {
            int t = pick();
            L(nm(t) + " = " + nm(a) + " (copy)");
            *pool[t].p = *pool[a].p;
            assign(t, s, false);
        }
    }
    void opMove() {
        int a = pick();
        if (a < 0) return;
        if (pool.size() < 12 && rnd(2)) {
            L("new v" + std::to_string(pool.size()) + "(move " + nm(a) + ")");
            std::unique_ptr<AD> p(new AD(std::move(*pool[a].p)));
            int t = add(std::move(p), pool[a].val);
            pool[t].slot = pool[a].slot; pool[t].level = pool[a].level; pool[t].born = pool[a].born; pool[t].g = pool[a].g; pool[t].id = pool[a].id;
            pool[a].slot = NOSLOT; pool[a].g.clear(); pool[a].id = -1;
        } else {
            int t = pick();
            if (t < 0 || pool[a].level != pool[t].level) return;
            if (rnd(4) == 0) t = a;  // moving onto itself keeps value and slot
            L(nm(t) + " = move " + nm(a));
            AD& tr = *pool[t].p; AD& ar = *pool[a].p;
            tr = std::move(ar);
            if (t == a) { counts("C06"); vars("C09 C06"); return; }
            pool[t].val = pool[a].val;
            std::swap(pool[t].slot, pool[a].slot); std::swap(pool[t].g, pool[a].g); std::swap(pool[t].id, pool[a].id);
            std::swap(pool[t].level, pool[a].level); std::swap(pool[t].born, pool[a].born);
            // the source keeps nothing the caller may rely on, except that it may be destroyed
            ck(pool[t].p->getSlot() == pool[t].slot, "C06", "move assignment does not transfer the slot");
            if (pool[a].p->getSlot() != pool[a].slot) throw Stop();  // released at once: equally fine, but another history
        }
        counts("C06"); vars("C09 C06");
    }
    void opAsg() {
        int t = pick();
        if (t < 0) return;
        double c = cst();
        L(nm(t) + " = " + std::to_string(c));
        *pool[t].p = c;
        if (pool[t].slot != NOSLOT) { lhs(pool[t].slot, {}); }
        pool[t].val = c; pool[t].g.clear();
        counts("C06"); vars("C06 C09");
        if (pool[t].slot != NOSLOT) probe(pool[t].slot);
    }
    void opDel() {
        int i = pick();
        if (i < 0) return;
        L("destroy " + nm(i));
        destroy(i);
        counts("C06 C09"); vars("C09");
    }
    void opPassive() {
        L("passive computation");
        AD a = 1.5, b = 2.5, c = a * b + a / b - 3.0;
        c += a; c *= 2.0; c = -c + b;
        AD d(c), e(std::move(d)); a = e; a = 4.0;
        ck(c.getSlot() == NOSLOT && e.getSlot() == NOSLOT && a.getSlot() == NOSLOT, "C06", "passive computation registers a variable");
        int i = pickReg();
        if (i >= 0) {
            volatile double v = pool[i].p->getValue() + xad::value(*pool[i].p); (void)v;
            volatile bool q = (*pool[i].p < 1.0) || (*pool[i].p == *pool[i].p + 1.0) || *pool[i].p * 2.0 > 3.0; (void)q;
        }
        counts("C06"); vars("C06 C09");
    }
    void opSeed() {
        int i = pickSeed();
        if (i < 0) return;
        double c = cst();
        L("seed " + nm(i) + " += " + std::to_string(c));
        bool same = rnd(2);
        try {
            if (rnd(2)) { tape->derivative(pool[i].slot) += c; same = false; }
            else if (same) { pool[i].p->setDerivative(c); }
            else { pool[i].p->derivative() += c; }
        } catch (xad::OutOfRange&) { ck(false, "C09 C12 C19", "seeding live variable " + nm(i) + " is out of range"); }
        reinit();
        if (same) { adj[pool[i].slot] = c; mag[pool[i].slot] = std::fabs(c); }
        else { adj[pool[i].slot] += c; mag[pool[i].slot] += std::fabs(c); }
        counts("C06 C12");
    }
    void opRead(const char* tags) {
        int i = pickSeed();
        if (i < 0) return;
        L("read " + nm(i));
        double r = 0;
        int k = rnd(3);
        try { r = k == 0 ? pool[i].p->getDerivative() : k == 1 ? xad::derivative(*pool[i].p) : tape->derivative(pool[i].slot); }
        catch (xad::DerivativesNotInitialized&) {
            ck(!rec().init && k == 0, "C12 C19", "reading an adjoint raises DerivativesNotInitialized");
            return;
        }
        catch (xad::OutOfRange&) { ck(false, "C09 C12 C19", "reading live variable " + nm(i) + " is out of range"); }
        reinit();
        double e = rec().init && adj.count(pool[i].slot) ? adj[pool[i].slot] : 0;
        ck(near(r, e, mag.count(pool[i].slot) ? mag[pool[i].slot] : 0), tags, "adjoint of " + nm(i) + " reads " + std::to_string(r) + ", expected " + std::to_string(e));
        counts("C06 C12");
    }
    void opGetReset() {
        int i = pickSeed();
        if (i < 0) return;
        L("getAndResetOutputAdjoint " + nm(i));
        double r = tape->getAndResetOutputAdjoint(pool[i].slot);
        reinit();
        ck(near(r, adj[pool[i].slot], mag[pool[i].slot]), "C11 C19", "getAndResetOutputAdjoint gives " + std::to_string(r) + ", expected " + std::to_string(adj[pool[i].slot]));
        adj[pool[i].slot] = 0; mag[pool[i].slot] = 0;
        adjoints("C11 C19");
    }
    void opIncr() {
        int i = pickSeed();
        if (i < 0) return;
        double c = cst();
        L("incrementAdjoint " + nm(i));
        tape->incrementAdjoint(pool[i].slot, c);
        reinit();
        adj[pool[i].slot] += c; mag[pool[i].slot] += std::fabs(c);
        adjoints("C11 C19");
    }
    // propagation -------------------------------------------------------------
    struct Prop { size_t cursor, pos; };
    std::vector<Prop> props;
    void onCallback(int id);
    void propagate(size_t pos, bool full) {
        if (!rec().init) {
            bool threw = false;
            try { if (full) tape->computeAdjoints(); else tape->computeAdjointsTo(unsigned(pos)); }
            catch (xad::DerivativesNotInitialized&) { threw = true; }
            ck(threw, "C12 C19", "propagating before any adjoint was set does not raise the error");
            counts("C12"); vars("C12 C09");
            return;
        }
        bool hasCb = false;
        for (size_t k = pos; k < st.size(); ++k) hasCb |= st[k].cb >= 0;
        if (hasCb) { sawCb = true; e2e = false; }
        props.push_back({st.size(), pos});
        try {
            if (full) tape->computeAdjoints(); else tape->computeAdjointsTo(unsigned(pos));
        } catch (xad::Exception& e) { props.pop_back(); ck(false, "C12", string("propagation raises ") + e.what()); }
        Prop p = props.back();
        props.pop_back();
        for (size_t k = p.cursor; k > pos; --k) {
            ck(st[k - 1].cb < 0, "C11", "the checkpoint at statement " + std::to_string(k) + " was not called");
            reverse(st[k - 1]);
        }
        // the checkpoints and everything after are gone
        std::vector<unsigned> np;
        for (unsigned q : positions) if (q <= st.size()) np.push_back(q);
        positions = np;
        string t = hasCb ? "C11" : "C07 C10";
        counts(t.c_str());
        string pt = full ? ptags() : ptags() + " C10";
        adjoints(pt.c_str());
        vars("C09");
    }
    void opSweep() { L("computeAdjoints"); propagate(rec().start, true); }
    void opSweepTo() {
        std::vector<unsigned> c;
        for (unsigned p : positions) if (p >= rec().start && p <= st.size()) c.push_back(p);
        c.push_back(unsigned(rec().start + rnd(int(st.size() - rec().start) + 1)));
        unsigned p = c[rnd(int(c.size()))];
        L("computeAdjointsTo " + std::to_string(p));
        propagate(p, false);
    }
    void opPos() {
        unsigned p = tape->getPosition();
        L("getPosition -> " + std::to_string(p));
        ck(p == st.size(), "C10", "position is not the number of statements");
        positions.push_back(p);
    }
    void opReset() {
        std::vector<unsigned> c;
        for (unsigned p : positions) if (p >= rec().start && p <= st.size()) c.push_back(p);
        if (rnd(4) == 0) { // beyond the end: no-op
            unsigned p = unsigned(st.size()) + unsigned(rnd(3));
            L("resetTo(end) " + std::to_string(p));
            tape->resetTo(p);
            counts("C10"); vars("C10 C09"); adjointsIfInit("C10");
            return;
        }
        if (c.empty()) return;
        unsigned p = c[rnd(int(c.size()))];
        L("resetTo " + std::to_string(p));
        for (int i = int(pool.size()) - 1; i >= 0; --i)
            if (pool[i].slot != NOSLOT && pool[i].born >= int(p) && pool[i].level == int(recs.size()) && p < st.size()) { L("  destroy " + nm(i)); destroy(i); }
        tape->resetTo(p);
        if (p < st.size()) st.resize(p);
        std::vector<unsigned> np;
        for (unsigned q : positions) if (q <= st.size()) np.push_back(q);
        positions = np;
        sawReset = true; e2e = false;
        counts("C10"); vars("C10 C09"); adjointsIfInit("C10");
    }
    void adjointsIfInit(const char* tags) { if (rec().init) adjoints(tags); }
    void opClrAfter() {
        std::vector<unsigned> c;
        for (unsigned p : positions) if (p >= rec().start && p <= st.size()) c.push_back(p);
        if (c.empty() || recs.size() > 1) return;
        unsigned p = c[rnd(int(c.size()))];
        L("clearDerivativesAfter " + std::to_string(p));
        if (!rec().init) { adjoints("C19"); if (!rec().init) return; }
        tape->clearDerivativesAfter(p);
        sawReset = true; e2e = false;
        slot_t end = 0;
        for (auto& v : pool) if (v.slot != NOSLOT && v.born < int(p)) end = std::max(end, v.slot + 1);
        // variables after the position: read as zero or are out of range until used again
        for (auto& v : pool) {
            if (v.slot == NOSLOT || v.slot < end) continue;
            bool oor = false; double d = 0;
            try { d = tape->derivative(v.slot); } catch (xad::OutOfRange&) { oor = true; }
            if (oor) rec().maybeGone.insert(v.slot);
            else if (v.born >= int(p) && d == 0) { adj[v.slot] = 0; mag[v.slot] = 0; }
            // a variable whose slot was targeted before the position keeps its adjoint
        }
        for (auto& a : adj) if (a.first >= end) { double d = 0; bool oor = false; try { d = tape->derivative(a.first); } catch (xad::OutOfRange&) { oor = true; } if (oor) { a.second = 0; } else if (d == 0) { a.second = 0; } }
        for (auto& v : pool) if (v.slot != NOSLOT && v.born < int(p)) {
            bool oor = false;
            try { tape->derivative(v.slot); } catch (xad::OutOfRange&) { oor = true; }
            ck(!oor, "C10", "the adjoint of a variable registered before the position is not accessible");
        }
        counts("C10"); adjoints("C10");
        // what was propagated from variables after the position must be gone
    }
    void opClrD() {
        L("clearDerivatives");
        tape->clearDerivatives();
        rec().init = false; sawClr = true;
        counts("C19");
        if (rnd(2)) {
            for (int i = 0; i < int(pool.size()); ++i) {
                if (!readable(pool[i]) || rnd(2)) continue;
                if (recs.size() > 1 && pool[i].level < int(recs.size())) continue;  // the enclosing adjoints stay
                double r = -1;
                try { r = tape->derivative(pool[i].slot); } catch (xad::OutOfRange&) { ck(false, "C19 C12", "adjoint of a live variable out of range after clearDerivatives"); }
                reinit();
                ck(r == 0, "C19", "adjoint of " + nm(i) + " reads " + std::to_string(r) + " after clearDerivatives");
            }
        }
    }
    void opNewRec() {
        while (recs.size() > 1) { destroyLevel(int(recs.size())); L("(leave nested) "); tape->endNestedRecording(); popRec(); }
        L("newRecording");
        tape->newRecording();
        st.clear(); positions.clear();
        rec().init = false; rec().start = 0; rec().maybeGone.clear();
        sawNewRec = true; sawReset = false; e2e = true;
        int id = 0;
        for (auto& v : pool) { v.g.clear(); v.born = -1; v.id = -1; if (v.slot != NOSLOT) { v.g[id] = 1; v.id = id; } ++id; }
        counts("C19"); vars("C19 C09");
        if (rnd(2)) for (int i = 0; i < int(pool.size()); ++i) if (pool[i].slot != NOSLOT) {
            double r = -1;
            try { r = tape->derivative(pool[i].slot); } catch (xad::OutOfRange&) { ck(false, "C19 C12", "adjoint of a live variable out of range after newRecording"); }
            reinit();
            ck(r == 0, "C19", "adjoint of " + nm(i) + " reads " + std::to_string(r) + " after newRecording");
        }
    }
    void opClearAll() {
        while (recs.size() > 1) { destroyLevel(int(recs.size())); tape->endNestedRecording(); popRec(); }
        // the variables of the old recording must be gone
        for (int i = int(pool.size()) - 1; i >= 0; --i) destroy(i);
        L("clearAll (after destroying all variables)");
        tape->clearAll();
        st.clear(); positions.clear(); adj.clear(); mag.clear();
        recs.assign(1, Rec{0, false, {}, false, {}});
        sawNewRec = sawClr = true; e2e = false; sawReset = false;
        counts("C19"); vars("C19 C09");
        ck(tape->isActive() || deact, "C13 C19", "clearAll changed the activity");
        bool threw = false;
        try { tape->computeAdjoints(); } catch (xad::DerivativesNotInitialized&) { threw = true; }
        ck(threw, "C12 C19", "a cleared tape propagates without any adjoint set");
        threw = false;
        try { tape->derivative(0); } catch (xad::OutOfRange&) { threw = true; }
        ck(threw, "C12 C19", "a cleared tape has accessible adjoints");
    }
    bool deact = false;
    // nesting -------------------------------------------------------------------
    void popRec() {
        st.resize(recs.back().start);
        for (slot_t s : recs.back().own) { if (!liveSlot(s, -1)) { adj.erase(s); mag.erase(s); } }
        bool gone = recs.back().outerGone && recs.size() > 2;
        auto mg = recs.back().maybeGone;
        recs.pop_back();
        if (gone && recs.size() > 1) recs.back().outerGone = true;
        std::vector<unsigned> np;
        for (unsigned q : positions) if (q <= st.size()) np.push_back(q);
        positions = np;
    }
    void opNestB() {
        if (recs.size() > 3) return;
        L("newNestedRecording");
        if (!rec().init) { /* enclosing adjoints not in use */ adjoints("C19"); }
        tape->newNestedRecording();
        Rec r{st.size(), false, {}, recs.back().outerGone, recs.back().maybeGone};
        recs.push_back(r);
        sawNest = true; e2e = false;
        counts("C11"); vars("C11 C09");
    }
    void opNestE() {
        if (recs.size() < 2 || int(recs.size()) <= minLevel) return;
        destroyLevel(int(recs.size()));
        L("endNestedRecording");
        tape->endNestedRecording();
        popRec();
        counts("C11"); vars("C11 C09");
        adjointsIfInit("C11");
    }
    int minLevel = 1;
    void opCb() {
        int id = int(cbs.size());
        L("insertCallback #" + std::to_string(id));
        cbs.emplace_back(new Cb(this, id));
        tape->insertCallback(cbs.back().get());
        st.push_back(Stmt{NOSLOT, {}, id});
        counts("C11");
    }
    void opPush() {
        L("pushCallback");
        Cb* c = new Cb(this, -1);
        tape->pushCallback(c);
        pushed.push_back(c);
        ck(tape->getNumCallbacks() == pushed.size() && tape->haveCallbacks() && tape->getLastCallback() == c, "C11", "callback stack after pushCallback");
    }
    void opPop() {
        L("popCallback");
        if (pushed.empty()) {
            bool t1 = false, t2 = false;
            try { tape->popCallback(); } catch (xad::OutOfRange&) { t1 = true; }
            try { tape->getLastCallback(); } catch (xad::OutOfRange&) { t2 = true; }
            ck(t1 && t2, "C12", "empty callback stack does not raise OutOfRange");
            ck(!tape->haveCallbacks() && tape->getNumCallbacks() == 0, "C11", "empty callback stack");
            return;
        }
        ck(tape->getLastCallback() == pushed.back(), "C11", "last callback");
        int a = g_alive;
        tape->popCallback();
        if (g_alive == a) delete pushed.back();
        else ck(false, "C11", "popCallback destroyed the callback handed back");
        pushed.pop_back();
        ck(tape->getNumCallbacks() == pushed.size() && tape->haveCallbacks() == !pushed.empty(), "C11", "callback stack after popCallback");
    }
    // tapes -----------------------------------------------------------------------
    void opTapeMove() {
        if (incb) return;
        int k = rnd(4);
        bool act = tape->isActive();
        L("move tape kind " + std::to_string(k));
        sawMove = true;
        unsigned nc = unsigned(pushed.size());
        int alive0 = g_alive;
        if (k == 0 || k == 1) {
            std::unique_ptr<Tape> n(new Tape(std::move(*tape)));
            ck(!tape->isActive(), "C13", "the moved-from tape is active");
            tape.reset();
            tape = std::move(n);
        } else {
            std::unique_ptr<Tape> n(new Tape(false));
            // destination with content of its own, and callbacks to be destroyed
            n->pushCallback(new Cb(this, -2));
            if (k == 3) {
                if (act) tape->deactivate();
                n->activate();
                { AD u = 1, w; n->registerInput(u); w = u * u; n->derivative(w.getSlot()) = 1; }
                n->deactivate();
                if (act) tape->activate();
            }
            *n = std::move(*tape);
            ck(g_alive == alive0, "C13 C11", "callbacks of the overwritten tape are not destroyed exactly once");
            ck(!tape->isActive(), "C13", "the moved-from tape is active");
            tape.reset();
            tape = std::move(n);
        }
        ck(tape->isActive() == act, "C13", "activity not transferred");
        ck(act ? Tape::getActive() == tape.get() : Tape::getActive() == nullptr, "C13", "active tape selection after a move");
        ck(g_alive == alive0, "C13 C11", "number of callbacks alive changed");
        ck(tape->getNumCallbacks() == nc, "C13", "callbacks not transferred");
        counts("C13"); vars("C13 C09");
        adjointsIfInit("C13");
    }
    void opSwitch() {
        if (incb) return;
        int k = rnd(5);
        L("second tape, kind " + std::to_string(k));
        if (k == 0) {  // inactive second tape created and destroyed: nothing happens
            { Tape o(false); ck(!o.isActive() && tape->isActive(), "C13", "an inactive tape changed the selection"); o.deactivate(); ck(tape->isActive(), "C13", "deactivating an inactive tape changed the selection"); }
            ck(Tape::getActive() == tape.get(), "C13", "destroying an inactive tape changed the selection");
        } else if (k == 1 || k == 2) {
            if (k == 1) tape->deactivate(); else Tape::deactivateAll();
            ck(Tape::getActive() == nullptr && !tape->isActive(), "C13", "deactivate");
            {
                Tape o;
                ck(o.isActive() && Tape::getActive() == &o && !tape->isActive(), "C13", "activation on construction");
                { AD x = 3.0; o.registerInput(x); o.newRecording(); AD y = x * x; o.registerOutput(y); y.setDerivative(1.0); o.computeAdjoints(); ck(x.getDerivative() == 6.0, "C13 C07", "derivative on a second tape"); }
                if (rnd(2)) { Tape p(std::move(o)); ck(p.isActive() && !o.isActive() && Tape::getActive() == &p, "C13", "activity of a moved tape"); }
            }
            ck(Tape::getActive() == nullptr, "C13", "a destroyed tape is still selected");
            if (rnd(2)) tape->activate(); else Tape::setActive(tape.get());
            ck(tape->isActive() && Tape::getActive() == tape.get(), "C13", "re-activation");
        } else if (k == 3) {
            tape->deactivate(); tape->deactivate();
            ck(Tape::getActive() == nullptr, "C13", "deactivate twice");
            Tape o(false);
            ck(Tape::getActive() == nullptr, "C13", "construction without activation activates");
            o.activate();
            ck(Tape::getActive() == &o, "C13", "activate");
            Tape q(false);
            q = std::move(o);
            ck(Tape::getActive() == &q && q.isActive() && !o.isActive(), "C13", "move assignment of the active tape");
            o.deactivate();
            ck(q.isActive(), "C13", "deactivating a moved-from tape");
            Tape::deactivateAll();
            tape->activate();
        } else {  // moving an inactive tape must not touch the selection
            Tape o(false), q(false);
            q = std::move(o);
            Tape r(std::move(q));
            ck(tape->isActive() && !r.isActive() && !q.isActive() && !o.isActive(), "C13", "moving inactive tapes changed the selection");
        }
        counts("C13"); vars("C13 C09"); adjointsIfInit("C13");
    }
    void opErr() {
        int k = rnd(9);
        L("misuse " + std::to_string(k));
        bool threw = false;
        slot_t mx = 0;
        for (auto& r : recs) for (slot_t s : r.own) mx = std::max(mx, s);
        for (auto& a : adj) mx = std::max(mx, a.first);
        slot_t bad = rnd(3) == 0 ? NOSLOT : rnd(2) ? mx + 3 + unsigned(rnd(5)) : mx + 1000;
        bool init0 = rec().init;
        switch (k) {
        case 0: try { tape->derivative(bad); } catch (xad::OutOfRange&) { threw = true; } ck(threw, "C12", "derivative of an out-of-range slot"); break;
        case 1: try { const Tape& t = *tape; t.derivative(bad); } catch (xad::OutOfRange&) { threw = true; } ck(threw, "C12", "const derivative of an out-of-range slot"); break;
        case 2: try { tape->getAndResetOutputAdjoint(bad); } catch (xad::OutOfRange&) { threw = true; } ck(threw, "C12", "getAndResetOutputAdjoint out of range"); break;
        case 3: try { tape->incrementAdjoint(bad, 1.0); } catch (xad::OutOfRange&) { threw = true; } ck(threw, "C12", "incrementAdjoint out of range"); break;
        case 4: {
            Tape* a = Tape::getActive();
            { Tape o(false); try { o.activate(); } catch (xad::TapeAlreadyActive&) { threw = true; } ck(threw && Tape::getActive() == a && !o.isActive(), "C12 C13", "activating a second tape"); }
            ck(Tape::getActive() == a, "C12 C13", "failed activation changed the selection");
            threw = false;
            try { Tape o; } catch (xad::TapeAlreadyActive&) { threw = true; }
            ck(threw && Tape::getActive() == a, "C12 C13", "constructing a second active tape");
            threw = false;
            { Tape o(false); try { Tape::setActive(&o); } catch (xad::TapeAlreadyActive&) { threw = true; } }
            ck(threw && Tape::getActive() == a, "C12 C13", "setActive of a second tape");
            break;
        }
        case 5: {
            if (incb) break;
            tape->deactivate();
            int n = 0, e = 0;
            for (auto& v : pool) {
                slot_t s = v.p->getSlot();
                const AD& c = *v.p;
                ++n; try { v.p->derivative(); } catch (xad::NoTapeException&) { ++e; }
                ++n; try { c.derivative(); } catch (xad::NoTapeException&) { ++e; }
                ++n; try { c.getDerivative(); } catch (xad::NoTapeException&) { ++e; }
                ++n; try { v.p->setDerivative(1.0); } catch (xad::NoTapeException&) { ++e; }
                ck(v.p->getSlot() == s, "C12", "failed derivative access registered the variable");
            }
            tape->activate();
            ck(n == e, "C12", "derivative access without an active tape does not raise NoTapeException");
            break;
        }
        case 6: if (!rec().init) { for (int q = 0; q < 2; ++q) { threw = false; try { if (q) tape->computeAdjointsTo(unsigned(rec().start)); else tape->computeAdjoints(); } catch (xad::DerivativesNotInitialized&) { threw = true; } ck(threw, "C12", "propagation before any adjoint was set"); } } break;
        case 7: if (pushed.empty()) opPop(); break;
        case 8: {  // a const read before anything was set
            int i = pickSeed();
            if (i < 0) break;
            const Tape& t = *tape;
            double r = 0;
            try { r = t.derivative(pool[i].slot); } catch (xad::DerivativesNotInitialized&) { threw = true; } catch (xad::OutOfRange&) { ck(false, "C12 C09", "const derivative of a live slot is out of range"); }
            if (rec().init) { ck(!threw, "C12", "const derivative raises although adjoints are set"); ck(near(r, adj[pool[i].slot], mag[pool[i].slot]), "C12 C19", "const derivative value"); }
            else ck(threw || r == 0, "C12 C19", "const derivative before initialisation gives a stale value");
            break;
        }
        }
        // nothing changed
        counts("C12"); vars("C12 C09");
        if (!init0 && !rec().init) {
            threw = false;
            try { tape->computeAdjoints(); } catch (xad::DerivativesNotInitialized&) { threw = true; }
            ck(threw, "C12", "a failed call initialised the adjoints");
        } else adjoints("C12");
    }
    void opE2E() {
        if (!e2e || incb || recs.size() > 1) return;
        for (auto& s : st) if (s.cb >= 0) return;
        L("end-to-end gradient");
        tape->clearDerivatives(); rec().init = false; sawClr = true;
        std::map<int, double> ex;
        std::map<int, double> exm;
        int n = 0;
        for (auto& v : pool) if (readable(v) && rnd(2)) {
            double c = cst();
            v.p->setDerivative(c);
            reinit();
            adj[v.slot] = c; mag[v.slot] = std::fabs(c);
            for (auto& g : v.g) { ex[g.first] += c * g.second; exm[g.first] += std::fabs(c * g.second); }
            ++n;
        }
        if (!n) return;
        propagate(0, true);
        for (int i = 0; i < int(pool.size()); ++i) {
            Var& v = pool[i];
            if (v.slot == NOSLOT || v.id < 0) continue;   // the variables of newRecording keep the adjoint of their initial value
            double r = tape->derivative(v.slot), e = ex.count(v.id) ? ex[v.id] : 0, m = mag.count(v.slot) ? mag[v.slot] : 0;
            ck(near(r, e, m + 1), ptags().c_str(), "gradient with respect to the initial value of " + nm(i) + " is " + std::to_string(r) + ", expected " + std::to_string(e));
        }
    }

    void step() {
        auto& w = W[suite];
        int tot = 0;
        for (auto& x : w) tot += x.second;
        int r = rnd(tot);
        string op;
        for (auto& x : w) { if (r < x.second) { op = x.first; break; } r -= x.second; }
        run(op);
    }
    void run(const string& op) {
        if (op == "stmt") opStmt(); else if (op == "new") opNew(); else if (op == "reg") opReg(false);
        else if (op == "outp") opReg(true); else if (op == "copy") opCopy(); else if (op == "move") opMove();
        else if (op == "asg") opAsg(); else if (op == "comp") opComp(); else if (op == "del") opDel();
        else if (op == "bulkdel") { int n = rnd(int(pool.size()) + 1); while (n-- > 0) opDel(); }
        else if (op == "read") opRead("C06 C19"); else if (op == "passive") opPassive(); else if (op == "seed") opSeed();
        else if (op == "sweep") opSweep(); else if (op == "sweepto") opSweepTo(); else if (op == "clrd") opClrD();
        else if (op == "newrec") { if (!incb) opNewRec(); } else if (op == "clearall") { if (!incb) opClearAll(); }
        else if (op == "pos") opPos(); else if (op == "reset") { if (!incb || recs.size() > 1) opReset(); }
        else if (op == "clrafter") opClrAfter(); else if (op == "cb") { if (!incb) opCb(); }
        else if (op == "nestb") opNestB(); else if (op == "neste") opNestE();
        else if (op == "push") opPush(); else if (op == "pop") opPop(); else if (op == "tmove") opTapeMove();
        else if (op == "tswitch") { if (tape->isActive()) opSwitch(); } else if (op == "err") opErr(); else if (op == "e2e") opE2E();
        else if (op == "getreset") opGetReset(); else if (op == "incr") opIncr(); else if (op == "derreg") opDerReg();
    }
    void history(int len) {
        tape.reset(new Tape());
        recs.assign(1, Rec{0, false, {}, false, {}});
        int n0 = 1 + rnd(4);
        for (int i = 0; i < n0; ++i) opNew();
        for (int i = 0; i < n0; ++i) if (rnd(3)) opReg(false);
        if (rnd(3)) opNewRec();
        for (int i = 0; i < len; ++i) step();
        // close
        while (recs.size() > 1) opNestE();
        if (rnd(2)) { opSeed(); opSweep(); }
        if (rnd(2)) { L("destroy all variables"); while (!pool.empty()) opDel(); finishTape(); }
        else finishTape();
    }
    void finishTape() {
        int own = int(pushed.size()), before = g_alive;
        L("destroy the tape");
        tape.reset();
        ck(Tape::getActive() == nullptr, "C13", "a destroyed tape is still selected");
        ck(g_alive == before - own, "C11 C13", "the tape destroyed " + std::to_string(before - g_alive) + " callbacks, expected " + std::to_string(own));
        pushed.clear();
        ck(g_dbl == 0, "C11", "a callback was destroyed twice");
        // variables may outlive the tape
        pool.clear();
    }
};
void Cb::computeAdjoint(Tape* t) { (void)t; if (h) h->onCallback(id); }
void H::onCallback(int id) {
    ck(!props.empty(), "C11", "callback outside of a propagation");
    Prop& p = props.back();
    L(" callback #" + std::to_string(id));
    // the model reaches the latest remaining checkpoint
    size_t k = p.cursor;
    while (k > p.pos && st[k - 1].cb < 0) { reverse(st[k - 1]); --k; }
    ck(k > p.pos, "C11", "a checkpoint outside of the propagated range was called");
    ck(st[k - 1].cb == id, "C11", "checkpoint #" + std::to_string(id) + " called, expected #" + std::to_string(st[k - 1].cb));
    st.resize(k - 1);
    p.cursor = k - 1;
    size_t keep = st.size();
    counts("C11");
    adjoints("C11");
    ++incb;
    size_t saveProps = props.size();
    int base = int(recs.size());
    int kind = rnd(5);
    std::set<slot_t> own0 = rec().own;
    size_t npool = pool.size();
    int lvl0 = minLevel;
    auto incrSome = [&](double c) { int i = pickSeed(); if (i >= 0) { L("  incrementAdjoint " + nm(i)); tape->incrementAdjoint(pool[i].slot, c); reinit(); adj[pool[i].slot] += c; mag[pool[i].slot] += std::fabs(c); } };
    auto getSome = [&]() { int i = pickSeed(); if (i < 0) return 1.0; L("  getAndResetOutputAdjoint " + nm(i)); double r = tape->getAndResetOutputAdjoint(pool[i].slot); reinit(); ck(near(r, adj[pool[i].slot], mag[pool[i].slot]), "C11", "getAndResetOutputAdjoint in a callback"); adj[pool[i].slot] = 0; mag[pool[i].slot] = 0; return r; };
    if (kind == 0) {
    } else if (kind == 1) {
        getSome(); incrSome(cst());
    } else if (kind == 2) {   // records on the enclosing recording; all removed afterwards
        int n = 1 + rnd(3);
        for (int q = 0; q < n; ++q) { run(rnd(2) ? "new" : "reg"); if (rnd(2)) run("copy"); }
        // statements with a new target only, so that no outer variable changes its registration
        getSome(); incrSome(cst());
        while (pool.size() > npool) {
            int i = int(pool.size()) - 1;
            L("  destroy " + nm(i));
            // no adjoint is left behind in a slot that is given out again
            if (readable(pool[i])) { tape->setDerivative(pool[i].slot, 0.0); reinit(); adj[pool[i].slot] = 0; mag[pool[i].slot] = 0; }
            destroy(i);
        }
    } else {                  // the intended use: nested recording
        double c = getSome();
        bool pre = rnd(2);
        if (pre) { int t = add(std::unique_ptr<AD>(new AD(1.5)), 1.5); L("  registerInput before nesting"); tape->registerInput(*pool[t].p); gotSlot(t, "register"); lhs(pool[t].slot, {}); pool[t].level = base + 1; }
        size_t preSt = st.size(); (void)preSt;
        L("  newNestedRecording");
        tape->newNestedRecording();
        recs.push_back(Rec{st.size(), false, {}, rec().outerGone, rec().maybeGone});
        if (pre) recs.back().own.insert(pool.back().slot);
        minLevel = base + 1;
        sawNest = true;
        counts("C11");
        int n = 3 + rnd(12);
        if (pre) {
            // f(x) = x^2 with the outer adjoint
            std::unique_ptr<AD> y(new AD(*pool.back().p * *pool.back().p));
            int x = int(pool.size()) - 1;
            int t = add(std::move(y), 2.25);
            gotSlot(t, "construct"); lhs(pool[t].slot, {{1.5, pool[x].slot}, {1.5, pool[x].slot}});
            pool[t].p->setDerivative(c); reinit(); adj[pool[t].slot] = c; mag[pool[t].slot] = std::fabs(c);
            L("  computeAdjoints (nested)");
            propagate(rec().start, true);
        }
        for (int q = 0; q < n; ++q) {
            static const char* o[] = {"stmt", "new", "reg", "copy", "seed", "sweep", "del", "asg"};
            const char* op = o[rnd(8)];
            if (!strcmp(op, "sweep") && rec().start == st.size() && false) continue;
            // outer variables are neither destroyed nor assigned in here
            if (!strcmp(op, "del")) { if (pool.size() > npool + (pre ? 1 : 0)) destroy(int(pool.size()) - 1); continue; }
            if (!strcmp(op, "asg") || !strcmp(op, "reg")) {
                if (pool.size() <= npool) continue;
                int i = int(npool) + rnd(int(pool.size() - npool));
                if (op[0] == 'r' && pool[i].slot == NOSLOT) { L("  registerInput " + nm(i)); tape->registerInput(*pool[i].p); gotSlot(i, "register"); lhs(pool[i].slot, {}); }
                continue;
            }
            if (!strcmp(op, "copy") || !strcmp(op, "stmt")) {
                int a = pick(), b = pick();
                if (a < 0 || pool.size() >= npool + 8) continue;
                int kk = rnd(9); double cc = cst();
                Sh s = shape(kk, a, b, cc);
                std::unique_ptr<AD> pp;
                L("  new v" + std::to_string(pool.size()) + " = " + s.txt);
                withExpr(kk, a, b, cc, [&](const auto& e) { pp.reset(new AD(e)); });
                int t = add(std::move(pp), s.v);
                assign(t, s, true);
                continue;
            }
            run(op);
        }
        while (pool.size() > npool) { L("  destroy " + nm(int(pool.size()) - 1)); destroy(int(pool.size()) - 1); }
        for (auto& v : pool) if (v.level > base) v.level = base;
        L("  endNestedRecording");
        tape->endNestedRecording();
        popRec();
        minLevel = lvl0;
        counts("C11");
        adjoints("C11");
        if (rnd(2)) incrSome(c * 2);
    }
    --incb;
    ck(props.size() == saveProps, "C11", "nested propagation");
    // whatever the callback recorded is removed again
    st.resize(keep);
    for (auto& v : pool) if (v.born >= int(keep)) v.born = 1 << 30;
    (void)own0;
}
static FILE* progress() { static FILE* f = getenv("PROGRESS") ? fopen(getenv("PROGRESS"), "w") : nullptr; return f; }
int main(int argc, char** argv) {
    string suite = argc > 1 ? argv[1] : "C07";
    long n = argc > 2 ? atol(argv[2]) : 1000;
    unsigned seed = argc > 3 ? unsigned(atol(argv[3])) : 1;
    long only = argc > 4 ? atol(argv[4]) : -1;
    long checks = 0, fails = 0, other = 0;
    for (long i = 0; i < n && fails < 3; ++i) {
        if (only >= 0 && i != only) continue;
        H* h = new H(suite, seed * 1000003u + unsigned(i));  // leaked on failure: its state may be corrupt
        int len = 3 + h->rnd(suite == "C07" ? 60 : 40);
        g_echo = getenv("ECHO") != nullptr;
        if (FILE* pf = progress()) { rewind(pf); fprintf(pf, "%ld ", i); fflush(pf); }
        try { h->history(len); checks += h->checks; h->tape.reset(); delete h; }
        catch (Stop&) { for (auto& c : h->cbs) c->h = nullptr; h->tape.release(); Tape::deactivateAll(); }
        catch (Fail& f) {
            if (f.tags.find(suite) != string::npos) {
                ++fails;
                printf("FAIL %s history %ld seed %u: %s | ", suite.c_str(), i, seed, f.msg.c_str());
                size_t b = h->log.size() > 60 ? h->log.size() - 60 : 0;
                for (size_t q = b; q < h->log.size(); ++q) printf("%s; ", h->log[q].c_str());
                printf("\n");
            } else { ++other; if (only >= 0 || getenv("SHOW_OTHER")) { printf("other: history %ld %s %s | ", i, f.tags.c_str(), f.msg.c_str()); for (auto& q : h->log) printf("%s; ", q.c_str()); printf("\n"); } }
            Tape::deactivateAll(); h->tape.release();
        } catch (std::exception& e) {
            ++fails;
            printf("FAIL %s history %ld seed %u: unexpected exception %s | ", suite.c_str(), i, seed, e.what());
            for (auto& s : h->log) printf("%s; ", s.c_str());
            printf("\n");
            Tape::deactivateAll(); h->tape.release();
        }
        g_dbl = 0;
        fflush(stdout);
    }
    printf("DONE histories %ld checks %ld fails %ld other %ld\n", n, checks, fails, other);
    return fails ? 1 : 0;
}
