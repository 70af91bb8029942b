// Fake-solver harness.
//
// Drives the *real* clingo-dl propagator (obtained through clingodl_register)
// with an adversarial stand-in for clasp that obeys clingo's propagator
// contract.  The stand-in implements the clingo_propagate_init_*,
// clingo_propagate_control_*, clingo_assignment_* and clingo_theory_atoms_*
// functions of clingo's C API, so only stable public interfaces are used.
//
// Input : scenario file (line oriented, see gen.py)
// Output: one JSON trace per scenario and line (validated by PropTrace.tla)
#include <clingo-dl.h>
#include <clingo.h>

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <condition_variable>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#ifdef FAKE_CLI
extern "C" bool __real_clingodl_register(clingodl_theory_t *theory, clingo_control_t *ctl);
#define REGISTER __real_clingodl_register
#else
#define REGISTER clingodl_register
#endif

namespace {

using Lit = clingo_literal_t;

[[noreturn]] void die(std::string const &msg) {
    std::fprintf(stderr, "harness error: %s\n", msg.c_str());
    std::fflush(nullptr);
    _Exit(65);
}

// ---------------------------------------------------------------- theory terms
struct Term {
    clingo_theory_term_type_t type;
    int num{0};
    std::string name;
    std::vector<clingo_id_t> args;
};
struct Elem {
    std::vector<clingo_id_t> tuple;
    std::vector<Lit> cond;
};
struct Atom {
    clingo_id_t term;
    std::vector<clingo_id_t> elems;
    bool guard{true};
    std::string rel;
    clingo_id_t gterm{0};
    Lit lit{0};
};
} // namespace

struct clingo_theory_atoms {
    std::vector<Term> terms;
    std::vector<Elem> elems;
    std::vector<Atom> atoms;
};

namespace {
struct Thread;
struct World;
struct Baton;
} // namespace

struct clingo_assignment {
    Thread *th{nullptr};
};
struct clingo_propagate_control {
    Thread *th{nullptr};
};
struct clingo_propagate_init {
    World *w{nullptr};
};

namespace {

struct Thread {
    World *w{nullptr};
    int id{0};
    clingo_assignment ass{};
    clingo_propagate_control ctl{};
    std::vector<int8_t> val;     // by var: 0 free, 1 true, -1 false
    std::vector<uint32_t> lev;   // by var
    std::vector<Lit> trail;
    std::vector<size_t> lim;     // start of level i+1 in trail
    size_t qhead{0};
    std::set<Lit> watch;
    std::vector<Lit> pending;    // watched literals to deliver
    std::set<Lit> delivered0;    // delivered on level 0 (over all steps)
    std::vector<std::pair<uint32_t, std::vector<Lit>>> undo; // levels with propagate calls
    std::vector<std::vector<Lit>> clauses;
    bool conflict{false};
    bool dead{false};            // conflict on level 0
    std::vector<Lit> cclause;    // conflicting/asserting clause
    size_t front{0};
    bool checked{false};         // check already called for this trail size
    size_t imported{0};
    std::vector<std::vector<Lit>> *calls{nullptr}; // clauses of the current callback
    bool *cf{nullptr};           // whether there was a conflict in the current callback
    bool busy{false};            // in a callback

    uint32_t level() const { return static_cast<uint32_t>(lim.size()); }
    int value(Lit l) const {
        auto v = static_cast<size_t>(std::abs(l));
        if (v >= val.size()) return 0;
        return l > 0 ? val[v] : -val[v];
    }
    void ensure(size_t n) {
        if (val.size() <= n) {
            val.resize(n + 1, 0);
            lev.resize(n + 1, 0);
        }
    }
    void assign(Lit l) {
        auto v = static_cast<size_t>(std::abs(l));
        ensure(v);
        if (val[v] != 0) die("assigning assigned literal");
        val[v] = l > 0 ? 1 : -1;
        lev[v] = level();
        trail.push_back(l);
    }
};

struct World {
    clingo_theory_atoms ta{};
    clingo_propagate_init in{};
    std::vector<std::unique_ptr<Thread>> th;
    int nthreads{1};
    int step{0};
    uint32_t root{0};    // number of levels for assumptions
    int next_threads{1}; // number of threads from the next step on
    int nvars{1};
    clingo_propagator_t prop{};
    void *data{nullptr};
    bool registered{false};
    int checkmode{1};
    int maxvar{1};
    bool init_conflict{false};
    std::vector<std::vector<Lit>> *calls{nullptr}; // clauses added in init
    Baton *baton{nullptr}; // set while threads run concurrently
    bool in_init{false};
    int cur_thread{-1};
    std::vector<std::vector<Lit>> lemmas; // over all threads (for sharing)
    std::vector<int> lemma_owner;
    uint64_t rng{1};
    int pol{0}; // probability (percent) of assigning lower level units in place
    int shuffle{0};
    clingodl_theory_t *theory{nullptr};
    std::map<std::string, int> vars;
    int scale{1};
    int type{0}; // type of the last value read
    std::string ev; // JSON events
    bool failed{false};
    uint64_t rnd() {
        rng = rng * 6364136223846793005ULL + 1442695040888963407ULL;
        return rng >> 33;
    }
};

World *W = nullptr;

// Runs threads one at a time passing control on at calls of the solver's
// interface. What is run when only depends on the seed.
struct Baton {
    World &w;
    std::mutex mut;
    std::condition_variable cond;
    std::vector<int> running;
    int current{-1};

    void pass(int self, bool leave) {
        std::unique_lock<std::mutex> lock{mut};
        if (leave) {
            running.erase(std::find(running.begin(), running.end(), self));
            current = running.empty() ? -1 : running[w.rnd() % running.size()];
            cond.notify_all();
            return;
        }
        if (running.size() < 2 || w.rnd() % 100 >= 30) return;
        current = running[w.rnd() % running.size()];
        cond.notify_all();
        cond.wait(lock, [&] { return current == self; });
    }
    void run(std::map<int, std::vector<std::function<void()>>> &jobs) {
        std::vector<std::thread> threads;
        for (auto &x : jobs) running.push_back(x.first);
        w.baton = this;
        for (auto &x : jobs) {
            threads.emplace_back([this, &x] {
                {
                    std::unique_lock<std::mutex> lock{mut};
                    cond.wait(lock, [&] { return current == x.first; });
                }
                for (auto &job : x.second) {
                    if (!w.failed) job();
                }
                pass(x.first, true);
            });
        }
        {
            std::unique_lock<std::mutex> lock{mut};
            current = running[w.rnd() % running.size()];
            cond.notify_all();
        }
        for (auto &t : threads) t.join();
        w.baton = nullptr;
    }
};

// other threads may run while this one calls the solver
void yield(Thread const &t) {
    if (t.w != nullptr && t.w->baton != nullptr) t.w->baton->pass(t.id, false);
}

bool unit_propagate(Thread &t);

// returns false on conflict / required backjump
bool add_clause(Thread &t, std::vector<Lit> c) {
    if (t.conflict) return false;
    t.clauses.push_back(c);
    Lit unit = 0;
    int free = 0;
    uint32_t mx = 0;
    for (auto l : c) {
        if (t.value(l) > 0) return true;
        if (t.value(l) == 0) {
            if (unit != l) { ++free; }
            unit = l;
        } else {
            mx = std::max(mx, t.lev[static_cast<size_t>(std::abs(l))]);
        }
    }
    if (free == 0) {
        t.conflict = true;
        t.cclause = c;
        return false;
    }
    if (free == 1) {
        if (mx < t.level() && static_cast<int>(t.w->rnd() % 100) >= t.w->pol) {
            t.conflict = true;
            t.cclause = c;
            return false;
        }
        t.assign(unit);
    }
    return true;
}

bool unit_propagate(Thread &t) {
    if (t.conflict) return false;
    for (bool changed = true; changed;) {
        changed = false;
        for (; t.qhead < t.trail.size(); ++t.qhead) {
            Lit l = t.trail[t.qhead];
            if (t.watch.count(l) != 0) t.pending.push_back(l);
        }
        for (auto &c : t.clauses) {
            Lit unit = 0;
            int free = 0;
            bool sat = false;
            for (auto l : c) {
                int v = t.value(l);
                if (v > 0) {
                    sat = true;
                    break;
                }
                if (v == 0) {
                    if (unit != l) ++free;
                    unit = l;
                }
            }
            if (sat) continue;
            if (free == 0) {
                t.conflict = true;
                t.cclause = c;
                return false;
            }
            if (free == 1) {
                t.assign(unit);
                changed = true;
            }
        }
    }
    return true;
}

} // namespace

// ---------------------------------------------------------------- clingo C API stand-ins
#define API extern "C" __attribute__((visibility("default")))

static std::string term_str(clingo_theory_atoms_t const *a, clingo_id_t id) {
    auto &t = a->terms.at(id);
    if (t.type == clingo_theory_term_type_number) return std::to_string(t.num);
    if (t.type == clingo_theory_term_type_symbol) return t.name;
    std::string r = t.type == clingo_theory_term_type_function ? t.name : "";
    r += "(";
    for (size_t i = 0; i < t.args.size(); ++i) { r += (i ? "," : "") + term_str(a, t.args[i]); }
    return r + ")";
}
static bool copy_str(std::string const &s, char *out, size_t n) {
    if (n < s.size() + 1) return false;
    std::memcpy(out, s.c_str(), s.size() + 1);
    return true;
}
API bool clingo_theory_atoms_term_type(clingo_theory_atoms_t const *a, clingo_id_t t, clingo_theory_term_type_t *r) { *r = a->terms.at(t).type; return true; }
API bool clingo_theory_atoms_term_number(clingo_theory_atoms_t const *a, clingo_id_t t, int *r) { *r = a->terms.at(t).num; return true; }
API bool clingo_theory_atoms_term_name(clingo_theory_atoms_t const *a, clingo_id_t t, char const **r) { *r = a->terms.at(t).name.c_str(); return true; }
API bool clingo_theory_atoms_term_arguments(clingo_theory_atoms_t const *a, clingo_id_t t, clingo_id_t const **r, size_t *n) { *r = a->terms.at(t).args.data(); *n = a->terms.at(t).args.size(); return true; }
API bool clingo_theory_atoms_term_to_string_size(clingo_theory_atoms_t const *a, clingo_id_t t, size_t *n) { *n = term_str(a, t).size() + 1; return true; }
API bool clingo_theory_atoms_term_to_string(clingo_theory_atoms_t const *a, clingo_id_t t, char *s, size_t n) { return copy_str(term_str(a, t), s, n); }
API bool clingo_theory_atoms_element_tuple(clingo_theory_atoms_t const *a, clingo_id_t e, clingo_id_t const **r, size_t *n) { *r = a->elems.at(e).tuple.data(); *n = a->elems.at(e).tuple.size(); return true; }
API bool clingo_theory_atoms_element_condition(clingo_theory_atoms_t const *a, clingo_id_t e, clingo_literal_t const **r, size_t *n) { *r = a->elems.at(e).cond.data(); *n = a->elems.at(e).cond.size(); return true; }
API bool clingo_theory_atoms_element_condition_id(clingo_theory_atoms_t const *, clingo_id_t, clingo_literal_t *r) { *r = 0; return true; }
API bool clingo_theory_atoms_element_to_string_size(clingo_theory_atoms_t const *a, clingo_id_t e, size_t *n) { *n = term_str(a, a->elems.at(e).tuple.at(0)).size() + 1; return true; }
API bool clingo_theory_atoms_element_to_string(clingo_theory_atoms_t const *a, clingo_id_t e, char *s, size_t n) { return copy_str(term_str(a, a->elems.at(e).tuple.at(0)), s, n); }
API bool clingo_theory_atoms_size(clingo_theory_atoms_t const *a, size_t *n) { *n = a->atoms.size(); return true; }
API bool clingo_theory_atoms_atom_term(clingo_theory_atoms_t const *a, clingo_id_t x, clingo_id_t *r) { *r = a->atoms.at(x).term; return true; }
API bool clingo_theory_atoms_atom_elements(clingo_theory_atoms_t const *a, clingo_id_t x, clingo_id_t const **r, size_t *n) { *r = a->atoms.at(x).elems.data(); *n = a->atoms.at(x).elems.size(); return true; }
API bool clingo_theory_atoms_atom_has_guard(clingo_theory_atoms_t const *a, clingo_id_t x, bool *r) { *r = a->atoms.at(x).guard; return true; }
API bool clingo_theory_atoms_atom_guard(clingo_theory_atoms_t const *a, clingo_id_t x, char const **c, clingo_id_t *t) { *c = a->atoms.at(x).rel.c_str(); *t = a->atoms.at(x).gterm; return true; }
API bool clingo_theory_atoms_atom_literal(clingo_theory_atoms_t const *a, clingo_id_t x, clingo_literal_t *r) { static_cast<void>(a); *r = static_cast<Lit>(x) + 1; return true; }
API bool clingo_theory_atoms_atom_to_string_size(clingo_theory_atoms_t const *a, clingo_id_t x, size_t *n) { *n = term_str(a, a->atoms.at(x).term).size() + 3; return true; }
API bool clingo_theory_atoms_atom_to_string(clingo_theory_atoms_t const *a, clingo_id_t x, char *s, size_t n) { return copy_str("&" + term_str(a, a->atoms.at(x).term), s, n); }

API uint32_t clingo_assignment_decision_level(clingo_assignment_t const *a) { return a->th->level(); }
API uint32_t clingo_assignment_root_level(clingo_assignment_t const *a) { return std::min(a->th->w->root, a->th->level()); }
API bool clingo_assignment_has_conflict(clingo_assignment_t const *a) { return a->th->conflict; }
API bool clingo_assignment_has_literal(clingo_assignment_t const *a, clingo_literal_t l) { return std::abs(l) >= 1 && std::abs(l) <= a->th->w->maxvar; }
API bool clingo_assignment_level(clingo_assignment_t const *a, clingo_literal_t l, uint32_t *r) {
    if (a->th->value(l) == 0) { clingo_set_error(clingo_error_runtime, "level of unassigned literal"); return false; }
    *r = a->th->lev.at(static_cast<size_t>(std::abs(l)));
    return true;
}
API bool clingo_assignment_decision(clingo_assignment_t const *a, uint32_t level, clingo_literal_t *l) {
    if (level == 0) { *l = 1; return true; }
    *l = a->th->trail.at(a->th->lim.at(level - 1));
    return true;
}
API bool clingo_assignment_is_fixed(clingo_assignment_t const *a, clingo_literal_t l, bool *r) { *r = a->th->value(l) != 0 && a->th->lev.at(static_cast<size_t>(std::abs(l))) == 0; return true; }
API bool clingo_assignment_is_true(clingo_assignment_t const *a, clingo_literal_t l, bool *r) { yield(*a->th); *r = a->th->value(l) > 0; return true; }
API bool clingo_assignment_is_false(clingo_assignment_t const *a, clingo_literal_t l, bool *r) { yield(*a->th); *r = a->th->value(l) < 0; return true; }
API bool clingo_assignment_truth_value(clingo_assignment_t const *a, clingo_literal_t l, clingo_truth_value_t *r) {
    yield(*a->th);
    int v = a->th->value(l);
    *r = v > 0 ? clingo_truth_value_true : (v < 0 ? clingo_truth_value_false : clingo_truth_value_free);
    return true;
}
API size_t clingo_assignment_size(clingo_assignment_t const *a) { return static_cast<size_t>(a->th->w->maxvar); }
API bool clingo_assignment_at(clingo_assignment_t const *, size_t i, clingo_literal_t *l) { *l = static_cast<Lit>(i + 1); return true; }
static bool total(Thread const &t) {
    // clasp assumes a fresh step literal on level 1 when solving incrementally;
    // so from the second step on assignments are never total on level 0
    if (t.w->step > 1 && t.level() == 0) return false;
    for (int v = 1; v <= t.w->maxvar; ++v) {
        if (t.value(v) == 0) return false;
    }
    return true;
}
API bool clingo_assignment_is_total(clingo_assignment_t const *a) { return total(*a->th); }
API bool clingo_assignment_trail_size(clingo_assignment_t const *a, uint32_t *n) { *n = static_cast<uint32_t>(a->th->trail.size()); return true; }
API bool clingo_assignment_trail_begin(clingo_assignment_t const *a, uint32_t level, uint32_t *o) { *o = level == 0 ? 0 : static_cast<uint32_t>(a->th->lim.at(level - 1)); return true; }
API bool clingo_assignment_trail_end(clingo_assignment_t const *a, uint32_t level, uint32_t *o) { *o = level < a->th->lim.size() ? static_cast<uint32_t>(a->th->lim.at(level)) : static_cast<uint32_t>(a->th->trail.size()); return true; }
API bool clingo_assignment_trail_at(clingo_assignment_t const *a, uint32_t o, clingo_literal_t *l) { *l = a->th->trail.at(o); return true; }

API bool clingo_propagate_init_solver_literal(clingo_propagate_init_t const *i, clingo_literal_t l, clingo_literal_t *r) {
    auto idx = static_cast<size_t>(std::abs(l)) - 1;
    Lit x = i->w->ta.atoms.at(idx).lit;
    *r = l > 0 ? x : -x;
    return true;
}
API bool clingo_propagate_init_add_watch_to_thread(clingo_propagate_init_t *i, clingo_literal_t l, clingo_id_t t) {
    if (t >= i->w->th.size() || static_cast<int>(t) >= i->w->nthreads) { clingo_set_error(clingo_error_runtime, "invalid thread"); return false; }
    i->w->th[t]->watch.insert(l);
    return true;
}
API bool clingo_propagate_init_add_watch(clingo_propagate_init_t *i, clingo_literal_t l) {
    for (int t = 0; t < i->w->nthreads; ++t) { i->w->th[static_cast<size_t>(t)]->watch.insert(l); }
    return true;
}
API bool clingo_propagate_init_remove_watch(clingo_propagate_init_t *i, clingo_literal_t l) {
    for (auto &t : i->w->th) { t->watch.erase(l); }
    return true;
}
API bool clingo_propagate_init_remove_watch_from_thread(clingo_propagate_init_t *i, clingo_literal_t l, uint32_t t) { i->w->th.at(t)->watch.erase(l); return true; }
API bool clingo_propagate_init_freeze_literal(clingo_propagate_init_t *, clingo_literal_t) { return true; }
API bool clingo_propagate_init_symbolic_atoms(clingo_propagate_init_t const *, clingo_symbolic_atoms_t const **) { die("symbolic atoms not supported"); }
API bool clingo_propagate_init_theory_atoms(clingo_propagate_init_t const *i, clingo_theory_atoms_t const **a) { *a = &i->w->ta; return true; }
API int clingo_propagate_init_number_of_threads(clingo_propagate_init_t const *i) { return i->w->nthreads; }
API void clingo_propagate_init_set_check_mode(clingo_propagate_init_t *i, clingo_propagator_check_mode_t m) { i->w->checkmode = m; }
API clingo_propagator_check_mode_t clingo_propagate_init_get_check_mode(clingo_propagate_init_t const *i) { return i->w->checkmode; }
API clingo_assignment_t const *clingo_propagate_init_assignment(clingo_propagate_init_t const *i) { return &i->w->th[0]->ass; }
API bool clingo_propagate_init_add_literal(clingo_propagate_init_t *i, bool, clingo_literal_t *r) { *r = ++i->w->maxvar; return true; }
API bool clingo_propagate_init_add_clause(clingo_propagate_init_t *i, clingo_literal_t const *c, size_t n, bool *r) {
    std::vector<Lit> cl{c, c + n};
    if (i->w->calls != nullptr) i->w->calls->push_back(cl);
    bool ok = true;
    for (int k = 0; k < i->w->nthreads; ++k) {
        auto &t = *i->w->th[static_cast<size_t>(k)];
        ok = add_clause(t, cl) && ok;
    }
    if (!ok) i->w->init_conflict = true;
    *r = ok;
    return true;
}
API bool clingo_propagate_init_add_weight_constraint(clingo_propagate_init_t *, clingo_literal_t, clingo_weighted_literal_t const *, size_t, clingo_weight_t, clingo_weight_constraint_type_t, bool, bool *) { die("weight constraints not supported"); }
API bool clingo_propagate_init_add_minimize(clingo_propagate_init_t *, clingo_literal_t, clingo_weight_t, clingo_weight_t) { die("minimize not supported"); }
API bool clingo_propagate_init_propagate(clingo_propagate_init_t *i, bool *r) {
    bool ok = true;
    for (int k = 0; k < i->w->nthreads; ++k) { ok = unit_propagate(*i->w->th[static_cast<size_t>(k)]) && ok; }
    if (!ok) i->w->init_conflict = true;
    *r = ok;
    return true;
}
API clingo_id_t clingo_propagate_control_thread_id(clingo_propagate_control_t const *c) { yield(*c->th); return static_cast<clingo_id_t>(c->th->id); }
API clingo_assignment_t const *clingo_propagate_control_assignment(clingo_propagate_control_t const *c) { return &c->th->ass; }
API bool clingo_propagate_control_add_literal(clingo_propagate_control_t *c, clingo_literal_t *r) { *r = ++c->th->w->maxvar; return true; }
API bool clingo_propagate_control_add_watch(clingo_propagate_control_t *c, clingo_literal_t l) { yield(*c->th); c->th->watch.insert(l); return true; }
API bool clingo_propagate_control_has_watch(clingo_propagate_control_t const *c, clingo_literal_t l) { return c->th->watch.count(l) != 0; }
API void clingo_propagate_control_remove_watch(clingo_propagate_control_t *c, clingo_literal_t l) { yield(*c->th); c->th->watch.erase(l); }
API bool clingo_propagate_control_add_clause(clingo_propagate_control_t *c, clingo_literal_t const *l, size_t n, clingo_clause_type_t, bool *r) {
    auto &t = *c->th;
    auto &w = *t.w;
    yield(t);
    std::vector<Lit> cl{l, l + n};
    if (t.calls != nullptr) t.calls->push_back(cl);
    w.lemmas.push_back(cl);
    w.lemma_owner.push_back(t.id);
    *r = add_clause(t, cl);
    if (!*r && t.cf != nullptr) *t.cf = true;
    yield(t);
    return true;
}
API bool clingo_propagate_control_propagate(clingo_propagate_control_t *c, bool *r) {
    *r = unit_propagate(*c->th);
    if (!*r && c->th->cf != nullptr) *c->th->cf = true;
    yield(*c->th);
    return true;
}
API bool clingo_control_add(clingo_control_t *, char const *, char const *const *, size_t, char const *) { return true; }
API bool clingo_control_register_propagator(clingo_control_t *, clingo_propagator_t const *p, void *data, bool) {
    W->prop = *p;
    W->data = data;
    W->registered = true;
    return true;
}

namespace {

// ---------------------------------------------------------------- statistics stand-in
struct StatNode {
    int type{clingo_statistics_type_empty};
    double value{0};
    std::vector<std::pair<std::string, uint64_t>> map;
    std::vector<uint64_t> arr;
};
} // namespace
struct clingo_statistic {
    std::vector<StatNode> nodes;
    uint64_t make(int type) {
        nodes.emplace_back();
        nodes.back().type = type;
        return nodes.size() - 1;
    }
};
API bool clingo_statistics_root(clingo_statistics_t const *, uint64_t *k) { *k = 0; return true; }
API bool clingo_statistics_type(clingo_statistics_t const *s, uint64_t k, clingo_statistics_type_t *t) { *t = s->nodes.at(k).type; return true; }
API bool clingo_statistics_array_size(clingo_statistics_t const *s, uint64_t k, size_t *n) { *n = s->nodes.at(k).arr.size(); return true; }
API bool clingo_statistics_array_at(clingo_statistics_t const *s, uint64_t k, size_t o, uint64_t *r) {
    if (o >= s->nodes.at(k).arr.size()) { clingo_set_error(clingo_error_runtime, "array access"); return false; }
    *r = s->nodes.at(k).arr[o];
    return true;
}
API bool clingo_statistics_array_push(clingo_statistics_t *s, uint64_t k, clingo_statistics_type_t t, uint64_t *r) { *r = s->make(t); s->nodes.at(k).arr.push_back(*r); return true; }
API bool clingo_statistics_map_size(clingo_statistics_t const *s, uint64_t k, size_t *n) { *n = s->nodes.at(k).map.size(); return true; }
API bool clingo_statistics_map_has_subkey(clingo_statistics_t const *s, uint64_t k, char const *name, bool *r) {
    *r = false;
    for (auto &x : s->nodes.at(k).map) { *r = *r || x.first == name; }
    return true;
}
API bool clingo_statistics_map_at(clingo_statistics_t const *s, uint64_t k, char const *name, uint64_t *r) {
    for (auto &x : s->nodes.at(k).map) {
        if (x.first == name) { *r = x.second; return true; }
    }
    return false;
}
API bool clingo_statistics_map_subkey_name(clingo_statistics_t const *s, uint64_t k, size_t o, char const **name) { *name = s->nodes.at(k).map.at(o).first.c_str(); return true; }
API bool clingo_statistics_map_add_subkey(clingo_statistics_t *s, uint64_t k, char const *name, clingo_statistics_type_t t, uint64_t *r) {
    for (auto &x : s->nodes.at(k).map) {
        if (x.first == name) { *r = x.second; return true; }
    }
    *r = s->make(t);
    s->nodes.at(k).map.emplace_back(name, *r);
    return true;
}
API bool clingo_statistics_value_get(clingo_statistics_t const *s, uint64_t k, double *v) { *v = s->nodes.at(k).value; return true; }
API bool clingo_statistics_value_set(clingo_statistics_t *s, uint64_t k, double v) { s->nodes.at(k).value = v; return true; }

namespace {

// ---------------------------------------------------------------- JSON helpers
std::string jlits(std::vector<Lit> const &v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) { r += (i ? "," : "") + std::to_string(v[i]); }
    return r + "]";
}
std::string jclauses(std::vector<std::vector<Lit>> const &v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) { r += (i ? "," : "") + jlits(v[i]); }
    return r + "]";
}
std::string sym_str(clingo_symbol_t s) {
    size_t n = 0;
    clingo_symbol_to_string_size(s, &n);
    std::string r(n, 0);
    clingo_symbol_to_string(s, &r[0], n);
    r.resize(n - 1);
    return r;
}
std::string jvals(World &w, int t) {
    std::vector<std::pair<int, long>> v;
    size_t idx = 0;
    size_t guard = 0;
    clingodl_assignment_begin(w.theory, static_cast<uint32_t>(t), &idx);
    while (clingodl_assignment_next(w.theory, static_cast<uint32_t>(t), &idx)) {
        if (++guard > 100000) break;
        auto name = sym_str(clingodl_get_symbol(w.theory, idx));
        clingodl_value_t val;
        clingodl_assignment_get_value(w.theory, static_cast<uint32_t>(t), idx, &val);
        long x = 0;
        w.type = val.type == clingodl_value_type_int ? 0 : 1;
        if (val.type == clingodl_value_type_int) {
            x = val.int_number;
        } else {
            double d = val.double_number * w.scale;
            x = std::lround(d);
            if (static_cast<double>(x) != d) x = 77777777;
        }
        auto it = w.vars.find(name);
        v.emplace_back(it == w.vars.end() ? -1 : it->second, x);
    }
    std::sort(v.begin(), v.end());
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) { r += (i ? ",[" : "[") + std::to_string(v[i].first) + "," + std::to_string(v[i].second) + "]"; }
    return r + "]";
}
std::string jothers(World &w, int t) {
    std::string r = "[";
    bool first = true;
    for (int o = 0; o < w.nthreads; ++o) {
        if (o == t || w.th[static_cast<size_t>(o)]->busy) continue;
        r += (first ? "[" : ",[") + std::to_string(o) + "," + jvals(w, o) + "]";
        first = false;
    }
    return r + "]";
}
std::string jassign(Thread const &t) { return jlits(t.trail); }

void event(World &w, std::string const &e) { w.ev += (w.ev.empty() ? "" : ",") + e; }

std::string jstr(char const *s) {
    std::string r = "\"";
    for (; s != nullptr && *s != 0; ++s) {
        if (*s == '"' || *s == '\\') r += '\\';
        r += *s;
    }
    return r + "\"";
}

void error_event(World &w, char const *where) {
    char const *m = clingo_error_message();
    event(w, std::string("{\"k\":\"err\",\"w\":\"") + where + "\",\"m\":" + jstr(m == nullptr ? "" : m) + "}");
    w.failed = true;
}

// ---------------------------------------------------------------- solving
void call_undo(World &w, Thread &t, uint32_t lv) {
    if (!t.undo.empty() && t.undo.back().first == lv) {
        auto ch = t.undo.back().second;
        t.undo.pop_back();
        t.busy = true;
        if (w.prop.undo != nullptr) w.prop.undo(&t.ctl, ch.data(), ch.size(), w.data);
        t.busy = false;
        event(w, "{\"k\":\"u\",\"t\":" + std::to_string(t.id) + ",\"lv\":" + std::to_string(lv) + ",\"va\":" + jvals(w, t.id) + ",\"ov\":" + jothers(w, t.id) + "}");
    }
}

void backjump(World &w, Thread &t, uint32_t lv) {
    while (t.level() > lv) {
        auto l = t.level();
        size_t start = t.lim.back();
        while (t.trail.size() > start) {
            t.val[static_cast<size_t>(std::abs(t.trail.back()))] = 0;
            t.trail.pop_back();
        }
        t.qhead = std::min(t.qhead, t.trail.size());
        t.pending.clear(); // pending literals are always of the current level
        call_undo(w, t, l);
        t.lim.pop_back();
    }
    t.front = std::min(t.front, t.trail.size());
    t.conflict = false;
    t.checked = false;
}

std::string head(char const *k, Thread const &t) { return std::string("{\"k\":\"") + k + "\",\"t\":" + std::to_string(t.id) + ",\"lv\":" + std::to_string(t.level()); }

// resolve a conflict; returns false if the thread is dead
bool resolve(World &w, Thread &t) {
    auto c = t.cclause;
    // number of literals on the highest level and second highest level
    uint32_t hi = 0;
    uint32_t sec = 0;
    int nhi = 0;
    Lit unit = 0;
    for (auto l : c) {
        if (t.value(l) == 0) {
            unit = l;
            continue;
        }
        auto x = t.lev[static_cast<size_t>(std::abs(l))];
        if (x > hi) {
            sec = hi;
            hi = x;
            nhi = 1;
        } else if (x == hi) {
            ++nhi;
        } else {
            sec = std::max(sec, x);
        }
    }
    if (unit != 0) {
        backjump(w, t, hi);
        if (t.value(unit) == 0) t.assign(unit);
        return true;
    }
    if (hi == 0) {
        t.dead = true;
        return false;
    }
    if (t.level() > hi) backjump(w, t, hi);
    Lit dec = t.trail.at(t.lim.back());
    auto r = w.rnd() % 4;
    if (nhi == 1 && r != 0) {
        backjump(w, t, sec);
    } else if (r == 1 && t.level() > 1) {
        backjump(w, t, t.level() - 2);
    } else {
        // chronological: flip the decision as if it had been learned
        backjump(w, t, t.level() - 1);
        if (t.value(dec) == 0) t.assign(-dec);
    }
    return true;
}

void enter(Thread &t, std::vector<std::vector<Lit>> &calls, bool &cf) {
    t.calls = &calls;
    t.cf = &cf;
    t.busy = true;
}

void leave(Thread &t) {
    t.calls = nullptr;
    t.cf = nullptr;
    t.busy = false;
}

void check(World &w, Thread &t) {
    std::vector<std::vector<Lit>> calls;
    bool cf = false;
    bool tot = total(t);
    enter(t, calls, cf);
    bool ok = w.prop.check == nullptr || w.prop.check(&t.ctl, w.data);
    leave(t);
    if (!ok) {
        error_event(w, "check");
        return;
    }
    event(w, head("c", t) + ",\"tot\":" + (tot ? "1" : "0") + ",\"cl\":" + jclauses(calls) + ",\"cf\":" + (cf ? "1" : "0") + ",\"as\":" + jassign(t) + ",\"va\":" + jvals(w, t.id) + ",\"ov\":" + jothers(w, t.id) + "}");
}

// propagate until fixpoint, resolving conflicts
void fixpoint(World &w, Thread &t) {
    int rounds = 0;
    while (!t.dead && !w.failed) {
        if (++rounds > 2000) die("no fixpoint");
        yield(t);
        if (t.conflict || !unit_propagate(t)) {
            if (!resolve(w, t)) return;
            continue;
        }
        if (!t.pending.empty()) {
            std::vector<Lit> ch;
            std::swap(ch, t.pending);
            if (w.shuffle != 0) {
                for (size_t i = ch.size(); i > 1; --i) { std::swap(ch[i - 1], ch[w.rnd() % i]); }
            }
            auto lv = t.level();
            if (lv > 0) {
                if (t.undo.empty() || t.undo.back().first != lv) t.undo.emplace_back(lv, std::vector<Lit>{});
                auto &u = t.undo.back().second;
                u.insert(u.end(), ch.begin(), ch.end());
            } else {
                t.delivered0.insert(ch.begin(), ch.end());
            }
            std::vector<std::vector<Lit>> calls;
            bool cf = false;
            auto arg = ch; // private copy
            enter(t, calls, cf);
            bool ok = w.prop.propagate == nullptr || w.prop.propagate(&t.ctl, arg.data(), arg.size(), w.data);
            leave(t);
            if (!ok) {
                error_event(w, "propagate");
                return;
            }
            event(w, head("p", t) + ",\"ch\":" + jlits(ch) + ",\"cl\":" + jclauses(calls) + ",\"cf\":" + (cf ? "1" : "0") + ",\"as\":" + jassign(t) + ",\"va\":" + jvals(w, t.id) + ",\"ov\":" + jothers(w, t.id) + "}");
            continue;
        }
        if (((w.checkmode & 2) != 0 && t.front < t.trail.size()) || ((w.checkmode & 2) != 0 && !t.checked && t.level() == 0 && t.front == 0)) {
            t.front = t.trail.size();
            t.checked = true;
            check(w, t);
            continue;
        }
        if ((w.checkmode & 1) != 0 && total(t) && !t.checked) {
            t.checked = true;
            check(w, t);
            continue;
        }
        auto va = jvals(w, t.id);
        event(w, head("q", t) + ",\"ty\":" + std::to_string(w.type) + ",\"tot\":" + (total(t) ? "1" : "0") + ",\"as\":" + jassign(t) + ",\"va\":" + va + ",\"ov\":" + jothers(w, t.id) + "}");
        return;
    }
}

// ---------------------------------------------------------------- scenario parsing
struct SParser {
    std::string const &s;
    size_t p{0};
    clingo_theory_atoms &ta;
    void ws() { while (p < s.size() && s[p] == ' ') ++p; }
    std::string tok() {
        ws();
        std::string r;
        if (p < s.size() && s[p] == '"') {
            r += s[p++];
            while (p < s.size() && s[p] != '"') {
                if (s[p] == '\\') r += s[p++];
                r += s[p++];
            }
            r += s[p++];
            return r;
        }
        while (p < s.size() && s[p] != ' ' && s[p] != '(' && s[p] != ')') r += s[p++];
        return r;
    }
    clingo_id_t parse() {
        ws();
        if (p < s.size() && s[p] == '(') {
            ++p;
            Term t;
            t.name = tok();
            t.type = t.name == "," ? clingo_theory_term_type_tuple : clingo_theory_term_type_function;
            for (ws(); p < s.size() && s[p] != ')'; ws()) {
                auto x = parse();
                t.args.push_back(x);
            }
            ++p;
            ta.terms.push_back(t);
            return static_cast<clingo_id_t>(ta.terms.size() - 1);
        }
        auto x = tok();
        if (x.empty()) die("bad term: " + s);
        Term t;
        if (isdigit(static_cast<unsigned char>(x[0])) != 0 || (x.size() > 1 && x[0] == '-' && isdigit(static_cast<unsigned char>(x[1])) != 0)) {
            t.type = clingo_theory_term_type_number;
            t.num = static_cast<int>(std::stol(x));
        } else {
            t.type = clingo_theory_term_type_symbol;
            t.name = x;
        }
        ta.terms.push_back(t);
        return static_cast<clingo_id_t>(ta.terms.size() - 1);
    }
};

std::string stats_json(clingo_statistic const &s, uint64_t k, bool time = false) {
    auto &n = s.nodes.at(k);
    std::ostringstream o;
    if (n.type == clingo_statistics_type_value) {
        if (time) { // nanoseconds up to a second
            o << static_cast<long long>(std::llround(std::min(std::max(n.value, -1.0), 1.0) * 1e9));
        } else if (n.value == std::floor(n.value) && std::fabs(n.value) < 2e9) {
            o << static_cast<long long>(n.value);
        } else {
            o << "\"" << n.value << "\"";
        }
    } else if (n.type == clingo_statistics_type_array) {
        o << "[";
        for (size_t i = 0; i < n.arr.size(); ++i) { o << (i ? "," : "") << stats_json(s, n.arr[i]); }
        o << "]";
    } else {
        o << "{";
        bool first = true;
        for (auto &x : n.map) {
            std::string key;
            for (auto c : x.first) { if (isalnum(static_cast<unsigned char>(c)) != 0) key += c; else if (c == '+') key += "Plus"; }
            o << (first ? "" : ",") << "\"" << key << "\":" << stats_json(s, x.second, x.first.find("(s)") != std::string::npos);
            first = false;
        }
        o << "}";
    }
    return o.str();
}

// does text contain key as a word?
bool names_key(std::string const &text, std::string const &key) {
    auto word = [](char c) { return isalnum(static_cast<unsigned char>(c)) != 0 || c == '-' || c == '_'; };
    for (size_t p = text.find(key); p != std::string::npos; p = text.find(key, p + 1)) {
        if ((p == 0 || !word(text[p - 1])) && (p + key.size() == text.size() || !word(text[p + key.size()]))) return true;
    }
    return false;
}

// does the theory shift constraints?
std::string rewrite(clingodl_theory_t *theory, std::string const &prg) {
    struct Data {
        clingodl_theory_t *theory;
        std::string out;
    } d{theory, ""};
    auto cb = [](clingo_ast_t *stm, void *data) {
        auto add = [](clingo_ast_t *x, void *data) {
            size_t n = 0;
            if (!clingo_ast_to_string_size(x, &n)) return false;
            std::string r(n, 0);
            if (!clingo_ast_to_string(x, &r[0], n)) return false;
            r.resize(n - 1);
            static_cast<Data *>(data)->out += r + "\n";
            return true;
        };
        return clingodl_rewrite_ast(static_cast<Data *>(data)->theory, stm, add, data);
    };
    if (!clingo_ast_parse_string(prg.c_str(), cb, &d, nullptr, nullptr, nullptr, 20)) die("cannot rewrite");
    return d.out;
}

void run_trace(std::vector<std::string> const &lines, std::ostream &out, clingodl_theory_t *theory = nullptr, clingo_control_t *ctl = nullptr) {
    World w;
    W = &w;
    w.in.w = &w;
    std::string id = "0";
    std::string cfg = "{}";
    std::vector<clingodl_theory_t *> inst(3, nullptr);
    // the order in which instances are created
    std::string order = "0";
    for (auto const &line : lines) {
        if (line.compare(0, 6, "order ") == 0) order = line.substr(6);
    }
    for (auto c : order) {
        auto i = static_cast<size_t>(c - '0');
        if (i == 0 && theory != nullptr) {
            inst[i] = theory;
        } else if (!clingodl_create(&inst.at(i))) {
            die("create");
        }
    }
    w.theory = inst[0];
    std::vector<std::string> sems;
    clingo_statistic accu;
    auto since = std::chrono::steady_clock::now();
    bool started = false;
    auto thread = [&](int t) -> Thread & {
        if (t < 0 || static_cast<size_t>(t) >= w.th.size()) die("bad thread");
        return *w.th[static_cast<size_t>(t)];
    };
    bool reg = false;
    // key and value separated by one space
    auto configure = [&](size_t i, std::string const &kv) {
        auto p = kv.find(' ');
        auto k = kv.substr(0, p);
        auto v = p == std::string::npos ? std::string{} : kv.substr(p + 1);
        bool ok = clingodl_configure(inst.at(i), k.c_str(), v.c_str());
        char const *m = ok ? nullptr : clingo_error_message();
        event(w, "{\"k\":\"cf\",\"i\":" + std::to_string(i) + ",\"key\":" + jstr(k.c_str()) + ",\"v\":" + jstr(v.c_str()) +
                     ",\"ok\":" + (ok ? "1" : "0") + ",\"named\":" + (m != nullptr && names_key(m, k) ? "1" : "0") + "}");
    };
    // a step of the solver in one thread
    auto is_op = [](std::string const &op) { return op == "d" || op == "D" || op == "a" || op == "f" || op == "b" || op == "forget" || op == "share"; };
    auto thread_op = [&](std::string const &line) {
        std::istringstream is(line);
        std::string op;
        is >> op;
        if (op == "d" || op == "D" || op == "a" || op == "f") {
            int ti = 0;
            is >> ti;
            auto &t = thread(ti);
            if (t.dead || ti >= w.nthreads) return;
            std::vector<Lit> ls;
            for (Lit l = 0; is >> l;) ls.push_back(l);
            ls.erase(std::remove_if(ls.begin(), ls.end(), [&](Lit l) { return t.value(l) != 0; }), ls.end());
            if (ls.empty()) return;
            if (op == "D" && w.prop.decide != nullptr) {
                Lit r = 0;
                if (!w.prop.decide(static_cast<clingo_id_t>(ti), &t.ass, ls[0], w.data, &r)) {
                    error_event(w, "decide");
                    return;
                }
                event(w, head("h", t) + ",\"fb\":" + std::to_string(ls[0]) + ",\"res\":" + std::to_string(r) + "}");
                if (std::abs(r) == std::abs(ls[0])) ls[0] = r;
            } else if (op == "D") {
                event(w, head("h", t) + ",\"fb\":" + std::to_string(ls[0]) + ",\"res\":" + std::to_string(ls[0]) + "}");
            }
            if (op == "f" && t.level() > 0) backjump(w, t, 0);
            if (op == "d" || op == "D") t.lim.push_back(t.trail.size());
            for (auto l : ls) {
                if (t.value(l) == 0) t.assign(l);
            }
            t.checked = false;
            fixpoint(w, t);
        } else if (op == "b") {
            int ti = 0;
            uint32_t lv = 0;
            is >> ti >> lv;
            auto &t = thread(ti);
            if (t.dead || ti >= w.nthreads || lv >= t.level()) return;
            backjump(w, t, lv);
            fixpoint(w, t);
        } else if (op == "forget") {
            // restart without learned clauses
            int ti = 0;
            is >> ti;
            auto &t = thread(ti);
            if (t.dead || ti >= w.nthreads) return;
            if (t.level() > 0) backjump(w, t, 0);
            t.clauses.clear();
            fixpoint(w, t);
        } else if (op == "share") {
            int ti = 0;
            is >> ti;
            auto &t = thread(ti);
            if (t.dead || ti >= w.nthreads) return;
            for (; t.imported < w.lemmas.size() && !t.conflict; ++t.imported) {
                if (w.lemma_owner[t.imported] != ti) add_clause(t, w.lemmas[t.imported]);
            }
            fixpoint(w, t);
        }
    };
    std::map<int, std::vector<std::function<void()>>> jobs;
    bool collect = false;
    for (auto const &line : lines) {
        if (w.failed) break;
        std::istringstream is(line);
        std::string op;
        is >> op;
        if (collect && is_op(op)) {
            int ti = 0;
            is >> ti;
            thread(ti);
            jobs[ti].emplace_back([&thread_op, &line] { thread_op(line); });
            continue;
        }
        if (collect) {
            collect = false;
            if (!jobs.empty()) Baton{w}.run(jobs);
            jobs.clear();
            if (w.failed) break;
        }
        if (op == "trace") {
            is >> id;
        } else if (op == "conf") {
            configure(0, line.substr(5));
        } else if (op == "other") {
            configure(static_cast<size_t>(line.at(6) - '0'), line.substr(8));
        } else if (op == "order") {
        } else if (op == "rewrite") {
            size_t i = 0;
            is >> i;
            auto text = rewrite(inst.at(i), ":- not &diff { x-y } <= 1.");
            event(w, "{\"k\":\"rw\",\"i\":" + std::to_string(i) + ",\"sh\":" + (text.find("__diff_h") != std::string::npos ? "1" : "0") + "}");
        } else if (op == "cfg") {
            cfg = line.substr(4);
        } else if (op == "seed") {
            is >> w.rng;
        } else if (op == "pol") {
            is >> w.pol >> w.shuffle;
        } else if (op == "scale") {
            is >> w.scale;
        } else if (op == "threads") {
            is >> w.next_threads;
        } else if (op == "root") {
            is >> w.root;
        } else if (op == "var") {
            int x = 0;
            std::string n;
            is >> x;
            std::getline(is, n);
            n = n.substr(n.find_first_not_of(' '));
            w.vars[n] = x;
        } else if (op == "nvars") {
            is >> w.nvars; // highest solver variable of the program
            w.maxvar = std::max(w.maxvar, w.nvars);
        } else if (op == "atom") {
            // atom <h|b> <lit> <rel> # elem # guard # sem
            std::string tag;
            Atom a;
            is >> tag >> a.lit >> a.rel;
            auto p1 = line.find('#');
            auto p2 = line.find('#', p1 + 1);
            auto p3 = line.find('#', p2 + 1);
            std::string e = line.substr(p1 + 1, p2 - p1 - 1);
            std::string g = line.substr(p2 + 1, p3 - p2 - 1);
            w.ta.terms.push_back(Term{clingo_theory_term_type_symbol, 0, tag == "b" ? "__diff_b" : (tag == "h" ? "__diff_h" : tag), {}});
            a.term = static_cast<clingo_id_t>(w.ta.terms.size() - 1);
            SParser pe{e, 0, w.ta};
            Elem el;
            el.tuple.push_back(pe.parse());
            w.ta.elems.push_back(el);
            a.elems.push_back(static_cast<clingo_id_t>(w.ta.elems.size() - 1));
            SParser pg{g, 0, w.ta};
            a.gterm = pg.parse();
            w.ta.atoms.push_back(a);
            sems.push_back(line.substr(p3 + 1));
        } else if (op == "init") {
            if (!reg) {
                if (!REGISTER(w.theory, ctl)) {
                    error_event(w, "register");
                    break;
                }
                reg = true;
            }
            for (auto &t : w.th) {
                if (t->level() > 0) backjump(w, *t, 0);
            }
            w.nthreads = w.next_threads;
            ++w.step;
            while (static_cast<int>(w.th.size()) > w.nthreads) {
                w.th.pop_back(); // the solver is destroyed
            }
            while (static_cast<int>(w.th.size()) < w.nthreads) {
                w.th.emplace_back(new Thread());
                auto &t = *w.th.back();
                t.w = &w;
                t.id = static_cast<int>(w.th.size()) - 1;
                t.ass.th = &t;
                t.ctl.th = &t;
                t.ensure(1);
                t.assign(1);
                if (w.th.size() > 1) { // top-level facts of the master
                    for (auto l : w.th[0]->trail) {
                        if (t.value(l) == 0) t.assign(l);
                    }
                }
            }
            std::vector<std::vector<Lit>> calls;
            w.calls = &calls;
            w.checkmode = 1;
            auto fx = jlits(w.th[0]->trail);
            bool ok = w.prop.init == nullptr || w.prop.init(&w.in, w.data);
            w.calls = nullptr;
            std::string at = "[";
            for (size_t i = 0; i < sems.size(); ++i) { at += (i ? "," : "") + sems[i]; }
            at += "]";
            if (!ok) {
                char const *m = clingo_error_message();
                event(w, "{\"k\":\"i\",\"th\":" + std::to_string(w.nthreads) + ",\"at\":" + at + ",\"fx\":" + fx + ",\"cl\":" + jclauses(calls) + ",\"cf\":0,\"fx2\":[],\"ok\":0,\"m\":" + jstr(m == nullptr ? "" : m) + "}");
                break;
            }
            event(w, "{\"k\":\"i\",\"th\":" + std::to_string(w.nthreads) + ",\"at\":" + at + ",\"fx\":" + fx + ",\"cl\":" + jclauses(calls) + ",\"cf\":" + (w.init_conflict ? "1" : "0") + ",\"fx2\":" + jlits(w.th[0]->trail) + ",\"ok\":1}");
            sems.clear();
            w.ta = clingo_theory_atoms{};
            started = true;
            if (w.init_conflict) break; // the program is unsatisfiable
            for (int i = 0; i < w.nthreads; ++i) {
                auto &t = *w.th[static_cast<size_t>(i)];
                t.front = 0;
                t.checked = false;
                // literals watched since this step that are already true
                for (size_t k = 0; k < t.qhead; ++k) {
                    auto l = t.trail[k];
                    if (t.watch.count(l) != 0 && t.delivered0.count(l) == 0 && std::find(t.pending.begin(), t.pending.end(), l) == t.pending.end()) t.pending.push_back(l);
                }
                fixpoint(w, t);
                if (w.failed) break;
            }
        } else if (is_op(op)) {
            thread_op(line);
        } else if (op == "stats") {
            clingo_statistic step;
            step.make(clingo_statistics_type_map);
            if (accu.nodes.empty()) accu.make(clingo_statistics_type_map);
            if (!clingodl_on_statistics(w.theory, &step, &accu)) {
                error_event(w, "statistics");
                break;
            }
            auto wall = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - since).count();
            since = std::chrono::steady_clock::now();
            event(w, "{\"k\":\"st\",\"wall\":" + std::to_string(std::min<long long>(wall, 1000000000)) + ",\"step\":" + stats_json(step, 0) + ",\"accu\":" + stats_json(accu, 0) + "}");
        } else if (op == "par") {
            collect = true;
        } else if (op == "#" || op == "rap" || op.empty()) {
        } else {
            die("unknown op: " + line);
        }
    }
    static_cast<void>(started);
    std::vector<std::string> names;
    for (auto const &x : w.vars) {
        names.resize(std::max(names.size(), static_cast<size_t>(x.second)));
        names[static_cast<size_t>(x.second) - 1] = x.first;
    }
    std::string sy = "[";
    for (size_t i = 0; i < names.size(); ++i) { sy += (i ? "," : "") + jstr(names[i].c_str()); }
    out << "{\"id\":" << id << ",\"sc\":" << w.scale << ",\"sy\":" << sy << "],\"cfg\":" << cfg << ",\"ev\":[" << w.ev << "]}" << std::endl;
    for (auto *x : inst) {
        if (x != nullptr && x != theory) clingodl_destroy(x);
    }
    W = nullptr;
}

} // namespace

#ifndef FAKE_CLI
int main(int argc, char **argv) {
    if (argc < 3) die("usage: fake <scenarios> <out> [skip]");
    std::ifstream in(argv[1]);
    if (!in) die("cannot open scenarios");
    long skip = argc > 3 ? std::atol(argv[3]) : 0;
    std::ofstream out(argv[2], std::ios::app);
    std::vector<std::string> lines;
    std::string line;
    long n = 0;
    while (std::getline(in, line)) {
        if (line == "end") {
            if (n++ >= skip) {
                run_trace(lines, out);
            }
            lines.clear();
        } else {
            lines.push_back(line);
        }
    }
    return 0;
}
#else
// Runs the scenario as soon as the application registers its theory.
extern "C" bool __wrap_clingodl_register(clingodl_theory_t *theory, clingo_control_t *ctl) {
    std::ifstream in(getenv("FAKE_SCENARIO"));
    std::ofstream out(getenv("FAKE_TRACE"), std::ios::app);
    if (!in || !out) die("cannot open files");
    std::vector<std::string> lines;
    for (std::string line; std::getline(in, line) && line != "end";) lines.push_back(line);
    run_trace(lines, out, theory, ctl);
    out.close();
    std::fflush(nullptr);
    _Exit(0);
}
#endif
