// Real-solver harness.
//
// Runs (multi-shot) programs through the real clingo and the real clingo-dl
// library using only the public C API of the latter and records everything a
// user can observe as a JSON trace (validated by SolveTrace.tla).
#include <clingo-dl.h>
#include <clingo.hh>

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <vector>

using namespace Clingo;

namespace {

[[noreturn]] void die(std::string const &msg) {
    std::fprintf(stderr, "harness error: %s\n", msg.c_str());
    std::fflush(nullptr);
    _Exit(65);
}

std::string jstr(std::string const &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 32 || c > 126) {
            char b[8];
            std::snprintf(b, sizeof(b), "\\u%04x", c);
            r += b;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r + "\"";
}

struct Step {
    std::string op;
    std::string arg;
};

struct Trace {
    std::string id{"0"};
    std::string cfg{"{}"};
    std::map<std::string, int> vars;
    std::vector<std::pair<int, Symbol>> varsyms;
    std::map<std::string, int> atoms;
    std::vector<Symbol> probes;
    int scale{1};
};

struct Run : SolveEventHandler {
    Trace &tr;
    clingodl_theory_t *theory{nullptr};
    std::unique_ptr<Control> ctl;
    bool registered{false};
    std::vector<std::string> args;
    std::string models;
    size_t nmodels{0};
    size_t limit{0};          // stop the next solve call after this many models
    std::string mode{"call"}; // how to solve: call, async, or yield
    std::string yields;
    std::string ev;
    bool failed{false};
    std::mutex mut;
    clingo_error_t code{0};

    Run(Trace &tr) : tr{tr} {
        if (!clingodl_create(&theory)) die("create");
    }
    ~Run() override {
        ctl.reset();
        clingodl_destroy(theory);
    }

    void event(std::string const &e) { ev += (ev.empty() ? "" : ",") + e; }

    void start() {
        if (registered) return;
        std::vector<char const *> a;
        for (auto &x : args) a.push_back(x.c_str());
        ctl.reset(new Control{StringSpan{a.data(), a.size()}, [](WarningCode, char const *) {}, 20});
        Detail::handle_error(clingodl_register(theory, ctl->to_c()));
        registered = true;
    }

    int var(Symbol s) const {
        auto it = tr.vars.find(s.to_string());
        return it == tr.vars.end() ? -1 : it->second;
    }

    std::string number(double v) const {
        double x = v * tr.scale;
        if (tr.scale >= 1000) {
            // decimal fractions are not exactly representable
            x = std::fabs(x - std::round(x)) < 0.01 ? std::round(x) : x;
        }
        if (x != std::floor(x) || std::fabs(x) > 2e9) return "1999999999";
        return std::to_string(static_cast<long long>(x));
    }

    std::string value(clingodl_value_t const &v) const {
        if (v.type == clingodl_value_type_int) return number(v.int_number);
        if (v.type == clingodl_value_type_double) return number(v.double_number);
        return "1999999998";
    }

    std::string number(Symbol s) const {
        if (s.type() == SymbolType::Number) return number(s.number());
        if (s.type() == SymbolType::String) {
            char *e = nullptr;
            double v = std::strtod(s.string(), &e);
            if (e != nullptr && *e == 0) return number(v);
        }
        return "1999999997";
    }

    std::string dl_symbols(Model const &m) const {
        std::string dl;
        for (auto &s : m.symbols(ShowType::Theory)) {
            if (s.match("dl", 2)) {
                dl += (dl.empty() ? "[" : ",[") + std::to_string(var(s.arguments()[0])) + "," + number(s.arguments()[1]) + "]";
            } else {
                dl += std::string(dl.empty() ? "" : ",") + "[-3,0]";
            }
        }
        return dl;
    }

    std::string assignment(uint32_t tid) const {
        std::string it;
        size_t idx = 0;
        clingodl_assignment_begin(theory, tid, &idx);
        while (clingodl_assignment_next(theory, tid, &idx)) {
            clingodl_value_t v;
            if (!clingodl_assignment_has_value(theory, tid, idx)) {
                it += std::string(it.empty() ? "" : ",") + "[-2,0]";
            }
            clingodl_assignment_get_value(theory, tid, idx, &v);
            it += (it.empty() ? "[" : ",[") + std::to_string(var(Symbol{clingodl_get_symbol(theory, idx)})) + "," + value(v) + "]";
        }
        return it;
    }

    bool on_model(Model &m) override {
        std::lock_guard<std::mutex> lock(mut);
        Detail::handle_error(clingodl_on_model(theory, m.to_c()));
        std::string at;
        for (auto &s : m.symbols(ShowType::Shown)) {
            if (s.match("dl", 2)) continue;
            auto it = tr.atoms.find(s.to_string());
            at += (at.empty() ? "" : ",") + std::to_string(it == tr.atoms.end() ? -1 : it->second);
        }
        auto tid = static_cast<uint32_t>(m.thread_id());
        std::string dl = dl_symbols(m);
        std::string it = assignment(tid);
        std::string lk;
        std::string ix;
        for (auto &x : tr.varsyms) {
            size_t i = 0;
            if (!clingodl_lookup_symbol(theory, x.second.to_c(), &i)) continue;
            ix += (ix.empty() ? "[" : ",[") + std::to_string(x.first) + "," + std::to_string(i) + "," + std::to_string(var(Symbol{clingodl_get_symbol(theory, i)})) + "]";
            if (clingodl_assignment_has_value(theory, tid, i)) {
                clingodl_value_t v;
                clingodl_assignment_get_value(theory, tid, i, &v);
                lk += (lk.empty() ? "[" : ",[") + std::to_string(x.first) + "," + value(v) + "]";
            }
        }
        int pr = 0;
        for (auto &s : tr.probes) {
            size_t i = 0;
            if (clingodl_lookup_symbol(theory, s.to_c(), &i) && s != Number(0)) pr = 1;
            if (s == Number(0) && clingodl_lookup_symbol(theory, s.to_c(), &i) && clingodl_assignment_has_value(theory, tid, i)) pr = 1;
        }
        models += std::string(models.empty() ? "" : ",") + "{\"at\":[" + at + "],\"dl\":[" + dl + "],\"it\":[" + it + "],\"lk\":[" + lk + "],\"ix\":[" + ix + "],\"pr\":" + std::to_string(pr) + "}";
        ++nmodels;
        return mode == "yield" || limit == 0 || nmodels < limit;
    }
    void on_statistics(UserStatistics step, UserStatistics accu) override {
        Detail::handle_error(clingodl_on_statistics(theory, step.to_c(), accu.to_c()));
    }

    void add(std::string const &text) {
        start();
        AST::with_builder(*ctl, [&](AST::ProgramBuilder &b) {
            auto cb = [](clingo_ast_t *a, void *d) -> bool {
                return clingo_program_builder_add(static_cast<AST::ProgramBuilder *>(d)->to_c(), a);
            };
            AST::parse_string(text.c_str(), [&](AST::Node const &n) {
                Detail::handle_error(clingodl_rewrite_ast(theory, n.to_c(), cb, &b));
            }, [](WarningCode, char const *) {}, 20);
        });
    }

    void step(std::string const &op, std::string const &arg) {
        std::istringstream is(arg);
        if (op == "conf") {
            std::string k;
            std::string v;
            is >> k >> v;
            Detail::handle_error(clingodl_configure(theory, k.c_str(), v.c_str()));
        } else if (op == "arg") {
            args.push_back(arg);
        } else if (op == "add") {
            add(arg);
        } else if (op == "ground") {
            start();
            ctl->ground({{arg.c_str(), {}}});
        } else if (op == "threads") {
            start();
            ctl->configuration()["solve"]["parallel_mode"] = arg.c_str();
        } else if (op == "limit") {
            is >> limit;
        } else if (op == "mode") {
            is >> mode;
        } else if (op == "ext") {
            std::string a;
            std::string v;
            is >> a >> v;
            auto s = parse_term(a.c_str());
            if (v == "release") {
                ctl->release_external(s);
            } else {
                ctl->assign_external(s, v == "true" ? TruthValue::True : (v == "false" ? TruthValue::False : TruthValue::Free));
            }
        } else if (op == "solve") {
            start();
            // Note: clingo ignores assumptions on atoms that do not have a
            // literal
            std::vector<literal_t> as;
            std::string a;
            std::string pos;
            std::string neg;
            auto base = ctl->symbolic_atoms();
            while (is >> a) {
                bool sign = a[0] == '-';
                auto s = parse_term(a.c_str() + (sign ? 1 : 0));
                auto it = base.find(s);
                if (!it || it->is_fact() || it->literal() == 0) continue;
                as.emplace_back(sign ? -it->literal() : it->literal());
                auto &l = sign ? neg : pos;
                l += (l.empty() ? "" : ",") + std::to_string(tr.atoms[s.to_string()]);
            }
            if (!as.empty()) {
                event("{\"k\":\"asm\",\"pos\":[" + pos + "],\"neg\":[" + neg + "]}");
            }
            models.clear();
            nmodels = 0;
            Detail::handle_error(clingodl_prepare(theory, ctl->to_c()));
            yields.clear();
            int sat = 0;
            int unsat = 0;
            bool stopped = false;
            {
                auto handle = ctl->solve(LiteralSpan{as.data(), as.size()}, this, mode == "async", mode == "yield");
                if (mode == "yield") {
                    for (; handle.model(); handle.next()) {
                        auto const &m = handle.model();
                        // the assignment can be read as long as the model is there
                        yields += std::string(yields.empty() ? "" : ",") + "{\"dl\":[" + dl_symbols(m) + "],\"it\":[" + assignment(static_cast<uint32_t>(m.thread_id())) + "]}";
                        if (limit > 0 && nmodels >= limit) {
                            stopped = true;
                            break;
                        }
                    }
                }
                if (stopped) {
                    handle.cancel();
                    sat = 1;
                } else {
                    auto ret = handle.get();
                    sat = ret.is_satisfiable() ? 1 : 0;
                    unsat = ret.is_unsatisfiable() ? 1 : 0;
                    stopped = limit > 0 && nmodels >= limit;
                }
            }
            event("{\"k\":\"solve\",\"sat\":" + std::to_string(sat) + ",\"unsat\":" + std::to_string(unsat) + ",\"lim\":" + std::to_string(stopped ? limit : 0) + ",\"models\":[" + models + "],\"yd\":[" + yields + "]}");
            limit = 0;
        } else {
            die("unknown op " + op);
        }
    }
};

void run_line(Run &run, std::string const &op, std::string const &arg) {
    if (run.failed) {
        return;
    }
    if (op == "ev") {
        run.event(arg);
        return;
    }
    try {
        run.step(op, arg);
    } catch (std::exception const &e) {
        run.event("{\"k\":\"err\",\"op\":" + jstr(op) + ",\"msg\":" + jstr(e.what()) + "}");
        run.failed = true;
    }
}

void run_trace(std::vector<std::string> const &lines, std::ostream &out) {
    Trace tr;
    std::vector<std::vector<std::pair<std::string, std::string>>> todo;
    bool twin = false;
    for (auto &line : lines) {
        auto p = line.find(' ');
        std::string op = line.substr(0, p);
        std::string arg = p == std::string::npos ? "" : line.substr(p + 1);
        std::istringstream is(arg);
        if (op == "trace") {
            tr.id = arg;
        } else if (op == "cfg") {
            tr.cfg = arg;
        } else if (op == "scale") {
            is >> tr.scale;
        } else if (op == "var") {
            int x = 0;
            std::string n;
            is >> x >> n;
            auto s = parse_term(n.c_str());
            tr.vars[s.to_string()] = x;
            tr.varsyms.emplace_back(x, s);
        } else if (op == "atom") {
            int x = 0;
            std::string n;
            is >> x >> n;
            tr.atoms[parse_term(n.c_str()).to_string()] = x;
        } else if (op == "probe") {
            tr.probes.push_back(parse_term(arg.c_str()));
        } else if (op == "twin") {
            twin = true; // the runs take turns in the same process
        } else if (op == "run") {
            todo.emplace_back();
        } else {
            todo.back().emplace_back(op, arg);
        }
    }
    std::string ev;
    std::vector<std::unique_ptr<Run>> runs;
    auto finish = [&](size_t i) {
        ev += std::string(ev.empty() ? "" : ",") + "{\"k\":\"run\"}" + (runs[i]->ev.empty() ? "" : ",") + runs[i]->ev;
        runs[i].reset();
    };
    for (size_t i = 0; i < todo.size(); ++i) {
        runs.emplace_back(new Run(tr));
        if (!twin) {
            for (auto &x : todo[i]) run_line(*runs[i], x.first, x.second);
            finish(i);
        }
    }
    if (twin) {
        bool more = true;
        for (size_t k = 0; more; ++k) {
            more = false;
            for (size_t i = 0; i < todo.size(); ++i) {
                if (k < todo[i].size()) {
                    run_line(*runs[i], todo[i][k].first, todo[i][k].second);
                    more = true;
                }
            }
        }
        for (size_t i = 0; i < todo.size(); ++i) finish(i);
    }
    out << "{\"id\":" << tr.id << ",\"cfg\":" << tr.cfg << ",\"ev\":[" << ev << "]}" << std::endl;
}

} // namespace

int main(int argc, char **argv) {
    if (argc < 3) die("usage: real <scenarios> <out> [skip]");
    std::ifstream in(argv[1]);
    if (!in) die("cannot open scenarios");
    long skip = argc > 3 ? std::atol(argv[3]) : 0;
    std::ofstream out(argv[2], std::ios::app);
    std::vector<std::string> lines;
    std::string line;
    long n = 0;
    while (std::getline(in, line)) {
        if (line == "end") {
            if (n++ >= skip) run_trace(lines, out);
            lines.clear();
        } else {
            lines.push_back(line);
        }
    }
    return 0;
}
