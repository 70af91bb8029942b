// Records what the application does while solving by standing between the
// application and libclingo: grounding calls with a number as parameter
// (bounds), external atoms introduced by them and their release, models as
// shown after the application's event handler ran, statistics, and results.
//
// Linked with the sources of the application including main.
#include <clingo.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <vector>

namespace {

template <class F> F real(char const *name) {
    auto *f = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    if (f == nullptr) {
        std::fprintf(stderr, "cannot find %s\n", name);
        std::_Exit(99);
    }
    return f;
}

std::mutex mut;

void emit(std::string const &s) {
    static FILE *f = nullptr;
    if (f == nullptr) {
        char const *name = std::getenv("OPT_TRACE");
        f = std::fopen(name != nullptr ? name : "/dev/null", "w");
        if (f == nullptr) {
            std::_Exit(98);
        }
    }
    std::fprintf(f, "%s\n", s.c_str());
    std::fflush(f);
}

std::string quote(std::string const &s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
        }
        r += c;
    }
    return r + "\"";
}

std::string str(clingo_symbol_t sym) {
    size_t n = 0;
    clingo_symbol_to_string_size(sym, &n);
    std::vector<char> buf(n);
    clingo_symbol_to_string(sym, buf.data(), n);
    return buf.data();
}

using Externals = std::map<clingo_symbol_t, clingo_literal_t>;

Externals externals(clingo_control_t *ctl) {
    Externals res;
    clingo_symbolic_atoms_t const *atoms = nullptr;
    clingo_symbolic_atom_iterator_t it = 0;
    clingo_symbolic_atom_iterator_t ie = 0;
    clingo_control_symbolic_atoms(ctl, &atoms);
    clingo_symbolic_atoms_begin(atoms, nullptr, &it);
    clingo_symbolic_atoms_end(atoms, &ie);
    for (;;) {
        bool eq = false;
        clingo_symbolic_atoms_iterator_is_equal_to(atoms, it, ie, &eq);
        if (eq) {
            break;
        }
        bool ext = false;
        clingo_symbolic_atoms_is_external(atoms, it, &ext);
        if (ext) {
            clingo_symbol_t sym = 0;
            clingo_literal_t lit = 0;
            clingo_symbolic_atoms_symbol(atoms, it, &sym);
            clingo_symbolic_atoms_literal(atoms, it, &lit);
            res[sym] = lit;
        }
        clingo_symbolic_atoms_next(atoms, it, &it);
    }
    return res;
}

std::map<clingo_literal_t, int> bounds;

struct Wrapped {
    clingo_solve_event_callback_t cb;
    void *data;
};

std::string value(clingo_statistics_t *stats, char const *name) {
    uint64_t root = 0;
    uint64_t key = 0;
    bool has = false;
    double val = 0;
    clingo_statistics_root(stats, &root);
    if (!clingo_statistics_map_has_subkey(stats, root, "DifferenceLogic", &has) || !has) {
        return "[]";
    }
    clingo_statistics_map_at(stats, root, "DifferenceLogic", &key);
    if (!clingo_statistics_map_has_subkey(stats, key, name, &has) || !has) {
        return "[]";
    }
    clingo_statistics_map_at(stats, key, name, &key);
    clingo_statistics_value_get(stats, key, &val);
    return "[" + std::to_string(static_cast<long long>(val)) + "]";
}

std::string model(clingo_model_t *m) {
    std::string at;
    std::string dl;
    auto all = [&](clingo_show_type_bitset_t type) {
        size_t n = 0;
        clingo_model_symbols_size(m, type, &n);
        std::vector<clingo_symbol_t> syms(n);
        clingo_model_symbols(m, type, syms.data(), n);
        return syms;
    };
    for (auto &s : all(clingo_show_type_atoms)) {
        at += (at.empty() ? "" : ",") + quote(str(s));
    }
    for (auto &s : all(clingo_show_type_theory)) {
        char const *name = nullptr;
        clingo_symbol_t const *args = nullptr;
        size_t n = 0;
        if (clingo_symbol_type(s) != clingo_symbol_type_function) {
            continue;
        }
        clingo_symbol_name(s, &name);
        clingo_symbol_arguments(s, &args, &n);
        if (std::strcmp(name, "dl") == 0 && n == 2) {
            int val = 0;
            bool num = clingo_symbol_type(args[1]) == clingo_symbol_type_number;
            if (num) {
                clingo_symbol_number(args[1], &val);
            }
            dl += (dl.empty() ? "[" : ",[") + quote(str(args[0])) + "," + (num ? std::to_string(val) : quote(str(args[1]))) + "]";
        }
    }
    return "{\"k\":\"model\",\"at\":[" + at + "],\"dl\":[" + dl + "]}";
}

bool on_event(clingo_solve_event_type_t type, void *event, void *data, bool *goon) {
    auto &w = *static_cast<Wrapped *>(data);
    bool ret = w.cb == nullptr || w.cb(type, event, w.data, goon);
    std::lock_guard<std::mutex> guard{mut};
    if (!ret) {
        emit("{\"k\":\"err\"}");
        return ret;
    }
    if (type == clingo_solve_event_type_model) {
        emit(model(static_cast<clingo_model_t *>(event)));
    } else if (type == clingo_solve_event_type_statistics) {
        auto **stats = static_cast<clingo_statistics_t **>(event);
        for (int i = 0; i < 2; ++i) {
            emit("{\"k\":\"stats\",\"opt\":" + value(stats[i], "Optimization") + ",\"lb\":" + value(stats[i], "Lower bound") + "}");
        }
    } else if (type == clingo_solve_event_type_finish) {
        auto res = *static_cast<clingo_solve_result_bitset_t *>(event);
        auto bit = [&](unsigned b) { return std::string((res & b) != 0 ? "1" : "0"); };
        emit("{\"k\":\"res\",\"sat\":" + bit(clingo_solve_result_satisfiable) + ",\"unsat\":" + bit(clingo_solve_result_unsatisfiable) +
             ",\"int\":" + bit(clingo_solve_result_interrupted) + "}");
    }
    return ret;
}

} // namespace

extern "C" bool clingo_control_ground(clingo_control_t *ctl, clingo_part_t const *parts, size_t size,
                                      clingo_ground_callback_t cb, void *data) {
    static auto orig = real<decltype(&clingo_control_ground)>("clingo_control_ground");
    auto before = externals(ctl);
    bool ret = orig(ctl, parts, size, cb, data);
    if (!ret) {
        return ret;
    }
    std::vector<int> nums;
    for (size_t i = 0; i < size; ++i) {
        for (size_t j = 0; j < parts[i].size; ++j) {
            int num = 0;
            if (clingo_symbol_type(parts[i].params[j]) == clingo_symbol_type_number && j + 1 == parts[i].size) {
                clingo_symbol_number(parts[i].params[j], &num);
                nums.push_back(num);
            }
        }
    }
    if (nums.empty()) {
        return ret;
    }
    std::vector<clingo_literal_t> added;
    for (auto &x : externals(ctl)) {
        if (before.find(x.first) == before.end()) {
            added.push_back(x.second);
        }
    }
    std::lock_guard<std::mutex> guard{mut};
    for (auto &num : nums) {
        for (auto &x : added) {
            bounds[x] = num;
        }
        emit("{\"k\":\"bound\",\"b\":" + std::to_string(num) + ",\"x\":" + (added.empty() ? "0" : "1") + "}");
    }
    return ret;
}

static void released(clingo_literal_t lit) {
    std::lock_guard<std::mutex> guard{mut};
    auto it = bounds.find(lit);
    if (it != bounds.end()) {
        emit("{\"k\":\"rel\",\"b\":" + std::to_string(it->second) + "}");
        bounds.erase(it);
    }
}

extern "C" bool clingo_control_release_external(clingo_control_t *ctl, clingo_literal_t lit) {
    static auto orig = real<decltype(&clingo_control_release_external)>("clingo_control_release_external");
    released(lit);
    return orig(ctl, lit);
}

extern "C" bool clingo_control_assign_external(clingo_control_t *ctl, clingo_literal_t lit, clingo_truth_value_t val) {
    static auto orig = real<decltype(&clingo_control_assign_external)>("clingo_control_assign_external");
    if (val == clingo_truth_value_false) {
        released(lit);
    }
    return orig(ctl, lit, val);
}

extern "C" bool clingo_control_solve(clingo_control_t *ctl, clingo_solve_mode_bitset_t mode, clingo_literal_t const *ass,
                                     size_t size, clingo_solve_event_callback_t cb, void *data,
                                     clingo_solve_handle_t **handle) {
    static auto orig = real<decltype(&clingo_control_solve)>("clingo_control_solve");
    emit("{\"k\":\"solve\"}");
    // (an endless sequence of searches is cut)
    static int calls = 0;
    if (++calls > 5000) {
        std::_Exit(97);
    }
    return orig(ctl, mode, ass, size, on_event, new Wrapped{cb, data}, handle);
}
