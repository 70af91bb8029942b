// Rewriting harness.
//
// Passes programs through the rewriting of the real library (or lets the
// application do so) and records the syntax trees before and after as JSON
// (validated by RewriteTrace.tla).
#include <clingo-dl.h>
#include <clingo.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

namespace {

[[noreturn]] void die(std::string const &msg) {
    std::fprintf(stderr, "harness error: %s\n", msg.c_str());
    std::fflush(nullptr);
    _Exit(65);
}

std::string jstr(std::string const &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 32 || c > 126) {
            char b[8];
            std::snprintf(b, sizeof(b), "\\u%04x", c);
            r += b;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r + "\"";
}

void ok(bool x) {
    if (!x) die(clingo_error_message() != nullptr ? clingo_error_message() : "error");
}

std::string symbol(clingo_symbol_t s) {
    size_t n = 0;
    ok(clingo_symbol_to_string_size(s, &n));
    std::string r(n, 0);
    ok(clingo_symbol_to_string(s, &r[0], n));
    r.resize(n - 1);
    return r;
}

// the attributes of each type of node; clingo has no function to list them
std::vector<int> attributes(clingo_ast_t *ast) {
    std::vector<int> r;
    for (size_t i = 0; i < g_clingo_ast_attribute_names.size; ++i) {
        bool has = false;
        ok(clingo_ast_has_attribute(ast, static_cast<int>(i), &has));
        if (has && static_cast<int>(i) != clingo_ast_attribute_location) r.push_back(static_cast<int>(i));
    }
    return r;
}

std::string type_name(clingo_ast_t *ast) {
    clingo_ast_type_t t = 0;
    ok(clingo_ast_get_type(ast, &t));
    return g_clingo_ast_constructors.constructors[t].name;
}

std::string dump(clingo_ast_t *ast) {
    std::string r = "{\"ty\":" + jstr(type_name(ast)) + ",\"at\":[";
    bool first = true;
    for (auto a : attributes(ast)) {
        r += first ? "[" : ",[";
        first = false;
        r += jstr(g_clingo_ast_attribute_names.names[a]) + ",";
        clingo_ast_attribute_type_t t = 0;
        ok(clingo_ast_attribute_type(ast, a, &t));
        switch (t) {
            case clingo_ast_attribute_type_number: {
                int x = 0;
                ok(clingo_ast_attribute_get_number(ast, a, &x));
                r += "\"i\"," + std::to_string(x);
                break;
            }
            case clingo_ast_attribute_type_symbol: {
                clingo_symbol_t x = 0;
                ok(clingo_ast_attribute_get_symbol(ast, a, &x));
                r += "\"y\"," + jstr(symbol(x));
                break;
            }
            case clingo_ast_attribute_type_string: {
                char const *x = nullptr;
                ok(clingo_ast_attribute_get_string(ast, a, &x));
                r += "\"s\"," + jstr(x);
                break;
            }
            case clingo_ast_attribute_type_ast: {
                clingo_ast_t *x = nullptr;
                ok(clingo_ast_attribute_get_ast(ast, a, &x));
                r += "\"n\"," + dump(x);
                clingo_ast_release(x);
                break;
            }
            case clingo_ast_attribute_type_optional_ast: {
                clingo_ast_t *x = nullptr;
                ok(clingo_ast_attribute_get_optional_ast(ast, a, &x));
                r += "\"o\",[";
                if (x != nullptr) {
                    r += dump(x);
                    clingo_ast_release(x);
                }
                r += "]";
                break;
            }
            case clingo_ast_attribute_type_string_array: {
                size_t n = 0;
                ok(clingo_ast_attribute_size_string_array(ast, a, &n));
                r += "\"S\",[";
                for (size_t i = 0; i < n; ++i) {
                    char const *x = nullptr;
                    ok(clingo_ast_attribute_get_string_at(ast, a, i, &x));
                    r += (i != 0 ? "," : "") + jstr(x);
                }
                r += "]";
                break;
            }
            case clingo_ast_attribute_type_ast_array: {
                size_t n = 0;
                ok(clingo_ast_attribute_size_ast_array(ast, a, &n));
                r += "\"l\",[";
                for (size_t i = 0; i < n; ++i) {
                    clingo_ast_t *x = nullptr;
                    ok(clingo_ast_attribute_get_ast_at(ast, a, i, &x));
                    r += (i != 0 ? "," : "") + dump(x);
                    clingo_ast_release(x);
                }
                r += "]";
                break;
            }
            default: die("unexpected attribute");
        }
        r += "]";
    }
    return r + "]}";
}

int g_variant = 0;

// Replace constants naming theory atoms by symbolic terms and vary the signs
// of Boolean constants. The parser does not produce such trees but they can be
// constructed.
void symbolic(clingo_ast_t *ast) {
    if (type_name(ast) == "literal") {
        clingo_ast_t *x = nullptr;
        ok(clingo_ast_attribute_get_ast(ast, clingo_ast_attribute_atom, &x));
        if (type_name(x) == "boolean_constant") {
            int v = 0;
            int s = 0;
            ok(clingo_ast_attribute_get_number(x, clingo_ast_attribute_value, &v));
            ok(clingo_ast_attribute_get_number(ast, clingo_ast_attribute_sign, &s));
            bool holds = (v != 0) != (s == clingo_ast_sign_negation);
            switch (g_variant++ % 3) {
                case 0: v = holds ? 1 : 0, s = clingo_ast_sign_no_sign; break;
                case 1: v = holds ? 0 : 1, s = clingo_ast_sign_negation; break;
                default: v = holds ? 1 : 0, s = clingo_ast_sign_double_negation; break;
            }
            ok(clingo_ast_attribute_set_number(x, clingo_ast_attribute_value, v));
            ok(clingo_ast_attribute_set_number(ast, clingo_ast_attribute_sign, s));
        }
        clingo_ast_release(x);
    }
    for (auto a : attributes(ast)) {
        clingo_ast_attribute_type_t t = 0;
        ok(clingo_ast_attribute_type(ast, a, &t));
        if (t == clingo_ast_attribute_type_ast) {
            clingo_ast_t *x = nullptr;
            ok(clingo_ast_attribute_get_ast(ast, a, &x));
            if (type_name(ast) == "theory_atom" && a == clingo_ast_attribute_term && type_name(x) == "function") {
                size_t n = 0;
                ok(clingo_ast_attribute_size_ast_array(x, clingo_ast_attribute_arguments, &n));
                if (n == 0) {
                    char const *name = nullptr;
                    ok(clingo_ast_attribute_get_string(x, clingo_ast_attribute_name, &name));
                    clingo_location_t loc;
                    ok(clingo_ast_attribute_get_location(x, clingo_ast_attribute_location, &loc));
                    clingo_symbol_t sym = 0;
                    ok(clingo_symbol_create_function(name, nullptr, 0, true, &sym));
                    clingo_ast_t *y = nullptr;
                    ok(clingo_ast_build(clingo_ast_type_symbolic_term, &y, &loc, sym));
                    ok(clingo_ast_attribute_set_ast(ast, a, y));
                    clingo_ast_release(y);
                }
            } else {
                symbolic(x);
            }
            clingo_ast_release(x);
        } else if (t == clingo_ast_attribute_type_ast_array) {
            size_t n = 0;
            ok(clingo_ast_attribute_size_ast_array(ast, a, &n));
            for (size_t i = 0; i < n; ++i) {
                clingo_ast_t *x = nullptr;
                ok(clingo_ast_attribute_get_ast_at(ast, a, i, &x));
                symbolic(x);
                clingo_ast_release(x);
            }
        }
    }
}

void quiet(clingo_warning_t, char const *, void *) {}

struct Scenario {
    std::string id{"0"};
    int shift{0};
    int sym{0};
    int fail{0}; // the call of the callback that fails
    std::vector<std::string> prog{""};
};

std::vector<Scenario> read(char const *path) {
    std::ifstream in(path);
    std::vector<Scenario> r;
    Scenario s;
    std::string line;
    while (std::getline(in, line)) {
        auto p = line.find(' ');
        auto op = line.substr(0, p);
        auto rest = p == std::string::npos ? "" : line.substr(p + 1);
        if (op == "trace") s = Scenario{}, s.id = rest;
        else if (op == "shift") s.shift = std::stoi(rest);
        else if (op == "sym") s.sym = std::stoi(rest);
        else if (op == "fail") s.fail = std::stoi(rest);
        else if (op == "add") s.prog.back() += rest + "\n";
        else if (op == "file") s.prog.emplace_back();
        else if (op == "end") r.push_back(s);
        else if (!op.empty() && op != "cfg") die("unknown operation " + op);
    }
    return r;
}

std::string seq(std::vector<std::string> const &xs) {
    std::string r = "[";
    for (size_t i = 0; i < xs.size(); ++i) { r += (i != 0 ? "," : "") + xs[i]; }
    return r + "]";
}

#ifndef REWRITE_CLI

void run(Scenario const &s, std::ostream &out) {
    g_variant = std::stoi(s.id);
    struct Data {
        clingodl_theory_t *theory;
        Scenario const &s;
        std::string ev;
        int calls{0};
        std::vector<std::string> res{};
        int failed{0};
    } d{nullptr, s, ""};
    if (!clingodl_create(&d.theory)) die("create");
    if (!clingodl_configure(d.theory, "shift-constraints", s.shift != 0 ? "yes" : "no")) die("configure");
    for (auto const &prg : s.prog) {
        auto cb = [](clingo_ast_t *stm, void *data) {
            auto &d = *static_cast<Data *>(data);
            if (d.s.sym != 0) symbolic(stm);
            auto in = dump(stm);
            d.res.clear();
            d.failed = 0;
            auto add = [](clingo_ast_t *x, void *data) {
                auto &d = *static_cast<Data *>(data);
                if (++d.calls == d.s.fail) {
                    d.failed = static_cast<int>(d.res.size()) + 1;
                    clingo_set_error(clingo_error_runtime, "as requested");
                    return false;
                }
                d.res.push_back(dump(x));
                return true;
            };
            bool ret = clingodl_rewrite_ast(d.theory, stm, add, &d);
            d.ev += std::string(d.ev.empty() ? "" : ",") + "{\"k\":\"s\",\"in\":" + in + ",\"ok\":" + (ret ? "1" : "0") +
                    ",\"failed\":" + std::to_string(d.failed) + ",\"kept\":" + (in == dump(stm) ? "1" : "0") +
                    ",\"out\":" + seq(d.res) + "}";
            return true;
        };
        if (!clingo_ast_parse_string(prg.c_str(), cb, &d, nullptr, quiet, nullptr, 20)) die("cannot parse " + prg);
    }
    out << "{\"id\":" << s.id << ",\"cfg\":{\"shift\":" << s.shift << "},\"ev\":[" << d.ev << "]}" << std::endl;
    clingodl_destroy(d.theory);
}

#else

std::string g_out;

void flush(std::string const &in) {
    std::ofstream f(std::getenv("REWRITE_TRACE"));
    f << "{\"in\":" << in << ",\"out\":[" << g_out << "]}" << std::endl;
}

#endif

} // namespace

#ifdef REWRITE_CLI

// The application adds what it read, rewritten, to a program.
extern "C" bool __real_clingo_program_builder_add(clingo_program_builder_t *builder, clingo_ast_t *ast);
extern "C" bool __wrap_clingo_program_builder_add(clingo_program_builder_t *builder, clingo_ast_t *ast) {
    g_out += (g_out.empty() ? "" : ",") + dump(ast);
    static std::string in;
    if (in.empty()) {
        std::vector<std::string> xs;
        std::vector<std::string> names;
        std::vector<char const *> files;
        std::istringstream iss(std::getenv("REWRITE_FILES"));
        for (std::string x; std::getline(iss, x, ':');) names.push_back(x);
        for (auto &x : names) files.push_back(x.c_str());
        auto cb = [](clingo_ast_t *stm, void *data) {
            static_cast<std::vector<std::string> *>(data)->push_back(dump(stm));
            return true;
        };
        ok(clingo_ast_parse_files(files.data(), files.size(), cb, &xs, nullptr, quiet, nullptr, 20));
        in = seq(xs);
    }
    flush(in);
    return __real_clingo_program_builder_add(builder, ast);
}

#else

int main(int argc, char **argv) {
    if (argc < 3) die("usage");
    size_t skip = argc > 3 ? std::stoul(argv[3]) : 0;
    std::ofstream out(argv[2], std::ios::app);
    auto ss = read(argv[1]);
    for (size_t i = skip; i < ss.size(); ++i) run(ss[i], out);
}

#endif
