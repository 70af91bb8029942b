"""Stand-in for clingo.symbol."""
import enum
import functools

from ._internal import ffi, lib, handle_error


class SymbolType(enum.Enum):
    Function = lib.clingo_symbol_type_function
    Infimum = lib.clingo_symbol_type_infimum
    Number = lib.clingo_symbol_type_number
    String = lib.clingo_symbol_type_string
    Supremum = lib.clingo_symbol_type_supremum


@functools.total_ordering
class Symbol:
    def __init__(self, rep):
        self._rep = rep

    def __str__(self):
        n = ffi.new("size_t*")
        handle_error(lib.clingo_symbol_to_string_size(self._rep, n))
        s = ffi.new("char[]", n[0])
        handle_error(lib.clingo_symbol_to_string(self._rep, s, n[0]))
        return ffi.string(s).decode()

    def __eq__(self, other):
        return lib.clingo_symbol_is_equal_to(self._rep, other._rep)

    def __lt__(self, other):
        return lib.clingo_symbol_is_less_than(self._rep, other._rep)

    def __hash__(self):
        return lib.clingo_symbol_hash(self._rep)

    @property
    def type(self):
        return SymbolType(lib.clingo_symbol_type(self._rep))

    @property
    def name(self):
        p = ffi.new("char const **")
        handle_error(lib.clingo_symbol_name(self._rep, p))
        return ffi.string(p[0]).decode()

    @property
    def string(self):
        p = ffi.new("char const **")
        handle_error(lib.clingo_symbol_string(self._rep, p))
        return ffi.string(p[0]).decode()

    @property
    def number(self):
        p = ffi.new("int*")
        handle_error(lib.clingo_symbol_number(self._rep, p))
        return p[0]

    @property
    def arguments(self):
        p = ffi.new("clingo_symbol_t const **")
        n = ffi.new("size_t*")
        handle_error(lib.clingo_symbol_arguments(self._rep, p, n))
        return [Symbol(p[0][i]) for i in range(n[0])]

    def match(self, name, arity):
        if self.type != SymbolType.Function:
            return False
        p = ffi.new("bool*")
        handle_error(lib.clingo_symbol_is_positive(self._rep, p))
        return p[0] and self.name == name and len(self.arguments) == arity


def parse_term(text):
    p = ffi.new("clingo_symbol_t*")
    handle_error(lib.clingo_parse_term(text.encode(), ffi.NULL, ffi.NULL, 20, p))
    return Symbol(p[0])


def Number(x):
    p = ffi.new("clingo_symbol_t*")
    lib.clingo_symbol_create_number(x, p)
    return Symbol(p[0])
