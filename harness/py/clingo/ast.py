"""Stand-in for clingo.ast."""
from ._internal import ffi, lib, handle_error, guard


class AST:
    def __init__(self, rep):
        self._rep = rep
        lib.clingo_ast_acquire(rep)

    def __del__(self):
        lib.clingo_ast_release(self._rep)

    def __str__(self):
        n = ffi.new("size_t*")
        handle_error(lib.clingo_ast_to_string_size(self._rep, n))
        s = ffi.new("char[]", n[0])
        handle_error(lib.clingo_ast_to_string(self._rep, s, n[0]))
        return ffi.string(s).decode()


class ProgramBuilder:
    def __init__(self, control):
        p = ffi.new("clingo_program_builder_t**")
        handle_error(lib.clingo_program_builder_init(control._rep, p))
        self._rep = p[0]

    def __enter__(self):
        handle_error(lib.clingo_program_builder_begin(self._rep))
        return self

    def __exit__(self, kind, value, trace):
        handle_error(lib.clingo_program_builder_end(self._rep))
        return False

    def add(self, stm):
        handle_error(lib.clingo_program_builder_add(self._rep, stm._rep))


@ffi.callback("void(clingo_warning_t, char const *, void *)")
def _logger(code, message, data):
    pass


def parse_string(text, callback):
    cb = ffi.callback("bool(clingo_ast_t *, void *)", guard(lambda a, d: callback(AST(a))))
    handle_error(lib.clingo_ast_parse_string(text.encode(), cb, ffi.NULL, ffi.NULL, _logger, ffi.NULL, 20))


def parse_files(files, callback):
    cb = ffi.callback("bool(clingo_ast_t *, void *)", guard(lambda a, d: callback(AST(a))))
    names = [ffi.new("char[]", x.encode()) for x in files]
    handle_error(lib.clingo_ast_parse_files(names, len(names), cb, ffi.NULL, ffi.NULL, _logger, ffi.NULL, 20))
