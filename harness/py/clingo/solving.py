"""Stand-in for clingo.solving."""
from ._internal import ffi, lib, handle_error
from .symbol import Symbol


class Model:
    def __init__(self, rep):
        self._rep = rep

    def symbols(self, atoms=False, terms=False, shown=False, theory=False):
        show = 0
        if atoms:
            show |= lib.clingo_show_type_atoms
        if terms:
            show |= lib.clingo_show_type_terms
        if shown:
            show |= lib.clingo_show_type_shown
        if theory:
            show |= lib.clingo_show_type_theory
        n = ffi.new("size_t*")
        handle_error(lib.clingo_model_symbols_size(self._rep, show, n))
        s = ffi.new("clingo_symbol_t[]", n[0])
        handle_error(lib.clingo_model_symbols(self._rep, show, s, n[0]))
        return [Symbol(x) for x in s]

    @property
    def thread_id(self):
        p = ffi.new("clingo_id_t*")
        handle_error(lib.clingo_model_thread_id(self._rep, p))
        return p[0]


class SolveHandle:
    def __init__(self, rep, keep):
        self._rep = rep
        self._keep = keep

    def __enter__(self):
        return self

    def __exit__(self, kind, value, trace):
        handle_error(lib.clingo_solve_handle_close(self._rep))
        return False

    def __iter__(self):
        while True:
            handle_error(lib.clingo_solve_handle_resume(self._rep))
            p = ffi.new("clingo_model_t const **")
            handle_error(lib.clingo_solve_handle_model(self._rep, p))
            if p[0] == ffi.NULL:
                return
            yield Model(ffi.cast("clingo_model_t*", p[0]))

    def cancel(self):
        handle_error(lib.clingo_solve_handle_cancel(self._rep))

    def get(self):
        p = ffi.new("clingo_solve_result_bitset_t*")
        handle_error(lib.clingo_solve_handle_get(self._rep, p))
        return p[0]
