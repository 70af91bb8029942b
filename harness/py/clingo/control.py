"""Stand-in for clingo.control."""
from ._internal import ffi, lib, handle_error, guard
from .solving import Model, SolveHandle
from .statistics import StatisticsMap
from .ast import _logger


class Control:
    def __init__(self, arguments=()):
        if isinstance(arguments, (list, tuple)):
            args = [ffi.new("char[]", x.encode()) for x in arguments]
            p = ffi.new("clingo_control_t**")
            handle_error(lib.clingo_control_new(args, len(args), _logger, ffi.NULL, 20, p))
            self._rep = p[0]
            self._free = True
        else:
            self._rep = arguments
            self._free = False

    def __del__(self):
        if getattr(self, "_free", False):
            lib.clingo_control_free(self._rep)

    def ground(self, parts):
        names = [ffi.new("char[]", x.encode()) for x, _ in parts]
        ps = ffi.new("clingo_part_t[]", len(parts))
        for i, x in enumerate(names):
            ps[i].name = x
            ps[i].params = ffi.NULL
            ps[i].size = 0
        handle_error(lib.clingo_control_ground(self._rep, ps, len(parts), ffi.NULL, ffi.NULL))

    def set_parallel_mode(self, value):
        conf = ffi.new("clingo_configuration_t**")
        key = ffi.new("clingo_id_t*")
        handle_error(lib.clingo_control_configuration(self._rep, conf))
        handle_error(lib.clingo_configuration_root(conf[0], key))
        handle_error(lib.clingo_configuration_map_at(conf[0], key[0], b"solve.parallel_mode", key))
        handle_error(lib.clingo_configuration_value_set(conf[0], key[0], value.encode()))

    def statistics(self, *path):
        """The value below the given keys or None."""
        stats = ffi.new("clingo_statistics_t const **")
        key = ffi.new("uint64_t*")
        b = ffi.new("bool*")
        handle_error(lib.clingo_control_statistics(self._rep, stats))
        handle_error(lib.clingo_statistics_root(stats[0], key))
        for x in path:
            handle_error(lib.clingo_statistics_map_has_subkey(stats[0], key[0], x.encode(), b))
            if not b[0]:
                return None
            handle_error(lib.clingo_statistics_map_at(stats[0], key[0], x.encode(), key))
        v = ffi.new("double*")
        handle_error(lib.clingo_statistics_value_get(stats[0], key[0], v))
        return v[0]

    def literal(self, symbol):
        """The literal of an atom that is neither a fact nor undefined."""
        atoms = ffi.new("clingo_symbolic_atoms_t const **")
        handle_error(lib.clingo_control_symbolic_atoms(self._rep, atoms))
        it = ffi.new("clingo_symbolic_atom_iterator_t*")
        handle_error(lib.clingo_symbolic_atoms_find(atoms[0], symbol._rep, it))
        b = ffi.new("bool*")
        handle_error(lib.clingo_symbolic_atoms_is_valid(atoms[0], it[0], b))
        if not b[0]:
            return 0
        handle_error(lib.clingo_symbolic_atoms_is_fact(atoms[0], it[0], b))
        if b[0]:
            return 0
        lit = ffi.new("clingo_literal_t*")
        handle_error(lib.clingo_symbolic_atoms_literal(atoms[0], it[0], lit))
        return lit[0]

    def assign_external(self, literal, value):
        v = {"true": lib.clingo_truth_value_true, "false": lib.clingo_truth_value_false, "free": lib.clingo_truth_value_free}[value]
        handle_error(lib.clingo_control_assign_external(self._rep, literal, v))

    def release_external(self, literal):
        handle_error(lib.clingo_control_release_external(self._rep, literal))

    def solve(self, assumptions=(), on_model=None, on_statistics=None, async_=False, yield_=False):
        def event(typ, data, _, goon):
            if typ == lib.clingo_solve_event_type_model and on_model is not None:
                ret = on_model(Model(ffi.cast("clingo_model_t*", data)))
                goon[0] = True if ret is None else ret
            elif typ == lib.clingo_solve_event_type_statistics and on_statistics is not None:
                stats = ffi.cast("clingo_statistics_t**", data)
                on_statistics(StatisticsMap(stats[0]), StatisticsMap(stats[1]))
        cb = ffi.callback("bool(clingo_solve_event_type_t, void *, void *, bool *)", guard(event))
        mode = (lib.clingo_solve_mode_async if async_ else 0) | (lib.clingo_solve_mode_yield if yield_ else 0)
        p = ffi.new("clingo_solve_handle_t**")
        handle_error(lib.clingo_control_solve(self._rep, mode, list(assumptions), len(assumptions), cb, ffi.NULL, p))
        handle = SolveHandle(p[0], cb)
        if not async_ and not yield_:
            with handle:
                return handle.get()
        return handle
