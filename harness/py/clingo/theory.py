"""Stand-in for clingo.theory.

Calls the functions of a theory whose names start with the given prefix, as
documented for clingo.theory.Theory.
"""
from ._internal import address, ffi as _ffi, handle_error
from .ast import AST
from .symbol import Symbol


class Theory:
    def __init__(self, prefix, lib, ffi):
        self.__prefix = prefix
        self.__lib = lib
        self.__ffi = ffi
        self.__theory = None

        def rewrite(stm, data):
            try:
                ffi.from_handle(data)(AST(_ffi.cast("clingo_ast_t*", int(ffi.cast("uintptr_t", stm)))))
                return True
            except BaseException as e:  # pylint: disable=broad-except
                self.__error = e
                return False
        self.__error = None
        self.__rewrite = rewrite
        ffi.def_extern(name="py%s_rewrite" % prefix)(rewrite)
        p = ffi.new("%s_theory_t**" % prefix)
        self.__call("create", p)
        self.__theory = p[0]

    def __del__(self):
        if self.__theory is not None:
            self.__call("destroy", self.__theory)
            self.__theory = None

    def __fun(self, name):
        return getattr(self.__lib, "%s_%s" % (self.__prefix, name))

    def __call(self, name, *args):
        handle_error(self.__fun(name)(*args))

    def __cast(self, typ, rep):
        return self.__ffi.cast(typ, address(rep))

    def version(self):
        p = self.__ffi.new("int[3]")
        self.__fun("version")(p, p + 1, p + 2)
        return p[0], p[1], p[2]

    def configure(self, key, value):
        self.__call("configure", self.__theory, key.encode(), value.encode())

    def register(self, control):
        self.__call("register", self.__theory, self.__cast("clingo_control_t*", control._rep))

    def prepare(self, control):
        self.__call("prepare", self.__theory, self.__cast("clingo_control_t*", control._rep))

    def register_options(self, options):
        self.__call("register_options", self.__theory, self.__cast("clingo_options_t*", options._rep))

    def validate_options(self):
        self.__call("validate_options", self.__theory)

    def rewrite_ast(self, stm, add):
        # Note: there is just one callback for all theories
        self.__ffi.def_extern(name="py%s_rewrite" % self.__prefix)(self.__rewrite)
        data = self.__ffi.new_handle(add)
        self.__error = None
        ok = self.__fun("rewrite_ast")(self.__theory, self.__cast("clingo_ast_t*", stm._rep),
                                       getattr(self.__lib, "py%s_rewrite" % self.__prefix), data)
        if self.__error is not None:
            raise self.__error
        handle_error(ok)

    def on_model(self, model):
        self.__call("on_model", self.__theory, self.__cast("clingo_model_t*", model._rep))

    def on_statistics(self, step, accu):
        self.__call("on_statistics", self.__theory, self.__cast("clingo_statistics_t*", step._rep),
                    self.__cast("clingo_statistics_t*", accu._rep))

    def lookup_symbol(self, symbol):
        p = self.__ffi.new("size_t*")
        return p[0] if self.__fun("lookup_symbol")(self.__theory, symbol._rep, p) else None

    def get_symbol(self, index):
        return Symbol(self.__fun("get_symbol")(self.__theory, index))

    def has_value(self, thread_id, index):
        return self.__fun("assignment_has_value")(self.__theory, thread_id, index)

    def get_value(self, thread_id, index):
        p = self.__ffi.new("%s_value_t*" % self.__prefix)
        self.__fun("assignment_get_value")(self.__theory, thread_id, index, p)
        if p.type == getattr(self.__lib, "%s_value_type_int" % self.__prefix):
            return p.int_number
        if p.type == getattr(self.__lib, "%s_value_type_double" % self.__prefix):
            return p.double_number
        if p.type == getattr(self.__lib, "%s_value_type_symbol" % self.__prefix):
            return Symbol(p.symbol)
        raise RuntimeError("must not happen")

    def indices(self, thread_id):
        p = self.__ffi.new("size_t*")
        self.__fun("assignment_begin")(self.__theory, thread_id, p)
        while self.__fun("assignment_next")(self.__theory, thread_id, p):
            yield p[0]

    def assignment(self, thread_id):
        for index in self.indices(thread_id):
            yield self.get_symbol(index), self.get_value(thread_id, index)
