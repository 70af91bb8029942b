"""Stand-in for clingo.application."""
from ._internal import ffi, lib, handle_error, guard
from .control import Control
from .solving import Model


class Flag:
    def __init__(self, value=False):
        self._flag = ffi.new("bool*", value)

    def __bool__(self):
        return self._flag[0]

    value = property(__bool__)


class ApplicationOptions:
    def __init__(self, rep):
        self._rep = rep

    def add_flag(self, group, option, description, target):
        handle_error(lib.clingo_options_add_flag(self._rep, group.encode(), option.encode(), description.encode(), target._flag))


class Application:
    program_name = "clingo"
    version = "0"
    message_limit = 20


def clingo_main(application, arguments):
    keep = []

    def text(value):
        keep.append(ffi.new("char[]", value.encode()))
        return keep[-1]

    def main(control, files, size, data):
        application.main(Control(control), [ffi.string(files[i]).decode() for i in range(size)])

    def printer(model, default, printer_data, data):
        application.print_model(Model(ffi.cast("clingo_model_t*", model)), lambda: handle_error(default(printer_data)))

    def validate(data):
        if not application.validate_options():
            raise RuntimeError("invalid options")

    a = ffi.new("clingo_application_t*")

    def callback(typ, f):
        keep.append(ffi.callback(typ, f))
        return keep[-1]
    a.program_name = callback("char const *(void*)", lambda d: text(application.program_name))
    a.version = callback("char const *(void*)", lambda d: text(application.version))
    a.message_limit = callback("unsigned(void*)", lambda d: application.message_limit)
    a.main = callback("bool(clingo_control_t*, char const *const *, size_t, void*)", guard(main))
    a.printer = callback("bool(clingo_model_t const *, clingo_default_model_printer_t, void*, void*)", guard(printer))
    a.register_options = callback("bool(clingo_options_t*, void*)", guard(lambda o, d: application.register_options(ApplicationOptions(o))))
    a.validate_options = callback("bool(void*)", guard(validate))
    args = [ffi.new("char[]", x.encode()) for x in arguments]
    return lib.clingo_main(a, args, len(args), ffi.NULL)
