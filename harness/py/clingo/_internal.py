"""Stand-in for the clingo Python package on top of libclingo.

Provides the part of the package's documented interface that clingo-dl's Python
package uses. The declarations come from the installed header.
"""
import re

from cffi import FFI


def _declarations(path):
    with open(path) as f:
        src = f.read()
    src = re.sub(r"//[^\n]*", "", src)
    src = re.sub(r"/\*.*?\*/", "", src, flags=re.S)
    src = re.sub(r"\\\n", "", src)
    src = "\n".join(x for x in src.split("\n") if not x.lstrip().startswith("#"))
    src = src.replace('extern "C" {', "").replace("CLINGO_VISIBILITY_DEFAULT ", "").replace("CLINGO_DEPRECATED", "")
    i = src.rindex("}")
    return src[:i] + src[i + 1:]


ffi = FFI()
ffi.cdef(_declarations("/usr/include/clingo.h"))
lib = ffi.dlopen("libclingo.so.4")


class ErrorStore:
    """The exception raised in a callback, to be raised again by the caller."""
    error = None


def guard(f):
    """Turn exceptions in callbacks into error codes."""
    def call(*args):
        try:
            f(*args)
            return True
        except BaseException as e:  # pylint: disable=broad-except
            ErrorStore.error = e
            lib.clingo_set_error(lib.clingo_error_unknown, str(e).encode())
            return False
    return call


def handle_error(ret):
    if ret:
        return
    e, ErrorStore.error = ErrorStore.error, None
    if e is not None:
        raise e
    msg = lib.clingo_error_message()
    raise RuntimeError("no message" if msg == ffi.NULL else ffi.string(msg).decode())


def address(ptr):
    return int(ffi.cast("uintptr_t", ptr))
