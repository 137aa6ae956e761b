from .common import parallel
from .interface import FUNCS, one
LEVEL = "proof"
MIN_OBLIGATIONS = 200
TECHNIQUE = "value numbering of the compiled bindings against a table of the documented interface (static)"
NOTE = ("Every path of each binding through the argument parser is folded into one decision diagram over the number, shapes and words of "
        "the arguments, and compared with the diagram of the documented interface. Trusts clang's front end, sa/, and the model of the "
        "Octave classes in sa/octave.py and sa/octflow.py (an argument that cannot be converted to a real matrix or a string makes "
        "Octave throw and is outside the property).")
EXPLAIN = ("Per binding: the computing method is reached exactly when the arguments satisfy the documented requirements; each of its "
           "arguments is then the documented element, count, enumerator or pointer; user-given focus and apodization values are in the "
           "buffers it gets; its output is a zeroed nt x No matrix, which is the first value returned, the second one being its status; and "
           "every use of an argument's elements happens while a matrix still holds them.")
ASSUME = ["octave_value::matrix_value, string_value and the Matrix class behave as documented", "no 64-bit index overflows"]


def check(tier):
    return parallel("P13", one, sorted(FUNCS))
