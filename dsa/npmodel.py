"""Interface of the library models used by the interpreter."""
from .npcore import (MARKS, type_name, arr_setattr, inplace, binop, unop, compare, fmt, arr_getitem, arr_setitem,
                     index_first, symseq_slice)
from .npfuncs import native_attr, frozen, same_arrays
from .ext import make_builtins, make_ext_modules
