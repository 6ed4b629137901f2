"""What numpy, scipy and Python builtins do to their arguments (alias/effect model)."""

# result may share memory with the first argument
VIEW0 = {
    "reshape", "ravel", "transpose", "squeeze", "atleast_1d", "atleast_2d", "atleast_3d", "asarray", "asanyarray",
    "ascontiguousarray", "asfortranarray", "expand_dims", "swapaxes", "moveaxis", "rollaxis", "broadcast_to",
    "real", "imag", "diagonal", "diag", "flip", "fliplr", "flipud", "rot90", "split", "array_split", "hsplit",
    "vsplit", "require", "permute_dims", "matrix_transpose",
}
# numpy functions that write into an argument (index)
INPLACE = {"fill_diagonal": 0, "put": 0, "place": 0, "copyto": 0, "putmask": 0, "put_along_axis": 0,
           "random.shuffle": 0}
# ufunc.at style
UFUNC_AT = "at"
SCALAR = {"isscalar", "ndim", "size", "array_equal", "allclose", "iscomplexobj", "issubdtype", "shares_memory",
          "count_nonzero", "array_equiv", "isrealobj", "spacing", "random.uniform_scalar"}
TUPLE_N = {"linalg.qr": 2, "linalg.eigh": 2, "linalg.eig": 2, "linalg.lstsq": 4, "linalg.slogdet": 2,
           "polynomial.legendre.leggauss": 2, "polynomial.hermite_e.hermegauss": 2, "polynomial.hermite.hermgauss": 2,
           "histogram": 2, "modf": 2, "frexp": 2, "divmod": 2, "linalg.svd": 3, "linalg.eigh_tridiagonal": 2}
TUPLE_ND = {"nonzero", "where", "unravel_index", "tril_indices", "triu_indices", "ix_", "diag_indices", "ogrid"}
LIST_ND = {"meshgrid", "broadcast_arrays"}
# element-preserving (object arrays keep pointing at the same elements)
ELEM = {"array", "concatenate", "hstack", "vstack", "column_stack", "stack", "append", "tile", "repeat", "copy",
        "delete", "insert", "take", "roll", "block", "full", "resize", "sort", "choose", "dstack", "row_stack", "r_", "c_",
        "where", "compress", "extract", "select", "unique", "setdiff1d", "union1d", "intersect1d", "full_like", "apply_along_axis"} | VIEW0

# methods of ndarray / list / dict / set
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault",
            "popitem", "add", "discard", "fill", "resize", "put", "itemset", "partition", "setflags", "__setitem__",
            "__delitem__", "setdiag", "eliminate_zeros", "sum_duplicates", "sort_indices"}
ND_MUTATORS = {"sort", "fill", "resize", "put", "itemset", "partition", "setflags", "setdiag", "__setitem__"}
LIST_MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse"}
DICT_MUTATORS = {"update", "setdefault", "pop", "popitem", "clear", "__setitem__"}
SET_MUTATORS = {"add", "discard", "remove", "update", "clear", "pop"}
VIEW_METHODS = {"reshape", "ravel", "transpose", "squeeze", "swapaxes", "view", "diagonal", "__getitem__"}
FRESH_METHODS = {"flatten", "copy", "tolist", "astype", "sum", "prod", "mean", "std", "var", "max", "min", "argmax",
                 "argmin", "argsort", "nonzero", "dot", "cumsum", "cumprod", "any", "all", "round", "clip", "item",
                 "take", "repeat", "conj", "conjugate", "trace", "toarray", "todense", "tocsr", "tocsc", "tocoo",
                 "tolil", "power", "multiply", "getnnz", "choose", "searchsorted", "tobytes", "index", "count",
                 "numpy_", "sign", "ptp", "fit", "predict", "split"}
STR_METHODS = {"lower", "upper", "format", "join", "split", "strip", "zfill", "startswith", "endswith", "replace",
               "capitalize", "title", "ljust", "rjust", "isdigit", "find", "rstrip", "lstrip"}
VIEW_ATTRS = {"T", "flat", "real", "imag", "A", "H", "mT"}
PRIM_ATTRS = {"size", "ndim", "dtype", "itemsize", "nbytes", "nnz", "__name__", "__class__", "__doc__"}

BUILTIN_NUM = {"len", "int", "float", "bool", "abs", "round", "isinstance", "issubclass", "hasattr", "callable", "hash",
               "id", "ord", "pow", "complex", "divmod", "any", "all"}
BUILTIN_STR = {"str", "repr", "chr", "format", "type", "input", "ascii", "bin", "hex", "print"}
BUILTINS = BUILTIN_NUM | BUILTIN_STR | {
    "list", "tuple", "set", "frozenset", "dict", "sorted", "reversed", "enumerate", "zip", "map", "filter", "range",
    "iter", "next", "sum", "min", "max", "getattr", "setattr", "delattr", "super", "vars", "eval", "exec", "open",
    "slice", "object", "globals", "locals", "dir", "memoryview", "bytes", "bytearray", "staticmethod", "property",
    "classmethod", "__import__", "breakpoint", "compile"}
