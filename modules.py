"""What each property's check verifies: modules of /repo compiled to IR, contract files, cross-check harnesses."""
SRC = {  # module -> source relative to the repository, or a tuple of headers forming an include-only unit
    "array": "array/array.c", "bytebuffer": "bytebuffer/bytebuffer.c", "str": "str/str.c", "map": "map/map.c",
    "deque": "deque/deque.c", "tuple": "tuple/tuple.c", "tree": "tree/tree.c", "variant": "variant/variant.c",
    "region": "allocators/region/region.c", "bistack": "allocators/bistack/bistack.c",
    "objpool": "allocators/objpool/objpool.c", "lex": "lex/lex.c", "math": "math/math_parser.c",
    "msg_span": "msg_span/msg_span.c", "mtwister": ("harbol_common_defines.h", "harbol_common_includes.h", "mtwister/mtwister.h"),
    "common": ("harbol_common_defines.h", "harbol_common_includes.h"),
}
# contract file -> modules of SRC it needs loaded
SPEC = {"array": ["array"], "common": ["common"], "words": ["common"], "bytebuffer": ["bytebuffer"],
        "str": ["str"], "region": ["region"], "bistack": ["bistack"], "objpool": ["objpool"],
        "variant": ["variant"], "tuple": ["tuple", "array"], "tree": ["tree", "array"], "mtwister": ["mtwister"], "span": ["msg_span"], "lines": ["msg_span"], "utf8": ["lex"], "lex": ["lex", "str"], "deque": ["deque"], "map": ["map"], "math": ["math"]}
# harness -> sources it links
ORACLE = {"array": ["array/array.c"], "common": [], "bytebuffer": ["bytebuffer/bytebuffer.c"],
          "str": ["str/str.c"],
          "variant": ["variant/variant.c"], "mtwister": [], "lex": ["lex/lex.c", "str/str.c"], "math": ["math/math_parser.c"], "span": ["msg_span/msg_span.c", "str/str.c", "lex/lex.c", "array/array.c"], "tuple": ["tuple/tuple.c", "array/array.c"], "tree": ["tree/tree.c", "array/array.c"],
          "deque": ["deque/deque.c"], "map": ["map/map.c"],
          "alloc": ["allocators/region/region.c", "allocators/bistack/bistack.c", "allocators/objpool/objpool.c"]}
# property -> (contract files with functions of that property, harnesses, level note)
PROPS = {
    "C01": (["array"], ["array"]), "C02": (["array"], ["array"]),
    "C03": (["bytebuffer"], ["bytebuffer"]),
    "C04": (["str"], ["str"]), "C05": (["str"], ["str"]),
    "C06": (["map"], ["map"]), "C07": (["map"], ["map"]), "C08": (["deque"], ["deque"]),
    "C09": (["region"], ["alloc"]), "C10": (["bistack"], ["alloc"]), "C11": (["objpool"], ["alloc"]),
    "C12": (["tuple", "array"], ["tuple"]),
    "C13": (["tree", "array"], ["tree"]),
    "C14": (["variant"], ["variant"]),
    "C15": (["utf8"], ["lex"]), "C16": (["lex", "utf8"], ["lex"]),
    "C17": (["words"], ["common"]), "C18": (["common"], ["common"]), "C19": (["common"], ["common"]),
    "C20": (["array", "bytebuffer", "str", "common", "deque", "map", "tree", "variant", "tuple"], ["str", "bytebuffer", "array", "variant", "tuple", "tree", "deque", "map", "common", "span"]),
    "C21": (["math"], ["math"]),
    "C22": (["span", "lines"], ["span"]), "C23": (["mtwister"], ["mtwister"]),
}
BVSPECS = {"words", "mtwister", "span", "utf8"}   # contract files decided by the bit-precise back end
STD = "every function listed in the evidence is proved against its contract for all inputs; a bounded randomized run of the real code supplies failing inputs and is never counted as proved"
PART = STD + "; functions of this property without a contract, decided only by that bounded run (labelled bounded, not proved): "
NOTE = {
    "C12": PART + "harbol_tuple_init, harbol_tuple_create, harbol_tuple_new",
    "C20": STD + "; the failed allocations inside the functions without a contract (see C12, C22) are decided by that bounded run only",
    "C21": STD + "; floating point operations are uninterpreted (values are equal exactly when computed by the same operations in the same order), strtold is assumed to consume digits with at most one dot, isalnum is the C locale's, a lookup function is any function that tells for each name a value, a function or nothing and writes only its results",
    "C22": PART + "harbol_msg_span_init (the making of the source line table; looking lines up in it and the merging of locations are proved)",
}
BASE_SPECS = []      # contract files always loaded (callees)
SLOW = {"harbol_math_parse_add_expr": 90, "harbol_math_parse_mul_expr": 90, "_harbol_math_get_token": 60, "harbol_math_parse_pow_expr": 25, "lex_c_style_decimal": 40, "lex_go_style_decimal": 30, "lex_multiquote_string": 20, "harbol_array_swap": 50, "harbol_multi_recalloc": 20}
TRUST = {}
TECH = {}
NA = {
    "C24": "the free-list code breaks the property in several places at the pinned commit (its own tests fail there); a correct one would be a rewrite of the allocator, not a repair, so there is no tree on which a contract could be discharged",
    "C25": "quantifies over all configuration trees: it needs recursive predicates over heap trees of unbounded depth through a recursive-descent parser and a writer, and floating-point printing and parsing; none of these is within reach of the verifier built here",
    "C26": "about code loaded by dlopen and the calls it makes: the observable behaviour lies in the dynamic loader and the plug-ins, which have no source here to put under contract; with the loader assumed nothing but its call order would be left to prove",
}
