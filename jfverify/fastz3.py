"""Drops z3py's per-call error query on the read-only accessors this tool calls millions of times."""
import z3
from z3 import z3core, z3 as zz

HOT = ['Z3_get_ast_kind', 'Z3_inc_ref', 'Z3_dec_ref', 'Z3_get_sort', 'Z3_get_app_decl', 'Z3_get_decl_kind',
       'Z3_get_app_num_args', 'Z3_get_app_arg', 'Z3_get_ast_id', 'Z3_get_sort_kind', 'Z3_get_bv_sort_size',
       'Z3_is_eq_ast', 'Z3_get_func_decl_id', 'Z3_app_to_ast', 'Z3_to_app']


def patch():
    for n in HOT:
        if not hasattr(z3core, n):
            continue
        f = getattr(z3core, n).__defaults__[0].f
        setattr(z3core, n, f)
        if hasattr(zz, n):
            setattr(zz, n, f)


patch()
