"""Programs outside the supported, well-typed subset must be rejected; their corrected twins must not."""
import re

from vmon.core import ChainProgram, CompileFailure, TimeLimit, config, limit
from vmon.diff import rng_for

TASK_LIMIT = 200
HEAD = """from dataclasses import dataclass
from typing import Dict, List, Union
from pycardano import Datum as Anything, PlutusData
@dataclass()
class A(PlutusData):
    CONSTR_ID = 1
    x: int
    t: bytes
@dataclass()
class B(PlutusData):
    CONSTR_ID = 2
    y: bytes
@dataclass()
class C(PlutusData):
    CONSTR_ID = 3
    x: int
    l: List[int]
def fi(a: int) -> int:
    return a
def fib(a: int, b: bytes) -> bytes:
    return b
def fl(a: List[int]) -> int:
    return len(a)
def fa(a: A) -> int:
    return a.x
def fu(a: Union[A, B]) -> int:
    return 0
def fn(a: int) -> None:
    return None
"""
PARAMS = "i: int, j: int, b: bytes, s: str, t: bool, li: List[int], lb: List[bytes], d: Dict[int, bytes], r: A, q: B, u: Union[A, B], w: Union[int, bytes], o: Anything"

# (name, bad statement(s), corrected statement(s)), evaluated inside a function with PARAMS
CASES = [
    ("add_int_bytes", "z = i + b", "z = i + j"),
    ("add_int_str", "z = i + s", "z = str(i) + s"),
    ("add_str_bytes", "z = s + b", "z = s.encode() + b"),
    ("add_bytes_int", "z = b + i", "z = b + bytes([i])"),
    ("add_list_int", "z = li + i", "z = li + [i]"),
    ("add_list_types", "z = li + lb", "z = li + li"),
    ("add_dict", "z = d + d", "z = d"),
    ("add_record", "z = r + r", "z = r.x + r.x"),
    ("add_record_int", "z = r + i", "z = r.x + i"),
    ("sub_bytes", "z = b - b", "z = i - j"),
    ("sub_str", "z = s - s", "z = i - j"),
    ("sub_list", "z = li - li", "z = li + li"),
    ("mul_bytes_bytes", "z = b * b", "z = b * i"),
    ("mul_str_str", "z = s * s", "z = s * i"),
    ("mul_list", "z = li * lb", "z = li + li"),
    ("floordiv_bytes", "z = b // i", "z = j // i"),
    ("mod_str", "z = s % i", "z = j % i"),
    ("truediv", "z = i / j", "z = i // j"),
    ("pow_bytes", "z = b ** i", "z = j ** 2"),
    ("shift", "z = i << b", "z = i * 2"),
    ("neg_bytes", "z = -b", "z = -i"),
    ("neg_str", "z = -s", "z = -i"),
    ("neg_list", "z = -li", "z = -i"),
    ("neg_record", "z = -r", "z = -r.x"),
    ("invert_bytes", "z = ~b", "z = -i"),
    ("cmp_int_bytes", "z = i == b", "z = i == j"),
    ("cmp_int_str", "z = i == s", "z = i == j"),
    ("cmp_str_bytes", "z = s == b", "z = s.encode() == b"),
    ("cmp_lt_int_bytes", "z = i < b", "z = i < j"),
    ("cmp_lt_str", "z = s < i", "z = i < j"),
    ("cmp_lt_record", "z = r < r", "z = r.x < r.x"),
    ("cmp_lt_list", "z = li < i", "z = len(li) < i"),
    ("cmp_record_int", "z = r == i", "z = r == r"),
    ("cmp_list_int", "z = li == i", "z = li == li"),
    ("in_int_bytes_list", "z = i in lb", "z = i in li"),
    ("in_bytes_int_list", "z = b in li", "z = b in lb"),
    ("in_int", "z = i in j", "z = i in li"),
    ("in_record", "z = i in r", "z = i in li"),
    ("call_wrong_type", "z = fi(b)", "z = fi(i)"),
    ("call_wrong_type_str", "z = fi(s)", "z = fi(i)"),
    ("call_wrong_type_list", "z = fl(lb)", "z = fl(li)"),
    ("call_wrong_type_elem", "z = fl(i)", "z = fl([i])"),
    ("call_too_many", "z = fi(i, j)", "z = fi(i)"),
    ("call_too_few", "z = fib(i)", "z = fib(i, b)"),
    ("call_none", "z = fi()", "z = fi(i)"),
    ("call_swapped", "z = fib(b, i)", "z = fib(i, b)"),
    ("call_record_for_other", "z = fa(q)", "z = fa(r)"),
    ("call_union_for_record", "z = fa(u)", "z = fu(u)"),
    ("call_int_for_union", "z = fu(i)", "z = fu(r)"),
    ("call_unknown_kw", "z = fi(c=i)", "z = fi(a=i)"),
    ("call_dup_kw", "z = fi(i, a=j)", "z = fi(i)"),
    ("call_noncallable", "z = i(j)", "z = fi(j)"),
    ("call_result_type", "z = fi(i) + b", "z = fi(i) + j"),
    ("call_none_result", "z = fn(i) + 1", "z = fi(i) + 1"),
    ("construct_wrong_type", "z = A(b, b)", "z = A(i, b)"),
    ("construct_swapped", "z = A(b, i)", "z = A(i, b)"),
    ("construct_too_few", "z = A(i)", "z = A(i, b)"),
    ("construct_too_many", "z = B(b, b)", "z = B(b)"),
    ("construct_list", "z = C(i, lb)", "z = C(i, li)"),
    ("undefined_name", "z = undefined_thing", "z = i"),
    ("undefined_fn", "z = undefined_fn(i)", "z = fi(i)"),
    ("undefined_class", "z = Undefined(i)", "z = B(b)"),
    ("undefined_attr", "z = r.nope", "z = r.x"),
    ("attr_of_int", "z = i.x", "z = r.x"),
    ("attr_of_list", "z = li.x", "z = r.x"),
    ("attr_of_union", "z = u.x", "z = r.x"),
    ("attr_other_record", "z = q.x", "z = q.y"),
    ("method_unknown", "z = b.nope()", "z = b.decode()"),
    ("method_wrong_recv", "z = i.decode()", "z = b.decode()"),
    ("method_str_decode", "z = s.decode()", "z = s.encode()"),
    ("list_append", "li.append(i)", "z = li + [i]"),
    ("list_sort", "li.sort()", "z = sum(li)"),
    ("dict_update", "d.update(d)", "z = d.keys()"),
    ("item_assign_list", "li[0] = 1", "z = li[0]"),
    ("item_assign_dict", "d[0] = b", "z = d[0]"),
    ("attr_assign", "r.x = 1", "z = r.x"),
    ("attr_augassign", "r.x += 1", "z = r.x + 1"),
    ("item_augassign", "li[0] += 1", "z = li[0] + 1"),
    ("delete", "del li[0]", "z = li[1:]"),
    ("delete_name", "del i", "z = i"),
    ("index_by_bytes", "z = li[b]", "z = li[i]"),
    ("index_by_str", "z = li[s]", "z = li[i]"),
    ("index_int", "z = i[0]", "z = li[0]"),
    ("dict_wrong_key", "z = d[b]", "z = d[i]"),
    ("dict_get_wrong_key", "z = d.get(b, b)", "z = d.get(i, b)"),
    ("slice_by_bytes", "z = b[b:]", "z = b[i:]"),
    ("slice_step", "z = b[0:4:2]", "z = b[0:4]"),
    ("hetero_list_str", "z = [s, b]", "z = [s, s]"),
    ("reassign_type", "z = i\nz = b", "z = i\nz = j"),
    ("reassign_type_list", "z = li\nz = lb", "z = li\nz = [i]"),
    ("reassign_param", "i = b", "i = j"),
    ("reassign_record", "r = q", "r = A(i, b)"),
    ("loop_type", "z = i\nfor e in lb:\n    z = e", "z = i\nfor e in li:\n    z = e"),
    ("loopvar_type", "for e in lb:\n    z = e + 1", "for e in li:\n    z = e + 1"),
    ("ann_wrong", "z: int = b", "z: bytes = b"),
    ("ann_wrong_list", "z: List[int] = lb", "z: List[int] = li"),
    ("ann_wrong_record", "z: A = q", "z: A = r"),
    ("ann_wrong_str", "z: str = b", "z: str = s"),
    ("ann_wrong_dict", "z: Dict[bytes, int] = d", "z: Dict[int, bytes] = d"),
    ("aug_type", "i += b", "i += j"),
    ("aug_bytes_int", "b += i", "b += b"),
    ("iter_int", "for e in i:\n    z = e", "for e in li:\n    z = e"),
    ("iter_record", "for e in r:\n    z = e", "for e in li:\n    z = e"),
    ("comp_type", "z = [e + 1 for e in lb]", "z = [e + 1 for e in li]"),
    ("comp_int", "z = [e for e in i]", "z = [e for e in li]"),
    ("comp_cond", "z = [e for e in li if e + b]", "z = [e for e in li if e + 1]"),
    ("tuple_index", "z = (i, b)[i]", "z = (i, b)[0]"),
    ("tuple_index_range", "z = (i, b)[2]", "z = (i, b)[1]"),
    ("tuple_unpack_count", "z, y, x = (i, b)", "z, y = (i, b)"),
    ("unpack_int", "z, y = i", "z, y = (i, j)"),
    ("tuple_elem_type", "z = (i, b)[1] + 1", "z = (i, b)[0] + 1"),
    ("len_int", "z = len(i)", "z = len(li)"),
    ("len_record", "z = len(r)", "z = len(b)"),
    ("len_two", "z = len(li, li)", "z = len(li)"),
    ("sum_bytes", "z = sum(lb)", "z = sum(li)"),
    ("abs_bytes", "z = abs(b)", "z = abs(i)"),
    ("abs_str", "z = abs(s)", "z = abs(i)"),
    ("max_mixed", "z = max([i, b])", "z = max([i, j])"),
    ("chr_bytes", "z = chr(b)", "z = chr(i)"),
    ("hex_bytes", "z = hex(b)", "z = hex(i)"),
    ("pow_type", "z = pow(b, i)", "z = pow(j, 2)"),
    ("range_bytes", "z = [e for e in range(b)]", "z = [e for e in range(i)]"),
    ("int_list", "z = int(li)", "z = int(s)"),
    ("int_record", "z = int(r)", "z = int(t)"),
    ("bytes_str", "z = bytes(s)", "z = bytes(li)"),
    ("bytes_lb", "z = bytes(lb)", "z = bytes(li)"),
    ("all_int", "z = all(li)", "z = all([t])"),
    ("any_int", "z = any(i)", "z = any([t])"),
    ("sorted", "z = sorted(li)", "z = sum(li)"),
    ("zip", "z = zip(li, li)", "z = li"),
    ("map", "z = map(fi, li)", "z = [fi(e) for e in li]"),
    ("enumerate", "for e in enumerate(li):\n    z = 1", "for e in li:\n    z = 1"),
    ("import_inner", "import os", "pass"),
    ("import_from_inner", "from os import path", "pass"),
    ("lambda_", "z = lambda x: x", "z = i"),
    ("class_inner", "class Zin:\n    pass", "pass"),
    ("with_", "with i:\n    z = 1", "z = 1"),
    ("try_", "try:\n    z = 1\nexcept Exception:\n    z = 2", "z = 1"),
    ("raise_", "raise ValueError('x')", "assert t"),
    ("yield_", "yield i", "z = i"),
    ("yield_from", "yield from li", "z = i"),
    ("await_", "z = await i", "z = i"),
    ("global_", "global zzz\nzzz = 1", "zzz = 1"),
    ("nonlocal_", "z = 1\ndef g() -> int:\n    nonlocal z\n    z = 2\n    return z", "z = 1\ndef g() -> int:\n    return z"),
    ("break_", "for e in li:\n    break", "for e in li:\n    pass"),
    ("continue_", "for e in li:\n    continue", "for e in li:\n    pass"),
    ("break_while", "while t:\n    break", "while False:\n    pass"),
    ("match_", "match i:\n    case 1:\n        z = 1", "if i == 1:\n    z = 1"),
    ("set_literal", "z = {1, 2}", "z = [1, 2]"),
    ("set_comp", "z = {e for e in li}", "z = [e for e in li]"),
    ("genexpr", "z = sum(e for e in li)", "z = sum([e for e in li])"),
    ("float_const", "z = 1.5", "z = 1"),
    ("complex_const", "z = 1j", "z = 1"),
    ("ellipsis_const", "z = ...", "z = 1"),
    ("star_call", "z = fi(*li)", "z = fi(li[0])"),
    ("star_list", "z = [*li, 1]", "z = li + [1]"),
    ("star_dict", "z = {**d}", "z = d"),
    ("kw_star", "z = fi(**d)", "z = fi(i)"),
    ("star_unpack", "z, *y = (i, j)", "z, y = (i, j)"),
    ("is_compare", "z = i is j", "z = i == j"),
    ("nested_fn_default", "def g(a: int = 3) -> int:\n    return a", "def g(a: int) -> int:\n    return a"),
    ("nested_fn_varargs", "def g(*a: int) -> int:\n    return 1", "def g(a: int) -> int:\n    return 1"),
    ("nested_fn_kwargs", "def g(**a: int) -> int:\n    return 1", "def g(a: int) -> int:\n    return 1"),
    ("nested_fn_kwonly", "def g(*, a: int) -> int:\n    return a", "def g(a: int) -> int:\n    return a"),
    ("nested_fn_wrong_ret", "def g(a: int) -> bytes:\n    return a", "def g(a: int) -> int:\n    return a"),
    ("nested_fn_missing_ret", "def g(a: int) -> int:\n    z = a", "def g(a: int) -> int:\n    return a"),
    ("nested_fn_partial_ret", "def g(a: int) -> int:\n    if a > 0:\n        return a", "def g(a: int) -> int:\n    if a > 0:\n        return a\n    return 0"),
    ("nested_fn_loop_ret", "def g(a: int) -> int:\n    for e in [a]:\n        return e", "def g(a: int) -> int:\n    for e in [a]:\n        return e\n    return 0"),
    ("nested_fn_else_ret_type", "def g(a: int) -> int:\n    if a > 0:\n        return a\n    else:\n        return b\"\"", "def g(a: int) -> int:\n    if a > 0:\n        return a\n    else:\n        return 0"),
    ("nested_fn_bare_ret", "def g(a: int) -> int:\n    return", "def g(a: int) -> int:\n    return a"),
    ("nested_fn_dup_arg_use", "def g(a: int) -> int:\n    return a + c9", "def g(a: int) -> int:\n    return a + i"),
    ("decorator", "@fi\ndef g(a: int) -> int:\n    return a", "def g(a: int) -> int:\n    return a"),
    ("isinstance_str", "if isinstance(u, str):\n    z = 1", "if isinstance(u, A):\n    z = 1"),
    ("isinstance_int_of_rec", "if isinstance(u, int):\n    z = 1", "if isinstance(u, B):\n    z = 1"),
    ("isinstance_unrelated", "if isinstance(u, C):\n    z = 1", "if isinstance(u, A):\n    z = 1"),
    ("isinstance_any", "if isinstance(o, A):\n    z = 1", "if isinstance(u, A):\n    z = 1"),
    ("narrow_wrong_branch", "if isinstance(u, A):\n    z = u.y", "if isinstance(u, A):\n    z = u.t"),
    ("narrow_else_wrong", "if isinstance(u, A):\n    z = b\"\"\nelse:\n    z = u.t", "if isinstance(u, A):\n    z = b\"\"\nelse:\n    z = u.y"),
    ("narrow_after", "if isinstance(u, A):\n    z = 1\ny = u.x", "if isinstance(u, A):\n    z = u.x"),
    ("narrow_or", "if isinstance(u, A) or t:\n    z = u.x", "if isinstance(u, A) and t:\n    z = u.x"),
    ("narrow_not", "if not isinstance(u, A):\n    z = u.x", "if not isinstance(u, B):\n    z = u.x"),
    ("narrow_and_else", "if isinstance(u, A) and t:\n    z = b\"\"\nelse:\n    z = u.y", "if isinstance(u, A):\n    z = b\"\"\nelse:\n    z = u.y"),
    ("narrow_builtin", "if isinstance(w, int):\n    z = w + b", "if isinstance(w, int):\n    z = w + i"),
    ("narrow_builtin_else", "if isinstance(w, int):\n    z = 0\nelse:\n    z = w + 1", "if isinstance(w, int):\n    z = 0\nelse:\n    z = len(w)"),
    ("narrow_other_var", "v = u\nif isinstance(v, A):\n    z = u.x", "v = u\nif isinstance(v, A):\n    z = v.x"),
    ("narrow_ifexp", "z = u.y if isinstance(u, A) else b\"\"", "z = u.t if isinstance(u, A) else b\"\""),
    ("narrow_assert", "assert isinstance(u, A) or t\nz = u.x", "assert isinstance(u, A)\nz = u.x"),
    ("narrow_while", "while t:\n    z = u.x", "while False:\n    z = r.x"),
    ("union_arith", "z = w + 1", "if isinstance(w, int):\n    z = w + 1"),
    ("union_len", "z = len(w)", "if isinstance(w, bytes):\n    z = len(w)"),
    ("any_arith", "z = o + 1", "z: int = o\ny = z + 1"),
    ("any_attr", "z = o.x", "z: A = o\ny = z.x"),
    ("any_index", "z = o[0]", "z: List[int] = o\ny = z[0]"),
    ("any_call", "z = fi(o)", "z: int = o\ny = fi(z)"),
    ("fstring_spec", "z = f\"{i:>10}\"", "z = f\"{i}\""),
    ("fstring_conv", "z = f\"{i!r}\"", "z = f\"{i}\""),
    ("assert_type", "assert i + b", "assert i + j"),
    ("if_test_type", "if i + b:\n    z = 1", "if i + j:\n    z = 1"),
    ("while_test_type", "while b + 1:\n    z = 1", "while False:\n    z = 1"),
    ("hetero_dict_str", "z = {1: i, 2: s}", "z = {1: i, 2: j}"),
    ("ifexp_types_str", "z = i if t else s", "z = i if t else j"),
    ("branch_types_str", "if t:\n    z = i\nelse:\n    z = s\nz2 = z", "if t:\n    z = i\nelse:\n    z = j\nz2 = z"),
    ("nested_fn_posonly", "def g(a: int, /) -> int:\n    return 1", "def g(a: int) -> int:\n    return 1"),
    ("dict_as_list", "z = fl(d)", "z = fl(li)"),
    ("print_kw", "print(i, end=\"\")", "print(i)"),
    ("print_sep", "print(i, j, sep=\"\")", "print(i, j)"),
    ("return_inside_type", "if t:\n    return b\"no\"", "if t:\n    return 7"),
    ("return_str", "if t:\n    return s", "if t:\n    return i"),
    ("return_none", "if t:\n    return None", "if t:\n    return i"),
    ("return_list", "if t:\n    return li", "if t:\n    return li[0]"),
    ("return_bare", "if t:\n    return", "if t:\n    return j"),
    ("async_for", "async def g(a: int) -> int:\n    return a", "def g(a: int) -> int:\n    return a"),
    ("multi_target", "z = y = i", "z = i\ny = i"),
    ("chained_attr_method", "z = r.x.y", "z = r.x"),
    ("encode_arg", "z = s.encode(1)", "z = s.encode()"),
    ("fromhex_bytes", "z = bytes.fromhex(b)", "z = b.hex()"),
    ("index_wrong_elem", "z = li.index(b)", "z = li.index(i)"),
    ("dunder_call", "z = i.__add__(j)", "z = i + j"),
    ("ifexp_list_int", "z = li if t else i", "z = li if t else [i]"),
    ("ifexp_list_types", "z = li if t else lb", "z = li if t else [i]"),
    ("list_hetero_list", "z = [i, li]", "z = [[i], li]"),
    ("list_hetero_lists", "z = [li, lb]", "z = [li, li]"),
    ("branch_list_int", "if t:\n    z = li\nelse:\n    z = i\nz2 = z", "if t:\n    z = li\nelse:\n    z = [i]\nz2 = z"),
    ("ifexp_dict_int", "z = d if t else i", "z = d if t else {i: b}"),
    ("ifexp_list_rec", "z = li if t else r", "z = q if t else r"),
    ("dict_hetero_list", "z = {1: li, 2: i}", "z = {1: li, 2: [i]}"),
    ("dict_key_hetero", "z = {i: i, s: i}", "z = {i: i, j: i}"),
    ("dict_key_list", "z = {i: i, li: i}", "z = i"),
    ("ifexp_bool_int", "z = t if t else i", "z = t if t else i == j"),
    ("ifexp_none", "z = i if t else None", "z = i"),
    ("if_record", "if r:\n    z = 1", "if r.x:\n    z = 1"),
    ("not_record", "z = not r", "z = not r.x"),
    ("while_record", "while r:\n    z = 1", "z = i"),
    ("assert_record", "assert r", "assert r.x + 1000000"),
    ("if_union", "if u:\n    z = 1", "z = i"),
    ("not_any", "z = not o", "z = i"),
    ("cmp_chain_types", "z = i < j < b", "z = i"),
    ("cmp_any_int", "z = o == i", "z = i"),
    ("cmp_union_int", "z = w == i", "z = i"),
    ("cmp_none", "z = i == None", "z = i"),
    ("in_dict_type", "z = b in d", "z = i in d.keys()"),
    ("in_dict_values", "z = i in d.values()", "z = i"),
    ("in_str_int", "z = i in s", "z = i in li"),
    ("in_bytes_bytes", "z = b in b", "z = i"),
    ("in_str", "z = s in s", "z = i"),
    ("bool_arith", "z = t + t", "z = i"),
    ("bool_int_arith", "z = t + i", "z = i"),
    ("bool_neg", "z = -t", "z = i"),
    ("pow3", "z = pow(i, j, b)", "z = i"),
    ("round", "z = round(i)", "z = i"),
    ("divmod", "z = divmod(i, j)", "z = i"),
    ("min2", "z = min(i, b)", "z = min([i, j])"),
    ("min_b", "z = min(lb)", "z = i"),
    ("list_fn", "z = list(li)", "z = i"),
    ("dict_fn", "z = dict(d)", "z = i"),
    ("tuple_fn", "z = tuple(li)", "z = i"),
    ("set_fn", "z = set(li)", "z = i"),
    ("ord", "z = ord(b)", "z = i"),
    ("bin", "z = bin(i)", "z = i"),
    ("isinst_tuple", "z = isinstance(u, (A, B))", "z = i"),
    ("type_fn", "z = type(i)", "z = i"),
    ("id", "z = id(i)", "z = i"),
    ("repr", "z = repr(i)", "z = i"),
    ("input", "z = input()", "z = i"),
    ("open", "z = open(s)", "z = i"),
    ("getattr", "z = getattr(r, 'x')", "z = i"),
    ("hasattr", "z = hasattr(r, 'x')", "z = i"),
    ("eval", "z = eval(s)", "z = i"),
    ("exec", "exec(s)", "z = i"),
    ("hash", "z = hash(i)", "z = i"),
    ("str_index", "z = s[0]", "z = i"),
    ("str_slice", "z = s[0:1]", "z = i"),
    ("dict_slice", "z = d[0:1]", "z = i"),
    ("record_index", "z = r[0]", "z = i"),
    ("neg_slice_type", "z = li[:b]", "z = i"),
    ("tuple_slice", "z = (i, j)[0:1]", "z = i"),
    ("for_tuple_target", "for x, y in li:\n    pass", "z = i"),
    ("for_attr", "for r.x in li:\n    pass", "z = i"),
    ("for_str", "for e in s:\n    pass", "for e in li:\n    pass"),
    ("for_bytes", "for e in b:\n    pass", "z = i"),
    ("for_tuple", "for e in (i, b):\n    pass", "z = i"),
    ("comp_nested", "z = [e + f for e in li for f in li]", "z = [e for e in li]"),
    ("comp_tuple_target", "z = [e for e, f in li]", "z = i"),
    ("dict_comp_type", "z = {e: e + b for e in li}", "z = i"),
    ("dict_comp_key", "z = {e: e for e in lb}\nz2 = z[1]", "z = i"),
    ("ann_only", "z: int", "z = i"),
    ("ann_attr", "r.x: int = 3", "z = i"),
    ("ann_unknown", "z: Foo = 3", "z = i"),
    ("ann_none", "z: None = i", "z = i"),
    ("ann_str_type", "z: 'int' = i", "z = i"),
    ("ann_list_bare", "z: list = li", "z = i"),
    ("ann_union_other", "z: Union[A, C] = u", "z = i"),
    ("assign_tuple_types", "z, y = (i, b)\nz = y", "z = i"),
    ("starred", "*z, y = (i, j)", "z = i"),
    ("aug_union", "w += 1", "z = i"),
    ("aug_undefined", "zz9 += 1", "z = i"),
    ("del_attr", "del r.x", "z = i"),
    ("call_attr", "z = r.x()", "z = i"),
    ("call_str", "z = 'a'(i)", "z = i"),
    ("call_list", "z = li(0)", "z = i"),
    ("call_union", "z = Union[A, B](i)", "z = i"),
    ("isinst_noncls", "z = isinstance(u, i)", "z = i"),
    ("isinst_one", "z = isinstance(u)", "z = i"),
    ("isinst_kw", "z = isinstance(u, A, B)", "z = i"),
    ("nested_cls_const", "z = A.CONSTR_ID + b", "z = i"),
    ("constr_attr", "z = r.CONSTR_ID + b", "z = i"),
    ("attr_priv", "z = r.__class__", "z = i"),
    ("method_on_cls", "z = A.x", "z = i"),
    ("print_undefined", "print(nope)", "z = i"),
    ("fstring_undefined", "z = f'{nope}'", "z = i"),
    ("fstr_bad", "z = f'{i + b}'", "z = i"),
    ("bytes_fmt", "z = b % i", "z = i"),
    ("str_fmt", "z = s % (i,)", "z = i"),
    ("str_format", "z = s.format(i)", "z = i"),
    ("str_join", "z = s.join([s])", "z = i"),
    ("str_upper", "z = s.upper()", "z = i"),
    ("b_upper", "z = b.upper()", "z = i"),
    ("b_hex_arg", "z = b.hex(1)", "z = i"),
    ("to_bytes", "z = i.to_bytes(2, 'big')", "z = i"),
    ("list_count", "z = li.count(1)", "z = i"),
    ("list_index2", "z = li.index(1, 2)", "z = i"),
    ("dict_pop", "z = d.pop(1)", "z = i"),
    ("dict_get1", "z = d.get(1)", "z = i"),
    ("dict_getdefault", "z = d.get(1, i)", "z = i"),
    ("dict_items_arg", "z = d.items(1)", "z = i"),
    ("dict_len", "z = d.len()", "z = i"),
    ("list_extend", "li.extend(li)", "z = i"),
    ("list_insert", "li.insert(0, 1)", "z = i"),
    ("inner_ret_type", "def g() -> bytes:\n    return 1\nz = g()", "z = i"),
    ("inner_shadow_type", "def g(int: int) -> int:\n    return int\nz = g(b)", "z = i"),
    ("mutual_undefined", "def g() -> int:\n    return h9()\nz = g()", "z = i"),
    ("unary_plus_b", "z = +b", "z = i"),
    ("bitand", "z = i & b", "z = i"),
    ("bitand_int", "z = i & j", "z = i"),
    ("matmul", "z = i @ j", "z = i"),
    ("not_in_type", "z = b not in li", "z = i"),
    ("is_none", "z = i is None", "z = i"),
    ("isnot", "z = i is not j", "z = i"),
    ("walrus_type", "z = (y := i) + b", "z = i + j"),
]

# whole programs: lines ending in `#@ good` are replaced by `good` in the corrected twin, `#-` lines are dropped
PROGRAMS = [
    ("dup_constr_union", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: int\n@dataclass()\nclass Q(PlutusData):\n    CONSTR_ID = 4 #@    CONSTR_ID = 5\n    y: int\ndef validator(u: Union[P, Q]) -> int:\n    return 1"),
    ("field_untyped", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x = 3 #@    x: int\ndef validator(u: P) -> int:\n    return 1"),
    ("field_unknown_type", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: Whatever #@    x: int\ndef validator(u: P) -> int:\n    return 1"),
    ("field_default", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: int = 3 #@    x: int\ndef validator(u: P) -> int:\n    return 1"),
    ("constr_nonint", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = \"a\" #@    CONSTR_ID = 4\n    x: int\ndef validator(u: P) -> int:\n    return 1"),
    ("inherit_other", "@dataclass()\nclass P(A): #@class P(PlutusData):\n    CONSTR_ID = 9\n    z: int\ndef validator(u: P) -> int:\n    return 1"),
    ("no_dataclass", "#-\nclass P(PlutusData): #@@dataclass()\\nclass P(PlutusData):\n    CONSTR_ID = 9\n    z: int\ndef validator(u: P) -> int:\n    return 1"),
    ("wrong_return", "def validator(x: int) -> bytes: #@def validator(x: int) -> int:\n    return x"),
    ("wrong_return_record", "def validator(x: A) -> B: #@def validator(x: A) -> A:\n    return x"),
    ("missing_return", "def validator(x: int) -> int:\n    y = x #@    return x"),
    ("unknown_param_type", "def validator(x: Foo) -> int: #@def validator(x: int) -> int:\n    return 1"),
    ("float_param", "def validator(x: float) -> int: #@def validator(x: int) -> int:\n    return 1"),
    ("default_param", "def validator(x: int = 3) -> int: #@def validator(x: int) -> int:\n    return x"),
    ("vararg_param", "def validator(*x: int) -> int: #@def validator(x: int) -> int:\n    return 1"),
    ("posonly_param", "def validator(x: int, /) -> int: #@def validator(x: int) -> int:\n    return 1"),
    ("kwonly_param", "def validator(*, x: int) -> int: #@def validator(x: int) -> int:\n    return 1"),
    ("no_validator", "def validate(x: int) -> int: #@def validator(x: int) -> int:\n    return x"),
    ("validator_not_fn", "validator = 3 #@def validator(x: int) -> int:\\n    return x"),
    ("use_before_def", "def validator(x: int) -> int:\n    y = z + x #@    y = x\n    z = 3\n    return y"),
    ("helper_wrong_arg", "def g(x: int, y: bytes) -> int:\n    return x\ndef validator(x: int) -> int:\n    return g(x, x) #@    return g(x, b\"\")"),
    ("helper_unused_ill_typed", "def g(x: int) -> bytes: #@def g(x: int) -> int:\n    return x\ndef validator(x: int) -> int:\n    return x"),
    ("recursive_wrong", "def g(x: int) -> int:\n    return g(b\"\") if x > 0 else 0 #@    return g(x - 1) if x > 0 else 0\ndef validator(x: int) -> int:\n    return g(3)"),
    ("method_ill_typed", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: int\n    def m(self) -> bytes: #@    def m(self) -> int:\n        return self.x\ndef validator(p: P) -> int:\n    return 1"),
    ("method_missing_arg", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: int\n    def m(self, k: int) -> int:\n        return self.x + k\ndef validator(p: P) -> int:\n    return p.m() #@    return p.m(1)"),
    ("method_unknown", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: int\n    def m(self) -> int:\n        return self.x\ndef validator(p: P) -> int:\n    return p.k() #@    return p.m()"),
    ("record_subst_same_id", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: int\n@dataclass()\nclass Q(PlutusData):\n    CONSTR_ID = 4\n    z: bytes\ndef g(q: Q) -> int:\n    return 1\ndef validator(p: P, q: Q) -> int:\n    return g(p) #@    return g(q)"),
    ("record_subst_same_id2", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    z: int\n@dataclass()\nclass Q(PlutusData):\n    CONSTR_ID = 4\n    x: bytes\ndef g(q: Q) -> int:\n    return 1\ndef validator(p: P, q: Q) -> int:\n    return g(p) #@    return g(q)"),
    ("record_subst_fields", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: int\n    y: int\n@dataclass()\nclass Q(PlutusData):\n    CONSTR_ID = 4\n    x: int\ndef g(q: Q) -> int:\n    return 1\ndef validator(p: P, q: Q) -> int:\n    return g(p) #@    return g(q)"),
    ("record_subst_fieldtype", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: int\n@dataclass()\nclass Q(PlutusData):\n    CONSTR_ID = 4\n    x: bytes\ndef g(q: Q) -> int:\n    return 1\ndef validator(p: P, q: Q) -> int:\n    return g(p) #@    return g(q)"),
    ("record_subst_constr", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: int\n@dataclass()\nclass Q(PlutusData):\n    CONSTR_ID = 5\n    x: int\ndef g(q: Q) -> int:\n    return 1\ndef validator(p: P, q: Q) -> int:\n    return g(p) #@    return g(q)"),
    ("list_invariance", "def g(q: List[Union[A, B]]) -> int:\n    return 1\ndef validator(p: List[C], q: List[Union[A, B]]) -> int:\n    return g(p) #@    return g(q)"),
    ("union_wider_arg", "def g(q: Union[A, B]) -> int:\n    return 1\ndef validator(p: Union[A, B, C], q: Union[A, B]) -> int:\n    return g(p) #@    return g(q)"),
    ("union_narrow_return", "def g(q: Union[A, B]) -> A: #@def g(q: Union[A, B]) -> Union[A, B]:\n    return q\ndef validator(q: Union[A, B]) -> int:\n    return 1"),
    ("bad_import", "import os #@\ndef validator(x: int) -> int:\n    return x"),
    ("bad_from_import", "from os import path #@\ndef validator(x: int) -> int:\n    return x"),
    ("overwrite_type", "int = 3 #@k = 3\ndef validator(x: int) -> int:\n    return 1"),
    ("overwrite_plutusdata", "PlutusData = 3 #@k = 3\ndef validator(x: int) -> int:\n    return 1"),
    ("overwrite_isinstance", "def isinstance(x: int, y: int) -> bool: #@def isinst(x: int, y: int) -> bool:\n    return True\ndef validator(x: int) -> int:\n    return 1"),
    ("module_return", "return 3 #@k = 3\ndef validator(x: int) -> int:\n    return 1"),
    ("global_type", "K = 3\nK = b\"\" #@K = 4\ndef validator(x: int) -> int:\n    return x + K"),
    ("global_use_type", "K = b\"\" #@K = 4\ndef validator(x: int) -> int:\n    return x + K"),
    ("fn_as_value_arith", "def g(x: int) -> int:\n    return x\ndef validator(x: int) -> int:\n    return g + 1 #@    return g(x) + 1"),
    ("class_as_value", "def validator(x: int) -> int:\n    y = A + 1 #@    y = x + 1\n    return y"),
    ("type_as_arg", "def validator(x: int) -> int:\n    y = fi(A) #@    y = fi(x)\n    return y"),
    ("eq_dunder_wrong", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: int\ndef validator(p: P, q: A) -> bool:\n    return p == q #@    return p == p"),
    ("lt_no_dunder", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: int\ndef validator(p: P) -> bool:\n    return p < p #@    return p.x < p.x"),
    ("add_dunder_wrong", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: int\n    def __add__(self, o: int) -> int:\n        return self.x + o\ndef validator(p: P) -> int:\n    return p + b\"\" #@    return p + 1"),
    ("union_list_types", "def validator(u: Union[int, List[int]]) -> int: #@def validator(u: Union[int, List[Anything]]) -> int:\n    return 1"),
    ("union_dict_types", "def validator(u: Union[int, Dict[int, bytes]]) -> int: #@def validator(u: Union[int, Dict[Anything, Anything]]) -> int:\n    return 1"),
    ("union_str", "def validator(u: Union[int, str]) -> int: #@def validator(u: Union[int, bytes]) -> int:\n    return 1"),
    ("union_bool", "def validator(u: Union[A, bool]) -> int: #@def validator(u: Union[A, int]) -> int:\n    return 1"),
    ("union_none", "def validator(u: Union[A, None]) -> int: #@def validator(u: Union[A, B]) -> int:\n    return 1"),
    ("union_field_list", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: Union[bytes, List[bytes]] #@    x: Union[bytes, List[Anything]]\ndef validator(u: P) -> int:\n    return 1"),
    ("union_field_in_union", "def g(u: Union[A, List[int]]) -> int: #@def g(u: Union[A, List[Anything]]) -> int:\n    return 1\ndef validator(u: A) -> int:\n    return g(u)"),
    ("decorated_validator", "@staticmethod #@\ndef validator(u: int) -> int:\n    return 1"),
    ("field_str_list", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: List[float] #@    x: List[int]\ndef validator(u: P) -> int:\n    return 1"),
    ("constr_negative", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = -1 #@    CONSTR_ID = 1\n    x: int\ndef validator(u: P) -> int:\n    return 1"),
    ("constr_float", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 1.0 #@    CONSTR_ID = 1\n    x: int\ndef validator(u: P) -> int:\n    return 1"),
    ("constr_name", "N = 3\n@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = N #@    CONSTR_ID = 3\n    x: int\ndef validator(u: P) -> int:\n    return 1"),
    ("validator_async", "async def validator(u: int) -> int: #@def validator(u: int) -> int:\n    return 1"),
    ("field_method_type", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: int\n    def m(self, k: bytes) -> int:\n        return self.x + k #@        return self.x\ndef validator(u: P) -> int:\n    return u.m(b\"\")"),
    ("method_arg_type", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: int\n    def m(self, k: bytes) -> int:\n        return self.x\ndef validator(u: P) -> int:\n    return u.m(1) #@    return u.m(b\"\")"),
    ("method_extra_arg", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: int\n    def m(self, k: bytes) -> int:\n        return self.x\ndef validator(u: P) -> int:\n    return u.m(b\"\", 1) #@    return u.m(b\"\")"),
    ("method_of_other_record", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: int\n    def m(self) -> int:\n        return self.x\n@dataclass()\nclass Q(PlutusData):\n    CONSTR_ID = 5\n    x: int\ndef validator(u: P, v: Q) -> int:\n    return v.m() #@    return u.m()"),
    ("method_on_union", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: int\n    def m(self) -> int:\n        return self.x\n@dataclass()\nclass Q(PlutusData):\n    CONSTR_ID = 5\n    x: int\ndef validator(u: Union[P, Q], v: P) -> int:\n    return u.m() #@    return v.m()"),
    ("method_result_type", "@dataclass()\nclass P(PlutusData):\n    CONSTR_ID = 4\n    x: int\n    def m(self) -> bytes:\n        return b\"\"\ndef validator(u: P) -> int:\n    return u.m() + 1 #@    return len(u.m()) + 1"),
]

WRAPS = {
    "body": "{s}",
    "if": "if t:\n{S}",
    "else": "if t:\n    pass\nelse:\n{S}",
    "elif": "if t:\n    pass\nelif i > 3:\n{S}",
    "for": "for e9 in li:\n{S}",
    "while": "k9 = 0\nwhile k9 < 1:\n    k9 += 1\n{S}",
    "after_loop": "for e8 in li:\n    pass\n{s}",
    "nested_if_for": "for e7 in li:\n    if e7 > 0:\n{SS}",
    "narrowed": "if isinstance(w, bytes):\n    zq = len(w)\nelse:\n    zq = w\n{s}",
    "after_return": "if i == 77:\n    return 1\n{s}",
}


def indent(s, n):
    return "\n".join("    " * n + l for l in s.split("\n"))


def place(stmts, wrap, fnctx):
    w = WRAPS[wrap]
    body = w.replace("{SS}", indent(stmts, 2)).replace("{S}", indent(stmts, 1)).replace("{s}", stmts)
    if fnctx == "validator":
        return HEAD + f"def validator({PARAMS}) -> int:\n" + indent(body, 1) + "\n    return 5\n"
    names = re.findall(r"(\w+):", PARAMS)
    if fnctx == "helper":
        return (
            HEAD
            + f"def helper({PARAMS}) -> int:\n{indent(body, 1)}\n    return 5\n"
            + f"def validator({PARAMS}) -> int:\n    return helper({', '.join(names)})\n"
        )
    if fnctx == "uncalled":
        return HEAD + f"def helper({PARAMS}) -> int:\n{indent(body, 1)}\n    return 5\ndef validator({PARAMS}) -> int:\n    return 6\n"
    if fnctx == "method":
        return (
            HEAD
            + f"@dataclass()\nclass Z(PlutusData):\n    CONSTR_ID = 33\n    f: int\n    def m(self, {PARAMS}) -> int:\n{indent(body, 2)}\n        return 5\n"
            + f"def validator({PARAMS}) -> int:\n    return Z(1).m({', '.join(names)})\n"
        )
    assert fnctx == "inner"
    return (
        HEAD
        + f"def validator({PARAMS}) -> int:\n    def helper({PARAMS}) -> int:\n{indent(body, 2)}\n        return 5\n    return helper({', '.join(names)})\n"
    )


def twin(src):
    out = []
    for l in src.split("\n"):
        if l.strip() == "#-":
            continue
        m = re.match(r"^(.*?)\s*#@(.*)$", l)
        out.append(m.group(2).replace("\\n", "\n") if m else l)
    return "\n".join(out)


def bad(src):
    return "\n".join(re.sub(r"\s*#@.*$", "", l) for l in src.split("\n") if l.strip() != "#-")


def tasks(tier, seed, per=10, contexts=3, levels=("O0", "O2")):
    contexts = contexts if tier == "quick" else 25
    levels = list(levels) if tier == "quick" else ["O0", "O1", "O2", "O3"]
    out = [{"kind": "case", "i": i, "per": per, "contexts": contexts, "levels": levels} for i in range(0, len(CASES), per)]
    out += [{"kind": "prog", "i": i, "per": per, "levels": levels} for i in range(0, len(PROGRAMS), per)]
    return out


def attempt(src, level):
    try:
        with limit(60):
            ChainProgram(src, config(level))
        return None
    except CompileFailure as e:
        return str(e)


FINDINGS = {}


def run(t, rep, tier, seed):
    if t["kind"] == "prog":
        for name, src in PROGRAMS[t["i"] : t["i"] + t["per"]]:
            for level in t["levels"]:
                check(rep, name, HEAD + bad(src) + "\n", HEAD + twin(src) + "\n", level, "program")
        return
    for name, b, g in CASES[t["i"] : t["i"] + t["per"]]:
        rng = rng_for(seed, "rejects", name)
        ctxs = [("body", "validator")]
        allc = [(w, f) for w in WRAPS for f in ("validator", "helper", "uncalled", "inner", "method")]
        rng.shuffle(allc)
        ctxs += allc[: t["contexts"]]
        for w, f in ctxs:
            if name in ("decorator", "class_inner") and f == "method":
                continue
            for level in [rng.choice(t["levels"])] if tier == "quick" and (w, f) != ctxs[0] else t["levels"]:
                if f == "uncalled" and level != "O0":
                    continue  # dead code may be dropped before it is compiled
                check(rep, name, place(b, w, f), place(g, w, f), level, f"{w}/{f}")


def check(rep, name, b, g, level, ctx):
    rep.event("programs", 2)
    rep.sig(name, ctx, level)
    err = attempt(b, level)
    rep.expect(err is not None, "an unsupported or ill-typed program was accepted", finding=FINDINGS.get(name), label=f"rejects/{name} {ctx}", level=level, error="accepted", source=b)
    if err is not None:
        rep.event("rejected")
        rep.sample(case=name, context=ctx, level=level, message=err[:160])
    err = attempt(g, level)
    rep.expect(err is None, "the corrected program was rejected", label=f"rejects/{name} twin {ctx}", level=level, error=err or "", source=g)
    if err is None:
        rep.event("accepted_twins")
