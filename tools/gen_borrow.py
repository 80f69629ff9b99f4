#!/usr/bin/env python3
"""writes borrow/src/lib.rs: one function per question "may this part of the vector be kept across this call?" """
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
own = ["clone", "std", "value", "got", "slice_std", "len", "max", "folded"]
part = dict(
    slice="vec.slice(0..1)", whole="vec.as_slice()", split="vec.split_at(1)", first="vec.split_first()", last="vec.split_last()", chunks="vec.chunks(1)",
    elem="vec.get(0)", index="&vec[0]", iter="vec.iter()", iter_cloned="vec.iter_cloned()", map="vec.map(|x: &String| x.len())", filter="vec.filter(|x: &String| x.len() > 1)",
    ref="unsafe { vec.get_ref(0) }", mut="unsafe { vec.get_mut(0) }", iter_ref="unsafe { vec.iter_ref() }", iter_mut="unsafe { vec.iter_mut() }", vec="&vec",
    s_slice="s.slice(0..1)", s_split="s.split_at(1)", s_first="s.split_first()", s_last="s.split_last()", s_chunks="s.chunks(1)",
    s_elem="s.get(0)", s_iter="s.iter()", s_iter_cloned="s.iter_cloned()", s_map="s.map(|x: &String| x.len())", s_filter="s.filter(|x: &String| x.len() > 1)",
    s_ref="unsafe { s.get_ref(0) }", s_mut="unsafe { s.get_mut(0) }", s_iter_ref="unsafe { s.iter_ref() }", s_iter_mut="unsafe { s.iter_mut() }",
    clone="vec.clone()", std="vec.clone_to_vec()", value="vec[0].cloned()", got="vec.get_cloned(0)", slice_std="s.clone_to_vec()", len="vec.len()", max="vec.maximum_capacity()",
    folded="vec.fold(0, |a: usize, x: &String| a + x.len())")
call = dict(
    push='vec.push(t())', extend='vec.extend([t(), t()])', get='vec.get_cloned(0)', set='vec[0].set(t())', swap='vec.swap(0, 1)', fill='vec.fill(t())', equal='vec == vec', measure='vec.len() + vec.capacity()',
    clear='vec.clear()', reserve='unsafe { vec.reserve_maximum_capacity(9) }', into_inner='vec.into_inner()', to_vec='vec.to_vec()', into_iter='vec.into_iter()', drop='drop(vec)', assign='vec = make()', replace='core::mem::replace(&mut vec, make())', swap_vec='core::mem::swap(&mut vec, &mut make())', move_='keep(vec)')
o = ["//! Generated by tools/gen_borrow.py: questions to the compiler, see spec/Borrow.tla.  One per line.",
     "#![allow(unused, clippy::all)]",
     "use orx_concurrent_vec::*;",
     "type V<T = String> = ConcurrentVec<T>;",
     "fn t() -> String { String::new() }",
     "fn make() -> V { ConcurrentVec::new() }",
     "fn keep<X>(x: X) -> X { x }",
     "fn used<X>(_: X) {}"]
n = 0
for p, e in part.items():
    for c, f in call.items():
        s = "let s = vec.as_slice(); " if e.replace("unsafe { ", "").startswith("s.") else ""
        o.append(f"fn q{n}() {{ let mut vec = make(); {s}let part = {e}; used({f}); used(part); }} // {p} {c}".replace("used(vec.clear())", "vec.clear()").replace("used(vec = make())", "vec = make()"))
        n += 1
    s = "let s = vec.as_slice(); " if e.replace("unsafe { ", "").startswith("s.") else ""
    o.append(f"fn q{n}() {{ let part; {{ let vec = make(); {s}part = keep({e}); }} used(part); }} // {p} end")
    n += 1
# values which live shorter than the vector that keeps them
for p, e in dict(push="v.push(&x)", pushf="v.push_for_idx(|_| &x)", extend="v.extend([&x])", set="v[0].set(&x)", replace="v[0].replace(&x)", update="v[0].update(|y| *y = &x)", fill="v.fill(&x)", fill_with="v.fill_with(|_| &x)", s_fill="v.as_slice().fill(&x)", s_elem="v.as_slice().get(0).unwrap().set(&x)", iter="v.iter().for_each(|y| y.set(&x))").items():
    o.append(f"fn q{n}(v: &V<&'static String>) {{ let x = t(); fn put<'x>(v: &V<&'x String>, x: &'x String) {{ used({e.replace('&x', 'x')}) }} put(v, &x); used(x); }} // stored {p}")
    n += 1
open(os.path.join(V, "borrow/src/lib.rs"), "w").write("\n".join(o) + "\n")
