//! Generated by tools/gen_borrow.py: questions to the compiler, see spec/Borrow.tla.  One per line.
#![allow(unused, clippy::all)]
use orx_concurrent_vec::*;
type V<T = String> = ConcurrentVec<T>;
fn t() -> String { String::new() }
fn make() -> V { ConcurrentVec::new() }
fn keep<X>(x: X) -> X { x }
fn used<X>(_: X) {}
fn q0() { let mut vec = make(); let part = vec.slice(0..1); used(vec.push(t())); used(part); } // slice push
fn q1() { let mut vec = make(); let part = vec.slice(0..1); used(vec.extend([t(), t()])); used(part); } // slice extend
fn q2() { let mut vec = make(); let part = vec.slice(0..1); used(vec.get_cloned(0)); used(part); } // slice get
fn q3() { let mut vec = make(); let part = vec.slice(0..1); used(vec[0].set(t())); used(part); } // slice set
fn q4() { let mut vec = make(); let part = vec.slice(0..1); used(vec.swap(0, 1)); used(part); } // slice swap
fn q5() { let mut vec = make(); let part = vec.slice(0..1); used(vec.fill(t())); used(part); } // slice fill
fn q6() { let mut vec = make(); let part = vec.slice(0..1); used(vec == vec); used(part); } // slice equal
fn q7() { let mut vec = make(); let part = vec.slice(0..1); used(vec.len() + vec.capacity()); used(part); } // slice measure
fn q8() { let mut vec = make(); let part = vec.slice(0..1); vec.clear(); used(part); } // slice clear
fn q9() { let mut vec = make(); let part = vec.slice(0..1); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // slice reserve
fn q10() { let mut vec = make(); let part = vec.slice(0..1); used(vec.into_inner()); used(part); } // slice into_inner
fn q11() { let mut vec = make(); let part = vec.slice(0..1); used(vec.to_vec()); used(part); } // slice to_vec
fn q12() { let mut vec = make(); let part = vec.slice(0..1); used(vec.into_iter()); used(part); } // slice into_iter
fn q13() { let mut vec = make(); let part = vec.slice(0..1); used(drop(vec)); used(part); } // slice drop
fn q14() { let mut vec = make(); let part = vec.slice(0..1); vec = make(); used(part); } // slice assign
fn q15() { let mut vec = make(); let part = vec.slice(0..1); used(core::mem::replace(&mut vec, make())); used(part); } // slice replace
fn q16() { let mut vec = make(); let part = vec.slice(0..1); used(core::mem::swap(&mut vec, &mut make())); used(part); } // slice swap_vec
fn q17() { let mut vec = make(); let part = vec.slice(0..1); used(keep(vec)); used(part); } // slice move_
fn q18() { let part; { let vec = make(); part = keep(vec.slice(0..1)); } used(part); } // slice end
fn q19() { let mut vec = make(); let part = vec.as_slice(); used(vec.push(t())); used(part); } // whole push
fn q20() { let mut vec = make(); let part = vec.as_slice(); used(vec.extend([t(), t()])); used(part); } // whole extend
fn q21() { let mut vec = make(); let part = vec.as_slice(); used(vec.get_cloned(0)); used(part); } // whole get
fn q22() { let mut vec = make(); let part = vec.as_slice(); used(vec[0].set(t())); used(part); } // whole set
fn q23() { let mut vec = make(); let part = vec.as_slice(); used(vec.swap(0, 1)); used(part); } // whole swap
fn q24() { let mut vec = make(); let part = vec.as_slice(); used(vec.fill(t())); used(part); } // whole fill
fn q25() { let mut vec = make(); let part = vec.as_slice(); used(vec == vec); used(part); } // whole equal
fn q26() { let mut vec = make(); let part = vec.as_slice(); used(vec.len() + vec.capacity()); used(part); } // whole measure
fn q27() { let mut vec = make(); let part = vec.as_slice(); vec.clear(); used(part); } // whole clear
fn q28() { let mut vec = make(); let part = vec.as_slice(); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // whole reserve
fn q29() { let mut vec = make(); let part = vec.as_slice(); used(vec.into_inner()); used(part); } // whole into_inner
fn q30() { let mut vec = make(); let part = vec.as_slice(); used(vec.to_vec()); used(part); } // whole to_vec
fn q31() { let mut vec = make(); let part = vec.as_slice(); used(vec.into_iter()); used(part); } // whole into_iter
fn q32() { let mut vec = make(); let part = vec.as_slice(); used(drop(vec)); used(part); } // whole drop
fn q33() { let mut vec = make(); let part = vec.as_slice(); vec = make(); used(part); } // whole assign
fn q34() { let mut vec = make(); let part = vec.as_slice(); used(core::mem::replace(&mut vec, make())); used(part); } // whole replace
fn q35() { let mut vec = make(); let part = vec.as_slice(); used(core::mem::swap(&mut vec, &mut make())); used(part); } // whole swap_vec
fn q36() { let mut vec = make(); let part = vec.as_slice(); used(keep(vec)); used(part); } // whole move_
fn q37() { let part; { let vec = make(); part = keep(vec.as_slice()); } used(part); } // whole end
fn q38() { let mut vec = make(); let part = vec.split_at(1); used(vec.push(t())); used(part); } // split push
fn q39() { let mut vec = make(); let part = vec.split_at(1); used(vec.extend([t(), t()])); used(part); } // split extend
fn q40() { let mut vec = make(); let part = vec.split_at(1); used(vec.get_cloned(0)); used(part); } // split get
fn q41() { let mut vec = make(); let part = vec.split_at(1); used(vec[0].set(t())); used(part); } // split set
fn q42() { let mut vec = make(); let part = vec.split_at(1); used(vec.swap(0, 1)); used(part); } // split swap
fn q43() { let mut vec = make(); let part = vec.split_at(1); used(vec.fill(t())); used(part); } // split fill
fn q44() { let mut vec = make(); let part = vec.split_at(1); used(vec == vec); used(part); } // split equal
fn q45() { let mut vec = make(); let part = vec.split_at(1); used(vec.len() + vec.capacity()); used(part); } // split measure
fn q46() { let mut vec = make(); let part = vec.split_at(1); vec.clear(); used(part); } // split clear
fn q47() { let mut vec = make(); let part = vec.split_at(1); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // split reserve
fn q48() { let mut vec = make(); let part = vec.split_at(1); used(vec.into_inner()); used(part); } // split into_inner
fn q49() { let mut vec = make(); let part = vec.split_at(1); used(vec.to_vec()); used(part); } // split to_vec
fn q50() { let mut vec = make(); let part = vec.split_at(1); used(vec.into_iter()); used(part); } // split into_iter
fn q51() { let mut vec = make(); let part = vec.split_at(1); used(drop(vec)); used(part); } // split drop
fn q52() { let mut vec = make(); let part = vec.split_at(1); vec = make(); used(part); } // split assign
fn q53() { let mut vec = make(); let part = vec.split_at(1); used(core::mem::replace(&mut vec, make())); used(part); } // split replace
fn q54() { let mut vec = make(); let part = vec.split_at(1); used(core::mem::swap(&mut vec, &mut make())); used(part); } // split swap_vec
fn q55() { let mut vec = make(); let part = vec.split_at(1); used(keep(vec)); used(part); } // split move_
fn q56() { let part; { let vec = make(); part = keep(vec.split_at(1)); } used(part); } // split end
fn q57() { let mut vec = make(); let part = vec.split_first(); used(vec.push(t())); used(part); } // first push
fn q58() { let mut vec = make(); let part = vec.split_first(); used(vec.extend([t(), t()])); used(part); } // first extend
fn q59() { let mut vec = make(); let part = vec.split_first(); used(vec.get_cloned(0)); used(part); } // first get
fn q60() { let mut vec = make(); let part = vec.split_first(); used(vec[0].set(t())); used(part); } // first set
fn q61() { let mut vec = make(); let part = vec.split_first(); used(vec.swap(0, 1)); used(part); } // first swap
fn q62() { let mut vec = make(); let part = vec.split_first(); used(vec.fill(t())); used(part); } // first fill
fn q63() { let mut vec = make(); let part = vec.split_first(); used(vec == vec); used(part); } // first equal
fn q64() { let mut vec = make(); let part = vec.split_first(); used(vec.len() + vec.capacity()); used(part); } // first measure
fn q65() { let mut vec = make(); let part = vec.split_first(); vec.clear(); used(part); } // first clear
fn q66() { let mut vec = make(); let part = vec.split_first(); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // first reserve
fn q67() { let mut vec = make(); let part = vec.split_first(); used(vec.into_inner()); used(part); } // first into_inner
fn q68() { let mut vec = make(); let part = vec.split_first(); used(vec.to_vec()); used(part); } // first to_vec
fn q69() { let mut vec = make(); let part = vec.split_first(); used(vec.into_iter()); used(part); } // first into_iter
fn q70() { let mut vec = make(); let part = vec.split_first(); used(drop(vec)); used(part); } // first drop
fn q71() { let mut vec = make(); let part = vec.split_first(); vec = make(); used(part); } // first assign
fn q72() { let mut vec = make(); let part = vec.split_first(); used(core::mem::replace(&mut vec, make())); used(part); } // first replace
fn q73() { let mut vec = make(); let part = vec.split_first(); used(core::mem::swap(&mut vec, &mut make())); used(part); } // first swap_vec
fn q74() { let mut vec = make(); let part = vec.split_first(); used(keep(vec)); used(part); } // first move_
fn q75() { let part; { let vec = make(); part = keep(vec.split_first()); } used(part); } // first end
fn q76() { let mut vec = make(); let part = vec.split_last(); used(vec.push(t())); used(part); } // last push
fn q77() { let mut vec = make(); let part = vec.split_last(); used(vec.extend([t(), t()])); used(part); } // last extend
fn q78() { let mut vec = make(); let part = vec.split_last(); used(vec.get_cloned(0)); used(part); } // last get
fn q79() { let mut vec = make(); let part = vec.split_last(); used(vec[0].set(t())); used(part); } // last set
fn q80() { let mut vec = make(); let part = vec.split_last(); used(vec.swap(0, 1)); used(part); } // last swap
fn q81() { let mut vec = make(); let part = vec.split_last(); used(vec.fill(t())); used(part); } // last fill
fn q82() { let mut vec = make(); let part = vec.split_last(); used(vec == vec); used(part); } // last equal
fn q83() { let mut vec = make(); let part = vec.split_last(); used(vec.len() + vec.capacity()); used(part); } // last measure
fn q84() { let mut vec = make(); let part = vec.split_last(); vec.clear(); used(part); } // last clear
fn q85() { let mut vec = make(); let part = vec.split_last(); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // last reserve
fn q86() { let mut vec = make(); let part = vec.split_last(); used(vec.into_inner()); used(part); } // last into_inner
fn q87() { let mut vec = make(); let part = vec.split_last(); used(vec.to_vec()); used(part); } // last to_vec
fn q88() { let mut vec = make(); let part = vec.split_last(); used(vec.into_iter()); used(part); } // last into_iter
fn q89() { let mut vec = make(); let part = vec.split_last(); used(drop(vec)); used(part); } // last drop
fn q90() { let mut vec = make(); let part = vec.split_last(); vec = make(); used(part); } // last assign
fn q91() { let mut vec = make(); let part = vec.split_last(); used(core::mem::replace(&mut vec, make())); used(part); } // last replace
fn q92() { let mut vec = make(); let part = vec.split_last(); used(core::mem::swap(&mut vec, &mut make())); used(part); } // last swap_vec
fn q93() { let mut vec = make(); let part = vec.split_last(); used(keep(vec)); used(part); } // last move_
fn q94() { let part; { let vec = make(); part = keep(vec.split_last()); } used(part); } // last end
fn q95() { let mut vec = make(); let part = vec.chunks(1); used(vec.push(t())); used(part); } // chunks push
fn q96() { let mut vec = make(); let part = vec.chunks(1); used(vec.extend([t(), t()])); used(part); } // chunks extend
fn q97() { let mut vec = make(); let part = vec.chunks(1); used(vec.get_cloned(0)); used(part); } // chunks get
fn q98() { let mut vec = make(); let part = vec.chunks(1); used(vec[0].set(t())); used(part); } // chunks set
fn q99() { let mut vec = make(); let part = vec.chunks(1); used(vec.swap(0, 1)); used(part); } // chunks swap
fn q100() { let mut vec = make(); let part = vec.chunks(1); used(vec.fill(t())); used(part); } // chunks fill
fn q101() { let mut vec = make(); let part = vec.chunks(1); used(vec == vec); used(part); } // chunks equal
fn q102() { let mut vec = make(); let part = vec.chunks(1); used(vec.len() + vec.capacity()); used(part); } // chunks measure
fn q103() { let mut vec = make(); let part = vec.chunks(1); vec.clear(); used(part); } // chunks clear
fn q104() { let mut vec = make(); let part = vec.chunks(1); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // chunks reserve
fn q105() { let mut vec = make(); let part = vec.chunks(1); used(vec.into_inner()); used(part); } // chunks into_inner
fn q106() { let mut vec = make(); let part = vec.chunks(1); used(vec.to_vec()); used(part); } // chunks to_vec
fn q107() { let mut vec = make(); let part = vec.chunks(1); used(vec.into_iter()); used(part); } // chunks into_iter
fn q108() { let mut vec = make(); let part = vec.chunks(1); used(drop(vec)); used(part); } // chunks drop
fn q109() { let mut vec = make(); let part = vec.chunks(1); vec = make(); used(part); } // chunks assign
fn q110() { let mut vec = make(); let part = vec.chunks(1); used(core::mem::replace(&mut vec, make())); used(part); } // chunks replace
fn q111() { let mut vec = make(); let part = vec.chunks(1); used(core::mem::swap(&mut vec, &mut make())); used(part); } // chunks swap_vec
fn q112() { let mut vec = make(); let part = vec.chunks(1); used(keep(vec)); used(part); } // chunks move_
fn q113() { let part; { let vec = make(); part = keep(vec.chunks(1)); } used(part); } // chunks end
fn q114() { let mut vec = make(); let part = vec.get(0); used(vec.push(t())); used(part); } // elem push
fn q115() { let mut vec = make(); let part = vec.get(0); used(vec.extend([t(), t()])); used(part); } // elem extend
fn q116() { let mut vec = make(); let part = vec.get(0); used(vec.get_cloned(0)); used(part); } // elem get
fn q117() { let mut vec = make(); let part = vec.get(0); used(vec[0].set(t())); used(part); } // elem set
fn q118() { let mut vec = make(); let part = vec.get(0); used(vec.swap(0, 1)); used(part); } // elem swap
fn q119() { let mut vec = make(); let part = vec.get(0); used(vec.fill(t())); used(part); } // elem fill
fn q120() { let mut vec = make(); let part = vec.get(0); used(vec == vec); used(part); } // elem equal
fn q121() { let mut vec = make(); let part = vec.get(0); used(vec.len() + vec.capacity()); used(part); } // elem measure
fn q122() { let mut vec = make(); let part = vec.get(0); vec.clear(); used(part); } // elem clear
fn q123() { let mut vec = make(); let part = vec.get(0); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // elem reserve
fn q124() { let mut vec = make(); let part = vec.get(0); used(vec.into_inner()); used(part); } // elem into_inner
fn q125() { let mut vec = make(); let part = vec.get(0); used(vec.to_vec()); used(part); } // elem to_vec
fn q126() { let mut vec = make(); let part = vec.get(0); used(vec.into_iter()); used(part); } // elem into_iter
fn q127() { let mut vec = make(); let part = vec.get(0); used(drop(vec)); used(part); } // elem drop
fn q128() { let mut vec = make(); let part = vec.get(0); vec = make(); used(part); } // elem assign
fn q129() { let mut vec = make(); let part = vec.get(0); used(core::mem::replace(&mut vec, make())); used(part); } // elem replace
fn q130() { let mut vec = make(); let part = vec.get(0); used(core::mem::swap(&mut vec, &mut make())); used(part); } // elem swap_vec
fn q131() { let mut vec = make(); let part = vec.get(0); used(keep(vec)); used(part); } // elem move_
fn q132() { let part; { let vec = make(); part = keep(vec.get(0)); } used(part); } // elem end
fn q133() { let mut vec = make(); let part = &vec[0]; used(vec.push(t())); used(part); } // index push
fn q134() { let mut vec = make(); let part = &vec[0]; used(vec.extend([t(), t()])); used(part); } // index extend
fn q135() { let mut vec = make(); let part = &vec[0]; used(vec.get_cloned(0)); used(part); } // index get
fn q136() { let mut vec = make(); let part = &vec[0]; used(vec[0].set(t())); used(part); } // index set
fn q137() { let mut vec = make(); let part = &vec[0]; used(vec.swap(0, 1)); used(part); } // index swap
fn q138() { let mut vec = make(); let part = &vec[0]; used(vec.fill(t())); used(part); } // index fill
fn q139() { let mut vec = make(); let part = &vec[0]; used(vec == vec); used(part); } // index equal
fn q140() { let mut vec = make(); let part = &vec[0]; used(vec.len() + vec.capacity()); used(part); } // index measure
fn q141() { let mut vec = make(); let part = &vec[0]; vec.clear(); used(part); } // index clear
fn q142() { let mut vec = make(); let part = &vec[0]; used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // index reserve
fn q143() { let mut vec = make(); let part = &vec[0]; used(vec.into_inner()); used(part); } // index into_inner
fn q144() { let mut vec = make(); let part = &vec[0]; used(vec.to_vec()); used(part); } // index to_vec
fn q145() { let mut vec = make(); let part = &vec[0]; used(vec.into_iter()); used(part); } // index into_iter
fn q146() { let mut vec = make(); let part = &vec[0]; used(drop(vec)); used(part); } // index drop
fn q147() { let mut vec = make(); let part = &vec[0]; vec = make(); used(part); } // index assign
fn q148() { let mut vec = make(); let part = &vec[0]; used(core::mem::replace(&mut vec, make())); used(part); } // index replace
fn q149() { let mut vec = make(); let part = &vec[0]; used(core::mem::swap(&mut vec, &mut make())); used(part); } // index swap_vec
fn q150() { let mut vec = make(); let part = &vec[0]; used(keep(vec)); used(part); } // index move_
fn q151() { let part; { let vec = make(); part = keep(&vec[0]); } used(part); } // index end
fn q152() { let mut vec = make(); let part = vec.iter(); used(vec.push(t())); used(part); } // iter push
fn q153() { let mut vec = make(); let part = vec.iter(); used(vec.extend([t(), t()])); used(part); } // iter extend
fn q154() { let mut vec = make(); let part = vec.iter(); used(vec.get_cloned(0)); used(part); } // iter get
fn q155() { let mut vec = make(); let part = vec.iter(); used(vec[0].set(t())); used(part); } // iter set
fn q156() { let mut vec = make(); let part = vec.iter(); used(vec.swap(0, 1)); used(part); } // iter swap
fn q157() { let mut vec = make(); let part = vec.iter(); used(vec.fill(t())); used(part); } // iter fill
fn q158() { let mut vec = make(); let part = vec.iter(); used(vec == vec); used(part); } // iter equal
fn q159() { let mut vec = make(); let part = vec.iter(); used(vec.len() + vec.capacity()); used(part); } // iter measure
fn q160() { let mut vec = make(); let part = vec.iter(); vec.clear(); used(part); } // iter clear
fn q161() { let mut vec = make(); let part = vec.iter(); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // iter reserve
fn q162() { let mut vec = make(); let part = vec.iter(); used(vec.into_inner()); used(part); } // iter into_inner
fn q163() { let mut vec = make(); let part = vec.iter(); used(vec.to_vec()); used(part); } // iter to_vec
fn q164() { let mut vec = make(); let part = vec.iter(); used(vec.into_iter()); used(part); } // iter into_iter
fn q165() { let mut vec = make(); let part = vec.iter(); used(drop(vec)); used(part); } // iter drop
fn q166() { let mut vec = make(); let part = vec.iter(); vec = make(); used(part); } // iter assign
fn q167() { let mut vec = make(); let part = vec.iter(); used(core::mem::replace(&mut vec, make())); used(part); } // iter replace
fn q168() { let mut vec = make(); let part = vec.iter(); used(core::mem::swap(&mut vec, &mut make())); used(part); } // iter swap_vec
fn q169() { let mut vec = make(); let part = vec.iter(); used(keep(vec)); used(part); } // iter move_
fn q170() { let part; { let vec = make(); part = keep(vec.iter()); } used(part); } // iter end
fn q171() { let mut vec = make(); let part = vec.iter_cloned(); used(vec.push(t())); used(part); } // iter_cloned push
fn q172() { let mut vec = make(); let part = vec.iter_cloned(); used(vec.extend([t(), t()])); used(part); } // iter_cloned extend
fn q173() { let mut vec = make(); let part = vec.iter_cloned(); used(vec.get_cloned(0)); used(part); } // iter_cloned get
fn q174() { let mut vec = make(); let part = vec.iter_cloned(); used(vec[0].set(t())); used(part); } // iter_cloned set
fn q175() { let mut vec = make(); let part = vec.iter_cloned(); used(vec.swap(0, 1)); used(part); } // iter_cloned swap
fn q176() { let mut vec = make(); let part = vec.iter_cloned(); used(vec.fill(t())); used(part); } // iter_cloned fill
fn q177() { let mut vec = make(); let part = vec.iter_cloned(); used(vec == vec); used(part); } // iter_cloned equal
fn q178() { let mut vec = make(); let part = vec.iter_cloned(); used(vec.len() + vec.capacity()); used(part); } // iter_cloned measure
fn q179() { let mut vec = make(); let part = vec.iter_cloned(); vec.clear(); used(part); } // iter_cloned clear
fn q180() { let mut vec = make(); let part = vec.iter_cloned(); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // iter_cloned reserve
fn q181() { let mut vec = make(); let part = vec.iter_cloned(); used(vec.into_inner()); used(part); } // iter_cloned into_inner
fn q182() { let mut vec = make(); let part = vec.iter_cloned(); used(vec.to_vec()); used(part); } // iter_cloned to_vec
fn q183() { let mut vec = make(); let part = vec.iter_cloned(); used(vec.into_iter()); used(part); } // iter_cloned into_iter
fn q184() { let mut vec = make(); let part = vec.iter_cloned(); used(drop(vec)); used(part); } // iter_cloned drop
fn q185() { let mut vec = make(); let part = vec.iter_cloned(); vec = make(); used(part); } // iter_cloned assign
fn q186() { let mut vec = make(); let part = vec.iter_cloned(); used(core::mem::replace(&mut vec, make())); used(part); } // iter_cloned replace
fn q187() { let mut vec = make(); let part = vec.iter_cloned(); used(core::mem::swap(&mut vec, &mut make())); used(part); } // iter_cloned swap_vec
fn q188() { let mut vec = make(); let part = vec.iter_cloned(); used(keep(vec)); used(part); } // iter_cloned move_
fn q189() { let part; { let vec = make(); part = keep(vec.iter_cloned()); } used(part); } // iter_cloned end
fn q190() { let mut vec = make(); let part = vec.map(|x: &String| x.len()); used(vec.push(t())); used(part); } // map push
fn q191() { let mut vec = make(); let part = vec.map(|x: &String| x.len()); used(vec.extend([t(), t()])); used(part); } // map extend
fn q192() { let mut vec = make(); let part = vec.map(|x: &String| x.len()); used(vec.get_cloned(0)); used(part); } // map get
fn q193() { let mut vec = make(); let part = vec.map(|x: &String| x.len()); used(vec[0].set(t())); used(part); } // map set
fn q194() { let mut vec = make(); let part = vec.map(|x: &String| x.len()); used(vec.swap(0, 1)); used(part); } // map swap
fn q195() { let mut vec = make(); let part = vec.map(|x: &String| x.len()); used(vec.fill(t())); used(part); } // map fill
fn q196() { let mut vec = make(); let part = vec.map(|x: &String| x.len()); used(vec == vec); used(part); } // map equal
fn q197() { let mut vec = make(); let part = vec.map(|x: &String| x.len()); used(vec.len() + vec.capacity()); used(part); } // map measure
fn q198() { let mut vec = make(); let part = vec.map(|x: &String| x.len()); vec.clear(); used(part); } // map clear
fn q199() { let mut vec = make(); let part = vec.map(|x: &String| x.len()); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // map reserve
fn q200() { let mut vec = make(); let part = vec.map(|x: &String| x.len()); used(vec.into_inner()); used(part); } // map into_inner
fn q201() { let mut vec = make(); let part = vec.map(|x: &String| x.len()); used(vec.to_vec()); used(part); } // map to_vec
fn q202() { let mut vec = make(); let part = vec.map(|x: &String| x.len()); used(vec.into_iter()); used(part); } // map into_iter
fn q203() { let mut vec = make(); let part = vec.map(|x: &String| x.len()); used(drop(vec)); used(part); } // map drop
fn q204() { let mut vec = make(); let part = vec.map(|x: &String| x.len()); vec = make(); used(part); } // map assign
fn q205() { let mut vec = make(); let part = vec.map(|x: &String| x.len()); used(core::mem::replace(&mut vec, make())); used(part); } // map replace
fn q206() { let mut vec = make(); let part = vec.map(|x: &String| x.len()); used(core::mem::swap(&mut vec, &mut make())); used(part); } // map swap_vec
fn q207() { let mut vec = make(); let part = vec.map(|x: &String| x.len()); used(keep(vec)); used(part); } // map move_
fn q208() { let part; { let vec = make(); part = keep(vec.map(|x: &String| x.len())); } used(part); } // map end
fn q209() { let mut vec = make(); let part = vec.filter(|x: &String| x.len() > 1); used(vec.push(t())); used(part); } // filter push
fn q210() { let mut vec = make(); let part = vec.filter(|x: &String| x.len() > 1); used(vec.extend([t(), t()])); used(part); } // filter extend
fn q211() { let mut vec = make(); let part = vec.filter(|x: &String| x.len() > 1); used(vec.get_cloned(0)); used(part); } // filter get
fn q212() { let mut vec = make(); let part = vec.filter(|x: &String| x.len() > 1); used(vec[0].set(t())); used(part); } // filter set
fn q213() { let mut vec = make(); let part = vec.filter(|x: &String| x.len() > 1); used(vec.swap(0, 1)); used(part); } // filter swap
fn q214() { let mut vec = make(); let part = vec.filter(|x: &String| x.len() > 1); used(vec.fill(t())); used(part); } // filter fill
fn q215() { let mut vec = make(); let part = vec.filter(|x: &String| x.len() > 1); used(vec == vec); used(part); } // filter equal
fn q216() { let mut vec = make(); let part = vec.filter(|x: &String| x.len() > 1); used(vec.len() + vec.capacity()); used(part); } // filter measure
fn q217() { let mut vec = make(); let part = vec.filter(|x: &String| x.len() > 1); vec.clear(); used(part); } // filter clear
fn q218() { let mut vec = make(); let part = vec.filter(|x: &String| x.len() > 1); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // filter reserve
fn q219() { let mut vec = make(); let part = vec.filter(|x: &String| x.len() > 1); used(vec.into_inner()); used(part); } // filter into_inner
fn q220() { let mut vec = make(); let part = vec.filter(|x: &String| x.len() > 1); used(vec.to_vec()); used(part); } // filter to_vec
fn q221() { let mut vec = make(); let part = vec.filter(|x: &String| x.len() > 1); used(vec.into_iter()); used(part); } // filter into_iter
fn q222() { let mut vec = make(); let part = vec.filter(|x: &String| x.len() > 1); used(drop(vec)); used(part); } // filter drop
fn q223() { let mut vec = make(); let part = vec.filter(|x: &String| x.len() > 1); vec = make(); used(part); } // filter assign
fn q224() { let mut vec = make(); let part = vec.filter(|x: &String| x.len() > 1); used(core::mem::replace(&mut vec, make())); used(part); } // filter replace
fn q225() { let mut vec = make(); let part = vec.filter(|x: &String| x.len() > 1); used(core::mem::swap(&mut vec, &mut make())); used(part); } // filter swap_vec
fn q226() { let mut vec = make(); let part = vec.filter(|x: &String| x.len() > 1); used(keep(vec)); used(part); } // filter move_
fn q227() { let part; { let vec = make(); part = keep(vec.filter(|x: &String| x.len() > 1)); } used(part); } // filter end
fn q228() { let mut vec = make(); let part = unsafe { vec.get_ref(0) }; used(vec.push(t())); used(part); } // ref push
fn q229() { let mut vec = make(); let part = unsafe { vec.get_ref(0) }; used(vec.extend([t(), t()])); used(part); } // ref extend
fn q230() { let mut vec = make(); let part = unsafe { vec.get_ref(0) }; used(vec.get_cloned(0)); used(part); } // ref get
fn q231() { let mut vec = make(); let part = unsafe { vec.get_ref(0) }; used(vec[0].set(t())); used(part); } // ref set
fn q232() { let mut vec = make(); let part = unsafe { vec.get_ref(0) }; used(vec.swap(0, 1)); used(part); } // ref swap
fn q233() { let mut vec = make(); let part = unsafe { vec.get_ref(0) }; used(vec.fill(t())); used(part); } // ref fill
fn q234() { let mut vec = make(); let part = unsafe { vec.get_ref(0) }; used(vec == vec); used(part); } // ref equal
fn q235() { let mut vec = make(); let part = unsafe { vec.get_ref(0) }; used(vec.len() + vec.capacity()); used(part); } // ref measure
fn q236() { let mut vec = make(); let part = unsafe { vec.get_ref(0) }; vec.clear(); used(part); } // ref clear
fn q237() { let mut vec = make(); let part = unsafe { vec.get_ref(0) }; used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // ref reserve
fn q238() { let mut vec = make(); let part = unsafe { vec.get_ref(0) }; used(vec.into_inner()); used(part); } // ref into_inner
fn q239() { let mut vec = make(); let part = unsafe { vec.get_ref(0) }; used(vec.to_vec()); used(part); } // ref to_vec
fn q240() { let mut vec = make(); let part = unsafe { vec.get_ref(0) }; used(vec.into_iter()); used(part); } // ref into_iter
fn q241() { let mut vec = make(); let part = unsafe { vec.get_ref(0) }; used(drop(vec)); used(part); } // ref drop
fn q242() { let mut vec = make(); let part = unsafe { vec.get_ref(0) }; vec = make(); used(part); } // ref assign
fn q243() { let mut vec = make(); let part = unsafe { vec.get_ref(0) }; used(core::mem::replace(&mut vec, make())); used(part); } // ref replace
fn q244() { let mut vec = make(); let part = unsafe { vec.get_ref(0) }; used(core::mem::swap(&mut vec, &mut make())); used(part); } // ref swap_vec
fn q245() { let mut vec = make(); let part = unsafe { vec.get_ref(0) }; used(keep(vec)); used(part); } // ref move_
fn q246() { let part; { let vec = make(); part = keep(unsafe { vec.get_ref(0) }); } used(part); } // ref end
fn q247() { let mut vec = make(); let part = unsafe { vec.get_mut(0) }; used(vec.push(t())); used(part); } // mut push
fn q248() { let mut vec = make(); let part = unsafe { vec.get_mut(0) }; used(vec.extend([t(), t()])); used(part); } // mut extend
fn q249() { let mut vec = make(); let part = unsafe { vec.get_mut(0) }; used(vec.get_cloned(0)); used(part); } // mut get
fn q250() { let mut vec = make(); let part = unsafe { vec.get_mut(0) }; used(vec[0].set(t())); used(part); } // mut set
fn q251() { let mut vec = make(); let part = unsafe { vec.get_mut(0) }; used(vec.swap(0, 1)); used(part); } // mut swap
fn q252() { let mut vec = make(); let part = unsafe { vec.get_mut(0) }; used(vec.fill(t())); used(part); } // mut fill
fn q253() { let mut vec = make(); let part = unsafe { vec.get_mut(0) }; used(vec == vec); used(part); } // mut equal
fn q254() { let mut vec = make(); let part = unsafe { vec.get_mut(0) }; used(vec.len() + vec.capacity()); used(part); } // mut measure
fn q255() { let mut vec = make(); let part = unsafe { vec.get_mut(0) }; vec.clear(); used(part); } // mut clear
fn q256() { let mut vec = make(); let part = unsafe { vec.get_mut(0) }; used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // mut reserve
fn q257() { let mut vec = make(); let part = unsafe { vec.get_mut(0) }; used(vec.into_inner()); used(part); } // mut into_inner
fn q258() { let mut vec = make(); let part = unsafe { vec.get_mut(0) }; used(vec.to_vec()); used(part); } // mut to_vec
fn q259() { let mut vec = make(); let part = unsafe { vec.get_mut(0) }; used(vec.into_iter()); used(part); } // mut into_iter
fn q260() { let mut vec = make(); let part = unsafe { vec.get_mut(0) }; used(drop(vec)); used(part); } // mut drop
fn q261() { let mut vec = make(); let part = unsafe { vec.get_mut(0) }; vec = make(); used(part); } // mut assign
fn q262() { let mut vec = make(); let part = unsafe { vec.get_mut(0) }; used(core::mem::replace(&mut vec, make())); used(part); } // mut replace
fn q263() { let mut vec = make(); let part = unsafe { vec.get_mut(0) }; used(core::mem::swap(&mut vec, &mut make())); used(part); } // mut swap_vec
fn q264() { let mut vec = make(); let part = unsafe { vec.get_mut(0) }; used(keep(vec)); used(part); } // mut move_
fn q265() { let part; { let vec = make(); part = keep(unsafe { vec.get_mut(0) }); } used(part); } // mut end
fn q266() { let mut vec = make(); let part = unsafe { vec.iter_ref() }; used(vec.push(t())); used(part); } // iter_ref push
fn q267() { let mut vec = make(); let part = unsafe { vec.iter_ref() }; used(vec.extend([t(), t()])); used(part); } // iter_ref extend
fn q268() { let mut vec = make(); let part = unsafe { vec.iter_ref() }; used(vec.get_cloned(0)); used(part); } // iter_ref get
fn q269() { let mut vec = make(); let part = unsafe { vec.iter_ref() }; used(vec[0].set(t())); used(part); } // iter_ref set
fn q270() { let mut vec = make(); let part = unsafe { vec.iter_ref() }; used(vec.swap(0, 1)); used(part); } // iter_ref swap
fn q271() { let mut vec = make(); let part = unsafe { vec.iter_ref() }; used(vec.fill(t())); used(part); } // iter_ref fill
fn q272() { let mut vec = make(); let part = unsafe { vec.iter_ref() }; used(vec == vec); used(part); } // iter_ref equal
fn q273() { let mut vec = make(); let part = unsafe { vec.iter_ref() }; used(vec.len() + vec.capacity()); used(part); } // iter_ref measure
fn q274() { let mut vec = make(); let part = unsafe { vec.iter_ref() }; vec.clear(); used(part); } // iter_ref clear
fn q275() { let mut vec = make(); let part = unsafe { vec.iter_ref() }; used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // iter_ref reserve
fn q276() { let mut vec = make(); let part = unsafe { vec.iter_ref() }; used(vec.into_inner()); used(part); } // iter_ref into_inner
fn q277() { let mut vec = make(); let part = unsafe { vec.iter_ref() }; used(vec.to_vec()); used(part); } // iter_ref to_vec
fn q278() { let mut vec = make(); let part = unsafe { vec.iter_ref() }; used(vec.into_iter()); used(part); } // iter_ref into_iter
fn q279() { let mut vec = make(); let part = unsafe { vec.iter_ref() }; used(drop(vec)); used(part); } // iter_ref drop
fn q280() { let mut vec = make(); let part = unsafe { vec.iter_ref() }; vec = make(); used(part); } // iter_ref assign
fn q281() { let mut vec = make(); let part = unsafe { vec.iter_ref() }; used(core::mem::replace(&mut vec, make())); used(part); } // iter_ref replace
fn q282() { let mut vec = make(); let part = unsafe { vec.iter_ref() }; used(core::mem::swap(&mut vec, &mut make())); used(part); } // iter_ref swap_vec
fn q283() { let mut vec = make(); let part = unsafe { vec.iter_ref() }; used(keep(vec)); used(part); } // iter_ref move_
fn q284() { let part; { let vec = make(); part = keep(unsafe { vec.iter_ref() }); } used(part); } // iter_ref end
fn q285() { let mut vec = make(); let part = unsafe { vec.iter_mut() }; used(vec.push(t())); used(part); } // iter_mut push
fn q286() { let mut vec = make(); let part = unsafe { vec.iter_mut() }; used(vec.extend([t(), t()])); used(part); } // iter_mut extend
fn q287() { let mut vec = make(); let part = unsafe { vec.iter_mut() }; used(vec.get_cloned(0)); used(part); } // iter_mut get
fn q288() { let mut vec = make(); let part = unsafe { vec.iter_mut() }; used(vec[0].set(t())); used(part); } // iter_mut set
fn q289() { let mut vec = make(); let part = unsafe { vec.iter_mut() }; used(vec.swap(0, 1)); used(part); } // iter_mut swap
fn q290() { let mut vec = make(); let part = unsafe { vec.iter_mut() }; used(vec.fill(t())); used(part); } // iter_mut fill
fn q291() { let mut vec = make(); let part = unsafe { vec.iter_mut() }; used(vec == vec); used(part); } // iter_mut equal
fn q292() { let mut vec = make(); let part = unsafe { vec.iter_mut() }; used(vec.len() + vec.capacity()); used(part); } // iter_mut measure
fn q293() { let mut vec = make(); let part = unsafe { vec.iter_mut() }; vec.clear(); used(part); } // iter_mut clear
fn q294() { let mut vec = make(); let part = unsafe { vec.iter_mut() }; used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // iter_mut reserve
fn q295() { let mut vec = make(); let part = unsafe { vec.iter_mut() }; used(vec.into_inner()); used(part); } // iter_mut into_inner
fn q296() { let mut vec = make(); let part = unsafe { vec.iter_mut() }; used(vec.to_vec()); used(part); } // iter_mut to_vec
fn q297() { let mut vec = make(); let part = unsafe { vec.iter_mut() }; used(vec.into_iter()); used(part); } // iter_mut into_iter
fn q298() { let mut vec = make(); let part = unsafe { vec.iter_mut() }; used(drop(vec)); used(part); } // iter_mut drop
fn q299() { let mut vec = make(); let part = unsafe { vec.iter_mut() }; vec = make(); used(part); } // iter_mut assign
fn q300() { let mut vec = make(); let part = unsafe { vec.iter_mut() }; used(core::mem::replace(&mut vec, make())); used(part); } // iter_mut replace
fn q301() { let mut vec = make(); let part = unsafe { vec.iter_mut() }; used(core::mem::swap(&mut vec, &mut make())); used(part); } // iter_mut swap_vec
fn q302() { let mut vec = make(); let part = unsafe { vec.iter_mut() }; used(keep(vec)); used(part); } // iter_mut move_
fn q303() { let part; { let vec = make(); part = keep(unsafe { vec.iter_mut() }); } used(part); } // iter_mut end
fn q304() { let mut vec = make(); let part = &vec; used(vec.push(t())); used(part); } // vec push
fn q305() { let mut vec = make(); let part = &vec; used(vec.extend([t(), t()])); used(part); } // vec extend
fn q306() { let mut vec = make(); let part = &vec; used(vec.get_cloned(0)); used(part); } // vec get
fn q307() { let mut vec = make(); let part = &vec; used(vec[0].set(t())); used(part); } // vec set
fn q308() { let mut vec = make(); let part = &vec; used(vec.swap(0, 1)); used(part); } // vec swap
fn q309() { let mut vec = make(); let part = &vec; used(vec.fill(t())); used(part); } // vec fill
fn q310() { let mut vec = make(); let part = &vec; used(vec == vec); used(part); } // vec equal
fn q311() { let mut vec = make(); let part = &vec; used(vec.len() + vec.capacity()); used(part); } // vec measure
fn q312() { let mut vec = make(); let part = &vec; vec.clear(); used(part); } // vec clear
fn q313() { let mut vec = make(); let part = &vec; used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // vec reserve
fn q314() { let mut vec = make(); let part = &vec; used(vec.into_inner()); used(part); } // vec into_inner
fn q315() { let mut vec = make(); let part = &vec; used(vec.to_vec()); used(part); } // vec to_vec
fn q316() { let mut vec = make(); let part = &vec; used(vec.into_iter()); used(part); } // vec into_iter
fn q317() { let mut vec = make(); let part = &vec; used(drop(vec)); used(part); } // vec drop
fn q318() { let mut vec = make(); let part = &vec; vec = make(); used(part); } // vec assign
fn q319() { let mut vec = make(); let part = &vec; used(core::mem::replace(&mut vec, make())); used(part); } // vec replace
fn q320() { let mut vec = make(); let part = &vec; used(core::mem::swap(&mut vec, &mut make())); used(part); } // vec swap_vec
fn q321() { let mut vec = make(); let part = &vec; used(keep(vec)); used(part); } // vec move_
fn q322() { let part; { let vec = make(); part = keep(&vec); } used(part); } // vec end
fn q323() { let mut vec = make(); let s = vec.as_slice(); let part = s.slice(0..1); used(vec.push(t())); used(part); } // s_slice push
fn q324() { let mut vec = make(); let s = vec.as_slice(); let part = s.slice(0..1); used(vec.extend([t(), t()])); used(part); } // s_slice extend
fn q325() { let mut vec = make(); let s = vec.as_slice(); let part = s.slice(0..1); used(vec.get_cloned(0)); used(part); } // s_slice get
fn q326() { let mut vec = make(); let s = vec.as_slice(); let part = s.slice(0..1); used(vec[0].set(t())); used(part); } // s_slice set
fn q327() { let mut vec = make(); let s = vec.as_slice(); let part = s.slice(0..1); used(vec.swap(0, 1)); used(part); } // s_slice swap
fn q328() { let mut vec = make(); let s = vec.as_slice(); let part = s.slice(0..1); used(vec.fill(t())); used(part); } // s_slice fill
fn q329() { let mut vec = make(); let s = vec.as_slice(); let part = s.slice(0..1); used(vec == vec); used(part); } // s_slice equal
fn q330() { let mut vec = make(); let s = vec.as_slice(); let part = s.slice(0..1); used(vec.len() + vec.capacity()); used(part); } // s_slice measure
fn q331() { let mut vec = make(); let s = vec.as_slice(); let part = s.slice(0..1); vec.clear(); used(part); } // s_slice clear
fn q332() { let mut vec = make(); let s = vec.as_slice(); let part = s.slice(0..1); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // s_slice reserve
fn q333() { let mut vec = make(); let s = vec.as_slice(); let part = s.slice(0..1); used(vec.into_inner()); used(part); } // s_slice into_inner
fn q334() { let mut vec = make(); let s = vec.as_slice(); let part = s.slice(0..1); used(vec.to_vec()); used(part); } // s_slice to_vec
fn q335() { let mut vec = make(); let s = vec.as_slice(); let part = s.slice(0..1); used(vec.into_iter()); used(part); } // s_slice into_iter
fn q336() { let mut vec = make(); let s = vec.as_slice(); let part = s.slice(0..1); used(drop(vec)); used(part); } // s_slice drop
fn q337() { let mut vec = make(); let s = vec.as_slice(); let part = s.slice(0..1); vec = make(); used(part); } // s_slice assign
fn q338() { let mut vec = make(); let s = vec.as_slice(); let part = s.slice(0..1); used(core::mem::replace(&mut vec, make())); used(part); } // s_slice replace
fn q339() { let mut vec = make(); let s = vec.as_slice(); let part = s.slice(0..1); used(core::mem::swap(&mut vec, &mut make())); used(part); } // s_slice swap_vec
fn q340() { let mut vec = make(); let s = vec.as_slice(); let part = s.slice(0..1); used(keep(vec)); used(part); } // s_slice move_
fn q341() { let part; { let vec = make(); let s = vec.as_slice(); part = keep(s.slice(0..1)); } used(part); } // s_slice end
fn q342() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_at(1); used(vec.push(t())); used(part); } // s_split push
fn q343() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_at(1); used(vec.extend([t(), t()])); used(part); } // s_split extend
fn q344() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_at(1); used(vec.get_cloned(0)); used(part); } // s_split get
fn q345() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_at(1); used(vec[0].set(t())); used(part); } // s_split set
fn q346() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_at(1); used(vec.swap(0, 1)); used(part); } // s_split swap
fn q347() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_at(1); used(vec.fill(t())); used(part); } // s_split fill
fn q348() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_at(1); used(vec == vec); used(part); } // s_split equal
fn q349() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_at(1); used(vec.len() + vec.capacity()); used(part); } // s_split measure
fn q350() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_at(1); vec.clear(); used(part); } // s_split clear
fn q351() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_at(1); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // s_split reserve
fn q352() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_at(1); used(vec.into_inner()); used(part); } // s_split into_inner
fn q353() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_at(1); used(vec.to_vec()); used(part); } // s_split to_vec
fn q354() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_at(1); used(vec.into_iter()); used(part); } // s_split into_iter
fn q355() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_at(1); used(drop(vec)); used(part); } // s_split drop
fn q356() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_at(1); vec = make(); used(part); } // s_split assign
fn q357() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_at(1); used(core::mem::replace(&mut vec, make())); used(part); } // s_split replace
fn q358() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_at(1); used(core::mem::swap(&mut vec, &mut make())); used(part); } // s_split swap_vec
fn q359() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_at(1); used(keep(vec)); used(part); } // s_split move_
fn q360() { let part; { let vec = make(); let s = vec.as_slice(); part = keep(s.split_at(1)); } used(part); } // s_split end
fn q361() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_first(); used(vec.push(t())); used(part); } // s_first push
fn q362() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_first(); used(vec.extend([t(), t()])); used(part); } // s_first extend
fn q363() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_first(); used(vec.get_cloned(0)); used(part); } // s_first get
fn q364() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_first(); used(vec[0].set(t())); used(part); } // s_first set
fn q365() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_first(); used(vec.swap(0, 1)); used(part); } // s_first swap
fn q366() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_first(); used(vec.fill(t())); used(part); } // s_first fill
fn q367() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_first(); used(vec == vec); used(part); } // s_first equal
fn q368() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_first(); used(vec.len() + vec.capacity()); used(part); } // s_first measure
fn q369() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_first(); vec.clear(); used(part); } // s_first clear
fn q370() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_first(); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // s_first reserve
fn q371() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_first(); used(vec.into_inner()); used(part); } // s_first into_inner
fn q372() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_first(); used(vec.to_vec()); used(part); } // s_first to_vec
fn q373() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_first(); used(vec.into_iter()); used(part); } // s_first into_iter
fn q374() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_first(); used(drop(vec)); used(part); } // s_first drop
fn q375() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_first(); vec = make(); used(part); } // s_first assign
fn q376() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_first(); used(core::mem::replace(&mut vec, make())); used(part); } // s_first replace
fn q377() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_first(); used(core::mem::swap(&mut vec, &mut make())); used(part); } // s_first swap_vec
fn q378() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_first(); used(keep(vec)); used(part); } // s_first move_
fn q379() { let part; { let vec = make(); let s = vec.as_slice(); part = keep(s.split_first()); } used(part); } // s_first end
fn q380() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_last(); used(vec.push(t())); used(part); } // s_last push
fn q381() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_last(); used(vec.extend([t(), t()])); used(part); } // s_last extend
fn q382() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_last(); used(vec.get_cloned(0)); used(part); } // s_last get
fn q383() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_last(); used(vec[0].set(t())); used(part); } // s_last set
fn q384() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_last(); used(vec.swap(0, 1)); used(part); } // s_last swap
fn q385() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_last(); used(vec.fill(t())); used(part); } // s_last fill
fn q386() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_last(); used(vec == vec); used(part); } // s_last equal
fn q387() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_last(); used(vec.len() + vec.capacity()); used(part); } // s_last measure
fn q388() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_last(); vec.clear(); used(part); } // s_last clear
fn q389() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_last(); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // s_last reserve
fn q390() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_last(); used(vec.into_inner()); used(part); } // s_last into_inner
fn q391() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_last(); used(vec.to_vec()); used(part); } // s_last to_vec
fn q392() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_last(); used(vec.into_iter()); used(part); } // s_last into_iter
fn q393() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_last(); used(drop(vec)); used(part); } // s_last drop
fn q394() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_last(); vec = make(); used(part); } // s_last assign
fn q395() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_last(); used(core::mem::replace(&mut vec, make())); used(part); } // s_last replace
fn q396() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_last(); used(core::mem::swap(&mut vec, &mut make())); used(part); } // s_last swap_vec
fn q397() { let mut vec = make(); let s = vec.as_slice(); let part = s.split_last(); used(keep(vec)); used(part); } // s_last move_
fn q398() { let part; { let vec = make(); let s = vec.as_slice(); part = keep(s.split_last()); } used(part); } // s_last end
fn q399() { let mut vec = make(); let s = vec.as_slice(); let part = s.chunks(1); used(vec.push(t())); used(part); } // s_chunks push
fn q400() { let mut vec = make(); let s = vec.as_slice(); let part = s.chunks(1); used(vec.extend([t(), t()])); used(part); } // s_chunks extend
fn q401() { let mut vec = make(); let s = vec.as_slice(); let part = s.chunks(1); used(vec.get_cloned(0)); used(part); } // s_chunks get
fn q402() { let mut vec = make(); let s = vec.as_slice(); let part = s.chunks(1); used(vec[0].set(t())); used(part); } // s_chunks set
fn q403() { let mut vec = make(); let s = vec.as_slice(); let part = s.chunks(1); used(vec.swap(0, 1)); used(part); } // s_chunks swap
fn q404() { let mut vec = make(); let s = vec.as_slice(); let part = s.chunks(1); used(vec.fill(t())); used(part); } // s_chunks fill
fn q405() { let mut vec = make(); let s = vec.as_slice(); let part = s.chunks(1); used(vec == vec); used(part); } // s_chunks equal
fn q406() { let mut vec = make(); let s = vec.as_slice(); let part = s.chunks(1); used(vec.len() + vec.capacity()); used(part); } // s_chunks measure
fn q407() { let mut vec = make(); let s = vec.as_slice(); let part = s.chunks(1); vec.clear(); used(part); } // s_chunks clear
fn q408() { let mut vec = make(); let s = vec.as_slice(); let part = s.chunks(1); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // s_chunks reserve
fn q409() { let mut vec = make(); let s = vec.as_slice(); let part = s.chunks(1); used(vec.into_inner()); used(part); } // s_chunks into_inner
fn q410() { let mut vec = make(); let s = vec.as_slice(); let part = s.chunks(1); used(vec.to_vec()); used(part); } // s_chunks to_vec
fn q411() { let mut vec = make(); let s = vec.as_slice(); let part = s.chunks(1); used(vec.into_iter()); used(part); } // s_chunks into_iter
fn q412() { let mut vec = make(); let s = vec.as_slice(); let part = s.chunks(1); used(drop(vec)); used(part); } // s_chunks drop
fn q413() { let mut vec = make(); let s = vec.as_slice(); let part = s.chunks(1); vec = make(); used(part); } // s_chunks assign
fn q414() { let mut vec = make(); let s = vec.as_slice(); let part = s.chunks(1); used(core::mem::replace(&mut vec, make())); used(part); } // s_chunks replace
fn q415() { let mut vec = make(); let s = vec.as_slice(); let part = s.chunks(1); used(core::mem::swap(&mut vec, &mut make())); used(part); } // s_chunks swap_vec
fn q416() { let mut vec = make(); let s = vec.as_slice(); let part = s.chunks(1); used(keep(vec)); used(part); } // s_chunks move_
fn q417() { let part; { let vec = make(); let s = vec.as_slice(); part = keep(s.chunks(1)); } used(part); } // s_chunks end
fn q418() { let mut vec = make(); let s = vec.as_slice(); let part = s.get(0); used(vec.push(t())); used(part); } // s_elem push
fn q419() { let mut vec = make(); let s = vec.as_slice(); let part = s.get(0); used(vec.extend([t(), t()])); used(part); } // s_elem extend
fn q420() { let mut vec = make(); let s = vec.as_slice(); let part = s.get(0); used(vec.get_cloned(0)); used(part); } // s_elem get
fn q421() { let mut vec = make(); let s = vec.as_slice(); let part = s.get(0); used(vec[0].set(t())); used(part); } // s_elem set
fn q422() { let mut vec = make(); let s = vec.as_slice(); let part = s.get(0); used(vec.swap(0, 1)); used(part); } // s_elem swap
fn q423() { let mut vec = make(); let s = vec.as_slice(); let part = s.get(0); used(vec.fill(t())); used(part); } // s_elem fill
fn q424() { let mut vec = make(); let s = vec.as_slice(); let part = s.get(0); used(vec == vec); used(part); } // s_elem equal
fn q425() { let mut vec = make(); let s = vec.as_slice(); let part = s.get(0); used(vec.len() + vec.capacity()); used(part); } // s_elem measure
fn q426() { let mut vec = make(); let s = vec.as_slice(); let part = s.get(0); vec.clear(); used(part); } // s_elem clear
fn q427() { let mut vec = make(); let s = vec.as_slice(); let part = s.get(0); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // s_elem reserve
fn q428() { let mut vec = make(); let s = vec.as_slice(); let part = s.get(0); used(vec.into_inner()); used(part); } // s_elem into_inner
fn q429() { let mut vec = make(); let s = vec.as_slice(); let part = s.get(0); used(vec.to_vec()); used(part); } // s_elem to_vec
fn q430() { let mut vec = make(); let s = vec.as_slice(); let part = s.get(0); used(vec.into_iter()); used(part); } // s_elem into_iter
fn q431() { let mut vec = make(); let s = vec.as_slice(); let part = s.get(0); used(drop(vec)); used(part); } // s_elem drop
fn q432() { let mut vec = make(); let s = vec.as_slice(); let part = s.get(0); vec = make(); used(part); } // s_elem assign
fn q433() { let mut vec = make(); let s = vec.as_slice(); let part = s.get(0); used(core::mem::replace(&mut vec, make())); used(part); } // s_elem replace
fn q434() { let mut vec = make(); let s = vec.as_slice(); let part = s.get(0); used(core::mem::swap(&mut vec, &mut make())); used(part); } // s_elem swap_vec
fn q435() { let mut vec = make(); let s = vec.as_slice(); let part = s.get(0); used(keep(vec)); used(part); } // s_elem move_
fn q436() { let part; { let vec = make(); let s = vec.as_slice(); part = keep(s.get(0)); } used(part); } // s_elem end
fn q437() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter(); used(vec.push(t())); used(part); } // s_iter push
fn q438() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter(); used(vec.extend([t(), t()])); used(part); } // s_iter extend
fn q439() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter(); used(vec.get_cloned(0)); used(part); } // s_iter get
fn q440() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter(); used(vec[0].set(t())); used(part); } // s_iter set
fn q441() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter(); used(vec.swap(0, 1)); used(part); } // s_iter swap
fn q442() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter(); used(vec.fill(t())); used(part); } // s_iter fill
fn q443() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter(); used(vec == vec); used(part); } // s_iter equal
fn q444() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter(); used(vec.len() + vec.capacity()); used(part); } // s_iter measure
fn q445() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter(); vec.clear(); used(part); } // s_iter clear
fn q446() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter(); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // s_iter reserve
fn q447() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter(); used(vec.into_inner()); used(part); } // s_iter into_inner
fn q448() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter(); used(vec.to_vec()); used(part); } // s_iter to_vec
fn q449() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter(); used(vec.into_iter()); used(part); } // s_iter into_iter
fn q450() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter(); used(drop(vec)); used(part); } // s_iter drop
fn q451() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter(); vec = make(); used(part); } // s_iter assign
fn q452() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter(); used(core::mem::replace(&mut vec, make())); used(part); } // s_iter replace
fn q453() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter(); used(core::mem::swap(&mut vec, &mut make())); used(part); } // s_iter swap_vec
fn q454() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter(); used(keep(vec)); used(part); } // s_iter move_
fn q455() { let part; { let vec = make(); let s = vec.as_slice(); part = keep(s.iter()); } used(part); } // s_iter end
fn q456() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter_cloned(); used(vec.push(t())); used(part); } // s_iter_cloned push
fn q457() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter_cloned(); used(vec.extend([t(), t()])); used(part); } // s_iter_cloned extend
fn q458() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter_cloned(); used(vec.get_cloned(0)); used(part); } // s_iter_cloned get
fn q459() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter_cloned(); used(vec[0].set(t())); used(part); } // s_iter_cloned set
fn q460() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter_cloned(); used(vec.swap(0, 1)); used(part); } // s_iter_cloned swap
fn q461() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter_cloned(); used(vec.fill(t())); used(part); } // s_iter_cloned fill
fn q462() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter_cloned(); used(vec == vec); used(part); } // s_iter_cloned equal
fn q463() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter_cloned(); used(vec.len() + vec.capacity()); used(part); } // s_iter_cloned measure
fn q464() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter_cloned(); vec.clear(); used(part); } // s_iter_cloned clear
fn q465() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter_cloned(); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // s_iter_cloned reserve
fn q466() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter_cloned(); used(vec.into_inner()); used(part); } // s_iter_cloned into_inner
fn q467() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter_cloned(); used(vec.to_vec()); used(part); } // s_iter_cloned to_vec
fn q468() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter_cloned(); used(vec.into_iter()); used(part); } // s_iter_cloned into_iter
fn q469() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter_cloned(); used(drop(vec)); used(part); } // s_iter_cloned drop
fn q470() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter_cloned(); vec = make(); used(part); } // s_iter_cloned assign
fn q471() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter_cloned(); used(core::mem::replace(&mut vec, make())); used(part); } // s_iter_cloned replace
fn q472() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter_cloned(); used(core::mem::swap(&mut vec, &mut make())); used(part); } // s_iter_cloned swap_vec
fn q473() { let mut vec = make(); let s = vec.as_slice(); let part = s.iter_cloned(); used(keep(vec)); used(part); } // s_iter_cloned move_
fn q474() { let part; { let vec = make(); let s = vec.as_slice(); part = keep(s.iter_cloned()); } used(part); } // s_iter_cloned end
fn q475() { let mut vec = make(); let s = vec.as_slice(); let part = s.map(|x: &String| x.len()); used(vec.push(t())); used(part); } // s_map push
fn q476() { let mut vec = make(); let s = vec.as_slice(); let part = s.map(|x: &String| x.len()); used(vec.extend([t(), t()])); used(part); } // s_map extend
fn q477() { let mut vec = make(); let s = vec.as_slice(); let part = s.map(|x: &String| x.len()); used(vec.get_cloned(0)); used(part); } // s_map get
fn q478() { let mut vec = make(); let s = vec.as_slice(); let part = s.map(|x: &String| x.len()); used(vec[0].set(t())); used(part); } // s_map set
fn q479() { let mut vec = make(); let s = vec.as_slice(); let part = s.map(|x: &String| x.len()); used(vec.swap(0, 1)); used(part); } // s_map swap
fn q480() { let mut vec = make(); let s = vec.as_slice(); let part = s.map(|x: &String| x.len()); used(vec.fill(t())); used(part); } // s_map fill
fn q481() { let mut vec = make(); let s = vec.as_slice(); let part = s.map(|x: &String| x.len()); used(vec == vec); used(part); } // s_map equal
fn q482() { let mut vec = make(); let s = vec.as_slice(); let part = s.map(|x: &String| x.len()); used(vec.len() + vec.capacity()); used(part); } // s_map measure
fn q483() { let mut vec = make(); let s = vec.as_slice(); let part = s.map(|x: &String| x.len()); vec.clear(); used(part); } // s_map clear
fn q484() { let mut vec = make(); let s = vec.as_slice(); let part = s.map(|x: &String| x.len()); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // s_map reserve
fn q485() { let mut vec = make(); let s = vec.as_slice(); let part = s.map(|x: &String| x.len()); used(vec.into_inner()); used(part); } // s_map into_inner
fn q486() { let mut vec = make(); let s = vec.as_slice(); let part = s.map(|x: &String| x.len()); used(vec.to_vec()); used(part); } // s_map to_vec
fn q487() { let mut vec = make(); let s = vec.as_slice(); let part = s.map(|x: &String| x.len()); used(vec.into_iter()); used(part); } // s_map into_iter
fn q488() { let mut vec = make(); let s = vec.as_slice(); let part = s.map(|x: &String| x.len()); used(drop(vec)); used(part); } // s_map drop
fn q489() { let mut vec = make(); let s = vec.as_slice(); let part = s.map(|x: &String| x.len()); vec = make(); used(part); } // s_map assign
fn q490() { let mut vec = make(); let s = vec.as_slice(); let part = s.map(|x: &String| x.len()); used(core::mem::replace(&mut vec, make())); used(part); } // s_map replace
fn q491() { let mut vec = make(); let s = vec.as_slice(); let part = s.map(|x: &String| x.len()); used(core::mem::swap(&mut vec, &mut make())); used(part); } // s_map swap_vec
fn q492() { let mut vec = make(); let s = vec.as_slice(); let part = s.map(|x: &String| x.len()); used(keep(vec)); used(part); } // s_map move_
fn q493() { let part; { let vec = make(); let s = vec.as_slice(); part = keep(s.map(|x: &String| x.len())); } used(part); } // s_map end
fn q494() { let mut vec = make(); let s = vec.as_slice(); let part = s.filter(|x: &String| x.len() > 1); used(vec.push(t())); used(part); } // s_filter push
fn q495() { let mut vec = make(); let s = vec.as_slice(); let part = s.filter(|x: &String| x.len() > 1); used(vec.extend([t(), t()])); used(part); } // s_filter extend
fn q496() { let mut vec = make(); let s = vec.as_slice(); let part = s.filter(|x: &String| x.len() > 1); used(vec.get_cloned(0)); used(part); } // s_filter get
fn q497() { let mut vec = make(); let s = vec.as_slice(); let part = s.filter(|x: &String| x.len() > 1); used(vec[0].set(t())); used(part); } // s_filter set
fn q498() { let mut vec = make(); let s = vec.as_slice(); let part = s.filter(|x: &String| x.len() > 1); used(vec.swap(0, 1)); used(part); } // s_filter swap
fn q499() { let mut vec = make(); let s = vec.as_slice(); let part = s.filter(|x: &String| x.len() > 1); used(vec.fill(t())); used(part); } // s_filter fill
fn q500() { let mut vec = make(); let s = vec.as_slice(); let part = s.filter(|x: &String| x.len() > 1); used(vec == vec); used(part); } // s_filter equal
fn q501() { let mut vec = make(); let s = vec.as_slice(); let part = s.filter(|x: &String| x.len() > 1); used(vec.len() + vec.capacity()); used(part); } // s_filter measure
fn q502() { let mut vec = make(); let s = vec.as_slice(); let part = s.filter(|x: &String| x.len() > 1); vec.clear(); used(part); } // s_filter clear
fn q503() { let mut vec = make(); let s = vec.as_slice(); let part = s.filter(|x: &String| x.len() > 1); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // s_filter reserve
fn q504() { let mut vec = make(); let s = vec.as_slice(); let part = s.filter(|x: &String| x.len() > 1); used(vec.into_inner()); used(part); } // s_filter into_inner
fn q505() { let mut vec = make(); let s = vec.as_slice(); let part = s.filter(|x: &String| x.len() > 1); used(vec.to_vec()); used(part); } // s_filter to_vec
fn q506() { let mut vec = make(); let s = vec.as_slice(); let part = s.filter(|x: &String| x.len() > 1); used(vec.into_iter()); used(part); } // s_filter into_iter
fn q507() { let mut vec = make(); let s = vec.as_slice(); let part = s.filter(|x: &String| x.len() > 1); used(drop(vec)); used(part); } // s_filter drop
fn q508() { let mut vec = make(); let s = vec.as_slice(); let part = s.filter(|x: &String| x.len() > 1); vec = make(); used(part); } // s_filter assign
fn q509() { let mut vec = make(); let s = vec.as_slice(); let part = s.filter(|x: &String| x.len() > 1); used(core::mem::replace(&mut vec, make())); used(part); } // s_filter replace
fn q510() { let mut vec = make(); let s = vec.as_slice(); let part = s.filter(|x: &String| x.len() > 1); used(core::mem::swap(&mut vec, &mut make())); used(part); } // s_filter swap_vec
fn q511() { let mut vec = make(); let s = vec.as_slice(); let part = s.filter(|x: &String| x.len() > 1); used(keep(vec)); used(part); } // s_filter move_
fn q512() { let part; { let vec = make(); let s = vec.as_slice(); part = keep(s.filter(|x: &String| x.len() > 1)); } used(part); } // s_filter end
fn q513() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_ref(0) }; used(vec.push(t())); used(part); } // s_ref push
fn q514() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_ref(0) }; used(vec.extend([t(), t()])); used(part); } // s_ref extend
fn q515() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_ref(0) }; used(vec.get_cloned(0)); used(part); } // s_ref get
fn q516() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_ref(0) }; used(vec[0].set(t())); used(part); } // s_ref set
fn q517() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_ref(0) }; used(vec.swap(0, 1)); used(part); } // s_ref swap
fn q518() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_ref(0) }; used(vec.fill(t())); used(part); } // s_ref fill
fn q519() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_ref(0) }; used(vec == vec); used(part); } // s_ref equal
fn q520() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_ref(0) }; used(vec.len() + vec.capacity()); used(part); } // s_ref measure
fn q521() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_ref(0) }; vec.clear(); used(part); } // s_ref clear
fn q522() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_ref(0) }; used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // s_ref reserve
fn q523() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_ref(0) }; used(vec.into_inner()); used(part); } // s_ref into_inner
fn q524() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_ref(0) }; used(vec.to_vec()); used(part); } // s_ref to_vec
fn q525() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_ref(0) }; used(vec.into_iter()); used(part); } // s_ref into_iter
fn q526() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_ref(0) }; used(drop(vec)); used(part); } // s_ref drop
fn q527() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_ref(0) }; vec = make(); used(part); } // s_ref assign
fn q528() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_ref(0) }; used(core::mem::replace(&mut vec, make())); used(part); } // s_ref replace
fn q529() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_ref(0) }; used(core::mem::swap(&mut vec, &mut make())); used(part); } // s_ref swap_vec
fn q530() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_ref(0) }; used(keep(vec)); used(part); } // s_ref move_
fn q531() { let part; { let vec = make(); let s = vec.as_slice(); part = keep(unsafe { s.get_ref(0) }); } used(part); } // s_ref end
fn q532() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_mut(0) }; used(vec.push(t())); used(part); } // s_mut push
fn q533() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_mut(0) }; used(vec.extend([t(), t()])); used(part); } // s_mut extend
fn q534() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_mut(0) }; used(vec.get_cloned(0)); used(part); } // s_mut get
fn q535() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_mut(0) }; used(vec[0].set(t())); used(part); } // s_mut set
fn q536() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_mut(0) }; used(vec.swap(0, 1)); used(part); } // s_mut swap
fn q537() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_mut(0) }; used(vec.fill(t())); used(part); } // s_mut fill
fn q538() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_mut(0) }; used(vec == vec); used(part); } // s_mut equal
fn q539() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_mut(0) }; used(vec.len() + vec.capacity()); used(part); } // s_mut measure
fn q540() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_mut(0) }; vec.clear(); used(part); } // s_mut clear
fn q541() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_mut(0) }; used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // s_mut reserve
fn q542() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_mut(0) }; used(vec.into_inner()); used(part); } // s_mut into_inner
fn q543() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_mut(0) }; used(vec.to_vec()); used(part); } // s_mut to_vec
fn q544() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_mut(0) }; used(vec.into_iter()); used(part); } // s_mut into_iter
fn q545() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_mut(0) }; used(drop(vec)); used(part); } // s_mut drop
fn q546() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_mut(0) }; vec = make(); used(part); } // s_mut assign
fn q547() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_mut(0) }; used(core::mem::replace(&mut vec, make())); used(part); } // s_mut replace
fn q548() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_mut(0) }; used(core::mem::swap(&mut vec, &mut make())); used(part); } // s_mut swap_vec
fn q549() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.get_mut(0) }; used(keep(vec)); used(part); } // s_mut move_
fn q550() { let part; { let vec = make(); let s = vec.as_slice(); part = keep(unsafe { s.get_mut(0) }); } used(part); } // s_mut end
fn q551() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_ref() }; used(vec.push(t())); used(part); } // s_iter_ref push
fn q552() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_ref() }; used(vec.extend([t(), t()])); used(part); } // s_iter_ref extend
fn q553() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_ref() }; used(vec.get_cloned(0)); used(part); } // s_iter_ref get
fn q554() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_ref() }; used(vec[0].set(t())); used(part); } // s_iter_ref set
fn q555() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_ref() }; used(vec.swap(0, 1)); used(part); } // s_iter_ref swap
fn q556() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_ref() }; used(vec.fill(t())); used(part); } // s_iter_ref fill
fn q557() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_ref() }; used(vec == vec); used(part); } // s_iter_ref equal
fn q558() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_ref() }; used(vec.len() + vec.capacity()); used(part); } // s_iter_ref measure
fn q559() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_ref() }; vec.clear(); used(part); } // s_iter_ref clear
fn q560() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_ref() }; used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // s_iter_ref reserve
fn q561() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_ref() }; used(vec.into_inner()); used(part); } // s_iter_ref into_inner
fn q562() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_ref() }; used(vec.to_vec()); used(part); } // s_iter_ref to_vec
fn q563() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_ref() }; used(vec.into_iter()); used(part); } // s_iter_ref into_iter
fn q564() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_ref() }; used(drop(vec)); used(part); } // s_iter_ref drop
fn q565() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_ref() }; vec = make(); used(part); } // s_iter_ref assign
fn q566() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_ref() }; used(core::mem::replace(&mut vec, make())); used(part); } // s_iter_ref replace
fn q567() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_ref() }; used(core::mem::swap(&mut vec, &mut make())); used(part); } // s_iter_ref swap_vec
fn q568() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_ref() }; used(keep(vec)); used(part); } // s_iter_ref move_
fn q569() { let part; { let vec = make(); let s = vec.as_slice(); part = keep(unsafe { s.iter_ref() }); } used(part); } // s_iter_ref end
fn q570() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_mut() }; used(vec.push(t())); used(part); } // s_iter_mut push
fn q571() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_mut() }; used(vec.extend([t(), t()])); used(part); } // s_iter_mut extend
fn q572() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_mut() }; used(vec.get_cloned(0)); used(part); } // s_iter_mut get
fn q573() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_mut() }; used(vec[0].set(t())); used(part); } // s_iter_mut set
fn q574() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_mut() }; used(vec.swap(0, 1)); used(part); } // s_iter_mut swap
fn q575() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_mut() }; used(vec.fill(t())); used(part); } // s_iter_mut fill
fn q576() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_mut() }; used(vec == vec); used(part); } // s_iter_mut equal
fn q577() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_mut() }; used(vec.len() + vec.capacity()); used(part); } // s_iter_mut measure
fn q578() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_mut() }; vec.clear(); used(part); } // s_iter_mut clear
fn q579() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_mut() }; used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // s_iter_mut reserve
fn q580() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_mut() }; used(vec.into_inner()); used(part); } // s_iter_mut into_inner
fn q581() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_mut() }; used(vec.to_vec()); used(part); } // s_iter_mut to_vec
fn q582() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_mut() }; used(vec.into_iter()); used(part); } // s_iter_mut into_iter
fn q583() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_mut() }; used(drop(vec)); used(part); } // s_iter_mut drop
fn q584() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_mut() }; vec = make(); used(part); } // s_iter_mut assign
fn q585() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_mut() }; used(core::mem::replace(&mut vec, make())); used(part); } // s_iter_mut replace
fn q586() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_mut() }; used(core::mem::swap(&mut vec, &mut make())); used(part); } // s_iter_mut swap_vec
fn q587() { let mut vec = make(); let s = vec.as_slice(); let part = unsafe { s.iter_mut() }; used(keep(vec)); used(part); } // s_iter_mut move_
fn q588() { let part; { let vec = make(); let s = vec.as_slice(); part = keep(unsafe { s.iter_mut() }); } used(part); } // s_iter_mut end
fn q589() { let mut vec = make(); let part = vec.clone(); used(vec.push(t())); used(part); } // clone push
fn q590() { let mut vec = make(); let part = vec.clone(); used(vec.extend([t(), t()])); used(part); } // clone extend
fn q591() { let mut vec = make(); let part = vec.clone(); used(vec.get_cloned(0)); used(part); } // clone get
fn q592() { let mut vec = make(); let part = vec.clone(); used(vec[0].set(t())); used(part); } // clone set
fn q593() { let mut vec = make(); let part = vec.clone(); used(vec.swap(0, 1)); used(part); } // clone swap
fn q594() { let mut vec = make(); let part = vec.clone(); used(vec.fill(t())); used(part); } // clone fill
fn q595() { let mut vec = make(); let part = vec.clone(); used(vec == vec); used(part); } // clone equal
fn q596() { let mut vec = make(); let part = vec.clone(); used(vec.len() + vec.capacity()); used(part); } // clone measure
fn q597() { let mut vec = make(); let part = vec.clone(); vec.clear(); used(part); } // clone clear
fn q598() { let mut vec = make(); let part = vec.clone(); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // clone reserve
fn q599() { let mut vec = make(); let part = vec.clone(); used(vec.into_inner()); used(part); } // clone into_inner
fn q600() { let mut vec = make(); let part = vec.clone(); used(vec.to_vec()); used(part); } // clone to_vec
fn q601() { let mut vec = make(); let part = vec.clone(); used(vec.into_iter()); used(part); } // clone into_iter
fn q602() { let mut vec = make(); let part = vec.clone(); used(drop(vec)); used(part); } // clone drop
fn q603() { let mut vec = make(); let part = vec.clone(); vec = make(); used(part); } // clone assign
fn q604() { let mut vec = make(); let part = vec.clone(); used(core::mem::replace(&mut vec, make())); used(part); } // clone replace
fn q605() { let mut vec = make(); let part = vec.clone(); used(core::mem::swap(&mut vec, &mut make())); used(part); } // clone swap_vec
fn q606() { let mut vec = make(); let part = vec.clone(); used(keep(vec)); used(part); } // clone move_
fn q607() { let part; { let vec = make(); part = keep(vec.clone()); } used(part); } // clone end
fn q608() { let mut vec = make(); let part = vec.clone_to_vec(); used(vec.push(t())); used(part); } // std push
fn q609() { let mut vec = make(); let part = vec.clone_to_vec(); used(vec.extend([t(), t()])); used(part); } // std extend
fn q610() { let mut vec = make(); let part = vec.clone_to_vec(); used(vec.get_cloned(0)); used(part); } // std get
fn q611() { let mut vec = make(); let part = vec.clone_to_vec(); used(vec[0].set(t())); used(part); } // std set
fn q612() { let mut vec = make(); let part = vec.clone_to_vec(); used(vec.swap(0, 1)); used(part); } // std swap
fn q613() { let mut vec = make(); let part = vec.clone_to_vec(); used(vec.fill(t())); used(part); } // std fill
fn q614() { let mut vec = make(); let part = vec.clone_to_vec(); used(vec == vec); used(part); } // std equal
fn q615() { let mut vec = make(); let part = vec.clone_to_vec(); used(vec.len() + vec.capacity()); used(part); } // std measure
fn q616() { let mut vec = make(); let part = vec.clone_to_vec(); vec.clear(); used(part); } // std clear
fn q617() { let mut vec = make(); let part = vec.clone_to_vec(); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // std reserve
fn q618() { let mut vec = make(); let part = vec.clone_to_vec(); used(vec.into_inner()); used(part); } // std into_inner
fn q619() { let mut vec = make(); let part = vec.clone_to_vec(); used(vec.to_vec()); used(part); } // std to_vec
fn q620() { let mut vec = make(); let part = vec.clone_to_vec(); used(vec.into_iter()); used(part); } // std into_iter
fn q621() { let mut vec = make(); let part = vec.clone_to_vec(); used(drop(vec)); used(part); } // std drop
fn q622() { let mut vec = make(); let part = vec.clone_to_vec(); vec = make(); used(part); } // std assign
fn q623() { let mut vec = make(); let part = vec.clone_to_vec(); used(core::mem::replace(&mut vec, make())); used(part); } // std replace
fn q624() { let mut vec = make(); let part = vec.clone_to_vec(); used(core::mem::swap(&mut vec, &mut make())); used(part); } // std swap_vec
fn q625() { let mut vec = make(); let part = vec.clone_to_vec(); used(keep(vec)); used(part); } // std move_
fn q626() { let part; { let vec = make(); part = keep(vec.clone_to_vec()); } used(part); } // std end
fn q627() { let mut vec = make(); let part = vec[0].cloned(); used(vec.push(t())); used(part); } // value push
fn q628() { let mut vec = make(); let part = vec[0].cloned(); used(vec.extend([t(), t()])); used(part); } // value extend
fn q629() { let mut vec = make(); let part = vec[0].cloned(); used(vec.get_cloned(0)); used(part); } // value get
fn q630() { let mut vec = make(); let part = vec[0].cloned(); used(vec[0].set(t())); used(part); } // value set
fn q631() { let mut vec = make(); let part = vec[0].cloned(); used(vec.swap(0, 1)); used(part); } // value swap
fn q632() { let mut vec = make(); let part = vec[0].cloned(); used(vec.fill(t())); used(part); } // value fill
fn q633() { let mut vec = make(); let part = vec[0].cloned(); used(vec == vec); used(part); } // value equal
fn q634() { let mut vec = make(); let part = vec[0].cloned(); used(vec.len() + vec.capacity()); used(part); } // value measure
fn q635() { let mut vec = make(); let part = vec[0].cloned(); vec.clear(); used(part); } // value clear
fn q636() { let mut vec = make(); let part = vec[0].cloned(); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // value reserve
fn q637() { let mut vec = make(); let part = vec[0].cloned(); used(vec.into_inner()); used(part); } // value into_inner
fn q638() { let mut vec = make(); let part = vec[0].cloned(); used(vec.to_vec()); used(part); } // value to_vec
fn q639() { let mut vec = make(); let part = vec[0].cloned(); used(vec.into_iter()); used(part); } // value into_iter
fn q640() { let mut vec = make(); let part = vec[0].cloned(); used(drop(vec)); used(part); } // value drop
fn q641() { let mut vec = make(); let part = vec[0].cloned(); vec = make(); used(part); } // value assign
fn q642() { let mut vec = make(); let part = vec[0].cloned(); used(core::mem::replace(&mut vec, make())); used(part); } // value replace
fn q643() { let mut vec = make(); let part = vec[0].cloned(); used(core::mem::swap(&mut vec, &mut make())); used(part); } // value swap_vec
fn q644() { let mut vec = make(); let part = vec[0].cloned(); used(keep(vec)); used(part); } // value move_
fn q645() { let part; { let vec = make(); part = keep(vec[0].cloned()); } used(part); } // value end
fn q646() { let mut vec = make(); let part = vec.get_cloned(0); used(vec.push(t())); used(part); } // got push
fn q647() { let mut vec = make(); let part = vec.get_cloned(0); used(vec.extend([t(), t()])); used(part); } // got extend
fn q648() { let mut vec = make(); let part = vec.get_cloned(0); used(vec.get_cloned(0)); used(part); } // got get
fn q649() { let mut vec = make(); let part = vec.get_cloned(0); used(vec[0].set(t())); used(part); } // got set
fn q650() { let mut vec = make(); let part = vec.get_cloned(0); used(vec.swap(0, 1)); used(part); } // got swap
fn q651() { let mut vec = make(); let part = vec.get_cloned(0); used(vec.fill(t())); used(part); } // got fill
fn q652() { let mut vec = make(); let part = vec.get_cloned(0); used(vec == vec); used(part); } // got equal
fn q653() { let mut vec = make(); let part = vec.get_cloned(0); used(vec.len() + vec.capacity()); used(part); } // got measure
fn q654() { let mut vec = make(); let part = vec.get_cloned(0); vec.clear(); used(part); } // got clear
fn q655() { let mut vec = make(); let part = vec.get_cloned(0); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // got reserve
fn q656() { let mut vec = make(); let part = vec.get_cloned(0); used(vec.into_inner()); used(part); } // got into_inner
fn q657() { let mut vec = make(); let part = vec.get_cloned(0); used(vec.to_vec()); used(part); } // got to_vec
fn q658() { let mut vec = make(); let part = vec.get_cloned(0); used(vec.into_iter()); used(part); } // got into_iter
fn q659() { let mut vec = make(); let part = vec.get_cloned(0); used(drop(vec)); used(part); } // got drop
fn q660() { let mut vec = make(); let part = vec.get_cloned(0); vec = make(); used(part); } // got assign
fn q661() { let mut vec = make(); let part = vec.get_cloned(0); used(core::mem::replace(&mut vec, make())); used(part); } // got replace
fn q662() { let mut vec = make(); let part = vec.get_cloned(0); used(core::mem::swap(&mut vec, &mut make())); used(part); } // got swap_vec
fn q663() { let mut vec = make(); let part = vec.get_cloned(0); used(keep(vec)); used(part); } // got move_
fn q664() { let part; { let vec = make(); part = keep(vec.get_cloned(0)); } used(part); } // got end
fn q665() { let mut vec = make(); let s = vec.as_slice(); let part = s.clone_to_vec(); used(vec.push(t())); used(part); } // slice_std push
fn q666() { let mut vec = make(); let s = vec.as_slice(); let part = s.clone_to_vec(); used(vec.extend([t(), t()])); used(part); } // slice_std extend
fn q667() { let mut vec = make(); let s = vec.as_slice(); let part = s.clone_to_vec(); used(vec.get_cloned(0)); used(part); } // slice_std get
fn q668() { let mut vec = make(); let s = vec.as_slice(); let part = s.clone_to_vec(); used(vec[0].set(t())); used(part); } // slice_std set
fn q669() { let mut vec = make(); let s = vec.as_slice(); let part = s.clone_to_vec(); used(vec.swap(0, 1)); used(part); } // slice_std swap
fn q670() { let mut vec = make(); let s = vec.as_slice(); let part = s.clone_to_vec(); used(vec.fill(t())); used(part); } // slice_std fill
fn q671() { let mut vec = make(); let s = vec.as_slice(); let part = s.clone_to_vec(); used(vec == vec); used(part); } // slice_std equal
fn q672() { let mut vec = make(); let s = vec.as_slice(); let part = s.clone_to_vec(); used(vec.len() + vec.capacity()); used(part); } // slice_std measure
fn q673() { let mut vec = make(); let s = vec.as_slice(); let part = s.clone_to_vec(); vec.clear(); used(part); } // slice_std clear
fn q674() { let mut vec = make(); let s = vec.as_slice(); let part = s.clone_to_vec(); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // slice_std reserve
fn q675() { let mut vec = make(); let s = vec.as_slice(); let part = s.clone_to_vec(); used(vec.into_inner()); used(part); } // slice_std into_inner
fn q676() { let mut vec = make(); let s = vec.as_slice(); let part = s.clone_to_vec(); used(vec.to_vec()); used(part); } // slice_std to_vec
fn q677() { let mut vec = make(); let s = vec.as_slice(); let part = s.clone_to_vec(); used(vec.into_iter()); used(part); } // slice_std into_iter
fn q678() { let mut vec = make(); let s = vec.as_slice(); let part = s.clone_to_vec(); used(drop(vec)); used(part); } // slice_std drop
fn q679() { let mut vec = make(); let s = vec.as_slice(); let part = s.clone_to_vec(); vec = make(); used(part); } // slice_std assign
fn q680() { let mut vec = make(); let s = vec.as_slice(); let part = s.clone_to_vec(); used(core::mem::replace(&mut vec, make())); used(part); } // slice_std replace
fn q681() { let mut vec = make(); let s = vec.as_slice(); let part = s.clone_to_vec(); used(core::mem::swap(&mut vec, &mut make())); used(part); } // slice_std swap_vec
fn q682() { let mut vec = make(); let s = vec.as_slice(); let part = s.clone_to_vec(); used(keep(vec)); used(part); } // slice_std move_
fn q683() { let part; { let vec = make(); let s = vec.as_slice(); part = keep(s.clone_to_vec()); } used(part); } // slice_std end
fn q684() { let mut vec = make(); let part = vec.len(); used(vec.push(t())); used(part); } // len push
fn q685() { let mut vec = make(); let part = vec.len(); used(vec.extend([t(), t()])); used(part); } // len extend
fn q686() { let mut vec = make(); let part = vec.len(); used(vec.get_cloned(0)); used(part); } // len get
fn q687() { let mut vec = make(); let part = vec.len(); used(vec[0].set(t())); used(part); } // len set
fn q688() { let mut vec = make(); let part = vec.len(); used(vec.swap(0, 1)); used(part); } // len swap
fn q689() { let mut vec = make(); let part = vec.len(); used(vec.fill(t())); used(part); } // len fill
fn q690() { let mut vec = make(); let part = vec.len(); used(vec == vec); used(part); } // len equal
fn q691() { let mut vec = make(); let part = vec.len(); used(vec.len() + vec.capacity()); used(part); } // len measure
fn q692() { let mut vec = make(); let part = vec.len(); vec.clear(); used(part); } // len clear
fn q693() { let mut vec = make(); let part = vec.len(); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // len reserve
fn q694() { let mut vec = make(); let part = vec.len(); used(vec.into_inner()); used(part); } // len into_inner
fn q695() { let mut vec = make(); let part = vec.len(); used(vec.to_vec()); used(part); } // len to_vec
fn q696() { let mut vec = make(); let part = vec.len(); used(vec.into_iter()); used(part); } // len into_iter
fn q697() { let mut vec = make(); let part = vec.len(); used(drop(vec)); used(part); } // len drop
fn q698() { let mut vec = make(); let part = vec.len(); vec = make(); used(part); } // len assign
fn q699() { let mut vec = make(); let part = vec.len(); used(core::mem::replace(&mut vec, make())); used(part); } // len replace
fn q700() { let mut vec = make(); let part = vec.len(); used(core::mem::swap(&mut vec, &mut make())); used(part); } // len swap_vec
fn q701() { let mut vec = make(); let part = vec.len(); used(keep(vec)); used(part); } // len move_
fn q702() { let part; { let vec = make(); part = keep(vec.len()); } used(part); } // len end
fn q703() { let mut vec = make(); let part = vec.maximum_capacity(); used(vec.push(t())); used(part); } // max push
fn q704() { let mut vec = make(); let part = vec.maximum_capacity(); used(vec.extend([t(), t()])); used(part); } // max extend
fn q705() { let mut vec = make(); let part = vec.maximum_capacity(); used(vec.get_cloned(0)); used(part); } // max get
fn q706() { let mut vec = make(); let part = vec.maximum_capacity(); used(vec[0].set(t())); used(part); } // max set
fn q707() { let mut vec = make(); let part = vec.maximum_capacity(); used(vec.swap(0, 1)); used(part); } // max swap
fn q708() { let mut vec = make(); let part = vec.maximum_capacity(); used(vec.fill(t())); used(part); } // max fill
fn q709() { let mut vec = make(); let part = vec.maximum_capacity(); used(vec == vec); used(part); } // max equal
fn q710() { let mut vec = make(); let part = vec.maximum_capacity(); used(vec.len() + vec.capacity()); used(part); } // max measure
fn q711() { let mut vec = make(); let part = vec.maximum_capacity(); vec.clear(); used(part); } // max clear
fn q712() { let mut vec = make(); let part = vec.maximum_capacity(); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // max reserve
fn q713() { let mut vec = make(); let part = vec.maximum_capacity(); used(vec.into_inner()); used(part); } // max into_inner
fn q714() { let mut vec = make(); let part = vec.maximum_capacity(); used(vec.to_vec()); used(part); } // max to_vec
fn q715() { let mut vec = make(); let part = vec.maximum_capacity(); used(vec.into_iter()); used(part); } // max into_iter
fn q716() { let mut vec = make(); let part = vec.maximum_capacity(); used(drop(vec)); used(part); } // max drop
fn q717() { let mut vec = make(); let part = vec.maximum_capacity(); vec = make(); used(part); } // max assign
fn q718() { let mut vec = make(); let part = vec.maximum_capacity(); used(core::mem::replace(&mut vec, make())); used(part); } // max replace
fn q719() { let mut vec = make(); let part = vec.maximum_capacity(); used(core::mem::swap(&mut vec, &mut make())); used(part); } // max swap_vec
fn q720() { let mut vec = make(); let part = vec.maximum_capacity(); used(keep(vec)); used(part); } // max move_
fn q721() { let part; { let vec = make(); part = keep(vec.maximum_capacity()); } used(part); } // max end
fn q722() { let mut vec = make(); let part = vec.fold(0, |a: usize, x: &String| a + x.len()); used(vec.push(t())); used(part); } // folded push
fn q723() { let mut vec = make(); let part = vec.fold(0, |a: usize, x: &String| a + x.len()); used(vec.extend([t(), t()])); used(part); } // folded extend
fn q724() { let mut vec = make(); let part = vec.fold(0, |a: usize, x: &String| a + x.len()); used(vec.get_cloned(0)); used(part); } // folded get
fn q725() { let mut vec = make(); let part = vec.fold(0, |a: usize, x: &String| a + x.len()); used(vec[0].set(t())); used(part); } // folded set
fn q726() { let mut vec = make(); let part = vec.fold(0, |a: usize, x: &String| a + x.len()); used(vec.swap(0, 1)); used(part); } // folded swap
fn q727() { let mut vec = make(); let part = vec.fold(0, |a: usize, x: &String| a + x.len()); used(vec.fill(t())); used(part); } // folded fill
fn q728() { let mut vec = make(); let part = vec.fold(0, |a: usize, x: &String| a + x.len()); used(vec == vec); used(part); } // folded equal
fn q729() { let mut vec = make(); let part = vec.fold(0, |a: usize, x: &String| a + x.len()); used(vec.len() + vec.capacity()); used(part); } // folded measure
fn q730() { let mut vec = make(); let part = vec.fold(0, |a: usize, x: &String| a + x.len()); vec.clear(); used(part); } // folded clear
fn q731() { let mut vec = make(); let part = vec.fold(0, |a: usize, x: &String| a + x.len()); used(unsafe { vec.reserve_maximum_capacity(9) }); used(part); } // folded reserve
fn q732() { let mut vec = make(); let part = vec.fold(0, |a: usize, x: &String| a + x.len()); used(vec.into_inner()); used(part); } // folded into_inner
fn q733() { let mut vec = make(); let part = vec.fold(0, |a: usize, x: &String| a + x.len()); used(vec.to_vec()); used(part); } // folded to_vec
fn q734() { let mut vec = make(); let part = vec.fold(0, |a: usize, x: &String| a + x.len()); used(vec.into_iter()); used(part); } // folded into_iter
fn q735() { let mut vec = make(); let part = vec.fold(0, |a: usize, x: &String| a + x.len()); used(drop(vec)); used(part); } // folded drop
fn q736() { let mut vec = make(); let part = vec.fold(0, |a: usize, x: &String| a + x.len()); vec = make(); used(part); } // folded assign
fn q737() { let mut vec = make(); let part = vec.fold(0, |a: usize, x: &String| a + x.len()); used(core::mem::replace(&mut vec, make())); used(part); } // folded replace
fn q738() { let mut vec = make(); let part = vec.fold(0, |a: usize, x: &String| a + x.len()); used(core::mem::swap(&mut vec, &mut make())); used(part); } // folded swap_vec
fn q739() { let mut vec = make(); let part = vec.fold(0, |a: usize, x: &String| a + x.len()); used(keep(vec)); used(part); } // folded move_
fn q740() { let part; { let vec = make(); part = keep(vec.fold(0, |a: usize, x: &String| a + x.len())); } used(part); } // folded end
fn q741(v: &V<&'static String>) { let x = t(); fn put<'x>(v: &V<&'x String>, x: &'x String) { used(v.push(x)) } put(v, &x); used(x); } // stored push
fn q742(v: &V<&'static String>) { let x = t(); fn put<'x>(v: &V<&'x String>, x: &'x String) { used(v.push_for_idx(|_| x)) } put(v, &x); used(x); } // stored pushf
fn q743(v: &V<&'static String>) { let x = t(); fn put<'x>(v: &V<&'x String>, x: &'x String) { used(v.extend([x])) } put(v, &x); used(x); } // stored extend
fn q744(v: &V<&'static String>) { let x = t(); fn put<'x>(v: &V<&'x String>, x: &'x String) { used(v[0].set(x)) } put(v, &x); used(x); } // stored set
fn q745(v: &V<&'static String>) { let x = t(); fn put<'x>(v: &V<&'x String>, x: &'x String) { used(v[0].replace(x)) } put(v, &x); used(x); } // stored replace
fn q746(v: &V<&'static String>) { let x = t(); fn put<'x>(v: &V<&'x String>, x: &'x String) { used(v[0].update(|y| *y = x)) } put(v, &x); used(x); } // stored update
fn q747(v: &V<&'static String>) { let x = t(); fn put<'x>(v: &V<&'x String>, x: &'x String) { used(v.fill(x)) } put(v, &x); used(x); } // stored fill
fn q748(v: &V<&'static String>) { let x = t(); fn put<'x>(v: &V<&'x String>, x: &'x String) { used(v.fill_with(|_| x)) } put(v, &x); used(x); } // stored fill_with
fn q749(v: &V<&'static String>) { let x = t(); fn put<'x>(v: &V<&'x String>, x: &'x String) { used(v.as_slice().fill(x)) } put(v, &x); used(x); } // stored s_fill
fn q750(v: &V<&'static String>) { let x = t(); fn put<'x>(v: &V<&'x String>, x: &'x String) { used(v.as_slice().get(0).unwrap().set(x)) } put(v, &x); used(x); } // stored s_elem
fn q751(v: &V<&'static String>) { let x = t(); fn put<'x>(v: &V<&'x String>, x: &'x String) { used(v.iter().for_each(|y| y.set(x))) } put(v, &x); used(x); } // stored iter
