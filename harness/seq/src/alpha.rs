//! Operation alphabets.
use crate::types::*;
use crate::world::*;

pub fn alpha(flavor: Flavor, nkeys: u8, guards: u8, kinds: &str, cl: &[Class]) -> Vec<Op> {
    let mut ops = vec![];
    let ks = 0..nkeys;
    for kind in kinds.split_whitespace() {
        for k in ks.clone() {
            match kind {
                "get" => ops.push(Op::Get(k, Form::Borrowed)),
                "getforms" => ops.extend([Op::Get(k, Form::Owned), Op::Get(k, Form::Equiv)]),
                "peek" => ops.push(Op::Peek(k, Form::Owned)),
                "contains" => ops.push(Op::Contains(k, Form::Owned)),
                "getmut" => ops.push(Op::GetMut(k, None)),
                "peekmut" => ops.push(Op::PeekMut(k, None)),
                "mutate" => ops.extend(cl.iter().map(|c| Op::GetMut(k, Some(*c)))),
                "pmutate" => ops.extend(cl.iter().map(|c| Op::PeekMut(k, Some(*c)))),
                "ins" => ops.extend(cl.iter().map(|c| Op::Insert(k, *c))),
                "inslc" => ops.extend(cl.iter().map(|c| Op::InsertLc(k, *c))),
                "rep" => ops.extend(cl.iter().flat_map(|c| [Op::Replace(k, *c, false), Op::Replace(k, *c, true)])),
                "reph" => ops.extend(cl.iter().map(|c| Op::Replace(k, *c, false))),
                "reps" => ops.extend(cl.iter().map(|c| Op::Replace(k, *c, true))),
                "replc" => ops.extend(cl.iter().map(|c| Op::ReplaceLc(k, *c, true))),
                "rem" => ops.push(Op::Remove(k, Form::Equiv)),
                "remforms" => ops.extend([Op::Remove(k, Form::Owned), Op::Remove(k, Form::Borrowed)]),
                "retain" => ops.push(Op::Retain(!(1 << k))),
                "retain1" => ops.push(Op::Retain(1 << k)),
                "goi" => ops.extend(cl.iter().map(|c| Op::Goi(k, Form::Borrowed, Load::Val(*c)))),
                "goio" => ops.extend(cl.iter().map(|c| Op::Goi(k, Form::Owned, Load::Val(*c)))),
                "goie" => ops.extend([Op::Goi(k, Form::Borrowed, Load::Err), Op::Goi(k, Form::Owned, Load::Panic)]),
                "gmoi" => ops.extend(cl.iter().map(|c| Op::Gmoi(k, Load::Val(*c)))),
                "gmoie" => ops.extend([Op::Gmoi(k, Load::Err), Op::Gmoi(k, Load::Panic)]),
                "gmoimut" => ops.extend(
                    cl.iter()
                        .flat_map(|c| cl.iter().map(move |d| Op::GmoiMut(k, *c, *d)))
                        .filter(|o| !matches!(o, Op::GmoiMut(_, a, b) if a == b)),
                ),
                "gins" => ops.extend(cl.iter().map(|c| Op::GuardIns(k, *c, false))),
                "gmins" => ops.extend(cl.iter().map(|c| Op::GuardIns(k, *c, true))),
                "gjoin" => ops.extend(cl.iter().flat_map(|c| [Op::GuardJoin(k, *c, true), Op::GuardJoin(k, *c, false)])),
                "ginslc" => ops.extend(cl.iter().map(|c| Op::GuardInsLc(k, *c))),
                "gdrop" => ops.extend([Op::GuardDrop(k, false)]),
                "gmdrop" => ops.extend([Op::GuardDrop(k, true)]),
                "acq" => ops.push(Op::Acq(k, Form::Borrowed)),
                "acqa" => ops.push(Op::AcqAsync(k, Form::Owned)),
                "goia" => ops.extend(cl.iter().map(|c| Op::GoiAsync(k, Load::Val(*c)))),
                "goiae" => ops.extend([Op::GoiAsync(k, Load::Err), Op::GoiAsync(k, Load::Panic)]),
                _ => (),
            }
        }
        match kind {
            "clear" => ops.push(Op::Clear),
            "retainodd" => ops.extend([Op::Retain(0x5555_5555_5555_5555), Op::Retain(0)]),
            "drain" => ops.extend([Op::Drain(0), Op::Drain(1), Op::Drain(255)]),
            "iter" => ops.push(Op::Iter),
            "reserve" => ops.push(Op::Reserve(40)),
            "clone" => ops.push(Op::CloneSwap),
            "slots" => {
                for s in 0..guards {
                    ops.extend(cl.iter().map(|c| Op::GIns(s, *c)));
                    ops.push(Op::GDrop(s));
                }
            }
            "slotslc" => {
                for s in 0..guards {
                    ops.extend(cl.iter().map(|c| Op::GInsLc(s, *c)));
                }
            }
            _ => (),
        }
    }
    if flavor == Flavor::Sync {
        ops.retain(|o| {
            !matches!(
                o,
                Op::GetMut(..) | Op::PeekMut(..) | Op::Drain(_) | Op::Iter | Op::Gmoi(..) | Op::GmoiMut(..) | Op::CloneSwap | Op::GuardInsLc(..)
            )
        });
    } else {
        ops.retain(|o| {
            !matches!(o, Op::Acq(..) | Op::AcqAsync(..) | Op::GIns(..) | Op::GInsLc(..) | Op::GDrop(_) | Op::GoiAsync(..) | Op::GuardJoin(..))
        });
    }
    ops
}
