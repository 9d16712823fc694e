//! C11: typed decoding is all or nothing, whatever fails at whatever point.
use crate::gen;
use crate::model::{Step, M};
use crate::ops::*;
use crate::stats::*;
use crate::types::{self, How};
use crate::user::*;
use simcore::rt::{self, below, chance, pick, range, stat, violate};
use simcore::{alloc, log, sched};

struct Want {
    v: Result<V, Fail>,
    /// Success or failure is determined, the value too.
    sure: bool,
    value: bool,
}

fn want(t: usize, m: &M) -> Want {
    unsafe {
        UNSPECIFIED = false;
        COLLIDED = false;
        let v = types::expect(t, m);
        Want { v, sure: !UNSPECIFIED, value: !UNSPECIFIED && !COLLIDED }
    }
}

fn inner(m: &M, how: How) -> &M {
    if how.wrapped() {
        m.find(&[Step::Key("in".to_string())]).unwrap()
    } else {
        m
    }
}

pub fn c11() {
    let k = gen::knobs();
    let t = below(types::NTYPES);
    let how = *pick(&types::HOWS);
    let mut v = types::sample(t, &k);
    // the one component whose own conversion fails, if that is certain
    let mut own: Option<String> = None;
    let spoilt = below(4);
    match spoilt {
        0 | 1 => {}
        2 => {
            let at = k.anywhere(&v);
            let fail = format!("fail:{}", below(1000));
            let mut plain = v.clone();
            *plain.find_mut(&at).unwrap() = M::Str("zzz".to_string());
            *v.find_mut(&at).unwrap() = M::Str(fail.clone());
            let (a, b) = (want(t, &plain), want(t, &v));
            if a.v.is_ok() && b.v.is_err() && a.sure && b.sure {
                own = Some(fail);
                stat(F_MISMATCH);
            }
        }
        _ => {
            for _ in 0..*pick(&[1, 1, 2, 4]) {
                types::spoil(&mut v, &k);
            }
            stat(F_MISMATCH);
        }
    }
    if how.wrapped() {
        v = types::wrap(&v);
    }
    let text = gen::loose_text(&v, below(4));
    let w = want(t, inner(&v, how));
    rt::path(t as u64 * 64 + how as u64 * 8 + spoilt as u64);
    rt::path(v.hash());
    rt::state(v.hash());
    let what = format!("decode::<{}> by {:?} of {}", types::name(t), how, clip(&text));
    log!("{}", what);
    let rounds = range(1, 8);
    let mut left = rounds;
    while left > 0 {
        let n = 1 + below(left.min(4));
        left -= n;
        stat(F_RESEED);
        sched::incarnation(|| {
            // without a fault, learning how many conversions and allocations
            // there are
            disarm_all();
            arm_cb(CbFault::None);
            let me = sched::task();
            let a0 = unsafe { alloc::SUT_ALLOCS[me] };
            let o = types::decode(t, how, &text);
            let na = unsafe { alloc::SUT_ALLOCS[me] } - a0;
            let (nc, nf) = (cb_count(), cb_fallible());
            stat(P_DECODE);
            judge_clean(&o, &w, &own, &v, &what);
            for _ in 0..n {
                one_fault(t, how, &text, &w, &v, &what, nc, nf, na);
            }
            if chance(1, 2) {
                disarm_all();
                let o = types::decode(t, how, &text);
                judge_clean(&o, &w, &own, &v, &format!("{}, after faults", what));
            }
        });
    }
}

fn one_fault(t: usize, how: How, text: &str, w: &Want, v: &M, what: &str, nc: u64, nf: u64, na: u64) {
    let f = match below(4) {
        0 | 1 if nf > 0 => Fault::Cb(CbFault::Err(1 + below(nf as usize) as u64)),
        3 if na > 0 => Fault::Alloc(1 + below(na as usize) as u64),
        _ if nc > 0 => Fault::Cb(CbFault::Panic(1 + below(nc as usize) as u64)),
        _ => return,
    };
    log!("  with {:?}", f);
    stat(P_DECODE);
    unsafe { MARKED = false };
    arm(f);
    let o = types::decode(t, how, text);
    let marked = unsafe { MARKED };
    let fired = match f {
        Fault::Alloc(_) => alloc::disarm() > 0,
        _ => cb_fired(),
    };
    disarm_all();
    let what = format!("{} with {:?}", what, f);
    if !fired {
        // the conversions of another execution come in another number only if
        // something is wrong, which other properties decide
        return judge_clean(&o, w, &None, v, &what);
    }
    rt::nontrivial();
    rt::path(match f {
        Fault::Cb(CbFault::Err(n)) => 900 + n,
        Fault::Cb(CbFault::Panic(n)) => 20000 + n,
        _ => 40000,
    });
    match (&o, f) {
        (Out::Ok(g), Fault::Alloc(_)) => {
            // got along without: then everything must be there
            if let Ok(e) = &w.v {
                if w.value && types::norm(g) != types::norm(e) {
                    violate("partial-value", &format!("{}: gave {}", what, types::show_v(g)));
                }
            }
        }
        (Out::Ok(g), Fault::Cb(CbFault::Err(_))) => {
            violate("partial-value", &format!("{}: a component failed and the decode gave {}", what, types::show_v(g)))
        }
        (Out::Ok(g), _) => {
            violate("partial-value", &format!("{}: a component panicked and the decode gave {}", what, types::show_v(g)))
        }
        (Out::Err(kind, msg), Fault::Cb(CbFault::Err(_))) => {
            if marked && (msg != MARK || kind != "ParseNullError") {
                violate(
                    "wrong-error",
                    &format!("{}: a component's conversion returned {:?}, reported was {}: {:?}", what, MARK, kind, msg),
                );
            }
        }
        (Out::Err(k, m), Fault::Cb(CbFault::Panic(_))) => {
            violate("lost-panic", &format!("{}: a conversion panicked and the decode returned {}: {}", what, k, m))
        }
        (Out::Panic(PanicKind::Natural(s)), Fault::Cb(_)) => {
            violate("unexpected-panic", &format!("{}: {}", what, s))
        }
        _ => {}
    }
}

fn judge_clean(o: &Out<V>, w: &Want, own: &Option<String>, v: &M, what: &str) {
    match (o, &w.v) {
        (Out::Panic(p), _) => violate("unexpected-panic", &format!("{}: {:?}", what, p)),
        (Out::Ok(g), Ok(e)) => {
            if w.value && types::norm(g) != types::norm(e) {
                violate(
                    "wrong-value",
                    &format!("{}: gave {}, expected {}", what, types::show_v(g), types::show_v(e)),
                );
            }
        }
        (Out::Ok(g), Err(_)) => {
            if w.sure {
                violate("partial-value", &format!("{}: a component cannot be converted, yet it gave {}", what, types::show_v(g)));
            }
        }
        (Out::Err(k, m), Ok(_)) => {
            if w.sure {
                violate("refused", &format!("{}: every component converts, yet {}: {}", what, k, m));
            }
        }
        (Out::Err(k, m), Err(_)) => {
            rt::nontrivial();
            if let Some(f) = own {
                if m != f || k != "InvalidJson" {
                    violate("wrong-error", &format!("{}: the failing component's error is {:?}, reported was {}: {:?}", what, f, k, m));
                }
            } else if m.starts_with("fail:") && !has(v, m) {
                violate("wrong-error", &format!("{}: reported {:?}, which no component returned", what, m));
            }
        }
    }
}

fn has(v: &M, s: &str) -> bool {
    match v {
        M::Str(t) => t == s,
        M::Arr(v) => v.iter().any(|x| has(x, s)),
        M::Obj(o) => o.values().flatten().any(|x| has(x, s)),
        _ => false,
    }
}
