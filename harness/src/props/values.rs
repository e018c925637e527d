//! C02 (byte layout), C03 (typification), C04 (deserialization)
use strict_types::typesys::TypeFqn;
use strict_types::value::StrictNum;
use strict_types::value::StrictVal;

use super::base::*;
use crate::alloc;
use crate::cx::{hex, Cx, R};
use crate::gen::*;
use crate::model::*;
use crate::Prop;

pub const C02: Prop = Prop {
    id: "C02",
    cases: (90_000, 1_500_000),
    run: c02,
    rule: "a random definition of types in all classes and nestings with a random member in any of its representations is \
           serialized by the real code and compared with an independent encoder, then read back; non-trivial if the encoding \
           is not empty",
    need: &[("bytes compared", 20_000), ("read back", 5_000), ("type:map", 100), ("type:rstring", 50), ("wide prefix", 50), ("long", 50), ("very long", 10)],
    level: "exploration",
    assume: &["libraries of the generated types are accepted by the type system builder"],
};

fn c02(cx: &mut Cx) -> R {
    let o = if cx.rng.coin() {
        Opts::DECODE
    } else {
        Opts::VALUES
    };
    let e = Env::gen(cx, o)?;
    let sys = e.types();
    for _ in 0..8 {
        let t = pick_type(cx, &e.w);
        let any = cx.rng.coin();
        let mut g = ValGen::new(&e.w, any);
        g.long = true;
        let Some(v) = g.val(&mut cx.rng, t) else {
            cx.count("type without values");
            continue;
        };
        let Some(exp) = e.w.interp(&v, t) else {
            panic!("harness: generated value is not a member: {v:?}")
        };
        cx.say(|| format!("type {}\n  value {}", e.show(t), show_val(&v)));
        let tv = must!(
            sys.typify(v.clone(), e.sem(t)),
            "typify {} as {}",
            show_val(&v),
            e.show(t)
        );
        let got = must!(ser(sys, &tv), "serialize {}", show_val(&v));
        if exp.is_empty() {
            cx.eval_trivial();
        } else {
            cx.eval(e.key(t, &exp));
        }
        cx.count("bytes compared");
        if let StrictVal::List(v) | StrictVal::Set(v) = &v {
            if v.len() > 0xFFFF {
                cx.count("very long");
            } else if v.len() > 0xFF {
                cx.count("long");
            }
        }
        note_classes(cx, &e.w, t, "type:");
        if let MTy::List(_, _, max) | MTy::Set(_, _, max) | MTy::Map(_, _, _, max) = e.w.ty(t) {
            if *max > 0xFF {
                cx.count("wide prefix");
            }
        }
        ck!(
            got == exp,
            "{} of type {} serializes to {}, expected {}",
            show_val(&v),
            e.show(t),
            hex(&got),
            hex(&exp)
        );
        let mut w = vec![];
        must!(sys.strict_write_value(&tv, &mut w), "write value");
        ck!(
            w == exp,
            "{} of type {} is written as {}, expected {}",
            show_val(&v),
            e.show(t),
            hex(&w),
            hex(&exp)
        );

        // equivalent form gives the same bytes
        match e.w.scan(&exp, 0, t) {
            Scan::Ok(n) => {
                ck!(n == exp.len(), "harness: scan");
                let back = must!(
                    sys.strict_deserialize_type(e.sem(t), &exp),
                    "deserialize {} as {}",
                    hex(&exp),
                    e.show(t)
                );
                ck!(
                    e.w.interp(back.as_val(), t).as_ref() == Some(&exp),
                    "{} of type {} reads back as {}",
                    show_val(&v),
                    e.show(t),
                    show_val(back.as_val())
                );
                if !any {
                    ck!(
                        back.as_val() == tv.as_val() || has_char_lists(&e.w, t),
                        "{} of type {} reads back as a different {}",
                        show_val(tv.as_val()),
                        e.show(t),
                        show_val(back.as_val())
                    );
                }
                ck!(
                    *back.as_orig() == *tv.as_orig(),
                    "type of the value read is {}",
                    back.as_orig()
                );
                let again = must!(ser(sys, &back), "serialize value read back");
                ck!(
                    again == exp,
                    "value read back serializes as {}",
                    hex(&again)
                );
                cx.count("read back");
            }
            Scan::Unsupported => {
                ck!(
                    sys.strict_deserialize_type(e.sem(t), &exp).is_err(),
                    "unsupported type {} was read",
                    e.show(t)
                );
                cx.count("unsupported");
            }
            Scan::Bad => panic!(
                "harness: encoding {} of {} is invalid",
                hex(&exp),
                e.show(t)
            ),
        }
        cx.sample(|| format!("{} : {} = {}", show_val(&v), e.show(t), hex(&exp)));
    }
    Ok(())
}

/// Collections of characters may be both strings and lists
fn has_char_lists(w: &World, t: TId) -> bool {
    w.closure([t]).into_iter().any(|t| match w.ty(t) {
        MTy::Array(t, _) => w.alphabet(*t).is_some() || w.is_char(*t),
        MTy::List(t, ..) => w.alphabet(*t).is_some(),
        _ => false,
    })
}

pub const C03: Prop = Prop {
    id: "C03",
    cases: (140_000, 2_000_000),
    run: c03,
    rule: "a value (a member in any representation, a member changed at a single place, or any value) is typified and the \
           verdict and the result are compared with an independent membership predicate; non-trivial if the value is a member \
           or is a single change apart from one",
    need: &[("accepted", 10_000), ("rejected", 20_000), ("rejected near miss", 10_000), ("type:map", 100), ("type:rstring", 50)],
    level: "exploration",
    assume: &["libraries of the generated types are accepted by the type system builder"],
};

fn c03(cx: &mut Cx) -> R {
    let e = Env::gen(cx, Opts::VALUES)?;
    for _ in 0..4 {
        let t = pick_type(cx, &e.w);
        note_classes(cx, &e.w, t, "type:");
        let mut g = ValGen::new(&e.w, cx.rng.chance(3, 4));
        g.large = cx.rng.chance(1, 8);
        g.long = g.large;
        let Some(member) = g.val(&mut cx.rng, t) else {
            cx.count("type without values");
            let v = any_val(&mut cx.rng, 2);
            one_typify(cx, &e, t, &v, false)?;
            continue;
        };
        one_typify(cx, &e, t, &member, true)?;
        for _ in 0..6 {
            let mut v = member.clone();
            mutate(&mut cx.rng, &mut v);
            if cx.rng.chance(1, 6) {
                mutate(&mut cx.rng, &mut v);
            }
            one_typify(cx, &e, t, &v, true)?;
        }
        // member of another type
        let o = pick_type(cx, &e.w);
        if let Some(v) = ValGen::new(&e.w, true).val(&mut cx.rng, o) {
            one_typify(cx, &e, t, &v, true)?;
        }
        let v = any_val(&mut cx.rng, 2);
        one_typify(cx, &e, t, &v, false)?;
    }
    Ok(())
}

fn one_typify(cx: &mut Cx, e: &Env, t: TId, v: &StrictVal, near: bool) -> R {
    let exp = e.w.interp(v, t);
    cx.say(|| {
        format!(
            "type {}\n  value {} -> {}",
            e.show(t),
            show_val(v),
            exp.is_some()
        )
    });
    let got = match &e.w.nodes[t].name {
        Some(n) if cx.rng.coin() => e.sym.typify(
            v.clone(),
            TypeFqn::with(lname(&e.w.libs[e.w.nodes[t].lib]), tname(n)),
        ),
        _ => e.types().typify(v.clone(), e.sem(t)),
    };
    if near {
        cx.eval(e.key(t, format!("{v:?}").as_bytes()));
    } else {
        cx.eval_trivial();
    }
    match (got, exp) {
        (Ok(tv), Some(exp)) => {
            cx.count("accepted");
            cx.sample(|| format!("{} accepted as {}", show_val(v), e.show(t)));
            ck!(
                tv.as_orig().id == e.sem(t),
                "typified value has id {} instead of {}",
                tv.as_orig().id,
                e.sem(t)
            );
            if let Err(m) = e.w.explicit(tv.as_val(), t) {
                fail!(
                    "{} typified as {} gives {}: {m}",
                    show_val(v),
                    e.show(t),
                    show_val(tv.as_val())
                );
            }
            let got = e.w.interp(tv.as_val(), t);
            ck!(
                got.as_ref() == Some(&exp),
                "{} typified as {} has become {}",
                show_val(v),
                e.show(t),
                show_val(tv.as_val())
            );
            let again = must!(
                e.types().typify(tv.as_val().clone(), e.sem(t)),
                "typify once more {}",
                show_val(tv.as_val())
            );
            ck!(
                again.as_val() == tv.as_val(),
                "{} of type {} typified once more has become {}",
                show_val(tv.as_val()),
                e.show(t),
                show_val(again.as_val())
            );
            // numbers keep their value exactly
            if let (MTy::Prim(_), StrictVal::Number(a), StrictVal::Number(b)) =
                (e.w.ty(t), v, tv.as_val())
            {
                let same = num_parts(a) == num_parts(b)
                    || unsigned_big(a) && num_parts(a).1 == num_parts(b).1;
                ck!(same, "number {a:?} has become {b:?}");
            }
            Ok(())
        }
        (Err(err), None) => {
            cx.count("rejected");
            if near {
                cx.count("rejected near miss");
                cx.sample(|| format!("{} rejected as {}: {err}", show_val(v), e.show(t)));
            }
            let _ = err.to_string();
            Ok(())
        }
        (Ok(tv), None) => fail!(
            "{} does not belong to {}, but was accepted as {}",
            show_val(v),
            e.show(t),
            show_val(tv.as_val())
        ),
        (Err(err), Some(_)) => fail!(
            "{} belongs to {}, but was rejected: {err}",
            show_val(v),
            e.show(t)
        ),
    }
}
fn unsigned_big(n: &StrictNum) -> bool {
    matches!(n, StrictNum::BigUint(_))
}

pub const C04: Prop = Prop {
    id: "C04",
    cases: (140_000, 2_000_000),
    run: c04,
    rule: "bytes (a valid encoding, one changed at one or more places, one with claimed lengths inflated, or random) are \
           deserialized and the verdict, the value, and the memory reserved are compared with an independent scanner; \
           non-trivial if bytes are valid or derive from valid ones",
    need: &[("accepted", 8_000), ("rejected", 20_000), ("type:map", 100), ("type:rstring", 30), ("memory observed", 20_000)],
    level: "exploration",
    assume: &[
        "libraries of the generated types are accepted by the type system builder",
        "zeroed memory reserved lazily by the raw reader of the strict_encoding dependency is not counted",
    ],
};

fn c04(cx: &mut Cx) -> R {
    let o = if cx.rng.chance(1, 5) {
        Opts::VALUES
    } else {
        Opts::DECODE
    };
    let e = Env::gen(cx, o)?;
    for _ in 0..4 {
        let t = pick_type(cx, &e.w);
        note_classes(cx, &e.w, t, "type:");
        let mut g = ValGen::new(&e.w, false);
        g.large = cx.rng.chance(1, 6);
        g.long = g.large;
        let base = g
            .val(&mut cx.rng, t)
            .map(|v| e.w.interp(&v, t).expect("harness: member"))
            .unwrap_or_default();
        one_read(cx, &e, t, &base, true)?;
        for _ in 0..7 {
            let mut d = base.clone();
            mutate_bytes(&mut cx.rng, &mut d);
            while cx.rng.chance(1, 5) {
                mutate_bytes(&mut cx.rng, &mut d);
            }
            one_read(cx, &e, t, &d, true)?;
        }
        let n = cx.rng.below(40) as usize;
        let d = cx.rng.bytes(n);
        one_read(cx, &e, t, &d, false)?;
    }
    Ok(())
}

fn one_read(cx: &mut Cx, e: &Env, t: TId, d: &[u8], near: bool) -> R {
    let exp = e.w.scan(d, 0, t);
    cx.say(|| format!("type {}\n  bytes {} -> {exp:?}", e.show(t), hex(d)));
    let (got, mem) = alloc::observe(|| e.types().strict_deserialize_type(e.sem(t), d));
    cx.count("memory observed");
    ck!(
        alloc::within(mem, d.len()),
        "reading {} bytes as {} reserved {} bytes at once, {} in total",
        d.len(),
        e.show(t),
        mem.max_single,
        mem.peak
    );
    if near {
        cx.eval(e.key(t, d));
    } else {
        cx.eval_trivial();
    }
    match (got, exp) {
        (Ok(tv), Scan::Ok(n)) if n == d.len() => {
            cx.count("accepted");
            cx.sample(|| {
                format!(
                    "{} read as {} : {}",
                    hex(d),
                    show_val(tv.as_val()),
                    e.show(t)
                )
            });
            ck!(
                tv.as_orig().id == e.sem(t),
                "value read has id {}",
                tv.as_orig().id
            );
            ck!(
                e.w.interp(tv.as_val(), t).as_deref() == Some(d),
                "{} read as {} gives {}",
                hex(d),
                e.show(t),
                show_val(tv.as_val())
            );
            if let Err(m) = e.w.explicit(tv.as_val(), t) {
                fail!("{} read as {}: {m}", hex(d), e.show(t));
            }
            let back = must!(ser(e.types(), &tv), "serialize {}", show_val(tv.as_val()));
            ck!(
                back == d,
                "{} of type {} reads as {} and serializes to {}",
                hex(d),
                e.show(t),
                show_val(tv.as_val()),
                hex(&back)
            );
            Ok(())
        }
        (Ok(tv), s) => fail!(
            "invalid encoding {} ({s:?} of {}) read as {} : {}",
            hex(d),
            d.len(),
            show_val(tv.as_val()),
            e.show(t)
        ),
        (Err(err), Scan::Ok(n)) if n == d.len() => {
            fail!(
                "valid encoding {} of {} is rejected: {err}",
                hex(d),
                e.show(t)
            )
        }
        (Err(err), _) => {
            cx.count("rejected");
            let _ = err.to_string();
            Ok(())
        }
    }
}
