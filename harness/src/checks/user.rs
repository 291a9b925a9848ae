//! C21 errors of user code.
use super::typed::some_bytes;
use super::util::*;
use crate::mon::*;
use crate::{ensure, vio};
use dlhn::{Deserializer, Serializer};
use refmodel::*;
use serde::de::DeserializeSeed;
use serde::Serialize;

/// Texts an error message may hold, with those the library uses itself among them.
fn text(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => "Read error".into(),
        2 => "write error".into(),
        3 => "EOF".into(),
        4 => "Unsupported Key Type".into(),
        5 => "unsupported key type".into(),
        6 => "unimplemented".into(),
        7 => "{} {0:?} \u{0} \"quoted\" \\ \r\n".into(),
        8 => {
            let n = r.range(200, 5000);
            gen_string(r, n)
        }
        _ => {
            let n = r.range(1, 40);
            gen_string(r, n)
        }
    }
}

fn position(r: &mut Rng, steps: u64) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => steps - 1,
        _ => r.below(steps as usize) as u64,
    }
}

/// Serialization that fails in user code at one step.
fn write_error(c: &mut Case, s: &Shape, v: &Val, enc: &[u8]) -> R {
    fuse::arm(u64::MAX, 0, "");
    let n = guard("serialize", || Typed(s, v).serialize(&mut Serializer::new(&mut MonWriter::new())).is_ok());
    let steps = fuse::disarm().passed;
    ensure!(n?, "{} is not written", s.brief());
    for _ in 0..4 {
        let p = position(&mut c.rng, steps);
        let t = text(&mut c.rng);
        let sch = if c.rng.bool() { Sched::Whole } else { sched(&mut c.rng) };
        let mut w = MonWriter::with(sch, None);
        fuse::arm(p, 0, &t);
        let r = guard("serialize", || Typed(s, v).serialize(&mut Serializer::new(&mut w)));
        let rep = fuse::disarm();
        let r = r?;
        ensure!(rep.blown.is_some(), "{}: step {} of {} is not reached", s.brief(), p, steps);
        ensure!(rep.after == 0, "{}: {} more values are asked for after an error of the user's at step {}", s.brief(), rep.after, p);
        match r {
            Ok(_) => vio!("{}: an error of the user's at step {} of {} is absorbed", s.brief(), p, steps),
            Err(e) => ensure!(
                e.to_string() == t,
                "{}: the user's error {:?} at step {} of {} comes back as {:?}",
                s.brief(), clip(&t, 60), p, steps, e
            ),
        }
        ensure!(
            enc.starts_with(&w.out),
            "{}: the bytes written before an error of the user's are no prefix of the encoding: {}",
            s.brief(), diff(&w.out, enc)
        );
        ensure!(
            Some(w.out.len()) == rep.blown,
            "{}: {} bytes are written after an error of the user's at step {}",
            s.brief(), w.out.len() as i64 - rep.blown.unwrap_or(0) as i64, p
        );
        c.evals(1);
        c.count("errors_while_writing", 1);
    }
    Ok(())
}

/// Deserialization that fails in user code at one step, of bytes that are fine until then.
fn read_error(c: &mut Case, s: &Shape, b: &[u8]) -> R {
    fuse::arm(u64::MAX, 0, "");
    let mut rd = MonReader::new(b);
    let first = de_shape(s, &mut rd);
    let steps = fuse::disarm().passed;
    let (first, _) = first?;
    if let Err(dlhn::de::Error::Message(m)) = &first {
        if model_err(m) {
            return Err(Broken::Harness(m.clone()));
        }
    }
    if steps == 0 {
        return Ok(());
    }
    for _ in 0..4 {
        let p = position(&mut c.rng, steps);
        let t = text(&mut c.rng);
        let form = c.rng.below(fuse::FORMS as usize) as u8;
        let sch = if c.rng.bool() { Sched::Whole } else { sched(&mut c.rng) };
        let mut rd = MonReader::with(b, sch, None);
        fuse::arm(p, form, &t);
        let r = de_shape(s, &mut rd);
        let rep = fuse::disarm();
        let (r, _) = r?;
        let want = fuse::de_err::<serde::de::value::Error>().to_string();
        ensure!(rep.blown.is_some(), "{}: step {} of {} is not reached", s.brief(), p, steps);
        ensure!(rep.after == 0, "{}: user code is called {} times more after its error at step {}", s.brief(), rep.after, p);
        match r {
            Ok(v) => vio!("{}: an error of the user's at step {} of {} is absorbed: {}", s.brief(), p, steps, v.brief()),
            Err(e) => ensure!(
                e.to_string() == want,
                "{}: the user's error {:?} at step {} of {} comes back as {:?}",
                s.brief(), clip(&want, 60), p, steps, e
            ),
        }
        ensure!(
            Some(rd.pos) == rep.blown,
            "{}: {} bytes are read after an error of the user's at step {}",
            s.brief(), rd.pos as i64 - rep.blown.unwrap_or(0) as i64, p
        );
        c.evals(1);
        c.count("errors_while_reading", 1);
    }
    Ok(())
}

/// The same, among the values of a stream: what was written and read before stays as it was.
fn in_stream(c: &mut Case) -> R {
    let s = gen_inhabited(&mut c.rng, 2, ANY);
    let mut b = 40;
    let v = gen_val(&mut c.rng, &s, &mut b);
    let enc = encode(&v);
    let t = text(&mut c.rng);
    let (before, after) = (c.rng.range(0, 3), c.rng.range(1, 3));
    fuse::arm(u64::MAX, 0, "");
    let n = guard("serialize", || Typed(&s, &v).serialize(&mut Serializer::new(&mut MonWriter::new())).is_ok());
    let steps = fuse::disarm().passed;
    ensure!(n?, "{} is not written", s.brief());
    let p = position(&mut c.rng, steps);
    let mut out = Vec::new();
    let r = guard("serialize", || {
        let mut ser = Serializer::new(&mut out);
        let mut ok = (0..before).all(|_| Typed(&s, &v).serialize(&mut ser).is_ok());
        fuse::arm(p, 0, &t);
        let e = Typed(&s, &v).serialize(&mut ser);
        fuse::disarm();
        ok &= (0..after).all(|_| Typed(&s, &v).serialize(&mut ser).is_ok());
        (ok, e)
    });
    fuse::disarm();
    let (ok, e) = r?;
    ensure!(ok, "{}: a value next to one that fails is not written", s.brief());
    match e {
        Ok(_) => vio!("{}: an error of the user's is absorbed on a used serializer", s.brief()),
        Err(e) => ensure!(e.to_string() == t, "{}: the user's error {:?} comes back as {:?} from a used serializer", s.brief(), clip(&t, 60), e),
    }
    let head = enc.repeat(before);
    let tail = enc.repeat(after);
    ensure!(
        out.starts_with(&head) && out.ends_with(&tail) && out.len() >= head.len() + tail.len(),
        "{}: values next to one that fails are disturbed: {}",
        s.brief(), hex(&out)
    );
    let part = &out[head.len()..out.len() - tail.len()];
    ensure!(enc.starts_with(part), "{}: a value that fails leaves {} of {}", s.brief(), hex(part), hex(&enc));
    // and reading: after an error before the first byte, the same deserializer reads on
    let form = c.rng.below(fuse::FORMS as usize) as u8;
    let all = enc.repeat(before + 1);
    let mut rd = MonReader::new(&all);
    let r = guard("deserialize", || {
        let mut d = Deserializer::new(&mut rd);
        let ok = (0..before).all(|_| Seed(&s).deserialize(&mut d).as_ref() == Ok(&v));
        fuse::arm(0, form, &t);
        let e = Seed(&s).deserialize(&mut d);
        fuse::disarm();
        let last = Seed(&s).deserialize(&mut d);
        (ok, e, last)
    });
    fuse::disarm();
    let (ok, e, last) = r?;
    ensure!(ok, "{}: the values before a failing read differ", s.brief());
    ensure!(e.is_err(), "{}: an error of the user's is absorbed on a used deserializer", s.brief());
    ensure!(last.as_ref() == Ok(&v), "{}: after an error of the user's the next read gives {:?} instead of {}", s.brief(), last, v.brief());
    c.evals(2);
    c.count("errors_in_streams", 2);
    c.seen(mix(p, shape_hash(&s, &enc)));
    Ok(())
}

pub fn c21(run: &Run) {
    run.section("writing", run.n(12_000, 1_200_000), |c| {
        let s = gen_inhabited(&mut c.rng, 4, ANY);
        let mut b = val_budget(&mut c.rng).min(3_000);
        let v = gen_val(&mut c.rng, &s, &mut b);
        let enc = encode(&v);
        write_error(c, &s, &v, &enc)?;
        c.sample(|| format!("{} {}", s.brief(), v.brief()));
        c.seen(shape_hash(&s, &enc));
        Ok(())
    });
    run.section("reading", run.n(15_000, 1_500_000), |c| {
        let s = gen_shape(&mut c.rng, 4, HOSTILE);
        let b = some_bytes(c, &s);
        read_error(c, &s, &b)?;
        c.sample(|| format!("{} from {}", s.brief(), hex(&b)));
        c.seen(shape_hash(&s, &b));
        Ok(())
    });
    run.section("streams", run.n(8_000, 500_000), in_stream);
}
