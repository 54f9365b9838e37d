//! Developer triage: a plain differential comparison, per top level field.
use crate::*;
use simcore::model::Schema;
use simcore::rng::Rng;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn run(schemas: &[Schema], ops: &HashMap<&str, &'static dyn Ops>, n: usize) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut bad = 0;
    for s in schemas {
        let Some(o) = ops.get(s.name.as_str()) else { continue };
        let mut fails: BTreeMap<String, String> = BTreeMap::new();
        let mut r = Rng::new(7);
        let (by, bi) = o.sizes();
        if (by, bi) != (s.bytes, s.bits) {
            println!("{} SIZE {:?} model {:?}", s.name, (by, bi), (s.bytes, s.bits));
            bad += 1;
            if by != s.bytes {
                continue;
            }
        }
        let mut chk = |k: String, d: String| {
            fails.entry(k).or_insert(d);
        };
        for _ in 0..n {
            let mut b: Vec<u8> = (0..s.bytes).map(|_| r.next() as u8).collect();
            match r.below(4) {
                0 => b.fill(0),
                1 => b.fill(0xff),
                _ => {}
            }
            for (i, t) in s.tops.iter().enumerate() {
                let want = t.node.dec(&b);
                let got = catch_unwind(AssertUnwindSafe(|| o.read(i, &b)));
                match got {
                    Ok(g) if g == want => {}
                    g => chk(format!("read {}", t.name), format!("{:02x?} want {want} got {:?}", b, g.map(|x| x.to_string()).unwrap_or("panic".into()))),
                }
                if t.writable {
                    let v = t.node.gen(&mut r, false);
                    let mut m = b.clone();
                    t.node.enc(&v, &mut m);
                    let mut q = b.clone();
                    let res = catch_unwind(AssertUnwindSafe(|| o.write(i, &mut q, &v)));
                    if res.is_err() || m != q {
                        chk(format!("write {}", t.name), format!("{:02x?} val {v} want {m:02x?} got {q:02x?} {}", b, res.is_err()));
                    }
                    if t.slice_write {
                        let mut q = b[..t.need].to_vec();
                        let res = catch_unwind(AssertUnwindSafe(|| o.write_slice(i, &mut q, &v)));
                        if !matches!(res, Ok(Ok(()))) || m[..t.need] != q[..] {
                            chk(format!("wslice {}", t.name), format!("need {} {:02x?} val {v} want {m:02x?} got {q:02x?} {:?}", t.need, b, res.map_err(|_| ())));
                        }
                        let mut q = b[..t.need - 1].to_vec();
                        let res = catch_unwind(AssertUnwindSafe(|| o.write_slice(i, &mut q, &v)));
                        if !matches!(res, Ok(Err(_))) {
                            chk(format!("wslice-short {}", t.name), format!("need {}, {:?}", t.need, res.map_err(|_| ())));
                        }
                    }
                }
                let res = catch_unwind(AssertUnwindSafe(|| o.read_slice(i, &b[..t.need])));
                if !matches!(&res, Ok(Ok(x)) if *x == want) {
                    chk(format!("rslice {}", t.name), format!("need {} want {want} {:?}", t.need, res.map_err(|_| ())));
                }
                let res = catch_unwind(AssertUnwindSafe(|| o.read_slice(i, &b[..t.need - 1])));
                if !matches!(res, Ok(Err(_))) {
                    chk(format!("rslice-short {}", t.name), format!("need {}, {:?}", t.need, res.map_err(|_| ())));
                }
            }
            let want = s.dec(&b);
            let got = catch_unwind(AssertUnwindSafe(|| o.decode(&b)));
            if !matches!(&got, Ok(x) if *x == want) {
                chk("decode".into(), format!("{b:02x?} want {want} got {:?}", got.map(|x| x.to_string()).unwrap_or("panic".into())));
            }
            let mut vv = b.clone();
            let got = catch_unwind(AssertUnwindSafe(|| o.from_vec(&mut vv)));
            if !matches!(&got, Ok(Ok(x)) if *x == want) {
                chk("from_vec".into(), format!("{b:02x?} want {want} got {:?}", got.map(|x| format!("{x:?}")).unwrap_or("panic".into())));
            }
            let got = catch_unwind(AssertUnwindSafe(|| o.from_slice(&b)));
            if !matches!(&got, Ok(Ok(x)) if *x == want) {
                chk("from_slice".into(), format!("{b:02x?} want {want} got {:?}", got.map(|x| format!("{x:?}")).unwrap_or("panic".into())));
            }
            let v = s.gen(&mut r, false);
            let want = s.enc(&v);
            let got = catch_unwind(AssertUnwindSafe(|| o.encode(&v)));
            if !matches!(&got, Ok(x) if *x == want) {
                chk("encode".into(), format!("{v} want {want:02x?} got {:02x?}", got.unwrap_or(vec![])));
            }
        }
        if !fails.is_empty() {
            bad += 1;
            println!("== {} bytes {} bits {} [{}]", s.name, s.bytes, s.bits, s.flags.join(" "));
            for (k, d) in fails {
                println!("   {k}: {}", d.chars().take(300).collect::<String>());
            }
        }
    }
    println!("{bad} of {} schemas differ", schemas.len());
}
